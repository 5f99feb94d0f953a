// U03: the intrusive shared pointer against std::shared_ptr
#include "pbt.h"
#include <mito/utilities.h>

namespace {
    class Item : public mito::utilities::Shareable {
      public:
        Item(int id) : _id(id) {}
        int id() const { return _id; }
        int touched = 0;

      private:
        int _id;
    };
    using pointer_t = mito::utilities::shared_ptr<Item>;
    using model_t = std::shared_ptr<int>;

    struct Pair {
        pointer_t p;
        model_t m;
    };

    // a value that can be moved through a function
    pointer_t pass(pointer_t p) { return p; }
}    // namespace

PROP(pointer_history, 15)
{
    int n_res = 1 + g.below(4);
    std::vector<std::unique_ptr<Item>> items;
    std::vector<model_t> masters;
    for (int i = 0; i < n_res; ++i) {
        items.push_back(std::make_unique<Item>(i));
        masters.push_back(std::make_shared<int>(i));
    }
    int nulls = 0, same = 0, shared = 0;
    {
        std::vector<std::unique_ptr<Pair>> v;
        v.push_back(std::make_unique<Pair>());
        auto any = [&]() -> Pair & { return *v[size_t(g.below(int(v.size())))]; };
        auto name = [&](const Pair & x) {
            std::ostringstream os;
            for (size_t i = 0; i < v.size(); ++i)
                if (v[i].get() == &x)
                    os << "p" << i;
            os << (x.m ? "(->" + std::to_string(*x.m) + ")" : "(null)");
            return os.str();
        };
        int n_ops = 1 + g.below(g.size() + 2);
        for (int op = 0; op < n_ops; ++op) {
            switch (g.weighted({ 4, 1, 1, 4, 3, 5, 5, 2, 2, 2, 1 })) {
            case 0: {
                int i = g.below(n_res);
                c.note("new pointer to ", i);
                v.push_back(std::make_unique<Pair>(
                    Pair{ pointer_t(items[size_t(i)].get()), masters[size_t(i)] }));
                break;
            }
            case 1:
                c.note("new null pointer");
                v.push_back(std::make_unique<Pair>());
                ++nulls;
                break;
            case 2:
                c.note("new pointer from a null handle");
                v.push_back(
                    std::make_unique<Pair>(Pair{ pointer_t(static_cast<Item *>(nullptr)), {} }));
                ++nulls;
                break;
            case 3: {
                auto & a = any();
                c.note("copy-construct from ", name(a));
                nulls += !a.m;
                v.push_back(std::make_unique<Pair>(Pair{ pointer_t(a.p), model_t(a.m) }));
                break;
            }
            case 4: {
                auto & a = any();
                c.note("move-construct from ", name(a));
                v.push_back(
                    std::make_unique<Pair>(Pair{ pointer_t(std::move(a.p)), std::move(a.m) }));
                break;
            }
            case 5: {
                auto &a = any(), &b = any();
                c.note(name(a), " = ", name(b));
                nulls += !b.m;
                same += a.m && a.m == b.m;
                a.p = b.p;
                a.m = b.m;
                break;
            }
            case 6: {
                auto &a = any(), &b = any();
                c.note(name(a), " = move ", name(b));
                same += a.m && a.m == b.m;
                if (&a == &b) {
                    a.p = std::move(a.p);
                    // a self move may leave either state, as long as the count agrees with it
                    if (a.p.is_nullptr())
                        a.m.reset();
                } else {
                    a.p = std::move(b.p);
                    a.m = std::move(b.m);
                }
                break;
            }
            case 7:
                if (v.size() > 1) {
                    size_t k = size_t(g.below(int(v.size())));
                    c.note("destroy ", name(*v[k]));
                    v.erase(v.begin() + long(k));
                }
                break;
            case 8: {
                auto &a = any(), &b = any();
                c.note("swap ", name(a), " and ", name(b));
                same += a.m && a.m == b.m;
                std::swap(a.p, b.p);
                std::swap(a.m, b.m);
                break;
            }
            case 9: {
                auto & a = any();
                c.note("pass ", name(a), " by value and back");
                a.p = pass(a.p);
                break;
            }
            case 10: {
                auto & a = any();
                c.note("copies of ", name(a), " in a container");
                std::vector<pointer_t> w(size_t(1 + g.below(4)), a.p);
                w.insert(w.begin(), a.p);
                w.erase(w.begin() + g.below(int(w.size())));
                std::vector<pointer_t> w2 = w;
                w = std::move(w2);
                break;
            }
            }
            // compare
            for (auto & x : v) {
                c.check(x->p.is_nullptr() == !x->m, name(*x), " is ",
                        x->p.is_nullptr() ? "null" : "not null");
                if (!x->m)
                    continue;
                c.check(x->p.operator->() == items[size_t(*x->m)].get(), name(*x),
                        " points to something else");
                // the masters hold one reference each in the model
                c.check(x->p.references() == int(x->m.use_count()) - 1, name(*x), " counts ",
                        x->p.references(), " references instead of ", x->m.use_count() - 1);
                shared += x->p.references() > 1;
                c.check(x->p->is_valid(), name(*x), " points to an invalid resource");
            }
            for (auto & x : v)
                for (auto & y : v) {
                    c.check((x->p == y->p) == (x->m == y->m), "equality of ", name(*x), " and ",
                            name(*y));
                    c.check((x->p.id() == y->p.id()) == (x->m == y->m), "ids of ", name(*x), " and ",
                            name(*y));
                    // a strict weak order that agrees with equality
                    c.check((x->p < y->p) + (y->p < x->p) + (x->p == y->p) == 1, "order of ",
                            name(*x), " and ", name(*y));
                    mito::utilities::hash_function<pointer_t> h;
                    if (x->m == y->m)
                        c.check(h(x->p) == h(y->p), "hashes of equal pointers differ");
                }
            for (int i = 0; i < n_res; ++i)
                c.check(items[size_t(i)]->is_valid() == (masters[size_t(i)].use_count() > 1),
                        "resource ", i, " is ", items[size_t(i)]->is_valid() ? "" : "not ",
                        "valid with ", masters[size_t(i)].use_count() - 1, " pointers to it");
        }
        if (shared > 2 && (nulls || same))
            c.nontrivial();
        if (same)
            c.label("same resource assigned");
        if (nulls)
            c.label("null copied");
    }
    for (int i = 0; i < n_res; ++i)
        c.check(!items[size_t(i)]->is_valid(), "resource ", i, " has references left at the end");
}

// the wrapper of std::shared_ptr
PROP(std_pointer_history, 15)
{
    struct Thing {
        Thing(int a, double b) : a(a), b(b) { ++count(); }
        Thing(const Thing & o) : a(o.a), b(o.b) { ++count(); }
        ~Thing() { --count(); }
        static int & count()
        {
            static int n = 0;
            return n;
        }
        int a;
        double b;
    };
    using sptr = mito::utilities::std_shared_ptr<Thing>;
    int before = Thing::count();
    {
        std::vector<std::pair<sptr, int>> v;
        std::set<int> ever;
        int next = 0;
        v.push_back({ sptr(next, 0.0), next });
        int n_ops = 1 + g.below(g.size() + 2);
        for (int op = 0; op < n_ops; ++op) {
            size_t i = size_t(g.below(int(v.size()))), j = size_t(g.below(int(v.size())));
            switch (g.below(4)) {
            case 0:
                ++next;
                v.push_back({ sptr(next, next * 0.5), next });
                break;
            case 1:
                v.push_back(v[i]);
                break;
            case 2:
                v[i] = v[j];
                break;
            case 3:
                if (v.size() > 1)
                    v.erase(v.begin() + long(i));
                break;
            }
            std::set<int> alive;
            for (auto & [p, k] : v)
                alive.insert(k);
            c.check(Thing::count() - before == int(alive.size()), Thing::count() - before,
                    " objects are alive, ", alive.size(), " are referred to");
            for (auto & [p, k] : v) {
                c.check(p->a == k && p->b == k * 0.5, "the content has changed");
                for (auto & [q, l] : v) {
                    c.check((p == q) == (k == l), "equality of pointers");
                    c.check((p < q) + (q < p) + (p == q) == 1, "order of pointers");
                }
            }
        }
        if (v.size() > 3)
            c.nontrivial();
    }
    c.check(Thing::count() == before, "objects are left");
}

// very many pointers to one resource
PROP(crowd, 1)
{
    Item item(7), other(8);
    int n = g.chance(1, 60) ? g.range(65000, 70000) : g.chance(1, 2) ? g.range(100, 300) : g.range(300, 3000);
    c.note(n, " pointers to one resource");
    std::vector<pointer_t> v;
    bool room = g.flip();
    if (room)
        v.reserve(size_t(n));
    v.push_back(pointer_t(&item));
    for (int i = 1; i < n; ++i) {
        if (i % 3 == 0)
            v.push_back(pointer_t(&item));
        else
            v.push_back(v[size_t(i / 2)]);
    }
    auto count = [&](int want, const char * when) {
        c.check(item.is_valid() == (want > 0), "validity ", when);
        if (want > 0)
            c.check(v[0].references() == want, v[0].references(), " references instead of ", want, " ", when);
    };
    count(n, "after copying");
    int k = g.range(1, n - 1);
    if (g.flip()) {
        v.resize(size_t(k));
        count(k, "after dropping the last ones");
    } else {
        for (int i = k; i < n; ++i)
            v[size_t(i)] = pointer_t(&other);
        count(k, "after referring others to another resource");
        c.check(v.back().references() == n - k, "references of the other resource");
        v.resize(size_t(k));
        c.check(!other.is_valid(), "the other resource has no references left");
    }
    auto w = v;
    count(2 * k, "after copying them all");
    w.clear();
    count(k, "after dropping the copies");
    v.resize(1);
    count(1, "with one left");
    v.clear();
    count(0, "with none left");
    c.nontrivial();
}
