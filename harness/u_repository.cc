// U02: the repository of shared resources against a model
#include "pbt.h"
#include <mito/utilities.h>

namespace {
    struct Ledger {
        std::map<const void *, int> alive;
        std::map<int, int> destroyed;
        int next_id = 0;
        std::string error;
        void born(const void * p, int id)
        {
            if (alive.count(p) && error.empty())
                error = "a resource was constructed over a live one";
            alive[p] = id;
        }
        void died(const void * p, int id)
        {
            auto it = alive.find(p);
            if ((it == alive.end() || it->second != id) && error.empty())
                error = "a resource was destroyed that is not alive";
            if (it != alive.end())
                alive.erase(it);
            if (++destroyed[id] > 1 && error.empty())
                error = "a resource was destroyed twice";
        }
    };
    Ledger * ledger = nullptr;

    template <class Payload>
    class Item : public mito::utilities::Shareable {
      public:
        Item(int id, Payload x) : _payload(x), _id(id), _heap(new int(id)) { ledger->born(this, id); }
        ~Item() override
        {
            ledger->died(this, _id);
            delete _heap;
            _heap = nullptr;
        }
        int id() const { return _id; }
        int heap() const { return *_heap; }
        const Payload & payload() const { return _payload; }

      private:
        Payload _payload;
        int _id;
        int * _heap;
    };

    struct Entry {
        const void * address;
        int id;
        bool stored;
    };

    template <class item_t, class payload_t>
    void repository_history(pbt::Gen & g, pbt::Ctx & c, payload_t filler)
    {
        using pointer_t = mito::utilities::shared_ptr<item_t>;
        using repository_t = mito::utilities::repository_t<pointer_t>;
        Ledger led;
        ledger = &led;
        int segment = g.pick({ 1, 2, 3, 4, 5, 8, 17 });
        int n_ops = 1 + g.below(g.size() * 2 + 2);
        int erased = 0, reused = 0, refused = 0;
        c.note("segment size ", segment, ", object size ", sizeof(item_t));
        {
            repository_t r(segment);
            std::vector<Entry> slots;
            struct Holder {
                pointer_t p;
                int slot;
            };
            std::list<Holder> holders;
            auto refs = [&](int slot) {
                int n = 0;
                for (auto & h : holders)
                    n += h.slot == slot;
                return n;
            };
            auto holder_at = [&](int k) {
                auto it = holders.begin();
                std::advance(it, k);
                return it;
            };
            auto audit = [&]() {
                int stored = 0;
                std::vector<int> expected;
                std::set<int> orphans;
                for (size_t i = 0; i < slots.size(); ++i) {
                    if (!slots[i].stored)
                        continue;
                    ++stored;
                    if (refs(int(i)))
                        expected.push_back(slots[i].id);
                    else
                        orphans.insert(slots[i].id);
                }
                c.check(std::size(r) == stored, "size() is ", std::size(r), ", ", stored,
                        " are stored");
                int segments = (int(slots.size()) + segment - 1) / segment;
                c.check(r.capacity() == segments * segment, "capacity() is ", r.capacity(), " with ",
                        slots.size(), " slots in segments of ", segment);
                size_t limit = slots.size() + 5;
                int mode = g.below(3);
                std::vector<int> got;
                // (a resource that nobody holds any more may or may not be visited)
                auto take = [&](const item_t & x) {
                    c.check(led.alive.count(&x), "iteration visits a destroyed resource");
                    if (!orphans.count(x.id()))
                        got.push_back(x.id());
                };
                if (mode == 0) {
                    size_t n = 0;
                    for (const auto & el : r) {
                        take(*el.operator->());
                        if (++n > limit)
                            break;
                    }
                } else if (mode == 1) {
                    size_t n = 0;
                    for (auto it = r.begin(); it != r.end() && n < limit; ++it, ++n)
                        take(*((*it).operator->()));
                } else {
                    size_t n = 0;
                    auto it = r.begin();
                    while (it != r.end() && n < limit) {
                        auto old = it++;
                        auto p = *old;
                        take(*p.operator->());
                        ++n;
                    }
                }
                std::ostringstream os;
                for (auto x : got)
                    os << x << " ";
                os << "instead of ";
                for (auto x : expected)
                    os << x << " ";
                c.check(got == expected, "iteration visits ", os.str());
                for (auto & h : holders) {
                    auto & e = slots[size_t(h.slot)];
                    c.check(static_cast<const void *>(h.p.operator->()) == e.address,
                            "a pointer has moved");
                    c.check(h.p->id() == e.id && h.p->heap() == e.id,
                            "a stored resource has changed its content");
                    c.check(h.p.references() == refs(h.slot), "resource ", e.id, " counts ",
                            h.p.references(), " references, ", refs(h.slot), " pointers refer to it");
                    auto q = repository_t::resource(h.p.id());
                    c.check(q == h.p && static_cast<const void *>(q.operator->()) == e.address,
                            "the resource of an id is not the one that has that id");
                }
            };
            auto emplace = [&](bool hold) {
                int id = led.next_id++;
                auto p = r.emplace(id, filler);
                const void * a = p.operator->();
                int k = -1;
                for (size_t i = 0; i < slots.size(); ++i)
                    if (slots[i].address == a)
                        k = int(i);
                c.note("emplace ", id, " -> slot ", k < 0 ? int(slots.size()) : k,
                       hold ? "" : ", drop the pointer");
                if (k < 0) {
                    int n_free = 0;
                    for (auto & s : slots)
                        n_free += !s.stored;
                    c.check(n_free == 0, "storage grows although ", n_free, " slots are free");
                    slots.push_back({ a, id, true });
                    k = int(slots.size()) - 1;
                } else {
                    c.check(!slots[size_t(k)].stored, "a stored resource was overwritten");
                    slots[size_t(k)] = { a, id, true };
                    ++reused;
                }
                c.check(p.references() == 1, "a new resource has ", p.references(), " references");
                c.check(p->is_valid(), "a new resource is not valid");
                if (hold)
                    holders.push_back({ std::move(p), k });
            };
            for (int op = 0; op < n_ops; ++op) {
                switch (g.weighted({ 10, 4, 4, 7, 1, 2, 1, 2 })) {
                case 0:
                    emplace(true);
                    break;
                case 1:    // one more user
                    if (!holders.empty()) {
                        auto h = holder_at(g.below(int(holders.size())));
                        c.note("copy a pointer to slot ", h->slot);
                        holders.push_back({ h->p, h->slot });
                    }
                    break;
                case 2:    // one user less
                    if (!holders.empty()) {
                        auto h = holder_at(g.below(int(holders.size())));
                        // (do not leave too many resources without a user)
                        if (refs(h->slot) > 1 || g.chance(1, 4)) {
                            c.note("drop a pointer to slot ", h->slot);
                            holders.erase(h);
                        }
                    }
                    break;
                case 3:    // erase
                    if (!holders.empty()) {
                        auto h = holder_at(g.below(int(holders.size())));
                        int n = refs(h->slot);
                        int k = h->slot;
                        c.note("erase slot ", k, " that ", n, " pointers refer to");
                        bool did = r.erase(h->p);
                        if (n > 1) {
                            ++refused;
                            c.check(!did, "a resource that others use was erased");
                            c.check(!h->p.is_nullptr() && h->p.references() == n,
                                    "an erasure that was refused changes the pointer");
                        } else {
                            c.check(did, "a resource that nobody else uses was not erased");
                            c.check(h->p.is_nullptr(),
                                    "the pointer to an erased resource is not null");
                            slots[size_t(k)].stored = false;
                            c.check(led.destroyed[slots[size_t(k)].id] == 1,
                                    "an erased resource was not destroyed");
                            holders.erase(h);
                            ++erased;
                        }
                    }
                    break;
                case 4: {
                    pointer_t null;
                    c.note("erase the null pointer");
                    c.check(!r.erase(null), "erasing the null pointer has an effect");
                    break;
                }
                case 5:
                    audit();
                    break;
                case 6:
                    emplace(false);
                    break;
                case 7: {
                    int n = 1 + g.below(3 * segment);
                    for (int i = 0; i < n; ++i)
                        emplace(true);
                    break;
                }
                }
                c.check(led.error.empty(), led.error);
            }
            audit();
            holders.clear();
        }
        c.check(led.error.empty(), led.error);
        c.check(led.alive.empty(), led.alive.size(), " resources were never destroyed");
        if (erased > 0 && reused > 0)
            c.nontrivial();
        if (refused)
            c.label("erase refused");
    }

    // very many resources, and very many users of one of them
    template <class item_t>
    void crowd(pbt::Gen & g, pbt::Ctx & c, auto && filler)
    {
        using pointer_t = mito::utilities::shared_ptr<item_t>;
        using repository_t = mito::utilities::repository_t<pointer_t>;
        Ledger led;
        ledger = &led;
        int segment = g.pick({ 1, 7, 64, 100, 1000 });
        int n = g.chance(1, 60) ? g.range(65500, 67000) : g.range(100, 1500);
        c.note(n, " resources in segments of ", segment);
        {
            repository_t r(segment);
            std::vector<pointer_t> held;
            std::set<const void *> places;
            for (int i = 0; i < n; ++i) {
                held.push_back(r.emplace(i, filler));
                places.insert(held.back().operator->());
            }
            c.check(int(places.size()) == n, "resources in the same place");
            c.check(std::size(r) == n && r.capacity() == (n + segment - 1) / segment * segment, "size and capacity");
            // users of one of them
            int k = g.below(n), users = g.chance(1, 20) ? g.range(65500, 66000) : g.range(100, 400);
            {
                std::vector<pointer_t> more(size_t(users), held[size_t(k)]);
                c.check(held[size_t(k)].references() == users + 1, "references of the one with ", users, " more users");
                c.check(!r.erase(held[size_t(k)]) && std::size(r) == n, "a resource in use was erased");
            }
            c.check(held[size_t(k)].references() == 1, "references of the one that lost its users");
            // erase some
            int step = g.range(1, 5), gone = 0;
            for (int i = g.below(n); i < n; i += step) {
                c.check(r.erase(held[size_t(i)]) && held[size_t(i)].is_nullptr(), "erasing resource ", i);
                c.check(led.destroyed[i] == 1, "an erased resource was not destroyed");
                ++gone;
            }
            c.check(std::size(r) == n - gone, "size after erasing ", gone);
            auto visit = [&]() {
                std::set<int> seen;
                for (const auto & x : r)
                    c.check(led.alive.count(x.operator->()) && seen.insert(x->id()).second, "a resource that was erased or visited already");
                size_t want = 0;
                for (auto & h : held)
                    if (!h.is_nullptr()) {
                        ++want;
                        c.check(seen.count(h->id()), "resource ", h->id(), " was not visited");
                        c.check(repository_t::resource(h.id()) == h, "the resource of an id");
                    }
                c.check(seen.size() == want, seen.size(), " resources visited instead of ", want);
            };
            visit();
            int capacity = r.capacity(), again = g.range(1, gone);
            for (int i = 0; i < again; ++i) {
                held.push_back(r.emplace(n + i, filler));
                c.check(places.count(held.back().operator->()), "storage grows although places are free");
            }
            c.check(r.capacity() == capacity && std::size(r) == n - gone + again, "size and capacity after filling up again");
            visit();
            c.check(led.error.empty(), led.error);
            held.clear();
        }
        c.check(led.error.empty(), led.error);
        c.check(led.alive.empty(), led.alive.size(), " resources were never destroyed");
        c.nontrivial();
    }
}    // namespace

PROP(repository_crowd, 1)
{
    crowd<Item<long>>(g, c, 3L);
}

PROP(repository_small, 30)
{
    repository_history<Item<long>>(g, c, 3L);
}

PROP(repository_large, 30)
{
    repository_history<Item<std::array<double, 9>>>(g, c, std::array<double, 9>{ 2.5 });
}

PROP(repository_strings, 20)
{
    repository_history<Item<std::string>>(
        g, c, std::string("a string that does not fit in place, so it owns memory"));
}
