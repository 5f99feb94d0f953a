// U01: the segmented vector against a model
#include "pbt.h"
#include <mito/utilities.h>

namespace {
    // bookkeeping of the objects that are alive at every address
    struct Ledger {
        std::map<const void *, int> alive;
        std::map<int, int> destroyed;    // id -> times
        int next_id = 0;
        std::string error;
        void born(const void * p, int id)
        {
            if (alive.count(p) && error.empty())
                error = "an object was constructed over a live one";
            alive[p] = id;
        }
        void died(const void * p, int id)
        {
            auto it = alive.find(p);
            if ((it == alive.end() || it->second != id) && error.empty())
                error = "an object was destroyed that is not alive";
            if (it != alive.end())
                alive.erase(it);
            if (++destroyed[id] > 1 && error.empty())
                error = "an object was destroyed twice";
        }
    };
    Ledger * ledger = nullptr;

    template <class Payload>
    class Item : public mito::utilities::Invalidatable {
      public:
        Item(int id, Payload x) : _payload(x), _id(id), _heap(new int(id)) { ledger->born(this, id); }
        Item(const Item &) = delete;
        Item & operator=(const Item &) = delete;
        ~Item()
        {
            ledger->died(this, _id);
            delete _heap;
        }
        int id() const { return _id; }
        int heap() const { return *_heap; }
        const Payload & payload() const { return _payload; }

      private:
        Payload _payload;
        int _id;
        int * _heap;
    };

    // a resource that is as small as it can be
    class Tiny : public mito::utilities::Invalidatable {
      public:
        Tiny(int id, char) : _id(uint8_t(id)) {}
        int id() const { return _id; }

      private:
        uint8_t _id;
    };

    struct Slot {
        const void * address;
        int id;
        bool live;
    };

    template <class vector_t>
    struct Model {
        std::vector<Slot> slots;
        int n_free = 0;
        int segment = 1;
        int live() const
        {
            int n = 0;
            for (auto & s : slots)
                n += s.live;
            return n;
        }
        int index_of(const void * p) const
        {
            for (size_t i = 0; i < slots.size(); ++i)
                if (slots[i].address == p)
                    return int(i);
            return -1;
        }
    };

    template <class vector_t, class idf_t>
    void audit(pbt::Gen & g, pbt::Ctx & c, vector_t & v, const Model<vector_t> & m, idf_t id_of)
    {
        c.check(std::size(v) == m.live(), "size() is ", std::size(v), ", ", m.live(), " are stored");
        int segments = (int(m.slots.size()) + m.segment - 1) / m.segment;
        c.check(v.capacity() == segments * m.segment, "capacity() is ", v.capacity(), " with ",
                m.slots.size(), " slots in segments of ", m.segment);
        std::vector<int> expected;
        for (auto & s : m.slots)
            if (s.live)
                expected.push_back(s.id);
        // at the end of a full iteration: exactly the live elements, in slot order
        auto compare = [&](const std::vector<int> & got, const char * how) {
            if (got == expected)
                return;
            std::ostringstream os;
            for (auto x : got)
                os << x << " ";
            os << "instead of ";
            for (auto x : expected)
                os << x << " ";
            c.check(false, "iteration (", how, ") visits ", os.str());
        };
        std::vector<int> got;
        size_t limit = m.slots.size() + 5;
        int mode = g.below(4);
        if (mode == 0 || mode == 3) {
            for (auto & el : v) {
                c.check(el.is_valid(), "iteration visits an erased element");
                got.push_back(id_of(el));
                if (got.size() > limit)
                    break;
            }
            compare(got, "range for");
        }
        if (mode == 1 || mode == 3) {
            got.clear();
            const auto & cv = v;
            for (auto it = cv.begin(); it != cv.end() && got.size() < limit; ++it) {
                c.check((*it).is_valid(), "iteration visits an erased element");
                got.push_back(id_of(*it));
                c.check(&*it == it.operator->(), "the two ways to dereference disagree");
            }
            compare(got, "prefix increment");
        }
        if (mode == 2 || mode == 3) {
            got.clear();
            auto it = v.begin();
            while (it != v.end() && got.size() < limit) {
                auto old = it++;
                c.check((*old).is_valid(), "iteration visits an erased element (postfix increment)");
                got.push_back(id_of(*old));
                if (it != v.end())
                    c.check((*it).is_valid(),
                            "postfix increment leaves the iterator on an erased element");
            }
            compare(got, "postfix increment");
        }
        // random access: the i-th slot, whether or not it is valid
        for (size_t i = 0; i < m.slots.size(); ++i) {
            const auto & cv = v;
            c.check(static_cast<const void *>(&v[int(i)]) == m.slots[i].address
                        && static_cast<const void *>(&cv[int(i)]) == m.slots[i].address,
                    "element ", i, " is not where it was put");
            c.check(v[int(i)].is_valid() == m.slots[i].live, "element ", i, " has the wrong validity");
            if (m.slots[i].live)
                c.check(id_of(v[int(i)]) == m.slots[i].id, "element ", i, " has changed its content");
        }
    }

    template <class item_t, class payload_t>
    void vector_history(pbt::Gen & g, pbt::Ctx & c, payload_t filler, int id_mask)
    {
        using vector_t = mito::utilities::segmented_vector_t<item_t>;
        Ledger led;
        ledger = &led;
        int segment = g.pick({ 1, 2, 3, 4, 5, 8, 17 });
        int n_ops = 1 + g.below(g.size() * 2 + 2);
        int erased = 0, reused = 0, moved = 0;
        {
            auto v = std::make_unique<vector_t>(segment);
            Model<vector_t> m;
            m.segment = segment;
            auto id_of = [&](const item_t & x) { return x.id(); };
            c.note("segment size ", segment, ", object size ", sizeof(item_t));
            auto emplace = [&]() {
                int id = led.next_id++ & id_mask;
                auto & r = v->emplace(id, filler);
                const void * p = &r;
                int k = m.index_of(p);
                c.note("emplace ", id, " -> slot ", k < 0 ? int(m.slots.size()) : k);
                if (k < 0) {
                    c.check(m.n_free == 0, "storage grows although ", m.n_free, " slots are free");
                    m.slots.push_back({ p, id, true });
                } else {
                    c.check(!m.slots[size_t(k)].live, "a live element was overwritten");
                    m.slots[size_t(k)].id = id;
                    m.slots[size_t(k)].live = true;
                    --m.n_free;
                    ++reused;
                }
                c.check(r.is_valid(), "a new element is not valid");
            };
            auto erase_at = [&](size_t k) {
                auto & r = (*v)[int(k)];
                bool was = m.slots[k].live;
                bool did = v->erase(r);
                c.note("erase slot ", k, was ? "" : " (erased before)");
                c.check(did == was, "erase returns ", did, " for ", was ? "a live" : "an erased",
                        " element");
                c.check(!r.is_valid(), "an erased element is still valid");
                if (was) {
                    m.slots[k].live = false;
                    ++m.n_free;
                    ++erased;
                }
            };
            for (int op = 0; op < n_ops; ++op) {
                switch (g.weighted({ 10, 6, 1, 2, 2, 1, 2 })) {
                case 0:
                    emplace();
                    break;
                case 1:
                    if (!m.slots.empty())
                        erase_at(size_t(g.below(int(m.slots.size()))));
                    break;
                case 2: {    // a burst
                    int n = 1 + g.below(3 * segment);
                    for (int i = 0; i < n; ++i)
                        emplace();
                    break;
                }
                case 3: {    // a run of neighbours
                    if (m.slots.empty())
                        break;
                    int a = g.below(int(m.slots.size())), n = 1 + g.below(2 * segment);
                    for (int i = a; i < std::min(a + n, int(m.slots.size())); ++i)
                        erase_at(size_t(i));
                    break;
                }
                case 4: {    // erase while iterating
                    int mod = 1 + g.below(4);
                    std::vector<int> seen, expected;
                    for (auto & s : m.slots)
                        if (s.live)
                            expected.push_back(s.id);
                    c.note("erase every ", mod, "-th element while iterating");
                    int n = 0;
                    for (auto & el : *v) {
                        seen.push_back(el.id());
                        if (seen.size() > expected.size())
                            break;
                        if (n++ % mod == 0) {
                            int k = m.index_of(&el);
                            c.check(k >= 0, "iteration visits storage that was never filled");
                            erase_at(size_t(k));
                        }
                    }
                    c.check(seen == expected, "an iteration that erases what it visits sees ",
                            seen.size(), " of ", expected.size(), " elements");
                    break;
                }
                case 5: {    // move the container
                    auto w = std::make_unique<vector_t>(std::move(*v));
                    c.note("move");
                    c.check(std::size(*v) == 0 && v->capacity() == 0,
                            "a container that was moved from is not empty");
                    int n = 0;
                    for ([[maybe_unused]] auto & el : *v)
                        ++n;
                    c.check(n == 0, "a container that was moved from has elements to visit");
                    if (g.flip()) {
                        // and it is still a container
                        v->emplace(led.next_id++ & id_mask, filler);
                        c.check(std::size(*v) == 1 && v->capacity() == segment,
                                "a container that was moved from cannot be filled again");
                        int cnt = 0;
                        for ([[maybe_unused]] auto & el : *v)
                            ++cnt;
                        c.check(cnt == 1, "the new element is visited ", cnt, " times");
                    }
                    v = std::move(w);
                    ++moved;
                    break;
                }
                case 6:
                    audit(g, c, *v, m, id_of);
                    break;
                }
                c.check(led.error.empty(), led.error);
            }
            audit(g, c, *v, m, id_of);
        }
        c.check(led.error.empty(), led.error);
        c.check(led.alive.empty(), led.alive.size(), " elements were never destroyed");
        if (erased > 0 && reused > 0)
            c.nontrivial();
        if (moved)
            c.label("moved");
        c.label("segment " + std::to_string(segment));
    }
}    // namespace

PROP(vector_small_objects, 4)
{
    vector_history<Item<long>>(g, c, 7L, 0x7fffffff);
}

PROP(vector_large_objects, 4)
{
    vector_history<Item<std::array<double, 16>>>(g, c, std::array<double, 16>{ 1.5 }, 0x7fffffff);
}

PROP(vector_string_objects, 2)
{
    vector_history<Item<std::string>>(
        g, c, std::string("a string that does not fit in place, so it owns memory"), 0x7fffffff);
}

// one- or two-byte objects
PROP(vector_tiny_objects, 2)
{
    vector_history<Tiny>(g, c, 'x', 0xff);
}

// long runs of erased elements
PROP(vector_long_erased_run, 1)
{
    Ledger led;
    ledger = &led;
    int n = 1000 * (1 + g.below(300)), segment = g.pick({ 1000, 4096, 100000 });
    int keep_first = g.below(3), keep_last = g.below(3);
    c.note("store ", n, " elements, erase all but the first ", keep_first, " and the last ", keep_last);
    mito::utilities::segmented_vector_t<Tiny> v(segment);
    std::vector<Tiny *> p;
    for (int i = 0; i < n; ++i)
        p.push_back(&v.emplace(i, 'x'));
    for (int i = keep_first; i < n - keep_last; ++i)
        v.erase(*p[size_t(i)]);
    int seen = 0;
    for ([[maybe_unused]] auto & el : v)
        ++seen;
    c.check(seen == keep_first + keep_last, "iteration visits ", seen, " elements");
    c.check(std::size(v) == seen, "size is ", std::size(v));
    if (n > 50000)
        c.nontrivial();
}
