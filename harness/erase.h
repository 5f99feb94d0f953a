// erasing simplices, against a model that counts who uses what (T03, T01)
#pragma once
#include "topo.h"
using namespace topo;

namespace {
    // The model: unoriented simplices by their sorted labels; oriented ones by class. Every use of a
    // simplex is counted: by the user's handles and by the compositions of larger simplices.
    struct Model {
        struct Oriented {
            int users = 0;        // handles held by the test
            int composed = 0;     // occurrences in the compositions of existing footprints
        };
        struct Foot {
            std::vector<Class> composition;    // what it is made of (as first built)
        };
        std::array<std::map<Class, Oriented>, 4> oriented;
        std::array<std::map<std::vector<int>, Foot>, 4> feet;
        std::set<int> held_vertices;    // vertices that the user holds (all of them)

        // build the simplex with vertices {v}
        void build(const std::vector<int> & v)
        {
            size_t n = v.size() - 1;
            std::vector<Class> comp;
            if (n == 1) {
                comp = { Class{ { v[0] }, -1 }, Class{ { v[1] }, +1 } };
                for (auto & k : comp)
                    oriented[0].insert({ k, {} });
            } else {
                for (auto & f : faces(v)) {
                    build(f);
                    comp.push_back(class_of(f));
                }
            }
            auto k = class_of(v);
            if (!feet[n].count(k.labels)) {
                feet[n][k.labels] = Foot{ comp };
                for (auto & f : comp)
                    oriented[n - 1][f].composed++;
            }
            oriented[n].insert({ k, {} });
        }
        void flip(const Class & k)
        {
            oriented[k.labels.size() - 1].insert({ Class{ k.labels, -k.sign }, {} });
        }
        // erase; the handle that is passed is one of the uses
        void erase(const Class & k, bool handle_counted)
        {
            size_t n = k.labels.size() - 1;
            auto it = oriented[n].find(k);
            if (it == oriented[n].end())
                return;
            int others = it->second.composed + it->second.users - (handle_counted ? 1 : 0);
            std::vector<Class> comp;
            if (n > 0)
                comp = feet[n][k.labels].composition;
            if (others == 0) {
                oriented[n].erase(it);
                bool rides = oriented[n].count(Class{ k.labels, -k.sign }) > 0;
                // (the footprint of a vertex is always held by the test)
                if (!rides && n > 0) {
                    for (auto & f : comp)
                        oriented[n - 1][f].composed--;
                    feet[n].erase(k.labels);
                }
            }
            for (auto & f : comp)
                erase(f, false);
        }
    };
}    // namespace

PROP(erase_history, 1)
{
    auto & t = topology();
    bool large = g.chance(1, 150);
    int nv = large ? g.range(10, 25) : 4 + g.below(4);
    Pool p = large ? Pool(nv, g) : Pool(nv);
    if (large)
        c.label("many simplices");
    Model m;
    std::array<int, 4> start = { t.n_simplices<0>(), t.n_simplices<1>(), t.n_simplices<2>(),
                                 t.n_simplices<3>() };
    struct Held {
        std::vector<int> v;
        std::variant<segment_t, triangle_t, tetrahedron_t> s;
    };
    std::list<Held> held;
    int erased = 0, refused = 0, rebuilt = 0;
    std::set<Class> ever;
    auto at = [&](int k) {
        auto it = held.begin();
        std::advance(it, k);
        return it;
    };
    auto build = [&](const std::vector<int> & v) {
        c.note("build ", show(v));
        auto k = class_of(v);
        if (ever.count(k) && !m.oriented[v.size() - 1].count(k))
            ++rebuilt;
        ever.insert(k);
        m.build(v);
        m.oriented[v.size() - 1][k].users++;
        if (v.size() == 2)
            held.push_back({ v, t.segment(p.array<1>(v)) });
        else if (v.size() == 3)
            held.push_back({ v, t.triangle(p.array<2>(v)) });
        else
            held.push_back({ v, t.tetrahedron(p.array<3>(v)) });
    };
    auto audit = [&]() {
        std::array<int, 4> nw = { t.n_simplices<0>(), t.n_simplices<1>(), t.n_simplices<2>(),
                                  t.n_simplices<3>() };
        for (size_t d = 0; d < 4; ++d)
            c.check(nw[d] - start[d] == int(m.oriented[d].size()), "there are ", nw[d] - start[d],
                    " oriented simplices of dimension ", d, " instead of ", m.oriented[d].size());
        for (auto & h : held)
            std::visit(
                [&](auto & s) {
                    auto k = class_of(h.v);
                    auto l = p.labels_of(s);
                    c.check(class_of(l) == k, "a simplex in use has changed from ", show(h.v), " to ",
                            show(l));
                    c.check(s->sanityCheck(), "a simplex in use is not sane any more");
                    auto & o = m.oriented[h.v.size() - 1].at(k);
                    c.check(s.references() == o.users + o.composed, show(h.v), " has ",
                            s.references(), " references instead of ", o.users + o.composed);
                    // one object each
                    for (auto & o : held)
                        if (auto r = std::get_if<std::remove_cvref_t<decltype(s)>>(&o.s)) {
                            auto k2 = class_of(o.v);
                            c.check((r->id() == s.id()) == (k2 == k), show(h.v), " and ", show(o.v),
                                    r->id() == s.id() ? " are one object" : " are two objects");
                            c.check(((*r)->footprint() == s->footprint()) == (k2.labels == k.labels), "the footprints of ",
                                    show(h.v), " and ", show(o.v));
                        }
                    bool opp = m.oriented[h.v.size() - 1].count(Class{ k.labels, -k.sign }) > 0;
                    c.check(t.exists_flipped(s) == opp, "the opposite of ", show(h.v),
                            opp ? " is not found" : " is found");
                },
                h.s);
        for (int i = 0; i < nv; ++i)
            for (int j = 0; j < nv; ++j) {
                if (i == j)
                    continue;
                bool want = m.oriented[1].count(class_of({ i, j })) > 0;
                c.check(t.exists(p.array<1>({ i, j })) == want, "segment ", i, "-", j,
                        want ? " is not found" : " is still found");
            }
    };
    int n_ops = large ? g.range(120, 300) : 3 + g.below(4 + g.size() / 2);
    for (int op = 0; op < n_ops; ++op) {
        switch (large ? g.weighted({ 4, 6, 9, op > n_ops / 2 ? 20 : 5, 2, 2, 0, 2 }) : g.weighted({ 2, 3, 3, 8, 2, 2, 1, 2 })) {
        case 0:
            build(p.choose(g, 2));
            break;
        case 1:
            build(p.choose(g, 3));
            break;
        case 2:
            build(p.choose(g, 4));
            break;
        case 3:
            if (!held.empty()) {
                auto h = at(g.below(int(held.size())));
                auto k = class_of(h->v);
                size_t d = h->v.size() - 1;
                auto & o = m.oriented[d].at(k);
                bool goes = o.users + o.composed == 1;
                c.note("erase ", show(h->v), " used ", o.users, "+", o.composed, " times");
                std::visit(
                    [&](auto & s) {
                        t.erase(s);
                        if (goes)
                            c.check(s.is_nullptr(), "an erased simplex is still pointed to");
                        else
                            c.check(!s.is_nullptr(), "a simplex in use was erased");
                    },
                    h->s);
                m.erase(k, true);
                if (goes) {
                    held.erase(h);
                    ++erased;
                } else
                    ++refused;
            }
            break;
        case 4:    // one more or one less user
            if (!held.empty()) {
                auto h = at(g.below(int(held.size())));
                auto k = class_of(h->v);
                auto & o = m.oriented[h->v.size() - 1].at(k);
                if (g.flip()) {
                    c.note("hold ", show(h->v), " once more");
                    o.users++;
                    held.push_back(*h);
                } else {
                    c.note("let go of ", show(h->v));
                    o.users--;
                    held.erase(h);
                }
            }
            break;
        case 5:
            if (!held.empty()) {
                auto h = at(g.below(int(held.size())));
                auto w = h->v;
                std::swap(w[0], w[1]);
                c.note("flip to ", show(w));
                auto k = class_of(w);
                m.flip(class_of(h->v));
                ever.insert(k);
                m.oriented[w.size() - 1][k].users++;
                std::visit([&](auto & s) { held.push_back({ w, mito::topology::flip(s) }); }, h->s);
            }
            break;
        case 7:    // ask again for one that is there
            if (!held.empty()) {
                auto h = at(g.below(int(held.size())));
                c.note("ask again for ", show(h->v));
                m.build(h->v);
                std::visit(
                    [&](auto & s) {
                        constexpr int n = std::is_same_v<decltype(s), segment_t &> ? 1 : std::is_same_v<decltype(s), triangle_t &> ? 2 : 3;
                        auto same = t.template simplex<n>(p.template array<n>(h->v));
                        c.check(same == s, show(h->v), " is not the same object when it is asked for again");
                    },
                    h->s);
            }
            break;
        case 6: {    // erasing nothing
            segment_t e;
            triangle_t f;
            tetrahedron_t q;
            t.erase(e);
            t.erase(f);
            t.erase(q);
            break;
        }
        }
        if (!large || op % 25 == 0 || op + 1 == n_ops)
            audit();
    }
    if (erased && refused)
        c.nontrivial();
    if (rebuilt)
        c.label("built again after it was erased");
}
