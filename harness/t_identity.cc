// T01: one object per oriented simplex
#include "topo.h"
// requests among erasures
#include "erase.h"
using namespace topo;

namespace {
    struct World {
        pbt::Gen & g;
        pbt::Ctx & c;
        Pool pool;
        // what must exist: the oriented simplices of every dimension
        std::array<std::map<Class, mito::utilities::index_t<int>>, 4> exists;
        // the identity of the unoriented ones
        std::array<std::map<std::vector<int>, mito::utilities::index_t<int>>, 4> foot;
        std::array<int, 4> start;
        std::vector<std::pair<std::vector<int>, segment_t>> segments;
        std::vector<std::pair<std::vector<int>, triangle_t>> triangles;
        std::vector<std::pair<std::vector<int>, tetrahedron_t>> tetrahedra;
        int again = 0, opposite = 0;

        World(pbt::Gen & g, pbt::Ctx & c, int n, bool large) : g(g), c(c), pool(large ? Pool(n, g) : Pool(n))
        {
            auto & t = topology();
            start = { t.n_simplices<0>(), t.n_simplices<1>(), t.n_simplices<2>(), t.n_simplices<3>() };
        }

        // the simplices that come into being along with {v}
        void declare(const std::vector<int> & v)
        {
            int n = int(v.size()) - 1;
            if (n == 0)
                return;
            if (n == 1) {
                exists[0].insert({ Class{ { v[0] }, -1 }, 0 });
                exists[0].insert({ Class{ { v[1] }, +1 }, 0 });
            } else
                for (auto & f : faces(v))
                    declare(f);
            exists[size_t(n)].insert({ class_of(v), 0 });
        }

        template <int N>
        auto & list()
        {
            if constexpr (N == 1)
                return segments;
            else if constexpr (N == 2)
                return triangles;
            else
                return tetrahedra;
        }

        // {s} was obtained for the vertices {v}
        template <int N>
        void record(const std::vector<int> & v, const simplex_t<N> & s, const char * how)
        {
            c.check(!s.is_nullptr(), "no simplex");
            auto k = class_of(v);
            // identity
            auto & id = exists[N][k];
            if (id == 0)
                id = s.id();
            else
                ++again;
            c.check(id == s.id(), how, " ", show(v), " gives another object than before");
            auto & f = foot[N][k.labels];
            if (f == 0)
                f = s->footprint().id();
            c.check(f == s->footprint().id(), how, " ", show(v), " rides on another footprint");
            // distinct simplices are distinct objects
            for (auto & [k2, id2] : exists[N])
                if (id2 != 0 && !(k2 == k))
                    c.check(id2 != id, show(k2), " and ", show(k), " are the same object");
            for (auto & [l2, f2] : foot[N])
                if (f2 != 0 && l2 != k.labels)
                    c.check(f2 != f, show(l2), " and ", show(k.labels), " share the footprint");
            c.check(s->orientation() == 1 || s->orientation() == -1, "orientation ", s->orientation());
            // the vertices come in an order of the same sign
            auto l = pool.labels_of(s);
            c.check(class_of(l) == k, how, " ", show(v), ": the vertices of the simplex are ", show(l));
            std::set<vertex_t> vs;
            s->vertices(vs);
            c.check(vs.size() == N + 1, "the simplex has ", vs.size(), " vertices");
            for (auto & x : v)
                c.check(vs.contains(pool.v[size_t(x)]), "vertex ", x, " is missing");
            c.check(s->sanityCheck(), "the simplex does not pass its own sanity check");
            auto opp = Class{ k.labels, -k.sign };
            c.check(topology().exists_flipped(s) == (exists[N].count(opp) > 0), "the opposite of ",
                    show(v), exists[N].count(opp) ? " is not found" : " is reported to exist");
            if (exists[N].count(opp)) {
                ++opposite;
                auto id2 = exists[N][opp];
                if (id2 != 0)
                    c.check(id2 != s.id(), "a simplex and its opposite are one object");
            }
            c.check(topology().exists<N>(s->composition()), "the simplex is not found by its faces");
            if constexpr (N == 1)
                c.check(topology().exists(pool.array<1>(v)), "the segment is not found by its vertices");
            list<N>().push_back({ v, s });
        }

        void counts()
        {
            auto & t = topology();
            std::array<int, 4> nw = { t.n_simplices<0>(), t.n_simplices<1>(), t.n_simplices<2>(),
                                      t.n_simplices<3>() };
            for (size_t d = 0; d < 4; ++d)
                c.check(nw[d] - start[d] == int(exists[d].size()), nw[d] - start[d],
                        " oriented simplices of dimension ", d, " were created instead of ",
                        exists[d].size());
        }

        template <int N>
        void build(std::vector<int> v)
        {
            int way = g.below(5);
            if (way == 0 || N == 0) {
                c.note("by vertices ", show(v));
                declare(v);
                simplex_t<N> s;
                if constexpr (N == 1)
                    s = mito::topology::segment(pool.array<1>(v));
                else if constexpr (N == 2)
                    s = mito::topology::triangle(pool.array<2>(v));
                else
                    s = mito::topology::tetrahedron(pool.array<3>(v));
                record<N>(v, s, "by vertices");
            } else if (way == 1) {
                c.note("by vertices (generic) ", show(v));
                declare(v);
                record<N>(v, topology().simplex<N>(pool.array<N>(v)), "by vertices (generic)");
            } else if (way == 2) {
                // by its faces, in an order that is an even permutation
                declare(v);
                simplex_t<N> s;
                if constexpr (N == 1) {
                    simplex_composition_t<1> comp = { topology().simplex(pool.v[size_t(v[0])], -1),
                                                      topology().simplex(pool.v[size_t(v[1])], +1) };
                    c.note("by oriented vertices ", show(v));
                    s = mito::topology::segment(comp);
                } else {
                    auto fs = faces(v);
                    // an even permutation: rotate three
                    int rot = g.below(3);
                    size_t off = N == 3 ? size_t(g.below(2)) : 0;
                    std::rotate(fs.begin() + long(off), fs.begin() + long(off) + rot,
                                fs.begin() + long(off) + 3);
                    c.note("by faces of ", show(v), " starting with ", show(fs[0]), show(fs[1]));
                    simplex_composition_t<N> comp;
                    for (size_t i = 0; i <= N; ++i) {
                        if constexpr (N == 2)
                            comp[i] = mito::topology::segment(pool.array<1>(fs[i]));
                        else
                            comp[i] = mito::topology::triangle(pool.array<2>(fs[i]));
                    }
                    if constexpr (N == 2)
                        s = mito::topology::triangle(comp);
                    else
                        s = mito::topology::tetrahedron(comp);
                }
                record<N>(v, s, "by faces");
            } else if (way == 3) {
                // the opposite of one that we have
                auto & l = list<N>();
                if (l.empty())
                    return;
                auto [w, s] = l[size_t(g.below(int(l.size())))];
                std::swap(w[0], w[1]);
                c.note("flip to ", show(w));
                exists[N].insert({ class_of(w), 0 });
                auto f = g.flip() ? mito::topology::flip(s) : topology().flip(s);
                c.check(f->orientation() == -s->orientation(),
                        "flipping does not change the orientation");
                c.check(f->footprint() == s->footprint(), "flipping changes the footprint");
                record<N>(w, f, "flip to");
                c.check(topology().flip(f) == s, "flipping twice gives another simplex");
            } else {
                // footprint and orientation, or the composition that the simplex reports
                auto & l = list<N>();
                if (l.empty())
                    return;
                auto [w, s] = l[size_t(g.below(int(l.size())))];
                if (g.flip()) {
                    c.note("by footprint ", show(w));
                    auto t = topology().simplex<N>(s->footprint(), s->orientation());
                    c.check(t == s, "the footprint and the orientation give another simplex");
                } else {
                    c.note("by its own composition ", show(w));
                    auto t = topology().simplex<N>(s->composition());
                    c.check(t == s, "the composition of a simplex gives another simplex");
                    // an odd reordering of the faces names the opposite simplex
                    auto comp = s->composition();
                    std::swap(comp[0], comp[N]);
                    bool there = topology().exists<N>(comp);
                    auto opp = Class{ class_of(w).labels, -class_of(w).sign };
                    c.check(there == (exists[N].count(opp) > 0), "the opposite of ", show(w),
                            " by its faces: ", there ? "found" : "not found");
                }
            }
        }
    };
}    // namespace

PROP(simplex_identity, 8)
{
    bool large = g.chance(1, 150);
    int nv = large ? g.range(12, 30) : 4 + g.below(4);
    World w(g, c, nv, large);
    if (large)
        c.label("many simplices");
    c.note(nv, " vertices");
    int n_ops = large ? g.range(100, 250) : 2 + g.below(3 + g.size() / 3);
    for (int op = 0; op < n_ops; ++op) {
        switch (g.weighted({ 3, 4, 4 })) {
        case 0:
            w.build<1>(w.pool.choose(g, 2));
            break;
        case 1:
            w.build<2>(w.pool.choose(g, 3));
            break;
        case 2:
            w.build<3>(w.pool.choose(g, 4));
            break;
        }
        if (!large || op % 16 == 0)
            w.counts();
    }
    w.counts();
    // the simplices are still what they were
    for (auto & [v, s] : w.tetrahedra)
        c.check(class_of(w.pool.labels_of(s)) == class_of(v), "a tetrahedron has changed");
    for (auto & [v, s] : w.triangles)
        c.check(class_of(w.pool.labels_of(s)) == class_of(v), "a triangle has changed");
    for (auto & [v, s] : w.segments)
        c.check(class_of(w.pool.labels_of(s)) == class_of(v), "a segment has changed");
    // absent ones are not reported
    for (int i = 0; i < nv; ++i)
        for (int j = 0; j < nv; ++j)
            if (i != j) {
                bool there = topology().exists(w.pool.array<1>({ i, j }));
                c.check(there == (w.exists[1].count(class_of({ i, j })) > 0), "segment ", i, "-", j,
                        there ? " exists although it was never built" : " is not found");
            }
    if (w.again && w.opposite)
        c.nontrivial();
}

// compositions that are not closed are told apart from those that are
PROP(valid_compositions, 2)
{
    Pool p(5);
    auto v = p.choose(g, 4);
    c.note("vertices ", show(v));
    {
        std::vector<segment_t> e;
        for (auto & f : faces({ v[0], v[1], v[2] }))
            e.push_back(mito::topology::segment(p.array<1>(f)));
        g.shuffle(e);
        simplex_composition_t<2> comp = { e[0], e[1], e[2] };
        c.check(isValid<2>(comp), "a closed composition of a triangle is rejected");
        int k = g.below(3);
        comp[size_t(k)] = mito::topology::flip(comp[size_t(k)]);
        c.check(!isValid<2>(comp), "a composition with an edge the wrong way around is accepted");
        for (auto & x : comp)
            x = mito::topology::flip(x);
        c.check(!isValid<2>(comp), "a composition with two edges the wrong way around is accepted");
        comp[size_t(k)] = mito::topology::flip(comp[size_t(k)]);
        c.check(isValid<2>(comp), "the reverse of a closed composition is rejected");
    }
    {
        std::vector<triangle_t> t;
        for (auto & f : faces(v)) {
            // the factory may know the face with the other orientation first
            if (g.flip()) {
                auto r = f;
                std::swap(r[0], r[1]);
                mito::topology::triangle(p.array<2>(r));
            }
            t.push_back(mito::topology::triangle(p.array<2>(f)));
        }
        g.shuffle(t);
        simplex_composition_t<3> comp = { t[0], t[1], t[2], t[3] };
        c.check(isValid<3>(comp), "a closed composition of a tetrahedron is rejected");
        int k = g.below(4), k2 = g.below(4);
        comp[size_t(k)] = mito::topology::flip(comp[size_t(k)]);
        c.check(!isValid<3>(comp), "a composition with a face the wrong way around is accepted");
        comp[size_t(k2)] = mito::topology::flip(comp[size_t(k2)]);
        c.check(isValid<3>(comp) == (k == k2), "composition with faces ", k, " and ", k2, " flipped");
        c.nontrivial();
    }
    {
        auto &a = p.v[size_t(v[0])], &b = p.v[size_t(v[1])];
        auto s = [&](auto & x, int o) { return topology().simplex(x, o); };
        c.check(isValid<1>({ s(a, -1), s(b, +1) }), "a segment between two vertices is rejected");
        c.check(!isValid<1>({ s(a, +1), s(b, +1) }), "a segment with two heads is accepted");
        c.check(!isValid<1>({ s(a, -1), s(b, -1) }), "a segment with two tails is accepted");
        c.check(!isValid<1>({ s(a, -1), s(a, +1) }), "a segment from a vertex to itself is accepted");
    }
}


// oriented vertices: new ones, by footprint and orientation, and flipped
PROP(oriented_vertices, 1)
{
    auto & t = topology();
    int start = t.n_simplices<0>();
    std::map<std::pair<int, int>, simplex_t<0>> have;    // (vertex, orientation)
    std::vector<vertex_t> vertices;
    int n = 2 + g.below(4 + g.size() / 2), again = 0;
    for (int op = 0; op < n; ++op) {
        int o = g.flip() ? +1 : -1, way = vertices.empty() ? 0 : g.below(4);
        int k = vertices.empty() ? 0 : g.below(int(vertices.size()));
        simplex_t<0> s;
        if (way == 0) {
            // a new vertex along with the oriented one
            s = t.simplex<0>(o);
            k = int(vertices.size());
            for (auto & x : vertices)
                c.check(!(x == s->footprint()), "a new oriented vertex rides on an old vertex");
            vertices.push_back(s->footprint());
        } else if (way == 1) {
            // a new vertex that is not oriented yet
            auto x = mito::topology::vertex();
            for (auto & y : vertices)
                c.check(!(x == y), "a new vertex is an old one");
            k = int(vertices.size());
            vertices.push_back(x);
            s = t.simplex<0>(x, o);
        } else if (way == 2)
            s = t.simplex<0>(vertices[size_t(k)], o);
        else {
            auto it = have.begin();
            std::advance(it, g.below(int(have.size())));
            k = it->first.first;
            o = -it->first.second;
            auto old = it->second;
            c.check(t.exists_flipped(old) == (have.count({ k, o }) > 0), "the opposite of an oriented vertex exists?");
            s = t.flip(old);
            c.check(t.flip(s) == old, "flipping a vertex twice");
        }
        c.note("way ", way, " vertex ", k, " orientation ", o);
        c.check(s->orientation() == o, "orientation ", s->orientation(), " of a vertex requested with ", o);
        c.check(s->footprint() == vertices[size_t(k)], "footprint of an oriented vertex");
        auto [it, fresh] = have.insert({ { k, o }, s });
        c.check(it->second == s, "another object for the same oriented vertex");
        again += !fresh;
        for (auto & [key, x] : have)
            c.check((x == s) == (key == it->first), "different oriented vertices are different objects");
        c.check(t.n_simplices<0>() - start == int(have.size()), t.n_simplices<0>() - start,
                " oriented vertices instead of ", have.size());
    }
    if (again && have.size() > 2)
        c.nontrivial();
}
