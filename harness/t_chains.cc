// T02: boundaries, vertices and edges of simplices
#include "topo.h"
using namespace topo;

namespace {
    template <int N>
    simplex_t<N> make(const Pool & p, const std::vector<int> & v)
    {
        return topology().simplex<N>(p.array<N>(v));
    }

    // the chain of the faces of {s}: those of its composition, with the sign of {s}
    template <int N>
    Chain faces_chain(const Pool & p, const simplex_t<N> & s, int coeff = 1)
    {
        Chain ch;
        for (const auto & f : s->composition()) {
            if constexpr (N == 1)
                ch[{ p.label.at(f->footprint()) }] += coeff * s->orientation() * f->orientation();
            else
                add(ch, class_of(p.labels_of(f)), coeff * s->orientation());
        }
        prune(ch);
        return ch;
    }

    template <int N>
    void examine(pbt::Gen & g, pbt::Ctx & c, const Pool & p, const std::vector<int> & v,
                 const simplex_t<N> & s)
    {
        auto k = class_of(v);
        c.check(class_of(p.labels_of(s)) == k, "the vertices of ", show(v), " are ",
                show(p.labels_of(s)));
        // the faces
        auto got = faces_chain<N>(p, s), want = boundary(v);
        c.check(got == want, "the faces of ", show(v), " (orientation ", s->orientation(), ") are ",
                show(got), "instead of ", show(want));
        std::set<std::vector<int>> distinct;
        for (const auto & f : s->composition()) {
            if constexpr (N == 1)
                distinct.insert({ p.label.at(f->footprint()) });
            else {
                auto l = p.labels_of(f);
                std::sort(l.begin(), l.end());
                distinct.insert(l);
            }
        }
        c.check(distinct.size() == N + 1, "the simplex has ", distinct.size(), " distinct faces");
        // the boundary of the boundary
        if constexpr (N > 1) {
            Chain bb;
            for (const auto & f : s->composition())
                for (auto & [l, n] : faces_chain<N - 1>(p, f, s->orientation()))
                    bb[l] += n;
            prune(bb);
            c.check(bb.empty(), "the boundary of the boundary of ", show(v), " is ", show(bb));
        }
        // the vertices, gathered in the three ways
        std::set<vertex_t> vs;
        s->vertices(vs);
        std::unordered_set<vertex_t, mito::utilities::hash_function<vertex_t>> us;
        s->vertices(us);
        std::vector<vertex_t> vv;
        s->vertices(vv);
        auto fs = s->footprint()->vertices();
        c.check(vs.size() == N + 1 && us.size() == N + 1 && vv.size() == N + 1 && fs == vs,
                "the collections of vertices have different sizes");
        auto arr = s->vertices();
        for (size_t i = 0; i <= N; ++i)
            c.check(vs.contains(arr[i]) && us.contains(arr[i]) && vv[i] == arr[i],
                    "vertex ", i, " differs between the ways to ask for it");
        // the union of the vertices of several simplices
        auto before = vs.size();
        mito::topology::flip(s)->vertices(vs);
        c.check(vs.size() == before, "the opposite simplex has other vertices");
        // edges
        if constexpr (N >= 2) {
            std::set<segment_t> es;
            s->edges(es);
            std::map<std::vector<int>, int> pairs;
            for (auto & e : es) {
                auto l = p.labels_of(e);
                std::sort(l.begin(), l.end());
                pairs[l]++;
                for (auto x : l)
                    c.check(std::find(v.begin(), v.end(), x) != v.end(), "an edge has vertex ", x);
            }
            c.check(pairs.size() == N * (N + 1) / 2, "the simplex has ", pairs.size(), " edges");
            for (auto & [l, n] : pairs)
                c.check(n == 1 || (N == 3 && n == 2), "edge ", show(l), " occurs ", n, " times");
        }
        // segments: the tail is the first vertex
        if constexpr (N == 1) {
            c.check(tail(s) == arr[0] && head(s) == arr[1], "head and tail of ", show(v));
            c.check(tail(s) == p.v[size_t(v[0])] && head(s) == p.v[size_t(v[1])],
                    "head and tail of ", show(v));
        }
        c.check(s->sanityCheck() && s->footprint()->sanityCheck(), "the sanity check fails");
        if (s->orientation() == -1)
            c.label("orientation -1");
    }
}    // namespace

PROP(boundaries, 5)
{
    Pool p(4 + g.below(3));
    // what the factory has met before
    int n_before = g.below(8);
    for (int i = 0; i < n_before; ++i) {
        int n = g.below(3);
        auto v = p.choose(g, n + 2);
        c.note("build ", show(v));
        if (n == 0)
            make<1>(p, v);
        else if (n == 1)
            make<2>(p, v);
        else
            make<3>(p, v);
    }
    for (int round = 0; round < 3; ++round) {
        auto v = p.choose(g, 4);
        c.note("examine ", show(v));
        auto s = make<3>(p, v);
        examine<3>(g, c, p, v, s);
        auto w = v;
        std::swap(w[1], w[2]);
        examine<3>(g, c, p, w, mito::topology::flip(s));
        v.pop_back();
        auto t = make<2>(p, v);
        examine<2>(g, c, p, v, t);
        w = v;
        std::swap(w[1], w[2]);
        auto ft = mito::topology::flip(t);
        examine<2>(g, c, p, w, ft);
        v.pop_back();
        auto e = make<1>(p, v);
        examine<1>(g, c, p, v, e);
        auto fe = mito::topology::flip(e);
        examine<1>(g, c, p, { v[1], v[0] }, fe);
        // the faces of the faces as simplices of their own
        for (const auto & f : s->composition()) {
            auto l = p.labels_of(f);
            examine<2>(g, c, p, l, f);
            for (const auto & h : f->composition())
                examine<1>(g, c, p, p.labels_of(h), h);
        }
        if (s->orientation() == -1 || t->orientation() == -1)
            c.nontrivial();
    }
}

// whether two segments follow each other
PROP(head_to_tail, 1)
{
    Pool p(4);
    auto a = p.choose(g, 2), b = p.choose(g, 2);
    c.note(show(a), show(b));
    auto sa = g.flip() ? make<1>(p, a) : mito::topology::flip(make<1>(p, { a[1], a[0] }));
    auto sb = g.flip() ? make<1>(p, b) : mito::topology::flip(make<1>(p, { b[1], b[0] }));
    c.check(headTailConnected(sa, sb) == (a[1] == b[0]), "head-tail connection");
    if (a[1] == b[0])
        c.nontrivial();
}
