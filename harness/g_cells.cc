// G03: cells (geometric simplices): nodes, directors, barycenter, parametrization, flips
#include "coords.h"
#include "meshes.h"

using namespace pbt;
using namespace meshes;
namespace {
    using coords::P3;
    using coords::position;
    using coords::somewhere;

    template <class X>
    constexpr bool cartesian = std::is_same_v<X, mg::cartesian_coordinates_t<X::dim>>;

    template <int N, class X>
    void cell(Gen & g, Ctx & c)
    {
        constexpr int D = X::dim;
        using Cell = mg::geometric_simplex_t<N, D>;
        NodesIn<X> nodes;
        double unit = coords::unit(g);
        int n = N + 1 + g.range(0, 2);
        for (int i = 0; i < n; ++i) {
            nodes.add(coords::components(somewhere<X>(g, true), unit));
        }
        std::vector<topo::simplex_t<N>> keep;
        for (int i = g.range(0, 2); i > 0; --i)
            keep.push_back(topo::topology().template simplex<N>(nodes.template vertices<N>(choose(g, N + 1, n))));
        auto l = choose(g, N + 1, n);
        c.note("cell ", show(l));
        c.nontrivial();
        auto a = nodes.template array<N>(l);
        auto s = topo::topology().template simplex<N>(nodes.template vertices<N>(l));
        // a cell on the simplex may list its vertices in any even permutation
        auto r = l;
        rotate(g, r);
        Cell cell(a), other(s, nodes.template array<N>(r));
        c.check(nodes.labels(cell) == l, "the nodes of the cell");
        c.check(nodes.labels(other) == r, "the nodes of a cell on a simplex");
        c.check(cell.simplex() == s && other.simplex() == s, "the simplex of the cell");
        // the factories of cells
        auto made = [&] {
            if constexpr (N == 1)
                return mg::segment<D>(nodes.template array<N>(l));
            else if constexpr (N == 2)
                return mg::triangle<D>(nodes.template array<N>(l));
            else
                return mg::tetrahedron<D>(nodes.template array<N>(l));
        }();
        static_assert(std::is_same_v<decltype(made), Cell>);
        c.check(nodes.labels(made) == l && made.simplex() == s, "the cell made by the factory has nodes ", show(nodes.labels(made)));
        if (s->orientation() < 0)
            c.label("against the footprint");
        std::vector<P3> p;
        double scale = 0;
        for (auto k : l) {
            p.push_back(position(nodes.at(k)));
            scale += coords::norm(p.back());
        }
        double tol = 1e-11 * scale;
        // barycenter
        P3 mean { 0, 0, 0 };
        for (auto & q : p)
            for (size_t i = 0; i < 3; ++i)
                mean[i] += q[i] / (N + 1);
        // (directions relative to the first node)
        coords::same(c, position(mg::barycenter(cell, nodes.sys)), mean, tol, "barycenter");
        coords::same(c, position(mg::barycenter(other, nodes.sys)), mean, tol, "barycenter of the cell with permuted nodes");
        // directors
        auto [at, dir] = mg::directors(cell, nodes.sys);
        c.check(at == nodes.at(l[0]), "the directors stem from the first node");
        c.check(std::size(dir) == size_t(N), "number of directors");
        for (int j = 0; j < N; ++j) {
            auto want = coords::vec<X>(coords::sub(p[size_t(j + 1)], p[0]), coords::frame(at));
            for (int i = 0; i < D; ++i)
                c.near(dir[size_t(j)][i], want[i], tol, "component ", i, " of director ", j);
        }
        // the reference cell, the parametrization
        using Ref = typename Cell::reference_simplex_type;
        using Par = typename Cell::parametric_coordinates_type;
        static_assert(Ref::order == N);
        double fact = 1;
        for (int i = 2; i <= N; ++i)
            fact *= i;
        c.near(Ref::area, 1 / fact, 1e-15, "measure of the reference cell");
        std::array<double, size_t(N + 1)> b;
        double sum = 0;
        for (auto & w : b)
            sum += w = g.chance(1, 4) ? double(g.range(0, 1)) : g.real(0, 1);
        if (sum == 0)
            sum = b[0] = 1;
        mito::tensor::vector_t<N> xi;
        for (int i = 0; i < N; ++i)
            xi[i] = b[size_t(i)] /= sum;
        b[size_t(N)] = 1;
        for (int i = 0; i < N; ++i)
            b[size_t(N)] -= b[size_t(i)];
        Par par(xi);
        mito::tensor::constexpr_for_1<N + 1>([&]<int I>() {
            c.near(Ref::template xi<I>(par), b[size_t(I)], 1e-14, "barycentric coordinate ", I);
        });
        if constexpr (cartesian<X>) {
            auto f = cell.parametrization(nodes.sys);
            auto v = f(par);
            for (int i = 0; i < D; ++i) {
                double want = 0;
                for (int k = 0; k <= N; ++k)
                    want += b[size_t(k)] * p[size_t(k)][size_t(i)];
                if constexpr (D == 1)
                    c.near(mito::tensor::scalar_t(v[0]), want, tol, "the parametrization");
                else
                    c.near(v[i], want, tol, "component ", i, " of the parametrization");
            }
        }
        // the opposite cell
        auto before = keep.size();
        auto opp = mg::flip(cell);
        auto lo = nodes.labels(opp);
        auto k = class_of(l), ko = class_of(lo);
        c.check(ko.labels == k.labels && ko.sign == -k.sign, "the flipped cell is ", show(lo));
        c.check(opp.simplex()->orientation() == -cell.simplex()->orientation(), "the orientation of the flipped cell");
        c.check(opp.simplex()->footprint() == cell.simplex()->footprint(), "the flipped cell is on the same footprint");
        auto again = mg::flip(opp);
        c.check(class_of(nodes.labels(again)) == k && again.simplex() == s, "the cell flipped twice");
        c.check(nodes.labels(cell) == l, "the cell that was flipped");
        // a cell from a simplex and a collection of nodes
        std::vector<mg::node_t<D>> all(nodes.n);
        g.shuffle(all);
        auto found = mg::geometric_simplex<D>(s, all);
        c.check(class_of(nodes.labels(found)) == k && found.simplex() == s, "the cell found by its simplex");
        (void) before;
    }

    template <class X>
    void diagonal(Gen & g, Ctx & c)
    {
        constexpr int D = X::dim;
        using Cell = mg::geometric_simplex_t<2, D>;
        NodesIn<X> nodes;
        double unit = coords::unit(g);
        for (int i = 0; i < 4; ++i) {
            nodes.add(coords::components(somewhere<X>(g, true), unit));
        }
        std::vector<topo::simplex_t<2>> keep;
        for (int i = g.range(0, 3); i > 0; --i)
            keep.push_back(topo::topology().template simplex<2>(nodes.template vertices<2>(choose(g, 3, 4))));
        auto q = choose(g, 4, 4);
        Labels va { q[0], q[1], q[2] }, vb { q[0], q[2], q[3] };
        std::rotate(va.begin(), va.begin() + g.below(3), va.end());
        std::rotate(vb.begin(), vb.begin() + g.below(3), vb.end());
        if (g.flip())
            std::swap(va, vb);
        c.note("cells ", show(va), show(vb));
        c.nontrivial();
        Cell a(nodes.template array<2>(va)), b(nodes.template array<2>(vb));
        auto [x, y] = mg::flip_diagonal<D>(std::pair<Cell, Cell> { a, b });
        std::set<Class> got { class_of(nodes.labels(x)), class_of(nodes.labels(y)) };
        std::set<Class> want { class_of({ q[0], q[1], q[3] }), class_of({ q[1], q[2], q[3] }) };
        c.check(got == want, "the new cells are ", show(nodes.labels(x)), show(nodes.labels(y)));
        for (auto & t : { x, y }) {
            c.check(class_of(nodes.simplex_labels(t.simplex())) == class_of(nodes.labels(t)),
                    "the simplex of the new cell and its nodes agree");
            for (auto & node : t.nodes())
                c.check(std::count(nodes.n.begin(), nodes.n.end(), node) == 1, "the nodes of the new cells are the old ones");
        }
        auto [z, w] = mg::flip_diagonal<D>(std::pair<Cell, Cell> { x, y });
        std::set<Class> back { class_of(nodes.labels(z)), class_of(nodes.labels(w)) };
        c.check(back == std::set<Class> { class_of(va), class_of(vb) }, "flipped twice");
    }
}

PROP(segment_1, 1) { cell<1, mg::cartesian_coordinates_t<1>>(g, c); }
PROP(segment_2, 1) { cell<1, mg::cartesian_coordinates_t<2>>(g, c); }
PROP(segment_3, 1) { cell<1, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(triangle_2, 1) { cell<2, mg::cartesian_coordinates_t<2>>(g, c); }
PROP(triangle_3, 1) { cell<2, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(tetrahedron, 2) { cell<3, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(segment_polar, 1) { cell<1, mg::polar_coordinates_t>(g, c); }
PROP(triangle_polar, 1) { cell<2, mg::polar_coordinates_t>(g, c); }
PROP(segment_spherical, 1) { cell<1, mg::spherical_coordinates_t>(g, c); }
PROP(triangle_spherical, 1) { cell<2, mg::spherical_coordinates_t>(g, c); }
PROP(tetrahedron_spherical, 1) { cell<3, mg::spherical_coordinates_t>(g, c); }
PROP(diagonal, 1)
{
    switch (g.range(0, 2)) {
        case 0: diagonal<mg::cartesian_coordinates_t<2>>(g, c); break;
        case 1: diagonal<mg::cartesian_coordinates_t<3>>(g, c); break;
        default: diagonal<mg::polar_coordinates_t>(g, c);
    }
}
