// B03: refining a mesh
#include "coords.h"
#include "meshes.h"

using namespace pbt;
using namespace meshes;
namespace {
    using coords::P3;
    using coords::position;
    using coords::somewhere;
    using coords::sub;
    using coords::dot;

    P3 cross(const P3 & a, const P3 & b)
    {
        return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
    }
    // the measure of a cell with its direction: a number for tetrahedra, the normal vector of
    // triangles, the vector along a segment
    template <int N>
    P3 measure(const std::vector<P3> & p)
    {
        if constexpr (N == 1)
            return sub(p[1], p[0]);
        else {
            auto n = cross(sub(p[1], p[0]), sub(p[2], p[0]));
            if constexpr (N == 2)
                return n;
            else
                return { dot(n, sub(p[3], p[0])), 0, 0 };
        }
    }
    // barycentric coordinates of q with respect to the simplex p (least squares)
    template <int N>
    std::array<double, size_t(N + 1)> barycentric(const std::vector<P3> & p, const P3 & q)
    {
        double m[3][4] = {};
        for (int i = 0; i < N; ++i) {
            for (int j = 0; j < N; ++j)
                m[i][j] = dot(sub(p[size_t(i + 1)], p[0]), sub(p[size_t(j + 1)], p[0]));
            m[i][N] = dot(sub(p[size_t(i + 1)], p[0]), sub(q, p[0]));
        }
        for (int i = 0; i < N; ++i) {
            int best = i;
            for (int r = i; r < N; ++r)
                if (std::abs(m[r][i]) > std::abs(m[best][i]))
                    best = r;
            std::swap(m[i], m[best]);
            for (int r = 0; r < N; ++r)
                if (r != i) {
                    double f = m[r][i] / m[i][i];
                    for (int k = i; k <= N; ++k)
                        m[r][k] -= f * m[i][k];
                }
        }
        std::array<double, size_t(N + 1)> b;
        b[0] = 1;
        for (int i = 0; i < N; ++i)
            b[0] -= b[size_t(i + 1)] = m[i][N] / m[i][i];
        return b;
    }

    template <int N, class X>
    void refine(Gen & g, Ctx & c)
    {
        constexpr int D = X::dim;
        using Cell = mg::geometric_simplex_t<N, D>;
        NodesIn<X> nodes;
        double unit = coords::unit(g);
        auto mesh = mm::mesh<Cell>();
        int n_nodes = N + 1 + g.range(0, 3);
        for (int i = 0; i < n_nodes; ++i) {
            nodes.add(coords::components(somewhere<X>(g, true), unit));
        }
        std::vector<Labels> cells;
        std::vector<std::vector<P3>> at;
        int n_cells = g.chance(1, 80) ? g.range(5, 30) : g.range(1, 4);
        for (int i = 0; i < n_cells; ++i) {
            auto l = choose(g, N + 1, n_nodes);
            std::vector<P3> p;
            for (auto k : l)
                p.push_back(position(nodes.at(k)));
            // cells that are not flat
            double h = 0;
            for (auto & q : p)
                h = std::max(h, coords::norm(sub(q, p[0])));
            auto v = coords::norm(measure<N>(p));
            if (v < 0.02 * std::pow(h, N) || h < 0.05 * unit)
                continue;
            mesh.insert(nodes.template array<N>(l));
            cells.push_back(l);
            at.push_back(p);
            c.note("cell ", show(l));
        }
        // some cell is erased before the refinement
        if (cells.size() > 1 && g.chance(1, 3)) {
            int k = g.below(int(cells.size())), i = 0;
            for (auto & cell : mesh.cells())
                if (i++ == k) {
                    mesh.erase(cell);
                    break;
                }
            cells.erase(cells.begin() + k);
            at.erase(at.begin() + k);
        }
        constexpr int K = 1 << N;
        int n = N == 1 ? g.range(0, cells.size() > 4 ? 3 : 6) : N == 2 ? g.range(0, cells.size() > 4 ? 1 : 3) : g.weighted({ 2, 6, cells.size() > 4 ? 0 : 3 });
        c.note(n, " refinements");
        bool in_steps = n > 1 && g.flip();
        auto refined = [&] {
            if (in_steps) {
                auto m = mm::tetra(mesh, nodes.sys);
                return mm::tetra(m, nodes.sys, n - 1);
            }
            return n == 1 && g.flip() ? mm::tetra(mesh, nodes.sys) : mm::tetra(mesh, nodes.sys, n);
        }();
        int64_t per = 1;
        for (int i = 0; i < n; ++i)
            per *= K;
        c.check(refined.nCells() == int64_t(cells.size()) * per, "the refined mesh has ", refined.nCells(), " cells instead of ",
                int64_t(cells.size()) * per);
        if (n > 0 && !cells.empty())
            c.nontrivial();
        // the original is as before
        {
            std::multiset<Labels> now, was(cells.begin(), cells.end());
            for (auto & cell : mesh.cells())
                now.insert(nodes.labels(cell));
            c.check(now == was && mesh.nCells() == int(cells.size()), "the mesh that was refined has changed");
        }
        // the children, parent by parent
        std::vector<Labels> child;
        int count = 0;
        for (auto & cell : refined.cells()) {
            ++count;
            child.push_back(nodes.labels(cell));
            c.check(class_of(nodes.simplex_labels(cell.simplex())) == class_of(child.back()), "the simplex of a child and its nodes agree");
        }
        c.check(count == refined.nCells(), "number of cells met");
        std::vector<std::vector<P3>> pos;
        for (auto & l : child) {
            pos.emplace_back();
            for (auto k : l)
                pos.back().push_back(position(nodes.at(k)));
        }
        if (n == 0) {
            c.check(std::multiset<Labels>(child.begin(), child.end()) == std::multiset<Labels>(cells.begin(), cells.end()),
                    "no refinement: the cells are those of the mesh");
            return;
        }
        double frac = 1.0 / double(per), grain = std::pow(2.0, n);
        // cells may overlap, so every parent looks for its children: as many as there are copies
        // and they are listed in the order of the parents
        for (size_t k = 0; k < cells.size(); ++k) {
            auto & p = at[k];
            auto whole = measure<N>(p);
            double size = coords::norm(whole), h = 0;
            for (auto & q : p)
                h = std::max(h, coords::norm(q));
            double tol = 1e-9;
            // children of this parent
            std::vector<size_t> mine;
            for (size_t i = size_t(per) * k; i < size_t(per) * (k + 1); ++i)
                mine.push_back(i);
            std::set<int> corners;
            for (auto i : mine) {
                auto m = measure<N>(pos[i]);
                for (size_t d = 0; d < 3; ++d)
                    c.near(m[d], whole[d] * frac, tol * (size + std::pow(unit + h, N)), "measure of child ", i, " of cell ", show(cells[k]));
                for (size_t v = 0; v <= N; ++v) {
                    auto b = barycentric<N>(p, pos[i][v]);
                    for (auto w : b) {
                        c.check(w > -1e-7 && w < 1 + 1e-7, "a node of the child is outside of the cell");
                        c.near(w * grain, std::round(w * grain), 1e-6, "the nodes of the child are at dyadic points");
                    }
                    // (and in the plane of the parent)
                    P3 q { 0, 0, 0 };
                    for (size_t a = 0; a <= N; ++a)
                        for (size_t d = 0; d < 3; ++d)
                            q[d] += b[a] * p[a][d];
                    coords::same(c, pos[i][v], q, tol * (unit + h), "a node of the child");
                    for (auto o : cells[k])
                        if (child[i][v] == o)
                            corners.insert(o);
                }
            }
            c.check(corners.size() == N + 1, "the nodes of the cell are nodes of its children");
            if (n == 1) {
                std::set<int> distinct;
                for (auto i : mine)
                    distinct.insert(child[i].begin(), child[i].end());
                c.check(int(distinct.size()) == (N + 1) * (N + 2) / 2, "the children of a cell have ", distinct.size(),
                        " nodes");
            }
            // the children tile the cell
            for (int t = 0; t < 4; ++t) {
                std::array<double, size_t(N + 1)> w;
                double sum = 0;
                for (auto & x : w)
                    sum += x = g.real(0.001, 1);
                P3 q { 0, 0, 0 };
                for (size_t a = 0; a <= N; ++a)
                    for (size_t d = 0; d < 3; ++d)
                        q[d] += w[a] / sum * p[a][d];
                int inside = 0;
                bool edge = false;
                for (auto i : mine) {
                    auto b = barycentric<N>(pos[i], q);
                    double least = *std::min_element(b.begin(), b.end());
                    if (std::abs(least) < 1e-6)
                        edge = true;
                    inside += least > 0;
                }
                if (!edge)
                    c.check(inside == 1, "a point of cell ", show(cells[k]), " is in ", inside, " of its children");
            }
            // children share faces: inside the cell every face is matched (one refinement)
            if (n == 1) {
                std::map<Class, int> f;
                for (auto i : mine)
                    for (auto & x : faces(child[i]))
                        ++f[x];
                int open = 0;
                for (auto & [x, m] : f) {
                    auto y = x;
                    y.sign = -y.sign;
                    if (!f.contains(y))
                        open += m;
                }
                c.check(open == (N + 1) * (K / 2), "the outline of the children has ", open, " faces");
            }
        }
    }
}

PROP(segments_1, 1) { refine<1, mg::cartesian_coordinates_t<1>>(g, c); }
PROP(segments_2, 1) { refine<1, mg::cartesian_coordinates_t<2>>(g, c); }
PROP(segments_3, 1) { refine<1, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(triangles_2, 2) { refine<2, mg::cartesian_coordinates_t<2>>(g, c); }
PROP(triangles_3, 2) { refine<2, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(tetrahedra, 3) { refine<3, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(triangles_polar, 1) { refine<2, mg::polar_coordinates_t>(g, c); }
