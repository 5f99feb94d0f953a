// B04: partitions of a mesh
#include "meshes.h"

using namespace pbt;
using namespace meshes;
namespace {
    template <int N, int D>
    void partition(Gen & g, Ctx & c)
    {
        using Cell = mg::geometric_simplex_t<N, D>;
        Nodes<D> nodes;
        auto mesh = mm::mesh<Cell>();
        std::vector<Labels> cells;
        bool many = false;
        if (g.chance(1, 3)) {
            // any cells
            int n = N + 1 + g.range(0, 8);
            for (int i = 0; i < n; ++i)
                nodes.random(g);
            for (int i = g.range(2, 12); i > 0; --i)
                cells.push_back(choose(g, N + 1, n));
        } else {
            std::array<int, size_t(N)> n;
            for (auto & k : n)
                k = g.range(1, N == 1 ? 20 : N == 2 ? 5 : 2);
            many = g.chance(1, 40);
            if (many)
                for (auto & k : n)
                    k = g.range(3, N == 1 ? 150 : N == 2 ? 11 : 4);
            cells = grid<N>(g, n, [&](const std::array<double, size_t(N)> & x) {
                std::array<double, size_t(D)> y {};
                for (int i = 0; i < N; ++i)
                    y[size_t(i)] = x[size_t(i)];
                return nodes.add(y);
            }, 0.2);
            g.shuffle(cells);
        }
        bool reversed = g.chance(1, 4);
        std::vector<topo::simplex_t<N>> keep;
        for (auto & l : cells) {
            if (reversed && g.flip())
                std::swap(l[0], l[1]);
            if (g.chance(1, 5)) {
                auto r = l;
                std::swap(r[0], r[1]);
                keep.push_back(topo::topology().template simplex<N>(nodes.template vertices<N>(r)));
            }
            mesh.insert(nodes.template array<N>(l));
        }
        // some cells are erased
        for (int e = g.weighted({ 3, 1, 1, 1 }); e > 0 && cells.size() > 2; --e) {
            int k = g.below(int(cells.size())), i = 0;
            for (auto & cell : mesh.cells())
                if (i++ == k) {
                    mesh.erase(cell);
                    break;
                }
            cells.erase(cells.begin() + k);
            c.label("cells were erased");
        }
        // (no more partitions than cells)
        int parts = g.range(1, std::min(many ? 40 : 8, int(cells.size())));
        c.note(cells.size(), " cells, ", parts, " partitions");
        if (parts > 1)
            c.nontrivial();
        auto listed = [&](auto & m) {
            std::vector<Labels> out;
            for (auto & cell : m.cells()) {
                out.push_back(nodes.labels(cell));
                c.check(class_of(nodes.simplex_labels(cell.simplex())) == class_of(out.back()),
                        "the simplex of a cell and its nodes agree");
            }
            c.check(m.nCells() == int(out.size()), "number of cells of a partition");
            return out;
        };
        c.check(listed(mesh) == cells, "the mesh");
        std::map<Labels, int> owner;
        std::multiset<Labels> all;
        size_t biggest = 0;
        for (int r = 0; r < parts; ++r) {
            auto part = mm::metis::partition(mesh, parts, r);
            auto l = listed(part);
            all.insert(l.begin(), l.end());
            biggest = std::max(biggest, l.size());
            // in the order of the mesh
            size_t at = 0;
            for (auto & x : l) {
                while (at < cells.size() && cells[at] != x)
                    ++at;
                c.check(at < cells.size(), "partition ", r, " is not in the order of the mesh");
                ++at;
            }
            // the same again
            if (g.chance(1, 3)) {
                auto again = mm::metis::partition(mesh, parts, r);
                c.check(listed(again) == l, "the same partition asked for twice");
            }
            // a partition is a mesh of its own
            if (g.chance(1, 3) && !l.empty()) {
                for (auto & cell : part.cells()) {
                    part.erase(cell);
                    break;
                }
                c.check(part.nCells() == int(l.size()) - 1, "a cell is erased from a partition");
            }
            // the boundary of a partition is its own
            std::map<Class, int> f;
            auto now = listed(part);
            for (auto & x : now)
                for (auto & y : faces(x))
                    ++f[y];
            int open = 0;
            for (auto & [x, m] : f) {
                auto y = x;
                y.sign = -y.sign;
                if (!f.contains(y))
                    open += m;
            }
            c.check(mm::boundary_size(part) == open, "the boundary of partition ", r);
        }
        c.check(all == std::multiset<Labels>(cells.begin(), cells.end()), "the partitions have ", all.size(), " cells, the mesh has ",
                cells.size());
        c.check(listed(mesh) == cells, "the mesh has changed");
        // nobody else has any cells
        c.check(mm::metis::partition(mesh, parts, parts).nCells() == (parts == 1 ? int(cells.size()) : 0),
                "a partition beyond the last one has cells");
    }
}

PROP(segments, 1) { partition<1, 1>(g, c); }
PROP(segments_3, 1) { partition<1, 3>(g, c); }
PROP(triangles_2, 2) { partition<2, 2>(g, c); }
PROP(triangles_3, 1) { partition<2, 3>(g, c); }
PROP(tetrahedra, 2) { partition<3, 3>(g, c); }
