// B05: writing a mesh to a file and reading it again
#include "coords.h"
#include "meshes.h"
#include <mito/io.h>
#include <filesystem>
#include <fstream>

using namespace pbt;
using namespace meshes;
namespace {
    namespace fs = std::filesystem;
    namespace summit = mito::io::summit;

    struct Scratch {
        fs::path dir;
        Scratch()
        {
            std::string t = (fs::temp_directory_path() / "mito_summit.XXXXXX").string();
            dir = mkdtemp(t.data());
        }
        ~Scratch()
        {
            std::error_code e;
            fs::remove_all(dir, e);
        }
        std::string operator()(const std::string & name) const { return (dir / name).string(); }
    };
    std::string number(double x)
    {
        char s[64];
        std::snprintf(s, sizeof s, "%.17g", x);
        return s;
    }
    // fifteen digits are written
    void same(Ctx & c, double a, double b, const char * what)
    {
        c.check(a == b || std::abs(a - b) <= 1e-14 * std::abs(b), what, " is ", number(a), " instead of ", number(b));
    }
    double component(Gen & g)
    {
        switch (g.weighted({ 4, 4, 2, 1, 1 })) {
            case 0: return double(g.range(-3, 3));
            case 1: return g.signed_real(0, 10);
            case 2: return g.signed_real(0, 1) * std::pow(10.0, g.range(-12, 12));
            case 3: return g.signed_real(0, 1) * 1e-290;
            default: return g.signed_real(0, 1) * 1e290;
        }
    }

    template <int N, class X, summit::GalerkinMeshType kind>
    void round_trip(Gen & g, Ctx & c)
    {
        static constexpr int D = X::dim;
        using Cell = mg::geometric_simplex_t<N, D>;
        using Mesh = mm::mesh_t<Cell>;
        pyre::journal::quiet();
        NodesIn<X> nodes;
        auto mesh = mm::mesh<Cell>();
        bool many = g.chance(1, 60);
        int n = N + 1 + (many ? g.range(20, 300) : g.range(0, 6));
        for (int i = 0; i < n; ++i) {
            std::array<double, D> a;
            for (auto & x : a)
                x = component(g);
            nodes.add(a);
        }
        // several nodes on one vertex, several nodes at one point
        for (int i = g.weighted({ 5, 1, 1 }); i > 0; --i, ++n)
            if (g.flip()) {
                std::array<double, D> a;
                for (auto & x : a)
                    x = component(g);
                nodes.twin(g.below(n), a);
            } else
                nodes.neighbour(g.below(n));
        std::vector<Labels> cells;
        for (int i = many ? g.range(20, 300) : g.range(0, 1 + g.size()); i > 0; --i) {
            auto l = choose(g, N + 1, n);
            if (!nodes.proper(l))
                continue;
            mesh.insert(nodes.template array<N>(l));
            // (what is written is where the nodes are)
            cells.push_back(nodes.place(l));
        }
        for (int e = g.weighted({ 3, 1, 1, 1 }); e > 0 && !cells.empty(); --e) {
            int k = g.below(int(cells.size())), i = 0;
            for (auto & cell : mesh.cells())
                if (i++ == k) {
                    mesh.erase(cell);
                    break;
                }
            cells.erase(cells.begin() + k);
        }
        if (cells.size() > 1)
            c.nontrivial();
        c.note(cells.size(), " cells on ", n, " nodes in ", D, " dimensions");
        std::string type;
        if (g.chance(1, 3))
            type = g.flip() ? "CST" : g.chance(1, 4) ? std::string(size_t(g.range(60, 400)), 'q') : "solid";
        c.note("type of the elements \"", type, "\"");
        Scratch dir;
        bool stale = g.chance(1, 4);
        if (stale)
            std::ofstream(dir("mesh.summit")) << std::string(100000, '7');
        if (type.empty() && g.flip())
            summit::writer(dir("mesh"), mesh, nodes.sys);
        else
            summit::writer(dir("mesh"), mesh, nodes.sys, type);
        // the file, read by ourselves
        std::set<int> used;
        for (auto & l : cells)
            used.insert(l.begin(), l.end());
        {
            std::ifstream in(dir("mesh.summit"));
            int dim, points, n_cells, materials;
            in >> dim >> points >> n_cells >> materials;
            c.check(bool(in), "the header of the file");
            c.check(dim == D && points == int(used.size()) && n_cells == int(cells.size()) && materials == 1,
                    "the header of the file is ", dim, " ", points, " ", n_cells, " ", materials);
            std::vector<std::array<double, D>> at(static_cast<size_t>(points));
            for (auto & x : at)
                for (auto & v : x)
                    in >> v;
            for (auto & l : cells) {
                int kind_of;
                in >> kind_of;
                c.check(kind_of == N + 1, "the kind of the cell in the file");
                for (auto k : l) {
                    int p;
                    in >> p;
                    c.check(bool(in) && p >= 1 && p <= points, "the index of a point");
                    for (int d = 0; d < D; ++d)
                        same(c, at[size_t(p - 1)][size_t(d)], nodes.x[size_t(k)][size_t(d)], "coordinate in the file");
                }
                std::string rest, want = "1";
                std::getline(in, rest);
                std::istringstream words(rest);
                std::string label, what;
                words >> label >> what;
                c.check(label == "1" && what == type, "the end of the line of a cell is \"", rest, "\"");
            }
        }
        // reading it again
        NodesIn<X> copy;
        std::ifstream in(dir("mesh.summit"));
        Mesh again = [&]() -> Mesh {
            if constexpr (kind == summit::CG) {
                if (g.flip())
                    return summit::reader<Cell>(in, copy.sys);
            }
            return summit::reader<Cell, kind>(in, copy.sys);
        }();
        c.check(again.nCells() == int(cells.size()), "the mesh read has ", again.nCells(), " cells instead of ", cells.size());
        std::map<int, int> match, matched;
        size_t i = 0;
        std::set<mg::node_t<D>> objects;
        std::map<int, mg::point_t<D>> points;
        for (auto & cell : again.cells()) {
            auto l = copy.labels(cell);
            for (size_t k = 0; k <= N; ++k) {
                int was = cells[i][k];
                c.check(match.try_emplace(l[k], was).first->second == was && matched.try_emplace(was, l[k]).first->second == l[k],
                        "two nodes of the mesh become one or one becomes two");
                auto x = copy.sys.coordinates(cell.nodes()[k]->point());
                for (int d = 0; d < D; ++d) {
                    double a = x[d], b = nodes.x[size_t(was)][size_t(d)];
                    same(c, a, b, "coordinate of a node read");
                }
                objects.insert(cell.nodes()[k]);
                auto p = points.try_emplace(was, cell.nodes()[k]->point()).first->second;
                c.check(p == cell.nodes()[k]->point(), "the copies of a node are on the same point");
            }
            c.check(class_of(copy.simplex_labels(cell.simplex())) == class_of(l), "the simplex of a cell and its nodes agree");
            ++i;
        }
        c.check(i == cells.size(), "cells met in the mesh read");
        if (kind == summit::CG)
            c.check(objects.size() == used.size(), "every node is one object");
        else
            c.check(objects.size() == cells.size() * (N + 1), "every cell has nodes of its own");
        // writing the mesh read gives the same file
        summit::writer(dir("copy"), again, copy.sys, type);
        auto text = [&](const std::string & name) {
            std::ifstream f(dir(name));
            std::ostringstream s;
            s << f.rdbuf();
            return s.str();
        };
        c.check(text("mesh.summit") == text("copy.summit"), "the file written from the mesh read differs");
        // the connectivity survives: the boundaries have the same size
        bool plain = true;
        for (int k = 0; k < n; ++k)
            plain = plain && nodes.place(k) == k && nodes.canonical(k) == k;
        c.check(!plain || mm::boundary_size(mesh) == mm::boundary_size(again), "the boundary of the mesh read");
    }

    // files written by others: free format, nodes that are not used
    template <int N, int D>
    void foreign(Gen & g, Ctx & c)
    {
        using Cell = mg::geometric_simplex_t<N, D>;
        pyre::journal::quiet();
        Scratch dir;
        bool many = g.chance(1, 60);
        int n = N + 1 + (many ? g.range(20, 300) : g.range(0, 6));
        std::vector<std::array<double, D>> x(static_cast<size_t>(n));
        std::vector<Labels> cells;
        std::ostringstream s;
        auto pad = [&] { return std::string(size_t(g.range(1, 3)), g.chance(1, 6) ? '\t' : ' '); };
        for (auto & p : x)
            for (auto & v : p)
                v = component(g);
        for (int i = many ? g.range(20, 300) : g.range(0, 8); i > 0; --i)
            cells.push_back(choose(g, N + 1, n));
        // nodes that no cell uses, before those that are used
        int unused = g.chance(1, 5) ? g.range(1, 5) : g.chance(1, 100) ? g.range(250, 70000) : 0;
        s << D << "\n" << n + unused << pad() << cells.size() << pad() << 1 << "\n";
        for (int i = 0; i < unused; ++i) {
            for (int d = 0; d < D; ++d)
                s << i * 0.25 << " ";
            s << "\n";
        }
        for (auto & p : x) {
            for (auto & v : p)
                s << number(v) << pad();
            s << "\n";
        }
        for (auto & l : cells) {
            s << N + 1 << pad();
            for (auto k : l)
                s << unused + k + 1 << pad();
            s << g.pick(std::vector<std::string> { "1", "2", "12", "bulk" }) << "\n";
            if (g.chance(1, 8))
                s << "\n";
        }
        std::ofstream(dir("a.summit")) << s.str();
        c.note(cells.size(), " cells on ", n, " nodes after ", unused, " others");
        if (cells.size() > 1)
            c.nontrivial();
        Nodes<D> copy;
        std::ifstream in(dir("a.summit"));
        auto mesh = summit::reader<Cell>(in, copy.sys);
        c.check(mesh.nCells() == int(cells.size()), "number of cells");
        std::map<int, int> match;
        size_t i = 0;
        for (auto & cell : mesh.cells()) {
            auto l = copy.labels(cell);
            for (size_t k = 0; k <= N; ++k) {
                c.check(match.try_emplace(l[k], cells[i][k]).first->second == cells[i][k], "nodes");
                for (int d = 0; d < D; ++d)
                    c.check(copy.x[size_t(l[k])][size_t(d)] == x[size_t(cells[i][k])][size_t(d)], "coordinates");
            }
            ++i;
        }
        size_t placed = 0;
        for (const auto & [p, at] : copy.sys)
            ++placed;
        c.check(placed == size_t(n + unused), "every node of the file is placed");
        // a file that is not there
        std::ifstream none(dir("none.summit"));
        bool thrown = false;
        try {
            summit::reader<Cell>(none, copy.sys);
        } catch (const std::runtime_error &) {
            thrown = true;
        }
        c.check(thrown, "a file that is not there is not reported");
    }
}

PROP(segments_1, 1) { round_trip<1, cart<1>, summit::CG>(g, c); }
PROP(segments_3, 1) { round_trip<1, cart<3>, summit::DG>(g, c); }
PROP(triangles_2, 2) { round_trip<2, cart<2>, summit::CG>(g, c); }
PROP(triangles_2_dg, 2) { round_trip<2, cart<2>, summit::DG>(g, c); }
PROP(triangles_polar, 1) { round_trip<2, mg::polar_coordinates_t, summit::CG>(g, c); }
PROP(triangles_3, 1) { round_trip<2, cart<3>, summit::CG>(g, c); }
PROP(tetrahedra, 2) { round_trip<3, cart<3>, summit::CG>(g, c); }
PROP(tetrahedra_dg, 1) { round_trip<3, cart<3>, summit::DG>(g, c); }
PROP(foreign, 2)
{
    switch (g.range(0, 3)) {
        case 0: foreign<1, 2>(g, c); break;
        case 1: foreign<2, 2>(g, c); break;
        case 2: foreign<2, 3>(g, c); break;
        default: foreign<3, 3>(g, c);
    }
}
