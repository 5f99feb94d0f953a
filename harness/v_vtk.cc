// V01: grids handed to VTK (to a stand-in that keeps them)
#include "space.h"
#include <mito/io.h>

using namespace pbt;
using namespace femx;
namespace {
    namespace md = mito::discrete;
    namespace mv = mito::io::vtk;
    using coords::P3;

    double val(Gen & g) { return g.chance(1, 4) ? double(g.range(-3, 3)) : g.signed_real(0, 9); }
    std::string file(Gen & g) { return g.pick(std::vector<std::string> { "out", "some/where/out", "out.v2", "" }); }

    // the grid that a writer writes
    const fakeFile & written(Ctx & c, const mito::io::Writer & w, const std::string & name)
    {
        fakeFiles().clear();
        w.write();
        c.check(fakeFiles().size() == 1, "files written: ", fakeFiles().size());
        c.check(fakeFiles()[0].name == name + ".vtu", "name of the file: ", fakeFiles()[0].name);
        return fakeFiles()[0];
    }
    template <class W>
    const fakeFile & written_fields(Ctx & c, const W & w, const std::string & name)
    {
        fakeFiles().clear();
        w.write();
        c.check(fakeFiles().size() == 1, "files written: ", fakeFiles().size());
        c.check(fakeFiles()[0].name == name + ".vtu", "name of the file: ", fakeFiles()[0].name);
        return fakeFiles()[0];
    }
    constexpr int type_of(int n) { return n == 1 ? VTK_LINE : n == 2 ? VTK_TRIANGLE : VTK_TETRA; }

    // the nodes of a grid by their positions: every expected node once, at its place; cells in order
    void compare(Ctx & c, const vtkUnstructuredGrid & grid, int order, const std::vector<Labels> & cells,
                 const std::map<int, P3> & place, double scale, std::map<int, vtkIdType> & index)
    {
        c.check(grid.cells.size() == cells.size(), "cells: ", grid.cells.size(), " of ", cells.size());
        c.check(size_t(grid.GetNumberOfPoints()) == place.size(), "points: ", grid.GetNumberOfPoints(), " of ", place.size());
        index.clear();
        std::set<vtkIdType> used;
        for (size_t i = 0; i < cells.size(); ++i) {
            auto & cell = grid.cells[i];
            c.check(cell.type == type_of(order), "type of a cell: ", cell.type);
            c.check(cell.ids.size() == cells[i].size(), "points of a cell");
            for (size_t k = 0; k < cells[i].size(); ++k) {
                c.check(cell.ids[k] >= 0 && cell.ids[k] < grid.GetNumberOfPoints(), "index of a point");
                auto [it, fresh] = index.insert({ cells[i][k], cell.ids[k] });
                c.check(it->second == cell.ids[k], "node ", cells[i][k], " of cell ", i, " has two indices");
                if (fresh)
                    c.check(used.insert(cell.ids[k]).second, "two nodes have one index");
            }
        }
        for (auto & [l, i] : index)
            for (size_t d = 0; d < 3; ++d)
                c.near(grid.points->x[size_t(i)][d], place.at(l)[d], 1e-13 * scale, "position of node ", l, ", component ", d);
    }
    template <class Y>
    int components()
    {
        if constexpr (std::is_arithmetic_v<Y>)
            return 1;
        else
            return Y::size;
    }
    template <class Y>
    Y random_value(Gen & g)
    {
        if constexpr (std::is_arithmetic_v<Y>)
            return Y(val(g));
        else {
            Y y;
            for (auto & e : y)
                e = val(g);
            return y;
        }
    }
    template <class Y>
    std::vector<double> list(const Y & y)
    {
        if constexpr (std::is_arithmetic_v<Y>)
            return { double(y) };
        else {
            // row by row
            std::vector<double> v;
            if constexpr (requires { y[{ 0, 0 }]; } && Y::rank == 2) {
                for (int i = 0; i < Y::dims[0]; ++i)
                    for (int j = 0; j < Y::dims[1]; ++j)
                        v.push_back(y[{ i, j }]);
            } else
                for (int i = 0; i < Y::size; ++i)
                    v.push_back(y[i]);
            return v;
        }
    }
    // arrays of a grid
    using Expected = std::map<std::string, std::map<int, std::vector<double>>>;
    void arrays(Ctx & c, const vtkUnstructuredGrid & grid, const Expected & want, const std::map<int, vtkIdType> & index)
    {
        c.check(grid.data->arrays.size() == want.size(), "arrays: ", grid.data->arrays.size(), " of ", want.size());
        for (auto & a : grid.data->arrays) {
            auto it = want.find(a->name);
            c.check(it != want.end(), "array ", a->name);
            c.check(a->GetNumberOfTuples() == grid.GetNumberOfPoints(), "length of an array");
            for (auto & [l, v] : it->second) {
                c.check(a->components == int(v.size()), "components of an array");
                for (size_t k = 0; k < v.size(); ++k)
                    c.check(a->at(index.at(l), int(k)) == v[k], "value ", k, " of ", a->name, " at node ", l, ": ",
                            a->at(index.at(l), int(k)), " instead of ", v[k]);
            }
        }
    }
    std::string field_name(Gen & g, int i) { return g.pick(std::vector<std::string> { "u", "the field", "x" }) + std::to_string(i); }

    template <int N, class X>
    void mesh(Gen & g, Ctx & c)
    {
        constexpr int D = X::dim;
        using Cell = mg::geometric_simplex_t<N, D>;
        NodesIn<X> nodes;
        auto mesh = mm::mesh<Cell>();
        int n = N + 1 + g.range(0, 4);
        double scale = 1;
        for (int i = 0; i < n; ++i) {
            auto x = coords::somewhere<X>(g, false);
            std::array<double, D> a;
            for (int k = 0; k < D; ++k)
                a[size_t(k)] = x[k];
            nodes.add(a);
            scale = std::max(scale, coords::norm(coords::position(x)));
        }
        // several nodes on one vertex, several nodes at one point
        for (int i = g.weighted({ 3, 1, 1 }); i > 0; --i, ++n)
            if (g.flip()) {
                auto x = coords::somewhere<X>(g, false);
                std::array<double, D> a;
                for (int k = 0; k < D; ++k)
                    a[size_t(k)] = x[k];
                scale = std::max(scale, coords::norm(coords::position(x)));
                nodes.twin(g.below(n), a);
            } else
                nodes.neighbour(g.below(n));
        std::vector<Labels> cells;
        std::set<Class> seen;
        for (int i = g.range(0, 6); i > 0; --i) {
            auto l = choose(g, N + 1, n);
            if (!nodes.proper(l) || !seen.insert(class_of(nodes.canonical(l))).second)
                continue;
            mesh.insert(nodes.template array<N>(l));
            cells.push_back(l);
        }
        if (cells.size() > 1 && g.chance(1, 3)) {
            int k = g.below(int(cells.size())), i = 0;
            for (auto & cell : mesh.cells())
                if (i++ == k) {
                    mesh.erase(cell);
                    break;
                }
            cells.erase(cells.begin() + k);
        }
        // (the cells in the order of the mesh)
        std::vector<Labels> listed;
        for (const auto & cell : mesh.cells())
            listed.push_back(nodes.labels(cell));
        for (auto & l : listed)
            c.note("cell ", show(l));
        std::map<int, P3> place;
        for (auto & l : listed)
            for (auto v : l)
                place[v] = coords::position(nodes.at(v));
        auto name = file(g);
        std::map<int, vtkIdType> index;
        {
            auto writer = mv::grid_writer(name, mesh, nodes.sys);
            compare(c, *written(c, writer, name).grid, N, listed, place, scale, index);
            c.check(written(c, writer, name).arrays == 0, "fields of a grid without fields");
        }
        auto writer = mv::field_writer(name, mesh, nodes.sys);
        Expected want;
        auto record = [&]<class Y>(int i) {
            auto field = md::mesh_field<Y>(mesh, field_name(g, i));
            std::map<int, std::vector<double>> v;
            for (auto & [node, value] : field) {
                value = random_value<Y>(g);
                v[nodes.of(node)] = list(value);
            }
            if (g.flip()) {
                writer.template record<Y>(field);
                want[field.name()] = v;
            } else {
                auto other = "other " + std::to_string(g.range(0, 3));
                writer.template record<Y>(field, other);
                want[other] = v;
            }
            c.note("field of ", components<Y>(), " components");
        };
        int fields = g.range(0, 4);
        for (int i = 0; i < fields; ++i)
            switch (g.range(0, 3)) {
                case 0:
                    record.template operator()<double>(i);
                    break;
                case 1:
                    record.template operator()<mito::tensor::vector_t<3>>(i);
                    break;
                case 2:
                    record.template operator()<mito::tensor::vector_t<2>>(i);
                    break;
                default:
                    record.template operator()<mito::tensor::matrix_t<2>>(i);
            }
        auto & f = written_fields(c, writer, name);
        compare(c, *f.grid, N, listed, place, scale, index);
        arrays(c, *f.grid, want, index);
        if (listed.size() > 1 && fields > 0)
            c.nontrivial();
    }

    template <class X>
    void cloud(Gen & g, Ctx & c)
    {
        constexpr int D = X::dim;
        auto & cloud = mg::point_cloud<D>();
        mg::coordinate_system_t<X> sys;
        std::map<mg::point_t<D>, int> label;
        std::map<int, P3> place;
        double scale = 1;
        auto put = [&](const mg::point_t<D> & p) {
            // (distinct positions, so that the points can be told apart)
            X x;
            for (;;) {
                x = coords::somewhere<X>(g, false);
                bool taken = false;
                for (auto & [l, q] : place)
                    taken = taken || coords::norm(coords::sub(q, coords::position(x))) < 1e-3;
                if (!taken)
                    break;
            }
            sys.place(p, x);
            int l = int(label.size());
            label[p] = l;
            place[l] = coords::position(x);
            scale = std::max(scale, coords::norm(place[l]));
        };
        for (const auto & p : cloud.points())
            put(p);
        for (int i = g.range(1, 6); i > 0; --i)
            put(cloud.point());
        c.note(label.size(), " points");
        auto name = file(g);
        auto writer = mv::field_writer(name, cloud, sys);
        Expected want;
        auto record = [&]<class Y>(int i) {
            auto field = md::point_field<Y>(cloud, field_name(g, i));
            std::map<int, std::vector<double>> v;
            for (auto & [p, value] : field) {
                value = random_value<Y>(g);
                v[label.at(p)] = list(value);
            }
            writer.template record<Y>(field);
            want[field.name()] = v;
        };
        for (int i = g.range(0, 3); i > 0; --i)
            if (g.flip())
                record.template operator()<double>(i);
            else
                record.template operator()<mito::tensor::vector_t<3>>(i);
        auto find = [&](const vtkUnstructuredGrid & grid) {
            c.check(grid.cells.empty(), "cells of a cloud");
            c.check(size_t(grid.GetNumberOfPoints()) == place.size(), "points: ", grid.GetNumberOfPoints(), " of ", place.size());
            std::map<int, vtkIdType> index;
            for (vtkIdType i = 0; i < grid.GetNumberOfPoints(); ++i)
                for (auto & [l, q] : place)
                    if (coords::norm(coords::sub(q, grid.points->x[size_t(i)])) < 1e-12 * scale)
                        c.check(index.insert({ l, i }).second, "a point twice");
            c.check(index.size() == place.size(), "points in their places: ", index.size(), " of ", place.size());
            return index;
        };
        auto & f = written_fields(c, writer, name);
        arrays(c, *f.grid, want, find(*f.grid));
        auto plain = mv::grid_writer(name, cloud, sys);
        find(*written(c, plain, name).grid);
        if (label.size() > 1 && !want.empty())
            c.nontrivial();
    }

    template <int N, int P>
    void space(Gen & g, Ctx & c)
    {
        using S = Space<N, P>;
        S s(g, c);
        auto names = s.names(c);
        std::map<int, P3> place;
        for (auto & l : s.body.cells)
            for (auto v : l) {
                P3 p { 0, 0, 0 };
                for (size_t k = 0; k < N; ++k)
                    p[k] = s.body.nodes.x[size_t(v)][k];
                place[v] = p;
            }
        auto name = file(g);
        std::map<int, vtkIdType> index;
        {
            auto writer = mv::grid_writer(name, s.fs, s.body.nodes.sys);
            compare(c, *written(c, writer, name).grid, N, s.body.cells, place, s.body.scale, index);
        }
        auto writer = mv::field_writer(name, s.fs, s.body.nodes.sys);
        Expected want;
        auto record = [&]<class Y>(int i) {
            auto field = s.fs.template fem_field<Y>(field_name(g, i));
            std::map<int, std::vector<double>> v;
            for (auto & [node, value] : field) {
                value = random_value<Y>(g);
                auto & d = names.at(node);
                if (d.size() == 1)
                    v[d[0]] = list(value);
            }
            writer.template record<Y>(field.nodal_values());
            want[field.nodal_values().name()] = v;
        };
        int fields = g.range(0, 3);
        for (int i = fields; i > 0; --i)
            if (g.flip())
                record.template operator()<double>(i);
            else
                record.template operator()<mito::tensor::vector_t<2>>(i);
        auto & f = written_fields(c, writer, name);
        compare(c, *f.grid, N, s.body.cells, place, s.body.scale, index);
        arrays(c, *f.grid, want, index);
        if (fields > 0 && s.body.cells.size() > 1)
            c.nontrivial();
    }

    // the files of a process
    template <class W, class F>
    void pieces(Ctx & c, const W & writer, const std::string & name, F && look)
    {
        fakeFiles().clear();
        writer.write();
        c.check(fakeFiles().size() == 2, "files written");
        for (auto & f : fakeFiles()) {
            look(*f.grid);
            if (f.name == name + ".pvtu")
                c.check(f.pieces == fakeTasks() && f.first == fakeRank() && f.last == fakeRank(), "pieces");
            else
                c.check(f.name == name + "_" + std::to_string(fakeRank()) + ".vtu", "name of a piece: ", f.name);
        }
        c.check(fakeFiles()[0].name != fakeFiles()[1].name, "names of the files");
    }

    // the points of a cloud, written by any process
    void parallel_cloud(Gen & g, Ctx & c)
    {
        fakeTasks() = g.range(1, 5);
        fakeRank() = g.below(fakeTasks());
        auto & cloud = mg::point_cloud<2>();
        mg::coordinate_system_t<cart<2>> sys;
        std::vector<mg::point_t<2>> held;
        std::map<mg::point_t<2>, double> x;
        auto put = [&](const mg::point_t<2> & p) {
            double at = double(x.size());
            x[p] = at;
            sys.place(p, { at, 2. * at });
        };
        for (const auto & p : cloud.points())
            put(p);
        for (int i = g.range(1, 6); i > 0; --i) {
            held.push_back(cloud.point());
            put(held.back());
        }
        auto name = file(g);
        auto field = md::point_field<double>(cloud, "u");
        std::map<double, double> want;
        for (auto & [p, value] : field)
            want[x.at(p)] = value = val(g);
        auto writer = mv::parallel_field_writer(name, cloud, sys);
        writer.template record<double>(field);
        auto look = [&](const vtkUnstructuredGrid & grid, bool fields) {
            c.check(grid.cells.empty(), "cells of a cloud");
            c.check(size_t(grid.GetNumberOfPoints()) == want.size(), "points: ", grid.GetNumberOfPoints(), " of ", want.size());
            std::set<double> seen;
            for (vtkIdType i = 0; i < grid.GetNumberOfPoints(); ++i) {
                auto & q = grid.points->x[size_t(i)];
                c.check(want.count(q[0]) && q[1] == 2. * q[0] && q[2] == 0 && seen.insert(q[0]).second, "a point of the cloud");
                if (fields) {
                    auto & a = *grid.data->arrays.at(0);
                    c.check(a.name == "u" && a.v.size() == want.size() && a.components == 1, "the field");
                    c.check(a.v[size_t(i)] == want[q[0]], "value of a point");
                }
            }
        };
        pieces(c, writer, name, [&](const vtkUnstructuredGrid & grid) { look(grid, true); });
        auto plain = mv::parallel_grid_writer(name, cloud, sys);
        pieces(c, plain, name, [&](const vtkUnstructuredGrid & grid) { look(grid, false); });
        if (fakeTasks() > 1 && x.size() > 1)
            c.nontrivial();
    }

    // the nodes of a function space, written by any process
    template <int P>
    void parallel_space(Gen & g, Ctx & c)
    {
        fakeTasks() = g.range(1, 5);
        fakeRank() = g.below(fakeTasks());
        Space<2, P> s(g, c);
        auto names = s.names(c);
        std::map<int, P3> place;
        for (auto & l : s.body.cells)
            for (auto v : l)
                place[v] = { s.body.nodes.x[size_t(v)][0], s.body.nodes.x[size_t(v)][1], 0 };
        auto name = file(g);
        auto writer = mv::parallel_field_writer(name, s.fs, s.body.nodes.sys);
        auto field = s.fs.template fem_field<double>("u");
        Expected want;
        for (auto & [node, value] : field) {
            value = val(g);
            auto & d = names.at(node);
            if (d.size() == 1)
                want["u"][d[0]] = { value };
        }
        writer.template record<double>(field.nodal_values(), "u");
        std::map<int, vtkIdType> index;
        pieces(c, writer, name, [&](const vtkUnstructuredGrid & grid) {
            compare(c, grid, 2, s.body.cells, place, s.body.scale, index);
            arrays(c, grid, want, index);
        });
        auto plain = mv::parallel_grid_writer(name, s.fs, s.body.nodes.sys);
        pieces(c, plain, name, [&](const vtkUnstructuredGrid & grid) {
            compare(c, grid, 2, s.body.cells, place, s.body.scale, index);
        });
        if (fakeTasks() > 1)
            c.nontrivial();
    }

    // one part of a mesh per process
    void parallel(Gen & g, Ctx & c)
    {
        fakeTasks() = g.range(1, 5);
        fakeRank() = g.below(fakeTasks());
        Body<2> body(g, c, 2);
        auto name = file(g);
        std::map<int, P3> place;
        for (auto & l : body.cells)
            for (auto v : l)
                place[v] = { body.nodes.x[size_t(v)][0], body.nodes.x[size_t(v)][1], 0 };
        auto writer = mv::parallel_field_writer(name, body.mesh, body.nodes.sys);
        auto field = md::mesh_field<double>(body.mesh, "u");
        Expected want;
        for (auto & [node, value] : field) {
            value = val(g);
            want["u"][body.nodes.of(node)] = { value };
        }
        writer.record<double>(field);
        std::map<int, vtkIdType> index;
        pieces(c, writer, name, [&](const vtkUnstructuredGrid & grid) {
            compare(c, grid, 2, body.cells, place, body.scale, index);
            arrays(c, grid, want, index);
        });
        auto plain = mv::parallel_grid_writer(name, body.mesh, body.nodes.sys);
        pieces(c, plain, name, [&](const vtkUnstructuredGrid & grid) {
            compare(c, grid, 2, body.cells, place, body.scale, index);
        });
        if (fakeTasks() > 1)
            c.nontrivial();
    }
}    // namespace

PROP(mesh_1_1, 1) { mesh<1, cart<1>>(g, c); }
PROP(mesh_1_3, 1) { mesh<1, cart<3>>(g, c); }
PROP(mesh_2_2, 2) { mesh<2, cart<2>>(g, c); }
PROP(mesh_2_3, 2) { mesh<2, cart<3>>(g, c); }
PROP(mesh_3_3, 2) { mesh<3, cart<3>>(g, c); }
PROP(mesh_polar, 1) { mesh<2, mg::polar_coordinates_t>(g, c); }
PROP(mesh_spherical, 1) { mesh<3, mg::spherical_coordinates_t>(g, c); }
PROP(cloud_2, 1) { cloud<cart<2>>(g, c); }
PROP(cloud_3, 1) { cloud<cart<3>>(g, c); }
PROP(cloud_spherical, 1) { cloud<mg::spherical_coordinates_t>(g, c); }
PROP(space_segment_1, 1) { space<1, 1>(g, c); }
PROP(space_triangle_1, 1) { space<2, 1>(g, c); }
PROP(space_triangle_2, 1) { space<2, 2>(g, c); }
PROP(parallel_mesh, 1) { parallel(g, c); }
PROP(parallel_cloud, 1) { parallel_cloud(g, c); }
PROP(parallel_space_1, 1) { parallel_space<1>(g, c); }
PROP(parallel_space_2, 1) { parallel_space<2>(g, c); }
