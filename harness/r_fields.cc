// R01: discrete fields as maps
#include "coords.h"
#include "meshes.h"
#include <mito/discrete.h>
#include <mito/fields.h>
#include <mito/functions.h>

using namespace pbt;
using namespace meshes;
namespace {
    namespace md = mito::discrete;
    namespace mf = mito::functions;
    using coords::P3;

    // values
    template <class Y>
    struct Val;
    template <>
    struct Val<double> {
        static double make(Gen & g) { return g.chance(1, 4) ? double(g.range(-3, 3)) : g.signed_real(0, 9); }
    };
    template <>
    struct Val<int> {
        static int make(Gen & g) { return g.range(-99, 99); }
    };
    template <int D>
    struct Val<mito::tensor::vector_t<D>> {
        static auto make(Gen & g)
        {
            mito::tensor::vector_t<D> v;
            for (int i = 0; i < D; ++i)
                v[i] = Val<double>::make(g);
            return v;
        }
    };
    template <class Y, size_t Q>
    struct Val<std::array<Y, Q>> {
        static auto make(Gen & g)
        {
            std::array<Y, Q> v;
            for (auto & e : v)
                e = Val<Y>::make(g);
            return v;
        }
    };

    // keys: what the fields of the library are defined on
    template <int D>
    struct Points {
        using type = mg::point_t<D>;
        type make(Gen &) { return mg::point_cloud<D>().point(); }
    };
    template <int D>
    struct MeshNodes {
        using type = mg::node_t<D>;
        sys_t<D> sys;
        type make(Gen & g)
        {
            mito::tensor::vector_t<D> v;
            for (int i = 0; i < D; ++i)
                v[i] = Val<double>::make(g);
            return mg::node(sys, cart<D>(v));
        }
    };
    struct DiscretizationNodes {
        using type = md::discretization_node_t;
        type make(Gen &) { return type(); }
    };
    template <int N>
    struct Simplices {
        using type = topo::oriented_simplex_t<N>;
        std::vector<type> last;
        type make(Gen & g)
        {
            // (the other orientation of one that is there)
            if (!last.empty() && g.chance(1, 3)) {
                auto s = last.back();
                last.pop_back();
                std::vector<mito::topology::vertex_t> v;
                for (const auto & w : s->vertices())
                    v.push_back(w);
                topo::vertex_simplex_composition_t<N> a;
                for (size_t i = 0; i <= N; ++i)
                    a[i] = v[i];
                std::swap(a[0], a[1]);
                return topo::topology().template simplex<N>(a);
            }
            topo::vertex_simplex_composition_t<N> a;
            for (auto & w : a)
                w = topo::vertex();
            last.push_back(topo::topology().template simplex<N>(a));
            return last.back();
        }
    };

    template <class K, class Y>
    void history(Gen & g, Ctx & c)
    {
        using Key = typename K::type;
        using Field = md::DiscreteField<Key, Y>;
        K maker;
        std::vector<Key> keys;
        std::vector<std::pair<Key, Y>> model;
        auto at = [&](const Key & k) { return std::find_if(model.begin(), model.end(), [&](auto & e) { return e.first == k; }); };

        std::string name = g.flip() ? "" : "field " + std::to_string(g.range(0, 99));
        std::unique_ptr<Field> field;
        if (g.flip()) {
            int n = g.chance(1, 50) ? g.range(20, 200) : g.range(0, 6);
            for (int i = 0; i < n; ++i) {
                keys.push_back(maker.make(g));
                model.push_back({ keys.back(), Y() });
            }
            if (g.flip())
                field = std::make_unique<Field>(keys, name);
            else
                field = std::make_unique<Field>(std::set<Key>(keys.begin(), keys.end()), name);
            c.note("field on ", n, " keys");
        } else
            field = std::make_unique<Field>(name);

        auto compare = [&]() {
            c.check(field->size() == int(model.size()), "size ", field->size(), " of ", model.size(), " entries");
            c.check(field->name() == name, "name");
            std::set<Key> seen;
            for (const auto & [k, v] : std::as_const(*field)) {
                c.check(seen.insert(k).second, "an entry is listed twice");
                auto it = at(k);
                c.check(it != model.end(), "an entry that was not put in");
                c.check(it->second == v, "value in the list of entries");
            }
            c.check(seen.size() == model.size(), "entries listed");
            c.check(std::distance(field->cbegin(), field->cend()) == std::distance(field->begin(), field->end()), "iterators");
            for (auto & [k, v] : model)
                c.check(std::as_const(*field)(k) == v, "value of an entry");
        };
        int writes = 0;
        for (int step = g.chance(1, 200) ? g.range(50, 250) : g.range(1, 14); step > 0; --step) {
            switch (g.weighted({ 4, 4, 2, 2, 1, 1 })) {
                case 0: {
                    auto k = maker.make(g);
                    keys.push_back(k);
                    if (g.chance(2, 3)) {
                        auto v = Val<Y>::make(g);
                        field->insert(k, v);
                        model.push_back({ k, v });
                        c.note("insert value");
                    } else {
                        field->insert(k);
                        model.push_back({ k, Y() });
                        c.note("insert default");
                    }
                    break;
                }
                case 1:
                    if (!model.empty()) {
                        auto & e = model[size_t(g.below(int(model.size())))];
                        e.second = Val<Y>::make(g);
                        (*field)(e.first) = e.second;
                        ++writes;
                        c.note("write entry ", &e - model.data());
                    }
                    break;
                case 2: {
                    // through the list of entries
                    auto v = Val<Y>::make(g);
                    int n = g.range(0, int(model.size()));
                    for (auto & [k, value] : *field) {
                        if (n-- <= 0)
                            break;
                        value = v;
                        at(k)->second = v;
                        ++writes;
                    }
                    c.note("write while listing");
                    break;
                }
                case 3: {
                    auto k = maker.make(g);
                    bool thrown = false;
                    try {
                        (void) std::as_const(*field)(k);
                    } catch (const std::out_of_range &) {
                        thrown = true;
                    }
                    c.check(thrown, "reading a key that is not there");
                    thrown = false;
                    try {
                        (void) (*field)(k);
                    } catch (const std::out_of_range &) {
                        thrown = true;
                    }
                    c.check(thrown, "accessing a key that is not there");
                    c.note("read unknown key");
                    break;
                }
                case 4: {
                    auto other = std::make_unique<Field>(std::move(*field));
                    field = std::move(other);
                    c.note("move");
                    break;
                }
                default: {
                    // a copy of a key is the same key; a copy of a value is not the entry
                    if (model.empty())
                        break;
                    auto & e = model[size_t(g.below(int(model.size())))];
                    Key k = e.first;
                    auto value = std::as_const(*field)(k);
                    value = Val<Y>::make(g);
                    c.check(std::as_const(*field)(e.first) == e.second, "the entry changed with a copy of it");
                    break;
                }
            }
            compare();
        }
        if (model.size() > 1 && writes > 0)
            c.nontrivial();
        c.label(model.size() > 5 ? "many entries" : "few entries");
    }

    // fields made from meshes
    template <int N, class X>
    void on_mesh(Gen & g, Ctx & c)
    {
        constexpr int D = X::dim;
        using Cell = mg::geometric_simplex_t<N, D>;
        NodesIn<X> nodes;
        auto mesh = mm::mesh<Cell>();
        int n = N + 1 + g.range(0, 4);
        for (int i = 0; i < n; ++i) {
            auto x = coords::somewhere<X>(g, true);
            std::array<double, D> a;
            for (int k = 0; k < D; ++k)
                a[size_t(k)] = x[k];
            nodes.add(a);
        }
        // several nodes on one vertex, several nodes at one point
        for (int i = g.weighted({ 3, 1, 1 }); i > 0; --i, ++n)
            if (g.flip()) {
                auto x = coords::somewhere<X>(g, true);
                std::array<double, D> a;
                for (int k = 0; k < D; ++k)
                    a[size_t(k)] = x[k];
                nodes.twin(g.below(n), a);
            } else
                nodes.neighbour(g.below(n));
        auto kind = [&](const Labels & l) { return class_of(nodes.canonical(l)); };
        std::set<Class> cells;
        std::set<int> used;
        for (int i = g.range(1, 6); i > 0; --i) {
            auto l = choose(g, N + 1, n);
            if (!nodes.proper(l) || !cells.insert(kind(l)).second)
                continue;
            mesh.insert(nodes.template array<N>(l));
            used.insert(l.begin(), l.end());
            c.note("cell ", show(l));
        }
        if (cells.size() > 1)
            c.nontrivial();
        // nodes
        auto u = md::mesh_field<double>(mesh, "u");
        auto w = md::mesh_field<mito::tensor::vector_t<3>>(mesh, "w");
        auto keys = [&](auto & f, const char * what) {
            std::set<int> got;
            for (auto & [node, value] : f) {
                (void) value;
                c.check(got.insert(nodes.of(node)).second, "a node twice in the ", what);
            }
            c.check(got == used, "nodes of the ", what);
            c.check(f.size() == int(used.size()), "size of the ", what);
        };
        keys(u, "scalar field");
        keys(w, "vector field");
        c.check(u.name() == "u" && w.name() == "w", "names");
        for (auto & [node, value] : u)
            c.check(value == 0, "the scalar field starts at zero");
        for (auto & [node, value] : w)
            c.check(value == mito::tensor::vector_t<3> {}, "the vector field starts at its default");
        // values of a field at the nodes
        double a = Val<double>::make(g), b = Val<double>::make(g);
        constexpr auto x0 = mf::component<X, 0>;
        constexpr auto x1 = mf::component<X, D - 1>;
        auto f = a * x0 * x1 + mf::sin(b * x1) - x0;
        auto sampled = md::mesh_field(mesh, nodes.sys, f, "sampled");
        keys(sampled, "sampled field");
        for (auto l : used) {
            auto at = nodes.at(l);
            double x = at[0], y = at[D - 1];
            double want = a * x * y + std::sin(b * y) - x;
            c.near(sampled(nodes.n[size_t(l)]), want, 1e-12 * (1 + std::abs(a * x * y)), "value sampled at node ", l);
        }
        // the field does not follow the mesh
        auto extra = choose(g, N + 1, n);
        if (nodes.proper(extra) && cells.insert(kind(extra)).second) {
            mesh.insert(nodes.template array<N>(extra));
            c.check(u.size() == int(used.size()), "the field changed with the mesh");
        }
        // quadrature fields
        auto examine = [&]<class Y, int Q>() {
            auto q = md::quadrature_field<Y, Q>(mesh, "q");
            c.check(q.size() == int(cells.size()), "size of the quadrature field");
            std::set<Class> got;
            for (auto & [simplex, values] : q) {
                static_assert(std::is_same_v<std::remove_cvref_t<decltype(values)>, std::array<Y, size_t(Q)>>);
                got.insert(class_of(nodes.simplex_labels(simplex)));
            }
            c.check(got == cells, "cells of the quadrature field");
            std::map<Class, std::array<Y, size_t(Q)>> model;
            for (const auto & cell : mesh.cells()) {
                auto v = Val<std::array<Y, size_t(Q)>>::make(g);
                model[kind(nodes.labels(cell))] = v;
                q(cell.simplex()) = v;
            }
            for (const auto & cell : mesh.cells())
                c.check(std::as_const(q)(cell.simplex()) == model[kind(nodes.labels(cell))], "values in a cell");
        };
        if (g.flip())
            examine.template operator()<double, 2>();
        else
            examine.template operator()<mito::tensor::vector_t<2>, 3>();
    }

    // fields on all points of a cloud
    template <int D>
    void on_cloud(Gen & g, Ctx & c)
    {
        auto & cloud = mg::point_cloud<D>();
        std::vector<mg::point_t<D>> mine;
        for (int i = g.range(0, 5); i > 0; --i)
            mine.push_back(cloud.point());
        auto f = md::point_field<double>(cloud, "p");
        // (the points that nobody holds are not listed by the cloud)
        int listed = 0;
        for (const auto & p : cloud.points()) {
            c.check(f(p) == 0, "a point of the cloud starts at zero");
            ++listed;
        }
        c.check(f.size() == listed, "size ", f.size(), " for ", listed, " points");
        std::map<mg::point_t<D>, double> model;
        for (auto & p : mine) {
            model[p] = Val<double>::make(g);
            f(p) = model[p];
        }
        auto later = cloud.point();
        bool thrown = false;
        try {
            f(later);
        } catch (const std::out_of_range &) {
            thrown = true;
        }
        c.check(thrown, "a point made after the field is in it");
        f.insert(later, 4.5);
        model[later] = 4.5;
        c.check(f.size() == listed + 1, "size after adding the new point");
        int found = 0;
        for (const auto & [p, v] : f) {
            auto it = model.find(p);
            c.check(v == (it == model.end() ? 0.0 : it->second), "value at a point");
            found += it != model.end();
        }
        c.check(found == int(model.size()), "points of the field");
        // the field keeps points that nobody else holds
        std::map<decltype(later.id()), double> values;
        for (auto & [p, v] : model)
            values[p.id()] = v;
        mine.clear();
        model.clear();
        for (int k = 0; k < 3; ++k) {
            auto fresh = cloud.point();
            c.check(!values.count(fresh.id()), "a new point is one of the field");
        }
        found = 0;
        for (const auto & [p, v] : f) {
            auto it = values.find(p.id());
            c.check(v == (it == values.end() ? 0.0 : it->second), "value at a point that only the field holds");
            found += it != values.end();
        }
        c.check(found == int(values.size()), "points that only the field holds");
        if (values.size() > 2)
            c.nontrivial();
    }

    // a field with very many entries
    void crowd(Gen & g, Ctx & c)
    {
        int n = g.chance(1, 60) ? g.range(33000, 70000) : g.range(200, 700);
        auto & cloud = mg::point_cloud<2>();
        std::vector<mg::point_t<2>> p;
        md::DiscreteField<mg::point_t<2>, int> f("crowd");
        for (int i = 0; i < n; ++i) {
            p.push_back(cloud.point());
            f.insert(p.back(), i);
        }
        c.note(n, " entries");
        c.check(f.size() == n, "size ", f.size(), " instead of ", n);
        int shift = g.range(1, 9);
        for (int k = 0; k < 300; ++k) {
            int i = k * 7919 % n;
            c.check(f(p[size_t(i)]) == i, "value of entry ", i);
        }
        for (auto & [key, v] : f)
            v += shift;
        long long sum = 0;
        for (const auto & [key, v] : f)
            sum += v;
        c.check(sum == (long long)(n) * (n - 1) / 2 + (long long)(shift) * n, "sum of the values");
        auto moved = std::move(f);
        c.check(moved.size() == n && moved(p.back()) == n - 1 + shift, "the field after a move");
        c.nontrivial();
    }
}    // namespace

PROP(crowd, 1) { crowd(g, c); }
PROP(points_scalar, 3) { history<Points<2>, double>(g, c); }
PROP(points_vector, 2) { history<Points<3>, mito::tensor::vector_t<3>>(g, c); }
PROP(mesh_nodes_scalar, 3) { history<MeshNodes<2>, double>(g, c); }
PROP(mesh_nodes_vector, 2) { history<MeshNodes<3>, mito::tensor::vector_t<2>>(g, c); }
PROP(discretization_nodes, 3) { history<DiscretizationNodes, double>(g, c); }
PROP(discretization_nodes_int, 1) { history<DiscretizationNodes, int>(g, c); }
PROP(cells_of_arrays, 3) { history<Simplices<2>, std::array<double, 3>>(g, c); }
PROP(cells_of_vectors, 2) { history<Simplices<1>, std::array<mito::tensor::vector_t<2>, 2>>(g, c); }
PROP(mesh_1_1, 2) { on_mesh<1, cart<1>>(g, c); }
PROP(mesh_2_2, 3) { on_mesh<2, cart<2>>(g, c); }
PROP(mesh_2_3, 2) { on_mesh<2, cart<3>>(g, c); }
PROP(mesh_3_3, 2) { on_mesh<3, cart<3>>(g, c); }
PROP(mesh_polar, 2) { on_mesh<2, mg::polar_coordinates_t>(g, c); }
PROP(mesh_spherical, 2) { on_mesh<3, mg::spherical_coordinates_t>(g, c); }
PROP(cloud_2, 1) { on_cloud<2>(g, c); }
PROP(cloud_3, 1) { on_cloud<3>(g, c); }
