// helpers shared by the checks on meshes: nodes with labels, cells as ordered lists of labels
#pragma once
#include "topo.h"
#include <set>
#include <unordered_map>
#include <mito/geometry.h>
#include <mito/mesh.h>

namespace meshes {
    namespace mg = mito::geometry;
    namespace mm = mito::mesh;
    using topo::Chain;
    using topo::Class;
    using topo::class_of;
    using topo::show;
    using Labels = std::vector<int>;

    template <int D>
    using cart = mg::cartesian_coordinates_t<D>;
    template <int D>
    using sys_t = mg::coordinate_system_t<cart<D>>;

    // nodes placed in a system of coordinates X
    template <class X>
    struct NodesIn {
        static constexpr int D = X::dim;
        mg::coordinate_system_t<X> sys;
        std::vector<mg::node_t<D>> n;
        std::vector<std::array<double, D>> x;
        std::map<topo::vertex_t, int> label;    // the first node on each vertex
        std::unordered_map<mg::node_t<D>, int, mito::utilities::hash_function<mg::node_t<D>>> own;

        int put(const mg::node_t<D> & node, const std::array<double, D> & at)
        {
            n.push_back(node);
            x.push_back(at);
            label.insert({ node->vertex(), int(n.size()) - 1 });
            own[node] = int(n.size()) - 1;
            return int(n.size()) - 1;
        }
        // another node on the vertex of node {l}, at a point of its own
        int twin(int l, const std::array<double, D> & at)
        {
            mito::tensor::vector_t<D> v;
            for (int i = 0; i < D; ++i)
                v[i] = at[size_t(i)];
            auto point = mg::point_cloud<D>().point();
            sys.place(point, X(v));
            auto vertex = n[size_t(l)]->vertex();
            return put(mg::node_t<D>(vertex, point), at);
        }
        // another node at the point of node {l}, on a vertex of its own
        int neighbour(int l)
        {
            auto point = n[size_t(l)]->point();
            return put(mg::node_t<D>(mito::topology::vertex(), point), std::array<double, D>(x[size_t(l)]));
        }
        // the first node on the vertex of node {l}
        int canonical(int l) const { return label.at(n[size_t(l)]->vertex()); }
        Labels canonical(Labels l) const
        {
            for (auto & v : l)
                v = canonical(v);
            return l;
        }

        // the first node at the point of node {l}
        int place(int l) const
        {
            for (int k = 0; k < l; ++k)
                if (n[size_t(k)]->point() == n[size_t(l)]->point())
                    return k;
            return l;
        }
        Labels place(Labels l) const
        {
            for (auto & v : l)
                v = place(v);
            return l;
        }
        // the nodes of a cell are on different vertices, at different points
        bool proper(const Labels & l) const
        {
            std::set<int> vertices, points;
            for (auto v : l) {
                vertices.insert(canonical(v));
                points.insert(place(v));
            }
            return vertices.size() == l.size() && points.size() == l.size();
        }

        int add(const std::array<double, D> & at)
        {
            mito::tensor::vector_t<D> v;
            for (int i = 0; i < D; ++i)
                v[i] = at[size_t(i)];
            return put(mg::node(sys, X(v)), at);
        }
        X at(int l) const { return sys.coordinates(n[size_t(l)]->point()); }
        int random(pbt::Gen & g, double scale = 3)
        {
            std::array<double, D> at;
            for (auto & c : at)
                c = g.chance(1, 4) ? double(g.range(-2, 2)) : g.signed_real(0, scale);
            return add(at);
        }
        // the label of a node, taking in nodes that were made by the library
        int of(const mg::node_t<D> & node)
        {
            if (auto mine = own.find(node); mine != own.end())
                return mine->second;
            auto it = label.find(node->vertex());
            if (it != label.end())
                return it->second;
            auto & c = sys.coordinates(node->point());
            std::array<double, D> at;
            for (int i = 0; i < D; ++i)
                at[size_t(i)] = c[i];
            return put(node, at);
        }
        template <int N>
        std::array<mg::node_t<D>, size_t(N + 1)> array(const Labels & l) const
        {
            return [&]<size_t... I>(std::index_sequence<I...>) {
                return std::array<mg::node_t<D>, size_t(N + 1)> { n[size_t(l[I])]... };
            }(std::make_index_sequence<size_t(N + 1)> {});
        }
        template <int N>
        topo::vertex_simplex_composition_t<N> vertices(const Labels & l) const
        {
            topo::vertex_simplex_composition_t<N> a;
            for (int i = 0; i <= N; ++i)
                a[size_t(i)] = n[size_t(l[size_t(i)])]->vertex();
            return a;
        }
        template <class C>
        Labels labels(const C & cell)
        {
            Labels l;
            for (const auto & node : cell.nodes())
                l.push_back(of(node));
            return l;
        }
        // (label of an oriented simplex by its own vertices)
        template <class S>
        Labels simplex_labels(const S & s) const
        {
            Labels out;
            for (const auto & v : s->vertices())
                out.push_back(label.at(v));
            return out;
        }
    };

    template <int D>
    using Nodes = NodesIn<cart<D>>;

    inline Labels choose(pbt::Gen & g, int count, int from)
    {
        Labels all(static_cast<size_t>(from)), out;
        std::iota(all.begin(), all.end(), 0);
        for (int i = 0; i < count; ++i) {
            int k = g.below(int(all.size()));
            out.push_back(all[size_t(k)]);
            all.erase(all.begin() + k);
        }
        return out;
    }

    // the faces of a cell, each with its sign: (sorted labels, sign)
    inline std::vector<Class> faces(const Labels & v)
    {
        if (v.size() == 2)
            return { Class { { v[1] }, +1 }, Class { { v[0] }, -1 } };
        std::vector<Class> out;
        for (auto & f : topo::faces(v))
            out.push_back(class_of(f));
        return out;
    }

    // structured meshes of [0,1]^N stretched at random, nodes moved a little
    template <int N>
    std::vector<Labels> grid(pbt::Gen & g, const std::array<int, size_t(N)> & n,
                             const std::function<int(const std::array<double, size_t(N)> &)> & add,
                             double wobble)
    {
        std::vector<int> id;
        std::array<int, 3> m { 1, 1, 1 };
        for (int i = 0; i < N; ++i)
            m[size_t(i)] = n[size_t(i)] + 1;
        for (int k = 0; k < m[2]; ++k)
            for (int j = 0; j < m[1]; ++j)
                for (int i = 0; i < m[0]; ++i) {
                    std::array<double, size_t(N)> x;
                    int ijk[3] = { i, j, k };
                    for (int d = 0; d < N; ++d) {
                        int q = ijk[d], last = n[size_t(d)];
                        double w = q == 0 || q == last ? 0 : wobble * g.signed_real(0, 1);
                        x[size_t(d)] = (q + w) / last;
                    }
                    id.push_back(add(x));
                }
        auto at = [&](int i, int j, int k) { return id[size_t((k * m[1] + j) * m[0] + i)]; };
        std::vector<Labels> cells;
        for (int i = 0; i < n[0]; ++i) {
            if constexpr (N == 1)
                cells.push_back({ at(i, 0, 0), at(i + 1, 0, 0) });
            else
                for (int j = 0; j < n[1]; ++j) {
                    if constexpr (N == 2) {
                        int a = at(i, j, 0), b = at(i + 1, j, 0), c = at(i + 1, j + 1, 0), d = at(i, j + 1, 0);
                        if (g.flip()) {
                            cells.push_back({ a, b, c });
                            cells.push_back({ a, c, d });
                        } else {
                            cells.push_back({ a, b, d });
                            cells.push_back({ b, c, d });
                        }
                    } else
                        for (int k = 0; k < n[2]; ++k) {
                            // Kuhn: six tetrahedra around the diagonal
                            int p[3] = { 0, 1, 2 };
                            do {
                                int q[3] = { i, j, k };
                                Labels t { at(q[0], q[1], q[2]) };
                                for (int s = 0; s < 3; ++s) {
                                    ++q[p[s]];
                                    t.push_back(at(q[0], q[1], q[2]));
                                }
                                if (topo::parity({ p[0], p[1], p[2] }) < 0)
                                    std::swap(t[2], t[3]);
                                cells.push_back(t);
                            } while (std::next_permutation(p, p + 3));
                        }
                }
        }
        return cells;
    }
    // an even permutation of the vertices of a cell
    inline void rotate(pbt::Gen & g, Labels & l)
    {
        if (l.size() < 3)
            return;
        auto before = class_of(l);
        do
            g.shuffle(l);
        while (class_of(l).sign != before.sign);
    }
}    // namespace meshes
