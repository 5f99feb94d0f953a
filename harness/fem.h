// helpers shared by the checks on finite elements: exact integrals over simplices, meshes to solve on
#pragma once
#include "coords.h"
#include "meshes.h"
#include <mito/fem.h>
#include <mito/quadrature.h>

namespace femx {
    using namespace meshes;
    using pbt::Ctx;
    using pbt::Gen;
    namespace mf = mito::functions;
    namespace mq = mito::quadrature;
    namespace fe = mito::fem;
    namespace mt = mito::tensor;

    // polynomials in the barycentric coordinates of a simplex with N + 1 vertices
    template <int N>
    struct Poly {
        using Exponents = std::array<int, N + 1>;
        std::map<Exponents, double> c;
        static Poly constant(double v)
        {
            Poly p;
            p.c[Exponents {}] = v;
            return p;
        }
        static Poly lambda(int i)
        {
            Poly p;
            Exponents e {};
            e[size_t(i)] = 1;
            p.c[e] = 1;
            return p;
        }
        Poly operator+(const Poly & o) const
        {
            Poly r = *this;
            for (auto & [e, v] : o.c)
                r.c[e] += v;
            return r;
        }
        Poly operator*(const Poly & o) const
        {
            Poly r;
            for (auto & [a, v] : c)
                for (auto & [b, w] : o.c) {
                    Exponents e;
                    for (size_t i = 0; i <= N; ++i)
                        e[i] = a[i] + b[i];
                    r.c[e] += v * w;
                }
            return r;
        }
        Poly operator*(double s) const { return *this * constant(s); }
        Poly operator-(const Poly & o) const { return *this + o * -1.0; }
        // derivative with respect to one barycentric coordinate, as if they were independent
        Poly d(int i) const
        {
            Poly r;
            for (auto & [e, v] : c)
                if (e[size_t(i)] > 0) {
                    auto f = e;
                    --f[size_t(i)];
                    r.c[f] += v * e[size_t(i)];
                }
            return r;
        }
        double operator()(const std::array<double, N + 1> & l) const
        {
            double s = 0;
            for (auto & [e, v] : c) {
                double t = v;
                for (size_t i = 0; i <= N; ++i)
                    for (int k = 0; k < e[i]; ++k)
                        t *= l[i];
                s += t;
            }
            return s;
        }
        // mean over the simplex: N! a! b! c! / (N + a + b + c)!
        double mean() const
        {
            double s = 0;
            for (auto & [e, v] : c) {
                double t = v;
                int k = N;
                for (size_t i = 0; i <= N; ++i)
                    for (int j = 1; j <= e[i]; ++j)
                        t *= double(j) / ++k;
                s += t;
            }
            return s;
        }
    };

    // the elements, by their shape functions in barycentric coordinates of the vertices
    template <int N, int P>
    struct Element {
        using cell_type = mg::geometric_simplex_t<N, N>;
        using type = fe::isoparametric_simplex_t<P, cell_type>;
        using X = cart<N>;
        using Xi = typename type::parametric_coordinates_type;
        static constexpr int n = type::n_nodes;

        static Poly<N> shape(int a)
        {
            using Q = Poly<N>;
            if (P == 1)
                return Q::lambda(a);
            if (a <= N)
                return Q::lambda(a) * (Q::lambda(a) * 2.0 - Q::constant(1));
            auto [i, j] = edge(a);
            return Q::lambda(i) * Q::lambda(j) * 4.0;
        }
        static std::array<int, 2> edge(int a)
        {
            int k = a - N - 1;
            return { k, (k + 1) % 3 };
        }
        // barycentric coordinates, with the conventions of the shape functions: node 0 of a segment
        // is at 0, node 0 of a triangle at (1, 0), node 1 at (0, 1)
        static std::array<double, N + 1> barycentric(const Xi & xi)
        {
            if constexpr (N == 1)
                return { 1 - xi[0], xi[0] };
            else
                return { xi[0], xi[1], 1 - xi[0] - xi[1] };
        }
        // derivatives of the barycentric coordinates with respect to the parametric ones
        static constexpr double dl(int i, int k)
        {
            if (N == 1)
                return i == 0 ? -1 : 1;
            return i == k ? 1 : i == 2 ? -1 : 0;
        }
    };

    // a cell placed in space
    template <int N>
    struct Placed {
        std::vector<std::array<double, N>> x;    // the vertices
        double det() const
        {
            if constexpr (N == 1)
                return x[1][0] - x[0][0];
            else
                return (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[1][1] - x[0][1]) * (x[2][0] - x[0][0]);
        }
        double size() const { return det() / (N == 1 ? 1 : 2); }
        double diameter() const
        {
            double d = 0;
            for (auto & a : x)
                for (auto & b : x) {
                    double s = 0;
                    for (size_t k = 0; k < N; ++k)
                        s += (a[k] - b[k]) * (a[k] - b[k]);
                    d = std::max(d, std::sqrt(s));
                }
            return d;
        }
        // gradients in space of the barycentric coordinates
        std::array<double, N> grad(int i) const
        {
            if constexpr (N == 1)
                return { (i == 0 ? -1 : 1) / det() };
            else {
                auto & p = x[size_t((i + 1) % 3)];
                auto & q = x[size_t((i + 2) % 3)];
                return { (p[1] - q[1]) / det(), (q[0] - p[0]) / det() };
            }
        }
        std::array<double, N> at(const std::array<double, N + 1> & l) const
        {
            std::array<double, N> r {};
            for (size_t i = 0; i <= N; ++i)
                for (size_t k = 0; k < N; ++k)
                    r[k] += l[i] * x[i][k];
            return r;
        }
        // coordinates as polynomials
        Poly<N> coordinate(int k) const
        {
            Poly<N> p;
            for (int i = 0; i <= N; ++i)
                p = p + Poly<N>::lambda(i) * x[size_t(i)][size_t(k)];
            return p;
        }
        // gradient in space of a polynomial
        std::array<Poly<N>, N> gradient(const Poly<N> & p) const
        {
            std::array<Poly<N>, N> r;
            for (int i = 0; i <= N; ++i)
                for (size_t k = 0; k < N; ++k)
                    r[k] = r[k] + p.d(i) * grad(i)[k];
            return r;
        }
        double integral(const Poly<N> & p) const { return size() * p.mean(); }
    };

    // polynomial fields, for mito and for the reference: coefficients of 1 x y x2 xy y2
    template <int N>
    struct Field {
        std::array<double, 6> c {};
        int degree = 0;
        static Field random(Gen & g, int degree)
        {
            Field f;
            f.degree = degree;
            int terms = N == 1 ? degree + 1 : degree == 0 ? 1 : degree == 1 ? 3 : 6;
            for (int i = 0; i < terms; ++i)
                f.c[size_t(i)] = g.chance(1, 4) ? double(g.range(-2, 2)) : g.signed_real(0, 2);
            return f;
        }
        auto mito() const
        {
            constexpr auto x = mf::component<cart<N>, 0>;
            if constexpr (N == 1) {
                return c[0] + c[1] * x + c[2] * x * x;
            } else {
                constexpr auto y = mf::component<cart<N>, 1>;
                return c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y;
            }
        }
        template <class V>
        V value(const V & one, const V & x, const V & y) const
        {
            if constexpr (N == 1)
                return one * c[0] + x * c[1] + x * x * c[2];
            else
                return one * c[0] + x * c[1] + y * c[2] + x * x * c[3] + x * y * c[4] + y * y * c[5];
        }
        double operator()(const std::array<double, N> & p) const { return value(1.0, p[0], p[N - 1]); }
        std::array<double, N> gradient(const std::array<double, N> & p) const
        {
            if constexpr (N == 1)
                return { c[1] + 2 * c[2] * p[0] };
            else
                return { c[1] + 2 * c[3] * p[0] + c[4] * p[1], c[2] + c[4] * p[0] + 2 * c[5] * p[1] };
        }
        Poly<N> on(const Placed<N> & t) const
        {
            return value(Poly<N>::constant(1), t.coordinate(0), t.coordinate(N - 1));
        }
        double bound(double r) const
        {
            double s = 0;
            for (auto v : c)
                s += std::abs(v);
            return s * (1 + r * r);
        }
    };

    template <int N>
    double reach(const Placed<N> & t)
    {
        double r = 1;
        for (auto & p : t.x)
            for (auto v : p)
                r = std::max(r, std::abs(v));
        return r;
    }

    // a mesh without overlaps, its cells positively oriented
    template <int N>
    struct Body {
        using Cell = mg::geometric_simplex_t<N, N>;
        Nodes<N> nodes;
        mm::mesh_t<Cell> mesh;
        std::vector<Labels> cells;
        double scale = 1;

        // {seams}: cells may have nodes of their own on vertices that they share
        Body(Gen & g, Ctx & c, int most = 3, bool seams = false) : mesh(mm::mesh<Cell>())
        {
            std::array<int, size_t(N)> n;
            for (auto & k : n)
                k = g.range(1, N == 1 ? 2 * most : most);
            // now and then many cells, or many cells around one node
            bool many = most > 2 && g.chance(1, 40), star = N == 2 && !many && g.chance(1, 8);
            if (many)
                for (auto & k : n)
                    k = N == 1 ? g.range(20, 120) : g.range(4, 8);
            // an affine map with positive determinant
            std::array<double, 6> m { 1, 0, 0, 1, 0, 0 };
            if (g.chance(3, 4))
                do
                    for (auto & v : m)
                        v = g.signed_real(0, 2);
                while ((N == 1 ? m[0] : m[0] * m[3] - m[1] * m[2]) < 0.2);
            // (in other units)
            if (g.chance(1, 6)) {
                double unit = std::pow(10.0, g.range(-4, 3));
                for (auto & v : m)
                    v *= unit;
            }
            std::vector<std::array<double, N>> x;
            auto point = [&](const std::array<double, size_t(N)> & p) {
                if constexpr (N == 1)
                    x.push_back({ m[0] * p[0] + m[4] });
                else
                    x.push_back({ m[0] * p[0] + m[1] * p[1] + m[4], m[2] * p[0] + m[3] * p[1] + m[5] });
                return int(x.size()) - 1;
            };
            std::vector<Labels> list;
            if constexpr (N == 2)
                if (star)
                    list = fan(g, most > 2 && g.chance(1, 12) ? g.range(10, 40) : g.range(3, 8), point);
            if (!star)
                list = grid<N>(g, n, point, g.chance(1, 3) ? 0 : 0.3);
            // nodes are made, and cells put in, in any order
            std::vector<int> order(x.size()), now(x.size());
            std::iota(order.begin(), order.end(), 0);
            if (g.chance(3, 4)) {
                g.shuffle(order);
                g.shuffle(list);
            }
            for (auto k : order) {
                now[size_t(k)] = nodes.add(x[size_t(k)]);
                for (auto v : x[size_t(k)])
                    scale = std::max(scale, std::abs(v));
            }
            for (auto & l : list) {
                for (auto & v : l)
                    v = now[size_t(v)];
                rotate(g, l);
            }
            if (seams && g.chance(1, 8))
                for (int times = g.range(1, 3); times > 0; --times) {
                    auto & one = list[size_t(g.below(int(list.size())))];
                    auto & v = one[size_t(g.below(N + 1))];
                    int old = v, own = nodes.twin(old, nodes.x[size_t(old)]);
                    v = own;
                    for (auto & l : list)
                        if (&l != &one && g.chance(1, 3))
                            std::replace(l.begin(), l.end(), old, own);
                    c.label("seam");
                }
            // holes
            bool holes = list.size() > 2 && g.chance(1, 3);
            for (size_t i = 0; i < list.size(); ++i) {
                if (holes && cells.size() > 1 && g.chance(1, 4))
                    continue;
                mesh.insert(nodes.template array<N>(list[i]));
                cells.push_back(list[i]);
            }
            // a cell that is taken out again
            if (cells.size() > 2 && g.chance(1, 4)) {
                int k = g.below(int(cells.size())), i = 0;
                for (auto & cell : mesh.cells())
                    if (i++ == k) {
                        mesh.erase(cell);
                        break;
                    }
                cells.erase(cells.begin() + k);
            }
            c.note(cells.size(), " cells on ", nodes.n.size(), " nodes", holes ? " with holes" : "");
        }
        // triangles around a node, all the way or not
        static std::vector<Labels> fan(Gen & g, int k, const std::function<int(const std::array<double, 2> &)> & point)
        {
            bool closed = g.flip();
            double turn = closed ? 2 * M_PI : g.real(0.5, 0.4 * M_PI * std::min(k, 4)), start = g.real(0, 6);
            int rim = closed ? k : k + 1, first = 0, last = 0;
            int centre = point({ 0, 0 });
            std::vector<Labels> list;
            for (int i = 0; i < rim; ++i) {
                double r = g.real(0.6, 1), a = start + turn * i / k;
                int now = point({ r * std::cos(a), r * std::sin(a) });
                if (i > 0)
                    list.push_back({ centre, last, now });
                else
                    first = now;
                last = now;
            }
            if (closed)
                list.push_back({ centre, last, first });
            return list;
        }
        Placed<N> placed(const Labels & l) const
        {
            Placed<N> t;
            for (auto k : l)
                t.x.push_back(nodes.x[size_t(k)]);
            return t;
        }
        // how many cells have each pair of nodes (of vertices)
        std::map<Labels, int> edges(bool vertices = false) const
        {
            std::map<Labels, int> out;
            for (auto & own : cells) {
                auto l = vertices ? nodes.canonical(own) : own;
                for (size_t i = 0; i < l.size(); ++i)
                    for (size_t j = i + 1; j < l.size(); ++j)
                        ++out[{ std::min(l[i], l[j]), std::max(l[i], l[j]) }];
            }
            return out;
        }
    };
}    // namespace femx
