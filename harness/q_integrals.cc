// Q01 volumes of manifolds; -DPBT_Q02 integrals of polynomials; -DPBT_Q03 divergence theorem
#include "coords.h"
#include "meshes.h"
#include <mito/manifolds.h>
#include <mito/quadrature.h>

using namespace pbt;
using namespace meshes;
namespace {
    using coords::P3;
    using coords::position;
    using coords::somewhere;
    namespace mf = mito::functions;
    namespace mq = mito::quadrature;

    double det(const std::vector<P3> & v, int d)
    {
        if (d == 1)
            return v[0][0];
        if (d == 2)
            return v[0][0] * v[1][1] - v[0][1] * v[1][0];
        return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0])
             + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
    }
    double factorial(int n)
    {
        double f = 1;
        for (int i = 2; i <= n; ++i)
            f *= i;
        return f;
    }
    // 1/N! of the determinant of the normals (in space) and the edge vectors
    template <int N, int D>
    double signed_volume(const std::vector<P3> & p, const std::vector<P3> & normals)
    {
        auto v = normals;
        for (size_t i = 1; i <= N; ++i)
            v.push_back(coords::sub(p[i], p[0]));
        return det(v, D) / factorial(N);
    }

    // any cells on a few nodes
    template <int N, class X>
    struct Soup {
        static constexpr int D = X::dim;
        using Cell = mg::geometric_simplex_t<N, D>;
        NodesIn<X> nodes;
        mm::mesh_t<Cell> mesh;
        std::vector<Labels> cells;
        std::vector<topo::simplex_t<N>> keep;
        double unit, scale = 0;    // (lengths are in this unit, and up to this size)

        Soup(Gen & g, Ctx & c) : mesh(mm::mesh<Cell>()), unit(coords::unit(g))
        {
            bool large = g.chance(1, 80);
            int n = N + 1 + (large ? g.range(10, 20) : g.range(0, 3));
            for (int i = 0; i < n; ++i) {
                nodes.add(coords::components(somewhere<X>(g, true), unit));
                scale = std::max(scale, coords::norm(position(nodes.at(i))));
            }
            // nodes that share a vertex, at points of their own
            if (g.chance(1, 4)) {
                auto k = nodes.twin(g.below(n), coords::components(somewhere<X>(g, true), unit));
                scale = std::max(scale, coords::norm(position(nodes.at(k))));
                ++n;
            }
            std::set<Class> seen;
            for (int i = large ? g.range(30, 150) : g.range(1, 5); i > 0; --i) {
                auto l = choose(g, N + 1, n);
                // (no cell twice)
                if (!nodes.proper(l) || !seen.insert(class_of(nodes.canonical(l))).second)
                    continue;
                if (g.chance(1, 4)) {
                    auto r = l;
                    std::swap(r[0], r[1]);
                    keep.push_back(topo::topology().template simplex<N>(nodes.template vertices<N>(r)));
                }
                c.note("cell ", show(l));
                mesh.insert(nodes.template array<N>(l));
                cells.push_back(l);
            }
            if (cells.size() > 1 && g.chance(1, 3)) {
                int k = g.below(int(cells.size())), i = 0;
                for (auto & cell : mesh.cells())
                    if (i++ == k) {
                        c.note("erase ", show(cells[size_t(k)]));
                        mesh.erase(cell);
                        break;
                    }
                cells.erase(cells.begin() + k);
            }
        }
        std::vector<P3> points(const Labels & l) const
        {
            std::vector<P3> p;
            for (auto k : l)
                p.push_back(position(nodes.at(k)));
            return p;
        }
    };
    template <class X>
    mito::tensor::vector_t<X::dim> random_vector(Gen & g)
    {
        mito::tensor::vector_t<X::dim> v;
        for (int i = 0; i < X::dim; ++i)
            v[i] = g.chance(1, 4) ? double(g.range(-2, 2)) : g.signed_real(0, 2);
        return v;
    }
    // a vector in space from its components in the frame at x
    template <class X>
    P3 in_space(const mito::tensor::vector_t<X::dim> & v, const X & x)
    {
        auto f = coords::frame(x);
        P3 r { 0, 0, 0 };
        for (int i = 0; i < X::dim; ++i)
            for (size_t d = 0; d < 3; ++d)
                r[d] += v[i] * f[size_t(i)][d];
        return r;
    }

#if !defined(PBT_Q02) && !defined(PBT_Q03)
    template <int N, class X>
    void examine(Gen & g, Ctx & c, const auto & manifold, Soup<N, X> & s, auto && normals, double factor = 1)
    {
        double total = 0, tol = 4e-11 * std::pow(s.scale, N) * factor;
        size_t i = 0;
        std::vector<double> sizes;
        for (const auto & cell : s.mesh.cells()) {
            auto p = s.points(s.cells[i]);
            auto want = signed_volume<N, X::dim>(p, normals(s.nodes.at(s.cells[i][0])));
            sizes.push_back(want);
            c.near(manifold.volume(cell), want, tol, "volume of cell ", show(s.cells[i]));
            c.near(manifold.volume(mg::flip(cell)) , signed_volume<N, X::dim>(s.points(s.nodes.labels(mg::flip(cell))),
                   normals(s.nodes.at(s.nodes.labels(mg::flip(cell))[0]))), tol, "volume of the opposite cell");
            total += want;
            ++i;
            if (want != 0)
                c.nontrivial();
        }
        c.near(manifold.volume(), total, tol * double(1 + s.cells.size()), "volume");
        c.check(manifold.nElements() == int(s.cells.size()), "number of cells");
        c.check(&manifold.mesh() == &s.mesh && &manifold.coordinate_system() == &s.nodes.sys, "the parts of the manifold");
        for (auto & node : s.nodes.n)
            c.check(manifold.coordinates(node) == s.nodes.sys.coordinates(node->point()), "coordinates of a node");
        (void) g;
    }

    template <int N, class X>
    void full(Gen & g, Ctx & c)
    {
        Soup<N, X> s(g, c);
        auto manifold = mito::manifolds::manifold(s.mesh, s.nodes.sys);
        examine<N, X>(g, c, manifold, s, [](const X &) { return std::vector<P3> {}; });
        // a volume form of the user's
        if (g.chance(1, 3)) {
            double a = g.signed_real(0, 2), b = g.flip() ? 0 : g.signed_real(0, 2);
            int k = g.below(X::dim);
            auto density = [a, b, k](const X & x) { return a + b * x[k]; };
            auto measure = [&](const auto & m) {
                double total = 0, tol = 0;
                size_t i = 0;
                for (const auto & cell : s.mesh.cells()) {
                    const auto & x = s.nodes.at(s.cells[i][0]);
                    double t = 4e-11 * std::pow(s.scale, N) * (std::abs(a) + std::abs(b * x[k]));
                    double want = density(x) * signed_volume<N, X::dim>(s.points(s.cells[i]), {});
                    c.near(m.volume(cell), want, t, "volume by the user's form of cell ", show(s.cells[i]));
                    total += want;
                    tol += t;
                    ++i;
                }
                c.near(m.volume(), total, tol * 2, "volume by the user's form");
            };
            using space = mg::metric_space<X>;
            if (g.flip())
                measure(mito::manifolds::manifold(s.mesh, s.nodes.sys,
                    mf::function([density](const X & x) { return density(x) * space::w(x); })));
            else
                measure(mito::manifolds::manifold(s.mesh, s.nodes.sys, mf::function([density](const X & x) { return density(x); }) * space::w));
            c.note("density ", a, " + ", b, " x", k);
        }
        // refining the mesh changes no volume
        if (g.chance(1, 3)) {
            auto refined = mm::tetra(s.mesh, s.nodes.sys, 1);
            auto fine = mito::manifolds::manifold(refined, s.nodes.sys);
            c.near(fine.volume(), manifold.volume(), 1e-10 * std::pow(s.scale, N) * double(1 + s.cells.size()), "volume of the refined mesh");
        }
        // a cell more is taken into account
        if (s.cells.size() < 4) {
            auto l = choose(g, N + 1, int(s.nodes.n.size()));
            if (!s.nodes.proper(l))
                return;
            double before = manifold.volume();
            s.mesh.insert(s.nodes.template array<N>(l));
            c.near(manifold.volume() - before, signed_volume<N, X::dim>(s.points(l), {}), 1e-10 * std::pow(s.scale, N) * 5,
                   "volume of the cell that is put in later");
        }
        // in other coordinates
        auto other = [&]<class Y>() {
            auto sys = mg::coordinate_system<Y>(s.nodes.sys);
            auto moved = mito::manifolds::manifold(s.mesh, sys);
            c.near(moved.volume(), manifold.volume(), 1e-10 * std::pow(s.scale, N) * double(1 + s.cells.size()),
                   "volume in other coordinates");
        };
        if constexpr (std::is_same_v<X, mg::polar_coordinates_t>)
            other.template operator()<mg::cartesian_coordinates_t<2>>();
        else if constexpr (std::is_same_v<X, mg::spherical_coordinates_t>)
            other.template operator()<mg::cartesian_coordinates_t<3>>();
    }

    // a normal field: constant components, or components that vary
    template <int N, class X>
    void sub(Gen & g, Ctx & c)
    {
        Soup<N, X> s(g, c);
        constexpr int K = X::dim - N;
        std::array<mito::tensor::vector_t<X::dim>, 2> n { random_vector<X>(g), random_vector<X>(g) };
        bool varying = g.flip();
        c.note(varying ? "varying" : "constant", " normals");
        auto value = [varying](const mito::tensor::vector_t<X::dim> & v, const X & x) {
            mito::tensor::vector_t<X::dim> r = v;
            if (varying)
                for (int i = 0; i < X::dim; ++i)
                    r[i] += x[i] - 0.5 * x[0] * v[0];
            return r;
        };
        auto normals = [&](const X & x) {
            std::vector<P3> out;
            for (size_t k = 0; k < K; ++k)
                out.push_back(in_space<X>(value(n[k], x), x));
            return out;
        };
        auto n0 = n[0], n1 = n[1];
        auto go = [&](const auto & f0, const auto & f1) {
            if constexpr (K == 1) {
                auto m = mito::manifolds::submanifold(s.mesh, s.nodes.sys, f0);
                examine<N, X>(g, c, m, s, normals, std::pow(8 * (1 + s.scale), K));
            } else {
                auto m = mito::manifolds::submanifold(s.mesh, s.nodes.sys, f0, f1);
                examine<N, X>(g, c, m, s, normals, std::pow(8 * (1 + s.scale), K));
            }
        };
        if (varying)
            go(mf::function([=](const X & x) { return value(n0, x); }), mf::function([=](const X & x) { return value(n1, x); }));
        else
            go(mf::constant<X>(n0), mf::constant<X>(n1));
    }

    // boxes: the volume is the product of the sides
    template <int N>
    void box(Gen & g, Ctx & c)
    {
        Nodes<N> nodes;
        auto mesh = mm::mesh<mg::geometric_simplex_t<N, N>>();
        std::array<int, size_t(N)> n;
        for (auto & k : n)
            k = g.range(1, N == 1 ? 20 : N == 2 ? 6 : 3);
        std::array<double, size_t(N)> side, at;
        double want = 1, scale = 1, unit = coords::unit(g);
        for (size_t i = 0; i < N; ++i) {
            side[i] = g.real(0.1, 5) * unit;
            at[i] = g.signed_real(0, 5) * unit;
            want *= side[i];
            scale *= 6 * unit + side[i];
        }
        auto cells = grid<N>(g, n, [&](std::array<double, size_t(N)> x) {
            for (size_t i = 0; i < N; ++i)
                x[i] = at[i] + x[i] * side[i];
            return nodes.add(x);
        }, 0.3);
        for (auto & l : cells) {
            rotate(g, l);
            mesh.insert(nodes.template array<N>(l));
        }
        c.nontrivial();
        c.note(cells.size(), " cells of a box");
        auto m = mito::manifolds::manifold(mesh, nodes.sys);
        c.near(m.volume(), want, 1e-12 * scale * double(cells.size()), "volume of a box");
    }
#endif

#if defined(PBT_Q02)
    // the integral over a simplex of measure 1 of a product of affine functions, given by their
    // values at the vertices
    double product_integral(const std::vector<std::vector<double>> & l, int N)
    {
        size_t k = l.size();
        std::vector<size_t> v(k, 0);
        double sum = 0;
        while (true) {
            double t = 1;
            std::vector<int> times(static_cast<size_t>(N + 1), 0);
            for (size_t i = 0; i < k; ++i)
                t *= l[i][v[i]] * ++times[v[i]];
            sum += t;
            size_t i = 0;
            while (i < k && ++v[i] == size_t(N + 1))
                v[i++] = 0;
            if (i == k)
                break;
        }
        return sum * factorial(N) / factorial(N + int(k));
    }

    template <int D>
    struct Affine {
        std::array<double, size_t(D)> a;
        double b;
        double operator()(const auto & x) const
        {
            double r = b;
            for (int i = 0; i < D; ++i)
                r += a[size_t(i)] * x[size_t(i)];
            return r;
        }
    };

    template <int N, int D, int R>
    void exact(Gen & g, Ctx & c)
    {
        using X = cart<D>;
        Soup<N, X> s(g, c);
        int degree = g.range(0, R);
        std::vector<Affine<D>> factors(static_cast<size_t>(degree));
        for (auto & f : factors) {
            for (auto & x : f.a)
                x = g.chance(1, 4) ? double(g.range(-1, 1)) : g.signed_real(0, 2);
            f.b = g.chance(1, 4) ? 0 : g.signed_real(0, 2);
        }
        double factor = g.signed_real(0.1, 3);
        c.note("degree ", degree, " of ", R);
        constexpr int K = D - N;
        std::array<mito::tensor::vector_t<D>, 2> n { random_vector<X>(g), random_vector<X>(g) };
        std::vector<P3> normals;
        for (size_t k = 0; k < K; ++k)
            normals.push_back(in_space<X>(n[k], X {}));
        // the integral of the product of some factors over all cells, and how far off it may be
        auto expected = [&](const std::vector<Affine<D>> & by) {
            double want = 0, tol = 0, size = std::pow(s.scale, N) * std::pow(8, K);
            for (auto & l : s.cells) {
                auto p = s.points(l);
                std::vector<std::vector<double>> values;
                double big = std::abs(factor);
                for (auto & h : by) {
                    values.emplace_back();
                    double m = 0;
                    for (auto & q : p) {
                        values.back().push_back(h(q));
                        m = std::max(m, std::abs(values.back().back()));
                        for (int i = 0; i < D; ++i)
                            m = std::max(m, std::abs(h.a[size_t(i)] * q[size_t(i)]));
                    }
                    big *= 3 * m + std::abs(h.b);
                }
                double v = signed_volume<N, D>(p, normals);
                want += v * factor * product_integral(values, N);
                tol += 1e-11 * big * (std::abs(v) + 1e-3 * size);
            }
            return std::pair(want, tol);
        };
        auto product = [factor](const std::vector<Affine<D>> & by) {
            return [by, factor](const X & x) {
                double r = factor;
                for (auto & f : by) {
                    double t = f.b;
                    for (int i = 0; i < D; ++i)
                        t += f.a[size_t(i)] * x[i];
                    r *= t;
                }
                return r;
            };
        };
        auto [want, tol] = expected(factors);
        auto f = mf::function(product(factors));
        if (want != 0 && degree > 0)
            c.nontrivial();
        auto go = [&](const auto & manifold) {
            auto integrator = mq::integrator<mq::GAUSS, R>(manifold);
            // the places where the integrand is asked for
            std::vector<X> places;
            auto watch = &places;
            integrator.integrate(mf::function([watch](const X & x) { watch->push_back(x); return 1.0; }));
            c.near(integrator.integrate(f), want, tol, "integral");
            c.near(integrator.integrate(f), integrator.integrate(f), 0, "integrated twice");
            c.near(integrator.integrate(mf::constant<X>(2.0)), 2 * manifold.volume(), 1e-11 * double(s.cells.size()) * std::pow(s.scale, N) * std::pow(8, K),
                   "integral of a constant");
            // linear in the integrand
            auto h = mf::function([](const X & x) { return std::cos(x[0]); });
            c.near(integrator.integrate(f + 3.0 * h), integrator.integrate(f) + 3.0 * integrator.integrate(h),
                   tol + 1e-9 * double(s.cells.size()) * std::pow(s.scale, N) * std::pow(8, K), "the integral of a linear combination");
            // an integrand that is exactly zero at one of these places (zero there means nothing for
            // the rest of the cell)
            for (int times = places.empty() ? 0 : g.range(1, 3); times > 0; --times) {
                auto & x = places[size_t(g.below(int(places.size())))];
                int k = g.below(D);
                auto by = factors;
                by.resize(size_t(std::min(degree, R - 1)));
                by.emplace_back();
                by.back().a.fill(0);
                by.back().a[size_t(k)] = 1;
                by.back().b = -x[k];
                auto [w, t] = expected(by);
                if (w != 0)
                    c.nontrivial();
                c.near(integrator.integrate(mf::function(product(by))), w, t, "integral of a field with a zero");
            }
        };
        if constexpr (K == 0)
            go(mito::manifolds::manifold(s.mesh, s.nodes.sys));
        else if constexpr (K == 1)
            go(mito::manifolds::submanifold(s.mesh, s.nodes.sys, mf::constant<X>(n[0])));
        else
            go(mito::manifolds::submanifold(s.mesh, s.nodes.sys, mf::constant<X>(n[0]), mf::constant<X>(n[1])));
    }
    // the rule itself, on the reference simplex
    template <int N, int R>
    void rule(Gen & g, Ctx & c)
    {
        using Ref = mg::reference_simplex_t<N>;
        auto q = mq::quadrature_rule<mq::GAUSS, Ref, R>();
        std::array<int, size_t(N)> e;
        int left = R;
        double want = factorial(N);
        int total = 0;
        for (auto & k : e) {
            k = g.range(0, left);
            left -= k;
            total += k;
            want *= factorial(k);
        }
        want /= factorial(N + total);
        double got = 0, sum = 0;
        for (int i = 0; i < q.npoints; ++i) {
            auto p = q.point(i);
            double t = q.weight(i), rest = 1;
            sum += t;
            for (int d = 0; d < N; ++d) {
                t *= std::pow(p[d], e[size_t(d)]);
                rest -= p[d];
                c.check(p[d] >= 0, "a point outside of the reference simplex");
            }
            c.check(rest >= -1e-15, "a point outside of the reference simplex");
            got += t;
        }
        c.nontrivial();
        c.near(sum, 1, 1e-15, "sum of weights");
        c.near(got, want, 1e-13, "integral of a monomial of degree ", total, " with exactness ", R);
    }
#endif

#if defined(PBT_Q03)
    // the image of a box under an affine map, a field of degree two
    template <int D>
    void divergence(Gen & g, Ctx & c)
    {
        using X = cart<D>;
        Nodes<D> nodes;
        auto mesh = mm::mesh<mg::geometric_simplex_t<D, D>>();
        std::array<int, size_t(D)> n;
        double unit = coords::unit(g);
        bool large = g.chance(1, 60);
        for (auto & k : n)
            k = large ? g.range(1, D == 2 ? 9 : 4) : g.range(1, D == 2 ? 4 : 2);
        // an affine map of positive determinant: unit lower triangular times upper triangular
        std::array<std::array<double, size_t(D)>, size_t(D)> L {}, U {}, M {}, I {};
        double vol = 1;
        bool plain = g.chance(1, 3);
        for (size_t i = 0; i < D; ++i)
            for (size_t j = 0; j < D; ++j) {
                L[i][j] = i == j ? 1 : i > j && !plain ? g.signed_real(0, 0.5) : 0;
                U[i][j] = unit * (i == j ? g.real(0.5, 2) : i < j && !plain ? g.signed_real(0, 0.5) : 0);
            }
        for (size_t i = 0; i < D; ++i) {
            vol *= U[i][i];
            for (size_t j = 0; j < D; ++j)
                for (size_t k = 0; k < D; ++k)
                    M[i][j] += L[i][k] * U[k][j];
        }
        // its inverse, by columns
        for (size_t col = 0; col < D; ++col) {
            std::array<double, size_t(D)> y {};
            for (size_t i = 0; i < D; ++i) {
                y[i] = i == col;
                for (size_t k = 0; k < i; ++k)
                    y[i] -= L[i][k] * y[k];
            }
            for (size_t i = D; i-- > 0;) {
                for (size_t k = i + 1; k < D; ++k)
                    y[i] -= U[i][k] * I[k][col];
                I[i][col] = y[i] / U[i][i];
            }
        }
        auto cells = grid<D>(g, n, [&](const std::array<double, size_t(D)> & t) {
            std::array<double, size_t(D)> x {};
            for (size_t i = 0; i < D; ++i)
                for (size_t j = 0; j < D; ++j)
                    x[i] += M[i][j] * t[j];
            return nodes.add(x);
        }, 0.2);
        g.shuffle(cells);
        std::vector<topo::simplex_t<D>> keep;
        for (auto & l : cells) {
            rotate(g, l);
            if (g.chance(1, 5)) {
                auto r = l;
                std::swap(r[0], r[1]);
                keep.push_back(topo::topology().template simplex<D>(nodes.template vertices<D>(r)));
            }
            mesh.insert(nodes.template array<D>(l));
        }
        c.note(cells.size(), " cells");
        c.nontrivial();
        // the outward normal: that of the side which is nearest
        auto normal = [I](const X & x) {
            double best = 1e300;
            mito::tensor::vector_t<D> out;
            for (size_t i = 0; i < D; ++i) {
                double t = 0, len = 0;
                for (size_t j = 0; j < D; ++j) {
                    t += I[i][j] * x[int(j)];
                    len += I[i][j] * I[i][j];
                }
                len = std::sqrt(len);
                for (int side = 0; side < 2; ++side)
                    if (double d = std::abs(t - side); d < best) {
                        best = d;
                        for (size_t j = 0; j < D; ++j)
                            out[int(j)] = (side ? 1 : -1) * I[i][j] / len;
                    }
            }
            return out;
        };
        auto nf = mf::function([normal](const X & x) { return normal(x); });
        double a[10];
        for (auto & v : a)
            v = g.chance(1, 5) ? double(g.range(-1, 1)) : g.signed_real(0, 2);
        auto body = mito::manifolds::manifold(mesh, nodes.sys);
        auto boundary_mesh = mm::boundary(mesh);
        auto boundary = mito::manifolds::submanifold(boundary_mesh, nodes.sys, nf);
        c.near(body.volume(), vol, 1e-12 * double(cells.size()) * std::pow(unit, D), "volume of the body");
        auto go = [&](const auto & f) {
            auto div = mito::fields::divergence(f);
            auto inside = mq::integrator<mq::GAUSS, 2>(body).integrate(div);
            // (the normal depends on the point where the boundary cell begins for its measure and
            // on the quadrature point for the flux)
            double outside = 0, sense = 0;
            // cell by cell on sides: the normal must be that of the side of the cell
            auto flux = mf::function([f, normal](const X & x) {
                auto v = f(x);
                auto n = normal(x);
                double r = 0;
                for (int i = 0; i < D; ++i)
                    r += v[i] * n[i];
                return r;
            });
            for (auto & cell : boundary_mesh.cells()) {
                auto one = mm::mesh<mg::geometric_simplex_t<D - 1, D>>();
                one.insert(cell);
                // the normal of the side, at the barycenter
                auto m = normal(mg::barycenter(cell, nodes.sys));
                auto side = mito::manifolds::submanifold(one, nodes.sys, mf::constant<X>(m));
                // (the boundary of triangles is oriented outward, that of tetrahedra inward)
                double area = side.volume();
                if (sense == 0)
                    sense = area > 0 ? 1 : -1;
                c.check(area * sense > 0, "the boundary cells are not oriented to the same side");
                if (D == 2)
                    c.check(area > 0, "a boundary cell of a plane body is not oriented outward");
                outside += sense * mq::integrator<mq::GAUSS, 2>(side).integrate(flux);
            }
            c.near(inside, outside, 1e-10 * double(cells.size()) * std::pow(unit, D - 1) * (1 + unit) * (1 + unit), "the integral of the divergence and the flux");
        };
        if constexpr (D == 2) {
            constexpr auto x0 = mg::cartesian::x_0<2>;
            constexpr auto x1 = mg::cartesian::x_1<2>;
            constexpr auto e0 = mg::cartesian::e_0<2>;
            constexpr auto e1 = mg::cartesian::e_1<2>;
            switch (g.range(0, 2)) {
                case 0: go(a[0] * x0 * x1 * e0 + a[1] * x0 * x0 * e1); break;
                case 1: go((a[0] * x0 * x0 + a[1] * x0 * x1 + a[2] * x1 * x1 + a[3] * x0) * e0 + (a[4] * x0 * x0 + a[5] * x0 * x1 + a[6] * x1 * x1 + a[7] * x1) * e1); break;
                default: go(a[0] * e0 + (a[1] * x1 * x1) * e1);
            }
        } else {
            constexpr auto x0 = mg::cartesian::x_0<3>;
            constexpr auto x1 = mg::cartesian::x_1<3>;
            constexpr auto x2 = mg::cartesian::x_2<3>;
            constexpr auto e0 = mg::cartesian::e_0<3>;
            constexpr auto e1 = mg::cartesian::e_1<3>;
            constexpr auto e2 = mg::cartesian::e_2<3>;
            switch (g.range(0, 1)) {
                case 0: go(a[0] * x0 * x2 * e0 + a[1] * x1 * x2 * e1 + a[2] * x2 * x2 * e2); break;
                default: go((a[0] * x0 * x0 + a[1] * x1 * x2) * e0 + (a[2] * x1 + a[3] * x0 * x1) * e1 + (a[4] * x2 * x0 + a[5] * x1 * x1) * e2);
            }
        }
    }
#endif
}

#if defined(PBT_Q02)
PROP(rules, 2)
{
    switch (g.range(0, 7)) {
        case 0: rule<1, 1>(g, c); break;
        case 1: rule<1, 2>(g, c); break;
        case 2: rule<2, 1>(g, c); break;
        case 3: rule<2, 2>(g, c); break;
        case 4: rule<2, 3>(g, c); break;
        case 5: rule<2, 4>(g, c); break;
        case 6: rule<3, 1>(g, c); break;
        default: rule<3, 2>(g, c); break;
    }
}
PROP(segments_1_1, 1) { exact<1, 1, 1>(g, c); }
PROP(segments_1_2, 1) { exact<1, 1, 2>(g, c); }
PROP(segments_2_2, 1) { exact<1, 2, 2>(g, c); }
PROP(segments_3_2, 1) { exact<1, 3, 2>(g, c); }
PROP(triangles_2_1, 1) { exact<2, 2, 1>(g, c); }
PROP(triangles_2_2, 1) { exact<2, 2, 2>(g, c); }
PROP(triangles_2_3, 1) { exact<2, 2, 3>(g, c); }
PROP(triangles_2_4, 1) { exact<2, 2, 4>(g, c); }
PROP(triangles_3_4, 1) { exact<2, 3, 4>(g, c); }
PROP(tetrahedra_1, 1) { exact<3, 3, 1>(g, c); }
PROP(tetrahedra_2, 1) { exact<3, 3, 2>(g, c); }
#elif defined(PBT_Q03)
PROP(plane, 1) { divergence<2>(g, c); }
PROP(space, 1) { divergence<3>(g, c); }
#else
PROP(segments_1, 1) { full<1, mg::cartesian_coordinates_t<1>>(g, c); }
PROP(triangles_2, 1) { full<2, mg::cartesian_coordinates_t<2>>(g, c); }
PROP(tetrahedra, 2) { full<3, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(triangles_polar, 2) { full<2, mg::polar_coordinates_t>(g, c); }
PROP(tetrahedra_spherical, 2) { full<3, mg::spherical_coordinates_t>(g, c); }
PROP(boxes, 1)
{
    switch (g.range(0, 2)) {
        case 0: box<1>(g, c); break;
        case 1: box<2>(g, c); break;
        default: box<3>(g, c);
    }
}
PROP(curves_2, 1) { sub<1, mg::cartesian_coordinates_t<2>>(g, c); }
PROP(curves_3, 1) { sub<1, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(surfaces, 1) { sub<2, mg::cartesian_coordinates_t<3>>(g, c); }
PROP(curves_polar, 1) { sub<1, mg::polar_coordinates_t>(g, c); }
PROP(surfaces_spherical, 1) { sub<2, mg::spherical_coordinates_t>(g, c); }
#endif
