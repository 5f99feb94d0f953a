// E01 (shape functions and elements), E02 with -DPBT_E02 (elementary blocks)
#include "fem.h"

using namespace pbt;
using namespace femx;
namespace {
    // one element on a cell that is not degenerate
    template <int N, int P>
    struct Single {
        using El = Element<N, P>;
        using Type = typename El::type;
        using Xi = typename El::Xi;
        Nodes<N> nodes;
        Placed<N> t;
        std::unique_ptr<typename El::cell_type> cell;
        typename Type::connectivity_type connectivity;
        std::unique_ptr<Type> element;
        double r, h, worse;

        // {reversed}: the cell may be negatively oriented
        Single(Gen & g, Ctx & c, bool reversed)
        {
            double size = g.flip() ? 1 : std::pow(10.0, g.range(-6, 5)), flat = g.chance(1, 4) ? 0.002 : 0.1;
            for (;;) {
                t.x.clear();
                for (int i = 0; i <= N; ++i) {
                    std::array<double, N> p;
                    for (auto & v : p)
                        v = size * (g.chance(1, 4) ? double(g.range(-2, 2)) : g.signed_real(0, 2));
                    t.x.push_back(p);
                }
                double far = 0;
                for (auto & p : t.x)
                    for (auto v : p)
                        far = std::max(far, std::abs(v));
                h = t.diameter();
                if (std::abs(t.det()) > flat * std::pow(h, N) && far < 30 * h) {
                    r = far;
                    // how much rounding grows in the inverse of the jacobian
                    worse = (1 + far / h) * std::pow(std::pow(h, N) / std::abs(t.det()), 2);
                    break;
                }
            }
            if (t.det() < 0 && !(reversed && g.chance(1, 3)))
                std::swap(t.x[0], t.x[1]);
            Labels l;
            for (auto & p : t.x) {
                c.note("vertex ", p[0], N > 1 ? " " : "", N > 1 ? std::to_string(p[N - 1]) : "");
                l.push_back(nodes.add(p));
            }
            cell = std::make_unique<typename El::cell_type>(nodes.template array<N>(l));
            element = std::make_unique<Type>(*cell, nodes.sys, connectivity);
        }
        Xi somewhere(Gen & g) const
        {
            mt::vector_t<N> v;
            if (g.chance(1, 4)) {
                // on a vertex or in the middle of an edge
                auto l = corner(g.below(N + 1)), m = corner(g.below(N + 1));
                for (int k = 0; k < N; ++k)
                    v[k] = 0.5 * (l[k] + m[k]);
            } else
                for (int k = 0; k < N; ++k)
                    v[k] = g.signed_real(0, 1.2);
            return Xi(v);
        }
        static mt::vector_t<N> corner(int a)
        {
            mt::vector_t<N> v;
            if (N == 1)
                v[0] = a;
            else
                for (int k = 0; k < N; ++k)
                    v[k] = a == k;
            return v;
        }
        static Xi node(int a)
        {
            if (a <= N)
                return Xi(corner(a));
            auto [i, j] = El::edge(a);
            return Xi(mt::vector_t<N>(0.5 * (corner(i) + corner(j))));
        }
    };
    template <int n>
    void each(auto && f)
    {
        mt::constexpr_for_1<n>(f);
    }

#ifndef PBT_E02
    template <int N, int P>
    void element(Gen & g, Ctx & c)
    {
        using S = Single<N, P>;
        using El = typename S::El;
        constexpr int n = El::n;
        S s(g, c, true);
        auto & e = *s.element;
        static_assert(S::Type::degree == P && S::Type::dim == N && S::Type::n_nodes == (P == 1 ? N + 1 : 6));
        c.check(&e.cell() == s.cell.get(), "the cell of the element");
        for (size_t a = 0; a < n; ++a) {
            c.check(e.connectivity()[a] == s.connectivity[a], "node of the element");
            for (size_t b = 0; b < a; ++b)
                c.check(e.connectivity()[a] != e.connectivity()[b], "nodes of the element");
        }

        // one at each node, zero at the others
        each<n>([&]<int a>() {
            auto phi = e.template shape<a>();
            for (int b = 0; b < n; ++b)
                c.near(phi(S::node(b)), a == b, 1e-14, "shape function ", a, " at node ", b);
        });

        auto f = Field<N>::random(g, P);
        auto x = e.parametrization();
        for (int k = 0; k < 3; ++k) {
            auto xi = s.somewhere(g);
            auto l = El::barycentric(xi);
            auto want = s.t.at(l);
            auto got = x(xi);
            for (int d = 0; d < N; ++d)
                c.near(got[d], want[size_t(d)], 1e-13 * (s.r + 10 * s.h), "position, component ", d);
            // derivatives of the position
            auto J = e.jacobian()(xi);
            double det = N == 1 ? J[{ 0, 0 }] : J[{ 0, 0 }] * J[{ N - 1, N - 1 }] - J[{ 0, N - 1 }] * J[{ N - 1, 0 }];
            for (int i = 0; i < N; ++i)
                for (int j = 0; j < N; ++j) {
                    double d = 0;
                    for (int v = 0; v <= N; ++v)
                        d += s.t.x[size_t(v)][size_t(i)] * El::dl(v, j);
                    c.near(J[{ i, j }], d, 1e-13 * (s.r + s.h), "jacobian ", i, " ", j);
                }
            c.near(det, s.t.det(), 1e-12 * std::pow(s.r + s.h, N), "determinant");

            // values and gradients
            double sum = 0;
            std::array<double, N> zero {};
            double interpolated = 0;
            std::array<double, N> slope {};
            each<n>([&]<int a>() {
                double v = e.template shape<a>()(xi);
                c.near(v, El::shape(a)(l), 1e-13, "shape function ", a);
                sum += v;
                auto grad = e.template gradient<a>()(xi);
                auto exact = s.t.gradient(El::shape(a));
                auto at = s.t.at(El::barycentric(S::node(a)));
                interpolated += v * f(at);
                auto & d = S::Type::shape_functions;
                auto ref = d.template dshape<a>()(xi);
                for (int k = 0; k < N; ++k) {
                    c.near(grad[k], exact[size_t(k)](l), 1e-12 * s.worse / s.h, "gradient of shape function ", a);
                    double w = 0;
                    for (int v = 0; v <= N; ++v)
                        w += El::shape(a).d(v)(l) * El::dl(v, k);
                    c.near(ref[k], w, 1e-13, "parametric derivative of shape function ", a);
                    zero[size_t(k)] += grad[k];
                    slope[size_t(k)] += grad[k] * f(at);
                }
            });
            c.near(sum, 1, 1e-13, "sum of the shape functions");
            double far = s.r + 4 * s.h;
            c.near(interpolated, f(want), 1e-11 * f.bound(far), "interpolation");
            for (size_t k = 0; k < N; ++k) {
                c.near(zero[k], 0, 1e-12 * s.worse / s.h, "sum of the gradients");
                c.near(slope[k], f.gradient(want)[k], 1e-11 * s.worse * f.bound(far) / s.h, "gradient of the interpolation");
            }
            // fields seen from the element
            auto any = Field<N>::random(g, 2);
            auto local = fe::localize(any.mito(), e);
            c.near(local(xi), any(want), 1e-11 * any.bound(far), "field on the element");
            constexpr auto x0 = mf::component<cart<N>, 0>;
            auto wave = fe::localize(mf::sin(x0) + x0, e);
            c.near(wave(xi), std::sin(want[0]) + want[0], 1e-11 * (1 + far), "another field on the element");
            auto dlocal = mito::fields::gradient(local)(xi);
            for (int j = 0; j < N; ++j) {
                double d = 0;
                for (int i = 0; i < N; ++i)
                    d += J[{ i, j }] * any.gradient(want)[size_t(i)];
                c.near(dlocal[j], d, 1e-10 * any.bound(far) * s.h, "derivative of a field on the element");
            }
        }
        if (f.c != std::array<double, 6> {})
            c.nontrivial();
        c.label(s.t.det() > 0 ? "positive" : "negative");
    }
#else
    template <int N, int P, int R>
    void blocks(Gen & g, Ctx & c)
    {
        using S = Single<N, P>;
        using El = typename S::El;
        using Type = typename S::Type;
        using Rule = mq::quadrature_rule_t<mq::GAUSS, mg::reference_simplex_t<N>, R>;
        constexpr int n = El::n;
        S s(g, c, false);
        auto & e = *s.element;
        double size = s.t.size();
        auto f = Field<N>::random(g, g.range(0, 2));
        c.note("source of degree ", f.degree, ", rule ", R);
        auto source = f.mito();

        // integrals: exact when the rule is, else what the rule gives for polynomials
        auto rule = Rule();
        auto integral = [&](const Poly<N> & p, int degree) {
            if (degree <= R)
                return s.t.integral(p);
            double sum = 0;
            for (int q = 0; q < Rule::npoints; ++q)
                sum += rule.weight(q) * p(El::barycentric(rule.point(q)));
            return sum * size;
        };
        auto mass = fe::blocks::mass_block<Type, Rule>();
        auto grad = fe::blocks::grad_grad_block<Type, Rule>();
        auto load = fe::blocks::source_term_block<Type, Rule>(source);
        auto M = mass.compute(e);
        auto K = grad.compute(e);
        auto F = load.compute(e);
        double tol_m = 1e-12 * size, tol_k = 1e-12 * s.worse * size / (s.h * s.h), tol_f = 1e-11 * size * f.bound(s.r);
        // (the tables of the rules have 14 digits or more)
        mt::matrix_t<n> M1, K1;
        mt::vector_t<n> F1;
        for (int a = 0; a < n; ++a) {
            for (int b = 0; b < n; ++b) {
                M1[{ a, b }] = integral(El::shape(a) * El::shape(b), 2 * P);
                auto ga = s.t.gradient(El::shape(a)), gb = s.t.gradient(El::shape(b));
                Poly<N> p;
                for (size_t k = 0; k < N; ++k)
                    p = p + ga[k] * gb[k];
                K1[{ a, b }] = integral(p, 2 * P - 2);
                c.near(M[{ a, b }], M1[{ a, b }], tol_m, "mass ", a, " ", b);
                c.near(K[{ a, b }], K1[{ a, b }], tol_k, "grad-grad ", a, " ", b);
                c.near(M[{ a, b }], M[{ b, a }], tol_m, "symmetry of the mass");
                c.near(K[{ a, b }], K[{ b, a }], tol_k, "symmetry of the grad-grad");
            }
            F1[a] = integral(El::shape(a) * f.on(s.t), P + f.degree);
            c.near(F[a], F1[a], tol_f, "source ", a);
        }
        // the same block a second time
        auto again = mass.compute(e);
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
                c.check(again[{ a, b }] == M[{ a, b }], "the block computed again");

        // norms of functions on the element
        auto h = Field<N>::random(g, 2);
        auto local = fe::localize(h.mito(), e);
        auto norm = fe::blocks::l2_norm_block<Type, Rule>(local);
        c.near(norm.compute(e), integral(h.on(s.t) * h.on(s.t), 4), 1e-11 * size * h.bound(s.r) * h.bound(s.r),
               "square of the norm");
        // of a vector
        auto dlocal = mito::fields::gradient(local);
        auto dnorm = fe::blocks::l2_norm_block<Type, Rule>(dlocal);
        Poly<N> square;
        for (int j = 0; j < N; ++j) {
            Poly<N> d;
            for (int v = 0; v <= N; ++v)
                d = d + h.on(s.t).d(v) * El::dl(v, j);
            square = square + d * d;
        }
        c.near(dnorm.compute(e), integral(square, 2), 1e-10 * size * std::pow(h.bound(s.r) * s.r, 2), "square of the norm of the gradient");

        // weak forms add their blocks up
        auto form = fe::weakform<Type>();
        int m = 0, k = 0, l = 0;
        for (int i = g.range(0, 5); i > 0; --i)
            switch (g.range(0, 2)) {
                case 0:
                    form.add_block(mass);
                    ++m;
                    break;
                case 1:
                    form.add_block(grad);
                    ++k;
                    break;
                default:
                    form.add_block(load);
                    ++l;
            }
        c.note("weak form of ", m, " masses, ", k, " grad-grad, ", l, " sources");
        for (int twice = 0; twice < 2; ++twice) {
            auto [A, b] = form.compute_blocks(e);
            for (int i = 0; i < n; ++i) {
                for (int j = 0; j < n; ++j)
                    c.near(A[{ i, j }], m * M1[{ i, j }] + k * K1[{ i, j }], 6 * (tol_m + tol_k), "matrix of the weak form");
                c.near(b[i], l * F1[i], 6 * tol_f, "vector of the weak form");
            }
        }
        if (f.degree > 0 && f.c != std::array<double, 6> {})
            c.nontrivial();
        c.label(2 * P <= R ? "exact mass" : "reduced mass");
    }
#endif
}    // namespace

#ifndef PBT_E02
PROP(segment_1, 1) { element<1, 1>(g, c); }
PROP(triangle_1, 2) { element<2, 1>(g, c); }
PROP(triangle_2, 3) { element<2, 2>(g, c); }
#else
PROP(segment_1_rule_1, 1) { blocks<1, 1, 1>(g, c); }
PROP(segment_1_rule_2, 1) { blocks<1, 1, 2>(g, c); }
PROP(triangle_1_rule_1, 1) { blocks<2, 1, 1>(g, c); }
PROP(triangle_1_rule_2, 1) { blocks<2, 1, 2>(g, c); }
PROP(triangle_1_rule_3, 1) { blocks<2, 1, 3>(g, c); }
PROP(triangle_1_rule_4, 1) { blocks<2, 1, 4>(g, c); }
PROP(triangle_2_rule_1, 1) { blocks<2, 2, 1>(g, c); }
PROP(triangle_2_rule_2, 2) { blocks<2, 2, 2>(g, c); }
PROP(triangle_2_rule_3, 1) { blocks<2, 2, 3>(g, c); }
PROP(triangle_2_rule_4, 2) { blocks<2, 2, 4>(g, c); }
#endif
