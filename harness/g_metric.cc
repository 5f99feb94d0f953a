// G02: metrics, dual bases, volume forms and metric equivalence in the coordinate systems
#include "pbt.h"
#include <mito/geometry.h>
#include <mito/manifolds.h>

using namespace pbt;
namespace mg = mito::geometry;
namespace mt = mito::tensor;
namespace mf = mito::functions;
namespace fields = mito::fields;

namespace {
    constexpr double pi = std::numbers::pi;
    template <class X>
    constexpr bool polar = std::is_same_v<X, mg::polar_coordinates_t>;
    template <class X>
    constexpr bool spherical = std::is_same_v<X, mg::spherical_coordinates_t>;

    template <class X>
    X somewhere(Gen & g)
    {
        mt::vector_t<X::dim> v;
        for (int i = 0; i < X::dim; ++i)
            v[i] = g.signed_real(0, 3);
        if constexpr (polar<X> || spherical<X>)
            v[0] = g.chance(1, 4) ? double(g.range(1, 4)) : g.real(0.1, 4);
        if constexpr (spherical<X>)
            v[1] = g.chance(1, 4) ? pi * double(g.range(1, 5)) / 6 : g.real(0.15, 2.99);
        // far away, close to the origin or to the poles, after some turns
        if (g.chance(1, 5)) {
            if constexpr (polar<X> || spherical<X>) {
                v[0] = g.real(1, 9) * std::pow(10.0, g.range(-4, 4));
                v[X::dim - 1] += 2 * pi * g.range(-2, 2);
                if constexpr (spherical<X>)
                    if (g.flip()) {
                        v[1] = g.real(0.01, 0.1);
                        if (g.flip())
                            v[1] = pi - v[1];
                    }
            } else
                for (int i = 0; i < X::dim; ++i)
                    v[i] *= std::pow(10.0, g.range(-4, 6));
        }
        return X(v);
    }
    // lengths of the basis vectors
    template <class X>
    std::array<double, 3> lengths(const X & x)
    {
        if constexpr (polar<X>)
            return { 1, x[0], 1 };
        else if constexpr (spherical<X>)
            return { 1, x[0], x[0] * std::sin(x[1]) };
        else
            return { 1, 1, 1 };
    }
    template <int D>
    mt::vector_t<D> vec(Gen & g)
    {
        mt::vector_t<D> v;
        for (int i = 0; i < D; ++i)
            v[i] = g.chance(1, 4) ? double(g.range(-2, 2)) : g.signed_real(0, 2);
        return v;
    }
    template <int D>
    double det(const std::array<mt::vector_t<D>, D> & v)
    {
        if constexpr (D == 1)
            return v[0][0];
        else if constexpr (D == 2)
            return v[0][0] * v[1][1] - v[0][1] * v[1][0];
        else
            return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1])
                 - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0])
                 + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
    }
    template <int D, class F>
    double entry(const F & m, int i, int j)
    {
        return m[{ i, j }];
    }

    template <class X>
    void metric(Gen & g, Ctx & c)
    {
        constexpr int D = X::dim;
        using M = mg::metric_space<X>;
        auto x = somewhere<X>(g);
        auto len = lengths(x);
        c.note("at (", x[0], D > 1 ? x[D > 1 ? 1 : 0] : 0.0, D > 2 ? x[D > 2 ? 2 : 0] : 0.0, ")");
        c.nontrivial();
        constexpr double tol = 1e-11;
        auto G = M::g(x);
        auto H = M::g_inv(x);
        auto v = vec<D>(g), w = vec<D>(g);
        double vw = 0, scale = 1;
        for (int i = 0; i < D; ++i)
            vw += v[i] * w[i], scale += std::abs(v[i]) * 5 + std::abs(w[i]) * 5 + std::abs(v[i] * w[i]) * 10;

        double big = len[0] * len[1] * len[2];
        auto each = [&]<int I>() {
            auto e = M::template e<I>(x);
            for (int j = 0; j < D; ++j)
                c.near(e[j], I == j ? len[I] : 0, tol, "basis vector ", I, " component ", j);
            auto dx = M::template dx<I>(x);
            c.near(dx(v), v[I] / len[I], tol * scale * (1 + 1 / len[I]), "basis form ", I, " of a vector");
            auto other = [&]<int J>() {
                auto f = M::template e<J>(x);
                c.near(G[{ I, J }], e * f, tol * (1 + len[I] * len[J]), "metric ", I, J);
                c.near(H[{ I, J }], I == J ? 1 / (len[I] * len[I]) : 0, tol * (1 + 1 / (len[I] * len[I])),
                       "inverse metric ", I, J);
                double s = 0;
                for (int k = 0; k < D; ++k)
                    s += G[{ I, k }] * H[{ k, J }];
                c.near(s, I == J, tol, "metric times its inverse");
                c.near(dx(f), I == J, tol, "form ", I, " of the basis vector ", J);
            };
            [&]<int... J>(std::integer_sequence<int, J...>) {
                (other.template operator()<J>(), ...);
            }(std::make_integer_sequence<int, D> {});
        };
        [&]<int... I>(std::integer_sequence<int, I...>) {
            (each.template operator()<I>(), ...);
        }(std::make_integer_sequence<int, D> {});

        // the volume form
        auto form = M::w(x);
        std::array<mt::vector_t<D>, D> a;
        double s = 1;
        for (auto & b : a) {
            b = vec<D>(g);
            double n = 0;
            for (int i = 0; i < D; ++i)
                n += std::abs(b[i]);
            s *= 1 + n;
        }
        double volume = [&]<int... I>(std::integer_sequence<int, I...>) {
            double unit = form(M::template e<I>(x)...);
            c.near(unit, big, tol * (1 + big), "volume of the basis");
            return form(a[size_t(I)]...);
        }(std::make_integer_sequence<int, D> {});
        c.near(volume, det<D>(a), tol * s * 10, "volume of ", D, " vectors");

        // fields of forms are combined point by point
        if constexpr (D >= 2) {
            auto b0 = M::template dx<0>, b1 = M::template dx<1>;
            double p = b0(x)(v), q = b1(x)(v), r = b0(x)(w), t = b1(x)(w);
            double m = 1 + std::abs(p * t) + std::abs(q * r);
            c.near(fields::wedge(b0, b1)(x)(v, w), p * t - q * r, tol * m, "wedge of fields");
            c.near(fields::wedge(b1, b0)(x)(v, w), q * r - p * t, tol * m, "wedge of fields");
            c.near(fields::tensor(b0, b1)(x)(v, w), p * t, tol * m, "tensor product of fields");
            c.near(fields::tensor(b1, b0)(x)(v, w), q * r, tol * m, "tensor product of fields");
            c.near(fields::wedge(b1)(x)(w), t, tol * m, "wedge of one field");
            if constexpr (D == 3) {
                auto u = vec<D>(g);
                auto b2 = M::template dx<2>;
                double d = det<3>({ v, w, u }) / big;
                double mm = 1 + 30 * (1 + std::abs(1 / big)) * 8 * 8;
                c.near(fields::wedge(b0, b1, b2)(x)(v, w, u), d, tol * mm, "wedge of three fields");
                c.near(fields::wedge(b1, b0, b2)(x)(v, w, u), -d, tol * mm, "wedge of three fields");
                c.near(fields::wedge(b1, b2, b0)(x)(v, w, u), d, tol * mm, "wedge of three fields");
                c.near(fields::tensor(b2, b0, b1)(x)(v, w, u), b2(x)(v) * b0(x)(w) * b1(x)(u), tol * mm,
                       "tensor product of three fields");
            }
        }

        // metric equivalence
        auto V = mf::constant<X>(v);
        auto flat = M::metric_equivalent(V);
        c.near(flat(x)(w), vw, tol * scale, "the form equivalent to a vector");
        auto sharp = M::metric_equivalent(flat);
        auto back = sharp(x);
        for (int i = 0; i < D; ++i)
            c.near(back[i], v[i], tol * scale, "vector -> form -> vector, component ", i);
        auto again = M::metric_equivalent(sharp);
        c.near(again(x)(w), vw, tol * scale, "vector -> form -> vector -> form");
        // a form that is not made of a vector
        double k0 = g.signed_real(0, 2), k1 = g.signed_real(0, 2);
        auto alpha = k0 * M::template dx<0> + k1 * M::template dx<D - 1>;
        double aw = alpha(x)(w);
        auto sa = M::metric_equivalent(alpha)(x);
        double sw = 0;
        for (int i = 0; i < D; ++i)
            sw += sa[i] * w[i];
        c.near(sw, aw, tol * scale * (1 + 1 / len[D - 1]), "the vector equivalent to a form");
        c.near(M::metric_equivalent(M::metric_equivalent(alpha))(x)(w), aw, tol * scale * (1 + 1 / len[D - 1]),
               "form -> vector -> form");
    }

    // the gradient of a polynomial of the cartesian coordinates, computed in polar and spherical
    // coordinates
    void polar_gradient(Gen & g, Ctx & c)
    {
        using X = mg::polar_coordinates_t;
        using M = mg::metric_space<X>;
        auto p = somewhere<X>(g);
        double a = g.signed_real(0, 2), b = g.signed_real(0, 2), d = g.signed_real(0, 2);
        auto x = mg::polar::r * mf::cos(mg::polar::theta);
        auto y = mg::polar::r * mf::sin(mg::polar::theta);
        auto f = a * x * x + b * x * y + d * y;
        auto df = mf::derivative<0>(f) * M::dx<0> + mf::derivative<1>(f) * M::dx<1>;
        auto grad = M::metric_equivalent(df)(p);
        double X0 = p[0] * std::cos(p[1]), Y0 = p[0] * std::sin(p[1]);
        double gx = 2 * a * X0 + b * Y0, gy = b * X0 + d;
        c.nontrivial();
        double ct = std::cos(p[1]), st = std::sin(p[1]);
        c.near(grad[0], gx * ct + gy * st, 1e-11 * 50, "radial component of a gradient");
        c.near(grad[1], -gx * st + gy * ct, 1e-11 * 50, "hoop component of a gradient");
    }
    void spherical_gradient(Gen & g, Ctx & c)
    {
        using X = mg::spherical_coordinates_t;
        using M = mg::metric_space<X>;
        namespace sp = mg::spherical;
        auto p = somewhere<X>(g);
        double a = g.signed_real(0, 2), b = g.signed_real(0, 2), d = g.signed_real(0, 2);
        auto x = sp::r * mf::sin(sp::theta) * mf::cos(sp::phi);
        auto y = sp::r * mf::sin(sp::theta) * mf::sin(sp::phi);
        auto z = sp::r * mf::cos(sp::theta);
        auto f = a * x * z + b * y + d * z;
        auto df = mf::derivative<0>(f) * M::dx<0> + mf::derivative<1>(f) * M::dx<1> + mf::derivative<2>(f) * M::dx<2>;
        auto grad = M::metric_equivalent(df)(p);
        double st = std::sin(p[1]), ct = std::cos(p[1]), sp_ = std::sin(p[2]), cp = std::cos(p[2]);
        double X0 = p[0] * st * cp, Z0 = p[0] * ct;
        double gx = a * Z0, gy = b, gz = a * X0 + d;
        c.nontrivial();
        c.near(grad[0], gx * st * cp + gy * st * sp_ + gz * ct, 5e-10, "radial component of a gradient");
        c.near(grad[1], gx * ct * cp + gy * ct * sp_ - gz * st, 5e-10, "component of a gradient along theta");
        c.near(grad[2], -gx * sp_ + gy * cp, 5e-10, "component of a gradient along phi");
    }
}

PROP(cartesian_2, 2) { metric<mg::cartesian_coordinates_t<2>>(g, c); }
PROP(cartesian_3, 2) { metric<mg::cartesian_coordinates_t<3>>(g, c); }
PROP(polar_2, 4) { metric<mg::polar_coordinates_t>(g, c); }
PROP(spherical_3, 4) { metric<mg::spherical_coordinates_t>(g, c); }
PROP(gradient_polar, 1) { polar_gradient(g, c); }
PROP(gradient_spherical, 1) { spherical_gradient(g, c); }
