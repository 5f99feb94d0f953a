// what coordinates and vectors mean, independently of mito; random coordinates
#pragma once
#include "pbt.h"
#include <mito/geometry.h>

namespace coords {
    using pbt::Ctx;
    using pbt::Gen;
    namespace mg = mito::geometry;
    namespace mt = mito::tensor;
    using P3 = std::array<double, 3>;    // position in space (unused components are zero)
    inline constexpr double pi = std::numbers::pi;

    // what the coordinates mean, independently of mito
    template <class X>
    P3 position(const X & x)
    {
        if constexpr (std::is_same_v<X, mg::polar_coordinates_t>) {
            return { x[0] * std::cos(x[1]), x[0] * std::sin(x[1]), 0 };
        } else if constexpr (std::is_same_v<X, mg::spherical_coordinates_t>) {
            double s = x[0] * std::sin(x[1]);
            return { s * std::cos(x[2]), s * std::sin(x[2]), x[0] * std::cos(x[1]) };
        } else {
            P3 p { 0, 0, 0 };
            for (int i = 0; i < X::dim; ++i)
                p[size_t(i)] = x[i];
            return p;
        }
    }
    // the orthonormal frame at x in which the components of vectors are given
    template <class X>
    std::array<P3, 3> frame(const X & x)
    {
        if constexpr (std::is_same_v<X, mg::polar_coordinates_t>) {
            double c = std::cos(x[1]), s = std::sin(x[1]);
            return { P3 { c, s, 0 }, P3 { -s, c, 0 }, P3 { 0, 0, 1 } };
        } else if constexpr (std::is_same_v<X, mg::spherical_coordinates_t>) {
            double ct = std::cos(x[1]), st = std::sin(x[1]), cp = std::cos(x[2]), sp = std::sin(x[2]);
            return { P3 { st * cp, st * sp, ct }, P3 { ct * cp, ct * sp, -st }, P3 { -sp, cp, 0 } };
        } else {
            return { P3 { 1, 0, 0 }, P3 { 0, 1, 0 }, P3 { 0, 0, 1 } };
        }
    }
    inline double dot(const P3 & a, const P3 & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
    inline P3 sub(const P3 & a, const P3 & b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
    inline double norm(const P3 & a) { return std::sqrt(dot(a, a)); }

    template <class X>
    mt::vector_t<X::dim> vec(const P3 & v, const std::array<P3, 3> & f)
    {
        mt::vector_t<X::dim> r;
        for (int i = 0; i < X::dim; ++i)
            r[i] = dot(v, f[size_t(i)]);
        return r;
    }

    // an angle around an axis, sometimes more than once around
    inline double azimuth(Gen & g)
    {
        if (g.chance(1, 3))
            return pi * double(g.range(-4, 4)) / 4;
        return g.chance(1, 4) ? g.signed_real(0, 7) : g.signed_real(0, 3.2);
    }
    // coordinates of some point; {regular}: a point where the frame is defined
    template <class X>
    X somewhere(Gen & g, bool regular)
    {
        mt::vector_t<X::dim> v;
        if constexpr (std::is_same_v<X, mg::polar_coordinates_t> || std::is_same_v<X, mg::spherical_coordinates_t>) {
            v[0] = !regular && g.chance(1, 8) ? 0.0 : g.chance(1, 4) ? double(g.range(1, 4)) : g.real(0.05, 5);
            if constexpr (X::dim == 2) {
                v[1] = azimuth(g);
            } else {
                // the colatitude
                if (g.chance(1, 3))
                    v[1] = pi * double(regular ? g.range(1, 3) : g.range(0, 4)) / 4;
                else
                    v[1] = g.real(regular ? 0.1 : 0, regular ? 3.0 : pi);
                v[2] = azimuth(g);
            }
        } else {
            for (int i = 0; i < X::dim; ++i)
                v[i] = g.chance(1, 4) ? double(g.range(-3, 3)) : g.signed_real(0, 5);
        }
        return X(v);
    }
    // lengths are in this unit
    inline double unit(Gen & g)
    {
        static const double units[] = { 1e-4, 1e-3, 1e-2, 10, 100, 1000 };
        return g.chance(1, 5) ? units[g.below(6)] : 1;
    }
    // components of {somewhere}, in the unit
    template <class X>
    std::array<double, size_t(X::dim)> components(const X & x, double unit)
    {
        std::array<double, size_t(X::dim)> a;
        constexpr bool curvilinear = std::is_same_v<X, mg::polar_coordinates_t> || std::is_same_v<X, mg::spherical_coordinates_t>;
        for (int k = 0; k < X::dim; ++k)
            a[size_t(k)] = x[k] * (curvilinear && k > 0 ? 1 : unit);
        return a;
    }
    template <class X>
    std::string show(const X & x)
    {
        std::string s = "(";
        for (int i = 0; i < X::dim; ++i)
            s += (i ? ", " : "") + std::to_string(x[i]);
        return s + ")";
    }
    inline void same(Ctx & c, const P3 & a, const P3 & b, double tol, const char * what)
    {
        for (size_t i = 0; i < 3; ++i)
            c.near(a[i], b[i], tol, what, ", component ", i);
    }
}    // namespace coords
