// -*- c++ -*-
// values with all first and second derivatives with respect to D variables, in extended precision;
// the independent reference for everything that mito differentiates symbolically
#pragma once
#include "pbt.h"

namespace jet {
    using L = long double;
    // the largest magnitude met in the evaluation: the scale of the rounding errors
    inline L scale = 0;
    inline bool bad = false;
    inline void seen(L x)
    {
        if (!std::isfinite(x))
            bad = true;
        scale = std::max(scale, std::abs(x));
    }

    template <int D>
    struct Jet {
        L v = 0;
        std::array<L, D> g {};
        std::array<std::array<L, D>, D> h {};
        Jet() = default;
        Jet(L c) : v(c) { seen(c); }
        Jet(double c) : v(c) { seen(c); }
        Jet(int c) : v(c) { seen(c); }
        static Jet var(int i, L x)
        {
            Jet r(x);
            r.g[i] = 1;
            return r;
        }
        // f(*this) with the derivatives of f at v
        Jet apply(L f, L df, L ddf) const
        {
            Jet r;
            r.v = f;
            seen(f), seen(df), seen(ddf);
            for (int i = 0; i < D; ++i) {
                r.g[i] = df * g[i];
                seen(r.g[i]);
                for (int j = 0; j < D; ++j) {
                    r.h[i][j] = df * h[i][j] + ddf * g[i] * g[j];
                    seen(df * h[i][j]), seen(ddf * g[i] * g[j]);
                }
            }
            return r;
        }
    };
    template <int D>
    Jet<D> operator+(const Jet<D> & a, const Jet<D> & b)
    {
        Jet<D> r;
        r.v = a.v + b.v;
        seen(a.v), seen(b.v);
        for (int i = 0; i < D; ++i) {
            r.g[i] = a.g[i] + b.g[i];
            seen(a.g[i]), seen(b.g[i]);
            for (int j = 0; j < D; ++j) {
                r.h[i][j] = a.h[i][j] + b.h[i][j];
                seen(a.h[i][j]), seen(b.h[i][j]);
            }
        }
        return r;
    }
    template <int D>
    Jet<D> operator*(const Jet<D> & a, const Jet<D> & b)
    {
        Jet<D> r;
        r.v = a.v * b.v;
        seen(r.v);
        for (int i = 0; i < D; ++i) {
            r.g[i] = a.v * b.g[i] + a.g[i] * b.v;
            seen(a.v * b.g[i]), seen(a.g[i] * b.v);
            for (int j = 0; j < D; ++j) {
                r.h[i][j] = a.v * b.h[i][j] + a.h[i][j] * b.v + a.g[i] * b.g[j] + a.g[j] * b.g[i];
                seen(a.v * b.h[i][j]), seen(a.h[i][j] * b.v), seen(a.g[i] * b.g[j]);
            }
        }
        return r;
    }
    template <int D>
    Jet<D> operator-(const Jet<D> & a)
    {
        return a.apply(-a.v, -1, 0);
    }
    template <int D>
    Jet<D> operator-(const Jet<D> & a, const Jet<D> & b)
    {
        return a + (-b);
    }
    template <int D>
    Jet<D> inv(const Jet<D> & a)
    {
        return a.apply(1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v));
    }
    template <int D>
    Jet<D> operator/(const Jet<D> & a, const Jet<D> & b)
    {
        return a * inv(b);
    }
    template <int D> Jet<D> operator+(double c, const Jet<D> & a) { return Jet<D>(c) + a; }
    template <int D> Jet<D> operator+(const Jet<D> & a, double c) { return a + Jet<D>(c); }
    template <int D> Jet<D> operator-(double c, const Jet<D> & a) { return Jet<D>(c) - a; }
    template <int D> Jet<D> operator-(const Jet<D> & a, double c) { return a - Jet<D>(c); }
    template <int D> Jet<D> operator*(double c, const Jet<D> & a) { return Jet<D>(c) * a; }
    template <int D> Jet<D> operator*(const Jet<D> & a, double c) { return a * Jet<D>(c); }
    template <int D> Jet<D> operator/(double c, const Jet<D> & a) { return Jet<D>(c) / a; }
    template <int D> Jet<D> operator/(const Jet<D> & a, double c) { return a / Jet<D>(c); }

    template <int D> Jet<D> sin(const Jet<D> & a) { return a.apply(std::sin(a.v), std::cos(a.v), -std::sin(a.v)); }
    template <int D> Jet<D> cos(const Jet<D> & a) { return a.apply(std::cos(a.v), -std::sin(a.v), -std::cos(a.v)); }
    template <int D> Jet<D> tan(const Jet<D> & a)
    {
        L t = std::tan(a.v);
        return a.apply(t, 1 + t * t, 2 * t * (1 + t * t));
    }
    template <int D> Jet<D> asin(const Jet<D> & a)
    {
        L q = 1 - a.v * a.v;
        return a.apply(std::asin(a.v), 1 / std::sqrt(q), a.v / (q * std::sqrt(q)));
    }
    template <int D> Jet<D> acos(const Jet<D> & a)
    {
        L q = 1 - a.v * a.v;
        return a.apply(std::acos(a.v), -1 / std::sqrt(q), -a.v / (q * std::sqrt(q)));
    }
    template <int D> Jet<D> atan(const Jet<D> & a)
    {
        L q = 1 + a.v * a.v;
        return a.apply(std::atan(a.v), 1 / q, -2 * a.v / (q * q));
    }
    template <int D> Jet<D> exp(const Jet<D> & a) { return a.apply(std::exp(a.v), std::exp(a.v), std::exp(a.v)); }
    template <int D> Jet<D> log(const Jet<D> & a) { return a.apply(std::log(a.v), 1 / a.v, -1 / (a.v * a.v)); }
    template <int D> Jet<D> sqrt(const Jet<D> & a)
    {
        L s = std::sqrt(a.v);
        return a.apply(s, 1 / (2 * s), -1 / (4 * s * a.v));
    }
    template <int D> Jet<D> cbrt(const Jet<D> & a)
    {
        L s = std::cbrt(a.v);
        return a.apply(s, 1 / (3 * s * s), -2 / (9 * s * s * a.v));
    }
    template <int N, int D> Jet<D> pow(const Jet<D> & a)
    {
        L p0 = 1;    // a^(N-2)
        for (int i = 0; i < N - 2; ++i)
            p0 *= a.v;
        if constexpr (N == 1)
            return a.apply(a.v, 1, 0);
        else
            return a.apply(p0 * a.v * a.v, N * p0 * a.v, N * (N - 1) * p0);
    }

    // matrices of jets (vectors are matrices of one column)
    template <int D, int R, int C>
    struct Mat {
        std::array<std::array<Jet<D>, C>, R> a;
        Jet<D> & operator()(int i, int j) { return a[i][j]; }
        const Jet<D> & operator()(int i, int j) const { return a[i][j]; }
    };
    template <int D, int R> using Vec = Mat<D, R, 1>;

    template <int D, int R, int C>
    Mat<D, R, C> operator+(const Mat<D, R, C> & x, const Mat<D, R, C> & y)
    {
        Mat<D, R, C> r;
        for (int i = 0; i < R; ++i)
            for (int j = 0; j < C; ++j)
                r(i, j) = x(i, j) + y(i, j);
        return r;
    }
    template <int D, int R, int C>
    Mat<D, R, C> operator*(const Jet<D> & s, const Mat<D, R, C> & y)
    {
        Mat<D, R, C> r;
        for (int i = 0; i < R; ++i)
            for (int j = 0; j < C; ++j)
                r(i, j) = s * y(i, j);
        return r;
    }
    template <int D, int R, int C>
    Mat<D, R, C> operator-(const Mat<D, R, C> & x, const Mat<D, R, C> & y)
    {
        return x + Jet<D>(-1) * y;
    }
    template <int D, int R, int K, int C>
    Mat<D, R, C> mul(const Mat<D, R, K> & x, const Mat<D, K, C> & y)
    {
        Mat<D, R, C> r;
        for (int i = 0; i < R; ++i)
            for (int j = 0; j < C; ++j)
                for (int k = 0; k < K; ++k)
                    r(i, j) = r(i, j) + x(i, k) * y(k, j);
        return r;
    }
    template <int D, int R, int C>
    Mat<D, C, R> transpose(const Mat<D, R, C> & x)
    {
        Mat<D, C, R> r;
        for (int i = 0; i < R; ++i)
            for (int j = 0; j < C; ++j)
                r(j, i) = x(i, j);
        return r;
    }
    template <int D, int R>
    Jet<D> dot(const Vec<D, R> & x, const Vec<D, R> & y)
    {
        return mul(transpose(x), y)(0, 0);
    }
    template <int D>
    Jet<D> det(const Mat<D, 2, 2> & m)
    {
        return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
    }
    template <int D>
    Jet<D> det(const Mat<D, 3, 3> & m)
    {
        return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1))
             - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0))
             + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
    }
    template <int D>
    Mat<D, 2, 2> inverse(const Mat<D, 2, 2> & m)
    {
        Mat<D, 2, 2> r;
        r(0, 0) = m(1, 1), r(1, 1) = m(0, 0), r(0, 1) = -m(0, 1), r(1, 0) = -m(1, 0);
        return inv(det(m)) * r;
    }
    template <int D>
    Mat<D, 3, 3> inverse(const Mat<D, 3, 3> & m)
    {
        Mat<D, 3, 3> r;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                int a = (j + 1) % 3, b = (j + 2) % 3, p = (i + 1) % 3, q = (i + 2) % 3;
                r(i, j) = m(a, p) * m(b, q) - m(a, q) * m(b, p);
            }
        return inv(det(m)) * r;
    }
    template <int D, int R, int C>
    Mat<D, R, C> fill(const std::array<Jet<D>, size_t(R * C)> & c)
    {
        Mat<D, R, C> r;
        for (int i = 0; i < R; ++i)
            for (int j = 0; j < C; ++j)
                r(i, j) = c[size_t(i * C + j)];
        return r;
    }
    template <int D, int R>
    Mat<D, R, R> eye()
    {
        Mat<D, R, R> r;
        for (int i = 0; i < R; ++i)
            r(i, i) = Jet<D>(1);
        return r;
    }
}
