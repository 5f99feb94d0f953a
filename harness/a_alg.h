// -*- c++ -*-
// exact references for multilinear algebra, written without the library
#pragma once
#include "pbt.h"

namespace ref {
    using Vec = std::vector<double>;
    // a covariant tensor of rank P in dimension D, dense coefficients
    struct Ten {
        int P, D;
        std::vector<double> c;
        // the size of the terms that make up every coefficient: the scale of the rounding errors
        std::vector<double> m;
        Ten(int p, int d) : P(p), D(d), c(size_t(std::pow(d, p) + 0.5), 0.0), m(c) {}
        void set(size_t k, double x)
        {
            c[k] = x;
            m[k] = std::abs(x);
        }
        std::vector<int> index(size_t k) const
        {
            std::vector<int> i(static_cast<size_t>(P));
            for (int p = P - 1; p >= 0; --p) {
                i[size_t(p)] = int(k % size_t(D));
                k /= size_t(D);
            }
            return i;
        }
        size_t flat(const std::vector<int> & i) const
        {
            size_t k = 0;
            for (auto x : i)
                k = k * size_t(D) + size_t(x);
            return k;
        }
        double operator()(const std::vector<Vec> & v) const
        {
            double s = 0;
            for (size_t k = 0; k < c.size(); ++k) {
                auto i = index(k);
                double t = c[k];
                for (size_t p = 0; p < v.size(); ++p)
                    t *= v[p][size_t(i[p])];
                s += t;
            }
            return s;
        }
        // magnitude of the terms of the evaluation: the scale of the rounding errors
        double scale(const std::vector<Vec> & v) const
        {
            double s = 0;
            for (size_t k = 0; k < c.size(); ++k) {
                auto i = index(k);
                double t = m[k];
                for (size_t p = 0; p < v.size(); ++p)
                    t *= std::abs(v[p][size_t(i[p])]);
                s += t;
            }
            return s;
        }
    };
    inline Ten outer(const Ten & a, const Ten & b)
    {
        Ten r(a.P + b.P, a.D);
        for (size_t i = 0; i < a.c.size(); ++i)
            for (size_t j = 0; j < b.c.size(); ++j)
                {
                r.c[i * b.c.size() + j] = a.c[i] * b.c[j];
                r.m[i * b.c.size() + j] = a.m[i] * b.m[j];
            }
        return r;
    }
    inline Ten lin(double s, const Ten & a, double t, const Ten & b)
    {
        Ten r(a.P, a.D);
        for (size_t i = 0; i < a.c.size(); ++i) {
            r.c[i] = s * a.c[i] + t * b.c[i];
            r.m[i] = std::abs(s) * a.m[i] + std::abs(t) * b.m[i];
        }
        return r;
    }
    inline Ten scaled(double s, const Ten & a) { return lin(s, a, 0, a); }
    inline int parity(const std::vector<int> & p)
    {
        int s = 1;
        for (size_t i = 0; i < p.size(); ++i)
            for (size_t j = i + 1; j < p.size(); ++j)
                if (p[i] > p[j])
                    s = -s;
        return s;
    }
    // sum over all permutations of the slots, with sign, divided by {norm}
    inline Ten alternate(const Ten & a, double norm)
    {
        Ten r(a.P, a.D);
        std::vector<int> p(static_cast<size_t>(a.P));
        std::iota(p.begin(), p.end(), 0);
        do {
            for (size_t k = 0; k < a.c.size(); ++k) {
                auto i = a.index(k);
                std::vector<int> j(i.size());
                for (size_t q = 0; q < i.size(); ++q)
                    j[size_t(p[q])] = i[q];
                r.c[r.flat(j)] += parity(p) * a.c[k] / norm;
                r.m[r.flat(j)] += a.m[k] / norm;
            }
        } while (std::next_permutation(p.begin(), p.end()));
        return r;
    }
    // a ^ b with the normalisation (a ^ b)(x, y) = a(x) b(y) - a(y) b(x)
    inline Ten wedge(const Ten & a, const Ten & b)
    {
        auto f = [](int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; };
        return alternate(outer(a, b), f(a.P) * f(b.P));
    }
    // contract slot {s} with v
    inline Ten contract(const Ten & a, int s, const Vec & v)
    {
        Ten r(a.P - 1, a.D);
        for (size_t k = 0; k < a.c.size(); ++k) {
            auto i = a.index(k);
            double x = v[size_t(i[size_t(s)])];
            i.erase(i.begin() + s);
            r.c[r.flat(i)] += a.c[k] * x;
            r.m[r.flat(i)] += a.m[k] * std::abs(x);
        }
        return r;
    }
}
