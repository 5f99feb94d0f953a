// F01, F02: generated expressions of functions, their values and derivatives, against jets
#include "jet.h"
#ifdef PBT_FIELDS
#include <mito/fields.h>
#include <mito/geometry.h>
#else
#include <mito/functions.h>
#endif

using namespace pbt;
namespace mt = mito::tensor;
namespace mf = mito::functions;

template <int N, class... T>
mt::vector_t<N> vec(T... x)
{
    return mt::vector_t<N>(double(x)...);
}
template <int R, int C, class... T>
mt::matrix_t<R, C> mat(T... x)
{
    return mt::matrix_t<R, C>(double(x)...);
}

inline jet::Jet<1> reference(double x) { return jet::Jet<1>::var(0, x); }
template <int N>
jet::Mat<N, N, 1> reference(const mt::vector_t<N> & x)
{
    jet::Mat<N, N, 1> r;
    for (int i = 0; i < N; ++i)
        r(i, 0) = jet::Jet<N>::var(i, x[i]);
    return r;
}
inline jet::Mat<4, 2, 2> reference(const mt::matrix_t<2> & x)
{
    jet::Mat<4, 2, 2> r;
    for (int i = 0; i < 4; ++i)
        r(i / 2, i % 2) = jet::Jet<4>::var(i, x[{ i / 2, i % 2 }]);
    return r;
}

#ifdef PBT_FIELDS
namespace fields = mito::fields;
template <int N>
using Cart = mito::geometry::coordinates_t<N, mito::geometry::CARTESIAN>;
template <int N>
jet::Mat<N, N, 1> reference(const Cart<N> & x)
{
    jet::Mat<N, N, 1> r;
    for (int i = 0; i < N; ++i)
        r(i, 0) = jet::Jet<N>::var(i, x[i]);
    return r;
}
#endif

struct Run {
    Gen & g;
    Ctx & c;
    double k[128];
    bool interesting = false;
    double tol = 0;
    int shape = -1;
    Run(Gen & gen, Ctx & ctx) : g(gen), c(ctx)
    {
        for (auto & x : k)
            x = 0;
        jet::scale = 0;
        jet::bad = false;
    }
    void constants(int n)
    {
        for (int i = 0; i < n; ++i)
            k[i] = g.signed_real(0, 1.5);
    }
    template <class X>
    X point()
    {
        X x;
        if constexpr (std::is_same_v<X, double>) {
            x = g.signed_real(0, 1.5);
        } else if constexpr (requires { X::dim; }) {
            mt::vector_t<X::dim> v;
            for (int i = 0; i < X::dim; ++i)
                v[i] = g.signed_real(0, 1.5);
            x = X(v);
        } else {
            for (int i = 0; i < X::size; ++i)
                x[i] = g.signed_real(0, 1.5);
        }
        return x;
    }
    void begin(int s, int)
    {
        shape = s;
        if (jet::bad || jet::scale > 1e5)
            c.discard();
        tol = 1e-10 * (1 + double(jet::scale));
        c.note("generated function number ", s);
    }
    void end()
    {
        if (interesting)
            c.nontrivial();
    }
    template <int K, class T, class F>
    void compare(const T & got, const F & want, const char * what, int R, int C)
    {
        for (int i = 0; i < R; ++i)
            for (int j = 0; j < C; ++j) {
                double x;
                if constexpr (K == 0)
                    x = got;
                else if constexpr (K == 1)
                    x = got[i];
                else
                    x = got[{ i, j }];
                double w = double(want(i, j));
                if (w != 0)
                    interesting = true;
                c.near(x, w, tol, what, " of function ", shape, ", component ", i, " ", j);
            }
    }
    template <int K, class T, int D, int R, int C>
    void value(const T & got, const jet::Mat<D, R, C> & ref)
    {
        compare<K>(got, [&](int i, int j) { return ref(i, j).v; }, "value", R, C);
    }
    template <int K, int V, class T, int D, int R, int C>
    void first(const T & got, const jet::Mat<D, R, C> & ref)
    {
        compare<K>(got, [&](int i, int j) { return ref(i, j).g[V]; }, "derivative", R, C);
    }
    template <int K, int V, int W, class T, int D, int R, int C>
    void second(const T & got, const jet::Mat<D, R, C> & ref)
    {
        compare<K>(got, [&](int i, int j) { return ref(i, j).h[V][W]; }, "second derivative", R, C);
    }
    // rows: components of the function (row by row), columns: variables
    template <int K, class T, int D, int R, int C>
    void jacobian(const T & got, const jet::Mat<D, R, C> & ref)
    {
        for (int i = 0; i < R * C; ++i)
            for (int j = 0; j < D; ++j)
                c.near(got[{ i, j }], double(ref(i / C, i % C).g[j]), tol, "matrix of derivatives of function ",
                       shape, ", component ", i, ", variable ", j);
    }
    template <class T, int D>
    void gradient(const T & got, const jet::Mat<D, 1, 1> & ref)
    {
        compare<1>(got, [&](int i, int) { return ref(0, 0).g[i]; }, "gradient", D, 1);
    }
    template <class T, int D>
    void hessian(const T & got, const jet::Mat<D, 1, 1> & ref)
    {
        compare<2>(got, [&](int i, int j) { return ref(0, 0).h[i][j]; }, "gradient of the gradient", D, D);
    }
    template <int K, class T, int D, int R>
    void laplacian(const T & got, const jet::Mat<D, R, 1> & ref)
    {
        auto sum = [&](int i, int) {
            jet::L s = 0;
            for (int j = 0; j < D; ++j)
                s += ref(i, 0).h[j][j];
            return s;
        };
        compare<K>(got, sum, "divergence of the gradient", R, 1);
    }
    template <class T, int D>
    void divergence(const T & got, const jet::Mat<D, D, 1> & ref)
    {
        jet::L s = 0;
        for (int j = 0; j < D; ++j)
            s += ref(j, 0).g[j];
        compare<0>(got, [&](int, int) { return s; }, "divergence", 1, 1);
    }
    template <class T, int D>
    void grad_div(const T & got, const jet::Mat<D, D, 1> & ref)
    {
        auto sum = [&](int i, int) {
            jet::L s = 0;
            for (int j = 0; j < D; ++j)
                s += ref(j, 0).h[j][i];
            return s;
        };
        compare<1>(got, sum, "gradient of the divergence", D, 1);
    }
    template <class T, int D>
    void row_divergence(const T & got, const jet::Mat<D, D, D> & ref)
    {
        auto sum = [&](int i, int) {
            jet::L s = 0;
            for (int j = 0; j < D; ++j)
                s += ref(i, j).g[j];
            return s;
        };
        compare<1>(got, sum, "divergence of a tensor field", D, 1);
    }
};

#include "generated.h"

PROP(expressions, 10)
{
    Run run(g, c);
    constexpr int n = sizeof(SHAPES) / sizeof(SHAPES[0]);
    int s = g.below(n);
    run.constants(100);
    SHAPES[s](run);
}

// the library functions on their own, over the whole of their domains
#ifndef PBT_FIELDS
PROP(library, 2)
{
    double x = 0;
    c.nontrivial();
    auto rel = [&](double got, long double want, const char * what) {
        c.near(got, double(want), 1e-14 * double(std::abs(want)) + 1e-300, what, " at ", x);
    };
    auto big = [&] { return g.signed_real(1e-3, 700); };
    auto pos = [&] { return std::exp(g.real(-200, 200)); };
    auto unit = [&] { return g.real(-0.999, 0.999); };
    switch (g.below(10)) {
        case 0:
            x = big();
            rel(mf::sin(x), std::sin((long double) x), "sin");
            rel(mf::cos(x), std::cos((long double) x), "cos");
#ifdef PBT_DERIVATIVES
            rel(mf::derivative(mf::sin)(x), std::cos((long double) x), "derivative of sin");
            rel(mf::derivative(mf::cos)(x), -std::sin((long double) x), "derivative of cos");
#endif
            break;
        case 1:
            x = g.real(-1.5, 1.5);
            rel(mf::tan(x), std::tan((long double) x), "tan");
#ifdef PBT_DERIVATIVES
            rel(mf::derivative(mf::tan)(x), 1 + std::tan((long double) x) * std::tan((long double) x), "derivative of tan");
#endif
            break;
        case 2:
            x = unit();
            rel(mf::asin(x), std::asin((long double) x), "asin");
            rel(mf::acos(x), std::acos((long double) x), "acos");
#ifdef PBT_DERIVATIVES
            c.near(mf::derivative(mf::asin)(x), double(1 / std::sqrt(1 - (long double) x * x)), 1e-11, "derivative of asin");
            c.near(mf::derivative(mf::acos)(x), double(-1 / std::sqrt(1 - (long double) x * x)), 1e-11, "derivative of acos");
#endif
            break;
        case 3:
            x = big();
            rel(mf::atan(x), std::atan((long double) x), "atan");
#ifdef PBT_DERIVATIVES
            rel(mf::derivative(mf::atan)(x), 1 / (1 + (long double) x * x), "derivative of atan");
#endif
            break;
        case 4:
            x = g.signed_real(0, 300);
            rel(mf::exp(x), std::exp((long double) x), "exp");
#ifdef PBT_DERIVATIVES
            rel(mf::derivative(mf::exp)(x), std::exp((long double) x), "derivative of exp");
#endif
            break;
        case 5:
            x = pos();
            c.near(mf::log(x), double(std::log((long double) x)), 1e-13 * (1 + std::abs(std::log(x))), "log at ", x);
#ifdef PBT_DERIVATIVES
            rel(mf::derivative(mf::log)(x), 1 / (long double) x, "derivative of log");
#endif
            break;
        case 6:
            x = pos();
            rel(mf::sqrt(x), std::sqrt((long double) x), "sqrt");
#ifdef PBT_DERIVATIVES
            rel(mf::derivative(mf::sqrt)(x), 1 / (2 * std::sqrt((long double) x)), "derivative of sqrt");
#endif
            break;
        case 7:
            x = g.flip() ? -pos() : pos();
            rel(mf::cbrt(x), std::cbrt((long double) x), "cbrt");
#ifdef PBT_DERIVATIVES
            rel(mf::derivative(mf::cbrt)(x), 1 / (3 * std::cbrt((long double) x) * std::cbrt((long double) x)), "derivative of cbrt");
#endif
            break;
        case 8: {
            x = g.signed_real(1e-3, 50);
            long double y = x;
            rel(mf::pow<1>(x), y, "first power");
            rel(mf::pow<2>(x), y * y, "second power");
            rel(mf::pow<3>(x), y * y * y, "third power");
            rel(mf::pow<4>(x), y * y * y * y, "fourth power");
            rel(mf::pow<7>(x), y * y * y * y * y * y * y, "seventh power");
#ifdef PBT_DERIVATIVES
            rel(mf::derivative(mf::pow<1>)(x), 1, "derivative of the first power");
            rel(mf::derivative(mf::pow<2>)(x), 2 * y, "derivative of the second power");
            rel(mf::derivative(mf::pow<3>)(x), 3 * y * y, "derivative of the third power");
            rel(mf::derivative(mf::pow<7>)(x), 7 * y * y * y * y * y * y, "derivative of the seventh power");
            rel(mf::derivative(mf::derivative(mf::pow<7>))(x), 42 * y * y * y * y * y, "second derivative of the seventh power");
#endif
            break;
        }
        default:
            x = big();
            c.near(mf::zero<double>(x), 0, 0, "zero");
            c.near(mf::one<double>(x), 1, 0, "one");
            c.near(mf::constant<double>(x)(3.0), x, 0, "constant");
#ifdef PBT_DERIVATIVES
            c.near(mf::derivative(mf::one<double>)(x), 0, 0, "derivative of one");
            c.near(mf::derivative(mf::constant<double>(x))(x), 0, 0, "derivative of a constant");
#endif
            break;
    }
}
#endif
