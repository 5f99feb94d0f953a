// A01, A02: forms, their linear algebra, tensor and wedge products, contraction
#include "a_alg.h"
#include <mito/tensor.h>

using namespace pbt;
namespace mt = mito::tensor;
using mt::_;

namespace {
    template <int D>
    using vec_t = mt::vector_t<D>;

    template <int D>
    ref::Vec plain(const vec_t<D> & v)
    {
        ref::Vec r(D);
        for (int i = 0; i < D; ++i)
            r[size_t(i)] = v[i];
        return r;
    }

    // {integral}: small integers, so that everything is exact
    template <int D>
    vec_t<D> vec(Gen & g, bool integral)
    {
        vec_t<D> v;
        for (int i = 0; i < D; ++i)
            v[i] = integral ? double(g.range(-4, 4)) : g.real(-3, 3);
        return v;
    }

    double num(Gen & g, bool integral) { return integral ? double(g.range(-4, 4)) : g.real(-3, 3); }

    struct Case {
        Gen & g;
        Ctx & c;
        bool integral;
        bool interesting = false;

        template <class T>
        void value(const T & got, const ref::Ten & t, const std::vector<ref::Vec> & x,
                   const char * what)
        {
            static_assert(std::is_convertible_v<T, double>);
            double want = t(x);
            double tol = integral ? 0.0 : 1e-12 * (1.0 + t.scale(x));
            interesting = interesting || want != 0;
            c.near(double(got), want, tol, what);
        }
    };

    // a one-form of the library, of one of the kinds that it offers, with its coefficients
    // (type-erased, so that the ingredients of a product may be of any kind)
    template <int D>
    struct One {
        std::function<double(const vec_t<D> &)> f;
        ref::Ten t;
        auto form() const
        {
            // (a functor that is gone by the time that the form is used)
            auto h = f;
            auto functor = [h](const vec_t<D> & v) -> double { return h(v); };
            return mt::one_form(functor);
        }
    };

    template <int D, class F>
    One<D> erase(const F & form, const ref::Ten & t)
    {
        return { [form](const vec_t<D> & v) { return double(form(v)); }, t };
    }

    template <int D>
    One<D> one(Case & k, int depth = 2)
    {
        auto & g = k.g;
        int kind = g.weighted({ 3, 2, 2, depth ? 2 : 0, depth ? 2 : 0, depth ? 2 : 0, depth ? 1 : 0 });
        if (kind <= 2) {
            auto a = vec<D>(g, k.integral);
            const auto pa = plain<D>(a);
            ref::Ten t(1, D);
            if (kind == 0) {
                for (int i = 0; i < D; ++i)
                    t.set(size_t(i), pa[size_t(i)]);
                switch (g.below(3)) {
                    case 0:
                        return erase<D>(mt::one_form(a), t);
                    case 1:
                        return erase<D>(mt::one_form(std::as_const(a)), t);
                    default: {
                        // (a vector that changes later)
                        auto form = mt::one_form(a);
                        a *= 3.0;
                        return g.flip() ? erase<D>(form, t) : erase<D>(mt::one_form(1.0 * vec_t<D>(a)), ref::scaled(3.0, t));
                    }
                }
            }
            if (kind == 1) {
                mt::symmetric_matrix_t<D> m;
                std::vector<std::vector<double>> pm(D, std::vector<double>(D));
                for (int i = 0; i < D; ++i)
                    for (int j = i; j < D; ++j)
                        pm[i][j] = pm[j][i] = m[{ i, j }] = num(g, k.integral);
                for (int i = 0; i < D; ++i)
                    for (int j = 0; j < D; ++j)
                    {
                        t.c[i] += pm[i][j] * pa[j];
                        t.m[i] += std::abs(pm[i][j] * pa[j]);
                    }
                return erase<D>(mt::one_form(a, m), t);
            }
            mt::diagonal_matrix_t<D> m;
            for (int i = 0; i < D; ++i) {
                double x = num(g, k.integral);
                m[{ i, i }] = x;
                t.set(size_t(i), x * pa[i]);
            }
            return erase<D>(mt::one_form(a, m), t);
        }
        auto a = one<D>(k, depth - 1);
        if (kind == 3) {
            auto b = one<D>(k, depth - 1);
            if (g.flip())
                return erase<D>(a.form() - b.form(), ref::lin(1, a.t, -1, b.t));
            return erase<D>(a.form() + b.form(), ref::lin(1, a.t, 1, b.t));
        }
        if (kind == 4) {
            double s = num(g, k.integral);
            switch (g.below(4)) {
                case 0:
                    return erase<D>(s * a.form(), ref::scaled(s, a.t));
                case 1:
                    return erase<D>(a.form() * s, ref::scaled(s, a.t));
                case 2:
                    return erase<D>(mt::wedge(s, a.form()), ref::scaled(s, a.t));
                default:
                    return erase<D>(mt::wedge(a.form(), s), ref::scaled(s, a.t));
            }
        }
        if (kind == 5)
            return erase<D>(-a.form(), ref::scaled(-1, a.t));
        // one of the ways of getting at a one-form by contraction of a two-form
        auto b = one<D>(k, depth - 1);
        auto x = vec<D>(g, k.integral);
        auto px = plain<D>(x);
        switch (g.below(5)) {
            case 0:
                return erase<D>(
                    mt::tensor(a.form(), b.form())(x, _), ref::contract(ref::outer(a.t, b.t), 0, px));
            case 1:
                return erase<D>(
                    (a.form() * b.form())(_, x), ref::contract(ref::outer(a.t, b.t), 1, px));
            case 2:
                return erase<D>(
                    mt::wedge(a.form(), b.form())(x, _),
                    ref::contract(ref::wedge(a.t, b.t), 0, px));
            case 3:
                return erase<D>(
                    mt::wedge(a.form(), b.form())(_, x),
                    ref::contract(ref::wedge(a.t, b.t), 1, px));
            default:
                return erase<D>(mt::wedge(a.form())(_), a.t);
        }
    }

    // hand a two-form to {visit}
    template <int D, class V>
    void with_two(Case & k, bool alternating, V && visit)
    {
        auto & g = k.g;
        auto A = one<D>(k), B = one<D>(k), C = one<D>(k);
        auto a = A.form(), b = B.form(), cc = C.form();
        double s = num(g, k.integral);
        int kind = alternating ? g.below(8) : g.below(14);
        switch (kind) {
            case 0:
                return visit(mt::wedge(a, b), ref::wedge(A.t, B.t));
            case 1:
                return visit(-mt::wedge(a, b), ref::scaled(-1, ref::wedge(A.t, B.t)));
            case 2:
                return visit(
                    s * mt::wedge(a, b) + mt::wedge(b, cc),
                    ref::lin(s, ref::wedge(A.t, B.t), 1, ref::wedge(B.t, C.t)));
            case 3:
                return visit(
                    mt::wedge(a, cc) - mt::wedge(b, cc) * s,
                    ref::lin(1, ref::wedge(A.t, C.t), -s, ref::wedge(B.t, C.t)));
            case 4: {
                auto n = vec<D>(g, k.integral);
                return visit(
                    mt::wedge(a, b, cc)(n, _, _),
                    ref::contract(ref::wedge(A.t, ref::wedge(B.t, C.t)), 0, plain<D>(n)));
            }
            case 5: {
                auto n = vec<D>(g, k.integral);
                return visit(
                    mt::wedge(a, b, cc)(_, n, _),
                    ref::contract(ref::wedge(A.t, ref::wedge(B.t, C.t)), 1, plain<D>(n)));
            }
            case 6: {
                auto n = vec<D>(g, k.integral);
                return visit(
                    mt::wedge(a, b, cc)(_, _, n),
                    ref::contract(ref::wedge(A.t, ref::wedge(B.t, C.t)), 2, plain<D>(n)));
            }
            case 7:
                if (g.flip())
                    return visit(mt::wedge(s, mt::wedge(a, b)), ref::scaled(s, ref::wedge(A.t, B.t)));
                return visit(mt::wedge(mt::wedge(a, b), s), ref::scaled(s, ref::wedge(A.t, B.t)));
            case 8:
                return visit(mt::tensor(a, b), ref::outer(A.t, B.t));
            case 9:
                return visit(a * b, ref::outer(A.t, B.t));
            case 10:
                return visit(
                    a * b - s * (b * cc),
                    ref::lin(1, ref::outer(A.t, B.t), -s, ref::outer(B.t, C.t)));
            case 11:
                return visit(
                    mt::wedge(a, b) + mt::tensor(cc, b) * s,
                    ref::lin(1, ref::wedge(A.t, B.t), s, ref::outer(C.t, B.t)));
            case 12: {
                auto n = vec<D>(g, k.integral);
                return visit(
                    mt::tensor(a, b, cc)(n, _, _),
                    ref::contract(ref::outer(A.t, ref::outer(B.t, C.t)), 0, plain<D>(n)));
            }
            default: {
                auto n = vec<D>(g, k.integral);
                if (g.flip())
                    return visit(
                        mt::tensor(a, b, cc)(_, n, _),
                        ref::contract(ref::outer(A.t, ref::outer(B.t, C.t)), 1, plain<D>(n)));
                return visit(
                    -mt::tensor(a, b, cc)(_, _, n),
                    ref::scaled(-1, ref::contract(ref::outer(A.t, ref::outer(B.t, C.t)), 2, plain<D>(n))));
            }
        }
    }

    template <int D, class F>
    void probe_two(Case & k, const F & f, const ref::Ten & t)
    {
        auto x = vec<D>(k.g, k.integral), y = vec<D>(k.g, k.integral);
        auto px = plain<D>(x), py = plain<D>(y);
        k.value(f(x, y), t, { px, py }, "two-form on two vectors");
        k.value(f(x, _)(y), t, { px, py }, "two-form with its first argument contracted");
        k.value(f(_, y)(x), t, { px, py }, "two-form with its second argument contracted");
        k.value(f(_, _)(x, y), t, { px, py }, "two-form with dummy arguments only");
        k.value(f(x, x), t, { px, px }, "two-form on a vector twice");
        // linear in each argument
        double s = num(k.g, k.integral);
        auto z = vec<D>(k.g, k.integral);
        vec_t<D> w = s * x + z;
        k.value(f(w, y), t, { plain<D>(w), py }, "two-form on a linear combination");
    }

    template <int D, class F>
    void probe_three(Case & k, const F & f, const ref::Ten & t)
    {
        auto x = vec<D>(k.g, k.integral), y = vec<D>(k.g, k.integral), z = vec<D>(k.g, k.integral);
        auto px = plain<D>(x), py = plain<D>(y), pz = plain<D>(z);
        std::vector<ref::Vec> a { px, py, pz };
        k.value(f(x, y, z), t, a, "three-form on three vectors");
        k.value(f(x, y, _)(z), t, a, "three-form with two arguments contracted");
        // all orders of the arguments
        k.value(f(y, x, z), t, { py, px, pz }, "three-form on three vectors");
        k.value(f(y, z, x), t, { py, pz, px }, "three-form on three vectors");
        k.value(f(z, y, x), t, { pz, py, px }, "three-form on three vectors");
        k.value(f(x, z, y), t, { px, pz, py }, "three-form on three vectors");
        k.value(f(z, x, y), t, { pz, px, py }, "three-form on three vectors");
        k.value(f(x, y, x), t, { px, py, px }, "three-form on a vector twice");
    }
    template <int D, class F>
    void probe_three_dummy(Case & k, const F & f, const ref::Ten & t)
    {
        auto x = vec<D>(k.g, k.integral), y = vec<D>(k.g, k.integral), z = vec<D>(k.g, k.integral);
        std::vector<ref::Vec> a { plain<D>(x), plain<D>(y), plain<D>(z) };
        k.value(f(x, _, _)(y, z), t, a, "three-form with its first argument contracted");
        k.value(f(_, y, _)(x, z), t, a, "three-form with its second argument contracted");
        k.value(f(_, _, z)(x, y), t, a, "three-form with its third argument contracted");
        k.value(f(x, _, z)(y), t, a, "three-form with the outer arguments contracted");
        k.value(f(_, y, z)(x), t, a, "three-form with the last arguments contracted");
        k.value(f(x, _, _)(y, _)(z), t, a, "three-form contracted one argument at a time");
    }

    template <int D>
    void linear(Gen & g, Ctx & c)
    {
        Case k { g, c, g.flip() };
        c.label(k.integral ? "exact" : "real");
        int what = g.below(4);
        if (what == 0) {
            auto A = one<D>(k, 3);
            auto x = vec<D>(g, k.integral);
            k.value(A.form()(x), A.t, { plain<D>(x) }, "one-form on a vector");
            k.value(A.form()(_)(x), A.t, { plain<D>(x) }, "one-form with a dummy argument");
            auto y = vec<D>(g, k.integral);
            double s = num(g, k.integral);
            vec_t<D> w = s * x + y;
            k.value(A.form()(w), A.t, { plain<D>(w) }, "one-form on a linear combination");
        } else if (what == 1 || what == 2) {
            with_two<D>(k, false, [&](const auto & f, const ref::Ten & t) { probe_two<D>(k, f, t); });
        } else {
            auto A = one<D>(k), B = one<D>(k), C = one<D>(k);
            auto a = A.form(), b = B.form(), cc = C.form();
            auto t = ref::outer(A.t, ref::outer(B.t, C.t));
            double s = num(g, k.integral);
            switch (g.below(3)) {
                case 0: {
                    auto f = mt::tensor(a, b, cc);
                    probe_three<D>(k, f, t);
                    probe_three_dummy<D>(k, f, t);
                    break;
                }
                case 1: {
                    auto f = s * mt::tensor(a, b, cc) - mt::tensor(cc, a, b);
                    auto u = ref::lin(s, t, -1, ref::outer(C.t, ref::outer(A.t, B.t)));
                    probe_three<D>(k, f, u);
                    probe_three_dummy<D>(k, f, u);
                    break;
                }
                default: {
                    auto f = -mt::tensor(a, b, cc) * s;
                    probe_three<D>(k, f, ref::scaled(-s, t));
                    break;
                }
            }
        }
        if (k.interesting)
            c.nontrivial();
    }

    template <int D>
    void exterior(Gen & g, Ctx & c)
    {
        Case k { g, c, g.flip() };
        c.label(k.integral ? "exact" : "real");
        int what = g.below(5);
        if (what == 0) {
            c.label("two-form");
            with_two<D>(k, true, [&](const auto & f, const ref::Ten & t) {
                probe_two<D>(k, f, t);
                auto x = vec<D>(g, k.integral), y = vec<D>(g, k.integral);
                double s = t.scale({ plain<D>(x), plain<D>(y) });
                c.near(f(x, y), -f(y, x), 1e-12 * s, "antisymmetry of a two-form");
            });
        } else if (what == 1) {
            c.label("three one-forms");
            auto A = one<D>(k), B = one<D>(k), C = one<D>(k);
            auto t = ref::wedge(A.t, ref::wedge(B.t, C.t));
            auto f = mt::wedge(A.form(), B.form(), C.form());
            probe_three<D>(k, f, t);
            probe_three_dummy<D>(k, f, t);
        } else if (what == 2 || what == 3) {
            c.label("one-form and two-form");
            auto A = one<D>(k);
            with_two<D>(k, true, [&](const auto & f, const ref::Ten & t) {
                auto w = mt::wedge(A.form(), f);
                auto u = ref::wedge(A.t, t);
                probe_three<D>(k, w, u);
            });
        } else {
            c.label("graded algebra");
            // a ^ a = 0, associativity, bilinearity, zero form
            auto A = one<D>(k), B = one<D>(k), C = one<D>(k);
            auto a = A.form(), b = B.form(), cc = C.form();
            auto x = vec<D>(g, k.integral), y = vec<D>(g, k.integral), z = vec<D>(g, k.integral);
            std::vector<ref::Vec> v2 { plain<D>(x), plain<D>(y) },
                v3 { plain<D>(x), plain<D>(y), plain<D>(z) };
            auto o2 = ref::outer(A.t, A.t);
            c.near(mt::wedge(a, a)(x, y), 0.0, 1e-12 * o2.scale(v2), "a ^ a");
            k.value(mt::wedge(mt::wedge(a), b)(x, y), ref::wedge(A.t, B.t), v2, "wedge of one form");
            auto abc = ref::wedge(A.t, ref::wedge(B.t, C.t));
            double tol = 1e-12 * (1 + abc.scale(v3));
            double w = mt::wedge(a, b, cc)(x, y, z);
            k.value(w, abc, v3, "a ^ b ^ c");
            c.near(mt::wedge(a, mt::wedge(b, cc))(x, y, z), w, tol, "associativity of the wedge product");
            c.near(mt::wedge(b, mt::wedge(a, cc))(x, y, z), -w, tol, "a ^ (b ^ c) = -b ^ (a ^ c)");
            c.near(mt::wedge(b, a, cc)(x, y, z), -w, tol, "exchange of two factors");
            c.near(mt::wedge(b, cc, a)(x, y, z), w, tol, "rotation of the factors");
            c.near(mt::wedge(a, b, a)(x, y, z), 0.0, 
                   1e-12 * (1 + ref::wedge(A.t, ref::wedge(B.t, A.t)).scale(v3)),
                   "a ^ b ^ a");
        }
        if (k.interesting)
            c.nontrivial();
    }
}

#ifdef PBT_A01
PROP(linear_1, 1) { linear<1>(g, c); }
PROP(linear_2, 3) { linear<2>(g, c); }
PROP(linear_3, 4) { linear<3>(g, c); }
PROP(linear_4, 1) { linear<4>(g, c); }
PROP(functors, 1)
{
    // forms of functors with a name and without
    using v3 = vec_t<3>;
    double a = g.signed_real(0, 3), b = g.signed_real(0, 3);
    auto form2 = [&] {
        auto f = [a, b](const v3 & x, const v3 & y) -> double { return a * x[0] * y[1] + b * x[2] * y[0]; };
        return g.flip() ? mt::form<2>(f) : mt::form<2>(std::move(f));
    }();
    auto form3 = [&] {
        const auto f = [a, b](const v3 & x, const v3 & y, const v3 & z) -> double {
            return (a * x[0] * y[1] + b * x[2] * y[0]) * z[1];
        };
        return mt::form<3>(f);
    }();
    auto x = vec<3>(g, false), y = vec<3>(g, false), z = vec<3>(g, false);
    double want = a * x[0] * y[1] + b * x[2] * y[0];
    c.near(form2(x, y), want, 1e-12 * 1000, "a two-form made from a functor");
    c.near(form3(x, y, z), want * z[1], 1e-12 * 3000, "a three-form made from a functor");
    c.near((2.0 * form3)(x, y, z), 2 * want * z[1], 1e-12 * 6000, "a multiple of it");
    c.near((form2 + form2)(x, y), 2 * want, 1e-12 * 2000, "a sum");
    if (want != 0)
        c.nontrivial();
}
PROP(dual_basis, 1)
{
    // the dual basis returns components; the constants of the module are what they say
    using v3 = vec_t<3>;
    v3 v = vec<3>(g, false);
    c.nontrivial();
    c.check(mt::one_form(mt::e_0<3>)(v) == v[0] && mt::one_form(mt::e_1<3>)(v) == v[1]
                && mt::one_form(mt::e_2<3>)(v) == v[2],
            "the dual basis returns the components of a vector");
    auto w = vec<3>(g, false);
    double m[3][3];
    for (auto & r : m)
        for (auto & x : r)
            x = 0;
    auto put = [&](int i, int j, const auto & e) {
        double got = 0;
        for (int a = 0; a < 3; ++a)
            for (int b = 0; b < 3; ++b)
                got += v[a] * e[{ a, b }] * w[b];
        c.near(got, v[i] * w[j], 0, "basis matrix");
        (void) m;
    };
    put(0, 0, mt::e_00<3>);
    put(0, 1, mt::e_01<3>);
    put(0, 2, mt::e_02<3>);
    put(1, 0, mt::e_10<3>);
    put(1, 1, mt::e_11<3>);
    put(1, 2, mt::e_12<3>);
    put(2, 0, mt::e_20<3>);
    put(2, 1, mt::e_21<3>);
    put(2, 2, mt::e_22<3>);
    v3 iv = mt::identity<3> * v;
    c.check(iv == v, "identity");
}
#else
PROP(exterior_2, 2) { exterior<2>(g, c); }
PROP(exterior_3, 4) { exterior<3>(g, c); }
PROP(exterior_4, 2) { exterior<4>(g, c); }
#endif
