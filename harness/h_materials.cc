// H01: energies, stresses and tangents of the material models
#include "pbt.h"
#include <mito/materials.h>

using namespace pbt;
namespace mm = mito::materials;
namespace mt = mito::tensor;

namespace {
    using L = long double;
    using M3 = std::array<std::array<L, 3>, 3>;
    using F3 = mt::matrix_t<3>;

    M3 plain(const auto & F)
    {
        M3 r;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                r[i][j] = F[{ i, j }];
        return r;
    }
    F3 lib(const M3 & a)
    {
        F3 r;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                r[{ i, j }] = double(a[i][j]);
        return r;
    }
    L det(const M3 & a)
    {
        return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1])
             - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
             + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    }
    M3 mul(const M3 & a, const M3 & b)
    {
        M3 r {};
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                for (int k = 0; k < 3; ++k)
                    r[i][j] += a[i][k] * b[k][j];
        return r;
    }

    struct Gent {
        L kappa, mu, Jm;
        L energy(const M3 & F) const
        {
            L J = det(F), I1 = 0;
            for (auto & r : F)
                for (auto x : r)
                    I1 += x * x;
            L A = (J * J - 1) / 2 - std::log(J);
            return -mu / 2 * (Jm * std::log(1 - (I1 - 3) / Jm) + 2 * std::log(J))
                 + kappa / 2 * A * A * A * A;
        }
        // is the state well inside of the domain of the model
        bool admissible(const M3 & F) const
        {
            L J = det(F), I1 = 0;
            for (auto & r : F)
                for (auto x : r)
                    I1 += x * x;
            return J > 0.02 && J < 12 && Jm - I1 + 3 > 0.01 * Jm;
        }
        // steps that are small with respect to the distance from the end of the domain
        L step(const M3 & F) const
        {
            L J = det(F), I1 = 0, cof = 0;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    I1 += F[i][j] * F[i][j];
                    int a = (i + 1) % 3, b = (i + 2) % 3, d = (j + 1) % 3, e = (j + 2) % 3;
                    cof = std::max(cof, std::abs(F[a][d] * F[b][e] - F[a][e] * F[b][d]));
                }
            return std::min({ 2e-4L, 0.005L * (Jm - I1 + 3) / std::sqrt(I1), 0.005L * J / cof });
        }
    };
    struct Elastic {
        L lambda, mu;
        L energy(const M3 & F) const
        {
            L tr = 0, ee = 0;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    L e = (F[i][j] + F[j][i]) / 2 - (i == j);
                    ee += e * e;
                    if (i == j)
                        tr += e;
                }
            return lambda / 2 * tr * tr + mu * ee;
        }
        L step(const M3 &) const { return 5e-4L; }
    };

    // the derivative of the energy of the model, in extended precision
    template <class model>
    L dW(const model & m, M3 F, int i, int j)
    {
        const L h = m.step(F);
        auto at = [&](L s) {
            auto G = F;
            G[i][j] += s;
            return m.energy(G);
        };
        return (45 * (at(h) - at(-h)) - 9 * (at(2 * h) - at(-2 * h)) + (at(3 * h) - at(-3 * h)))
             / (60 * h);
    }
    // the second derivative
    template <class model>
    L ddW(const model & m, M3 F, int i, int j, int k, int l)
    {
        const L h = 2 * m.step(F);
        auto at = [&](L s) {
            auto G = F;
            G[k][l] += s;
            return dW(m, G, i, j);
        };
        return (45 * (at(h) - at(-h)) - 9 * (at(2 * h) - at(-2 * h)) + (at(3 * h) - at(-3 * h)))
             / (60 * h);
    }

    M3 rotation(Gen & g)
    {
        // from a unit quaternion
        L q[4];
        L n = 0;
        for (auto & x : q) {
            x = g.real(-1, 1);
            n += x * x;
        }
        if (n < 1e-2) {
            q[0] += 1;
            n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
        }
        n = std::sqrt(n);
        for (auto & x : q)
            x /= n;
        L w = q[0], x = q[1], y = q[2], z = q[3];
        return M3 { { { 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y) },
                      { 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x) },
                      { 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y) } } };
    }

    M3 deformation(Gen & g)
    {
        M3 F {};
        double amp = g.pick({ 0.1, 0.0, 0.3, 0.8, 1.5 });
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                F[i][j] = (i == j) + (amp > 0 ? L(g.real(-amp, amp)) : 0.0L);
        if (g.chance(1, 3))
            F = mul(rotation(g), F);
        return plain(lib(F));    // what the library is given
    }

    template <class model, class material>
    void derivatives(Ctx & c, const model & m, const material & mat, const M3 & F, L mod)
    {
        auto f = lib(F);
        double W = mat.energy(f);
        c.near(W, double(m.energy(F)), double(1e-13L * mod + 1e-12L * std::abs(m.energy(F))), "energy");
        auto P = plain(mat.stress(f));
        L sc = mod;
        for (auto & r : P)
            for (auto x : r)
                sc = std::max(sc, std::abs(x));
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                c.near(double(P[i][j]), double(dW(m, F, i, j)), double(1e-8L * sc),
                       "stress component ", i, j, " against the derivative of the energy");
        auto C = mat.tangents(f);
        L ct = mod;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                for (int k = 0; k < 3; ++k)
                    for (int l = 0; l < 3; ++l)
                        ct = std::max(ct, L(std::abs(C[{ i, j, k, l }])));
        c.check(double(ct / (mod + 1e-300L)) < 1e12, "the tangents are finite");
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                for (int k = 0; k < 3; ++k)
                    for (int l = 0; l < 3; ++l) {
                        c.near(C[{ i, j, k, l }], C[{ k, l, i, j }], double(1e-12L * ct),
                               "major symmetry of the tangents");
                        if (3 * i + j <= 3 * k + l)
                            c.near(C[{ i, j, k, l }], double(ddW(m, F, i, j, k, l)),
                                   double(1e-6L * ct), "tangents component ", i, j, k, l,
                                   " against the second derivative of the energy");
                    }
    }
}

namespace {
    void moduli(Gen & g, double & kappa, double & mu, double & Jm)
    {
        kappa = g.real(0.1, 20);
        mu = g.real(0.1, 20);
        Jm = g.chance(1, 6) ? g.real(30, 500) : g.real(0.5, 30);
        // moduli in other units, a material without one of the stiffnesses
        if (g.chance(1, 4)) {
            double unit = std::pow(10.0, g.range(-4, 8));
            kappa *= unit;
            mu *= unit;
        }
        if (g.chance(1, 10))
            (g.flip() ? kappa : mu) = 0;
        if (g.chance(1, 10))
            (g.flip() ? kappa : mu) *= 100;
    }
}

PROP(gent, 4)
{
    double kappa, mu, Jm, rho = g.real(0.1, 10);
    moduli(g, kappa, mu, Jm);
    Gent m { kappa, mu, Jm };
    auto mat = mm::gent(rho, kappa, mu, Jm);
    auto F = deformation(g);
    // bring the state into the domain of the model
    for (int k = 0; k < 40 && !m.admissible(F); ++k)
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                F[i][j] = double(0.7L * F[i][j] + 0.3L * (i == j));
    if (!m.admissible(F))
        c.discard();
    c.note("kappa ", kappa, " mu ", mu, " Jm ", Jm, " F ", double(F[0][0]), " ", double(F[0][1]));
    if (std::abs(double(det(F)) - 1) > 1e-3)
        c.nontrivial();
    derivatives(c, m, mat, F, L(kappa + mu) * (1 + L(Jm)));
}

PROP(gent_symmetries, 2)
{
    double kappa, mu, Jm;
    moduli(g, kappa, mu, Jm);
    Gent m { kappa, mu, Jm };
    auto mat = mm::gent(1.0, kappa, mu, Jm);
    auto F = deformation(g);
    if (!m.admissible(F))
        c.discard();
    auto Q = rotation(g);
    bool rotated = std::abs(Q[0][1]) + std::abs(Q[1][2]) > 1e-2;
    if (rotated)
        c.nontrivial();
    auto f = lib(F);
    auto P = plain(mat.stress(f));
    L sc = kappa + mu;
    for (auto & r : P)
        for (auto x : r)
            sc = std::max(sc, std::abs(x));
    // superposed rotations (frame indifference) and rotations of the reference (isotropy)
    auto QF = lib(mul(Q, F)), FQ = lib(mul(F, Q));
    double w = mat.energy(f), tol = 1e-11 * double((kappa + mu) * (1 + Jm) + std::abs(w));
    c.near(mat.energy(QF), w, tol, "energy after a superposed rotation");
    c.near(mat.energy(FQ), w, tol, "energy after a rotation of the reference");
    auto QP = mul(Q, P), PQ = mul(P, Q);
    auto PA = plain(mat.stress(QF)), PB = plain(mat.stress(FQ));
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            c.near(double(PA[i][j]), double(QP[i][j]), double(1e-9L * sc * (1 + 1 / L(Jm))),
                   "stress after a superposed rotation");
            c.near(double(PB[i][j]), double(PQ[i][j]), double(1e-9L * sc * (1 + 1 / L(Jm))),
                   "stress after a rotation of the reference");
        }
    // balance of angular momentum: P F^T is symmetric
    M3 T {};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            for (int k = 0; k < 3; ++k)
                T[i][j] += P[i][k] * F[j][k];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            c.near(double(T[i][j]), double(T[j][i]), double(1e-10L * sc), "symmetry of the Kirchhoff stress");
    // no stress in the reference state, rotated or not
    auto P0 = plain(mat.stress(lib(Q)));
    for (auto & r : P0)
        for (auto x : r)
            c.near(double(x), 0.0, double(1e-12L * (kappa + mu) * (1 + 1 / L(Jm))), "stress of a rigid rotation");
    c.near(mat.energy(lib(Q)), 0.0, 1e-12 * (kappa + mu) * (1 + Jm), "energy of a rigid rotation");
}

PROP(linear_elastic, 2)
{
    double E = g.real(0.1, 100), nu = g.chance(1, 5) ? g.pick({ -0.99, -0.95, 0.48, 0.495 }) : g.real(-0.9, 0.45), rho = g.real(0.1, 10);
    if (g.chance(1, 10))
        nu = 0;
    if (g.chance(1, 4))
        E *= std::pow(10.0, g.range(-4, 9));
    Elastic m { L(E) * nu / ((1 + L(nu)) * (1 - 2 * L(nu))), L(E) / (2 * (1 + L(nu))) };
    auto mat = mm::linear_elastic(rho, E, nu);
    M3 F {};
    double amp = g.pick({ 0.1, 1.0, 5.0 });
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            F[i][j] = (i == j) + g.real(-amp, amp);
    c.nontrivial();
    c.note("E ", E, " nu ", nu);
    L mod = (std::abs(m.lambda) + m.mu) * (1 + L(amp) * amp);
    derivatives(c, m, mat, F, mod);
    auto f = lib(F);
    auto S = plain(mat.stress(f));
    // the strains follow from the stresses by the compliance
    L tr = S[0][0] + S[1][1] + S[2][2];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            L e = (F[i][j] + F[j][i]) / 2 - (i == j);
            L got = (1 + L(nu)) / E * S[i][j] - (i == j ? L(nu) / E * tr : 0);
            c.near(double(got), double(e), double(1e-11L * mod / E), "Hooke's law");
            c.near(double(S[i][j]), double(S[j][i]), 0.0, "symmetry of the stress");
        }
    // the tangents do not depend on the state, have all symmetries, and give the stress
    auto C = mat.tangents(f), C0 = mat.tangents(lib(rotation(g)));
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            L s = 0;
            for (int k = 0; k < 3; ++k)
                for (int l = 0; l < 3; ++l) {
                    double x = C[{ i, j, k, l }];
                    c.check(x == C0[{ i, j, k, l }], "the tangents are constant");
                    c.check(x == C[{ j, i, k, l }] && x == C[{ i, j, l, k }], "minor symmetries of the tangents");
                    s += x * (F[k][l] - (k == l));
                }
            c.near(double(s), double(S[i][j]), double(1e-12L * mod), "tangents applied to the strain");
        }
    // only the symmetric part of the deformation matters
    M3 W = F;
    L a = g.real(-1, 1), b = g.real(-1, 1), d = g.real(-1, 1);
    W[0][1] += a, W[1][0] -= a, W[0][2] += b, W[2][0] -= b, W[1][2] += d, W[2][1] -= d;
    auto SW = plain(mat.stress(lib(W)));
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            c.near(double(SW[i][j]), double(S[i][j]), double(1e-12L * mod), "stress after an infinitesimal rotation");
}

namespace {
    // a material with a quadratic energy, the stress or tangents of which may be off
    struct Quadratic {
        using deformation_gradient_type = F3;
        using stress_type = F3;
        using tangents_type = mt::fourth_order_tensor_t<3>;
        double a[9][9];    // symmetric
        double b[9];
        double dP[9] {};
        double dC[81] {};
        auto energy(const F3 & F) const -> double
        {
            double r = 0;
            for (int i = 0; i < 9; ++i) {
                r += b[i] * F[{ i / 3, i % 3 }];
                for (int j = 0; j < 9; ++j)
                    r += 0.5 * a[i][j] * F[{ i / 3, i % 3 }] * F[{ j / 3, j % 3 }];
            }
            return r;
        }
        auto stress(const F3 & F) const -> F3
        {
            F3 r;
            for (int i = 0; i < 9; ++i) {
                double s = b[i] + dP[i];
                for (int j = 0; j < 9; ++j)
                    s += a[i][j] * F[{ j / 3, j % 3 }];
                r[{ i / 3, i % 3 }] = s;
            }
            return r;
        }
        auto tangents(const F3 &) const -> tangents_type
        {
            tangents_type r;
            for (int i = 0; i < 9; ++i)
                for (int j = 0; j < 9; ++j)
                    r[{ i / 3, i % 3, j / 3, j % 3 }] = a[i][j] + dC[9 * i + j];
            return r;
        }
    };
}

PROP(consistency_test, 2)
{
    pyre::journal::quiet();
    Quadratic q;
    for (int i = 0; i < 9; ++i) {
        q.b[i] = g.range(-3, 3);
        for (int j = 0; j <= i; ++j)
            q.a[i][j] = q.a[j][i] = g.range(-3, 3);
    }
    double eps = g.pick({ 1e-3, 1e-2, 1e-4 });
    double tol = 1e-6 * eps / 1e-3;
    // the size of the error of the stress and of the tangents, relative to what is tolerated
    double errP = 0, errC = 0;
    if (g.flip()) {
        for (int n = g.range(1, 3); n > 0; --n)
            q.dP[g.below(9)] = g.signed_real(0.001, 1) * tol / eps;
        for (auto x : q.dP)
            errP += x * x;
        errP = 2 * eps * std::sqrt(errP) / tol;
    }
    if (g.flip()) {
        for (int n = g.range(1, 3); n > 0; --n)
            q.dC[g.below(81)] = g.signed_real(0.001, 1) * tol / eps;
        for (auto x : q.dC)
            errC += x * x;
        errC = 2 * eps * std::sqrt(errC) / tol;
    }
    // in other units
    if (g.chance(1, 3)) {
        double unit = std::pow(10.0, g.range(-10, 8));
        for (auto & r : q.a)
            for (auto & x : r)
                x *= unit;
        for (auto * list : { q.b, q.dP })
            for (int i = 0; i < 9; ++i)
                list[i] *= unit;
        for (auto & x : q.dC)
            x *= unit;
        tol *= unit;
    }
    // too close to call
    if (std::abs(errP - 1) < 0.05 || std::abs(errC - 1) < 0.05)
        c.discard();
    if (errP > 0 || errC > 0)
        c.nontrivial();
    F3 F;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            F[{ i, j }] = (i == j) + g.real(-1, 1);
    auto before = F;
    auto test = mm::consistency_test(q, eps, tol);
    c.note("stress error ", errP, " tangents error ", errC, " (1 is the limit)");
    c.check(test.test_stress(F) == (errP < 1), "verdict of the stress test, error ", errP);
    c.check(test.test_tangents(F) == (errC < 1), "verdict of the tangents test, error ", errC);
    c.check(test.test_stress(F) == (errP < 1), "verdict of the stress test, second run");
    c.check(F == before, "the state is left alone");
    // with the parameters given as temporaries
    auto literal = mm::consistency_test(Quadratic(q), double(eps), double(tol));
    volatile double junk[64];
    for (auto & x : junk)
        x = 1e30;
    c.check(literal.test_stress(F) == (errP < 1), "verdict of a stress test built from literals");
    c.check(literal.test_tangents(F) == (errC < 1), "verdict of a tangents test built from literals");
}
