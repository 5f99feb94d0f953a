// S01: linear systems solved with PETSc, by themselves and under a discrete system
#include "space.h"
#include <mito/matrix_solvers.h>

using namespace pbt;
using namespace femx;
namespace {
    namespace mp = mito::matrix_solvers::petsc;
    // (in the worker process, not before)
    void start()
    {
        static bool once = (mito::petsc::initialize(), true);
        (void) once;
    }

    std::string options_of(Gen & g, Ctx & c, bool symmetric, double & tol)
    {
        tol = 1e-9;
        std::string o;
        switch (g.range(0, symmetric ? 6 : 4)) {
            case 0:
                tol = 1e-3;
                return "";
            case 1:
                o = "-ksp_type preonly -pc_type lu";
                break;
            case 2:
                o = "-ksp_type gmres -ksp_rtol 1e-13 -pc_type jacobi";
                break;
            case 3:
                o = "-ksp_rtol 1e-13";
                break;
            case 4:
                o = "-ksp_type bcgs -ksp_rtol 1e-13 -pc_type ilu";
                break;
            case 5:
                o = "-ksp_type cg -ksp_rtol 1e-13 -pc_type none";
                break;
            default:
                o = "-ksp_type preonly -pc_type cholesky";
        }
        if (g.chance(1, 4))
            o = " " + o + " ";
        c.note("options ", o);
        return o;
    }

    struct System {
        std::string label;
        int n;
        bool symmetric;
        std::unique_ptr<mp::linear_system_t> system;
        std::unique_ptr<mp::ksp_t> solver;
        std::vector<double> A, b;
        std::vector<std::pair<int, int>> pattern;
        double tol = 0;

        double & at(int i, int j) { return A[size_t(i) * size_t(n) + size_t(j)]; }

        System(Gen & g, Ctx & c, std::string l) : label(l)
        {
            system = std::make_unique<mp::linear_system_t>(label);
            c.check(system->label() == label, "label");
            begin(g, c);
        }
        void begin(Gen & g, Ctx & c)
        {
            n = g.chance(1, 25) ? g.range(10, 70) : g.range(1, 9);
            // (rows that are nearly full, or hardly filled at all)
            int filled = n < 10 ? 2 : g.range(0, 4);
            symmetric = g.flip();
            system->create(n);
            c.check(system->n_equations() == n, "number of equations");
            solver = std::make_unique<mp::ksp_t>(*system);
            solver->create();
            auto o = options_of(g, c, symmetric, tol);
            size_t cut = o.find(" -", 1);
            if (cut != std::string::npos && g.chance(1, 3)) {
                // one after the other
                solver->set_options(o.substr(0, cut));
                solver->set_options(o.substr(cut));
            } else if (!o.empty())
                solver->set_options(o);
            c.note(label, ": ", n, " equations", symmetric ? ", symmetric" : "");
            A.assign(size_t(n) * size_t(n), 0);
            b.assign(size_t(n), 0);
            pattern.clear();
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < (symmetric ? i : n); ++j)
                    if (i != j && g.chance(filled, 5)) {
                        pattern.push_back({ i, j });
                        if (symmetric)
                            pattern.push_back({ j, i });
                    }
            for (int i = 0; i < n; ++i)
                pattern.push_back({ i, i });
            fill(g, c);
        }
        // new values for all entries, diagonally dominant
        void fill(Gen & g, Ctx & c)
        {
            std::vector<double> M(A.size(), 0), f(b.size());
            auto m = [&](int i, int j) -> double & { return M[size_t(i) * size_t(n) + size_t(j)]; };
            for (auto & [i, j] : pattern)
                if (i != j)
                    m(i, j) = symmetric && j > i ? 0 : g.signed_real(0.1, 1);
            if (symmetric)
                for (auto & [i, j] : pattern)
                    if (j > i)
                        m(i, j) = m(j, i);
            for (int i = 0; i < n; ++i) {
                double s = 0.5;
                for (int j = 0; j < n; ++j)
                    s += std::abs(m(i, j));
                m(i, i) = s + g.real(0, 2);
                f[size_t(i)] = g.chance(1, 4) ? double(g.range(-2, 2)) : g.signed_real(0, 5);
            }
            auto order = pattern;
            g.shuffle(order);
            bool adding = g.flip();
            c.note(label, adding ? ": add matrix entries" : ": set matrix entries");
            for (auto & [i, j] : order) {
                double want = m(i, j);
                if (adding) {
                    // in pieces, on top of what is there
                    double piece = (want - at(i, j)) * 0.25;
                    int pieces = g.range(1, 2);
                    if (pieces == 2)
                        system->add_matrix_value(i, j, piece);
                    system->add_matrix_value(i, j, want - at(i, j) - (pieces == 2 ? piece : 0));
                } else {
                    if (g.chance(1, 4))
                        system->insert_matrix_value(i, j, want + 7);
                    system->insert_matrix_value(i, j, want);
                }
            }
            A = M;
            adding = g.flip();
            c.note(label, adding ? ": add to the right-hand side" : ": set the right-hand side");
            for (int i = 0; i < n; ++i) {
                auto & old = b[size_t(i)];
                if (adding) {
                    system->add_rhs_value(i, f[size_t(i)] - old + 1);
                    system->add_rhs_value(i, -1);
                } else {
                    if (g.chance(1, 4))
                        system->insert_rhs_value(i, 99);
                    system->insert_rhs_value(i, f[size_t(i)]);
                }
                old = f[size_t(i)];
            }
        }
        void solve(Ctx & c)
        {
            c.note(label, ": solve");
            solver->solve();
            read(c);
        }
        void read(Ctx & c)
        {
            std::vector<double> want, x(size_t(n), NAN);
            c.check(gauss(A, b, want), "the reference is singular");
            system->get_solution(x);
            double size = 1;
            for (auto v : b)
                size += std::abs(v);
            for (int i = 0; i < n; ++i)
                c.near(x[size_t(i)], want[size_t(i)], tol * size, "solution of equation ", i, " of ", n);
        }
        void end()
        {
            solver->destroy();
            solver.reset();
        }
    };

    void history(Gen & g, Ctx & c)
    {
        start();
        // (options are kept by PETSc under the label)
        static int serial = 0;
        auto label = [&]() { return "s" + std::to_string(serial++) + (g.flip() ? "" : "_x"); };
        std::vector<std::unique_ptr<System>> systems;
        systems.push_back(std::make_unique<System>(g, c, label()));
        int solves = 0;
        for (int step = g.range(1, 8); step > 0; --step) {
            auto & s = *systems[size_t(g.below(int(systems.size())))];
            switch (g.weighted({ 4, 3, 1, 1, 1 })) {
                case 0:
                    s.solve(c);
                    ++solves;
                    break;
                case 1:
                    s.solve(c);
                    s.fill(g, c);
                    s.solve(c);
                    solves += 2;
                    break;
                case 2:
                    if (systems.size() < 3)
                        systems.push_back(std::make_unique<System>(g, c, label()));
                    break;
                case 3:
                    // the other systems keep their solution
                    s.solve(c);
                    for (auto & t : systems)
                        if (t.get() != &s) {
                            t->solve(c);
                            s.read(c);
                        }
                    break;
                default: {
                    c.note(s.label, ": destroy");
                    s.end();
                    s.system = std::make_unique<mp::linear_system_t>(s.label = label());
                    s.begin(g, c);
                }
            }
        }
        for (auto & s : systems)
            s->solve(c);
        for (auto & s : systems)
            s->end();
        if (solves > 1)
            c.nontrivial();
    }

    template <int N, int P, int R>
    void chain(Gen & g, Ctx & c)
    {
        start();
        using S = Space<N, P>;
        using Type = typename S::Type;
        using Rule = mq::quadrature_rule_t<mq::GAUSS, mg::reference_simplex_t<N>, R>;
        // linear elements on segments solve the diffusion equation exactly at the nodes; a
        // projection on the space of what is in it changes nothing
        bool diffusion = N == 1 && g.flip();
        c.note(diffusion ? "diffusion" : "projection");
        S s(g, c, diffusion ? S::BOUNDARY : S::NONE, N == 1 ? 5 : 3);
        auto name = s.names(c);
        auto f = Field<N>::random(g, P);
        auto source = f.mito();
        auto mass = fe::blocks::mass_block<Type, Rule>();
        auto grad = fe::blocks::grad_grad_block<Type, Rule>();
        auto load = fe::blocks::source_term_block<Type, Rule>(source);
        auto form = fe::weakform<Type>();
        if (diffusion)
            form.add_block(grad);
        else
            form.add_block(mass);
        form.add_block(load);
        static int serial = 0;
        auto system = fe::discrete_system<mp::linear_system_t>("c" + std::to_string(serial++), s.fs, form);
        auto solver = mito::solvers::linear_solver<mp::ksp_t>(system);
        solver.set_options("-ksp_type preonly -pc_type cholesky");
        double fb = f.bound(s.body.scale);
        std::vector<double> ends;
        for (auto & l : s.fixed)
            ends.push_back(s.body.nodes.x[size_t(l[0])][0]);
        std::sort(ends.begin(), ends.end());
        auto part = [&](double x) { return -(f.c[0] * x * x / 2 + f.c[1] * x * x * x / 6); };
        for (int run = g.range(1, 2); run > 0; --run) {
            solver.solve();
            for (auto & [node, d] : name) {
                auto p = s.position(d);
                double want;
                if (diffusion) {
                    double x = p[0], a = 0, b = 0;
                    for (size_t i = 0; i + 1 < ends.size(); i += 2)
                        if (ends[i] <= x && x <= ends[i + 1]) {
                            a = ends[i];
                            b = ends[i + 1];
                        }
                    want = part(x) - (part(a) * (b - x) + part(b) * (x - a)) / (b - a);
                } else
                    want = f(p);
                c.near(system.solution()(node), want, 1e-8 * (1 + fb) * s.body.scale * s.body.scale, "solution at ", show(d));
            }
        }
        solver.destroy();
        if (system.n_equations() > 1)
            c.nontrivial();
        c.label(diffusion ? "diffusion" : "projection");
    }
}    // namespace

PROP(systems, 4) { history(g, c); }
PROP(segment_1, 2) { chain<1, 1, 2>(g, c); }
PROP(triangle_1, 1) { chain<2, 1, 2>(g, c); }
PROP(triangle_2, 1) { chain<2, 2, 4>(g, c); }
