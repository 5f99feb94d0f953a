// E03 (function spaces and their fields), E04 with -DPBT_E04 (assembly and solution of discrete
// systems), E05 with -DPBT_E05 (norms)
#include "space.h"

using namespace pbt;
using namespace femx;
namespace {
#if !defined(PBT_E04) && !defined(PBT_E05)
    template <int N, int P>
    void space(Gen & g, Ctx & c)
    {
        using S = Space<N, P>;
        using El = typename S::El;
        S s(g, c);
        auto & fs = s.fs;
        static_assert(S::Fs::degree == P && S::Fs::dim == N);
        c.check(&fs.constraints() == &s.constraints, "the constraints of the space");
        c.check(int(fs.elements().size()) == int(s.body.cells.size()), "number of elements");
        auto name = s.names(c);
        // elements are on the cells
        auto cell = s.body.mesh.cells().begin();
        for (const auto & e : fs.elements()) {
            c.check(&e.cell() == &*cell, "the cell of an element");
            ++cell;
        }
        // all degrees of freedom, once
        auto dofs = s.dofs();
        std::set<Labels> got;
        for (auto & [k, d] : name)
            got.insert(d);
        c.check(got == dofs && name.size() == dofs.size(), "degrees of freedom: ", name.size(), " of ", dofs.size());
        std::set<typename S::Node> listed;
        fe::get_discretization_nodes(fs, listed);
        c.check(listed.size() == name.size(), "discretization nodes listed");
        for (auto & k : listed)
            c.check(name.count(k) == 1, "a discretization node that no element has");
        // the nodes of the mesh
        std::set<int> used;
        for (auto & l : s.body.cells)
            used.insert(l.begin(), l.end());
        c.check(fs.node_map().size() == used.size(), "nodes of the mesh in the map");
        for (auto v : used) {
            auto it = fs.node_map().find(s.body.nodes.n[size_t(v)]);
            c.check(it != fs.node_map().end() && name.count(it->second) && name.at(it->second) == Labels { v },
                    "discretization node of the mesh node ", v);
        }
        // the constraint
        std::set<Labels> fixed;
        for (auto & k : fs.constrained_nodes()) {
            c.check(name.count(k) == 1, "a constrained node that no element has");
            fixed.insert(name.at(k));
        }
        auto want = s.constrained();
        for (auto & d : want)
            c.check(fixed.count(d) == 1, "not constrained: ", show(d));
        for (auto & d : fixed)
            c.check(want.count(d) == 1, "constrained: ", show(d));
        if (!want.empty() && want.size() < dofs.size())
            c.nontrivial();

        // fields
        auto u = fs.template fem_field<double>("u");
        auto w = fs.template fem_field<mt::vector_t<2>>("w");
        c.check(u.nodal_values().size() == int(dofs.size()) && w.nodal_values().size() == int(dofs.size()), "size of a field");
        c.check(u.nodal_values().name() == "u" && w.nodal_values().name() == "w", "name of a field");
        for (auto & [k, v] : u)
            c.check(v == 0.0 && name.count(k), "the field starts at zero on the nodes");
        std::map<Labels, double> model, other;
        double bound = 1;
        for (auto & d : dofs) {
            model[d] = value(g);
            other[d] = value(g);
            bound = std::max(bound, std::abs(model[d]) + std::abs(other[d]));
        }
        if (g.flip()) {
            for (auto & [k, d] : name) {
                u(k) = model[d];
                w(k)[0] = model[d];
                w(k)[1] = other[d];
            }
        } else {
            for (auto & [k, v] : u)
                v = model[name[k]];
            for (auto & [k, v] : w)
                v = mt::vector_t<2> { model[name[k]], other[name[k]] };
        }
        for (auto & [k, d] : name) {
            c.check(std::as_const(u)(k) == model[d], "value of the field at ", show(d));
            c.check(u.nodal_values()(k) == model[d], "nodal value at ", show(d));
            c.check(std::as_const(w)(k)[0] == model[d] && w(k)[1] == other[d], "value of the vector field");
        }
        // between the nodes; from two sides of an edge
        size_t i = 0;
        std::map<Labels, double> seen;
        for (const auto & e : fs.elements()) {
            auto & l = s.body.cells[i++];
            auto p = s.on(l, model), q = s.on(l, other);
            auto lu = fe::localize(u, e);
            auto lw = fe::localize(w, e);
            std::array<double, N + 1> at;
            double sum = 0;
            for (size_t k = 0; k < N; ++k)
                sum += at[k] = g.signed_real(0, 1);
            at[N] = 1 - sum;
            c.near(lu(parametric<N>(at)), p(at), 1e-12 * bound * 10, "field on an element");
            c.near(lw(parametric<N>(at))[0], p(at), 1e-12 * bound * 10, "vector field on an element");
            c.near(lw(parametric<N>(at))[1], q(at), 1e-12 * bound * 10, "vector field on an element");
            if constexpr (N == 2)
                for (int k = 0; k < 3; ++k) {
                    // a point at one third of the edge, from the smaller label
                    int a = k, b = (k + 1) % 3;
                    if (l[size_t(a)] > l[size_t(b)])
                        std::swap(a, b);
                    std::array<double, N + 1> third {};
                    third[size_t(a)] = 2.0 / 3;
                    third[size_t(b)] = 1.0 / 3;
                    double v = lu(parametric<N>(third));
                    auto [it, first] = seen.insert({ Labels { l[size_t(a)], l[size_t(b)] }, v });
                    c.near(v, it->second, 1e-12 * bound * 10, "field from the two sides of ", show(it->first));
                }
        }
        // another space on the same manifold, with a constraint of its own
        if (g.chance(1, 3)) {
            typename S::Domain domain;
            std::set<Labels> held;
            bool some = g.flip();
            if (some)
                for (auto v : used)
                    if (g.chance(1, 3)) {
                        if constexpr (N == 1) {
                            domain.insert(s.body.nodes.n[size_t(v)]);
                            held.insert({ v });
                        }
                    }
            auto bc = mito::constraints::dirichlet_bc(domain, mf::zero<cart<N>>);
            auto fs2 = fe::function_space<typename S::Type>(s.manifold, bc);
            auto name2 = s.names(c, fs2);
            c.check(name2.size() == dofs.size(), "degrees of freedom of another space");
            c.check(fs2.constrained_nodes().size() == held.size(), "constrained nodes of another space");
            for (auto & k : fs2.constrained_nodes())
                c.check(name2.count(k) && held.count(name2.at(k)), "constrained in another space");
            auto u2 = fs2.template fem_field<double>("u2");
            for (auto & [k, d] : name2)
                u2(k) = -model[d] + 7;
            for (auto & [k, d] : name)
                c.check(u(k) == model[d], "the field after that on another space was set");
            for (auto & [k, d] : name2)
                c.check(u2(k) == -model[d] + 7, "the field on another space");
            c.check(fs.constrained_nodes().size() == fixed.size(), "the constraint after another space was made");
            c.label("two spaces");
        }
        // a moved field
        auto moved = std::move(u);
        for (auto & [k, d] : name)
            c.check(moved(k) == model[d], "value of the moved field");
        (void) El::n;
    }
#endif

#ifdef PBT_E04
    // a linear system that keeps everything
    struct Dense {
        std::string label;
        int n = -1;
        std::vector<double> A, b, u;
        int created = 0;
        explicit Dense(const std::string & l) : label(l) {}
        void create(int size)
        {
            ++created;
            n = size;
            A.assign(size_t(n) * size_t(n), 0);
            b.assign(size_t(n), 0);
            u.assign(size_t(n), 0);
        }
        int n_equations() const { return n; }
        double & at(int i, int j)
        {
            if (i < 0 || j < 0 || i >= n || j >= n)
                throw std::runtime_error("entry outside the matrix");
            return A[size_t(i) * size_t(n) + size_t(j)];
        }
        double & at(int i)
        {
            if (i < 0 || i >= n)
                throw std::runtime_error("entry outside the right-hand side");
            return b[size_t(i)];
        }
        void add_matrix_value(int i, int j, double v) { at(i, j) += v; }
        void insert_matrix_value(int i, int j, double v) { at(i, j) = v; }
        void add_rhs_value(int i, double v) { at(i) += v; }
        void insert_rhs_value(int i, double v) { at(i) = v; }
        void get_solution(std::vector<double> & x) const { x = u; }
    };
    struct DenseSolver {
        Dense & system;
        std::string options;
        int created = 0, destroyed = 0, solved = 0;
        static inline DenseSolver * last = nullptr;
        explicit DenseSolver(Dense & s) : system(s) { last = this; }
        void create() { ++created; }
        void destroy() { ++destroyed; }
        void set_options(const std::string & o) { options += o; }
        void print() const {}
        void solve()
        {
            ++solved;
            if (!gauss(system.A, system.b, system.u))
                system.u.assign(system.b.size(), NAN);
        }
    };

    // blocks that are not mito's: any entries (not symmetric, some of them zero)
    inline double entry(int seed, int a, int b, double x, double y)
    {
        unsigned h = unsigned(seed) * 2654435761u + unsigned(a) * 40503u + unsigned(b) * 9176u;
        h ^= h >> 13;
        h *= 2246822519u;
        h ^= h >> 11;
        return h % 4 == 0 ? 0 : (double(h % 1000) / 250 - 2) * (1 + x) + y;
    }
    template <class E, int N>
    struct AnyMatrix : fe::blocks::assembly_block_t<E, mt::matrix_t<E::n_nodes>> {
        int seed;
        const sys_t<N> & sys;
        AnyMatrix(int s, const sys_t<N> & y) : seed(s), sys(y) {}
        auto compute(const E & e) const -> mt::matrix_t<E::n_nodes> override
        {
            mt::matrix_t<E::n_nodes> m;
            auto x = sys.coordinates(e.cell().nodes()[0]->point())[0];
            auto y = sys.coordinates(e.cell().nodes()[1]->point())[N - 1];
            for (int a = 0; a < E::n_nodes; ++a)
                for (int b = 0; b < E::n_nodes; ++b)
                    m[{ a, b }] = entry(seed, a, b, x, y);
            return m;
        }
    };
    template <class E, int N>
    struct AnyVector : fe::blocks::assembly_block_t<E, mt::vector_t<E::n_nodes>> {
        int seed;
        const sys_t<N> & sys;
        AnyVector(int s, const sys_t<N> & y) : seed(s), sys(y) {}
        auto compute(const E & e) const -> mt::vector_t<E::n_nodes> override
        {
            mt::vector_t<E::n_nodes> v;
            auto x = sys.coordinates(e.cell().nodes()[0]->point())[0];
            auto y = sys.coordinates(e.cell().nodes()[1]->point())[N - 1];
            for (int a = 0; a < E::n_nodes; ++a)
                v[{ a }] = entry(seed, a, 99, x, y);
            return v;
        }
    };

    template <int N, int P, int R>
    struct Problem : Space<N, P> {
        using S = Space<N, P>;
        using typename S::El;
        using typename S::Type;
        using Rule = mq::quadrature_rule_t<mq::GAUSS, mg::reference_simplex_t<N>, R>;
        using S::S;

        double integral(const Placed<N> & t, const Poly<N> & p, int degree) const
        {
            if (degree <= R)
                return t.integral(p);
            double sum = 0;
            auto rule = Rule();
            for (int q = 0; q < Rule::npoints; ++q)
                sum += rule.weight(q) * p(El::barycentric(rule.point(q)));
            return sum * t.size();
        }
        // the matrix and the right-hand side over all degrees of freedom
        void reference(double m, double k, double l, const Field<N> & f, const std::map<Labels, int> & index,
                       std::vector<double> & A, std::vector<double> & b, std::vector<double> & scale) const
        {
            size_t n = index.size();
            A.assign(n * n, 0);
            b.assign(n, 0);
            scale.assign(n, 0);
            for (auto & cell : this->body.cells) {
                auto t = this->placed(cell);
                for (int i = 0; i < El::n; ++i) {
                    auto I = size_t(index.at(S::dof(cell, i)));
                    auto gi = t.gradient(El::shape(i));
                    scale[I] += t.size() * (m + k * 40 / (t.size() * t.size()) * std::pow(t.diameter(), N == 1 ? 0 : 2));
                    b[I] += l * integral(t, El::shape(i) * f.on(t), P + f.degree);
                    for (int j = 0; j < El::n; ++j) {
                        auto J = size_t(index.at(S::dof(cell, j)));
                        if (m != 0)
                            A[I * n + J] += m * integral(t, El::shape(i) * El::shape(j), 2 * P);
                        if (k != 0) {
                            auto gj = t.gradient(El::shape(j));
                            Poly<N> p;
                            for (size_t d = 0; d < N; ++d)
                                p = p + gi[d] * gj[d];
                            A[I * n + J] += k * integral(t, p, 2 * P - 2);
                        }
                    }
                }
            }
        }
        Placed<N> placed(const Labels & l) const { return this->body.placed(l); }
    };

    template <int N, int P, int R>
    void assembly(Gen & g, Ctx & c)
    {
        using Pr = Problem<N, P, R>;
        using Type = typename Pr::Type;
        Pr s(g, c, Pr::ANY, 2);
        auto name = s.names(c);
        auto fixed = s.constrained();
        auto f = Field<N>::random(g, g.range(0, 2));
        auto source = f.mito();
        auto mass = fe::blocks::mass_block<Type, typename Pr::Rule>();
        auto grad = fe::blocks::grad_grad_block<Type, typename Pr::Rule>();
        auto load = fe::blocks::source_term_block<Type, typename Pr::Rule>(source);
        auto form = fe::weakform<Type>();
        AnyMatrix<Type, N> matrix(g.range(0, 1000), s.body.nodes.sys);
        AnyVector<Type, N> vector(g.range(0, 1000), s.body.nodes.sys);
        int m = 0, k = 0, l = 0, am = 0, av = 0;
        auto add = [&]() {
            switch (g.weighted({ 3, 3, 3, 2, 1 })) {
                case 3:
                    form.add_block(matrix);
                    ++am;
                    break;
                case 4:
                    form.add_block(vector);
                    ++av;
                    break;
                case 0:
                    form.add_block(mass);
                    ++m;
                    break;
                case 1:
                    form.add_block(grad);
                    ++k;
                    break;
                default:
                    form.add_block(load);
                    ++l;
            }
        };
        for (int i = g.range(0, 3); i > 0; --i)
            add();
        auto system = fe::discrete_system<Dense>("system", s.fs, form);
        // (blocks that come after the system)
        for (int i = g.range(0, 2); i > 0; --i)
            add();
        c.note("masses ", m, " grad-grad ", k, " sources ", l, " degree ", f.degree, " other matrices ", am, " other vectors ", av);
        // another system on the same space
        auto form2 = fe::weakform<Type>();
        form2.add_block(matrix);
        bool second = g.chance(1, 3);
        auto system2 = fe::discrete_system<Dense>("another", s.fs, form2);
        if (second)
            system2.assemble();

        int free = 0;
        for (auto & [node, d] : name)
            free += fixed.count(d) == 0;
        auto & linear = system.linear_system();
        c.check(system.n_equations() == free, "equations: ", system.n_equations(), " for ", free, " free nodes");
        c.check(linear.n == free && linear.created == 1 && linear.label == "system", "the linear system");
        c.check(system.solution().nodal_values().name() == "system.solution", "name of the solution");
        system.assemble();

        // which equation is which: the values of the solution
        for (int i = 0; i < free; ++i)
            linear.u[size_t(i)] = 100 + i;
        system.read_solution();
        std::map<Labels, int> index;
        std::vector<int> hits(size_t(free), 0);
        std::map<Labels, int> eq;
        for (auto & [node, d] : name) {
            index.insert({ d, int(index.size()) });
            double v = system.solution()(node);
            if (fixed.count(d)) {
                c.check(v == 0, "the solution at the constrained ", show(d), " is ", v);
                continue;
            }
            int i = int(v) - 100;
            c.check(i >= 0 && i < free && v == i + 100, "the solution at ", show(d), " is ", v);
            ++hits[size_t(i)];
            eq[d] = i;
        }
        for (auto h : hits)
            c.check(h == 1, "an equation for ", h, " nodes");

        std::vector<double> A, b, scale;
        s.reference(m, k, l, f, index, A, b, scale);
        double fb = f.bound(s.body.scale);
        std::vector<double> M(A.size(), 0);
        double big = 0;
        for (auto & cell : s.body.cells) {
            double x = s.body.nodes.x[size_t(cell[0])][0], y = s.body.nodes.x[size_t(cell[1])][N - 1];
            for (int a = 0; a < Pr::n; ++a) {
                auto at = size_t(index.at(Pr::dof(cell, a)));
                b[at] += av * entry(vector.seed, a, 99, x, y);
                for (int o = 0; o < Pr::n; ++o) {
                    auto v = entry(matrix.seed, a, o, x, y);
                    M[at * index.size() + size_t(index.at(Pr::dof(cell, o)))] += v;
                    big += std::abs(v);
                }
            }
        }
        for (size_t i = 0; i < A.size(); ++i)
            A[i] += am * M[i];
        if (second) {
            auto & other = system2.linear_system();
            c.check(system2.n_equations() == free && other.n == free && other.label == "another", "the other system");
            for (int i = 0; i < free; ++i)
                other.u[size_t(i)] = 500 + i;
            system2.read_solution();
            std::map<Labels, int> eq2;
            for (auto & [node, d] : name) {
                if (fixed.count(d))
                    continue;
                eq2[d] = int(system2.solution()(node)) - 500;
                c.check(eq2[d] >= 0 && eq2[d] < free, "the solution of the other system");
                c.check(system.solution()(node) == 100 + eq[d], "the solution after that of another system was read");
            }
            for (auto & [d, i] : eq2) {
                c.check(other.at(i) == 0, "the right-hand side of the other system");
                for (auto & [e, j] : eq2)
                    c.near(other.at(i, j), M[size_t(index[d]) * index.size() + size_t(index[e])], 1e-13 * big, "the matrix of the other system");
            }
        }
        for (auto & [d, i] : eq) {
            c.near(linear.b[size_t(i)], b[size_t(index[d])], 1e-11 * fb * std::pow(s.body.scale, N) * 10 * (1 + l) + 1e-12 * av * (1 + s.body.scale) * s.body.cells.size(), "right-hand side of ", show(d));
            for (auto & [e, j] : eq)
                c.near(linear.at(i, j), A[size_t(index[d]) * index.size() + size_t(index[e])],
                       1e-11 * (scale[size_t(index[d])] + scale[size_t(index[e])]) + 1e-13 * am * big, "matrix entry of ", show(d), " and ", show(e));
        }
        // reading other solutions
        for (int again = g.range(0, 2); again > 0; --again) {
            for (auto & [d, i] : eq)
                linear.u[size_t(i)] = g.flip() ? 0 : g.signed_real(0.1, 9);
            system.read_solution();
            for (auto & [node, d] : name)
                c.check(system.solution()(node) == (fixed.count(d) ? 0 : linear.u[size_t(eq[d])]), "the solution read again at ", show(d));
        }
        if (free > 1 && m + k > 0 && l > 0)
            c.nontrivial();
        c.label(fixed.empty() ? "unconstrained" : "constrained");
    }

    // solutions that are known
    template <int N, int P, int R>
    void solution(Gen & g, Ctx & c)
    {
        using Pr = Problem<N, P, R>;
        using Type = typename Pr::Type;
        enum { PROJECTION, POISSON, REACTION };
        int what = g.range(0, 2);
        c.note(what == PROJECTION ? "projection" : what == POISSON ? "diffusion" : "reaction and diffusion");
        Pr s(g, c, what == PROJECTION ? Pr::NONE : what == POISSON ? Pr::BOUNDARY : Pr::ANY, N == 1 ? 4 : 2);
        auto name = s.names(c);
        auto fixed = s.constrained();
        auto f = Field<N>::random(g, what == PROJECTION ? P : g.range(0, N == 1 && what == POISSON ? 1 : 2));
        auto source = f.mito();
        auto mass = fe::blocks::mass_block<Type, typename Pr::Rule>();
        auto grad = fe::blocks::grad_grad_block<Type, typename Pr::Rule>();
        auto load = fe::blocks::source_term_block<Type, typename Pr::Rule>(source);
        auto form = fe::weakform<Type>();
        if (what != POISSON)
            form.add_block(mass);
        if (what != PROJECTION)
            form.add_block(grad);
        form.add_block(load);
        auto system = fe::discrete_system<Dense>("system", s.fs, form);
        auto solver = mito::solvers::linear_solver<DenseSolver>(system);
        auto & inner = *DenseSolver::last;
        c.check(inner.created == 1, "the solver is created");
        if (g.flip()) {
            solver.set_options("-abc");
            c.check(inner.options == "-abc", "options of the solver");
        }
        double fb = f.bound(s.body.scale);
        int runs = g.range(1, 2);
        for (int run = 0; run < runs; ++run) {
            solver.solve();
            c.check(inner.solved == run + 1, "the solver is used");
            auto & u = system.solution();
            // what it should be
            std::map<Labels, double> want;
            if (what == PROJECTION) {
                for (auto & [node, d] : name)
                    want[d] = f(s.position(d));
            } else if (N == 1 && what == POISSON) {
                // linear elements are exact at the nodes: on each connected part
                std::vector<double> ends;
                for (auto & l : s.fixed)
                    ends.push_back(s.body.nodes.x[size_t(l[0])][0]);
                std::sort(ends.begin(), ends.end());
                c.check(ends.size() % 2 == 0, "ends");
                auto part = [&](double x) { return -(f.c[0] * x * x / 2 + f.c[1] * x * x * x / 6); };
                for (auto & [node, d] : name) {
                    double x = s.position(d)[0], a = 0, b = 0;
                    for (size_t i = 0; i < ends.size(); i += 2)
                        if (ends[i] <= x && x <= ends[i + 1]) {
                            a = ends[i];
                            b = ends[i + 1];
                        }
                    want[d] = part(x) - (part(a) * (b - x) + part(b) * (x - a)) / (b - a);
                }
            } else {
                std::map<Labels, int> index;
                for (auto & [node, d] : name)
                    index.insert({ d, int(index.size()) });
                std::vector<double> A, b, scale, x;
                s.reference(what == REACTION, 1, 1, f, index, A, b, scale);
                size_t n = index.size();
                for (auto & [d, i] : index)
                    if (fixed.count(d)) {
                        for (size_t j = 0; j < n; ++j)
                            A[size_t(i) * n + j] = A[j * n + size_t(i)] = 0;
                        A[size_t(i) * n + size_t(i)] = 1;
                        b[size_t(i)] = 0;
                    }
                if (!gauss(A, b, x))
                    c.discard();
                for (auto & [d, i] : index)
                    want[d] = x[size_t(i)];
            }
            for (auto & [node, d] : name)
                c.near(u(node), want[d], 1e-8 * fb * (N == 1 ? s.body.scale * s.body.scale : 1), "solution at ", show(d));
        }
        if (system.n_equations() > 1 && fb > 0)
            c.nontrivial();
        solver.destroy();
        c.check(inner.destroyed == 1, "the solver is destroyed");
        c.label(what == PROJECTION ? "projection" : what == POISSON ? "diffusion" : "reaction");
    }
#endif

#ifdef PBT_E05
    template <int N, int P, int R>
    void norms(Gen & g, Ctx & c)
    {
        using S = Space<N, P>;
        using El = typename S::El;
        using Rule = mq::quadrature_rule_t<mq::GAUSS, mg::reference_simplex_t<N>, R>;
        S s(g, c, S::ANY, 2);
        auto name = s.names(c);
        auto dofs = s.dofs();
        std::map<Labels, double> m1, m2;
        for (auto & d : dofs) {
            m1[d] = value(g);
            m2[d] = value(g);
        }
        auto u1 = s.fs.template fem_field<double>("u1"), u2 = s.fs.template fem_field<double>("u2");
        for (auto & [k, d] : name) {
            u1(k) = m1[d];
            u2(k) = m2[d];
        }
        auto f1 = Field<N>::random(g, 2), f2 = Field<N>::random(g, 2);
        // how far from degenerate the elements are
        double h = 1e9, worse = 1;
        for (auto & l : s.body.cells) {
            auto t = s.body.placed(l);
            h = std::min(h, t.diameter());
            worse = std::max(worse, std::pow(t.diameter(), N) / t.det());
        }
        double bound = 10 + f1.bound(s.body.scale) + f2.bound(s.body.scale);
        auto square = [&](auto && on, bool gradients) {
            double sum = 0;
            auto rule = Rule();
            int cell = 0;
            for (auto & l : s.body.cells) {
                auto t = s.body.placed(l);
                auto p = on(l, t);
                auto integral = [&](const Poly<N> & q, int degree) {
                    if (degree <= R)
                        return t.integral(q);
                    double w = 0;
                    for (int i = 0; i < Rule::npoints; ++i)
                        w += rule.weight(i) * q(El::barycentric(rule.point(i)));
                    return w * t.size();
                };
                // (degrees: fields have degree two)
                sum += integral(p * p, 4);
                if (gradients)
                    for (auto & d : t.gradient(p))
                        sum += integral(d * d, 2);
                ++cell;
            }
            return sum;
        };
        double volume = 0;
        for (auto & l : s.body.cells)
            volume += s.body.placed(l).size();
        auto compare = [&](const auto & a, const auto & b, auto && on, const char * what) {
            double l2 = square(on, false), h1 = square(on, true);
            double got = fe::compute_l2_norm<Rule>(s.fs, a, b);
            c.near(got * got, l2, 1e-11 * bound * bound * volume, "square of the L2 norm, ", what);
            c.near(fe::compute_l2_norm<Rule>(s.fs, b, a), got, 1e-11 * bound * (1 + volume), "L2 norm the other way, ", what);
            double got1 = fe::compute_h1_norm<Rule>(s.fs, a, b);
            c.near(got1 * got1, h1, 1e-10 * bound * bound * volume * (1 + worse * worse / (h * h)), "square of the H1 norm, ", what);
            c.check(got >= 0 && got1 >= got, "norms are not negative, H1 is not below L2");
            if (l2 > 0)
                c.nontrivial();
        };
        auto d1 = [&](const Labels & l, const Placed<N> &) { return s.on(l, m1); };
        auto d2 = [&](const Labels & l, const Placed<N> &) { return s.on(l, m2); };
        switch (g.range(0, 3)) {
            case 0:
                compare(u1, u2, [&](auto & l, auto & t) { return d1(l, t) - d2(l, t); }, "of two finite element fields");
                break;
            case 1:
                compare(u1, f1.mito(), [&](auto & l, auto & t) { return d1(l, t) - f1.on(t); }, "of a finite element field and a field");
                break;
            case 2:
                compare(f1.mito(), f2.mito(), [&](auto & l, auto & t) { return f1.on(t) - f2.on(t); }, "of two fields");
                break;
            default: {
                // fields of the space itself: no distance
                auto f = Field<N>::random(g, P);
                for (auto & [k, d] : name)
                    u1(k) = f(s.position(d));
                c.near(fe::compute_l2_norm<Rule>(s.fs, u1, f.mito()), 0, 1e-10 * (1 + f.bound(s.body.scale)) * (1 + volume), "L2 norm of zero");
                c.near(fe::compute_h1_norm<Rule>(s.fs, u1, f.mito()), 0, 1e-10 * (1 + f.bound(s.body.scale)) * (1 + volume) * (1 + worse / h), "H1 norm of zero");
                c.near(fe::compute_h1_norm<Rule>(s.fs, u2, u2), 0, 1e-300, "H1 distance to itself");
                c.nontrivial();
            }
        }
        c.label(s.body.cells.size() > 1 ? "several cells" : "one cell");
    }
#endif
}    // namespace

#if defined(PBT_E04)
PROP(assembly_segment_1, 1) { assembly<1, 1, 2>(g, c); }
PROP(assembly_triangle_1, 1) { assembly<2, 1, 2>(g, c); }
PROP(assembly_triangle_2, 1) { assembly<2, 2, 4>(g, c); }
PROP(assembly_triangle_2_reduced, 1) { assembly<2, 2, 2>(g, c); }
PROP(solution_segment_1, 1) { solution<1, 1, 2>(g, c); }
PROP(solution_triangle_1, 1) { solution<2, 1, 2>(g, c); }
PROP(solution_triangle_2, 1) { solution<2, 2, 4>(g, c); }
#elif defined(PBT_E05)
PROP(norms_segment_1, 1) { norms<1, 1, 2>(g, c); }
PROP(norms_segment_1_rule_1, 1) { norms<1, 1, 1>(g, c); }
PROP(norms_triangle_1, 1) { norms<2, 1, 2>(g, c); }
PROP(norms_triangle_1_rule_4, 1) { norms<2, 1, 4>(g, c); }
PROP(norms_triangle_2, 1) { norms<2, 2, 4>(g, c); }
PROP(norms_triangle_2_rule_2, 1) { norms<2, 2, 2>(g, c); }
#else
PROP(segment_1, 1) { space<1, 1>(g, c); }
PROP(triangle_1, 1) { space<2, 1>(g, c); }
PROP(triangle_2, 2) { space<2, 2>(g, c); }
#endif
