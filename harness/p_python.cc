// P01: the Python module: histories of objects made, used and dropped by Python code
#include "pbt.h"
#include "../extensions/mito/mito.cc"
#include <pybind11/embed.h>
#include <set>
#include <filesystem>
#include <fstream>

using namespace pbt;
namespace py = pybind11;
namespace {
    namespace fs = std::filesystem;

    struct Python {
        py::dict & globals = *start();
        static py::dict * start()
        {
            pyre::journal::quiet();
            PyImport_AppendInittab("mito", PyInit_mito);
            // (no site: the interpreter reads nothing of the user's)
            PyConfig config;
            PyConfig_InitIsolatedConfig(&config);
            config.site_import = 0;
            Py_InitializeFromConfig(&config);
            PyConfig_Clear(&config);
            auto * globals = new py::dict;
            (*globals)["__builtins__"] = py::module_::import("builtins");
            py::exec("import mito, gc\n", *globals);
            return globals;
        }
        // the interpreter lives as long as the process
        static Python & get()
        {
            static Python * p = new Python;
            return *p;
        }
    };

    // Python code, whose errors the check sees by their names ("" if there is none)
    struct Session {
        Python & python = Python::get();
        py::dict vars;
        Ctx & c;
        std::string log;
        Session(Ctx & ctx) : c(ctx)
        {
            for (auto item : python.globals)
                vars[item.first] = item.second;
        }
        ~Session()
        {
            vars.clear();
            py::exec("gc.collect()", python.globals);
        }
        std::string run(const std::string & code)
        {
            c.note(code);
            try {
                py::exec(code, vars);
            } catch (py::error_already_set & e) {
                return py::str(e.type().attr("__name__"));
            }
            return "";
        }
        // code that is to succeed
        void ok(const std::string & code)
        {
            auto error = run(code);
            c.check(error.empty(), "Python reports ", error, " for: ", code);
        }
        void fails(const std::string & code, const std::string & with)
        {
            auto error = run(code);
            c.check(error == with, "Python reports '", error, "' instead of '", with, "' for: ", code);
        }
        double value(const std::string & expression)
        {
            ok("_r = " + expression);
            return vars["_r"].cast<double>();
        }
    };

    std::string lit(double x)
    {
        char s[64];
        std::snprintf(s, sizeof s, "%.17g", x);
        return s;
    }
    double number(Gen & g) { return g.chance(1, 3) ? double(g.range(-3, 3)) : g.signed_real(0, 4); }

    template <int N>
    std::string tuple(const std::array<double, N> & x)
    {
        std::string s = "(";
        for (auto v : x)
            s += lit(v) + ",";
        return s + ")";
    }
    template <int N>
    std::array<double, N> numbers(Gen & g)
    {
        std::array<double, N> x;
        for (auto & v : x)
            v = number(g);
        return x;
    }

    template <int N>
    void coordinates(Gen & g, Ctx & c)
    {
        Session s(c);
        std::string type = "mito.Coordinates" + std::to_string(N) + "D";
        int count = g.range(1, 4);
        std::vector<std::array<double, N>> x;
        for (int i = 0; i < count; ++i) {
            auto name = "c" + std::to_string(i);
            if (g.chance(1, 6)) {
                x.push_back({});
                s.ok(name + " = " + type + "()");
            } else {
                x.push_back(numbers<N>(g));
                auto t = tuple<N>(x.back());
                if (g.flip())
                    t = "list(" + t + ")";
                s.ok(name + " = " + type + "(" + t + ")");
            }
        }
        c.nontrivial();
        for (int i = 0; i < count; ++i) {
            auto name = "c" + std::to_string(i);
            for (int k = 0; k < N; ++k)
                c.check(s.value(name + "[" + std::to_string(k) + "]") == x[size_t(i)][size_t(k)], "component ", k, " of coordinates ", i);
        }
        // the components, and nothing else
        auto name = "c" + std::to_string(g.below(count));
        auto beyond = g.flip() ? N + g.range(0, 3) : g.flip() ? -1 - g.range(0, 3) : g.flip() ? 1000000000 : -1000000000;
        s.fails(name + "[" + std::to_string(beyond) + "]", "IndexError");
        s.ok("import itertools" + std::string(g.flip() ? "" : "; gc.collect()"));
        s.ok("_l = list(itertools.islice(" + name + ", 10))");
        c.check(py::len(s.vars["_l"]) == N, "iterating over coordinates gives ", py::len(s.vars["_l"]), " components");
        s.ok("assert _l == [" + name + "[i] for i in range(" + std::to_string(N) + ")]");
        // what is not a set of coordinates
        s.fails(type + "(" + (N == 2 ? "(1,2,3)" : "(1,2)") + ")", "TypeError");
        s.fails(type + "(('a',) * " + std::to_string(N) + ")", "TypeError");
    }

    // a polynomial of degree two at most
    struct Quadratic {
        std::array<double, 6> k;
        long double at(long double x, long double y) const
        {
            return k[0] + k[1] * x + k[2] * y + k[3] * x * x + k[4] * x * y + k[5] * y * y;
        }
        std::string python(const std::string & x) const
        {
            auto t = [&](int i) { return lit(k[size_t(i)]); };
            auto X = x + "[0]", Y = x + "[1]";
            return t(0) + " + " + t(1) + "*" + X + " + " + t(2) + "*" + Y + " + " + t(3) + "*" + X + "*" + X + " + " + t(4)
                 + "*" + X + "*" + Y + " + " + t(5) + "*" + Y + "*" + Y;
        }
    };
    Quadratic quadratic(Gen & g)
    {
        Quadratic q;
        for (auto & v : q.k)
            v = g.chance(1, 4) ? 0 : g.signed_real(0, 2);
        return q;
    }

    template <int N>
    void fields(Gen & g, Ctx & c)
    {
        Session s(c);
        auto n = std::to_string(N);
        std::vector<Quadratic> q;
        int count = g.range(1, 3);
        for (int i = 0; i < count; ++i) {
            q.push_back(quadratic(g));
            auto name = "f" + std::to_string(i), body = q.back().python("x");
            auto type = "mito.ScalarField" + n + "D";
            switch (g.range(0, 2)) {
                case 0: s.ok(name + " = " + type + "(lambda x: " + body + ")"); break;
                case 1: s.ok("def call(x):\n    return " + body + "\n" + name + " = " + type + "(call)\ndel call\n"); break;
                default:
                    s.ok("class Call:\n    def __call__(self, x):\n        return " + body + "\n" + name + " = " + type
                         + "(Call())\ndel Call\n");
            }
            if (g.chance(1, 3))
                s.ok("gc.collect()");
        }
        if (count > 1)
            c.nontrivial();
        for (int k = g.range(1, 5); k > 0; --k) {
            int i = g.below(count);
            auto x = numbers<N>(g);
            double want = double(q[size_t(i)].at(x[0], x[1]));
            double got = s.value("f" + std::to_string(i) + "(mito.Coordinates" + n + "D(" + tuple<N>(x) + "))");
            c.near(got, want, 1e-12 * (1 + 200), "value of field ", i);
        }
        // the coordinates handed to the callable are the caller's to keep
        auto x = numbers<N>(g);
        s.ok("kept = []\nf = mito.ScalarField" + n + "D(lambda x: kept.append(x) or 1)\nfor i in range(3):\n    f(mito.Coordinates"
             + n + "D(" + tuple<N>(x) + "))\ngc.collect()");
        for (int k = 0; k < N; ++k)
            c.check(s.value("kept[1][" + std::to_string(k) + "]") == x[size_t(k)], "the coordinates that a callable keeps");
        // what the callable throws reaches the caller
        s.fails("mito.ScalarField" + n + "D(lambda x: 1 // 0)(mito.Coordinates" + n + "D())", "ZeroDivisionError");
        s.fails("mito.ScalarField" + n + "D(lambda x: {}['a'])(mito.Coordinates" + n + "D())", "KeyError");
        s.fails("mito.ScalarField" + n + "D(3)", "TypeError");
    }

    struct Scratch {
        fs::path dir;
        Scratch()
        {
            std::string t = (fs::temp_directory_path() / "mito_python.XXXXXX").string();
            dir = mkdtemp(t.data());
        }
        ~Scratch()
        {
            std::error_code e;
            fs::remove_all(dir, e);
        }
    };

    using Triangle = std::array<std::array<double, 2>, 3>;
    struct Body {
        std::vector<Triangle> cells;
        long double integral(const Quadratic & q) const
        {
            // the midpoints of the edges integrate polynomials of degree two
            long double r = 0;
            for (auto & t : cells) {
                long double a = ((long double) (t[1][0] - t[0][0])) * (t[2][1] - t[0][1])
                              - ((long double) (t[1][1] - t[0][1])) * (t[2][0] - t[0][0]);
                for (int i = 0; i < 3; ++i) {
                    auto & p = t[size_t(i)];
                    auto & n = t[size_t((i + 1) % 3)];
                    r += a / 6 * q.at(((long double) p[0] + n[0]) / 2, ((long double) p[1] + n[1]) / 2);
                }
            }
            return r;
        }
    };

    // integrals over meshes whose handles come and go
    void integrals(Gen & g, Ctx & c)
    {
        Session s(c);
        Scratch dir;
        struct Thing {
            std::string name;
            std::shared_ptr<Body> body;
        };
        std::vector<Thing> meshes, manifolds, integrators;
        std::vector<std::string> systems;
        std::map<std::string, std::string> home;    // mesh -> its coordinate system
        std::vector<std::pair<std::string, Quadratic>> functions;
        int serial = 0, dropped = 0, integrated = 0;
        auto fresh = [&](const char * kind) { return kind + std::to_string(serial++); };
        auto drop = [&](auto & list) {
            if (list.empty())
                return;
            size_t i = size_t(g.below(int(list.size())));
            if constexpr (requires { list[i].name; })
                s.ok("del " + list[i].name);
            else
                s.ok("del " + list[i]);
            list.erase(list.begin() + long(i));
            ++dropped;
        };
        auto mesh = [&] {
            if (systems.empty())
                return;
            int n = g.range(3, 7);
            std::vector<std::array<double, 2>> x;
            for (int i = 0; i < n; ++i)
                x.push_back(numbers<2>(g));
            auto body = std::make_shared<Body>();
            std::ostringstream f, e;
            std::set<std::set<int>> met;
            for (int i = g.range(0, 5); i > 0; --i) {
                std::vector<int> all;
                for (int k = 0; k < n; ++k)
                    all.push_back(k);
                g.shuffle(all);
                if (!met.insert(std::set<int>(all.begin(), all.begin() + 3)).second)
                    continue;
                body->cells.push_back({ x[size_t(all[0])], x[size_t(all[1])], x[size_t(all[2])] });
                e << "3 " << all[0] + 1 << " " << all[1] + 1 << " " << all[2] + 1 << " 1\n";
            }
            f << "2\n" << n << " " << body->cells.size() << " 1\n";
            for (auto & p : x)
                f << lit(p[0]) << " " << lit(p[1]) << "\n";
            auto name = fresh("mesh");
            auto file = (dir.dir / (name + ".summit")).string();
            std::ofstream(file) << f.str() << e.str();
            auto system = g.pick(systems);
            s.ok(name + " = mito.SimplicialMesh2D('" + file + "', " + system + ")");
            meshes.push_back({ name, body });
            home[name] = system;
        };
        auto manifold = [&] {
            std::vector<Thing> able;
            for (auto & m : meshes)
                if (std::count(systems.begin(), systems.end(), home[m.name]))
                    able.push_back(m);
            if (able.empty())
                return;
            auto m = g.pick(able);
            auto name = fresh("manifold");
            s.ok(name + " = mito.ManifoldTriangle2D(" + m.name + ", " + home[m.name] + ")");
            manifolds.push_back({ name, m.body });
        };
        auto integrator = [&] {
            if (manifolds.empty())
                return;
            auto m = g.pick(manifolds);
            auto name = fresh("integrator");
            s.ok(name + " = mito.GaussIntegrator2Triangle2D(" + m.name + ")");
            integrators.push_back({ name, m.body });
        };
        auto field = [&] {
            auto q = quadratic(g);
            auto name = fresh("field");
            s.ok(name + " = mito.ScalarField2D(lambda x: " + q.python("x") + ")");
            functions.emplace_back(name, q);
        };
        auto integrate = [&] {
            if (integrators.empty() || functions.empty())
                return;
            auto i = g.pick(integrators);
            auto f = g.pick(functions);
            double got = s.value(i.name + ".integrate(" + f.first + ")");
            c.near(got, double(i.body->integral(f.second)), 1e-9, "integral of ", f.first, " by ", i.name);
            integrated += i.body->cells.empty() ? 0 : 1;
        };
        s.ok("system = mito.CoordinateSystem2D()");
        systems.push_back("system");
        mesh(), manifold(), integrator(), field();
        for (int steps = g.range(2, 6 + 2 * g.size()); steps > 0; --steps) {
            switch (g.weighted({ 1, 2, 3, 3, 2, 6, 1, 2, 2, 1, 1, 2, 1 })) {
                case 0:
                    systems.push_back(fresh("system"));
                    s.ok(systems.back() + " = mito.CoordinateSystem2D()");
                    break;
                case 1: mesh(); break;
                case 2: manifold(); break;
                case 3: integrator(); break;
                case 4: field(); break;
                case 5: integrate(); break;
                case 6: drop(systems); break;
                case 7: drop(meshes); break;
                case 8: drop(manifolds); break;
                case 9: drop(integrators); break;
                case 10:
                    if (!functions.empty()) {
                        s.ok("del " + functions.back().first);
                        functions.pop_back();
                    }
                    break;
                case 11: s.ok("gc.collect()"); break;
                default:
                    if (!integrators.empty()) {
                        auto i = g.pick(integrators);
                        s.fails(i.name + ".integrate(mito.ScalarField2D(lambda x: [][1]))", i.body->cells.empty() ? "" : "IndexError");
                    }
            }
        }
        for (auto & i : integrators)
            if (functions.empty())
                break;
            else {
                auto f = g.pick(functions);
                double got = s.value(i.name + ".integrate(" + f.first + ")");
                c.near(got, double(i.body->integral(f.second)), 1e-9, "integral of ", f.first, " by ", i.name);
                integrated += i.body->cells.empty() ? 0 : 1;
            }
        if (dropped && integrated)
            c.nontrivial();
        s.fails("mito.SimplicialMesh2D('" + (dir.dir / "none.summit").string() + "', mito.CoordinateSystem2D())", "RuntimeError");
    }
}

PROP(coordinates_2, 1) { coordinates<2>(g, c); }
PROP(coordinates_3, 1) { coordinates<3>(g, c); }
PROP(fields_2, 1) { fields<2>(g, c); }
PROP(fields_3, 1) { fields<3>(g, c); }
PROP(integrals, 4) { integrals(g, c); }
