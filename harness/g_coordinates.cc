// G01: sets of coordinates, their algebra and the systems of coordinates of points
#include "coords.h"
#include <sstream>

using namespace pbt;
using namespace coords;

namespace {
    // coordinates in some unit, on any turn, also next to the poles
    double some_unit(Gen & g) { return g.chance(1, 3) ? std::pow(10.0, g.range(-9, 9)) : 1.0; }
    template <class X>
    X anywhere(Gen & g, bool regular, double unit)
    {
        auto x = somewhere<X>(g, regular);
        mt::vector_t<X::dim> v;
        for (int i = 0; i < X::dim; ++i)
            v[i] = x[i];
        if constexpr (std::is_same_v<X, mg::polar_coordinates_t> || std::is_same_v<X, mg::spherical_coordinates_t>) {
            v[0] *= unit;
            if (g.chance(1, 6))
                v[X::dim - 1] += 2 * pi * g.range(-3, 3);
            if constexpr (X::dim == 3)
                if (g.chance(1, 8)) {
                    v[1] = std::pow(10.0, -g.real(1, 6));
                    if (g.flip())
                        v[1] = pi - v[1];
                }
        } else
            for (int i = 0; i < X::dim; ++i)
                v[i] *= unit;
        return X(v);
    }

    template <class X>
    void algebra(Gen & g, Ctx & c)
    {
        double unit = some_unit(g);
        auto a = anywhere<X>(g, true, unit), b = g.chance(1, 10) ? a : anywhere<X>(g, false, unit);
        // (now and then of another size)
        if (g.chance(1, 8))
            b = anywhere<X>(g, false, some_unit(g));
        // (or next to one another)
        else if (g.chance(1, 10)) {
            mt::vector_t<X::dim> v;
            for (int i = 0; i < X::dim; ++i)
                v[i] = a[i] * (1 + g.signed_real(0, 1e-7));
            b = X(v);
        }
        c.note("A = ", show(a), ", B = ", show(b));
        P3 pa = position(a), pb = position(b);
        double tol = 1e-11 * (norm(pa) + norm(pb));
        if (norm(sub(pa, pb)) > 0)
            c.nontrivial();
        // B - A, a vector stemming from A
        auto d = b - a;
        auto want = vec<X>(sub(pb, pa), frame(a));
        for (int i = 0; i < X::dim; ++i)
            c.near(d[i], want[i], tol, "component ", i, " of B - A");
        // A + (B - A)
        same(c, position(a + d), pb, tol, "A + (B - A)");
        // A + v
        P3 v { 0, 0, 0 };
        for (int i = 0; i < X::dim; ++i)
            v[size_t(i)] = unit * (g.chance(1, 4) ? double(g.range(-2, 2)) : g.signed_real(0, 4));
        if constexpr (X::dim == 2 || X::dim == 1)
            v[2] = 0;
        auto va = vec<X>(v, frame(a));
        auto e = a + va;
        P3 pe { pa[0] + v[0], pa[1] + v[1], pa[2] + v[2] };
        same(c, position(e), pe, tol + 1e-11 * norm(v), "A + v");
        // the coordinates of the sum are proper ones
        if constexpr (!std::is_same_v<X, mg::coordinates_t<X::dim, mg::CARTESIAN>>)
            c.check(e[0] > -tol, "the radius of A + v is positive");
        if constexpr (std::is_same_v<X, mg::spherical_coordinates_t>)
            if (norm(pe) > 1e-3 * (norm(pa) + norm(v)))
                c.check(e[1] > -1e-9 && e[1] < pi + 1e-9, "the colatitude of A + v is between 0 and pi");
        X f = a;
        auto & ref = (f += va);
        c.check(&ref == &f, "+= returns its operand");
        c.check(f == e, "A += v gives A + v");
        // zero vector
        auto z = a - a;
        for (int i = 0; i < X::dim; ++i)
            c.near(z[i], 0, tol, "A - A");
        same(c, position(a + z), pa, tol, "A + 0");
        // distance
        c.near(mg::distance(b, a), norm(sub(pb, pa)), tol, "distance");
        // equality, copies
        X copy = a;
        c.check(copy == a && !(copy == b) == (position(a) != position(b) || !(a == b)), "equality");
        bool eq = true;
        for (int i = 0; i < X::dim; ++i)
            eq = eq && a[i] == b[i];
        c.check((a == b) == eq && (a != b) == !eq, "equality is equality of the components");
        c.check(int(a < b) + int(b < a) + int(eq) == 1, "order: exactly one of <, >, ==");
        auto o = somewhere<X>(g, false);
        if (a < b && b < o)
            c.check(a < o, "the order is transitive");
        X assigned = b;
        assigned = a;
        c.check(assigned == a, "assignment");
        c.check(X {} == X {}, "default coordinates");
        for (int i = 0; i < X::dim; ++i)
            c.check(X {}[i] == 0.0, "default coordinates are zero");
    }

    template <class X, class Y>
    void transform(Gen & g, Ctx & c)
    {
        // from Y (curvilinear) to X (cartesian) and back
        auto y = anywhere<Y>(g, false, some_unit(g));
        c.note("transform ", show(y));
        c.nontrivial();
        auto x = mg::transform_coordinates<X>(y);
        same(c, position(x), position(y), 2e-12 * std::abs(y[0]), "to cartesian");
        auto back = mg::transform_coordinates<Y>(x);
        same(c, position(back), position(y), 2e-12 * std::abs(y[0]), "to cartesian and back");
        c.near(back[0], y[0], 1e-12 * y[0], "radius");
        if constexpr (X::dim == 3)
            if (y[0] > 0)
                c.near(back[1], y[1], 1e-7, "colatitude");
        auto p = anywhere<X>(g, false, some_unit(g));
        auto q = mg::transform_coordinates<Y>(p);
        double tol = 2e-12 * norm(position(p));
        same(c, position(q), position(p), tol, "from cartesian");
        same(c, position(mg::transform_coordinates<X>(q)), position(p), tol, "from cartesian and back");
        c.check(q[0] >= 0, "the radius is not negative");
        c.check(std::abs(q[X::dim - 1]) <= pi * (1 + 1e-15), "the azimuth is within half a turn");
        if constexpr (X::dim == 3)
            c.check(q[1] >= 0 && q[1] <= pi * (1 + 1e-15), "the colatitude is between 0 and pi");
        // the distance does not depend on the coordinates
        auto ya = anywhere<Y>(g, true, g.flip() ? 1.0 : std::max(y[0], 1e-9));
        c.near(mg::distance(y, ya),
               mg::distance(mg::transform_coordinates<X>(y), mg::transform_coordinates<X>(ya)),
               1e-11 * (y[0] + ya[0]), "distance before and after");
    }

    template <class X>
    void components(Gen & g, Ctx & c)
    {
        auto x = somewhere<X>(g, false);
        c.note("components of ", show(x));
        c.nontrivial();
        if constexpr (std::is_same_v<X, mg::polar_coordinates_t>) {
            c.check(mg::polar::r(x) == x[0] && mg::polar::theta(x) == x[1], "polar components");
            auto lit = mg::polar::coordinates({ x[0], x[1] });
            c.check(lit == x, "polar coordinates from a list");
            auto er = mg::polar::e_r(x), et = mg::polar::e_theta(x);
            c.check(er[0] == 1 && er[1] == 0 && et[0] == 0, "polar basis");
            c.near(et[1], x[0], 0, "length of e_theta");
        } else if constexpr (std::is_same_v<X, mg::spherical_coordinates_t>) {
            c.check(mg::spherical::r(x) == x[0] && mg::spherical::theta(x) == x[1]
                        && mg::spherical::phi(x) == x[2], "spherical components");
            auto lit = mg::spherical::coordinates({ x[0], x[1], x[2] });
            c.check(lit == x, "spherical coordinates from a list");
            auto er = mg::spherical::e_r(x), et = mg::spherical::e_theta(x), ep = mg::spherical::e_phi(x);
            c.check(er[0] == 1 && er[1] == 0 && er[2] == 0, "e_r");
            c.check(et[0] == 0 && et[2] == 0 && ep[0] == 0 && ep[1] == 0, "spherical basis");
            c.near(et[1], x[0], 0, "length of e_theta");
            c.near(ep[2], x[0] * std::sin(x[1]), 1e-14 * (1 + x[0]), "length of e_phi");
        } else {
            constexpr int D = X::dim;
            c.check(mg::cartesian::x_0<D>(x) == x[0], "first component");
            auto e0 = mg::cartesian::e_0<D>(x);
            for (int i = 0; i < D; ++i)
                c.check(e0[i] == (i == 0), "first basis vector");
            if constexpr (D > 1) {
                c.check(mg::cartesian::x_1<D>(x) == x[1], "second component");
                auto e1 = mg::cartesian::e_1<D>(x);
                for (int i = 0; i < D; ++i)
                    c.check(e1[i] == (i == 1), "second basis vector");
                c.check(mito::functions::component<X, 1>(x) == x[1], "component 1");
            }
            if constexpr (D > 2) {
                c.check(mg::cartesian::x_2<D>(x) == x[2], "third component");
                auto e2 = mg::cartesian::e_2<D>(x);
                for (int i = 0; i < D; ++i)
                    c.check(e2[i] == (i == 2), "third basis vector");
                auto lit = mg::cartesian::coordinates({ x[0], x[1], x[2] });
                c.check(lit == x, "coordinates from a list");
                c.check(X(x[0], x[1], x[2]) == x, "coordinates from numbers");
            }
            if constexpr (D == 2) {
                auto lit = mg::cartesian::coordinates({ x[0], x[1] });
                c.check(lit == x, "coordinates from a list");
                c.check(X(x[0], x[1]) == x, "coordinates from numbers");
            }
        }
        // printing
        std::ostringstream os;
        os << x;
        std::istringstream is(os.str());
        std::string w;
        is >> w;
        c.check(w == "(", "printed coordinates open with a parenthesis");
        for (int i = 0; i < X::dim; ++i) {
            is >> w;
            c.near(std::stod(w), x[i], 1e-5 * (1 + std::abs(x[i])), "printed component");
        }
        is >> w;
        c.check(w == ")", "printed coordinates close with a parenthesis");
    }

    // coordinate systems: a model-based history of placing and reading
    template <class X>
    void system(Gen & g, Ctx & c)
    {
        constexpr int D = X::dim;
        auto sys = mg::coordinate_system<X>();
        auto & cloud = mg::point_cloud<D>();
        std::vector<std::pair<mg::point_t<D>, X>> model;
        int before = cloud.size();
        int n = int(g.range(0, 4 * g.size()));
        for (int i = 0; i < n; ++i) {
            auto x = somewhere<X>(g, true);
            switch (g.range(0, 3)) {
                case 0: {
                    auto node = mg::node(sys, x);
                    c.check(node->point().references() >= 2, "the node shares its point");
                    model.push_back({ node->point(), x });
                    break;
                }
                default: {
                    auto p = cloud.point();
                    sys.place(p, x);
                    model.push_back({ p, x });
                }
            }
        }
        if (n > 1)
            c.nontrivial();
        c.note(n, " points in ", D, " dimensions");
        c.check(cloud.size() == before + n, "every point is a new one: ", cloud.size() - before, " for ", n);
        for (size_t i = 0; i < model.size(); ++i) {
            c.check(sys.coordinates(model[i].first) == model[i].second, "coordinates of point ", i);
            for (size_t j = 0; j < i; ++j)
                if (model[i].first == model[j].first)
                    c.check(false, "points ", i, " and ", j, " are the same");
        }
        // traversal
        std::map<decltype(mg::point_t<D>().id()), int> met;
        for (const auto & [p, x] : sys) {
            c.check(x == sys.coordinates(p), "coordinates met by traversal");
            c.check(++met[p.id()] == 1, "a point is met twice");
        }
        c.check(met.size() == model.size(), "the traversal meets every point");
        for (int i = 0; i < D; ++i)
            c.check(sys.origin()[i] == 0.0, "origin");
        // midpoints and distances
        for (int k = 0; k < 5 && n > 0; ++k) {
            auto & a = g.pick(model);
            auto & b = g.pick(model);
            P3 pa = position(a.second), pb = position(b.second);
            double tol = 1e-11 * (1 + norm(pa) + norm(pb));
            // a direct line through the origin has no midpoint in these coordinates
            auto m = sys.midpoint(a.first, b.first);
            same(c, position(m), { (pa[0] + pb[0]) / 2, (pa[1] + pb[1]) / 2, (pa[2] + pb[2]) / 2 },
                 tol, "midpoint");
            c.near(mg::distance<D>(a.first, b.first, sys), norm(sub(pa, pb)), tol, "distance of points");
        }
        // change of coordinates
        auto changed = [&]<class Y>() {
            auto other = mg::coordinate_system<Y>(sys);
            size_t count = 0;
            for (const auto & [p, y] : other)
                ++count;
            c.check(count == model.size(), "all points are there after a change of coordinates");
            for (auto & [p, x] : model)
                same(c, position(other.coordinates(p)), position(x), 1e-12 * (1 + norm(position(x))),
                     "position after a change of coordinates");
        };
        if constexpr (std::is_same_v<X, mg::polar_coordinates_t>)
            changed.template operator()<mg::cartesian_coordinates_t<2>>();
        else if constexpr (std::is_same_v<X, mg::spherical_coordinates_t>)
            changed.template operator()<mg::cartesian_coordinates_t<3>>();
        else if constexpr (D == 2)
            changed.template operator()<mg::polar_coordinates_t>();
        else if constexpr (D == 3)
            changed.template operator()<mg::spherical_coordinates_t>();
        // the same points may be placed in another system
        {
            auto other = mg::coordinate_system<X>();
            for (auto & [p, x] : model)
                other.place(p, X {});
            for (auto & [p, x] : model) {
                c.check(other.coordinates(p) == X {}, "coordinates in the second system");
                c.check(sys.coordinates(p) == x, "coordinates in the first system");
            }
        }
        // points that nobody holds any more but the system
        if (g.flip() && n > 0) {
            std::map<decltype(mg::point_t<D>().id()), X> all;
            for (auto & [p, x] : model)
                all.insert({ p.id(), x });
            model.erase(model.begin() + g.range(0, n - 1), model.end());
            c.note("all but ", model.size(), " points are let go of");
            auto met_in = [&](const auto & s, auto && place, double tol) {
                size_t count = 0;
                for (const auto & [p, y] : s) {
                    auto it = all.find(p.id());
                    c.check(it != all.end(), "a point that was not placed is met");
                    same(c, position(y), place(it->second), tol * (1 + norm(place(it->second))), "a point that was let go of");
                    ++count;
                }
                c.check(count == all.size(), "the system keeps ", count, " of ", all.size(), " points");
            };
            [[maybe_unused]] auto where = [](const X & x) { return position(x); };
            met_in(sys, where, 0);
            for (int k = 0; k < 3; ++k) {
                auto fresh = cloud.point();
                c.check(!all.count(fresh.id()), "a new point is one that the system has placed");
            }
            if constexpr (std::is_same_v<X, mg::polar_coordinates_t>)
                met_in(mg::coordinate_system<mg::cartesian_coordinates_t<2>>(sys), where, 1e-12);
            else if constexpr (std::is_same_v<X, mg::spherical_coordinates_t>)
                met_in(mg::coordinate_system<mg::cartesian_coordinates_t<3>>(sys), where, 1e-12);
            for (auto & [p, x] : model)
                c.check(sys.coordinates(p) == x, "coordinates of a point that is still held");
        }
    }
}

PROP(algebra_cartesian_1, 1) { algebra<mg::cartesian_coordinates_t<1>>(g, c); }
PROP(algebra_cartesian_2, 1) { algebra<mg::cartesian_coordinates_t<2>>(g, c); }
PROP(algebra_cartesian_3, 1) { algebra<mg::cartesian_coordinates_t<3>>(g, c); }
PROP(algebra_polar, 4) { algebra<mg::polar_coordinates_t>(g, c); }
PROP(algebra_spherical, 6) { algebra<mg::spherical_coordinates_t>(g, c); }
PROP(transform_polar, 3) { transform<mg::cartesian_coordinates_t<2>, mg::polar_coordinates_t>(g, c); }
PROP(transform_spherical, 3) { transform<mg::cartesian_coordinates_t<3>, mg::spherical_coordinates_t>(g, c); }
PROP(components, 2)
{
    switch (g.range(0, 4)) {
        case 0: components<mg::cartesian_coordinates_t<1>>(g, c); break;
        case 1: components<mg::cartesian_coordinates_t<2>>(g, c); break;
        case 2: components<mg::cartesian_coordinates_t<3>>(g, c); break;
        case 3: components<mg::polar_coordinates_t>(g, c); break;
        default: components<mg::spherical_coordinates_t>(g, c); break;
    }
}
PROP(system, 2)
{
    switch (g.range(0, 4)) {
        case 0: system<mg::cartesian_coordinates_t<1>>(g, c); break;
        case 1: system<mg::cartesian_coordinates_t<2>>(g, c); break;
        case 2: system<mg::cartesian_coordinates_t<3>>(g, c); break;
        case 3: system<mg::polar_coordinates_t>(g, c); break;
        default: system<mg::spherical_coordinates_t>(g, c); break;
    }
}
