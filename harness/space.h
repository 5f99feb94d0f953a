// a function space on a random mesh, and what its degrees of freedom stand for
#pragma once
#include "fem.h"
#include <mito/solvers.h>

namespace femx {
    // a function space on a body
    template <int N, int P>
    struct Space {
        using El = Element<N, P>;
        using Type = typename El::type;
        using Domain = typename mm::boundary_mesh<typename El::cell_type>::type;
        using Zero = std::remove_cvref_t<decltype(mf::zero<cart<N>>)>;
        using Constraints = mito::constraints::dirichlet_bc_t<Domain, Zero>;
        using Manifold = decltype(mito::manifolds::manifold(std::declval<mm::mesh_t<typename El::cell_type> &>(), std::declval<sys_t<N> &>()));
        using Fs = fe::function_space_t<Type, Constraints>;
        using Node = typename Type::discretization_node_type;
        static constexpr int n = El::n;

        Body<N> body;
        std::vector<Labels> fixed;    // edges (nodes of segments) of the constraint
        Domain domain;
        Constraints constraints;
        Manifold manifold;
        Fs fs;

        enum Kind { ANY, NONE, BOUNDARY };
        Space(Gen & g, Ctx & c, Kind kind = ANY, int most = 3) :
            body(g, c, most, kind == ANY),
            domain(make(g, c, kind)),
            constraints(mito::constraints::dirichlet_bc(domain, mf::zero<cart<N>>)),
            manifold(mito::manifolds::manifold(body.mesh, body.nodes.sys)),
            fs(fe::function_space<Type>(manifold, constraints))
        {}
        Domain make(Gen & g, Ctx & c, Kind kind)
        {
            // (sides of nodes, how many cells have the sides with their vertices)
            std::map<Labels, int> sides, shared;
            if constexpr (N == 1) {
                for (auto & l : body.cells)
                    for (auto v : l) {
                        ++sides[{ v }];
                        ++shared[{ body.nodes.canonical(v) }];
                    }
            } else {
                sides = body.edges();
                shared = body.edges(true);
            }
            std::vector<Labels> outer, all;
            for (auto & [l, k] : sides) {
                all.push_back(l);
                auto v = body.nodes.canonical(l);
                std::sort(v.begin(), v.end());
                if (shared.at(v) == 1)
                    outer.push_back(l);
            }
            int what = kind == NONE ? 0 : kind == BOUNDARY ? 1 : g.weighted({ 1, 3, 2, 2 });
            if (what == 1) {
                c.note("constraint on the boundary");
                fixed = outer;
                return mm::boundary(body.mesh);
            }
            Domain d;
            if (what == 0) {
                c.note("no constraint");
                return d;
            }
            for (auto & l : what == 2 ? outer : all)
                if (g.flip()) {
                    auto o = l;
                    if (g.flip())
                        std::reverse(o.begin(), o.end());
                    c.note("constraint on ", show(o));
                    fixed.push_back(l);
                    if constexpr (N == 1)
                        d.insert(body.nodes.n[size_t(o[0])]);
                    else
                        d.insert(body.nodes.template array<1>(o));
                }
            return d;
        }
        // the degrees of freedom: a vertex, or the two ends of an edge
        static Labels dof(const Labels & cell, int a)
        {
            if (a <= N)
                return { cell[size_t(a)] };
            auto [i, j] = El::edge(a);
            int p = cell[size_t(i)], q = cell[size_t(j)];
            return { std::min(p, q), std::max(p, q) };
        }
        std::set<Labels> dofs() const
        {
            std::set<Labels> s;
            for (auto & l : body.cells)
                for (int a = 0; a < n; ++a)
                    s.insert(dof(l, a));
            return s;
        }
        std::set<Labels> constrained() const
        {
            std::set<Labels> s;
            for (auto & l : fixed) {
                for (auto v : l)
                    s.insert({ v });
                if (P == 2)
                    s.insert({ std::min(l[0], l[1]), std::max(l[0], l[1]) });
            }
            return s;
        }
        std::array<double, N> position(const Labels & d) const
        {
            std::array<double, N> x {};
            for (auto v : d)
                for (size_t k = 0; k < N; ++k)
                    x[k] += body.nodes.x[size_t(v)][k] / double(d.size());
            return x;
        }
        // what the discretization nodes stand for; that elements share them as they should
        std::map<Node, Labels> names(Ctx & c) const { return names(c, fs); }
        std::map<Node, Labels> names(Ctx & c, const Fs & fs) const
        {
            std::map<Node, Labels> name;
            std::map<Labels, Node> node;
            size_t i = 0;
            for (const auto & e : fs.elements()) {
                if (i >= body.cells.size())
                    c.check(false, "more elements than cells");
                auto & l = body.cells[i++];
                for (int a = 0; a < n; ++a) {
                    auto d = dof(l, a);
                    auto & k = e.connectivity()[size_t(a)];
                    auto [it, fresh] = name.insert({ k, d });
                    c.check(it->second == d, "one discretization node for ", show(it->second), " and ", show(d));
                    auto [jt, unseen] = node.insert({ d, k });
                    c.check(jt->second == k, "two discretization nodes for ", show(d));
                }
            }
            c.check(i == body.cells.size(), "number of elements");
            return name;
        }
        // a polynomial on a cell from values at the degrees of freedom
        Poly<N> on(const Labels & cell, const std::map<Labels, double> & values) const
        {
            Poly<N> p;
            for (int a = 0; a < n; ++a)
                p = p + El::shape(a) * values.at(dof(cell, a));
            return p;
        }
    };
    inline double value(Gen & g) { return g.chance(1, 4) ? double(g.range(-2, 2)) : g.signed_real(0, 3); }
    template <int N>
    typename Element<N, 1>::Xi parametric(const std::array<double, N + 1> & l)
    {
        mt::vector_t<N> v;
        if (N == 1)
            v[0] = l[1];
        else
            for (int k = 0; k < N; ++k)
                v[k] = l[size_t(k)];
        return typename Element<N, 1>::Xi(v);
    }
    inline bool gauss(std::vector<double> A, std::vector<double> b, std::vector<double> & x)
    {
        size_t n = b.size();
        double big = 0;
        for (auto v : A)
            big = std::max(big, std::abs(v));
        for (size_t k = 0; k < n; ++k) {
            size_t p = k;
            for (size_t i = k; i < n; ++i)
                if (std::abs(A[i * n + k]) > std::abs(A[p * n + k]))
                    p = i;
            if (std::abs(A[p * n + k]) < 1e-7 * big)
                return false;
            for (size_t j = 0; j < n; ++j)
                std::swap(A[p * n + j], A[k * n + j]);
            std::swap(b[p], b[k]);
            for (size_t i = k + 1; i < n; ++i) {
                double m = A[i * n + k] / A[k * n + k];
                for (size_t j = k; j < n; ++j)
                    A[i * n + j] -= m * A[k * n + j];
                b[i] -= m * b[k];
            }
        }
        x.assign(n, 0);
        for (size_t k = n; k-- > 0;) {
            double s = b[k];
            for (size_t j = k + 1; j < n; ++j)
                s -= A[k * n + j] * x[j];
            x[k] = s / A[k * n + k];
        }
        return true;
    }
}    // namespace femx
