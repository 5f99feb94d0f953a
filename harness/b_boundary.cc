// B01 (boundaries of meshes), B02 with -DPBT_B02 (meshes as collections of cells, their faces)
#include "meshes.h"

using namespace pbt;
using namespace meshes;

namespace {
    template <int N, int D>
    struct World {
        using Cell = mg::geometric_simplex_t<N, D>;
        using Mesh = mm::mesh_t<Cell>;
        Gen & g;
        Ctx & c;
        Nodes<D> nodes;
        std::unique_ptr<Mesh> held;    // (the mesh moves now and then)
        std::vector<Labels> model;    // the cells, in no particular order
        std::vector<std::pair<Cell *, Labels>> refs;    // the cells as they were handed out
        bool against = false;         // some cell is oriented against its footprint

        World(Gen & gen, Ctx & ctx) : g(gen), c(ctx), held(std::make_unique<Mesh>(mm::mesh<Cell>())) {}

        // the oriented simplex of a cell; its faces
        Class simplex_of(const Labels & l) const { return class_of(nodes.canonical(l)); }
        // a face and its nodes
        using Face = std::pair<Class, Labels>;
        std::vector<Face> faces_of(const Labels & l) const
        {
            std::map<int, int> node;
            for (auto k : l)
                node[nodes.canonical(k)] = k;
            std::vector<Face> out;
            for (auto & f : faces(nodes.canonical(l))) {
                Labels own;
                for (auto v : f.labels)
                    own.push_back(node.at(v));
                std::sort(own.begin(), own.end());
                out.push_back({ f, own });
            }
            return out;
        }
        static Labels in_order(Labels l)
        {
            std::sort(l.begin(), l.end());
            return l;
        }
        void move()
        {
            c.note("move the mesh");
            auto other = std::make_unique<Mesh>(std::move(*held));
            held = std::move(other);
            refs.clear();
        }

        std::vector<Labels> listed()
        {
            std::vector<Labels> out;
            for (const auto & cell : held->cells()) {
                auto l = nodes.labels(cell);
                c.check(class_of(nodes.simplex_labels(cell.simplex())) == simplex_of(l),
                        "the simplex of the cell ", show(l), " has vertices ",
                        show(nodes.simplex_labels(cell.simplex())));
                out.push_back(l);
            }
            return out;
        }
        static std::vector<Labels> sorted(std::vector<Labels> v)
        {
            std::sort(v.begin(), v.end());
            return v;
        }
        void insert(const Labels & l)
        {
            c.note("insert ", show(l));
            auto & mesh = *held;
            Cell * cell = nullptr;
            switch (g.range(0, 2)) {
                case 0:
                    cell = &mesh.insert(nodes.template array<N>(l));
                    break;
                case 1:
                    cell = &mesh.insert(Cell(nodes.template array<N>(l)));
                    break;
                default: {
                    auto s = topo::topology().template simplex<N>(nodes.template vertices<N>(l));
                    cell = &mesh.insert(Cell(s, nodes.template array<N>(l)));
                }
            }
            c.check(nodes.labels(*cell) == l, "the cell inserted has nodes ", show(nodes.labels(*cell)));
            if (cell->simplex()->orientation() < 0)
                against = true;
            model.push_back(l);
            refs.push_back({ cell, l });
        }
        void erase(int k)
        {
            auto & mesh = *held;
            // by the reference that came with the insertion
            if (!refs.empty() && g.chance(1, 3)) {
                auto r = refs[size_t(g.below(int(refs.size())))];
                c.note("erase ", show(r.second), " by reference");
                c.check(nodes.labels(*r.first) == r.second, "the cell handed out has changed to ", show(nodes.labels(*r.first)));
                std::erase_if(refs, [&](auto & o) { return o.first == r.first; });
                mesh.erase(*r.first);
                model.erase(std::find(model.begin(), model.end(), r.second));
                return;
            }
            int i = 0;
            for (auto & cell : mesh.cells())
                if (i++ == k) {
                    auto l = nodes.labels(cell);
                    c.note("erase ", show(l));
                    std::erase_if(refs, [&](auto & o) { return o.first == &cell; });
                    mesh.erase(cell);
                    model.erase(std::find(model.begin(), model.end(), l));
                    if (g.chance(1, 5)) {
                        c.note("erase it again");
                        mesh.erase(cell);
                    }
                    return;
                }
        }
        void erase_duplicates(bool topological)
        {
            c.note("erase ", topological ? "topological" : "geometrical", " duplicates");
            auto before = listed();
            std::set<Class> seen;
            std::vector<Labels> left;
            for (auto & l : before) {
                auto k = simplex_of(l);
                if (topological)
                    k.sign = 0;
                if (seen.insert(k).second)
                    left.push_back(l);
            }
            refs.clear();
            if (topological)
                held->erase_topological_duplicates();
            else
                held->erase_geometrical_duplicates();
            c.check(listed() == left, "the first cell of each kind is left");
            model = left;
        }
        // how often each oriented face occurs
        std::map<Class, int> count() const
        {
            std::map<Class, int> out;
            for (auto & l : model)
                for (auto & f : faces_of(l))
                    ++out[f.first];
            return out;
        }
        static Class opposite(Class k)
        {
            k.sign = -k.sign;
            return k;
        }
        auto face(const Class & k) const
        {
            Labels l = k.labels;
            if constexpr (N == 1) {
                return 0;
            } else {
                if (k.sign < 0)
                    std::swap(l[0], l[1]);
                return topo::topology().template simplex<N - 1>(nodes.template vertices<N - 1>(l));
            }
        }
        void examine()
        {
            auto & mesh = *held;
            for (auto & [cell, l] : refs)
                c.check(nodes.labels(*cell) == l, "the cell handed out has changed to ", show(nodes.labels(*cell)));
            c.check(mesh.nCells() == int(model.size()), "the mesh has ", mesh.nCells(), " cells instead of ", model.size());
            c.check(sorted(listed()) == sorted(model), "the mesh has the cells inserted and not erased");
#ifdef PBT_B02
            nodes_used();
            return;
#endif
            auto n = count();
            // the boundary
            std::multiset<Face> want;
            for (auto & l : model)
                for (auto & f : faces_of(l))
                    if (!n.contains(opposite(f.first)))
                        want.insert(f);
            c.check(mm::boundary_size(mesh) == int(want.size()), "the boundary has ", mm::boundary_size(mesh),
                    " cells instead of ", want.size());
            if constexpr (N == 1) {
                std::set<int> got, ends;
                for (auto & node : mm::boundary(mesh))
                    got.insert(nodes.of(node));
                for (auto & f : want)
                    ends.insert(f.second[0]);
                c.check(got == ends, "the nodes on the boundary");
            } else {
                auto boundary = mm::boundary(mesh);
                std::multiset<Face> got;
                for (const auto & f : boundary.cells()) {
                    auto l = nodes.labels(f);
                    auto k = simplex_of(l);
                    c.check(class_of(nodes.simplex_labels(f.simplex())) == k,
                            "the simplex of a boundary cell and its nodes agree");
                    got.insert({ k, in_order(l) });
                }
                c.check(got == want, "the cells on the boundary are ", list(got), "instead of ", list(want));
                c.check(boundary.nCells() == int(want.size()), "number of cells on the boundary");
                // whether a face is on the boundary
                for (auto & [k, m] : n) {
                    c.check(mesh.isOnBoundary(face(k)) == !n.contains(opposite(k)), "face ", show(k),
                            " on the boundary");
                    if (!n.contains(opposite(k)))
                        c.check(!mesh.isOnBoundary(face(opposite(k))), "face ", show(opposite(k)),
                                " on the boundary");
                }
                // the boundary of the boundary
                std::map<Class, int> e;
                for (auto & [k, own] : want) {
                    Labels l = k.labels;
                    if (k.sign < 0)
                        std::swap(l[0], l[1]);
                    for (auto & f : faces(l))
                        ++e[f];
                }
                int open = 0;
                for (auto & [k, m] : e)
                    if (!e.contains(opposite(k)))
                        open += m;
                c.check(mm::boundary_size(boundary) == open, "the boundary of the boundary has ",
                        mm::boundary_size(boundary), " cells instead of ", open);
            }
        }
        // the nodes of the mesh
        void nodes_used()
        {
            std::set<mg::node_t<D>> met;
            mm::get_nodes(*held, met);
            std::set<int> got, used;
            for (auto & node : met)
                got.insert(nodes.of(node));
            for (auto & l : model)
                used.insert(l.begin(), l.end());
            c.check(got == used && met.size() == used.size(), "the nodes of the mesh");
        }
        static std::string list(const std::multiset<Face> & s)
        {
            std::string out;
            for (auto & [k, own] : s)
                out += show(k) + " ";
            return out;
        }
        // the I-cells of the mesh, one per cell that they belong to
        template <int I>
        void filter()
        {
            auto sub = mm::filter<I>(*held);
            std::multiset<Face> got, want;    // (of no sense)
            std::multiset<Class> oriented, expected;
            for (const auto & s : sub.cells()) {
                auto l = nodes.labels(s);
                auto k = simplex_of(l);
                c.check(class_of(nodes.simplex_labels(s.simplex())) == k,
                        "the simplex of a filtered cell and its nodes agree");
                got.insert({ Class { k.labels, 0 }, in_order(l) });
                if constexpr (I == N - 1)
                    oriented.insert(k);
            }
            for (auto & l : model) {
                if constexpr (I == N - 1)
                    for (auto & [f, own] : faces_of(l)) {
                        want.insert({ Class { f.labels, 0 }, own });
                        expected.insert(f);
                    }
                else    // the edges of a tetrahedron, once per face
                    for (auto & t : topo::faces(l))
                        for (auto & f : topo::faces(t))
                            want.insert({ Class { simplex_of(f).labels, 0 }, in_order(f) });
            }
            c.check(got == want, "the ", I, "-cells of the mesh");
            c.check(sub.nCells() == int(want.size()), "number of ", I, "-cells");
            if (I == N - 1 && !against)
                c.check(oriented == expected, "the orientation of the ", I, "-cells of the mesh");
            // without duplicates
            sub.erase_topological_duplicates();
            std::set<Labels> once;
            int n = 0;
            for (const auto & s : sub.cells()) {
                once.insert(simplex_of(nodes.labels(s)).labels);
                ++n;
            }
            std::set<Labels> all;
            for (auto & [k, own] : want)
                all.insert(k.labels);
            c.check(once == all && n == int(once.size()),
                    "the ", I, "-cells of the mesh without duplicates");
            c.check(sub.nCells() == n, "number of ", I, "-cells without duplicates");
        }
        void filters()
        {
#ifndef PBT_B02
            return;
#endif
            if constexpr (N == 2)
                filter<1>();
            if constexpr (N == 3) {
                filter<2>();
                filter<1>();
            }
        }
        // simplices that come into being before those of the mesh: they decide which sense is that
        // of the footprint
        void earlier(const Labels & l)
        {
            if (!g.chance(1, 3))
                return;
            Labels r = l;
            std::swap(r[0], r[1]);
            c.note("(beforehand ", show(r), ")");
            keep.push_back(topo::topology().template simplex<N>(nodes.template vertices<N>(r)));
        }
        std::vector<topo::simplex_t<N>> keep;
    };

    // any cells
    template <int N, int D>
    void soup(Gen & g, Ctx & c)
    {
        World<N, D> w(g, c);
        int n = N + 1 + g.range(0, 5);
        for (int i = 0; i < n; ++i)
            w.nodes.random(g);
        // nodes that share a vertex
        if (g.chance(1, 4))
            for (int i = g.range(1, 3); i > 0; --i) {
                std::array<double, size_t(D)> at;
                for (auto & x : at)
                    x = g.signed_real(0, 3);
                w.nodes.twin(g.below(n), at);
                ++n;
            }
        // (now and then more cells than the mesh has room for at first)
        bool many = g.chance(1, 100);
        int ops = many ? g.range(130, 260) : g.range(1, 4 + g.size() / 2);
        int erased = 0;
        for (int i = 0; i < ops; ++i) {
            switch (many ? g.weighted({ 80, 15, 0, 1, 1, 1 }) : g.weighted({ 8, 4, 1, 1, 2, 1 })) {
                case 0: {
                    auto l = choose(g, N + 1, n);
                    if (!w.nodes.proper(l))
                        break;
                    w.earlier(l);
                    w.insert(l);
                    break;
                }
                case 1:
                    if (!w.model.empty()) {
                        w.erase(g.below(int(w.model.size())));
                        ++erased;
                    }
                    break;
                case 2: w.erase_duplicates(true); break;
                case 3: w.erase_duplicates(false); break;
                case 5: w.move(); break;
                default: w.examine();
            }
        }
        w.examine();
        w.filters();
        if (erased && w.model.size() > 1)
            c.nontrivial();
        if (w.against)
            c.label("some cell is oriented against its footprint");
    }

    // conforming meshes, all of whose cells have the same sense
    template <int N, int D>
    void conforming(Gen & g, Ctx & c)
    {
        World<N, D> w(g, c);
        std::array<int, size_t(N)> n;
        for (auto & k : n)
            k = g.range(1, N == 1 ? 12 : N == 2 ? 5 : 2);
        if (g.chance(1, 60))
            for (auto & k : n)
                k = g.range(3, N == 1 ? 150 : N == 2 ? 11 : 4);
        auto cells = grid<N>(g, n, [&](const std::array<double, size_t(N)> & x) {
            std::array<double, size_t(D)> y {};
            for (int i = 0; i < N; ++i)
                y[size_t(i)] = x[size_t(i)];
            return w.nodes.add(y);
        }, 0.2);
        g.shuffle(cells);
        bool reversed = g.chance(1, 4);
        for (auto l : cells) {
            if (reversed)
                std::swap(l[0], l[1]);
            rotate(g, l);
            w.earlier(l);
            w.insert(l);
        }
        int outside = 0;
        if constexpr (N == 1)
            outside = 2;
        else if constexpr (N == 2)
            outside = 2 * (n[0] + n[1]);
        else
            outside = 4 * (n[0] * n[1] + n[1] * n[2] + n[2] * n[0]);
#ifndef PBT_B02
        c.check(mm::boundary_size(*w.held) == outside, "the outline has ", mm::boundary_size(*w.held), " cells instead of ",
                outside);
#endif
        w.examine();
#ifndef PBT_B02
        if constexpr (N > 1) {
            auto b = mm::boundary(*w.held);
            c.check(mm::boundary_size(b) == 0, "the boundary of the mesh is closed");
        }
#endif
        int k = g.range(0, std::max(0, int(cells.size()) - 1));
        for (int i = 0; i < k && i < 6; ++i)
            w.erase(g.below(int(w.model.size())));
        w.examine();
        w.filters();
        if (w.model.size() > 1)
            c.nontrivial();
        if (w.against)
            c.label("some cell is oriented against its footprint");
    }
}

PROP(soup_segments_1, 1) { soup<1, 1>(g, c); }
PROP(soup_segments_2, 1) { soup<1, 2>(g, c); }
PROP(soup_triangles_2, 2) { soup<2, 2>(g, c); }
PROP(soup_triangles_3, 2) { soup<2, 3>(g, c); }
PROP(soup_tetrahedra, 3) { soup<3, 3>(g, c); }
PROP(line, 1) { conforming<1, 3>(g, c); }
PROP(triangulation_2, 2) { conforming<2, 2>(g, c); }
PROP(triangulation_3, 2) { conforming<2, 3>(g, c); }
PROP(tetrahedra, 2) { conforming<3, 3>(g, c); }
