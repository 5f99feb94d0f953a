// T04: flipping the diagonal of two triangles
#include "topo.h"
using namespace topo;

PROP(flip_diagonal, 1)
{
    Pool p(6);
    auto q = p.choose(g, 4);
    // what the factory has met before
    int n_before = g.below(6);
    for (int i = 0; i < n_before; ++i) {
        auto v = p.choose(g, 3);
        c.note("build ", show(v));
        mito::topology::triangle(p.array<2>(v));
    }
    // two triangles with the common edge q0-q2 and the same sense
    std::vector<int> va = { q[0], q[1], q[2] }, vb = { q[0], q[2], q[3] };
    std::rotate(va.begin(), va.begin() + g.below(3), va.end());
    std::rotate(vb.begin(), vb.begin() + g.below(3), vb.end());
    if (g.flip())
        std::swap(va, vb);
    auto a = mito::topology::triangle(p.array<2>(va)), b = mito::topology::triangle(p.array<2>(vb));
    c.note("triangles ", show(va), " (orientation ", a->orientation(), ") and ", show(vb),
           " (orientation ", b->orientation(), ")");
    if (a->orientation() == -1 || b->orientation() == -1)
        c.label("orientation -1");
    auto [x, y] = mito::topology::flip_diagonal({ a, b });
    auto lx = p.labels_of(x), ly = p.labels_of(y);
    c.note("gives ", show(lx), " and ", show(ly));
    // the new triangles: on either side of the other diagonal, with the same sense
    std::set<Class> got = { class_of(lx), class_of(ly) };
    std::set<Class> want = { class_of({ q[0], q[1], q[3] }), class_of({ q[1], q[2], q[3] }) };
    c.check(got == want, "the new triangles are ", show(lx), show(ly));
    // they cover the same quadrilateral
    Chain before, after;
    for (auto & v : { va, vb })
        for (auto & [l, n] : boundary(v))
            before[l] += n;
    for (auto & s : { x, y })
        for (const auto & f : s->composition())
            add(after, class_of(p.labels_of(f)), s->orientation());
    prune(before);
    prune(after);
    c.check(before == after, "the outline changes from ", show(before), "to ", show(after));
    c.check(x->sanityCheck() && y->sanityCheck(), "the new triangles are not sane");
    c.check(topology().exists(p.array<1>({ q[1], q[3] }))
                && topology().exists(p.array<1>({ q[3], q[1] })),
            "the new diagonal does not exist");
    // the old triangles are still there
    c.check(class_of(p.labels_of(a)) == class_of(va) && class_of(p.labels_of(b)) == class_of(vb),
            "the old triangles have changed");
    // flipping again gives back the old pair
    auto [z, w] = mito::topology::flip_diagonal({ x, y });
    c.check((z == a && w == b) || (z == b && w == a),
            "flipping the diagonal twice does not give back the two triangles");
    // and the old triangles can be erased: the old diagonal goes with them
    bool erase = g.flip();
    if (erase && n_before == 0) {
        z = triangle_t();
        w = triangle_t();
        mito::topology::topology().erase(a);
        mito::topology::topology().erase(b);
        c.check(!topology().exists(p.array<1>({ q[0], q[2] }))
                    && !topology().exists(p.array<1>({ q[2], q[0] })),
                "the old diagonal is left after the old triangles were erased");
        c.check(got == std::set<Class>{ class_of(p.labels_of(x)), class_of(p.labels_of(y)) },
                "erasing the old triangles damages the new ones");
        for (auto & e : { std::vector<int>{ q[0], q[1] }, { q[1], q[2] }, { q[2], q[3] },
                          { q[3], q[0] } })
            c.check(topology().exists(p.array<1>(e)), "edge ", show(e), " of the outline is lost");
    }
    c.nontrivial();
}
