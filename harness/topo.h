// helpers shared by the topology checks
#pragma once
#include "pbt.h"
#include <mito/topology.h>

namespace topo {
    using namespace mito::topology;

    inline int parity(const std::vector<int> & v)
    {
        int inv = 0;
        for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = i + 1; j < v.size(); ++j)
                inv += v[i] > v[j];
        return inv % 2 ? -1 : +1;
    }

    // an oriented simplex by its vertices: the sorted labels and the sign of the permutation
    struct Class {
        std::vector<int> labels;
        int sign;
        auto operator<=>(const Class &) const = default;
    };
    inline Class class_of(const std::vector<int> & v)
    {
        Class k{ v, parity(v) };
        std::sort(k.labels.begin(), k.labels.end());
        return k;
    }
    inline std::string show(const std::vector<int> & v)
    {
        std::string s = "(";
        for (auto x : v)
            s += (s.size() > 1 ? " " : "") + std::to_string(x);
        return s + ")";
    }
    inline std::string show(const Class & k)
    {
        return (k.sign > 0 ? "+" : "-") + show(k.labels);
    }

    // the vertices of a case and their labels
    struct Pool {
        std::vector<vertex_t> v;
        std::map<vertex_t, int> label;
        explicit Pool(int n)
        {
            for (int i = 0; i < n; ++i)
                add();
        }
        int add()
        {
            v.push_back(mito::topology::vertex());
            int k = int(v.size()) - 1;
            label[v.back()] = k;
            return k;
        }
        // vertices that are not next to each other
        Pool(int n, pbt::Gen & g)
        {
            std::vector<vertex_t> others;
            for (int i = 0; i < n; ++i) {
                for (int k = g.weighted({ 4, 2, 1, 1 }); k > 0; --k)
                    others.push_back(mito::topology::vertex());
                add();
            }
            if (g.flip())
                g.shuffle(v);
            label.clear();
            for (size_t i = 0; i < v.size(); ++i)
                label[v[i]] = int(i);
        }
        // distinct labels
        std::vector<int> choose(pbt::Gen & g, int n) const
        {
            std::vector<int> all(v.size()), out;
            std::iota(all.begin(), all.end(), 0);
            for (int i = 0; i < n; ++i) {
                int k = g.below(int(all.size()));
                out.push_back(all[size_t(k)]);
                all.erase(all.begin() + k);
            }
            return out;
        }
        template <int N>
        vertex_simplex_composition_t<N> array(const std::vector<int> & l) const
        {
            vertex_simplex_composition_t<N> a;
            for (int i = 0; i <= N; ++i)
                a[size_t(i)] = v[size_t(l[size_t(i)])];
            return a;
        }
        // the labels of the vertices of a simplex, in its own order
        template <class S>
        std::vector<int> labels_of(const S & s) const
        {
            std::vector<int> out;
            for (auto & x : s->vertices()) {
                auto it = label.find(x);
                out.push_back(it == label.end() ? -1 : it->second);
            }
            return out;
        }
    };

    // the faces of the N-simplex with vertices {v}, as the library orders and orients them
    inline std::vector<std::vector<int>> faces(const std::vector<int> & v)
    {
        if (v.size() == 3)
            return { { v[0], v[1] }, { v[1], v[2] }, { v[2], v[0] } };
        return { { v[0], v[1], v[2] }, { v[1], v[3], v[2] }, { v[3], v[1], v[0] }, { v[3], v[0], v[2] } };
    }

    // a chain of oriented simplices: labels of the vertices -> coefficient
    using Chain = std::map<std::vector<int>, int>;
    inline void add(Chain & c, const Class & k, int n)
    {
        c[k.labels] += k.sign * n;
    }
    inline void prune(Chain & c)
    {
        for (auto it = c.begin(); it != c.end();)
            it = it->second == 0 ? c.erase(it) : std::next(it);
    }
    // the boundary of an oriented simplex (segment: end minus start)
    inline Chain boundary(const std::vector<int> & v)
    {
        Chain c;
        if (v.size() == 2) {
            c[{ v[1] }] += 1;
            c[{ v[0] }] -= 1;
        } else
            for (auto & f : faces(v))
                add(c, class_of(f), 1);
        prune(c);
        return c;
    }
    inline std::string show(const Chain & c)
    {
        std::string s;
        for (auto & [k, n] : c)
            s += (n > 0 ? "+" : "") + std::to_string(n) + show(k) + " ";
        return s.empty() ? "0" : s;
    }
}    // namespace topo
