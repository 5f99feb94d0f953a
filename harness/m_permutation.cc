// M01: permutations
#include <set>
#include "pbt.h"
#include <mito/math.h>

namespace {
    template <class T>
    int sign_by_cycles(const T & data, const T & ref)
    {
        // the sign from the cycle decomposition
        int n = int(data.size());
        std::vector<int> to(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
            to[size_t(i)] = int(std::find(ref.begin(), ref.end(), data[size_t(i)]) - ref.begin());
        std::vector<bool> seen(static_cast<size_t>(n));
        int sign = 1;
        for (int i = 0; i < n; ++i) {
            if (seen[size_t(i)])
                continue;
            int len = 0;
            for (int j = i; !seen[size_t(j)]; j = to[size_t(j)]) {
                seen[size_t(j)] = true;
                ++len;
            }
            if (len % 2 == 0)
                sign = -sign;
        }
        return sign;
    }

    template <class T>
    void run(pbt::Gen & g, pbt::Ctx & c, T data, T ref, T third)
    {
        int s = mito::math::permutation_sign(data, ref);
        c.check(s == sign_by_cycles(data, ref), "the sign is ", s);
        c.check(mito::math::permutation_sign(ref, data) == s, "the sign is not symmetric");
        c.check(mito::math::permutation_sign(data, data) == 1, "the identity is odd");
        c.check(s * mito::math::permutation_sign(ref, third)
                    == mito::math::permutation_sign(data, third),
                "the sign is not multiplicative");
        if (data.size() > 1) {
            auto d2 = data;
            size_t i = size_t(g.below(int(data.size())));
            size_t j = (i + 1 + size_t(g.below(int(data.size()) - 1))) % data.size();
            std::swap(d2[i], d2[j]);
            c.check(mito::math::permutation_sign(d2, ref) == -s,
                    "exchanging two entries does not change the sign");
            c.nontrivial();
        }
        c.check(mito::math::same_elements(data, ref), "a permutation has other elements");
        int n = int(data.size());
        int swaps = mito::math::swap_sort(data, ref);
        c.check(swaps >= 0 && swaps <= std::max(0, n - 1), "sorting ", n, " entries takes ", swaps,
                " swaps");
        c.check((swaps % 2 == 0) == (s == 1), "the number of swaps has the wrong parity");
        c.check((swaps == 0) == (data == ref), "swaps without a difference");
    }

    template <size_t N>
    void run_array(pbt::Gen & g, pbt::Ctx & c)
    {
        std::vector<long> v;
        std::set<long> used;
        while (v.size() < N) {
            long x = long(g.below(1000)) - 500;
            while (used.count(x))
                ++x;
            used.insert(x);
            v.push_back(x);
        }
        std::array<long, N> a, b, d;
        std::copy(v.begin(), v.end(), a.begin());
        g.shuffle(v);
        std::copy(v.begin(), v.end(), b.begin());
        g.shuffle(v);
        std::copy(v.begin(), v.end(), d.begin());
        for (auto x : a)
            c.note("data ", x);
        run(g, c, a, b, d);
        // other elements are told apart
        auto e = a;
        size_t k = size_t(g.below(int(N)));
        e[k] += 100000;
        c.check(!mito::math::same_elements(e, b), "different elements are taken for the same");
        if (N > 1) {
            auto f = a;
            f[k] = f[(k + 1) % N];
            c.check(!mito::math::same_elements(f, b),
                    "a repeated element is taken for the missing one");
        }
    }
}    // namespace

PROP(permutation_arrays, 3)
{
    switch (g.below(5)) {
    case 0:
        run_array<2>(g, c);
        break;
    case 1:
        run_array<3>(g, c);
        break;
    case 2:
        run_array<4>(g, c);
        break;
    case 3:
        run_array<1>(g, c);
        break;
    case 4:
        run_array<7>(g, c);
        break;
    }
}

PROP(permutation_vectors, 1)
{
    int n = 1 + g.below(12);
    std::vector<std::string> a;
    for (int i = 0; i < n; ++i)
        a.push_back("s" + std::to_string(i * 7 % 31));
    auto b = a, d = a;
    g.shuffle(a);
    g.shuffle(b);
    g.shuffle(d);
    run(g, c, a, b, d);
}

// collections of any size, with repeated elements
namespace {
    template <class T>
    void collections(pbt::Gen & g, pbt::Ctx & c, T (*value)(int))
    {
        int kinds = 1 + g.below(4);
        auto some = [&](int n) {
            std::vector<T> v;
            for (int i = 0; i < n; ++i)
                v.push_back(value(g.below(kinds)));
            return v;
        };
        auto a = some(g.below(7));
        std::vector<T> b;
        switch (g.below(4)) {
        case 0:
            b = some(g.below(7));
            break;
        case 1:    // a reordering
            b = a;
            g.shuffle(b);
            break;
        case 2:    // some of the elements
            b = a;
            g.shuffle(b);
            b.resize(size_t(g.below(int(a.size()) + 1)));
            break;
        default:    // other multiplicities
            b = a;
            g.shuffle(b);
            if (!b.empty())
                b[size_t(g.below(int(b.size())))] = b[size_t(g.below(int(b.size())))];
        }
        c.note("sizes ", a.size(), " and ", b.size());
        bool same = std::multiset<T>(a.begin(), a.end()) == std::multiset<T>(b.begin(), b.end());
        c.check(mito::math::same_elements(a, b) == same, same ? "the same elements are told apart" :
                                                                "different elements are taken for the same");
        c.check(mito::math::same_elements(b, a) == same, "not the same the other way round");
        if (a.size() > 1 && b.size() > 1)
            c.nontrivial();
    }
}    // namespace

PROP(collections_of_numbers, 1)
{
    collections<int>(g, c, [](int i) { return 17 * i - 20; });
}

PROP(collections_of_strings, 1)
{
    collections<std::string>(g, c, [](int i) { return std::string(size_t(i), 'x') + "y"; });
}
