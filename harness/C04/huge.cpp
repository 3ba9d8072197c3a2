// mc: flags='-O1'
// Size ladder across the 10-, 12- and 16-bit borders for Fenwick trees.
#include "mc.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
typedef unsigned long long u; typedef long long ll; static u mx(u a, u b) { return std::max(a, b); } static u zero() { return 0; } static u addu(u a, u b) { return a + b; } static u neg(u a) { return -a; }
MC_GROUP(one_dimensional) {
    mc::bound("n in {511,513,1023,1024,1025,2049,4097,32769,65535,65536,65537,70001}: built and updated element by element; border ladder of ranges; prefix maxima; order statistics on the set");
    for (int n : { 511, 513, 1023, 1024, 1025, 2049, 4097, 32769, 65535, 65536, 65537, 70001 }) { MC_CASE(n); std::vector<ll> a(n), p(n + 1); std::vector<u> m(n + 1); for (int i = 0; i < n; ++i) a[i] = (i * 2654435761LL) % 1000003 - 300000, p[i + 1] = p[i] + a[i]; suisen::FenwickTree<ll> f(a), g(n); suisen::FenwickTreePrefix<u, mx, zero> h(n); suisen::fenwick_tree_set s(n); std::set<int> in; suisen::CompressedFenwickTree<u, addu, zero, neg> c; for (int i = 0; i < n; ++i) c.add_point(5 * i - 90000); c.build();
        for (int i = n; i--;) { g.add(i, a[i]); h.apply(i, u(a[i] + 300000)); c.apply(5 * i - 90000, u(a[i])); } for (int i = 0; i < n; ++i) m[i + 1] = std::max(m[i], u(a[i] + 300000)); std::vector<int> q; for (int k = 1; k <= n; k *= 2) for (int z = -1; z <= 1; ++z) for (int x : { k + z, n - k - z }) if (0 <= x && x <= n) q.push_back(x); q.push_back(n); q.push_back(0);
        for (int l : q) { MC_EQ(h.prefix_query(l), m[l], "prefix maximum"); for (int r : q) if (l <= r) { MC_EQ(f.sum(l, r), p[r] - p[l], "sum"); MC_EQ(g.sum(l, r), p[r] - p[l], "sum (added)"); MC_EQ(c.query(5 * l - 90000, 5 * r - 90000), u(p[r] - p[l]), "compressed"); mc::step(); } }
        for (int i = 0; i < n; i += 1 + i % 3) { s.insert(i); in.insert(i); } std::vector<int> o(in.begin(), in.end()); MC_EQ(s.size(), (int)o.size(), "size"); for (int k = 0; k < (int)o.size(); k += 1 + (int)o.size() / 900) { MC_EQ(s.kth_element(k), o[k], "kth"); MC_EQ(s.count_lt(o[k]), k, "count_lt"); } }
}
MC_MAIN
