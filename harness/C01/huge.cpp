// mc: flags='-O1'
// Size ladder across the 10-, 12- and 16-bit borders: prefix-sum oracle.
#include "mc.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
typedef unsigned long long u; static u add(u a, u b) { return a + b; } static u zero() { return 0; }
static u K(u x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; return x ^ (x >> 29); }
MC_GROUP(point_trees) {
    mc::bound("n in {511,513,1023,1024,1025,2049,4097,32767,32769,65535,65536,65537,70001}: built and set element by element; ranges from a border ladder (all powers of two +-1, ends), threshold searches with exact sums");
    for (int n : { 511, 513, 1023, 1024, 1025, 2049, 4097, 32767, 32769, 65535, 65536, 65537, 70001 }) { MC_CASE(n); std::vector<u> a(n), p(n + 1); for (int i = 0; i < n; ++i) a[i] = 1 + K(i) % 1000003, p[i + 1] = p[i] + a[i];
        suisen::SegmentTree<u, add, zero> s(a), t(n); suisen::CompressedSegmentTree<u, add, zero> c; for (int i = 0; i < n; ++i) c.add_point(3 * i - 70000); c.build(); for (int i = n; i--;) { t.set(i, a[i]); c.set(3 * i - 70000, a[i]); }
        std::vector<int> b; for (int k = 1; k <= n; k *= 2) for (int d = -1; d <= 1; ++d) { b.push_back(k + d); b.push_back(n - k - d); } b.push_back(n / 3); b.push_back(n); std::vector<int> q; for (int x : b) if (0 <= x && x <= n) q.push_back(x);
        for (int l : q) for (int r : q) if (l <= r) { u w = p[r] - p[l]; MC_EQ(s(l, r), w, "prod [" << l << "," << r << ")"); MC_EQ(t.prod(l, r), w, "prod (set)"); MC_EQ(c.query(3 * l - 70000, 3 * r - 70000), w, "compressed"); MC_EQ(s.max_right(l, [&](u x) { return x <= w; }), r, "max_right"); MC_EQ(t.min_left(r, [&](u x) { return x <= w; }), l, "min_left"); mc::step(); }
        for (int i = 0; i < n; i += 97) MC_EQ(u(t.get(i)), a[i], "get"); MC_EQ(s.all_prod(), p[n], "all_prod"); }
}
MC_MAIN
