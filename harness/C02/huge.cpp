// mc: flags='-O1'
// Size ladder across the 10-, 12- and 16-bit borders for range-apply trees: difference-array oracle.
#include "mc.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
typedef unsigned long long u; struct N { u s; u c; }; static N op(N a, N b) { return { a.s + b.s, a.c + b.c }; } static N e() { return { 0, 0 }; } struct A { u a = 1, b = 0; }; static N mp(A f, N x) { return { f.a * x.s + f.b * x.c, x.c }; } static A comp(A f, A g) { return { f.a * g.a, f.a * g.b + f.b }; } static A id() { return {}; } static u mu(A f, u x) { return f.a * x + f.b; } static u ma(u f, u x) { return f + x; } static u zu() { return 0; }
MC_GROUP(range_trees) {
    mc::bound("n in {511,513,1023,1024,1025,2049,4097,65535,65536,65537,70001}: 60 affine range applications at power-of-two borders, then every element and a ladder of range sums, interleaved with point writes");
    for (int n : { 511, 513, 1023, 1024, 1025, 2049, 4097, 65535, 65536, 65537, 70001 }) { MC_CASE(n); std::vector<N> a(n); std::vector<u> v(n), w(n); for (int i = 0; i < n; ++i) v[i] = w[i] = i * 2654435761ULL % 1000003, a[i] = { v[i], 1 }; suisen::LazySegmentTree<N, op, e, A, mp, comp, id> s(a); suisen::DualSegmentTree<u, A, mu, comp, id> d(v); suisen::CommutativeDualSegmentTree<u, u, ma, ma, zu> c(w);
        std::vector<int> q; for (int k = 1; k <= n; k *= 2) for (int z = -1; z <= 1; ++z) for (int x : { k + z, n - k - z }) if (0 <= x && x <= n) q.push_back(x); q.push_back(n);
        for (int i = 0; i < 60; ++i) { int l = q[(i * 7) % q.size()], r = q[(i * 13 + 5) % q.size()]; if (l > r) std::swap(l, r); A f{ u(2 * i + 3), u(i * i + 1) }; s.apply(l, r, f); d.apply(l, r, f); c.apply(l, r, u(i + 1)); for (int j = l; j < r; ++j) v[j] = mu(f, v[j]), w[j] += i + 1; if (i % 9 == 4) { int p = (i * 1237) % n; s.set(p, N{ 5, 1 }); d.apply(p, p + 1, A{ 0, 5 }); v[p] = 5; } if (i % 10 == 0 && r > l) { u t = 0; for (int j = l; j < r; ++j) t += v[j]; MC_EQ(s(l, r).s, t, "prod"); } mc::step(); }
        std::vector<u> p(n + 1); for (int i = 0; i < n; ++i) p[i + 1] = p[i] + v[i]; for (size_t i = 0; i < q.size(); ++i) for (size_t j = i; j < q.size(); j += 3) { int l = std::min(q[i], q[j]), r = std::max(q[i], q[j]); MC_EQ(s(l, r).s, p[r] - p[l], "prod after all"); MC_EQ(s.max_right(l, [&](N x) { return x.c <= u(r - l); }), r, "max_right"); MC_EQ(s.min_left(r, [&](N x) { return x.c <= u(r - l); }), l, "min_left"); } for (int i = 0; i < n; ++i) { u x = d[i]; MC_EQ(x, v[i], "dual"); MC_EQ(c.get(i), w[i], "commutative dual"); if (i % 5 == 0) MC_EQ(s.get(i).s, v[i], "get"); } }
}
MC_MAIN
