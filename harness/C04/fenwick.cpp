#include "free.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
using namespace fr; typedef unsigned long long u64; typedef long long ll;
using F = suisen::FenwickTree<u64>;
static void full(const F& f, const std::vector<u64>& a) { int n = a.size(); MC_EQ(f.size(), n, "size"); for (int l = 0; l <= n; ++l) { u64 w = 0; for (int r = l; r <= n; ++r) { MC_EQ(f.sum(l, r), w, "sum " << l << "," << r << " n=" << n); MC_EQ(f(l, r), w, "()"); if (r < n) w += a[r]; } } }
MC_GROUP(one_d) {
    mc::bound("n<=7(9), three constructors, depth 3 of add and every proxy assignment, all ranges");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, mc::T(7, 9)), how = c.choose(3); std::vector<u64> a(n); if (how) for (int i = 0; i < n; ++i) a[i] = K(i); auto cp = a; F f = how == 0 ? F(n) : how == 1 ? F(a) : F(std::move(cp)); MC_LOG("n=" << n << " ctor " << how);
        full(f, a);
        for (int d = 0; n && d < 3; ++d) { int i = c.choose(n), k = c.choose(2); if (k == 0) f.add(i, K(50 + d)), a[i] += K(50 + d); else f[i] = K(60 + d), a[i] = K(60 + d); MC_LOG((k ? "assign " : "add ") << i); full(f, a); for (int j = 0; j < n; ++j) MC_EQ(u64(f[j]), a[j], "[]"); }
    });
}
MC_GROUP(proxy) {
    mc::bound("every proxy operator on every position, n<=9");
    for (int n = 1; n <= 9; ++n) for (int i = 0; i < n; ++i) for (int k = 0; k < 8; ++k) { MC_CASE(n, i, k); std::vector<ll> a(n); for (int j = 0; j < n; ++j) a[j] = 100 + 17 * j; suisen::FenwickTree<ll> f(a); ll v = 7; auto p = f[i]; switch (k) { case 0: ++p; ++a[i]; break; case 1: --p; --a[i]; break; case 2: p += v; a[i] += v; break; case 3: p -= v; a[i] -= v; break; case 4: p *= v; a[i] *= v; break; case 5: p /= v; a[i] /= v; break; case 6: p %= v; a[i] %= v; break; case 7: p = v; a[i] = v; break; } for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) MC_EQ(f(l, r), std::accumulate(a.begin() + l, a.begin() + r, 0LL), "after proxy op " << k); }
    for (int n = 1; n <= 5; ++n) for (int m = 1; m <= 4; ++m) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int k = 0; k < 8; ++k) { MC_CASE(n, m, i, j, k); std::vector<std::vector<ll>> a(n, std::vector<ll>(m)); suisen::FenwickTree2D<ll> f(n, m); for (int x = 0; x < n; ++x) for (int y = 0; y < m; ++y) a[x][y] = 100 + 17 * x + 5 * y, f.add(x, y, a[x][y]); ll v = 7; auto p = f[{ i, j }]; switch (k) { case 0: ++p; ++a[i][j]; break; case 1: --p; --a[i][j]; break; case 2: p += v; a[i][j] += v; break; case 3: p -= v; a[i][j] -= v; break; case 4: p *= v; a[i][j] *= v; break; case 5: p /= v; a[i][j] /= v; break; case 6: p %= v; a[i][j] %= v; break; case 7: p = v; a[i][j] = v; break; }
        for (int x = 0; x < n; ++x) for (int y = 0; y < m; ++y) MC_EQ(ll(f[{ x, y }]), a[x][y], "2d proxy"); ll t = 0; for (auto& r : a) for (ll z : r) t += z; MC_EQ(f(0, n, 0, m), t, "2d total"); }
}
MC_GROUP(one_d_sizes) { mc::bound("n in 0..40,63..66,127..130,255..258: built from a vector, every prefix, every single add"); for (int n = 0; n <= 258; ++n) { if ((n > 40 && n < 63) || (n > 66 && n < 127) || (n > 130 && n < 255)) continue; std::vector<u64> a(n); for (int i = 0; i < n; ++i) a[i] = K(i); F f(a); for (int i = 0; i < n; ++i) { MC_CASE(n, i); f.add(i, K(1000)); a[i] += K(1000); u64 w = 0; for (int r = 0; r <= n; ++r) { MC_EQ(f.sum(0, r), w, "prefix " << r << " n=" << n); if (r < n) w += a[r]; } } if (!n) MC_CASE(0); MC_EQ(f.sum(0, n), std::accumulate(a.begin(), a.end(), (u64)0), "total"); } }
MC_GROUP(map_fenwick) {
    mc::bound("huge index spaces (int, long long; ordered and unordered), depth 3 over extreme positions");
    mc::explore([&](mc::Chooser& c) {
        ll n = c.pick({ 1LL, 2LL, 7LL, 8LL, (1LL << 40) + 5, 1000000000000000000LL, 1LL << 60 }); std::set<ll> ps; for (ll p : { 0LL, 1LL, n / 2, n / 2 - 1, n - 1, n - 2, n / 3, 1LL << 33 }) if (0 <= p && p < n) ps.insert(p); std::vector<ll> P(ps.begin(), ps.end());
        suisen::MapFenwickTree<u64, ll> f(n); suisen::MapFenwickTree<u64, ll, true> g(n); std::map<ll, u64> m;
        for (int d = 0; d < mc::depth(3); ++d) { ll p = c.pick(P); if (d == 1) f[p] += K(d), g[p] += K(d); else f.add(p, K(d)), g.add(p, K(d)); m[p] += K(d); MC_LOG("n=" << n << " add " << p); }
        std::vector<ll> E; for (ll q : P) E.push_back(q), E.push_back(q + 1); E.push_back(n); for (ll l : E) for (ll r : E) if (l <= r) { u64 w = 0; for (auto [k, v] : m) if (l <= k && k < r) w += v; MC_EQ(f.sum(l, r), w, "map sum " << l << "," << r); MC_EQ(g.sum(l, r), w, "unordered map sum"); MC_EQ(f(l, r), w, "map ()"); }
    });
}
MC_GROUP(two_d) {
    mc::bound("grids up to 4x5 (5x6), two adds anywhere, all rectangles");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, mc::T(4, 5)), m = c.range(1, mc::T(5, 6)); suisen::FenwickTree2D<u64> f(n, m); std::vector<std::vector<u64>> a(n, std::vector<u64>(m));
        for (int d = 0; d < 2; ++d) { int i = c.choose(n), j = c.choose(m); f.add(i, j, K(d)); a[i][j] += K(d); MC_LOG("add " << i << " " << j); }
        for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) for (int d = 0; d <= m; ++d) for (int u = d; u <= m; ++u) { u64 w = 0; for (int x = l; x < r; ++x) for (int y = d; y < u; ++y) w += a[x][y]; MC_EQ(f.sum(l, r, d, u), w, "rect"); MC_EQ(f(l, r, d, u), w, "()"); }
    });
}
// points from a small grid with negative and extreme coordinates
static const int XS[4] = { -1000000000, -1, 0, 7 }; static const int YS[4] = { -5, 0, 1, 1000000000 };
MC_GROUP(two_d_sparse) {
    mc::bound("every subset of <=3(4) registered points of a 4x4 grid incl. extreme coordinates, spare capacity 0/2, two operations (add/set/apply), all rectangles");
    mc::explore([&](mc::Chooser& c) {
        int k = c.range(1, mc::T(3, 4)), spare = c.flag() ? 2 : 0; std::vector<std::pair<int, int>> p; int last = 0; for (int i = 0; i < k; ++i) { last = c.range(last, 15); p.push_back({ XS[last / 4], YS[last % 4] }); if (i + 1 < k && last == 15 && p.size() > 2) return; }
        std::set<int> xs; for (auto& q : p) xs.insert(q.first); suisen::FenwickTree2DSparse<u64> f(xs.size() + spare); for (auto& q : p) f.add_point(q.first, q.second); f.build(); std::map<std::pair<int, int>, u64> m; MC_LOG(mc::show(p));
        for (int d = 0; d < 2; ++d) { auto q = c.pick(p); int o = d == 0 ? 0 : c.choose(3); if (o == 0) f.add(q.first, q.second, K(d)), m[q] += K(d); else if (o == 1) f.set(q.first, q.second, K(d)), m[q] = K(d); else f.apply(q.first, q.second, [&](u64 x) { MC_EQ(x, m[q], "apply sees"); return x * 3 + 1; }), m[q] = m[q] * 3 + 1; MC_LOG("op " << o << " at " << q.first << "," << q.second); }
        std::vector<int> ex{ -2000000000, -1000000000, -999999999, -1, 0, 1, 7, 8, 2000000000 }, ey{ -6, -5, -4, 0, 1, 2, 1000000000, 1000000001 };
        for (int l : ex) for (int r : ex) if (l <= r) for (int dd : ey) for (int u : ey) if (dd <= u) { u64 w = 0; for (auto& [q, v] : m) if (l <= q.first && q.first < r && dd <= q.second && q.second < u) w += v; MC_EQ(f.sum(l, r, dd, u), w, "rect " << l << "," << r << "," << dd << "," << u); }
        for (auto& q : p) MC_EQ(f.get(q.first, q.second), m[q], "get");
    });
}
static u64 uadd(u64 a, u64 b) { return a + b; } static u64 uzero() { return 0; } static u64 uneg(u64 a) { return -a; }
static string sadd(string a, string b) { a += b; std::sort(a.begin(), a.end()); return a; }   // free commutative monoid
using FP = suisen::FenwickTreePrefix<string, sadd, eps>;
MC_GROUP(prefix) {
    mc::bound("n<=17 from vector or empty, depth 2 of apply, all prefixes; free commutative monoid");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, 17); bool vec = c.flag(); std::vector<string> a(n); if (vec) for (int i = 0; i < n; ++i) a[i] = string(1, letter(i)); FP f = vec ? FP(a) : FP(n);
        for (int d = 0; d <= 2; ++d) { if (d) { if (!n) return; int i = c.choose(n); f.apply(i, string(1, digit(d))); a[i] = sadd(a[i], string(1, digit(d))); MC_LOG("n=" << n << " apply " << i); } string w; for (int r = 0; r <= n; ++r) { MC_EQ(f.prefix_query(r), w, "prefix " << r << " n=" << n); if (r < n) w = sadd(w, a[r]); } }
    });
}
template <int D> using CF = suisen::CompressedFenwickTree<u64, uadd, uzero, uneg, D, ll>;
template <int D> using CP = suisen::CompressedFenwickTreePrefix<string, sadd, eps, D, ll>;
MC_GROUP(compressed1) {
    mc::bound("every subset of 7(8) coordinates, two applies, all ranges between candidates");
    static const std::vector<ll> C{ -(1LL << 50), -3, -2, 0, 5, 6, 1LL << 50, 1LL << 55 };
    mc::explore([&](mc::Chooser& c) {
        CF<1> f; CP<1> g; std::vector<ll> p; for (int i = 0; i < mc::T(7, 8); ++i) if (c.flag()) p.push_back(C[i]); for (auto x : p) f.add_point(x), g.add_point(x); if (!p.empty()) f.add_point(p[0]); f.build(); g.build(); std::map<ll, u64> m; std::map<ll, string> s;
        for (int d = 0; !p.empty() && d < 2; ++d) { ll x = c.pick(p); f.apply(x, K(d)); g.apply(x, string(1, letter(d))); m[x] += K(d); s[x] = sadd(s[x], string(1, letter(d))); }
        for (ll l : C) { string w; for (auto& [k, v] : s) if (k < l) w = sadd(w, v); MC_EQ(g.prefix_query(l), w, "prefix " << l); for (ll r : C) if (l <= r) { u64 z = 0; for (auto& [k, v] : m) if (l <= k && k < r) z += v; MC_EQ(f.query(l, r), z, "query"); MC_EQ(f.query({ l, r }), z, "query(pair)"); } }
    });
}
MC_GROUP(compressed23) {
    mc::bound("<=3 points of a 3x3 grid (2-d) / <=3(4) of a 2x3x2 grid (3-d), two applies, all boxes");
    mc::explore([&](mc::Chooser& c) {
        if (c.flag()) { std::vector<std::array<ll, 2>> p; int last = 0, k = c.range(1, 3); for (int i = 0; i < k; ++i) { last = c.range(last, 8); p.push_back({ last / 3 * 10 - 10, last % 3 * 5 }); } CF<2> f; CP<2> g; for (auto& q : p) f.add_point(q), g.add_point(q); f.build(); g.build(); std::map<std::array<ll, 2>, u64> m; std::map<std::array<ll, 2>, string> s;
            for (int d = 0; d < 2; ++d) { auto q = c.pick(p); f.apply(q, K(d)); m[q] += K(d); g.apply(q, string(1, letter(d))); s[q] = sadd(s[q], string(1, letter(d))); }
            for (ll l = -11; l <= 11; l += 1 + (l == -10 || l == -1) * 8) for (ll d = -1; d <= 11; d += 2) { string w; for (auto& [q, v] : s) if (q[0] < l && q[1] < d) w = sadd(w, v); MC_EQ(g.prefix_query({ l, d }), w, "2-d prefix"); for (ll r = l; r <= 11; r += 3) for (ll u = d; u <= 11; u += 2) { u64 z = 0; for (auto& [q, v] : m) if (l <= q[0] && q[0] < r && d <= q[1] && q[1] < u) z += v; MC_EQ(f.query({ std::pair<ll, ll>{ l, r }, std::pair<ll, ll>{ d, u } }), z, "2-d box"); } } }
        else { std::vector<std::array<ll, 3>> p; int last = 0, k = c.range(1, mc::T(3, 4)); for (int i = 0; i < k; ++i) { last = c.range(last, 11); p.push_back({ last / 6, last / 2 % 3, last % 2 }); } CF<3> f; CP<3> g; for (auto& q : p) f.add_point(q), g.add_point(q); f.build(); g.build(); std::map<std::array<ll, 3>, u64> m; std::map<std::array<ll, 3>, string> s;
            for (int d = 0; d < 2; ++d) { auto q = c.pick(p); f.apply(q, K(d)); m[q] += K(d); g.apply(q, string(1, letter(d))); s[q] = sadd(s[q], string(1, letter(d))); }
            for (int a = 0; a < 3; ++a) for (int b = a; b < 3; ++b) for (int d = 0; d < 4; ++d) for (int e = d; e < 4; ++e) for (int h = 0; h < 3; ++h) for (int i = h; i < 3; ++i) { u64 z = 0; for (auto& [q, v] : m) if (a <= q[0] && q[0] < b && d <= q[1] && q[1] < e && h <= q[2] && q[2] < i) z += v; using pr = std::pair<ll, ll>; MC_EQ(f.query({ pr{ a, b }, pr{ d, e }, pr{ h, i } }), z, "3-d box"); if (a + d + h == 0) { string w; for (auto& [q, v] : s) if (q[0] < b && q[1] < e && q[2] < i) w = sadd(w, v); MC_EQ(g.prefix_query({ b, e, i }), w, "3-d prefix"); } } }
    });
}
// ---------------------------------------------------------------- set
using FS = suisen::fenwick_tree_set;
static void fullset(const FS& f, const std::set<int>& s, const std::vector<int>& probe, int n) {
    MC_EQ(f.size(), (int)s.size(), "size"); std::vector<int> v(s.begin(), s.end());
    for (int k = -2; k <= (int)v.size() + 1; ++k) { int w = 0 <= k && k < (int)v.size() ? v[k] : -1; MC_EQ(f.kth_element(k), w, "kth " << k << " n=" << n); MC_EQ(f[k], w, "[]"); }
    { std::vector<int> it(f.begin(), f.end()); MC_EQ(it, v, "iteration"); MC_EQ(int(f.end() - f.begin()), (int)v.size(), "distance"); }
    for (int x : probe) {
        int lt = std::lower_bound(v.begin(), v.end(), x) - v.begin(), le = std::upper_bound(v.begin(), v.end(), x) - v.begin(), sz = v.size();
        MC_EQ(f.contains(x), lt != le, "contains " << x); MC_EQ(f.count_lt(x), lt, "count_lt " << x << " n=" << n); MC_EQ(f.count_leq(x), le, "count_leq " << x); MC_EQ(f.count_gt(x), sz - le, "count_gt " << x); MC_EQ(f.count_geq(x), sz - lt, "count_geq " << x);
        MC_EQ(f.max_leq(x), le ? v[le - 1] : -1, "max_leq " << x << " n=" << n); MC_EQ(f.max_lt(x), lt ? v[lt - 1] : -1, "max_lt " << x); MC_EQ(f.min_geq(x), lt < sz ? v[lt] : -1, "min_geq " << x << " n=" << n); MC_EQ(f.min_gt(x), le < sz ? v[le] : -1, "min_gt " << x);
        auto lo = f.lower_bound(x), hi = f.upper_bound(x), fi = f.find(x); MC_EQ(lo.index(), lt, "lower_bound"); MC_EQ(hi.index(), le, "upper_bound"); MC_EQ(fi == f.end(), lt == le, "find"); MC_EQ(lo.has_value(), lt < sz, "has_value"); if (lt < sz) MC_EQ(*lo, v[lt], "*lower_bound"); if (lt + 1 < sz) { MC_EQ(lo[1], v[lt + 1], "it[1]"); auto nx = lo; ++nx; MC_EQ(*nx, v[lt + 1], "++it"); MC_CHECK(lo < nx && nx > lo && lo <= nx && nx >= lo && lo != nx, "iterator order"); nx--; MC_CHECK(nx == lo, "it--"); }
    }
}
static std::vector<int> probes(int n) { std::set<int> s; for (int b : { 0, 64, 128, 192, 256, 320, n }) for (int d = -2; d <= 2; ++d) s.insert(b + d); return std::vector<int>(s.begin(), s.end()); }
MC_GROUP(set_small) {
    mc::bound("n<=8(10), every subset, three constructors, then one insert/erase of every value incl. out-of-range erase");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, mc::T(8, 10)); std::set<int> s; for (int i = 0; i < n; ++i) if (c.flag()) s.insert(i); std::vector<int> v(s.begin(), s.end()), z(n); for (int x : v) z[x] = 1; int how = c.choose(3); FS f = how == 0 ? FS(n, v) : how == 1 ? FS(z) : FS(n); if (how == 2) for (int x : v) MC_EQ(f.insert(x), true, "insert"); std::vector<int> pr; for (int i = -2; i <= n + 2; ++i) pr.push_back(i); fullset(f, s, pr, n);
        if (n) { int x = c.choose(n); bool in = s.count(x); MC_EQ(f.insert(x), !in, "insert " << x); s.insert(x); fullset(f, s, pr, n); int y = c.range(-1, n); bool iy = s.count(y); MC_EQ(f.erase(y), iy, "erase " << y); s.erase(y); fullset(f, s, pr, n); }
    });
}
MC_GROUP(set_words) {
    mc::bound("n in {63,64,65,127,128,129,192,193,256,257,300,320,321}: every subset of 7(8) word-boundary values, inserted or constructed, one erase");
    mc::explore([&](mc::Chooser& c) {
        int n = c.pick({ 63, 64, 65, 127, 128, 129, 192, 193, 256, 257, 300, 320, 321 }); std::vector<int> cand; for (int x : { 0, 62, 63, 64, 127, 128, 191, 255, 256, 299, 320, n - 1 }) if (x < n && (cand.empty() || x > cand.back())) cand.push_back(x); if (!mc::thorough() && cand.size() > 8) cand.erase(cand.begin() + 2); 
        std::set<int> s; for (int x : cand) if (c.flag()) s.insert(x); FS f(n); for (int x : s) f.insert(x); auto pr = probes(n); fullset(f, s, pr, n); FS g(n, std::vector<int>(s.begin(), s.end())); fullset(g, s, pr, n); if (!s.empty()) { int y = *s.rbegin(); MC_EQ(f.erase(y), true, "erase"); s.erase(y); fullset(f, s, pr, n); auto it = g.erase(g.find(y)); fullset(g, s, pr, n); MC_EQ(it.index(), (int)s.size(), "erase(it)"); }
    });
}
MC_GROUP(set_sizes) { mc::bound("full set for n in 0..140, 190..195, 255..258, 1000, 4095..4097, 5000; drained by removing every third"); for (int n = 0; n <= 5000; ++n) { if (!(n <= 140 || (n >= 190 && n <= 195) || (n >= 255 && n <= 258) || n == 1000 || (n >= 4095 && n <= 4097) || n == 5000)) continue; MC_CASE(n); FS f(n, true); std::set<int> s; for (int i = 0; i < n; ++i) s.insert(i); std::vector<int> pr; for (int i = -1; i <= n + 1; i += 1 + n / 150) pr.push_back(i); fullset(f, s, pr, n); for (int r = 0; r < 3; ++r) { for (int i = r; i < n; i += 3) { f.erase(i); s.erase(i); } fullset(f, s, pr, n); } for (int i = 0; i < n; i += 64) f.insert(i), s.insert(i); fullset(f, s, pr, n); } }
// ---------------------------------------------------------------- rectangle add / rectangle sum
struct Rect { int l, r, d, u; };
static Rect rect(mc::Chooser& c, int X) { int l = c.range(0, X), r = c.range(l, X), d = c.range(0, X), u = c.range(d, X); return { l - 1, r - 1, d - 2, u - 2 }; }
static ll inter(const Rect& a, const Rect& b) { ll w = std::max(0, std::min(a.r, b.r) - std::max(a.l, b.l)), h = std::max(0, std::min(a.u, b.u) - std::max(a.d, b.d)); return w * h; }
MC_GROUP(rect_sum) {
    mc::bound("two rectangles with corners in a 4x4 grid (incl. negative coordinates), all query rectangles; online and offline variants");
    mc::explore([&](mc::Chooser& c) {
        int X = mc::T(2, 3); Rect a = rect(c, X), b = rect(c, X); if (c.flag()) { a.l *= 100000; a.r *= 100000; }
        std::set<int> xs{ a.l, a.r, b.l, b.r }; suisen::RectangleAddRectangleSum<ll> s(xs.size()); s.register_add_query_rectangle(a.l, a.r, a.d, a.u); s.register_add_query_rectangle(b.l, b.r, b.d, b.u); s.build(); s.add(a.l, a.r, a.d, a.u, 7); MC_LOG("rects " << a.l << "," << a.r << "," << a.d << "," << a.u << " / " << b.l << "," << b.r << "," << b.d << "," << b.u);
        std::vector<Rect> Q; std::vector<int> ex{ a.l, a.r, b.l, b.r, 0, -3 }, ey{ a.d, a.u, b.d, b.u, -3, 5 }; std::sort(ex.begin(), ex.end()); ex.erase(std::unique(ex.begin(), ex.end()), ex.end()); std::sort(ey.begin(), ey.end()); ey.erase(std::unique(ey.begin(), ey.end()), ey.end()); for (int l : ex) for (int r : ex) if (l <= r) for (int d : ey) for (int u : ey) if (d <= u) Q.push_back({ l, r, d, u });
        for (auto& q : Q) MC_EQ(s.sum(q.l, q.r, q.d, q.u), 7 * inter(a, q), "one rectangle"); s.add(b.l, b.r, b.d, b.u, -3); std::vector<suisen::SumQuery> sq; std::vector<suisen::AddQuery<ll>> aq{ { a.l, a.r, a.d, a.u, 7 }, { b.l, b.r, b.d, b.u, -3 } }; for (auto& q : Q) sq.emplace_back(q.l, q.r, q.d, q.u); auto st = suisen::static_rectangle_add_rectangle_sum<ll>(aq, sq);
        for (size_t i = 0; i < Q.size(); ++i) { ll w = 7 * inter(a, Q[i]) - 3 * inter(b, Q[i]); MC_EQ(s.sum(Q[i].l, Q[i].r, Q[i].d, Q[i].u), w, "two rectangles"); MC_EQ(st[i], w, "static variant"); }
    });
}
MC_GROUP(rect_many) {
    mc::bound("up to 40 fixed overlapping rectangles for each of 12 layouts, all grid queries; online, static and offline-point variants");
    for (int lay = 0; lay < 12; ++lay) for (int m : { 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 40 }) {
        MC_CASE(lay, m); std::vector<Rect> R; std::vector<ll> W; for (int i = 0; i < m; ++i) { int l = K(lay * 100 + i) % 9, r = l + K(lay * 100 + i + 50) % 5, d = K(lay * 77 + i + 9) % 8 - 3, u = d + K(lay * 31 + i * 3) % 6; R.push_back({ l, r, d, u }); W.push_back(ll(K(i) % 1000) - 500); }
        std::set<int> xs; for (auto& q : R) xs.insert(q.l), xs.insert(q.r); suisen::RectangleAddRectangleSum<ll> s(xs.size()); suisen::OfflineRectangleAddPointGet<ll, int> o; std::vector<ll> want; std::vector<suisen::AddQuery<ll>> aq; for (auto& q : R) s.register_add_query_rectangle(q.l, q.r, q.d, q.u); s.build();
        for (int i = 0; i <= m; ++i) { for (int x = -1; x <= 14; x += 1) for (int y = -4; y <= 11; y += 3) { ll w = 0; for (int j = 0; j < i; ++j) if (R[j].l <= x && x < R[j].r && R[j].d <= y && y < R[j].u) w += W[j]; o.get(x, y); want.push_back(w); } if (i < m) { s.add(R[i].l, R[i].r, R[i].d, R[i].u, W[i]); o.add(R[i].l, R[i].r, R[i].d, R[i].u, W[i]); aq.emplace_back(R[i].l, R[i].r, R[i].d, R[i].u, W[i]); } }
        auto got = o.solve(); MC_EQ(got, want, "offline rectangle add point get"); std::vector<suisen::SumQuery> sq; std::vector<ll> sw; for (int l = -1; l <= 13; l += 2) for (int r = l; r <= 14; r += 3) for (int d = -4; d <= 10; d += 3) for (int u = d; u <= 11; u += 2) { ll w = 0; for (int j = 0; j < m; ++j) w += W[j] * inter(R[j], { l, r, d, u }); MC_EQ(s.sum(l, r, d, u), w, "online"); sq.emplace_back(l, r, d, u); sw.push_back(w); } MC_EQ(suisen::static_rectangle_add_rectangle_sum<ll>(aq, sq), sw, "static");
    }
}
MC_GROUP(offline_point) {
    mc::bound("every interleaving of <=3(4) rectangles (from 6) and <=2 point reads (3x3 points), up to 5(6) events");
    static const Rect R[6] = { { 0, 2, 0, 2 }, { 1, 3, 1, 3 }, { 0, 3, 1, 2 }, { 1, 2, 0, 3 }, { -5, 1, -5, 1 }, { 1, 1, 0, 3 } };
    mc::explore([&](mc::Chooser& c) {
        suisen::OfflineRectangleAddPointGet<ll, int> o; std::vector<std::pair<Rect, ll>> cur; std::vector<ll> want; int L = c.range(1, mc::T(4, 5));
        for (int i = 0; i < L; ++i) { if (c.flag()) { Rect r = R[c.choose(6)]; ll w = 1LL << (8 * i); o.add(r.l, r.r, r.d, r.u, w); cur.push_back({ r, w }); MC_LOG("add " << r.l << "," << r.r << "," << r.d << "," << r.u); } else { int x = c.range(0, 2), y = c.range(0, 2); o.get(x, y); ll w = 0; for (auto& [r, v] : cur) if (r.l <= x && x < r.r && r.d <= y && y < r.u) w += v; want.push_back(w); MC_LOG("get " << x << "," << y); } }
        MC_EQ(o.solve(), want, "offline answers");
    });
}
MC_GROUP(set_iterators) { mc::bound("fenwick_tree_set: every subset of {0..6} and of 5 values spread over three words: iterators at every pair of positions under every operation, erase(iterator), kth_element out of range"); mc::explore([&](mc::Chooser& c) { bool wide = c.flag(); std::vector<int> dom = wide ? std::vector<int>{ 0, 63, 64, 127, 150 } : std::vector<int>{ 0, 1, 2, 3, 4, 5, 6 }; int N = wide ? 151 : 7; std::vector<int> v; int mask = c.choose(1 << dom.size()); for (size_t i = 0; i < dom.size(); ++i) if (mask >> i & 1) v.push_back(dom[i]); FS s(N, v); int m = v.size(); auto b = s.begin(); MC_EQ(s.end() - b, m, "length");
    for (int i = 0; i <= m; ++i) for (int j = 0; j <= m; ++j) { auto p = b + i, q = j + b; MC_EQ(p - q, i - j, "difference"); MC_EQ(p == q, i == j, "=="); MC_EQ(p != q, i != j, "!="); MC_EQ(p < q, i < j, "<"); MC_EQ(p <= q, i <= j, "<="); MC_EQ(p > q, i > j, ">"); MC_EQ(p >= q, i >= j, ">="); if (j <= i) { auto r = p - j; MC_EQ(r.index(), i - j, "it - k"); auto t = p; t -= j; MC_CHECK(t == r, "-="); if (i < m) MC_EQ(p[-j], v[i - j], "[] backwards"); } if (i + j < m) MC_EQ(p[j], v[i + j], "[]"); }
    for (int i = 0; i <= m; ++i) { auto p = b + i; MC_EQ(p.has_value(), i < m, "has_value"); MC_EQ(p.index(), i, "index"); if (i == m) continue; MC_EQ(*p, v[i], "*"); auto q = p++; MC_CHECK(q.index() == i && p.index() == i + 1, "post ++"); auto r = p--; MC_CHECK(r.index() == i + 1 && p.index() == i, "post --"); MC_EQ((--r).index(), i, "--"); MC_EQ((++r).index(), i + 1, "++"); MC_CHECK(s.find(v[i]) == p, "find"); MC_CHECK(s.lower_bound(v[i]) == p && s.upper_bound(v[i]) == p + 1, "bounds"); }
    MC_CHECK(!(b - 1).has_value(), "before the first"); for (int i = 0; i < m; ++i) { FS t(N, v); auto it = t.erase(t.begin() + i); std::vector<int> w = v; w.erase(w.begin() + i); MC_EQ(t.size(), m - 1, "size after erase"); MC_EQ(it.index(), i, "erase returns the next position"); if (i < m - 1) MC_EQ(*it, w[i], "next element"); else MC_CHECK(it == t.end(), "end"); std::vector<int> g; for (int x : t) g.push_back(x); MC_EQ(g, w, "contents after erase"); }
    mc::step(m * m); }); }
MC_GROUP(large_sizes) {
    mc::bound("n in {127,128,129,200,256,257,300}: prefix / compressed (1-d, 2-d) / 2-d sparse / dense 2-d trees, every position updated, every prefix; 300 rectangles added and 300 points read");
    for (int n : { 127, 128, 129, 200, 256, 257, 300 }) {
        MC_CASE(n); std::vector<u64> v(n); for (int i = 0; i < n; ++i) v[i] = K(i); suisen::FenwickTreePrefix<u64, uadd, uzero> a(v), b(n); CF<1> c1; CF<2> c2; suisen::CompressedFenwickTreePrefix<u64, uadd, uzero, 1, ll> d1; suisen::CompressedFenwickTreePrefix<u64, uadd, uzero, 2, ll> d2; suisen::FenwickTree2DSparse<u64> e(n); suisen::FenwickTree2D<u64> g(n, 3), h(3, n);
        auto X = [&](int i) { return ll(i) * 7 - 500; }; auto Y = [&](int i) { return ll(i * 37 % 301) * 2 - 100; }; for (int i = n; i--;) { c1.add_point(X(i)); d1.add_point(X(i)); c2.add_point({ X(i), Y(i) }); d2.add_point({ X(i), Y(i) }); e.add_point(X(i), Y(i)); } c1.build(); c2.build(); d1.build(); d2.build(); e.build();
        for (int i = 0; i < n; ++i) { b.apply(i, v[i]); c1.apply(X(i), v[i]); d1.apply(X(i), v[i]); c2.apply({ X(i), Y(i) }, v[i]); d2.apply({ X(i), Y(i) }, v[i]); e.add(X(i), Y(i), v[i]); g.add(i, i % 3, v[i]); h.add(i % 3, i, v[i]); }
        using pr = std::pair<ll, ll>; u64 w = 0; for (int i = 0; i <= n; ++i) {
            MC_EQ(a.prefix_query(i), w, "prefix"); MC_EQ(b.prefix_query(i), w, "prefix (applied)"); MC_EQ(d1.prefix_query(X(i)), w, "compressed prefix"); MC_EQ(c1.query(X(0), X(i)), w, "compressed"); if (i < n) w += v[i];
            for (int k = 0; k < 4; ++k) { int l = k == 0 ? 0 : k == 1 ? i / 2 : k == 2 ? std::max(0, i - 129) : std::max(0, i - 1); ll d = k == 2 ? -200 : (i * 11) % 500 - 120, u = d + (k % 2 ? 9999 : 200); u64 z = 0, y = 0, s = 0; for (int j = 0; j < i; ++j) { bool in = d <= Y(j) && Y(j) < u; if (j >= l && in) z += v[j]; if (Y(j) < u) y += v[j]; if (j >= l && j % 3 == k % 3) s += v[j]; } MC_EQ(c2.query({ pr{ X(l), X(i) }, pr{ d, u } }), z, "2-d compressed"); MC_EQ(e.sum(X(l), X(i), d, u), z, "2-d sparse"); MC_EQ(d2.prefix_query({ X(i), u }), y, "2-d prefix"); MC_EQ(g.sum(l, i, k % 3, k % 3 + 1), s, "2-d"); MC_EQ(h.sum(k % 3, k % 3 + 1, l, i), s, "2-d transposed"); }
        }
        suisen::OfflineRectangleAddPointGet<ll, int> o; suisen::RectangleAddRectangleSum<ll> rs(2 * n + 2); std::vector<suisen::AddQuery<ll>> aq; std::vector<Rect> R; std::vector<ll> want; for (int i = 0; i < n; ++i) { int l = i * 13 % 307, r = l + i % 50, d = i * 29 % 311 - 100, u = d + i % 70; R.push_back({ l, r, d, u }); rs.register_add_query_rectangle(l, r, d, u); } rs.build();
        for (int i = 0; i < n; ++i) { rs.add(R[i].l, R[i].r, R[i].d, R[i].u, i + 1); o.add(R[i].l, R[i].r, R[i].d, R[i].u, i + 1); aq.emplace_back(R[i].l, R[i].r, R[i].d, R[i].u, i + 1); int x = R[i / 2].l + 1, y = R[i / 2].d; ll s = 0; for (int j = 0; j <= i; ++j) if (R[j].l <= x && x < R[j].r && R[j].d <= y && y < R[j].u) s += j + 1; o.get(x, y); want.push_back(s); } MC_EQ(o.solve(), want, "offline rectangle add");
        std::vector<suisen::SumQuery> sq; std::vector<ll> sw; for (int i = 0; i < n; ++i) { Rect q{ R[i].l / 2, R[i].r + 9, R[i].d - i % 40, R[i].u + 5 }; ll s = 0; for (int j = 0; j < n; ++j) s += (j + 1) * inter(R[j], q); sq.emplace_back(q.l, q.r, q.d, q.u); sw.push_back(s); MC_EQ(rs.sum(q.l, q.r, q.d, q.u), s, "rectangle sum"); } MC_EQ(suisen::static_rectangle_add_rectangle_sum<ll>(aq, sq), sw, "static rectangle sum");
    }
}
MC_PERIODIC(map_fenwick, 25, 8, false)
MC_GROUP(set_from_sequence) {
    mc::bound("fenwick_tree_set built from a 0/1 sequence of length 200: all ones, every single position, every single hole, three periodic patterns, also with the marker value 0; contents, size, k-th element and rank");
    for (int p = -1; p < 403; ++p) for (int one = 0; one < 2; ++one) { MC_CASE(p, one); int n = 200; std::vector<int> s(n); for (int i = 0; i < n; ++i) s[i] = (p < 0 ? true : p < 200 ? i == p : p < 400 ? i != p - 200 : i % (p - 398) == 0) ? one : 1 - one; FS t(s, one); std::vector<int> w; for (int i = 0; i < n; ++i) if (s[i] == one) w.push_back(i); MC_EQ(t.size(), (int)w.size(), "size"); for (int i = 0; i < n; ++i) MC_CHECK(t.contains(i) == (s[i] == one), "contains " << i); std::vector<int> got(t.begin(), t.end()); MC_CHECK(got == w, "iteration"); for (int i = 0; i < n; i += 11) MC_EQ(t.count_lt(i), int(std::lower_bound(w.begin(), w.end(), i) - w.begin()), "count_lt"); mc::step(); }
}
MC_MAIN
