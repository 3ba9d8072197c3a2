#include "free.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include "library/optimization/alien_dp.hpp"
using namespace suisen; typedef long long ll; typedef __int128 LL; using VI = std::vector<int>;
MC_GROUP(monotone_minima) {
    mc::bound("every n x m matrix (n,m<=3(4), values 0..2(3)) whose row arg-minima are non-decreasing; Monge ladders to 40 x 40");
    auto chk = [&](const std::vector<VI>& a, int n, int m) { VI w(n); for (int i = 0; i < n; ++i) w[i] = std::min_element(a[i].begin(), a[i].end()) - a[i].begin(); if (!std::is_sorted(w.begin(), w.end())) return false; int calls = 0; auto r = monotone_minima(n, m, [&](size_t i, size_t j) { if (i >= (size_t)n || j >= (size_t)m) mc::fail("matrix evaluated outside"); return a[i][j]; }); MC_EQ(r, w, "leftmost arg-min"); auto s = monotone_minima(n, m, [&](size_t i, size_t j, size_t k) { ++calls; if (j >= k || i >= (size_t)n || k >= (size_t)m) mc::fail("compare called with col1 >= col2 or outside"); return a[i][j] <= a[i][k]; }); MC_EQ(s, w, "by comparison"); return true; };
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3), m = c.range(n ? 1 : 0, 3); std::vector<VI> a(n, VI(m)); for (auto& r : a) for (int& x : r) x = c.choose(3); chk(a, n, m); });
    if (mc::thorough()) mc::explore([&](mc::Chooser& c) { int n = 4, m = 3; std::vector<VI> a(n, VI(m)); for (auto& r : a) for (int& x : r) x = c.choose(3); chk(a, n, m); });
    int ok = 0; for (int n = 1; n <= 40; ++n) for (int m = 1; m <= 40; m += 1 + m / 8) for (int p = 0; p < 4; ++p) { MC_CASE(n, m, p); std::vector<VI> a(n, VI(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { int d = i * (p + 1) / 2 - j; a[i][j] = d * d / (p == 3 ? 4 : 1) + (p == 2 ? j * j : 0); } ok += chk(a, n, m); } MC_CHECK(ok > 500, "ladders mostly monotone");
}
template <class C> static void alien() {
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, mc::T(4, 5)), base = c.range(-1, 1) * 5; std::vector<C> f(n + 1); f[0] = base; C s = c.range(-3, 1); std::vector<C> sl; for (int i = 0; i < n; ++i) { if (i) s += c.choose(3); f[i + 1] = f[i] + s; sl.push_back(s); } C mn = n ? sl[0] : C(0), mx = n ? sl.back() : C(0); int slack = c.choose(2); mn -= slack * 3, mx += slack * 2;
        auto inf = [&](C p) { C r = f[0]; int a = 0; for (int i = 1; i <= n; ++i) if (f[i] - p * i < r) r = f[i] - p * i, a = i; return std::pair<C, int>(r, a); };          // min argmin
        std::vector<C> g(n + 1); for (int i = 0; i <= n; ++i) g[i] = -f[i];
        auto sup = [&](C p) { C r = g[0]; int a = 0; for (int i = 1; i <= n; ++i) if (g[i] - p * i >= r) r = g[i] - p * i, a = i; return std::pair<C, int>(r, a); };         // max argmax
        for (int x = 0; x <= n; ++x) { MC_EQ((alien_convex<C>(x, mn, mx, [&](C p) -> C { return inf(p).first; })), f[x], "convex, value only, x=" << x); MC_EQ((alien_convex<C>(x, mn, mx, [&](C p) -> std::pair<C, int> { return inf(p); })), f[x], "convex, with arg-min, x=" << x); MC_EQ((alien_concave<C>(x, -mx, -mn, [&](C p) -> C { return sup(p).first; })), g[x], "concave, value only, x=" << x); MC_EQ((alien_concave<C>(x, -mx, -mn, [&](C p) -> std::pair<C, int> { return sup(p); })), g[x], "concave, with arg-max, x=" << x); }
    });
}
MC_GROUP(alien_ll) { mc::bound("every integer convex (and concave) function on 0..n, n<=4(5), first slope -3..1, slope increments 0..2, exact and slack slope bounds, every x"); alien<ll>(); }
MC_GROUP(alien_int) { mc::bound("the functions of alien_ll with int costs"); alien<int>(); }
// ---------------------------------------------------------------- dynamic convex hull
using P = std::pair<int, int>;
static ll cross(P o, P a, P b) { return (ll)(a.first - o.first) * (b.second - o.second) - (ll)(a.second - o.second) * (b.first - o.first); }
// all points of S on the upper hull (collinear ones included), left to right, one per abscissa
static std::vector<P> upper(const std::set<P>& S, int sg) { std::map<int, int> top; for (auto& p : S) { int y = p.second * sg; auto it = top.find(p.first); if (it == top.end() || it->second < y) top[p.first] = y; } std::vector<P> t(top.begin(), top.end()), r; for (auto& p : t) { bool on = true; for (auto& a : t) for (auto& b : t) if (a.first < p.first && p.first < b.first && cross(a, b, p) < 0) on = false; if (on) r.push_back({ p.first, p.second * sg }); } return r; }
static void hull_check(const DynamicConvexHullOffline& h, const std::set<P>& S, const std::vector<int>& co) {
    auto u = upper(S, 1), l = upper(S, -1); MC_EQ(h.get_upper_hull(), u, "upper hull"); MC_EQ(h.get_lower_hull(), l, "lower hull");
    if (!S.empty()) for (int a : co) for (int b : co) { ll M = LLONG_MIN, m = LLONG_MAX; for (auto& p : S) { ll v = (ll)a * p.first + (ll)b * p.second; M = std::max(M, v), m = std::min(m, v); } MC_EQ((ll)h.linear_max(a, b), M, "linear_max " << a << " " << b); MC_EQ((ll)h.linear_min(a, b), m, "linear_min " << a << " " << b); }
    // the closed boundary: every point of S on the hull boundary exactly once, in boundary order
    auto g = h.get_hull(); std::set<P> gs(g.begin(), g.end()), on(u.begin(), u.end()); on.insert(l.begin(), l.end()); if (!S.empty()) { int xl = u[0].first, xr = u.back().first; for (auto& p : S) if (p.first == xl || p.first == xr) on.insert(p); } MC_EQ(gs, on, "hull boundary points"); MC_EQ(g.size(), gs.size(), "each once");
    int n = g.size(), left = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { ll c = cross(g[i], g[(i + 1) % n], g[j]); left += c > 0; } MC_EQ(left, 0, "clockwise boundary order");
}
MC_GROUP(dynamic_hull) {
    mc::bound("every insert/erase history to depth 5(6) over a 3x2 grid plus outliers; all subsets of a 3x3 grid; circle/line ladders to 20 abscissae");
    mc::explore([&](mc::Chooser& c) { static const std::vector<P> G = { { 0, 0 }, { 0, 2 }, { 1, 1 }, { 1, -1 }, { 2, 0 }, { 5, 1 }, { 5, -3 } }; DynamicConvexHullOffline h(VI{ 0, 1, 2, 5 }); std::set<P> S; int D = mc::depth(5, 6); for (int d = 0; d < D; ++d) { P p = G[c.choose(7)]; bool in = S.count(p); if (in && c.flag()) { h.insert(p.first, p.second); MC_LOG("reinsert"); } else if (in) { h.erase(p.first, p.second), S.erase(p); MC_LOG("erase " << p.first << "," << p.second); } else { h.insert(p.first, p.second), S.insert(p); MC_LOG("insert " << p.first << "," << p.second); } } hull_check(h, S, { -2, -1, 0, 1, 3 }); });
    for (int m = 0; m < 512; ++m) for (int o = 0; o < 3; ++o) { MC_CASE(m, o); DynamicConvexHullOffline h(VI{ 3, -1, 1 }); std::set<P> S; for (int i = 0; i < 9; ++i) { int j = o == 0 ? i : o == 1 ? 8 - i : i * 5 % 9; P p{ j % 3 * 2 - 1, j / 3 - 1 }; h.insert(p.first, p.second); S.insert(p); } for (int j = 0; j < 9; ++j) if (!(m >> j & 1)) { P p{ j % 3 * 2 - 1, j / 3 - 1 }; h.erase(p.first, p.second); S.erase(p); } hull_check(h, S, { -1, 0, 1, 2 }); }
    const int B = 1000000000; for (int n = 1; n <= mc::T(20, 40); ++n) for (int p = 0; p < 6; ++p) { MC_CASE(n, p); VI xs; std::vector<P> pt; for (int i = 0; i < n; ++i) { int x = p == 5 ? (i - n / 2) * (B / (n + 1)) * 1 : i * 3 - n, y = p == 0 ? 7 * i : p == 1 ? i * i : p == 2 ? -i * i : p == 3 ? (i * 7) % 11 : p == 4 ? (i < n / 2 ? i : n - i) : (i % 3 - 1) * (B - i); xs.push_back(x); pt.push_back({ x, y }); if (p == 3) pt.push_back({ x, -(i * 5 % 13) }); } DynamicConvexHullOffline h(xs); std::set<P> S; int k = 0; for (auto& q : pt) { h.insert(q.first, q.second); S.insert(q); if (++k % 4 == 0 || k == (int)pt.size()) hull_check(h, S, { -B, -2, 0, 1, B }); } k = 0; while (!S.empty()) { auto it = S.begin(); std::advance(it, (k * 3) % S.size()); P q = *it; h.erase(q.first, q.second); S.erase(it); if (++k % 3 == 0) hull_check(h, S, { -3, 0, 1, B }); } hull_check(h, S, {}); }
}
MC_PERIODIC(dynamic_hull, 25, 7, true)
MC_MAIN
