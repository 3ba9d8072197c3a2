// mc: flags='-O1'
// Many lines, many rows, long convex functions.
#include "mc.hpp"
#include "free.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/optimization/alien_dp.hpp"
using namespace suisen; typedef long long ll; using std::vector;
template <bool MN> static void lines(int n, int k) {
    MC_CASE(n, k, MN); // lines y = 2 t x - t^2: the maximum at integer x is x^2 (t = x), for x outside the end tangent; negated for minimum; useless lines 2tx - t^2 - c mixed in
    int h = n / 2; auto env = [&](ll x) { ll t = std::max<ll>(-h, std::min<ll>(x, h)); ll y = 2 * t * x - t * t; return MN ? -y : y; }; ll s = MN ? -1 : 1; vector<int> ts; for (int t = -h; t <= h; ++t) ts.push_back(t); if (k == 1) std::reverse(ts.begin(), ts.end()); if (k == 2) { int m = 2 * h + 1, p = 12347; while (std::__gcd(p, m) != 1) ++p; for (int i = 0; i < m; ++i) ts[i] = int((ll)i * p % m) - h; }
    vector<ll> xs; for (ll d = 1; d <= 4LL * n; d *= 2) for (ll e = -1; e <= 1; ++e) xs.push_back(d + e), xs.push_back(-d - e), xs.push_back(h - d - e); std::sort(xs.begin(), xs.end());
    ConvexHullTrick<ll, MN> c; for (int t : ts) { c.add_line(s * 2 * t, -s * (ll)t * t); if (t % 3 == 0) c.add_line(s * 2 * t, s * (-(ll)t * t - 1 - t % 7 * (t % 7))); } for (ll x : xs) { MC_EQ((ll)c.query(x), env(x), "cht at " << x); mc::step(); }
    vector<ll> qs; for (ll x : xs) if (std::abs(x) <= 2 * n) qs.push_back(x); for (int i = -h; i <= h; i += 5) qs.push_back(i); std::sort(qs.begin(), qs.end()); LiChaoSegmentTree<ll, MN> L(qs), G(qs); for (int t : ts) { L.add_line(s * 2 * t, -s * (ll)t * t); G.add_segment(t, t + 40, s * 2 * t, -s * (ll)t * t); } for (ll x : qs) { MC_EQ(L.query(x), std::optional<ll>(env(x)), "li chao at " << x); std::optional<ll> w; for (ll t = std::max<ll>(-h, x - 40); t <= x && t <= h; ++t) { ll y = s * (2 * t * x - t * t); if (!w || (MN ? y < *w : y > *w)) w = y; } MC_EQ(G.query(x), w, "segments at " << x); }
    if (k < 2) { MonotonicCHT<ll, MN, non_monotonic_query_tag> m; MonotonicCHT<ll, MN, inc_query_tag> u; MonotonicCHT<ll, MN, dec_query_tag> d; for (int t : ts) { ll a = s * 2 * t, b = -s * (ll)t * t; m.add_line(a, b); u.add_line(a, b); d.add_line(a, b); } for (ll x : xs) { MC_EQ((ll)m.query(x), env(x), "monotone cht"); MC_EQ((ll)u.query(x), env(x), "increasing"); } std::reverse(xs.begin(), xs.end()); for (ll x : xs) MC_EQ((ll)d.query(x), env(x), "decreasing"); }
}
MC_GROUP(many_lines) { mc::bound("n in {100,1001,4097,33001,70001} parabola tangents (closed-form envelope) ascending, descending, scattered, with dominated parallels; border abscissae; windows of 41 segments"); for (int n : { 100, 1001, 4097, 33001, 70001 }) for (int k = 0; k < 3; ++k) { lines<true>(n, k); lines<false>(n, k); } }
MC_GROUP(many_rows) {
    mc::bound("monotone minima with n, m in {1,1000,4097,33001,70001} (closed-form arg-min), values to 5e9; alien DP for x*x-like functions on 0..n, n to 70001, border x");
    for (int n : { 1, 1000, 4097, 33001, 70001 }) for (int m : { 1, 1000, 4097, 33001, 70001 }) { MC_CASE(n, m); auto w = [&](ll i) { return (size_t)(n == 1 ? m / 2 : i * (m - 1) / (n - 1)); }; auto cost = [&](ll i, ll j) { ll d = j - (ll)w(i); return d * d; }; auto r = monotone_minima(n, m, [&](size_t i, size_t j) { return cost(i, j); }); auto s = monotone_minima(n, m, [&](size_t i, size_t j, size_t k) { return cost(i, j) <= cost(i, k); }); MC_EQ(r.size(), (size_t)n, "rows"); for (int i = 0; i < n; ++i) if ((size_t)r[i] != w(i) || (size_t)s[i] != w(i)) mc::fail("arg-min of row " + std::to_string(i)); mc::step(); }
    for (ll n : { 100LL, 4097LL, 70001LL }) { MC_CASE(n); auto f = [&](ll x) { return x * x - n * x; }; auto inf = [&](ll p) { ll c = (n + p) / 2, b = 0, a = 0; for (ll x : { c - 1, c, c + 1, 0LL, n }) if (x >= 0 && x <= n && (f(x) - p * x < b || (f(x) - p * x == b && x < a))) b = f(x) - p * x, a = x; return std::pair<ll, ll>(b, a); };
        for (ll d = 1; d <= n; d *= 2) for (ll x : { d - 1, d, d + 1, n - d, n }) if (x >= 0 && x <= n) { MC_EQ((alien_convex<ll>(x, -2 * n, 2 * n, [&](ll p) -> ll { return inf(p).first; })), f(x), "alien convex"); MC_EQ((alien_convex<ll>(x, -2 * n, 2 * n, [&](ll p) -> std::pair<ll, int> { return { inf(p).first, int(inf(p).second) }; })), f(x), "alien convex with arg-min"); MC_EQ((alien_concave<ll>(x, -2 * n, 2 * n, [&](ll p) -> ll { return -inf(-p).first; })), -f(x), "alien concave"); mc::step(); } }
}
MC_MAIN
