#include "free.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
using namespace suisen; typedef long long ll; typedef __int128 LL;
template <class T> struct LnT { T a, b; }; using Ln = LnT<ll>;
template <class T> static LL best(const std::vector<LnT<T>>& v, T x, bool mn) { LL r = 0; bool f = true; for (auto& l : v) { LL y = (LL)l.a * (LL)x + (LL)l.b; if (f || (mn ? y < r : y > r)) r = y, f = false; } return r; }
template <class T, bool MN> static void cht() {
    mc::explore([&](mc::Chooser& c) {
        int D = mc::T(4, 5); ConvexHullTrick<T, MN> h; std::vector<LnT<T>> v; MC_CHECK(!h.has_line(), "no line yet");
        for (int d = 0; d < D; ++d) { T a = c.range(-1, 2), b = c.range(-1, 2) * (d % 2 ? 1 : 2); MC_LOG("add " << (ll)a << "x+" << (ll)b); h.add_line(a, b); v.push_back({ a, b }); MC_CHECK(h.has_line(), "has_line"); if (d >= D - 2 || d == 0) for (int x = -7; x <= 7; ++x) MC_EQ((LL)h.query(T(x)), best<T>(v, T(x), MN), "query(" << x << ")"); }
    });
    // slopes in the middle, many lines: every insertion order of a block of lines tangent to a parabola plus useless ones
    for (int n = 1; n <= mc::T(14, 24); ++n) for (int p = 1; p < 30; ++p) { MC_CASE(n, p, MN, (int)sizeof(T)); ConvexHullTrick<T, MN> h; std::vector<LnT<T>> v; for (int i = 0; i < n; ++i) { T t = T((i * p) % 31 - 15), b = MN ? -t * t : t * t; if (i % 4 == 3) b = b + T(MN ? 3 : -3); h.add_line(T(2 * t), b); v.push_back({ T(2 * t), b }); for (int x = -20; x <= 20; x += 1 + (i + 1 < n) * 4) MC_EQ((LL)h.query(T(x)), best<T>(v, T(x), MN), "query(" << x << ")"); } }
}
MC_GROUP(cht_min_ll) { mc::bound("every sequence of 4(5) lines with slopes -1..2 and 4 intercepts (duplicates included), every x in -7..7 after the last two; parabola tangents in 29 orders to 14(24) lines"); cht<ll, true>(); }
MC_GROUP(cht_max_int) { mc::bound("int, maximum: the same line sequences and tangents as cht_min_ll"); cht<int, false>(); }
template <bool MN> static void cht_wide() {
    mc::explore([&](mc::Chooser& c) { const ll S = 1000000000, B = 1000000000000000000; static const ll A[] = { -S, -S + 1, 0, S - 1, S }, I[] = { -B, -1, B }; ConvexHullTrick<ll, MN> h; std::vector<Ln> v; int D = mc::T(3, 4); for (int d = 0; d < D; ++d) { ll a = A[c.choose(5)], b = I[c.choose(3)]; MC_LOG("add " << a << "x+" << b); h.add_line(a, b); v.push_back({ a, b }); } for (ll x : { -S, -S + 1, -2ll, -1ll, 0ll, 1ll, 500000000ll, S - 1, S, 4 * B }) MC_EQ((LL)h.query(x), best(v, x, MN), "query(" << x << ")"); });
}
MC_GROUP(cht_wide) { mc::bound("every sequence of 3(4) lines with extreme slopes (+-1e9) and intercepts (+-1e18); exact 128-bit results"); cht_wide<true>(); cht_wide<false>(); }
MC_GROUP(cht_double) {
    mc::bound("dyadic rationals (exact in double): every sequence of 3(4) lines, 4 slopes x 4 intercepts, quarter-integer abscissae");
    for (int mn = 0; mn < 2; ++mn) mc::explore([&](mc::Chooser& c) { ConvexHullTrick<double, true> h; ConvexHullTrick<double, false> g; std::vector<std::pair<double, double>> v; int D = mc::T(3, 4); for (int d = 0; d < D; ++d) { double a = (c.range(-1, 2)) * 0.5, b = c.range(-1, 2) * 0.25; h.add_line(a, b); g.add_line(a, b); v.push_back({ a, b }); } for (int i = -12; i <= 12; ++i) { double x = i * 0.25, m = 1e18, M = -1e18; for (auto& l : v) m = std::min(m, l.first * x + l.second), M = std::max(M, l.first * x + l.second); MC_EQ((double)h.query(x), m, "min at " << x); MC_EQ((double)g.query(x), M, "max at " << x); } });
}
// ---------------------------------------------------------------- monotonic
template <class T, bool MN, class Tag> static void mono(int dir) {
    mc::explore([&](mc::Chooser& c) {
        MonotonicCHT<T, MN, Tag> h; std::vector<LnT<T>> v; int D = mc::T(4, 5); T lo = 0, hi = 0, x = 0; bool xs = false;
        for (int d = 0; d < D; ++d) {
            bool up = c.flag(); T a; if (d == 0) { a = lo = hi = T(c.range(-1, 1)); } else { int s = c.choose(2); a = up ? (hi = hi + T(s)) : (lo = lo - T(s)); } T b = T((dir && d > 1 ? c.flag() * 2 - 1 : c.range(-1, 1)) * (1 + d % 2)); MC_LOG("add " << (ll)a << "x+" << (ll)b); h.add_line(a, b); v.push_back({ a, b });
            if (dir == 0) { for (int q = -5; q <= 5; ++q) MC_EQ((LL)h.query(T(q)), best<T>(v, T(q), MN), "query(" << q << ")"); }
            else { int q = c.choose(3); if (!xs) { x = T(dir > 0 ? -4 : 4) + T(q * dir * 2), xs = true; } else x = x + T(q * dir); MC_LOG("query " << (ll)x); MC_EQ((LL)h.query(x), best<T>(v, x, MN), "query(" << (ll)x << ")"); }
        }
        if (dir != 0) for (int i = 0; i < 6; ++i) { x = x + T(dir); MC_EQ((LL)h.query(x), best<T>(v, x, MN), "final query(" << (ll)x << ")"); }
    });
    for (int n = 1; n <= mc::T(20, 40); ++n) for (int p = 0; p < 12; ++p) { MC_CASE(n, p, MN, dir); MonotonicCHT<T, MN, Tag> h; std::vector<LnT<T>> v; int lo = 0, hi = 0; int x = dir > 0 ? -60 : 60; for (int i = 0; i < n; ++i) { int t = (i * (p + 1) / 3 % 2) ? ++hi : --lo; T b = T((MN ? -1 : 1) * t * t + (i % (p + 2) == 1 ? (MN ? 2 : -2) : 0)); h.add_line(T(2 * t), b); v.push_back({ T(2 * t), b }); if (dir == 0) { for (int q = -25; q <= 25; q += 5) MC_EQ((LL)h.query(T(q)), best<T>(v, T(q), MN), "query"); } else { x += dir * (i % 4); MC_EQ((LL)h.query(T(x)), best<T>(v, T(x), MN), "query(" << x << ")"); } } if (dir == 0) for (int q = -45; q <= 45; ++q) MC_EQ((LL)h.query(T(q)), best<T>(v, T(q), MN), "query"); else for (int s = 0; s < 120; ++s) { x += dir; MC_EQ((LL)h.query(T(x)), best<T>(v, T(x), MN), "sweep(" << x << ")"); } }
}
MC_GROUP(mono_any_min) { mc::bound("slopes extended at either end in every order (equal slopes included), 3 intercepts, 4(5) lines, all queries / all monotone query schedules; parabola ladders"); mono<ll, true, non_monotonic_query_tag>(0); }
MC_GROUP(mono_any_max) { mc::bound("int, maximum: the same schedules as mono_any_min"); mono<int, false, non_monotonic_query_tag>(0); }
MC_GROUP(mono_inc) { mc::bound("long long, min and max, increasing queries: the same line sequences as mono_any_min with every non-decreasing query schedule"); mono<ll, true, inc_query_tag>(1); mono<ll, false, inc_query_tag>(1); }
MC_GROUP(mono_dec) { mc::bound("long long, min and max, decreasing queries: the same line sequences with every non-increasing query schedule"); mono<ll, true, dec_query_tag>(-1); mono<ll, false, dec_query_tag>(-1); }
MC_GROUP(mono_double) { mc::bound("double, all three query tags: the same line sequences and schedules"); mono<double, true, inc_query_tag>(1); mono<double, false, dec_query_tag>(-1); mono<double, true, non_monotonic_query_tag>(0); }
// ---------------------------------------------------------------- Li Chao
template <class T, bool MN> static void lichao() {
    mc::explore([&](mc::Chooser& c) {
        static const std::vector<std::vector<int>> Q = { { 0 }, { -2, 3 }, { 5, -4, 0, 5 }, { -3, -1, 0, 2, 4 } }; std::vector<T> q; for (int x : Q[c.choose(4)]) q.push_back(T(x)); LiChaoSegmentTree<T, MN> t(q); struct S { T l, r, a, b; }; std::vector<S> v; int D = mc::T(3, 3);
        for (int d = 0; d < D; ++d) { T a = T(c.range(-1, 1)), b = T(c.range(-1, 1) * (d + 1)), l, r; int k = c.choose(7); bool all = k == 0; static const int LR[6][2] = { { -9, 9 }, { -2, 2 }, { 0, 0 }, { -4, -3 }, { 3, 9 }, { 1, 0 } }; if (all) { t.add_line(a, b); l = T(-100), r = T(100); } else { l = T(LR[k - 1][0]), r = T(LR[k - 1][1]); t.add_segment(l, r, a, b); } MC_LOG("add [" << (ll)l << "," << (ll)r << "] " << (ll)a << "x+" << (ll)b); v.push_back({ l, r, a, b }); }
        for (T x : q) { std::optional<T> w; for (auto& s : v) if (s.l <= x && x <= s.r) { T y = s.a * x + s.b; if (!w || (MN ? y < *w : y > *w)) w = y; } MC_EQ(t.query(x), w, "query(" << (ll)x << ")"); MC_EQ(t(x), w, "()"); }
    });
    for (int n = 1; n <= mc::T(40, 70); ++n) for (int p = 1; p < 9; ++p) { MC_CASE(n, p, MN); std::vector<T> q; for (int i = 0; i < n; ++i) q.push_back(T((i * 7 % n) * 3 - n)); LiChaoSegmentTree<T, MN> t(q); struct S { T l, r, a, b; }; std::vector<S> v; for (int i = 0; i < 12; ++i) { int s = (i * p) % 13 - 6; S f{ T(-n + i * p % (3 * n)), T(-n + i * p % (3 * n) + n * p / 4), T(2 * s * n / 6), T((MN ? -1 : 1) * s * s * n * n / 36) }; if (i % 3 == 0) f.l = T(-1000), f.r = T(1000), t.add_line(f.a, f.b); else t.add_segment(f.l, f.r, f.a, f.b); v.push_back(f); if (i % 4 == 3) for (T x : q) { std::optional<T> w; for (auto& s : v) if (s.l <= x && x <= s.r) { T y = s.a * x + s.b; if (!w || (MN ? y < *w : y > *w)) w = y; } MC_EQ(t.query(x), w, "query(" << (ll)x << ")"); } } }
    LiChaoSegmentTree<T, MN> d;
}
MC_GROUP(lichao_min) { mc::bound("4 coordinate sets x every sequence of 3 lines/segments (3 slopes, 3 intercepts, 7 ranges incl. empty and one-point), all queries; ladders to 40(70) coordinates"); lichao<ll, true>(); }
MC_GROUP(lichao_max) { mc::bound("int, maximum: the same coordinate sets and sequences as lichao_min"); lichao<int, false>(); }
MC_GROUP(lichao_double) { mc::bound("double, minimum: the same coordinate sets and sequences as lichao_min"); lichao<double, true>(); }
MC_MAIN
