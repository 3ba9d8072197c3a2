// mc: flags='-O1'
// Sequence algorithms and static range queries on every small sequence.
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <functional>
#include <set>
#include <tuple>
#include <numeric>
#include "library/algorithm/inversion_number.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/dp/number_of_subsequences.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/range_query/static range_count_distinct.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
using namespace suisen; using ll = long long;
static ll inv(const std::vector<int>& a, int l, int r) { ll s = 0; for (int i = l; i < r; ++i) for (int j = i + 1; j < r; ++j) s += a[i] > a[j]; return s; }
static std::vector<int> seq(mc::Chooser& c, int n, int k) { std::vector<int> a(n); for (auto& x : a) x = c.choose(k); return a; }
template <class F> static void lis_check(const std::vector<int>& a, const std::vector<int>& got, F ok, const char* w) { int n = a.size(), best = 0; for (int s = 0; s < (1 << n); ++s) { int p = -1, k = 0; bool g = true; for (int i = 0; i < n; ++i) if (s >> i & 1) { if (p >= 0 && !ok(a[p], a[i])) { g = false; break; } p = i; ++k; } if (g) best = std::max(best, k); } MC_EQ((int)got.size(), best, w); for (size_t i = 0; i < got.size(); ++i) { MC_CHECK(got[i] >= 0 && got[i] < n, w); if (i) MC_CHECK(got[i - 1] < got[i] && ok(a[got[i - 1]], a[got[i]]), w); } }
MC_GROUP(subsequences) {
    mc::bound("every sequence of length <=7 (8) over 4 values: four kinds of longest monotone subsequence (length optimal, indices valid), number of distinct non-empty subsequences, inversion number");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, mc::T(7, 8)); auto a = seq(c, n, 4); MC_LOG(mc::show(a));
        lis_check(a, longest_increasing_subsequence(a), std::less<int>(), "increasing"); lis_check(a, longest_nondecreasing_subsequence(a), std::less_equal<int>(), "nondecreasing"); lis_check(a, longest_nonincreasing_subsequence(a), std::greater_equal<int>(), "nonincreasing"); lis_check(a, longest_decreasing_subsequence(a), std::greater<int>(), "decreasing");
        std::set<std::vector<int>> s; for (int m = 1; m < (1 << n); ++m) { std::vector<int> v; for (int i = 0; i < n; ++i) if (m >> i & 1) v.push_back(a[i]); s.insert(v); } MC_EQ(number_of_nonempty_subsequences<ll>(a), (ll)s.size(), "distinct subsequences"); std::vector<std::string> b; for (int x : a) b.push_back(std::string(x, 'z')); MC_EQ(number_of_nonempty_subsequences<int>(b), (int)s.size(), "distinct subsequences of strings");
        MC_EQ(inversion_number(a), inv(a, 0, n), "inversion number"); std::vector<ll> w; for (int x : a) w.push_back(x * 4000000000LL - 5000000000LL); MC_EQ(inversion_number(w), inv(a, 0, n), "inversion number of large values"); mc::step();
    });
}
MC_GROUP(perms) { mc::bound("every permutation of length <=7 (8): LIS/LDS lengths and inversion number"); mc::explore([&](mc::Chooser& c) { int n = c.range(5, mc::T(7, 8)); std::vector<int> p; std::vector<int> rest(n); std::iota(rest.begin(), rest.end(), 0); while (rest.size()) { int k = c.choose(rest.size()); p.push_back(rest[k]); rest.erase(rest.begin() + k); } std::vector<int> d(n, 1), e(n, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (p[j] < p[i]) d[i] = std::max(d[i], d[j] + 1); else e[i] = std::max(e[i], e[j] + 1); MC_EQ((int)longest_increasing_subsequence(p).size(), *std::max_element(d.begin(), d.end()), "LIS"); MC_EQ((int)longest_decreasing_subsequence(p).size(), *std::max_element(e.begin(), e.end()), "LDS"); MC_EQ(inversion_number(p), inv(p, 0, n), "inv"); mc::step(); }); }
static void range_check(const std::vector<int>& a) {
    int n = a.size(); StaticRangeModeQuery<int> mq(a); StaticRangeInversionNumberQuery<int> iq(a); StaticRangeCountDistinctOffline cd(a); cd.reserve(n * n); std::vector<int> want; std::vector<std::pair<int, int>> qs;
    for (int r = n; r >= 0; --r) for (int l = 0; l <= r; ++l) qs.push_back({l, r}); std::rotate(qs.begin(), qs.begin() + qs.size() / 2, qs.end());
    for (auto [l, r] : qs) {
        std::map<int, int> f; for (int i = l; i < r; ++i) ++f[a[i]]; MC_LOG(l << "," << r);
        MC_EQ(iq(l, r), inv(a, l, r), "range inversions"); MC_EQ(cd.add_query(l, r), (int)want.size(), "query id"); want.push_back(f.size());
        if (l < r) { int mx = 0; for (auto& [v, k] : f) mx = std::max(mx, k); auto [v, k] = mq(l, r); MC_EQ(k, mx, "mode frequency"); MC_CHECK(f.count(v) && f[v] == mx, "mode value"); }
    }
    MC_CHECK(cd.solve() == want, "distinct counts"); MC_CHECK(cd.solve() == want, "distinct counts (again)"); mc::step();
}
MC_GROUP(ranges_small) { mc::bound("every sequence of length <=7 (8) over 4 values (incl. INT_MIN/INT_MAX and negatives), every range incl. empty ones: mode, inversions, distinct count"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(7, 9)), vals[2][4] = {{0, 1, 2, 3}, {INT_MIN, -1, 0, INT_MAX}}, k = c.choose(2); auto a = seq(c, n, n > 5 ? 3 : 4); for (int& x : a) x = vals[k][x]; range_check(a); }); }
MC_GROUP(ranges_long) { mc::bound("every length 7..40 (90) crossing each block size, eight value patterns with one point perturbed, every range"); mc::explore([&](mc::Chooser& c) { int n = c.range(7, mc::T(40, 90)), kind = c.choose(8); std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? 5 : kind == 3 ? i % 2 : kind == 4 ? (i * i) % 7 : kind == 5 ? i / 3 : kind == 6 ? (i * 7919) % 101 % 4 : (i & 1 ? i : n - i); if (c.flag()) { int p = c.choose(mc::T(3, 6)); a[p * (n - 1) / mc::T(2, 5)] = c.flag() ? 0 : 1000; } range_check(a); }); }
template <class Q> static void mex_check(const Q& q, const std::vector<int>& a, int x, int lim) { int n = a.size(); for (int l = 0; l <= n; ++l) { std::set<int> s; for (int r = l; r <= n; ++r) { if (r > l) s.insert(a[r - 1] ^ x); int m = 0; while (s.count(m)) ++m; MC_EQ((ll)q.minimum_excluded(l, r, x), (ll)m, "mex l=" + std::to_string(l) + " r=" + std::to_string(r) + " x=" + std::to_string(x)); } } (void)lim; }
MC_GROUP(xored_mex) { mc::bound("every sequence of length <=5 (6) over 0..3 and every x in 0..5, every range: mex of {A_i xor x}; bit widths 2, 3, 5, 10 and the default (full) width for int, unsigned and long long; lengths <=40 of patterns"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(5, 6)); auto a = seq(c, n, 4); RangeXoredMexQuery<int, 2> q2(a); RangeXoredMexQuery<int, 3> q3(a); RangeXoredMexQuery<int> q(a); RangeXoredMexQuery<unsigned> u(a); RangeXoredMexQuery<ll> w(a); for (int x = 0; x < 6; ++x) { if (x < 4) mex_check(q2, a, x, 4); mex_check(q3, a, x, 8); mex_check(q, a, x, 0); if (n <= 4) { mex_check(u, a, x, 0); mex_check(w, a, x, 0); } } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(6, mc::T(20, 40)), kind = c.choose(6); std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? i ^ 5 : kind == 3 ? (i * 7) % n : kind == 4 ? i / 2 : (i * 13) % 8; RangeXoredMexQuery<int, 5> q5([&] { auto b = a; for (int& x : b) x &= 31; return b; }()); RangeXoredMexQuery<int, 10> q(a); for (int x = 0; x < 20; ++x) { mex_check(q, a, x, 0); auto b = a; for (int& v : b) v &= 31; mex_check(q5, b, x, 32); } mc::step(); }); }
MC_GROUP(empties) { mc::bound("default-constructed and empty structures: mode, distinct, mex"); MC_CASE(0); StaticRangeCountDistinctOffline d; MC_EQ(d.add_query(0, 0), 0, "id"); MC_CHECK(d.solve() == std::vector<int>{0}, "distinct"); RangeXoredMexQuery<int, 4> e; MC_EQ(e.minimum_excluded(0, 0, 3), 0, "mex of nothing"); RangeXoredMexQuery<int, 4> z(std::vector<int>{}); MC_EQ(z.minimum_excluded(0, 0, 3), 0, "mex of nothing"); StaticRangeModeQuery<int> m(std::vector<int>{}); StaticRangeModeQuery<int> m0; m0 = m; StaticRangeInversionNumberQuery<int> v(std::vector<int>{}); MC_EQ(v(0, 0), 0LL, "no inversions"); mc::step(); }
MC_GROUP(xored_mex_high_x) { mc::bound("RangeXoredMexQuery with bit_num 1..3 below the type width: every sequence of length <=4 over the value range, every range, every x up to 4x the value range (bits at and above bit_num)");
    auto go = [](mc::Chooser& c, auto bn) { constexpr int B = decltype(bn)::value; int n = c.range(0, B == 3 ? 3 : 4); std::vector<int> a(n); for (int& v : a) v = c.choose(1 << B); RangeXoredMexQuery<int, B> q(a); RangeXoredMexQuery<unsigned, B> u(a); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) for (int x = 0; x < 4 << B; ++x) { std::set<int> s; for (int i = l; i < r; ++i) s.insert(a[i] ^ x); int w = 0; while (s.count(w)) ++w; MC_EQ(q.minimum_excluded(l, r, x), w, "xored mex x=" << x); MC_EQ((int)u.minimum_excluded(l, r, x), w, "xored mex, unsigned"); } mc::step(); };
    mc::explore([&](mc::Chooser& c) { switch (c.choose(3)) { case 0: return go(c, std::integral_constant<int, 1>{}); case 1: return go(c, std::integral_constant<int, 2>{}); default: return go(c, std::integral_constant<int, 3>{}); } }); }
MC_GROUP(sequences_large) { mc::bound("sequences of 130..700 elements (eight patterns, values up to +-2*10^9): LIS in four kinds by quadratic DP, inversions, distinct subsequences modulo a prime; 70000 descending elements whose inversions exceed 2^31; range queries on a grid of ranges for n to 700"); for (int n : { 130, 257, 700 }) for (int kind = 0; kind < 8; ++kind) { MC_CASE(n, kind); std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? 5 : kind == 3 ? i % 2 : kind == 4 ? (i * i) % 101 : kind == 5 ? i / 3 : kind == 6 ? int((i * 7919LL) % 1009 * 3900000 - 1950000000) : (i & 1 ? i : n - i); std::vector<int> d(n, 1), e(n, 1); int bi = 0, bd = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { if (a[j] < a[i]) d[i] = std::max(d[i], d[j] + 1); if (a[j] > a[i]) e[i] = std::max(e[i], e[j] + 1); } bi = std::max(bi, d[i]); bd = std::max(bd, e[i]); }
        auto I = longest_increasing_subsequence(a), Dd = longest_decreasing_subsequence(a); MC_EQ((int)I.size(), bi, "LIS length"); MC_EQ((int)Dd.size(), bd, "LDS length"); for (size_t i = 1; i < I.size(); ++i) MC_CHECK(I[i - 1] < I[i] && a[I[i - 1]] < a[I[i]], "LIS valid"); for (size_t i = 1; i < Dd.size(); ++i) MC_CHECK(Dd[i - 1] < Dd[i] && a[Dd[i - 1]] > a[Dd[i]], "LDS valid"); MC_EQ(inversion_number(a), inv(a, 0, n), "inversions");
        StaticRangeModeQuery<int> md(a); StaticRangeInversionNumberQuery<int> iv(a); StaticRangeCountDistinctOffline cd(a); std::vector<int> wd; for (int l = 0; l <= n; l += 1 + n / 19) for (int r = l; r <= n; r += 1 + n / 23) { std::map<int, int> cnt; int best = 0; for (int i = l; i < r; ++i) best = std::max(best, ++cnt[a[i]]); if (l < r) { auto [v, k] = md(l, r); MC_EQ(k, best, "mode frequency"); MC_EQ(cnt[v], best, "mode value"); } MC_EQ(iv(l, r), inv(a, l, r), "range inversions"); cd.add_query(l, r); wd.push_back(cnt.size()); mc::step(); } MC_CHECK(cd.solve() == wd, "distinct counts"); }
    MC_CASE(70000); std::vector<int> z(70000); for (int i = 0; i < 70000; ++i) z[i] = 70000 - i; MC_EQ(inversion_number(z), 70000LL * 69999 / 2, "inversions above 2^31"); MC_EQ((int)longest_decreasing_subsequence(z).size(), 70000, "LDS of a descending sequence"); StaticRangeInversionNumberQuery<int> big(z); for (auto [l, r] : std::vector<std::pair<int, int>>{ { 0, 70000 }, { 1, 70000 }, { 0, 69999 }, { 1000, 69000 }, { 300, 66000 }, { 35000, 35300 } }) { ll k = r - l; MC_EQ(big(l, r), k * (k - 1) / 2, "range inversions above 2^31"); } }
MC_GROUP(xored_mex_long) { mc::bound("RangeXoredMexQuery on 41..300 elements in six patterns, bit widths 10, 16 and the full width, x over powers of two and their neighbours up to 1000, a grid of ranges that contains every short range at the ends");
    for (int n : { 41, 63, 64, 65, 100, 129, mc::T(200, 300) }) for (int kind = 0; kind < 6; ++kind) { MC_CASE(n, kind); std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? i ^ 37 : kind == 3 ? (i * 7) % n : kind == 4 ? i / 2 : (i * i) % 64; RangeXoredMexQuery<int, 10> q(a); RangeXoredMexQuery<int, 16> p(a); RangeXoredMexQuery<int> u(a); for (int x : { 0, 1, 2, 5, 31, 32, 63, 64, 127, 200, 511, 1000 }) for (int l = 0; l <= n; l += l < 3 ? 1 : 1 + n / 9) for (int r = l; r <= n; r += r + 3 > n ? 1 : 1 + n / 11) { std::vector<char> s(2048); for (int i = l; i < r; ++i) s[a[i] ^ x] = 1; int w = 0; while (s[w]) ++w; MC_EQ(q.minimum_excluded(l, r, x), w, "mex, 10 bits n=" << n << " kind " << kind << " x=" << x); MC_EQ(p.minimum_excluded(l, r, x), w, "mex, 16 bits"); MC_EQ(u.minimum_excluded(l, r, x), w, "mex, full width"); mc::step(); } } }
MC_MAIN
