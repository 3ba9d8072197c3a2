// mc: flags='-O1'
// Counts that leave 32 bits: sequences of known structure on a size ladder.
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <numeric>
#include "library/algorithm/inversion_number.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
using namespace suisen; using ll = long long;
// m increasing runs of length k, the runs themselves descending: every pair from different runs is an inversion.
static std::vector<int> blocks(int m, int k, int f) { std::vector<int> a; for (int b = 0; b < m; ++b) for (int i = 0; i < k; ++i) a.push_back(((m - 1 - b) * k + i) * f - 1000000000); return a; }
static ll binv(ll l, ll r, ll k) { if (l >= r) return 0; ll bl = l / k, br = (r - 1) / k, s = r - l, t = s * s; if (bl == br) return 0; ll h = (bl + 1) * k - l, e = r - br * k; t -= h * h + e * e + (br - bl - 1) * k * k; return t / 2; }
MC_GROUP(big_counts) {
    mc::bound("descending blocks of ascending runs, (blocks,run) in {(46341,1),(65537,1),(70001,1),(100001,1),(50000,2),(1000,100),(2,60000),(1,100000),(317,317),(20000,1),(2,10000),(10,6600)}: inversion number, longest monotone subsequences (optimal length, valid indices)");
    for (auto [m, k] : std::vector<std::pair<int, int>>{ { 46341, 1 }, { 65537, 1 }, { 70001, 1 }, { 100001, 1 }, { 50000, 2 }, { 1000, 100 }, { 2, 60000 }, { 1, 100000 }, { 317, 317 }, { 20000, 1 }, { 2, 10000 }, { 10, 6600 } }) { MC_CASE(m, k); auto a = blocks(m, k, 7); int n = a.size(); MC_EQ(inversion_number(a), binv(0, n, k), "inversion number"); std::vector<ll> w(a.begin(), a.end()); for (auto& x : w) x *= 3000000000LL; MC_EQ(inversion_number(w), binv(0, n, k), "inversion number (64 bit)");
        auto lis = longest_increasing_subsequence(a), lds = longest_decreasing_subsequence(w); MC_EQ((int)lis.size(), k, "LIS"); MC_EQ((int)lds.size(), m, "LDS"); for (size_t i = 1; i < lis.size(); ++i) MC_CHECK(lis[i - 1] < lis[i] && a[lis[i - 1]] < a[lis[i]], "LIS indices"); for (size_t i = 1; i < lds.size(); ++i) MC_CHECK(lds[i - 1] < lds[i] && a[lds[i - 1]] > a[lds[i]], "LDS indices"); for (auto& x : a) x = x < 0 ? -1 : x; std::vector<int> c(n, 5); MC_EQ((int)longest_nondecreasing_subsequence(c).size(), n, "constant nondecreasing"); MC_EQ((int)longest_nonincreasing_subsequence(c).size(), n, "constant nonincreasing"); MC_EQ((int)longest_increasing_subsequence(c).size(), 1, "constant increasing"); MC_EQ(inversion_number(c), 0LL, "constant"); mc::step(); }
}
MC_GROUP(big_range_inversions) {
    mc::bound("the same sequences, (blocks,run) in {(70001,1),(35000,2),(500,140),(2,40000)}: range inversion counts for every pair of a border ladder (powers of two +-1, multiples of the square root +-1, ends)");
    for (auto [m, k] : std::vector<std::pair<int, int>>{ { 70001, 1 }, { 35000, 2 }, { 500, 140 }, { 2, 40000 } }) { MC_CASE(m, k); auto a = blocks(m, k, 3); int n = a.size(); StaticRangeInversionNumberQuery<int> q(a); std::vector<int> b; for (int x = 1; x <= n; x *= 2) for (int d = -1; d <= 1; ++d) { b.push_back(x + d); b.push_back(n - x - d); } for (int x = 0; x <= n; x += 264) for (int d = -1; d <= 1; ++d) if (x / 264 % 9 == 0) b.push_back(x + d); b.push_back(n); for (int l : b) if (l >= 0 && l <= n) for (int r : b) if (l <= r && r <= n) { MC_EQ(q(l, r), binv(l, r, k), "[" << l << "," << r << ")"); mc::step(); } }
}
MC_GROUP(big_modes) {
    mc::bound("n in {65535,65537,70001}: a[i] = i mod p for p in {1,2,7,300,n}: the returned mode count equals the exact maximum and the element attains it, border ladder of ranges");
    for (int n : { 65535, 65537, 70001 }) for (int p : { 1, 2, 7, 300, n }) { MC_CASE(n, p); std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = i % p * 10 - 3; StaticRangeModeQuery<int> q(a); std::vector<int> b; for (int x = 1; x <= n; x *= 2) for (int d = -1; d <= 1; ++d) { b.push_back(x + d); b.push_back(n - x - d); } b.push_back(n); for (int l : b) if (l >= 0) for (int r : b) if (l < r && r <= n) { auto [v, c] = q(l, r); MC_EQ((int)c, (r - l + p - 1) / p, "count [" << l << "," << r << ")"); int e = (v + 3) / 10; MC_CHECK(e >= 0 && e < p && (v + 3) % 10 == 0, "mode is an element"); auto upto = [&](int x) { return x / p + (x % p > e); }; MC_EQ(upto(r) - upto(l), (int)c, "mode frequency"); mc::step(); } }
}
MC_MAIN
