// mc: flags='-O1'
// Bit tricks, subset iteration, counting helpers, prefix sums, searches and permutations.
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <numeric>
#include <set>
#include "library/util/bit_utils.hpp"
#include "library/util/subset_iterator.hpp"
#include "library/util/sum_count.hpp"
#include "library/util/step_sum.hpp"
#include "library/util/step_view.hpp"
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/search.hpp"
#include "library/util/permutation.hpp"
#include "library/util/iter_util.hpp"
#include "library/util/default_operator.hpp"
using ll = long long; using u64 = std::uint64_t; using u32 = std::uint32_t;
template <class T> static void bits1(T x) { using U = std::make_unsigned_t<T>; U u = x; int W = sizeof(T) * 8, pc = 0, lz = W, tz = W; for (int i = 0; i < W; ++i) if (u >> i & 1) { ++pc; lz = W - 1 - i; if (tz == W) tz = i; }
    MC_EQ(suisen::popcount(x), pc, "popcount"); MC_EQ(suisen::parity(x), pc & 1, "parity"); MC_EQ(suisen::count_lz(x), lz, "count_lz"); MC_EQ(suisen::count_tz(x), tz, "count_tz"); MC_EQ(suisen::floor_log2(x), W - 1 - lz, "floor_log2"); if (x > 0) { int c = 0; while (c < W && (c == W - 1 ? (U(1) << c) < u : (U(1) << c) < u)) ++c; MC_EQ(suisen::ceil_log2(x), c, "ceil_log2"); } for (int i = 0; i < W; ++i) MC_EQ(suisen::kth_bit(x, i), int(u >> i & 1), "kth_bit"); }
MC_GROUP(bits) { mc::bound("all 8- and 16-bit integers (signed and unsigned); 32/64-bit: all values with at most three set bits, their complements, negatives, neighbours"); mc::explore([&](mc::Chooser& c) { int k = c.choose(4); if (k == 0) { int v = c.choose(256); bits1<uint8_t>(v); bits1<int8_t>(v); mc::step(); return; } if (k == 1) { int hi = c.choose(256); for (int lo = 0; lo < 256; lo += mc::T(7, 1)) bits1<uint16_t>(hi << 8 | lo), bits1<int16_t>(hi << 8 | lo); mc::step(); return; } int i = c.choose(64), j = c.choose(i + 1); for (int m = 0; m <= (k == 2 ? 0 : j); ++m) for (int neg = 0; neg < 2; ++neg) for (int d = -1; d <= 1; ++d) { u64 x = (1ULL << i) | (1ULL << j) | (1ULL << m); if (neg) x = ~x; x += d; bits1<u64>(x); bits1<ll>(x); bits1<u32>(x); bits1<int>(x); } mc::step(); }); }
template <class T> static void subs(T s) { std::set<T> w, g; T t = s; while (true) { w.insert(t); if (!t) break; t = (t - 1) & s; } size_t n = 0; bool first = true; T prev{}; for (T x : suisen::all_subset<T>(s)) { MC_CHECK((x & ~s) == 0, "subset"); if (!first) MC_CHECK(std::make_unsigned_t<T>(x) < std::make_unsigned_t<T>(prev), "descending"); prev = x; first = false; g.insert(x); if (++n > w.size()) break; } MC_EQ(n, w.size(), "number of subsets"); MC_CHECK(g == w, "all subsets"); }
MC_GROUP(subsets) { mc::bound("every mask below 2^8 (2^10) and full 8-bit masks: all_subset in four integer types; k-subsets for every k; masks spread over high bits of 32/64-bit words"); mc::explore([&](mc::Chooser& c) { int m = c.choose(1 << mc::T(8, 10)); subs<int>(m); subs<u32>(m); subs<ll>(m); subs<uint8_t>(m); subs<uint16_t>(m);
        for (int sh = 0; sh < 3; ++sh) { u32 s = 0; u64 s64 = 0; for (int i = 0; i < 10; ++i) if (m >> i & 1) { int p = sh == 0 ? i : sh == 1 ? 31 - i : i * 3 + 1; s |= 1u << p; s64 |= 1ULL << (sh == 0 ? i : sh == 1 ? 63 - i : i * 6 + 5); } for (u32 k = 0; k <= 12; ++k) { std::set<u32> g; std::set<u64> h; int n = 0; for (u32 x : suisen::all_subset_k(s, k)) { MC_CHECK((x & ~s) == 0 && __builtin_popcount(x) == (int)k, "k-subset"); g.insert(x); ++n; } ll w = 1; int p = __builtin_popcount(m); for (u32 i = 0; i < k; ++i) w = w * (p - (int)i) / (i + 1); if ((int)k > p) w = 0; MC_CHECK((ll)g.size() == w && n == w, "number of k-subsets"); n = 0; for (u64 x : suisen::all_subset_k_64(s64, k)) { MC_CHECK((x & ~s64) == 0 && __builtin_popcountll(x) == (int)k, "k-subset"); h.insert(x); ++n; } MC_CHECK((ll)h.size() == w && n == w, "number of 64-bit k-subsets"); }
            std::vector<int> a, b; for (int x : suisen::all_setbit(s)) a.push_back(x); for (int i = 0; i < 32; ++i) if (s >> i & 1) b.push_back(i); MC_CHECK(a == b, "all_setbit"); a.clear(); b.clear(); for (int x : suisen::all_setbit_64(s64)) a.push_back(x); for (int i = 0; i < 64; ++i) if (s64 >> i & 1) b.push_back(i); MC_CHECK(a == b, "all_setbit_64"); }
        mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 12), k = c.range(0, 13); std::vector<u32> g; for (u32 x : suisen::all_subset_k::nCk(n, k)) g.push_back(x); std::vector<u32> w; for (u32 x = 0; x < (1u << n); ++x) if (__builtin_popcount(x) == k) w.push_back(x); MC_CHECK(g == w, "nCk in increasing order"); mc::step(); }); }
MC_GROUP(sum_counts) { mc::bound("every (min_a,max_a,min_b,max_b) in -2..3 (incl. empty ranges) and every sum in -6..8; the same with offsets near +-1e9 in int with 64-bit results"); mc::explore([&](mc::Chooser& c) { int la = c.range(-2, 3), ra = c.range(la - 1, 3), lb = c.range(-2, 3), rb = c.range(lb - 1, 3), sc = c.choose(2); for (int s = -6; s <= 8; ++s) { ll e = 0, le = 0, ge = 0; for (int a = la; a <= ra; ++a) for (int b = lb; b <= rb; ++b) { e += a + b == s; le += a + b <= s; ge += a + b >= s; } if (sc == 0) { MC_EQ((suisen::sum_count<int, ll>(la, ra, lb, rb, s)), e, "=="); MC_EQ(suisen::sum_count_leq(la, ra, lb, rb, s), (int)le, "<="); MC_EQ(suisen::sum_count_lt(la, ra, lb, rb, s), (int)(le - e), "<"); MC_EQ(suisen::sum_count_geq(la, ra, lb, rb, s), (int)ge, ">="); MC_EQ(suisen::sum_count_gt(la, ra, lb, rb, s), (int)(ge - e), ">"); } } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int v[4] = {0, 1, 40000, 70000}; int la = v[c.choose(3)], ra = v[c.choose(4)], lb = -v[c.choose(4)], rb = v[c.choose(4)]; if (la > ra) return; for (int s : {-70000, -1, 0, 1, 40000, 70000, 110000, 140000}) { ll e = 0, le = 0; for (int a = la; a <= ra; ++a) { ll hi = std::min<ll>(rb, (ll)s - a); if (hi >= lb) le += hi - lb + 1; e += lb <= s - a && s - a <= rb; } ll tot = (ll)(ra - la + 1) * (rb - lb + 1); MC_EQ((suisen::sum_count<int, ll>(la, ra, lb, rb, s)), e, "=="); MC_EQ((suisen::sum_count_leq<int, ll>(la, ra, lb, rb, s)), le, "<="); MC_EQ((suisen::sum_count_lt<int, ll>(la, ra, lb, rb, s)), le - e, "<"); MC_EQ((suisen::sum_count_geq<int, ll>(la, ra, lb, rb, s)), tot - le + e, ">="); MC_EQ((suisen::sum_count_gt<int, ll>(la, ra, lb, rb, s)), tot - le, ">"); } mc::step(); }); }
static std::string cat(const std::string& a, const std::string& b) { return a + b; } static ll xz() { return 0; } static ll xa(ll a, ll b) { return a ^ b; }
MC_GROUP(prefix_sums) { mc::bound("every sequence length <=8 with step 1..5, residue, window (also beyond the end); cumulative sums with pushes from empty; xor groups; 2D sums for every shape <=3x4 and every rectangle"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(8, 12)), st = c.range(1, 5); std::vector<ll> a(n); for (int i = 0; i < n; ++i) a[i] = 1LL << (4 * i); suisen::StepSum s(a, st); for (int k = 0; k < st; ++k) for (int l = 0; l <= n + 1; ++l) for (int r = 0; r <= n + 3; ++r) { ll w = 0; for (int i = l; i < std::min(n, r); ++i) if (i % st == k) w += a[i]; MC_EQ(s.sum(k, l, r), w, "step sum k=" + std::to_string(k) + " l=" + std::to_string(l) + " r=" + std::to_string(r)); MC_EQ(s(k, l, r), w, "call"); } for (int i = 0; i < n; ++i) { ll w = 0; for (int j = i; j >= 0; j -= st) w += a[j]; MC_EQ(s.data()[i], w, "data"); }
        for (int b = 0; b < std::min(n, st); ++b) { int sz = (n - b + st - 1) / st; suisen::StepView<std::vector<ll>> v(a, b, st, sz); MC_EQ((int)v.size(), sz, "view size"); for (int i = 0; i < sz; ++i) MC_EQ(v[i], a[b + i * st], "view"); suisen::StepIterator<std::vector<ll>::iterator> it(a.begin() + b, st), e = it; for (int i = 0; i + 1 < sz; ++i) { MC_EQ(*e, a[b + i * st], "iterator"); MC_EQ((int)(e - it), i, "distance"); MC_CHECK((it < e) == (i > 0) && (it == e) == (i == 0) && (it != e) == (i > 0) && it <= e && e >= it && (e > it) == (i > 0), "comparison"); MC_EQ(*(it + i), a[b + i * st], "plus"); MC_EQ(it[i], a[b + i * st], "subscript"); MC_CHECK(e - i == it && i + it == e, "minus"); if (i & 1) ++e; else e++; } while (e != it) { auto o = e--; MC_EQ((int)(o - e), 1, "post-decrement"); } } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 5), p = c.range(0, n), start = c.choose(2); std::vector<ll> a(n); for (auto& x : a) x = c.range(-1, 2); suisen::CumulativeSum<ll> s; suisen::CumulativeSum<ll, xz, xa, xa> x; if (start) s = suisen::CumulativeSum<ll>(std::vector<ll>(a.begin(), a.begin() + p)), x = suisen::CumulativeSum<ll, xz, xa, xa>(std::vector<ll>(a.begin(), a.begin() + p)); MC_EQ(s(0, 0), 0LL, "empty sum"); for (int i = start ? p : 0; i < n; ++i) s.push_back(a[i]), x.push_back(a[i]); for (int l = 0; l <= n; ++l) { ll w = 0, y = 0; for (int r = l; r <= n; ++r) { MC_EQ(s(l, r), w, "sum"); MC_EQ(s.sum(l, r), w, "sum()"); MC_EQ(x(l, r), y, "xor"); if (r < n) w += a[r], y ^= a[r]; } } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3), m = n ? c.range(0, 4) : 0; std::vector<std::vector<ll>> a(n, std::vector<ll>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a[i][j] = 1LL << (i * m + j); suisen::CumulativeSum2D<ll> s(a), d; d = s; suisen::CumulativeSum2D<ll> z; MC_EQ(z(0, 0, 0, 0), 0LL, "default"); for (int u = 0; u <= n + 1; ++u) for (int v = 0; v <= n + 1; ++v) for (int l = 0; l <= m + 1; ++l) for (int r = 0; r <= m + 1; ++r) { ll w = 0; if (u <= v && v <= n && l <= r && r <= m) for (int i = u; i < v; ++i) for (int j = l; j < r; ++j) w += a[i][j]; MC_EQ(d(u, v, l, r), w, "2D sum"); } mc::step(); }); }
MC_GROUP(searches) { mc::bound("every monotone predicate on windows of width <=12 at three offsets; every convex (concave) integer sequence of length <=7 with slopes in -2..2 incl. plateaus at the optimum; 64-bit values with 32-bit arguments; floating-point ternary search on parabolas"); mc::explore([&](mc::Chooser& c) { ll off = c.pick(std::vector<ll>{-6, 0, 1000000000000LL}); int w = c.range(1, 12), k = c.range(1, w); auto f = [&](ll x) { return x >= off + k; }; MC_EQ(suisen::binary_search<ll>(off, off + w, f), off + k, "binary_search"); MC_EQ(suisen::binary_search_exponential<ll>(off, f), off + k, "exponential"); if (off < 100) { auto g = [&](int x) { return x >= off + k; }; MC_EQ(suisen::binary_search<int>(off, off + w, g), (int)off + k, "binary_search<int>"); } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::T(7, 9)), l = c.pick(std::vector<int>{-3, 0, 5}); std::vector<ll> v{c.range(-1, 1)}; int lo = -2; for (int i = 1; i < n; ++i) { lo = c.range(lo, 2); v.push_back(v.back() + lo); } for (auto& x : v) x *= 3000000000LL; auto f = [&](int x) { MC_CHECK(x >= l && x < l + n, "argument in range"); return v[x - l]; }; auto g = [&](int x) { return -f(x); }; ll m = *std::min_element(v.begin(), v.end()); using T = suisen::ternary_search_tag; MC_EQ(f(suisen::ternary_search_key<T::Convex>(l, l + n - 1, f)), m, "argmin"); MC_EQ(g(suisen::ternary_search_key<T::Concave>(l, l + n - 1, g)), -m, "argmax"); MC_EQ((ll)suisen::ternary_search_value<T::Convex>(l, l + n - 1, f), m, "min value"); MC_EQ((ll)suisen::ternary_search_value<T::Concave>(l, l + n - 1, g), -m, "max value"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { double a = c.range(-4, 4), b = a + c.range(0, 6), p = c.range(-5, 9) / 2.0; auto f = [&](double x) { return (x - p) * (x - p); }; double w = std::min(std::max(p, a), b); using T = suisen::ternary_search_tag; MC_CHECK(std::abs(suisen::ternary_search_key<T::Convex>(a, b, 100, f) - w) < 1e-5, "float argmin"); MC_CHECK(std::abs(suisen::ternary_search_value<T::Convex>(a, b, (std::size_t)100, f) - f(w)) < 1e-5, "float min"); mc::step(); }); }
MC_GROUP(permutations) { mc::bound("every permutation of length <=6 (7) (pairs up to 4): composition, inverse, permute/inv_permute, powers incl. exponents near 2^63, minimal perfect hash is a bijection onto [0,n!), index_sort"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(6, 7)); std::vector<int> rest(n), v; std::iota(rest.begin(), rest.end(), 0); while (rest.size()) { int k = c.choose(rest.size()); v.push_back(rest[k]); rest.erase(rest.begin() + k); } suisen::Permutation p(v), id(n); auto q = p.inv(); MC_CHECK(p * q == id && q * p == id, "inverse"); std::vector<std::string> a(n); for (int i = 0; i < n; ++i) a[i] = std::string(1, 'a' + i); auto b = p.permute(a), d = p.inv_permute(a); for (int i = 0; i < n; ++i) MC_CHECK(b[i] == a[v[i]] && d[v[i]] == a[i], "permute"); suisen::Permutation w = id; for (int k = 0; k <= 13; ++k) { MC_CHECK(p.pow(k) == w, "pow " + std::to_string(k)); w *= p; } ll ord = 1; for (auto t = p; !(t == id); t *= p) ++ord; for (ll k : {(1LL << 62) - 1, LLONG_MAX, LLONG_MAX - 1, LLONG_MAX - 3}) MC_CHECK(p.pow(k) == p.pow(k % ord), "huge power"); ll f = 1; for (int i = 2; i <= n; ++i) f *= i; ll h = suisen::PermutationHash<ll>()(p); MC_CHECK(0 <= h && h < f, "hash range"); MC_CHECK(suisen::PermutationHash<ll>::unhash(n, h) == p, "unhash(hash)"); mc::outcome(h * 10 + n); std::vector<int> e(n); for (int i = 0; i < n; ++i) e[i] = v[i] / 2; auto s = suisen::Permutation::index_sort(e); auto t = suisen::Permutation::index_sort(e, std::greater<int>()); MC_CHECK(std::is_permutation(s.begin(), s.end(), id.begin()), "index_sort permutation"); for (int i = 1; i < n; ++i) MC_CHECK(e[s[i - 1]] <= e[s[i]] && e[t[i - 1]] >= e[t[i]], "index_sort order"); if (n <= 4) { std::vector<int> y(n); std::iota(y.begin(), y.end(), 0); do { suisen::Permutation r(y), pr = p * r, rp = p; rp *= r; for (int i = 0; i < n; ++i) MC_EQ(pr[i], p[r[i]], "product"); MC_CHECK(rp == pr, "*="); MC_CHECK((p * r).inv() == r.inv() * p.inv(), "inverse of product"); } while (std::next_permutation(y.begin(), y.end())); } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 6); ll f = 1; for (int i = 2; i <= n; ++i) f *= i; ll h = c.choose(f); auto p = suisen::PermutationHash<unsigned>::unhash(n, h); MC_EQ(suisen::PermutationHash<unsigned>::hash(p), (unsigned)h, "hash(unhash)"); mc::step(); }); }
MC_GROUP(products) { mc::bound("product_range for every 1..4-dimensional box with sides -1..3 (mixed integer types), in lexicographic order; default operators"); mc::explore([&](mc::Chooser& c) { int d = c.range(1, 4); std::vector<int> n(d); for (int& x : n) x = c.range(-1, 3); std::vector<std::vector<int>> w, g; bool ok = *std::min_element(n.begin(), n.end()) > 0; if (ok) { std::vector<int> v(d); while (true) { w.push_back(v); int i = d - 1; while (i >= 0 && ++v[i] == n[i]) v[i--] = 0; if (i < 0) break; } } auto run = [&](const auto& r) { for (const auto& a : r) { g.push_back(std::vector<int>(a.begin(), a.end())); if (g.size() > w.size()) return; } }; if (d == 1) run(suisen::product_range(n[0])); if (d == 2) run(suisen::product_range(n[0], (ll)n[1])); if (d == 3) run(suisen::product_range(n[0], (short)n[1], n[2])); if (d == 4) run(suisen::product_range(n[0], n[1], (ll)n[2], n[3])); MC_CHECK(g == w, "product_range"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int x = c.range(-4, 4), y = c.range(1, 4); namespace d = suisen::default_operator; namespace e = suisen::default_operator_noref; MC_CHECK(d::zero<int>() == 0 && d::one<int>() == 1 && e::zero<int>() == 0 && e::one<int>() == 1, "constants"); MC_CHECK(d::add(x, y) == x + y && d::sub(x, y) == x - y && d::mul(x, y) == x * y && d::div(x, y) == x / y && d::mod(x, y) == x % y && d::neg(x) == -x && d::inv(double(y)) == 1.0 / y, "operators"); MC_CHECK(e::add(x, y) == x + y && e::sub(x, y) == x - y && e::mul(x, y) == x * y && e::div(x, y) == x / y && e::mod(x, y) == x % y && e::neg(x) == -x && e::inv(double(y)) == 1.0 / y, "operators (by value)"); mc::step(); }); }
MC_GROUP(step_iterators) { mc::bound("StepIterator as a random access iterator: all positions and offsets for container sizes <=9, steps 1..3; StepSum::operator() and data(); std::algorithms through the iterator");
    mc::explore([&](mc::Chooser& c) { int step = c.range(1, 3), cnt = c.range(0, 4), i = c.range(0, cnt), j = c.range(0, cnt); std::vector<int> a(step * cnt + step); for (size_t t = 0; t < a.size(); ++t) a[t] = int(t) * 3 % 7; using It = suisen::StepIterator<std::vector<int>::iterator>; It b(a.begin(), step), p = b + i, q = j + b;
        MC_EQ(p - q, (std::ptrdiff_t)(i - j), "difference"); MC_CHECK((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p <= q) == (i <= j) && (p > q) == (i > j) && (p >= q) == (i >= j), "comparisons"); MC_CHECK(&*p == &a[i * step], "dereference"); MC_CHECK(&b[i] == &a[i * step], "operator[]"); { It r = p; r += j - i; MC_CHECK(r == q, "+="); r -= j - i; MC_CHECK(r == p, "-="); MC_CHECK(p + (j - i) == q && q - (j - i) == p, "+ -"); } if (i < cnt) { It r = p; It o = r++; MC_CHECK(o == p && r == b + (i + 1), "post++"); o = r--; MC_CHECK(o == b + (i + 1) && r == p, "post--"); ++r; MC_CHECK(r - p == 1, "++"); --r; MC_CHECK(r == p, "--"); *r = 50; MC_EQ(a[i * step], 50, "write"); }
        std::vector<int> w; for (int t = 0; t < cnt; ++t) w.push_back(a[t * step]); std::vector<int> all = a; std::sort(b, b + cnt); std::sort(w.begin(), w.end()); for (size_t t = 0; t < a.size(); ++t) MC_EQ(a[t], (t % step == 0 && int(t / step) < cnt ? w[t / step] : all[t]), "sort through the step iterator"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 7), step = c.range(1, 4); std::vector<ll> a(n); for (int i = 0; i < n; ++i) a[i] = 1 << i; suisen::StepSum<ll> s(a, step); const auto& cs = s; MC_EQ((int)cs.data().size(), n, "data size"); for (int i = 0; i < n; ++i) { ll w = 0; for (int j = i; j >= 0; j -= step) w += a[j]; MC_EQ(cs.data()[i], w, "data"); MC_EQ(s.data()[i], w, "data"); } for (int k = 0; k < step; ++k) for (int l = 0; l <= n; ++l) for (int r = l; r <= n + 1; ++r) { ll w = 0; for (int i = l; i < r && i < n; ++i) if (i % step == k) w += a[i]; MC_EQ(s(k, l, r), w, "operator()"); } mc::step(); });
    { MC_CASE(0); suisen::StepSum<ll> e; MC_EQ(e(0, 0, 5), 0LL, "default"); } 
    mc::explore([&](mc::Chooser& c) { int a = c.range(-1, 3), b = c.range(0, 3), d = c.range(0, 2); std::vector<std::array<int, 3>> w, g; for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) w.push_back({i, j, k}); for (auto& v : suisen::product_range(a, b, d)) g.push_back(v); MC_CHECK(g == w, "product_range 3"); std::vector<int> o; for (auto& v : suisen::product_range(a)) o.push_back(v[0]); MC_EQ((int)o.size(), std::max(0, a), "product_range 1"); for (size_t i = 0; i < o.size(); ++i) MC_EQ(o[i], (int)i, "product_range 1"); mc::step(); }); }
MC_GROUP(wide_subsets) { mc::bound("all_subset_k / nCk / all_subset_k_64: masks of 28..31 (60..63) bits - dense, and with every third bit missing - and k in {0,1,2,3} and within 2 of the number of bits: exact count, increasing order, all subsets of the right size");
    auto C = [](int n, int k) { double r = 1; if (k > n) return 0LL; if (k > n - k) k = n - k; long long x = 1; (void)r; for (int i = 0; i < k; ++i) x = x * (n - i) / (i + 1); return x; };
    auto seq = [&](auto it, auto s, int b, int k, const char* w) { long long cnt = 0; unsigned long long last = 0; while (it != nullptr) { unsigned long long v = *it; MC_CHECK((v & ~(unsigned long long)s) == 0 && __builtin_popcountll(v) == k, w << ": not a subset of size " << k); MC_CHECK(cnt == 0 || v > last, w << ": order"); last = v; ++cnt; if (cnt > C(b, k)) break; ++it; } MC_EQ(cnt, C(b, k), w << ": number of subsets of size " << k << " of " << b); mc::step(); };
    for (int b : { 28, 30, 31 }) for (int k : { 0, 1, 2, 3, b - 2, b - 1, b }) { MC_CASE(32, b, k); unsigned s = b == 31 ? 0x7fffffffu : ((1u << b) - 1) << (32 - b); seq(suisen::all_subset_k(s, k).begin(), s, b, k, "all_subset_k"); if (b == 31) { unsigned h = 0xfffffffeu; seq(suisen::all_subset_k(h, k).begin(), h, b, k, "all_subset_k high"); } seq(suisen::all_subset_k::nCk(b, k).begin(), (1u << b) - 1, b, k, "nCk"); }
    { MC_CASE(32, 0); unsigned s = 0xdb6db6dbu; int b = __builtin_popcount(s); for (int k : { 0, 1, 2, 3, b - 1, b }) seq(suisen::all_subset_k(s, k).begin(), s, b, k, "all_subset_k sparse"); }
    for (int b : { 33, 60, 63 }) for (int k : { 0, 1, 2, 3, b - 2, b - 1, b }) { MC_CASE(64, b, k); unsigned long long s = ((1ULL << b) - 1) << (64 - b), t = (1ULL << b) - 1; seq(suisen::all_subset_k_64(s, k).begin(), s, b, k, "all_subset_k_64"); seq(suisen::all_subset_k_64(t, k).begin(), t, b, k, "all_subset_k_64 low"); }
    { MC_CASE(64, 0); unsigned long long s = 0xdb6db6dbdb6db6dbULL; int b = __builtin_popcountll(s); for (int k : { 0, 1, 2, 3, b - 1, b }) seq(suisen::all_subset_k_64(s, k).begin(), s, b, k, "all_subset_k_64 sparse"); }
}
MC_GROUP(self_permutation) {
    mc::bound("p *= p for every permutation of 0..6 elements, p * p, p.permute applied to itself, p *= p.inv()");
    for (int n = 0; n <= 6; ++n) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); do { MC_CASE(n, v.empty() ? 0 : v[0], v.size() > 1 ? v[1] : 0, v.size() > 2 ? v[2] : 0); suisen::Permutation p(v), q = p, r = p, e = p; q *= q; r *= r.inv(); e = p * p; for (int i = 0; i < n; ++i) { MC_EQ(q[i], v[v[i]], "p *= p"); MC_EQ(e[i], v[v[i]], "p * p"); MC_EQ(r[i], i, "p *= inv"); MC_EQ(p[i], v[i], "unchanged"); } mc::step(); } while (std::next_permutation(v.begin(), v.end())); }
}
MC_GROUP(middle_sizes) {
    mc::bound("lengths 11, 33, 64, 100: cumulative sums (every range; also elements appended), 2D sums of 11x33 and 33x11 (every 3rd border), StepSum with steps 1, 2, 5, 9, 33 (every residue, every 2nd range), permutations (strided and reversed and one long cycle plus fixed points): inverse, permute, inv_permute, powers 0..40");
    for (int n : { 11, 33, 64, 100 }) { MC_CASE(n); std::vector<ll> a(n); for (int i = 0; i < n; ++i) a[i] = i * i * 7 % 101 - 40; auto sum = [&](int l, int r) { ll s = 0; for (int i = l; i < r; ++i) s += a[i]; return s; }; suisen::CumulativeSum<ll> s(a), t; for (ll x : a) t.push_back(x); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { ll w = sum(l, r); MC_CHECK(s(l, r) == w && t(l, r) == w && s.sum(l, r) == w, "sum " << l << " " << r); mc::step(); }
        for (int st : { 1, 2, 5, 9, 33 }) { suisen::StepSum<ll> q(a, st); for (int k = 0; k < st; ++k) for (int l = 0; l <= n; l += 2) for (int r = l; r <= n; r += 2) { ll w = 0; for (int i = l; i < r; ++i) if (i % st == k) w += a[i]; MC_EQ(q(k, l, r), w, "step sum n=" << n << " step=" << st << " k=" << k << " " << l << "," << r); } mc::step(); } 
        for (int kind = 0; kind < 3; ++kind) { std::vector<int> v(n); int mul = n == 33 ? 7 : n == 11 ? 3 : n == 64 ? 5 : 7; for (int i = 0; i < n; ++i) v[i] = kind == 0 ? i * mul % n : kind == 1 ? n - 1 - i : (i < n - 3 ? (i + 1) % (n - 3) : i); suisen::Permutation p(v); auto q = p.inv(); std::vector<ll> x = p.permute(a), y = p.inv_permute(a); for (int i = 0; i < n; ++i) { MC_EQ(q[v[i]], i, "inv"); MC_EQ(x[i], a[v[i]], "permute"); MC_EQ(y[v[i]], a[i], "inv_permute"); } std::vector<int> w(n); std::iota(w.begin(), w.end(), 0); for (int e = 0; e <= 40; ++e) { auto r = p.pow(e); for (int i = 0; i < n; ++i) MC_EQ(r[i], w[i], "pow " << e); for (auto& z : w) z = v[z]; } mc::step(); } }
    for (int sw = 0; sw < 2; ++sw) { int n = sw ? 33 : 11, m = sw ? 11 : 33; MC_CASE(n, m); std::vector<std::vector<ll>> a(n, std::vector<ll>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a[i][j] = (i * 37 + j * j * 11) % 97 - 30; suisen::CumulativeSum2D<ll> s(a); for (int u = 0; u <= n; u += 1 + u % 3) for (int d = u; d <= n; d += 3) for (int l = 0; l <= m; l += 1 + l % 3) for (int r = l; r <= m; r += 3) { ll w = 0; for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) w += a[i][j]; MC_EQ(s(u, d, l, r), w, "2D sum"); } mc::step(); }
}
MC_MAIN
