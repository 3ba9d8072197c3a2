#include "free.hpp"
#include "library/datastructure/bit_vector.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
using namespace suisen; using VB = std::vector<bool>;
static void bv_check(const BitVector& b, const VB& v) {
    int n = v.size(), c[2] = { 0, 0 }; for (int i = 0; i <= n; ++i) { MC_EQ(b.rank(true, i), c[1], "rank1(" << i << ")"); MC_EQ(b.rank(false, i), c[0], "rank0(" << i << ")"); if (i < n) { MC_EQ(b[i], bool(v[i]), "[" << i << "]"); MC_EQ(b.access(i), bool(v[i]), "access"); ++c[v[i]]; MC_EQ(b.select(v[i], c[v[i]]), i + 1, "select of value " << v[i] << " number " << c[v[i]] << " is the end of the shortest prefix containing it"); } }
    for (int x = 0; x < 2; ++x) { MC_EQ(b.select(x, c[x] + 1), -1, "select past the end"); MC_EQ(b.select(x, c[x] + 1, 77), 77, "select default"); }
}
MC_GROUP(bit_vector) {
    mc::bound("every bit pattern to length 11(13); ladders over lengths 0..40, 250..262, 505..520, 770 with 8 patterns; copies and rebuilt assignments; all (l,r) ranks");
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(11, 13)); VB v(n); for (int i = 0; i < n; ++i) v[i] = c.flag(); BitVector b(n, [&](int i) -> bool { return v[i]; }); bv_check(b, v); });
    std::vector<int> N; for (int i = 0; i <= 40; ++i) N.push_back(i); for (int i = 250; i <= 262; ++i) N.push_back(i); for (int i = 505; i <= 520; ++i) N.push_back(i); N.push_back(770);
    for (int n : N) for (int k = 0; k < 8; ++k) { MC_CASE(n, k); VB v(n); for (int i = 0; i < n; ++i) v[i] = k == 0 ? false : k == 1 ? true : k == 2 ? i % 2 : k == 3 ? i / 8 % 2 : k == 4 ? i / 256 % 2 : k == 5 ? i == n - 1 : fr::K(i + k * 1000) & 1; BitVector b(n); b.build([&](int i) -> bool { return v[i]; }); bv_check(b, v); BitVector c, d(3); c = b; d = std::move(b); bv_check(c, v); bv_check(d, v); for (int l = 0; l <= n; l += 1 + n / 40) for (int r = l; r <= n; r += 1 + n / 60) { int t = 0; for (int i = l; i < r; ++i) t += v[i]; MC_EQ(d.rank(true, l, r), t, "rank(l,r)"); MC_EQ(d.rank(false, l, r), r - l - t, "rank0(l,r)"); } }
}
// ---------------------------------------------------------------- wavelet matrices
template <class T, class W> static void basic(const W& w, const std::vector<T>& a, const std::vector<T>& probe, int l, int r) {
    std::vector<T> s(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end()); int m = s.size(); T D = T(99);
    for (int k = -1; k <= m; ++k) { MC_EQ(w.range_kth_smallest(l, r, k, D), 0 <= k && k < m ? s[k] : D, "kth_smallest " << k << " in [" << l << "," << r << ")"); MC_EQ(w.range_kth_largest(l, r, k, D), 0 <= k && k < m ? s[m - 1 - k] : D, "kth_largest " << k); } MC_EQ(w.range_kth_smallest(l, r, m), T(-1), "default default");
    if (m) { MC_EQ(w.range_min(l, r), s[0], "range_min"); MC_EQ(w.range_max(l, r), s[m - 1], "range_max"); }
    for (T u : probe) { int lt = std::lower_bound(s.begin(), s.end(), u) - s.begin(), le = std::upper_bound(s.begin(), s.end(), u) - s.begin(); MC_EQ(w.range_freq(l, r, u), lt, "range_freq <" << mc::show(u)); MC_EQ(w.range_min_geq(l, r, u, D), lt < m ? s[lt] : D, "min_geq " << mc::show(u)); MC_EQ(w.range_min_gt(l, r, u, D), le < m ? s[le] : D, "min_gt " << mc::show(u)); MC_EQ(w.range_max_lt(l, r, u, D), lt ? s[lt - 1] : D, "max_lt " << mc::show(u)); MC_EQ(w.range_max_leq(l, r, u, D), le ? s[le - 1] : D, "max_leq " << mc::show(u) << " in [" << l << "," << r << ")");
        for (T x : probe) { int c = 0; for (T y : s) c += u <= y && y < x; MC_EQ(w.range_freq(l, r, u, x), c, "range_freq [" << mc::show(u) << "," << mc::show(x) << ")"); } }
}
template <class T, class W> static void xored(const W& w, const std::vector<T>& a, const std::vector<T>& probe, const std::vector<T>& xs, int l, int r) {
    T D = T(98); for (T x : xs) { std::vector<T> s; for (int i = l; i < r; ++i) s.push_back(a[i] ^ x); std::sort(s.begin(), s.end()); int m = s.size(); for (int k = -1; k <= m; ++k) { MC_EQ(w.range_xor_kth_smallest(l, r, k, x, D), 0 <= k && k < m ? T(s[k] ^ x) : D, "xor kth_smallest " << k); MC_EQ(w.range_xor_kth_largest(l, r, k, x, D), 0 <= k && k < m ? T(s[m - 1 - k] ^ x) : D, "xor kth_largest " << k); } if (m) { MC_EQ(w.range_xor_min(l, r, x), T(s[0] ^ x), "xor min"); MC_EQ(w.range_xor_max(l, r, x), T(s[m - 1] ^ x), "xor max"); }
        for (T u : probe) { int lt = std::lower_bound(s.begin(), s.end(), u) - s.begin(), le = std::upper_bound(s.begin(), s.end(), u) - s.begin(); MC_EQ(w.range_xor_freq(l, r, x, u), lt, "xor freq"); MC_EQ(w.range_xor_min_geq(l, r, x, u, D), lt < m ? T(s[lt] ^ x) : D, "xor min_geq"); MC_EQ(w.range_xor_min_gt(l, r, x, u, D), le < m ? T(s[le] ^ x) : D, "xor min_gt"); MC_EQ(w.range_xor_max_lt(l, r, x, u, D), lt ? T(s[lt - 1] ^ x) : D, "xor max_lt"); MC_EQ(w.range_xor_max_leq(l, r, x, u, D), le ? T(s[le - 1] ^ x) : D, "xor max_leq");
            for (T v : probe) { int c = 0; for (T y : s) c += u <= y && y < v; MC_EQ(w.range_xor_freq(l, r, x, u, v), c, "xor freq range"); } } }
}
template <class T, class W> static void whole(const W& w, const std::vector<T>& a, const std::vector<T>& vals) { int n = a.size(); for (int i = 0; i < n; ++i) { MC_EQ(w[i], a[i], "[" << i << "]"); MC_EQ(w.access(i), a[i], "access"); } for (T v : vals) { int c = 0; for (int i = 0; i <= n; ++i) { MC_EQ(w.rank(v, i), c, "rank " << mc::show(v) << " " << i); if (i < n) c += a[i] == v; } } }
template <class T, int B> static void small() {
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(B == 2 ? 4 : 3, B == 2 ? 5 : 4)); std::vector<T> a(n), pr, xs; for (T& x : a) x = c.choose(1 << B); for (int i = 0; i < 1 << B; ++i) xs.push_back(i); pr = xs; pr.push_back(1 << B); if (B > 2) pr.push_back((1 << B) + 1); using W = WaveletMatrix<T, B>; W w = n % 2 ? W(a) : W(n, [&](int i) { return a[i]; }); whole(w, a, xs); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { basic(w, a, pr, l, r); xored(w, a, pr, xs, l, r); } });
}
MC_GROUP(wavelet_2bit) { mc::bound("every array over all values of 2 and 3 bits to length 4/3 (5/4), every range, every probe and xor mask"); small<int, 2>(); small<unsigned, 3>(); }
template <class T, int B> static void wide(const char* nm, std::vector<T> vals) {
    mc::bound("wide value types at their extremes: every array of 3 over the extreme values, every range/probe; ladders to n=600 across bit-vector blocks");
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(2, 3)); std::vector<T> a(n); for (T& x : a) x = c.pick(vals); WaveletMatrix<T, B> w(a); whole(w, a, vals); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { basic(w, a, vals, l, r); xored(w, a, vals, vals, l, r); } });
    for (int n : { 7, 8, 9, 64, 255, 256, 257, 300, 520 }) for (int k = 0; k < 3; ++k) { MC_CASE(n, k, B); std::vector<T> a(n); for (int i = 0; i < n; ++i) a[i] = k == 0 ? vals[i % vals.size()] : k == 1 ? vals[i * vals.size() / n] : T(fr::K(i) & (vals.back())); WaveletMatrix<T, B> w(a); std::vector<T> pr = vals; pr.push_back(a[n / 2]); whole(w, a, pr); for (auto p : { std::pair<int, int>{ 0, n }, { 1, n - 1 }, { n / 2, n }, { n / 3, n / 3 + 5 }, { 4, 4 } }) if (p.second <= n) { int l = p.first, r = p.second; basic(w, a, pr, l, std::min(r, l + 60)); if (r - l < 70) xored(w, a, pr, { vals[0], vals.back(), vals[1] }, l, r); std::vector<T> s(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end()); for (int q = 0; q < r - l; ++q) MC_EQ(w.range_kth_smallest(l, r, q), s[q], "kth, long range"); } }
}
MC_GROUP(wavelet_wide) {
    wide<unsigned, 32>("u32", { 0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu });
    wide<int, 30>("int30", { 0, 1, 5, (1 << 29) - 1, 1 << 29, (1 << 30) - 2, (1 << 30) - 1 });
    wide<unsigned long long, 64>("u64", { 0ull, 1ull, 1ull << 31, 1ull << 32, (1ull << 63) - 1, 1ull << 63, ~0ull - 1, ~0ull });
    wide<long long, 60>("i60", { 0ll, 1ll, 1ll << 31, 1ll << 32, (1ll << 59) - 1, 1ll << 59, (1ll << 60) - 1 });
}
MC_GROUP(wavelet_default_width) {
    mc::bound("default bit width for int, unsigned, long long, unsigned long long; default constructed objects");
    auto go = [&](auto zero) { using T = decltype(zero); T M = std::numeric_limits<T>::max(); std::vector<T> vals{ 0, 1, T(M / 2), T(M - 1), M }; mc::explore([&](mc::Chooser& c) { int n = c.range(0, 2); std::vector<T> a(n); for (T& x : a) x = c.pick(vals); WaveletMatrix<T> w(a); whole(w, a, vals); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { basic(w, a, vals, l, r); xored(w, a, vals, vals, l, r); } }); WaveletMatrix<T> d; MC_EQ(d.rank(T(1), 0), 0, "default constructed rank"); MC_EQ(d.range_freq(0, 0, T(1)), 0, "default constructed freq"); MC_EQ(d.range_kth_smallest(0, 0, 0, T(5)), T(5), "default constructed kth"); };
    go(int()); go((unsigned)0); go((long long)0); go((unsigned long long)0);
}
template <class T, int B> static void compressed(std::vector<T> vals, std::vector<T> probe, int N) {
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, N); std::vector<T> a(n); for (T& x : a) x = c.pick(vals); using W = CompressedWaveletMatrix<T, B>; W w = n % 2 ? W(a) : W(n, [&](int i) { return a[i]; }); whole(w, a, probe); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) basic(w, a, probe, l, r); });
}
MC_GROUP(compressed) {
    mc::bound("every array of length <=4(5) over 4 values (negatives and type extremes included), index widths that are exactly filled, every range and probe");
    compressed<int, 3>({ -5, 0, 3, 7 }, { INT_MIN, -6, -5, -1, 0, 2, 3, 4, 7, 8, INT_MAX }, mc::T(4, 5)); compressed<int, 2>({ INT_MIN, -1, 0, INT_MAX }, { INT_MIN, INT_MIN + 1, -1, 0, 1, INT_MAX - 1, INT_MAX }, mc::T(4, 5)); compressed<long long, 20>({ LLONG_MIN, -1, 1ll << 40, LLONG_MAX }, { LLONG_MIN, LLONG_MIN + 1, -2, -1, 0, 1ll << 40, (1ll << 40) + 1, LLONG_MAX }, mc::T(3, 4)); compressed<unsigned, 5>({ 0u, 1u, 0x80000000u, ~0u }, { 0u, 1u, 2u, 0x7fffffffu, 0x80000000u, ~0u - 1, ~0u }, mc::T(3, 4));
    CompressedWaveletMatrix<int, 4> d; MC_EQ(d.range_freq(0, 0, 5), 0, "default constructed"); MC_EQ(d.rank(3, 0), 0, "default constructed rank");
}
MC_GROUP(compressed_default_width) {
    mc::bound("default index width");
    auto go = [&](auto z) { using T = decltype(z); std::vector<T> vals{ 3, 9, 100 }; mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3); std::vector<T> a(n); for (T& x : a) x = c.pick(vals); CompressedWaveletMatrix<T> w(a); whole(w, a, vals); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) basic<T>(w, a, { 0, 3, 4, 9, 100, 101 }, l, r); }); };
    go(int()); go((long long)0); go((unsigned)0);
}
MC_MAIN
