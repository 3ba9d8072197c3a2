// mc: flags='-O1'
// Size ladder across the 10-, 12- and 16-bit borders.
#include "mc.hpp"
#include "free.hpp"
#include "library/datastructure/bit_vector.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
using namespace suisen; using std::vector;
static const int NS[] = { 1023, 1025, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 70001 };
static vector<int> cuts(int n) { vector<int> q; for (int k = 1; k <= n; k *= 2) for (int d = -1; d <= 1; ++d) { q.push_back(k + d); q.push_back(n - k - d); } q.push_back(n / 3); q.push_back(n); vector<int> r; for (int x : q) if (0 <= x && x <= n) r.push_back(x); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
MC_GROUP(bit_vector_huge) {
    mc::bound("n in {1023..70001}, all-zero, all-one, sparse, blocky and mixed patterns: every prefix rank, every select");
    for (int n : NS) for (int k = 0; k < 5; ++k) { MC_CASE(n, k); auto f = [&](int i) -> bool { return k == 0 ? false : k == 1 ? true : k == 2 ? i % 4099 == 17 : k == 3 ? i / 512 % 2 : fr::K(i) & 1; }; BitVector b(n, f); int c[2] = { 0, 0 };
        for (int i = 0; i < n; ++i) { bool x = f(i); if (b[i] != x || b.access(i) != x || b.rank(true, i) != c[1] || b.rank(false, i) != c[0]) mc::fail("access/rank at " + std::to_string(i)); ++c[x]; if (i % 7 == 0 || k == 2) MC_EQ(b.select(x, c[x]), i + 1, "select"); } MC_EQ(b.rank(true, n), c[1], "rank at end"); MC_EQ(b.rank(false, n), c[0], "rank at end"); for (int x = 0; x < 2; ++x) MC_EQ(b.select(x, c[x] + 1), -1, "select past the end"); mc::step(); }
}
template <class T, int B, bool C> static void wav() {
    for (int n : NS) for (int k = 0; k < 3; ++k) { MC_CASE(n, k, B); vector<T> a(n); T mask = B == int(sizeof(T)) * 8 ? T(-1) : T((T(1) << (B % (sizeof(T) * 8))) - 1); for (int i = 0; i < n; ++i) a[i] = k == 0 ? T(fr::K(i)) & mask : k == 1 ? T(i % 3 + 1) : T(i) & mask; std::conditional_t<C, CompressedWaveletMatrix<T, 17>, WaveletMatrix<T, B>> w(a); auto q = cuts(n); vector<T> s;
        for (int i : q) if (i < n) { MC_EQ(T(w[i]), a[i], "access"); } for (T v : { a[0], a[n / 2], a[n - 1] }) { int c = 0; size_t j = 0; for (int i = 0; i <= n; ++i) { if (j < q.size() && q[j] == i) { MC_EQ(w.rank(v, i), c, "rank"); ++j; } if (i < n) c += a[i] == v; } }
        for (auto [l, r] : { std::pair<int, int>{ 0, n }, { 1, n - 1 }, { n / 3, n }, { 5, n - n / 7 }, { n - 300, n } }) { s.assign(a.begin() + l, a.begin() + r); std::sort(s.begin(), s.end()); int m = s.size(); for (int x : q) if (x < m) { MC_EQ(T(w.range_kth_smallest(l, r, x)), s[x], "kth smallest " << x); MC_EQ(T(w.range_kth_largest(l, r, x)), s[m - 1 - x], "kth largest " << x); T v = s[x]; auto lt = std::lower_bound(s.begin(), s.end(), v) - s.begin(), le = std::upper_bound(s.begin(), s.end(), v) - s.begin(); MC_EQ(w.range_freq(l, r, v), (int)lt, "freq"); MC_EQ(w.range_freq(l, r, s[0], v), (int)lt, "freq (two bounds)"); if (le < m) MC_EQ(T(w.range_min_gt(l, r, v)), s[le], "min_gt"); if (lt) MC_EQ(T(w.range_max_lt(l, r, v)), s[lt - 1], "max_lt"); mc::step(); } } }
}
MC_GROUP(wavelet_huge) { mc::bound("n in {1023..70001}, random, few-valued and increasing arrays, five wide ranges: ranks at border cuts, order statistics at border ranks, frequencies, neighbours"); wav<unsigned, 20, false>(); wav<unsigned long long, 64, false>(); wav<int, 31, true>(); }
MC_GROUP(dynamic_bitset_huge) {
    mc::bound("n in {1023..70001}: shifts by border amounts, count, find_first/next, logic, against vector<bool>");
    for (int n : NS) { MC_CASE(n); vector<char> a(n), b(n); DynamicBitSet x(n), y(n); for (int i = 0; i < n; ++i) { a[i] = fr::K(i) % 3 == 0; b[i] = fr::K(i + 77777) & 1; x[i] = bool(a[i]); y[i] = bool(b[i]); }
        auto eq = [&](const DynamicBitSet& z, auto f, const char* m) { int c = 0; for (int i = 0; i < n; ++i) { bool w = f(i); c += w; if (bool(z[i]) != w) mc::fail(std::string(m) + " bit " + std::to_string(i)); } MC_EQ((int)z.count(), c, m << " count"); }; eq(x & y, [&](int i) { return a[i] && b[i]; }, "&"); eq(x | y, [&](int i) { return a[i] || b[i]; }, "|"); eq(x ^ y, [&](int i) { return a[i] != b[i]; }, "^"); eq(~x, [&](int i) { return !a[i]; }, "~");
        auto q = cuts(n); for (size_t j = 0; j < q.size(); j += 3) { int s = q[j]; eq(x << s, [&](int i) { return i >= s && a[i - s]; }, "<<"); eq(x >> s, [&](int i) { return i + s < n && a[i + s]; }, ">>"); mc::step(); } }
}
MC_MAIN
