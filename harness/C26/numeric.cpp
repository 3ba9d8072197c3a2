// Sum-index convolutions under several moduli, mod 2^64, exact integers, multivariate (truncated and circular), multiplicative mod 2^n.
#include "mc.hpp"
#include <atcoder/modint>
#include <numeric>
#include <random>
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/convolution/convolution_2_64.hpp"
#include "library/convolution/convolution_large.hpp"
#include "library/convolution/multi_variate_convolution.hpp"
#include "library/convolution/multi_variate_convolution_circular.hpp"
#include "library/convolution/multiplicative_convolution_mod_2^n.hpp"
using namespace suisen;
using ll = long long; using ull = unsigned long long; using u128 = unsigned __int128;
using m998 = atcoder::modint998244353;
template <class T> std::vector<T> conv(const std::vector<T>& a, const std::vector<T>& b) { if (a.empty() || b.empty()) return {}; std::vector<T> c(a.size() + b.size() - 1, T(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
static std::vector<ull> pat(int n, int p, ull top) { std::vector<ull> v(n); for (int i = 0; i < n; ++i) switch (p) { case 0: v[i] = top; break; case 1: v[i] = i % 2 ? top : 0; break; case 2: v[i] = (ull(i) * 0x9e3779b97f4a7c15ull + 12345) % top; break; case 3: v[i] = i == 0 || i == n - 1 ? top : 0; break; case 4: v[i] = top - i % 3; break; } return v; }
static std::vector<std::pair<int, int>> sizes(int th) { std::vector<std::pair<int, int>> r; for (int n : {0, 1, 2, 3, th - 1, th, th + 1, th + 2, 2 * th, 257, 300}) for (int m : {0, 1, 2, 5, th - 1, th, th + 1, th + 7, 256, 400}) r.push_back({n, m}); return r; }
template <class M> void arb(int id) {
    for (auto [n, m] : sizes(120)) for (int p = 0; p < 5; ++p) for (int q : {p, 2}) { MC_CASE(id, n, m, p, q); auto x = pat(n, p, M::mod() - 1), y = pat(m, q, M::mod() - 1); std::vector<M> a(x.begin(), x.end()), b(y.begin(), y.end()); auto c = arbitrary_mod_convolution<M>(a, b); auto w = conv(a, b); MC_CHECK(c == w, "arbitrary_mod_convolution"); mc::step(); }
}
using D = atcoder::dynamic_modint<77>;
MC_GROUP(arbitrary_mod) { mc::bound("arbitrary_mod_convolution: sizes around the 120 switch up to 300x400, extreme/sparse/dense patterns, moduli 1e9+7, 998244353, 2^31-1, 3, 64, 1e9 and dynamic moduli");
    arb<atcoder::modint1000000007>(1); arb<m998>(2); arb<atcoder::static_modint<2147483647>>(3); arb<atcoder::static_modint<3>>(4); arb<atcoder::static_modint<64>>(5); arb<atcoder::static_modint<1000000000>>(6);
    D::set_mod(2147483647); arb<D>(7); D::set_mod(1000000006); arb<D>(8); D::set_mod(2); arb<D>(9); }
MC_GROUP(exact_int) { mc::bound("convolution_int: sizes around 120 up to 300x400, values up to 2^31-1, exact 128-bit results");
    for (auto [n, m] : sizes(120)) for (int p = 0; p < 5; ++p) for (int q = 0; q < 5; ++q) { MC_CASE(n, m, p, q); auto x = pat(n, p, INT_MAX), y = pat(m, q, INT_MAX); std::vector<int> a(x.begin(), x.end()), b(y.begin(), y.end()); std::vector<u128> A(x.begin(), x.end()), B(y.begin(), y.end()); auto c = convolution_int(a, b); auto w = conv(A, B); MC_CHECK(c.size() == w.size() && std::equal(c.begin(), c.end(), w.begin()), "convolution_int"); mc::step(); } }
MC_GROUP(mod_2_64) { mc::bound("convolution_mod_2_64 and both CRT back ends: sizes around 60 up to 300x400, values up to 2^64-1");
    for (auto [n, m] : sizes(60)) for (int p = 0; p < 5; ++p) for (int q = 0; q < 5; ++q) { MC_CASE(n, m, p, q); auto a = pat(n, p, ~0ull), b = pat(m, q, ~0ull); auto w = conv(a, b); MC_CHECK(convolution_mod_2_64(a, b) == w, "mod 2^64"); if (n && m && (p == q || (p + q) % 3 == 0)) { MC_CHECK(internal::convolution_2_64::convolution_5mod(a, b) == w, "5 moduli"); MC_CHECK(internal::convolution_2_64::convolution_6mod(a, b) == w, "6 moduli"); } mc::step(); } }
template <class M> void large(int id, std::vector<int> ns) { for (int n : ns) for (int m : ns) for (int p = 0; p < 5; ++p) { MC_CASE(id, n, m, p); auto x = pat(n, p, M::mod() - 1), y = pat(m, 2, M::mod() - 1); std::vector<M> a(x.begin(), x.end()), b(y.begin(), y.end()); MC_CHECK(convolution_large<M>(a, b) == conv(a, b), "convolution_large"); mc::step(); } }
MC_GROUP(large_ntt) { mc::bound("convolution_large beyond the NTT length of the modulus: moduli 193 (64), 97 (32), 257 (256), 12289 (4096), 7 (2), 998244353; sizes around 60/61, half and full NTT length, up to 700");
    large<atcoder::static_modint<193>>(193, {0, 1, 2, 31, 32, 33, 60, 61, 63, 64, 65, 96, 129, 200}); large<atcoder::static_modint<97>>(97, {0, 1, 16, 17, 32, 33, 60, 61, 62, 80, 130}); large<atcoder::static_modint<257>>(257, {0, 1, 61, 127, 128, 129, 255, 256, 257, 300, 385}); large<atcoder::static_modint<7>>(7, {1, 60, 61, 70, 75}); large<atcoder::static_modint<12289>>(12289, {0, 1, 100, 700}); large<m998>(998, {0, 1, 59, 60, 61, 100}); }

static std::vector<std::vector<int>> dimlists(int lim, int maxd) { std::vector<std::vector<int>> all; std::vector<int> cur; std::function<void(int)> rec = [&](int p) { all.push_back(cur); if ((int)cur.size() < maxd) for (int d = 1; d * p <= lim; ++d) { if (d == 1 && std::count(cur.begin(), cur.end(), 1)) continue; cur.push_back(d); rec(p * d); cur.pop_back(); } }; rec(1); return all; }
template <class T> std::vector<T> mvref(const std::vector<int>& dims, const std::vector<T>& f, const std::vector<T>& g, bool circ) { int n = f.size(); std::vector<T> h(n, T(0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int k = 0, b = 1, x = i, y = j; bool ok = true; for (int d : dims) { int s = x % d + y % d; if (s >= d) { if (circ) s -= d; else { ok = false; break; } } k += b * s; b *= d; x /= d; y /= d; } if (ok) h[k] += f[i] * g[j]; } return h; }
template <class T> std::vector<T> dn(int n, int s) { std::vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = T((i * 7919LL + s * 131) * (i + 17) % 1000003 + 1); return v; }
MC_GROUP(multivariate) { mc::bound("truncated multivariate convolution: every dimension list with product <= 12 (thorough 20) and <= 4 dimensions, every pair of basis vectors; dense up to product 36");
    auto all = dimlists(36, 4); for (size_t t = 0; t < all.size(); ++t) { auto& d = all[t]; int n = 1; for (int x : d) n *= x; multi_variate_convolution mv(d); MC_CASE(t, -1); MC_EQ(mv.size(), n, "size"); MC_EQ(mv.dim_num(), (int)d.size(), "dims");
        auto run = [&](const std::vector<m998>& f, const std::vector<m998>& g) { MC_CHECK(mv(f, g) == mvref(d, f, g, false), "multivariate " + mc::show(d)); mc::step(); };
        run(dn<m998>(n, 1), dn<m998>(n, 2)); if (n <= mc::T(12, 20)) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { MC_CASE(t, i, j); std::vector<m998> f(n), g(n); f[i] = 2; g[j] = 3; run(f, g); } }
    multi_variate_convolution e; auto r = e(std::vector<m998>{3}, std::vector<m998>{5}); MC_CHECK(r.size() == 1 && r[0] == 15, "no dimensions"); }
template <class M> void circ(int id, const std::vector<std::vector<int>>& ds) { for (size_t t = 0; t < ds.size(); ++t) { auto& d = ds[t]; int n = 1; for (int x : d) n *= x; MC_CASE(id, t); multi_variate_convolution_circular<M> mv(d); for (int s = 0; s < 3; ++s) { std::vector<M> f = dn<M>(n, s), g = dn<M>(n, s + 5); if (s == 1) for (int i = 0; i < n; ++i) f[i] = M(-1), g[i] = M(-1); if (s == 2) { for (auto& x : f) x = 0; f[n - 1] = M(-1); } MC_CHECK(mv(f, g) == mvref(d, f, g, true), "circular " + mc::show(d)); mc::step(); } } }
MC_GROUP(circular) { mc::bound("circular multivariate convolution: small dimension lists (direct path), lists above 60 entries (transform path) incl. 2, 3, prime, >100 long dimensions; moduli 998244353, 1e9+7, 2^31-1, 2, composite 1000000001 and 10^9");
    auto small = dimlists(12, 3); std::vector<std::vector<int>> big{{61}, {64}, {101}, {128}, {7, 9}, {2, 31}, {3, 21}, {2, 3, 11}, {4, 4, 4}, {5, 13}, {101, 2}, {2, 101}, {3, 3, 7}, {1, 67}, {8, 8}, {2, 2, 2, 2, 2, 2}, {3, 3, 3, 3}, {10, 10}, {125}};
    for (auto* L : {&small, &big}) { circ<m998>(1, *L); circ<atcoder::modint1000000007>(2, *L); circ<atcoder::static_modint<2147483647>>(3, *L); circ<atcoder::static_modint<2>>(4, *L); circ<atcoder::static_modint<1000000001>>(5, *L); circ<atcoder::static_modint<1000000000>>(6, *L); } }
MC_GROUP(circular_two_objects) { mc::bound("two circular convolvers with different dimensions and an unrelated dynamic modulus used alternately");
    using M = atcoder::modint1000000007; std::vector<std::vector<int>> ds{{61}, {8, 8}, {2, 3, 11}}; std::vector<multi_variate_convolution_circular<M>> o; for (auto& d : ds) o.emplace_back(d);
    mc::explore([&](mc::Chooser& c) { for (int st = 0; st < 3; ++st) { int k = c.choose(3); int n = 1; for (int x : ds[k]) n *= x; auto f = dn<M>(n, st), g = dn<M>(n, k); MC_CHECK(o[k](f, g) == mvref(ds[k], f, g, true), "alternating"); mc::step(); } }); }
MC_GROUP(mult_mod_2n) { mc::bound("multiplicative convolution mod 2^n, n=0..9 (thorough 11): dense and every basis pair for n<=6, every (basis, dense) pair for n=7..9");
    for (int n = 0; n <= mc::T(9, 11); ++n) { int N = 1 << n; auto run = [&](const std::vector<m998>& a, const std::vector<m998>& b) { std::vector<m998> w(N); for (int i = 0; i < N; ++i) { if (a[i] == 0) continue; for (int j = 0; j < N; ++j) w[(ll)i * j & (N - 1)] += a[i] * b[j]; } MC_CHECK(multiplicative_convolution_mod_2_n<m998>(a, b) == w, "n=" + std::to_string(n)); mc::step(); };
        for (int s = 0; s < 3; ++s) { MC_CASE(n, -1, s); run(dn<m998>(N, s), dn<m998>(N, s + 3)); }
        for (int i = 0; i < N; ++i) { std::vector<m998> e(N); e[i] = 7; if (n <= 5) for (int j = 0; j < N; ++j) { MC_CASE(n, i, j); std::vector<m998> f(N); f[j] = 11; run(e, f); } else { MC_CASE(n, i); run(e, dn<m998>(N, 1)); if (n <= 8) run(dn<m998>(N, 2), e); } } } }
MC_MAIN
