// mc: flags='-O1'
// Sequences and binomial coefficients against exact tables built by recurrences.
#include "mc.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/sequence/bell_number.hpp"
#include "library/sequence/bernoulli_number.hpp"
#include "library/sequence/binomial_coefficient.hpp"
#include "library/sequence/binomial_coefficient_small_prime_mod.hpp"
#include "library/sequence/binomial_coefficient_small_r_offline.hpp"
#include "library/sequence/binomial_coefficitnt_enumeration.hpp"
#include "library/sequence/eulerian_number.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/partition_number.hpp"
#include "library/sequence/powers.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/sequence/stirling_number1_small_prime_mod.hpp"
#include "library/sequence/stirling_number2.hpp"
#include "library/sequence/stirling_number2_small_prime_mod.hpp"
#include "library/sequence/sum_of_powers.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using ll = long long; using V = std::vector<mint>; using VV = std::vector<V>;
using A = FormalPowerSeries<mint>; using B = FPS<mint>; using u128 = unsigned __int128;
static void setB() { B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); }); }
static const int N = 140;
template <class M> std::vector<std::vector<M>> tab(int n, int kind) { std::vector<std::vector<M>> t(n + 1, std::vector<M>(n + 2)); t[0][0] = 1; for (int i = 1; i <= n; ++i) for (int j = 0; j <= i; ++j) { M up = t[i - 1][j], dg = j ? t[i - 1][j - 1] : M(0); switch (kind) { case 0: t[i][j] = up + dg; break; case 1: t[i][j] = dg + up * (i - 1); break; case 2: t[i][j] = dg + up * j; break; case 3: t[i][j] = (j ? dg * (i - j) : M(0)) + up * (j + 1); break; } } return t; }
static bool pre(const V& a, const V& w, int n) { if ((int)a.size() != n) return false; for (int i = 0; i < n; ++i) if (a[i] != w[i]) return false; return true; }
MC_GROUP(classical) { mc::bound("Bell, Bernoulli, Eulerian, Montmort, partition, Stirling 1/2, powers and power sums: every n in 0..140 (both sides of the naive/NTT switches), both FPS types, against recurrence tables"); setB();
    auto C = tab<mint>(N + 2, 0), S1 = tab<mint>(N, 1), S2 = tab<mint>(N, 2); V bell(N + 1), bern(N + 1), par(N + 1); for (int i = 0; i <= N; ++i) for (int j = 0; j <= i; ++j) bell[i] += S2[i][j];
    for (int m = 0; m <= N; ++m) { mint s = m == 0; for (int k = 0; k < m; ++k) s -= C[m + 1][k] * bern[k]; bern[m] = s / (m + 1); }
    { par[0] = 1; for (int k = 1; k <= N; ++k) for (int i = k; i <= N; ++i) par[i] += par[i - k]; }
    VV eu(N + 1); for (int n = 1; n <= N; ++n) { eu[n].resize(n); for (int k = 0; k < n; ++k) eu[n][k] = n == 1 ? mint(1) : ((k < n - 1 ? eu[n - 1][k] * (k + 1) : mint(0)) + (k ? eu[n - 1][k - 1] * (n - k) : mint(0))); }
    auto t1 = stirling_number1_table<mint>(N), t2 = stirling_number2_table<mint>(N), bt = binom_table<mint>(N), et = eulerian_number_table<mint>(N);
    for (int n = 0; n <= N; ++n) { MC_CASE(n);
        for (int j = 0; j <= n; ++j) { MC_CHECK(t1[n][j] == S1[n][j], "stirling1 table"); MC_CHECK(t2[n][j] == S2[n][j], "stirling2 table"); MC_CHECK(bt[n][j] == C[n][j], "binom table"); if (j < n) MC_CHECK(et[n][j] == eu[n][j], "eulerian table"); }
        MC_CHECK(pre(bell_number<A>(n), bell, n + 1), "bell"); MC_CHECK(pre(bell_number<B>(n), bell, n + 1), "bell"); MC_CHECK(pre(bernoulli_number<A>(n), bern, n + 1), "bernoulli"); MC_CHECK(pre(bernoulli_number<B>(n), bern, n + 1), "bernoulli");
        MC_CHECK(pre(partition_number<A>(n), par, n + 1), "partition"); MC_CHECK(pre(partition_number<B>(n), par, n + 1), "partition");
        if (n) { MC_CHECK(eulerian_number<A>(n) == eu[n], "eulerian"); MC_CHECK(eulerian_number<B>(n) == eu[n], "eulerian"); }
        { V s = stirling_number1<A>(n), r = stirling_number1_reversed<A>(n); MC_CHECK(pre(s, S1[n], n + 1), "stirling1"); std::reverse(r.begin(), r.end()); MC_CHECK(r == s, "stirling1 reversed"); MC_CHECK(stirling_number1<B>(n) == s, "stirling1 B"); MC_CHECK(pre(stirling_number2<A>(n), S2[n], n + 1), "stirling2"); MC_CHECK(pre(stirling_number2<B>(n), S2[n], n + 1), "stirling2 B"); for (int k : {0, 1, 2, 5, 20}) { V q = stirling_number1_reversed<mint>(ll(n), k); MC_EQ((int)q.size(), k + 1, "size"); for (int i = 0; i <= k; ++i) MC_CHECK(q[i] == (i <= n ? S1[n][n - i] : mint(0)), "stirling1 k terms n=" + std::to_string(n) + " k=" + std::to_string(k)); } }
        { V m = montmort_number<mint>(n); MC_EQ((int)m.size(), n + 1, "montmort size"); for (int i = 0; i <= n; ++i) { mint w = 0, f = 1; for (int k = i; k >= 0; --k) { w += (k % 2 ? -f : f); f *= k; } /* sum (-1)^k i!/k! */ MC_CHECK(m[i] == w, "montmort"); } }
        for (unsigned long long k : {0ULL, 1ULL, 2ULL, 5ULL, 998244352ULL, 1000000000000000003ULL}) { V p = powers<mint>(n, k); MC_EQ((int)p.size(), n + 1, "powers size"); for (int i = 0; i <= n; ++i) MC_CHECK(p[i] == mint(i).pow((ll)k), "i^k"); }
        for (int K : {0, 1, 2, 3, 10, 59, 60, 63, 64, 70}) { if (K > 10 && n % 7) continue; V s = sum_of_powers<A>(n, K), s2 = sum_of_powers<B>(n, K); MC_EQ((int)s.size(), K + 1, "size"); for (int p = 0; p <= K; ++p) { mint w = 0; for (int i = 1; i <= n; ++i) w += mint(i).pow(p); MC_CHECK(s[p] == w && s2[p] == w, "sum of powers n=" + std::to_string(n) + " p=" + std::to_string(p)); } }
        mc::step(20); }
    for (ll n : {200LL, 1000LL, 4096LL, 4097LL}) { MC_CASE(n, -1); int k = 12; V row(k + 1); row[0] = 1; for (ll i = 0; i < n; ++i) for (int j = k; j >= 1; --j) row[j] += row[j - 1] * i; MC_CHECK(stirling_number1_reversed<mint>(n, k) == row, "stirling1 of large n"); mc::step(); }
    for (ll n : {998244352LL, 998244353LL, 998244354LL, 1000000000000000000LL}) { MC_CASE(n, -2); V r = stirling_number1_reversed<mint>(n, 2); mint m = n; MC_CHECK(r[0] == 1 && r[1] == m * (m - 1) / 2 && r[2] == m * (m - 1) * (m - 2) * (m * 3 - 1) / 24, "stirling1 closed forms of huge n"); mc::step(); } }
template <int P> void smallp(int n) { using M = atcoder::static_modint<P>; auto C = tab<M>(n, 0), S1 = tab<M>(n, 1), S2 = tab<M>(n, 2); BinomialCoefficientSmallPrimeMod<M> bi; StirlingNumber1SmallPrimeMod<M> s1; StirlingNumber2SmallPrimeMod<M> s2; for (int i = 0; i <= n; ++i) for (int j = -1; j <= i + 2; ++j) { MC_CASE(P, i, j); bool in = j >= 0 && j <= i; std::string cx = " p=" + std::to_string(P) + " n=" + std::to_string(i) + " k=" + std::to_string(j); MC_CHECK(bi(i, j) == (in ? C[i][j] : M(0)), "binom" + cx); MC_CHECK(s1(i, j) == (in ? S1[i][j] : M(0)), "stirling1" + cx); MC_CHECK(s2(i, j) == (in ? S2[i][j] : M(0)), "stirling2" + cx); mc::step(); }
    for (ll n : {ll(1e18), ll(P) * P * P * P * 1000003LL, ll(1e18) - 1}) for (ll d : {0, 1, 2}) { MC_CASE(n, d, P); M w = d == 0 ? M(1) : d == 1 ? M(n) : M((u128(n) * u128(n - 1) / 2) % P); MC_CHECK(bi(n, d) == w && bi(n, n - d) == w, "binom of huge n"); M q = d == 0 ? M(1) : M((u128(n) * u128(n - 1) / 2) % P); if (d < 2) { MC_CHECK(s1(n, n - d) == q, "S1(n,n-1)"); MC_CHECK(s2(n, n - d) == q, "S2(n,n-1)"); } if (d == 1) { MC_CHECK(s2(n, 1) == 1, "S2(n,1)"); MC_CHECK(s2(n, 2) == M(2).pow(n - 1) - 1, "S2(n,2)"); } } }
MC_GROUP(small_prime) { mc::bound("binomials and Stirling numbers modulo p in {2,3,5,7,11,13}: every n<=3p^2-ish (<=150), every k incl. out of range; closed forms for n near 1e18"); smallp<2>(mc::T(70, 140)); smallp<3>(90); smallp<5>(mc::T(130, 260)); smallp<7>(mc::T(110, 400)); smallp<11>(mc::T(130, 300)); smallp<13>(mc::T(100, 400)); }
MC_GROUP(binom_arbitrary_mod) { mc::bound("binom_small_mod: every modulus 1..200 (thorough 1000) x every n<=70, all k; prime powers incl. 2^k, 3^k, 5^k up to 1e6; n up to 2^62 by Legendre/Lucas identities; enumeration class for every modulus 1..60, N<=90");
    int MM = mc::T(200, 1000), NN = 70; for (int m = 1; m <= MM; ++m) { MC_CASE(m); binom_small_mod b(m); std::vector<std::vector<int>> C(NN + 1, std::vector<int>(NN + 1)); for (int i = 0; i <= NN; ++i) for (int j = 0; j <= i; ++j) C[i][j] = (j == 0 || j == i ? 1 % m : (C[i - 1][j - 1] + C[i - 1][j]) % m); for (int i = 0; i <= NN; ++i) for (int k = -1; k <= i + 1; ++k) MC_EQ(b(i, k), (k < 0 || k > i ? 0 : C[i][k]), "binom mod " + std::to_string(m) + " n=" + std::to_string(i) + " k=" + std::to_string(k)); mc::step(NN); }
    for (int m : {2, 4, 8, 16, 32, 64, 1024, 3, 9, 27, 243, 5, 25, 125, 625, 49, 121, 36, 72, 360, 1000000, 1048576, 999999, 531441, 999983}) { MC_CASE(m, 0); binom_small_mod b(m); // reference: exponent vectors of n!/(k!(n-k)!) over all primes <= n, n <= 400
        std::vector<int> pr; for (int p = 2; p <= 400; ++p) { bool ok = true; for (int q : pr) if (p % q == 0) ok = false; if (ok) pr.push_back(p); }
        for (int n : {71, 97, 128, 243, 255, 256, 343, 400}) for (int k = 0; k <= n; ++k) { ll w = 1 % m; for (int p : pr) { int e = 0; for (int x = n; x; x /= p) e += x / p; for (int x = k; x; x /= p) e -= x / p; for (int x = n - k; x; x /= p) e -= x / p; for (int i = 0; i < e; ++i) w = w * p % m; } MC_EQ((ll)b(n, k), w, "binom prime power"); } 
        for (ll n : {(1LL << 40), (1LL << 62) - 1, 1LL << 62, 1000000000000000000LL, 999999999999999999LL}) for (ll k : {0LL, 1LL, 2LL, 3LL}) { u128 w = 1; u128 x = n; if (k == 1) w = x; if (k == 2) w = x * (x - 1) / 2; if (k == 3) { u128 a = x, c = x - 1, d = x - 2; for (u128* y : {&a, &c, &d}) if (*y % 3 == 0) { *y /= 3; break; } for (u128* y : {&a, &c, &d}) if (*y % 2 == 0) { *y /= 2; break; } w = (a % m) * (c % m) % m * (d % m); } MC_EQ((ll)b(n, k), (ll)(w % m), "huge n"); MC_EQ((ll)b(n, n - k), (ll)(w % m), "huge n symmetric"); } mc::step(); }
    using D = atcoder::dynamic_modint<77>; for (int m = 1; m <= 60; ++m) { D::set_mod(m); for (int n = 0; n <= mc::T(40, 90); ++n) { MC_CASE(m, n, 1); ArbitraryModBinomialCoefficients<D> b(n); std::vector<int> row{1 % m}; for (int i = 1; i <= n; ++i) { std::vector<int> r(i + 1, 1 % m); for (int j = 1; j < i; ++j) r[j] = (row[j - 1] + row[j]) % m; row = r; } MC_EQ((int)b.get_coeffs().size(), n + 1, "size"); for (int k = 0; k <= n; ++k) MC_EQ((int)b[k].val(), row[k], "enumeration mod " + std::to_string(m) + " n=" + std::to_string(n) + " k=" + std::to_string(k)); mc::step(); } } }
MC_GROUP(binom_small_r) { mc::bound("binomial_coefficient_small_r_offline: all query lists of length <=3 over n in {0,1,2,5,1e18} x r in 0..4; every (n,r) with n<=40, r<=40 in one batch and in batches of one; r up to 300 with n near 1e18");
    auto ref = [](ll n, int r) { mint a = 1; for (int i = 0; i < r; ++i) a *= mint(n) - i, a /= i + 1; return a; };
    mc::explore([&](mc::Chooser& c) { int q = c.range(0, 3); std::vector<std::pair<ll, int>> l; for (int i = 0; i < q; ++i) { ll n = c.pick(std::vector<ll>{0, 1, 2, 5, 1000000000000000000LL}); l.emplace_back(n, c.choose(5)); } auto r = binomial_coefficient_small_r_offline<mint>(l); MC_EQ((int)r.size(), q, "size"); for (int i = 0; i < q; ++i) MC_CHECK(r[i] == ref(l[i].first, l[i].second), "binom small r"); mc::step(); });
    std::vector<std::pair<ll, int>> all; for (int n = 0; n <= 40; ++n) for (int r = 0; r <= 40; ++r) { MC_CASE(n, r); all.emplace_back(n, r); auto x = binomial_coefficient_small_r_offline<mint>({{n, r}}); MC_CHECK(x[0] == ref(n, r), "single"); mc::step(); }
    auto x = binomial_coefficient_small_r_offline<mint>(all); for (size_t i = 0; i < all.size(); ++i) MC_CHECK(x[i] == ref(all[i].first, all[i].second), "batch"); std::vector<std::pair<ll, int>> big; for (int r = 0; r <= 300; r += 7) big.emplace_back(1000000000000000000LL - r * 12345, r); x = binomial_coefficient_small_r_offline<mint>(big); for (size_t i = 0; i < big.size(); ++i) MC_CHECK(x[i] == ref(big[i].first, big[i].second), "huge n"); }
MC_MAIN
