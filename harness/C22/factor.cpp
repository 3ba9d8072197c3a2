// Primality, factorization, roots, totients and factorial-base numbers
#include "mc.hpp"
#include <set>
#include "library/number/deterministic_miller_rabin.hpp"
#include "library/number/deterministic_miller_rabin_simd.hpp"
#include "library/number/fast_factorize.hpp"
#include "library/number/util.hpp"
#include "library/number/kth_root_round.hpp"
#include "library/number/factorial_number.hpp"
#include "library/number/factorized_form.hpp"
using namespace suisen; using namespace std; typedef long long ll; typedef unsigned long long u64; typedef unsigned __int128 u128; typedef __int128 i128;
static const int LIM = 1 << 22;
static vector<int> spf = [] { vector<int> s(LIM + 1); for (int i = 2; i <= LIM; ++i) if (!s[i]) for (int j = i; j <= LIM; j += i) if (!s[j]) s[j] = i; return s; }();
static bool refprime(u64 n) {
    if (n <= (u64)LIM) return n >= 2 && spf[n] == (int)n;
    for (u64 p : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) if (n % p == 0) return false;
    u64 d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, ++s;
    for (u64 a : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { u64 y = 1, b = a; for (u64 e = d; e; e >>= 1) { if (e & 1) y = (u128)y * b % n; b = (u128)b * b % n; } if (y == 1 || y == n - 1) continue; bool ok = false; for (int r = 1; r < s && !ok; ++r) { y = (u128)y * y % n; ok = y == n - 1; } if (!ok) return false; } return true;
}
static u64 nextp(u64 n) { do ++n; while (!refprime(n)); return n; } static u64 prevp(u64 n) { do --n; while (!refprime(n)); return n; }
template <class T> static void prime_case(T n) { mc::step(); MC_EQ(miller_rabin::is_prime(n), refprime((u64)n), "is_prime(" << (u64)n << ") with a " << 8 * sizeof(T) << "-bit " << (is_signed_v<T> ? "signed" : "unsigned") << " type"); }
static const vector<u64>& specials() { static vector<u64> v = [] { vector<u64> v; for (u64 t : { 341531ULL, 1050535501ULL, 350269456337ULL, 55245642489451ULL, 7999252175582851ULL, 585226005592931977ULL, 1ULL << 31, 1ULL << 32, 1ULL << 52, 1ULL << 53, 1ULL << 61, 1ULL << 62, 1ULL << 63, ~0ULL }) v.push_back(t); for (int k = 20; k < 64; ++k) v.push_back(1ULL << k); return v; }(); return v; }
MC_GROUP(is_prime_small) { mc::bound("deterministic Miller-Rabin for every n <= 2^20 (thorough 2^22) and all integer widths; SIMD variant for the same n"); static_assert(miller_rabin::is_prime(1000000007) && !miller_rabin::is_prime(1000000007LL * 998244353)); bool simd = __builtin_cpu_supports("avx2"); for (int n = 0; n <= mc::T(1 << 20, LIM); ++n) { if (n % 4096 == 0) MC_CASE(n); MC_EQ(miller_rabin::is_prime(n), refprime(n), "is_prime(" << n << ")"); if (simd) MC_EQ(miller_rabin_simd::is_prime(n), refprime(n), "simd is_prime(" << n << ")"); if (n < 256) prime_case<unsigned char>(n); if (n < 128) prime_case<signed char>(n); if (n < 32768) prime_case<short>(n); if (n < 65536) prime_case<unsigned short>(n); if (n % 16 == 1) prime_case<u64>(n), prime_case<unsigned>(n); mc::step(); } }
MC_GROUP(is_prime_large) {
    mc::bound("every n within 60 (thorough 600) of each base-selection threshold and each power of two up to 2^64; all products of two primes next to those points; strong pseudoprimes and Carmichael numbers");
    ll W = mc::T(60, 600); bool simd = __builtin_cpu_supports("avx2");
    auto one = [&](u64 n) { prime_case<u64>(n); if (n >> 63 == 0) prime_case<ll>(n); if (n >> 32 == 0) prime_case<unsigned>(n); if (n >> 31 == 0) { prime_case<int>(n); if (simd) MC_EQ(miller_rabin_simd::is_prime(n), refprime(n), "simd is_prime(" << n << ")"); } };
    for (u64 t : specials()) { MC_CASE((ll)t); for (ll d = -W; d <= W; ++d) { i128 n = (i128)t + d; if (n >= 0 && n < ((i128)1 << 64)) one((u64)n); } }
    vector<u64> ps; for (u64 b : { 100ULL, 1000ULL, 1ULL << 12, 1ULL << 16, 1ULL << 20, 1ULL << 24, 1ULL << 28, 1ULL << 31, (1ULL << 32) - 100 }) { u64 p = b; for (int i = 0; i < mc::T(4, 20); ++i) ps.push_back(p = nextp(p)); } for (u64 p : ps) for (u64 q : ps) { MC_CASE((ll)p, (ll)q); if ((u128)p * q <= ~0ULL) one(p * q); }
    for (u64 n : { 2047ULL, 1373653ULL, 25326001ULL, 3215031751ULL, 2152302898747ULL, 3474749660383ULL, 341550071728321ULL, 3825123056546413051ULL, 561ULL, 1729ULL, 41041ULL, 825265ULL, 321197185ULL, 5394826801ULL, 232250619601ULL, 9746347772161ULL, 1436697831295441ULL, 60977817398996785ULL, 7156857700403137441ULL, 18446744073709551557ULL, 18446744073709551533ULL, 18446744030759878681ULL, 4759123141ULL, 1122004669633ULL, 318665857834031151ULL }) { MC_CASE((ll)n); one(n); }
    // (6k+1)(12k+1)(18k+1) and p(2p-1) families
    for (u64 k = 1; k <= (u64)mc::T(20000, 200000); ++k) { u64 a = 6 * k + 1, b = 12 * k + 1, c = 18 * k + 1; if (refprime(a) && refprime(b)) { MC_CASE((ll)k); one(a * b); if (refprime(c)) one(a * b * c); } }
}
template <class T> static void fac_case(T n, vector<pair<T, int>> f, bool ascending, const char* what) { mc::step(); if (ascending) MC_CHECK(is_sorted(f.begin(), f.end()), what << ": primes not ascending for " << (u64)n); sort(f.begin(), f.end()); u128 prod = 1; T last = 1; for (auto [p, c] : f) { MC_CHECK(p > last || (last == 1 && p > 1), what << ": repeated or trivial prime for " << (u64)n); MC_CHECK(refprime((u64)p), what << ": composite factor " << (u64)p << " of " << (u64)n); MC_CHECK(c >= 1, what << ": exponent"); for (int i = 0; i < c; ++i) { prod *= (u64)p; MC_CHECK(prod <= (u128)n, what << ": product too large for " << (u64)n); } last = p; } MC_CHECK(prod == (u128)n, what << ": product differs from " << (u64)n); }
MC_GROUP(fast_factorize_range) { mc::bound("fast_factorize::factorize for every n in 1..40000 and [999000, 1100000] (thorough: every n up to 2^22), int / unsigned / long long / unsigned long long"); auto one = [&](int n) { fac_case<int>(n, fast_factorize::factorize(n), false, "fast_factorize"); if (n % 8 == 1) { fac_case<ll>(n, fast_factorize::factorize((ll)n), false, "fast_factorize"); fac_case<unsigned>(n, fast_factorize::factorize((unsigned)n), false, "fast_factorize"); fac_case<u64>(n, fast_factorize::factorize((u64)n), false, "fast_factorize"); } }; for (int n = 1; n <= (mc::thorough() ? LIM : 40000); ++n) { if (n % 512 == 0) MC_CASE(n); one(n); } if (!mc::thorough()) for (int n = 999000; n <= 1100000; ++n) { if (n % 512 == 0) MC_CASE(n); one(n); } }
MC_GROUP(fast_factorize_large) {
    mc::bound("every n within 12 of each special point below 2^64; all p^a q^b r^c <= 2^62 over 14 representative primes with exponents <= 4; three random-device seeds");
    auto one = [&](u64 n) { MC_LOG(n); fac_case<u64>(n, fast_factorize::factorize(n), false, "fast_factorize"); if (n >> 63 == 0) fac_case<ll>(n, fast_factorize::factorize((ll)n), false, "fast_factorize"); if (n >> 31 == 0) fac_case<int>(n, fast_factorize::factorize((int)n), false, "fast_factorize"); if (n >> 32 == 0) fac_case<unsigned>(n, fast_factorize::factorize((unsigned)n), false, "fast_factorize"); };
    for (u64 t : specials()) { ll W = t >> 56 ? mc::T(1, 12) : mc::T(3, 12); for (ll d = -W; d <= W; ++d) { i128 n = (i128)t + d; if (n >= 1 && n < ((i128)1 << 64)) { MC_CASE((ll)t, d); one((u64)n); } } }
    vector<u64> ps = { 2, 3, 97, 101, 103, 997, 1009, 1021, 1031, 65537, 1000003, 16777259, 1000000007, 2147483659ULL }; for (u64 p : ps) for (u64 q : ps) for (u64 r : ps) if (p < q && q < r) for (int a = 0; a <= 4; ++a) for (int b = 0; b <= 4; ++b) for (int c = 0; c <= mc::T(2, 4); ++c) { u128 n = 1; bool ok = true; for (int i = 0; i < a && ok; ++i) n *= p, ok = n >> 64 == 0; for (int i = 0; i < b && ok; ++i) n *= q, ok = n >> 64 == 0; for (int i = 0; i < c && ok; ++i) n *= r, ok = n >> 64 == 0; if (!ok || (mc::T(1, 0) && n >> 62)) continue; MC_CASE((ll)p, (ll)q, (ll)r, a, b, c); one((u64)n); }
}
// ---- trial division and number-theoretic functions
MC_GROUP(util_functions) {
    mc::bound("factorize / divisors / totient / carmichael of every n in 1..6000 (brute-force oracle), of windows below 2^31, 2^32 and of smooth and square n up to 2^62; powi for all small bases");
    for (int n = 1; n <= mc::T(6000, 20000); ++n) { MC_CASE(n); auto f = factorize(n); fac_case<int>(n, f, true, "factorize"); fac_case<ll>(n, factorize((ll)n), true, "factorize"); auto d = divisors(n); sort(d.begin(), d.end()); vector<int> wd; for (int i = 1; i <= n; ++i) if (n % i == 0) wd.push_back(i); MC_EQ(d, wd, "divisors(" << n << ")"); MC_EQ(divisors(f).size(), wd.size(), "divisors"); int ph = 0; for (int i = 1; i <= n; ++i) ph += gcd(i, n) == 1; MC_EQ(totient(n), ph, "totient(" << n << ")"); MC_EQ((int)totient((ll)n), ph, "totient"); if (n <= 600) { int lam = 1; for (int a = 1; a <= n; ++a) if (gcd(a, n) == 1) { int k = 1; ll x = a % n; while (x % n != 1 % n) x = x * a % n, ++k; lam = lcm(lam, k); } MC_EQ(carmichael(n), lam, "carmichael(" << n << ")"); MC_EQ((int)carmichael((ll)n), lam, "carmichael"); } mc::step(); }
    auto big = [&](auto n, const char* w) { typedef decltype(n) T; MC_LOG((u64)n); auto f = factorize(n); fac_case<T>(n, f, true, w); T t = n; for (auto [p, c] : f) t = t / p * (p - 1); MC_EQ(totient(n), t, "totient(" << (u64)n << ")"); u64 nd = 1; for (auto [p, c] : f) nd *= c + 1; if (nd < 5000) { auto d = divisors(n); sort(d.begin(), d.end()); MC_EQ(d.size(), nd, "number of divisors of " << (u64)n); MC_CHECK(unique(d.begin(), d.end()) == d.end(), "repeated divisor"); for (T x : d) MC_CHECK(x > 0 && n % x == 0, "divisors(" << (u64)n << ") contains " << (u64)x); } };
    for (int i = 0; i < mc::T(40, 400); ++i) { MC_CASE(1, i); big((int)(2147483647 - i), "factorize<int>"); big((unsigned)(4294967295u - i), "factorize<unsigned>"); big((unsigned)(2147483647u + i), "factorize<unsigned>"); big((ll)(4294967296LL + i - 20), "factorize<long long>"); big((ll)46337 * 46337 + i - 20, "factorize<long long>"); big((int)(46337 * 46337) + i - 20, "factorize<int>"); big(46339 * 46327 - i, "factorize<int>"); }
    for (u64 p : { 17ULL, 30011ULL, 30047ULL, 60061ULL, 65537ULL, 1000003ULL }) for (int k = 1; k <= 12; ++k) { u128 n = 1; for (int i = 0; i < k; ++i) n *= p; if (n >> 40) break; for (u64 m : { 1, 2, 3, 8, 30030, 17 * 19 }) { MC_CASE(2, (ll)p, k, (int)m); big((ll)(n * m), "factorize"); big((u64)(n * m), "factorize"); } }
    for (int k = 0; k < 63; ++k) { MC_CASE(3, k); big((ll)1 << k, "factorize"); big((u64)1 << (k + 1), "factorize"); if (k < 31) big(1 << k, "factorize"); MC_EQ(carmichael((ll)1 << k), k <= 1 ? 1LL : k == 2 ? 2LL : 1LL << (k - 2), "carmichael(2^" << k << ")"); } { ll t = 1; for (int k = 1; k < 40; ++k) { t *= 3; if (t > (1LL << 61)) break; big(t, "factorize"); big((ll)(t * 2), "factorize"); } }
    for (int a = -7; a <= 7; ++a) { ll w = 1; for (int b = 0; b <= 22; ++b) { MC_CASE(4, a, b); MC_EQ(powi((ll)a, b), w, "powi(" << a << ", " << b << ")"); if (abs(w) <= 2147483647LL) MC_EQ(powi(a, b), (int)w, "powi<int>(" << a << ", " << b << ")"); w *= a; } } MC_EQ(powi(2LL, 62), 1LL << 62, "powi"); MC_EQ(powi(3LL, 39), 4052555153018976267LL, "powi"); MC_EQ(powi(-2LL, 63), LLONG_MIN, "powi"); MC_EQ(powi(2, 30), 1 << 30, "powi"); MC_EQ(powi(46340, 2), 2147395600, "powi");
}
// ---- k-th roots
template <class T> static void root_case(T x, int k) { mc::step(); auto le = [&](u64 r) { u128 p = 1; for (int i = 0; i < k; ++i) { p *= r; if (p > (u128)x) return false; } return true; }; u64 lo = 0, hi = (u64)x; if (k >= 2) hi = min<u64>(hi, 1ULL << 32); if (hi == 0) lo = 0; else { while (lo < hi) { u64 m = lo + (hi - lo) / 2 + ((hi - lo) & 1); if (le(m)) lo = m; else hi = m - 1; } } bool exact = true; { u128 p = 1; for (int i = 0; i < k && exact; ++i) { p *= lo; if (p > (u128)x) exact = false; } exact = exact && p == (u128)x; } MC_EQ((u64)floor_kth_root(x, k), lo, "floor_kth_root(" << (u64)x << ", " << k << ") " << 8 * sizeof(T) << "-bit"); MC_EQ((u64)ceil_kth_root(x, k), exact ? lo : lo + 1, "ceil_kth_root(" << (u64)x << ", " << k << ") " << 8 * sizeof(T) << "-bit"); }
MC_GROUP(kth_roots) {
    mc::bound("floor/ceil k-th roots: every x <= 3000 with k = 1..66; every r^k + {-1,0,1} below 2^64 for k >= 3 with r <= 3000, for k = 2 at windows of r up to 2^32-1; ends of every integer type");
    for (int x = 0; x <= 3000; ++x) for (int k = 1; k <= 66; ++k) { if (k == 1) MC_CASE(x); root_case<int>(x, k); root_case<u64>(x, k); if (x % 7 == 0) root_case<ll>(x, k), root_case<unsigned>(x, k); }
    auto near = [&](u128 p, int k) { for (int d = -1; d <= 1; ++d) { u128 x = p + d; if (x >> 64) continue; root_case<u64>((u64)x, k); if (x >> 63 == 0) root_case<ll>((ll)x, k); if (x >> 32 == 0) root_case<unsigned>((unsigned)x, k); if (x >> 31 == 0) root_case<int>((int)x, k); } };
    for (int k = 3; k <= 63; ++k) { MC_CASE(k); for (u64 r = 2; r <= (u64)mc::T(3000, 50000); ++r) { u128 p = 1; bool ok = true; for (int i = 0; i < k && ok; ++i) p *= r, ok = p >> 64 == 0; if (!ok) break; near(p, k); } { u64 r = 1; auto le = [&](u64 r) { u128 p = 1; for (int i = 0; i < k; ++i) { p *= r; if (p >> 64) return false; } return true; }; u64 lo = 1, hi = 1ULL << 22; while (lo < hi) { u64 m = (lo + hi + 1) / 2; if (le(m)) lo = m; else hi = m - 1; } for (u64 t = lo < 40 ? 1 : lo - 40; t <= lo; ++t) { u128 p = 1; for (int i = 0; i < k; ++i) p *= t; near(p, k); } (void)r; } }
    for (u64 b : { 1ULL << 10, 1ULL << 15, 46340ULL, 65535ULL, 1ULL << 20, 1ULL << 26, 94906265ULL, 1ULL << 31, 3037000499ULL, (1ULL << 32) - 50 }) for (ll d = -45; d <= 45; ++d) { u64 r = b + d; if (r >> 32) continue; MC_CASE(2, (ll)r); near((u128)r * r, 2); }
    for (int k = 1; k <= 70; ++k) for (int d = 0; d <= 3; ++d) { MC_CASE(9, k, d); root_case<int>(INT_MAX - d, k); root_case<unsigned>(~0u - d, k); root_case<ll>(LLONG_MAX - d, k); root_case<u64>(~0ULL - d, k); root_case<short>(SHRT_MAX - d, k); root_case<signed char>(127 - d, k); root_case<unsigned char>(255 - d, k); }
}
// ---- numbers in the factorial base
MC_GROUP(factorial_numbers) {
    mc::bound("all values of size n = 1..6 (thorough 7): value, permutation bijection, ++ -- unary minus, all ordered pairs for + - and comparisons (n <= 5), integer operands incl. negatives and products; n = 20 at the ends of long long");
    ll F = 1; for (int n = 1; n <= mc::T(6, 7); ++n) { F *= n; vector<int> p(n); iota(p.begin(), p.end(), 0); auto md = [&](i128 v) { return (u64)(((v % F) + F) % F); };
        for (ll v = 0; v < F; ++v, next_permutation(p.begin(), p.end())) { MC_CASE(n, v); factorial_number a(n, v); MC_EQ(a.size(), n, "size"); MC_EQ(a.to_ull(), (u64)v, "to_ull"); MC_EQ(a.to_permutation(), p, "to_permutation of " << v); factorial_number b(p); MC_EQ(b.to_ull(), (u64)v, "from permutation " << mc::show(p)); MC_CHECK(a == b && !(a != b), "equality"); { auto c = a; MC_EQ((++c).to_ull(), md(v + 1), "++" << v); MC_EQ((--c).to_ull(), (u64)v, "--"); MC_EQ((c--).to_ull(), (u64)v, "x--"); MC_EQ(c.to_ull(), md(v - 1), "x--"); MC_EQ((c++).to_ull(), md(v - 1), "x++"); MC_EQ(c.to_ull(), (u64)v, "x++"); } MC_EQ((-a).to_ull(), md(-v), "-" << v);
            for (ll w : { 0LL, 1LL, -1LL, 2LL, F - 1, -F, 3 * F + 1, -5 * F - 2, 1000000007LL, -1000000007LL, LLONG_MAX, LLONG_MIN + 1, LLONG_MIN }) { MC_EQ(factorial_number(n, w).to_ull(), md(w), "factorial_number(" << n << ", " << w << ")"); MC_EQ((a + w).to_ull(), md((i128)v + w), v << " + " << w); MC_EQ((a - w).to_ull(), md((i128)v - w), v << " - " << w); MC_EQ((w + a).to_ull(), md((i128)v + w), w << " + " << v); MC_EQ((w - a).to_ull(), md((i128)w - v), w << " - " << v); MC_EQ((a * w).to_ull(), md((i128)v * w), v << " * " << w); MC_EQ((w * a).to_ull(), md((i128)v * w), w << " * " << v); auto c = a; c += w; c -= w; MC_CHECK(c == a, "+= -="); mc::step(6); }
            if (n <= 5) for (ll w = 0; w < F; ++w) { factorial_number b2(n, w); MC_EQ((a + b2).to_ull(), md(v + w), v << " + " << w); MC_EQ((a - b2).to_ull(), md(v - w), v << " - " << w); MC_EQ(a < b2, v < w, v << " < " << w); MC_EQ(a <= b2, v <= w, "<="); MC_EQ(a > b2, v > w, ">"); MC_EQ(a >= b2, v >= w, ">="); MC_EQ(a == b2, v == w, "=="); mc::step(3); }
            { auto c = a; c.resize(n + 1); MC_EQ(c.size(), n + 1, "resize"); MC_EQ(c.to_ull(), (u64)v, "resize keeps the value"); } } }
    factorial_number d; MC_EQ(d.size(), 1, "default"); MC_EQ(d.to_ull(), 0ULL, "default"); for (ll v : { 0LL, 1LL, 2432902008176639999LL, 1234567890123456789LL }) { factorial_number x(20, v); MC_EQ(x.to_ull(), (u64)v, "n=20"); MC_EQ(factorial_number(x.to_permutation()).to_ull(), (u64)v, "n=20 round trip"); MC_EQ((-x).to_ull(), v ? (u64)(2432902008176640000LL - v) : 0ULL, "n=20 minus"); }
}
MC_GROUP(factorized_form) { mc::bound("PrimePower structured bindings and FactorizedForm"); MC_CASE(0); FactorizedForm<ll> f{ { 2, 3 }, { 1000000007, 1 } }; ll n = 1; for (auto& [p, c] : f) { for (int i = 0; i < c; ++i) n *= p; c += 1; } MC_EQ(n, 8000000056LL, "product"); const auto& [p, c] = f[0]; MC_EQ(p, 2LL, "prime"); MC_EQ(c, 4, "exponent"); MC_EQ(f[0].get<0>(), 2LL, "get"); mc::step(); }
MC_GROUP(semiprime_family) {
    mc::bound("every n = (k+1)(2k+1) with both factors prime - the family that passes a single strong-pseudoprime base most often - for all k <= 4*10^6 and all k in windows of 4*10^7 (thorough 1.2*10^8) starting at each base-selection threshold and at the top of 64 bits: n must be reported composite, its two factors prime");
    vector<int> sm; { vector<char> s(70000, 1); for (int i = 2; i < 70000; ++i) if (s[i]) { sm.push_back(i); for (ll j = (ll)i * i; j < 70000; j += i) s[j] = 0; } }
    auto window = [&](u64 K, u64 W) { MC_CASE((ll)K); vector<char> a(W, 1), b(W, 1); // a: k+1, b: 2k+1, k = K + index
        for (u64 p : sm) { u64 x = (p - (K + 1) % p) % p; while (K + x + 1 <= p) x += p; for (; x < W; x += p) a[x] = 0; if (p > 2) { u64 h = (p - 1) / 2; u64 y = (h + p - K % p) % p; while (2 * (K + y) + 1 <= p) y += p; for (; y < W; y += p) b[y] = 0; } }
        for (u64 i = 0; i < W; ++i) if (a[i] && b[i] && K + i >= 2) { u64 p = K + i + 1, q = 2 * (K + i) + 1; if (q >> 32) break; MC_CHECK(!miller_rabin::is_prime(p * q), "is_prime(" << p << "*" << q << ")"); if (p * q >> 63 == 0) MC_CHECK(!miller_rabin::is_prime((ll)(p * q)), "is_prime(" << p << "*" << q << ")"); if (i < W / 64) { MC_CHECK(miller_rabin::is_prime(p) && miller_rabin::is_prime((ll)q), "factor reported composite"); } mc::step(); } };
    window(0, 4000000); for (u64 t : { 350269456337ULL, 55245642489451ULL, 7999252175582851ULL, 585226005592931977ULL, 9223372036854775807ULL }) window((u64)sqrtl(t / 2.0L) - 3, mc::T(40000000, 120000000)); window(2147483640ULL - mc::T(40000000, 120000000), mc::T(40000000, 120000000));
}
#include "library/number/factorial_number.hpp"
MC_GROUP(self_factorial_number) {
    mc::bound("factorial-base numbers with the object itself on the right: x += x, x -= x for every value 0..n!-1, n <= 5, against arithmetic modulo n!");
    for (int n = 1; n <= 5; ++n) { long long f = 1; for (int i = 2; i <= n; ++i) f *= i; for (long long v = 0; v < f; ++v) { MC_CASE(n, v); suisen::factorial_number x(n, v), y = x; x += x; MC_CHECK(x == suisen::factorial_number(n, 2 * v % f), "x += x"); y -= y; MC_CHECK(y == suisen::factorial_number(n, 0), "x -= x"); mc::step(); } }
}
MC_GROUP(factorial_numbers_long) {
    mc::bound("factorial numbers of every length 8..60: ++, --, + k, - k, negation, + and - of two numbers, small multiples and comparisons against std::next_permutation/prev_permutation and lexicographic order, from starting permutations whose carries run through every digit (5 families); lengths 8..20 also against 64-bit integers");
    for (int n = 8; n <= 60; ++n) for (int fam = 0; fam < 5; ++fam) { MC_CASE(n, fam); vector<int> p(n); iota(p.begin(), p.end(), 0); if (fam == 0) reverse(p.begin() + 1, p.end()); if (fam == 1) { rotate(p.begin(), p.begin() + n / 2, p.end()); reverse(p.begin() + 2, p.end()); } if (fam == 2) for (int i = 0; i < n; ++i) p[i] = i % 2 ? n - 1 - i / 2 : i / 2; if (fam == 3) reverse(p.begin(), p.end()); 
        factorial_number a(p); MC_EQ(a.size(), n, "size"); MC_EQ(a.to_permutation(), p, "round trip n=" << n); auto q = p; auto c = a; for (int k = 1; k <= 9; ++k) { next_permutation(q.begin(), q.end()); ++c; MC_EQ(c.to_permutation(), q, "++ n=" << n << " family " << fam << " step " << k); MC_EQ((a + k).to_permutation(), q, "+ " << k << " n=" << n); MC_EQ((a + factorial_number(n, k)).to_permutation(), q, "+ number " << k << " n=" << n); MC_EQ(c == a, false, "=="); MC_EQ(a < c, p < q, "< n=" << n); MC_EQ(c <= a, q <= p, "<="); MC_CHECK(c - a == factorial_number(n, k), "difference n=" << n); }
        for (int k = 9; k > 0; --k) { MC_EQ((c).to_permutation(), q, "-- n=" << n); prev_permutation(q.begin(), q.end()); --c; } MC_CHECK(c == a, "back"); q = p; for (int k = 1; k <= 5; ++k) { prev_permutation(q.begin(), q.end()); --c; MC_EQ(c.to_permutation(), q, "-- below n=" << n << " family " << fam); MC_EQ((a - k).to_permutation(), q, "- " << k << " n=" << n); }
        MC_CHECK(a + (-a) == factorial_number(n, 0), "a + (-a) n=" << n << " family " << fam); factorial_number s(n, 0); for (int w = 0; w <= 12; ++w) { MC_CHECK(a * w == s, "a * " << w << " n=" << n << " family " << fam); s += a; } vector<int> rp(n); for (int i = 0; i < n; ++i) rp[i] = n - 1 - p[i]; factorial_number top{ rp }; MC_CHECK(a + top == factorial_number(n, -1), "complement n=" << n); 
        if (n <= 20) { i128 F = 1; for (int i = 2; i <= n; ++i) F *= i; u64 v = a.to_ull(); for (ll w : { 0LL, 5LL, 40321LL, 3628801LL, 479001599LL, 2432902008176639999LL, -1LL, -3628800LL }) { auto md = [&](i128 x) { x %= F; if (x < 0) x += F; return (u64)x; }; MC_EQ((a + w).to_ull(), md((i128)v + w), "+ wide n=" << n); MC_EQ((a - w).to_ull(), md((i128)v - w), "- wide n=" << n); MC_EQ((a * w).to_ull(), md((i128)(v % (u64)F) * (w % (ll)F)), "* wide n=" << n); MC_EQ(factorial_number(n, w).to_ull(), md(w), "from integer n=" << n); } } mc::step(20); }
}
MC_MAIN
