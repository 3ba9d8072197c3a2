// Orders, primitive roots, discrete logarithms, tetration
#include "mc.hpp"
#include "library/number/order_Z_mZ.hpp"
#include "library/number/primitive_root.hpp"
#include "library/number/discrete_logarithm.hpp"
#include "library/number/fast_discrete_logarithm.hpp"
#include "library/number/tetration_mod.hpp"
#include "library/number/modint.hpp"
using namespace suisen; using namespace std; typedef long long ll; typedef unsigned long long u64; typedef unsigned __int128 u128; typedef __int128 i128;
static u64 pw(u64 a, u64 e, u64 m) { u128 r = 1 % m, b = a % m; for (; e; e >>= 1) { if (e & 1) r = r * b % m; b = b * b % m; } return (u64)r; }
static vector<u64> pf(u64 n) { vector<u64> r; for (u64 d = 2; d * d <= n; ++d) if (n % d == 0) { r.push_back(d); while (n % d == 0) n /= d; } if (n > 1) r.push_back(n); return r; }
template <class T> static void order_small(T m) {
    OrderMod<T> o(m); MC_EQ((u64)o.mod(), (u64)m, "mod"); int phi = 0, lam = 1; vector<int> ord(m); for (int a = 0; a < (int)m; ++a) if (gcd(a, (int)m) == 1) { ++phi; int k = 1; u64 x = a % m; while (x % m != 1 % m) x = x * a % m, ++k; ord[a] = k; lam = lcm(lam, k); }
    MC_EQ((int)o.totient(), phi, "totient(" << m << ")"); MC_EQ((int)o.carmichael(), lam, "carmichael(" << m << ")"); bool pr = pf(m).size() == 1 && pf(m)[0] == (u64)m; MC_EQ(o.is_prime(), pr, "is_prime(" << m << ")"); auto cp = o.carmichael_prime_factors(); vector<u64> c2(cp.begin(), cp.end()); sort(c2.begin(), c2.end()); MC_EQ(c2, pf(lam), "carmichael_prime_factors(" << m << ")");
    bool cyc = false; for (int a = 0; a < (int)m; ++a) { bool root = ord[a] == phi && gcd(a, (int)m) == 1; cyc = cyc || root; if (gcd(a, (int)m) == 1) { MC_EQ((int)o(a), ord[a], "order of " << a << " mod " << m); MC_EQ((int)o(a + m), ord[a], "order of unreduced " << a << " mod " << m); } MC_EQ(o.is_primitive_root(a), root, "is_primitive_root(" << a << ") mod " << m); mc::step(2); }
    if (cyc) { T g = o.primitive_root(); MC_CHECK(gcd((int)(g % m), (int)m) == 1 && ord[g % m] == phi, "primitive_root of " << m << " = " << g); T h = primitive_root(m); MC_CHECK(gcd((int)(h % m), (int)m) == 1 && ord[h % m] == phi, "primitive_root(" << m << ") = " << h); }
}
MC_GROUP(order_small) { mc::bound("OrderMod for every m in 2..400 (thorough 1500), every a in [0,m): order, primitive roots, totient, Carmichael; four random seeds; int, unsigned, long long"); for (int s = 0; s < 4; ++s) for (int m = 2; m <= mc::T(s ? 120 : 400, 1500); ++m) { MC_CASE(s, m); mc::rng_seed() = s + 1; order_small<int>(m); if (m < 100) order_small<unsigned>(m), order_small<ll>(m); } }
template <class T> static void order_big(T m, vector<u64> as) { MC_LOG((u64)m); OrderMod<T> o(m); u64 phi = m; for (u64 p : pf(m)) phi = phi / p * (p - 1); MC_EQ((u64)o.totient(), phi, "totient(" << (u64)m << ")"); auto q = pf(phi); auto is_ord = [&](u64 a, u64 k) { if (pw(a, k, m) != 1) return false; for (u64 p : pf(k)) if (pw(a, k / p, m) == 1) return false; return true; }; for (u64 a : as) { a %= (u64)m; if (gcd(a, (u64)m) != 1) continue; u64 k = o(a); MC_CHECK(is_ord(a, k), "order of " << a << " mod " << (u64)m << " = " << k); MC_EQ(o.is_primitive_root(a), k == phi, "is_primitive_root(" << a << ") mod " << (u64)m); mc::step(); } if ((u64)o.carmichael() == phi) { u64 g = o.primitive_root(); MC_CHECK(g < (u64)m && gcd(g, (u64)m) == 1 && is_ord(g, phi), "primitive_root " << (u64)m << " = " << g); } }
MC_GROUP(order_large) { mc::bound("moduli around 2^16, 2^31, 2^32, 2^40 and primes up to 2^61: order and primitive roots of 16 residues each"); vector<u64> as = { 1, 2, 3, 5, 6, 7, 10, 11, 12345, 65537, 1000003, 2147483646, 2147483648ULL, 4294967295ULL, 4294967296ULL, 123456789012345ULL }; for (ll b : { 1LL << 16, 1LL << 20, 998244353LL, 1000000007LL, 1LL << 31, 1LL << 32, 3000000019LL, 1LL << 33, 1LL << 40 }) for (int d = -mc::T(3, 12); d <= mc::T(3, 12); ++d) { MC_CASE(b, d); ll m = b + d; order_big<ll>(m, as); if (m <= INT_MAX) order_big<int>((int)m, as); if (m <= 4294967295LL) order_big<unsigned>((unsigned)m, as); order_big<u64>((u64)m, as); } for (ll m : { 1000000000039LL, 4611686018427LL * 2 + 1, 43LL * 43 * 43 * 43 * 43 * 43, 2LL * 43 * 43 * 43 * 43 * 43 * 43, 1LL << 50, 206158430209LL, 999999999989LL * 1LL }) { MC_CASE(m); order_big<ll>(m, as); } }
// ---- discrete logarithms
static vector<int> first_power(int x, int m) { vector<int> f(m, -1); ll v = 1 % m; for (int k = 0; f[v] < 0; ++k, v = v * x % m) f[v] = k; return f; }
MC_GROUP(discrete_logarithm_all) { mc::bound("baby-step giant-step discrete_logarithm: every modulus 1..150 (thorough 400), every base and value: the least exponent or -1; modulus restored"); typedef suisen::dynamic_modint<5> mint; for (int m = 1; m <= mc::T(150, 400); ++m) { mint::set_mod(m); for (int x = 0; x < m; ++x) { MC_CASE(m, x); auto f = first_power(x, m); for (int y = 0; y < m; ++y) { MC_EQ(discrete_logarithm(mint(x), mint(y)), f[y], "discrete_logarithm(" << x << "," << y << ") mod " << m); MC_EQ(mint::mod(), m, "modulus after the call"); if (gcd(x, m) == 1 && gcd(y, m) == 1) MC_EQ(discrete_logarithm_coprime(mint(x), mint(y)), f[y], "discrete_logarithm_coprime(" << x << "," << y << ") mod " << m); mc::step(); } } } }
MC_GROUP(fast_discrete_logarithm_all) { mc::bound("index-calculus / Pohlig-Hellman discrete_logarithm: every modulus 1..130 (thorough 300), every base and value (also negative and unreduced)"); for (int m = 1; m <= mc::T(130, 300); ++m) for (int x = 0; x < m; ++x) { MC_CASE(m, x); auto f = first_power(x, m); for (int y = 0; y < m; ++y) { MC_EQ(fast_discrete_logarithm::discrete_logarithm(x, y, m), f[y], "fast discrete_logarithm(" << x << "," << y << ") mod " << m); if (y % 5 == 0) { MC_EQ(fast_discrete_logarithm::discrete_logarithm(x - m, y + m, m), f[y], "unreduced arguments"); } mc::step(); } } }
MC_GROUP(fast_discrete_logarithm_medium) { mc::bound("moduli up to 2^14 in structural families (primes > 64, prime powers, 2^k, products, 64 < order): every base < 12 plus extremes, every value"); vector<int> ms = { 67, 71, 73, 127, 131, 169, 243, 256, 257, 343, 512, 729, 961, 1009, 1024, 1331, 2048, 2187, 2401 }; if (mc::thorough()) for (int m : { 3125, 4096, 4489, 6561, 7919, 8192, 10201, 15625, 16384, 2 * 3 * 5 * 7 * 11, 67 * 71, 67 * 64, 125 * 81, 30030 }) ms.push_back(m); else for (int m : { 67 * 8, 67 * 9, 1210, 2310 }) ms.push_back(m); for (int m : ms) for (int x : { 2, 3, 5, 6, 7, 10, 11, m - 1, m - 2, m / 2, m / 2 + 1 }) { MC_CASE(m, x); auto f = first_power(x % m, m); for (int y = 0; y < m; y += mc::T(m > 300 ? 3 : 1, 1)) { MC_EQ(fast_discrete_logarithm::discrete_logarithm(x, y, m), f[y], "fast discrete_logarithm(" << x << "," << y << ") mod " << m); mc::step(); } } }
MC_GROUP(discrete_logarithm_large) {
    mc::bound("moduli near 10^9, 2^30 and 2^31-1 (prime, composite, powers): for 7 bases and 12 exponents, both implementations return an exponent giving the value, not above the one used"); typedef suisen::dynamic_modint<6> mint; for (ll m : { 998244353LL, 1000000007LL, 1000000000LL, 999999937LL, 1073741823LL, 1073741824LL, 1073741827LL, 1162261467LL, 2147483647LL, 2147483646LL, 2147483629LL, 1977326743LL, 2125764000LL }) for (int x : { 2, 3, 5, 7, 10, 12345, (int)(m - 1) }) { MC_CASE(m, x); vector<ll> es = { 0, 1, 5, 30, 31, 32, 33, 1000, 65536, m / 3, m - 2, m / 2 + 7 }; if (!mc::thorough()) es.resize(x == 3 || x == 10 ? 12 : 9); for (ll e : es) { int y = (int)pw(x, e, m); int k = fast_discrete_logarithm::discrete_logarithm(x, y, (int)m); MC_CHECK(0 <= k && k <= e && pw(x, k, m) == (u64)y, "fast discrete_logarithm(" << x << "," << y << ") mod " << m << " = " << k << ", exponent " << e); if (e == 1000 || e == m - 2 || mc::thorough()) { mint::set_mod((int)m); int k2 = discrete_logarithm(mint(x), mint(y)); MC_EQ(k2, k, "discrete_logarithm(" << x << "," << y << ") mod " << m); } mc::step(); } }
    // unsolvable instances: non-residues against a square base
    for (int p : { 1000000007, 998244353, 2147483647 }) for (int y = 2; y < 12; ++y) { MC_CASE(p, y); u64 g = 4; bool res = pw(y, (p - 1) / 2, p) == 1; int k = fast_discrete_logarithm::discrete_logarithm((int)g, y, p); if (!res) MC_EQ(k, -1, "non-residue " << y << " as a power of 4 mod " << p); else if (k != -1) MC_EQ(pw(g, k, p), (u64)y, "discrete logarithm value"); mc::step(); }
}
MC_GROUP(index_calculus_reuse) { mc::bound("one IndexCalculus object queried repeatedly with changing base, value and prime"); int done = 0; vector<int> ps = { 67, 101, 1009, 7919 }; mc::explore([&](mc::Chooser& c) { fast_discrete_logarithm::IndexCalculus ic; for (int i = 0; i < mc::T(3, 4); ++i) { int p = ps[c.choose(i ? 4 : 2) % 4], a = c.flag() ? 2 : 7; vector<int> e = { 5, p / 2, p - 3 }; int y = (int)pw(a, e[c.choose(3)], p); MC_LOG("a=" << a << " y=" << y << " p=" << p); auto f = first_power(a, p); MC_EQ(ic(a, y, p), f[y], "IndexCalculus(" << a << "," << y << "," << p << ")"); MC_EQ(fast_discrete_logarithm::IndexCalculus::discrete_logarithm(a, y, p), f[y], "static IndexCalculus"); mc::step(); ++done; } }); }
// ---- power towers
static ll cap_tower(ll a, int b) { const ll CAP = 1LL << 40; ll t = 1; for (int i = 0; i < b; ++i) { if (a == 1) return 1; ll r = 1; for (ll k = 0; k < t && r < CAP; ++k) { r *= a; if (a == 0) { r = t == 0 ? 1 : 0; break; } } t = min(r, CAP); if (a >= 2 && t >= CAP) return CAP; } return t; }
static ll ref_tower(ll a, int b, ll m) { if (b == 0) return 1 % m; const ll CAP = 1LL << 40; ll e = cap_tower(a, b - 1); if (e < CAP) return (ll)pw(a, e, m); vector<int> at(m, -1); vector<ll> seq; ll v = 1 % m; while (at[v] < 0) at[v] = (int)seq.size(), seq.push_back(v), v = v * (a % m) % m; ll mu = at[v], per = (ll)seq.size() - mu; ll er = ref_tower(a, b - 1, per); ll k = (er - mu % per + per) % per; return seq[mu + k]; }
MC_GROUP(tetration) { mc::bound("a in 0..16 and selected large a, b in 0..7, every modulus 1..220 (thorough 600) and large smooth moduli; oracle: exact preperiod/period of the power sequence"); for (int m = 1; m <= mc::T(220, 600); ++m) { MC_CASE(m); for (int a : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 30, 64, 210, 1000, 46341, 65536, 1000000000, INT_MAX }) for (int b : { 0, 1, 2, 3, 4, 5, 6, 7, 100, 1000000000 }) { MC_EQ((ll)tetration_mod(a, b, m), ref_tower(a, a <= 1 ? (b > 5 ? 4 + b % 2 : b) : min(b, 60), m), a << "^^" << b << " mod " << m); mc::step(); } } for (int m : { 65536, 100000, 1000000, 1 << 20, 999983, 1000003, 720720, 531441, 823543 }) { MC_CASE(m); for (int a : { 2, 3, 6, 10, 12, 210, 65536, INT_MAX }) for (int b : { 1, 2, 3, 4, 5, 20 }) { MC_EQ((ll)tetration_mod(a, b, m), ref_tower(a, b, m), a << "^^" << b << " mod " << m); mc::step(); } } }
MC_GROUP(discrete_logarithm_tails) { mc::bound("moduli 2^k, 3 2^k, 5^k, 6^k, 10^k and 2^k p below 2^31 (every k): bases 2, 4, 6, 10, 12, p +- 1 and every exponent 0..34: the least exponent by both implementations; moduli 401..1400 (prime and composite, step 37): 6 bases, every value");
    typedef suisen::dynamic_modint<7> mint; vector<ll> ms; for (ll b : { 2LL, 5LL, 6LL, 10LL, 3LL }) for (ll c : { 1LL, 3LL, 1009LL, 65537LL }) for (ll m = b * c; m < (1LL << 31); m *= b) ms.push_back(m); sort(ms.begin(), ms.end()); ms.erase(unique(ms.begin(), ms.end()), ms.end());
    for (ll m : ms) for (ll x : { 2LL, 4LL, 6LL, 10LL, 12LL, 15LL }) { MC_CASE(m, x); mint::set_mod((int)m); vector<ll> seen; ll v = 1 % m; for (int e = 0; e <= 34; ++e, v = v * x % m) { auto it = find(seen.begin(), seen.end(), v); int w = it == seen.end() ? e : int(it - seen.begin()); seen.push_back(v); if (m > 2000000 && w != e) continue; if (m > 20000000 && e > 31 && e % 3) continue; MC_EQ(discrete_logarithm(mint(x), mint(v)), w, "discrete_logarithm(" << x << "," << v << ") mod " << m); if (m < 100000) MC_EQ(fast_discrete_logarithm::discrete_logarithm((int)(x % m), (int)v, (int)m), w, "fast discrete_logarithm(" << x << "," << v << ") mod " << m); mc::step(); } }
    for (int m = 401; m <= 1400; m += 37) for (int x : { 2, 3, 5, 6, 30, m - 1 }) { MC_CASE(m, x, 2); mint::set_mod(m); auto f = first_power(x, m); for (int y = 0; y < m; ++y) MC_EQ(discrete_logarithm(mint(x), mint(y)), f[y], "discrete_logarithm(" << x << "," << y << ") mod " << m); mc::step(m); } }
MC_MAIN
