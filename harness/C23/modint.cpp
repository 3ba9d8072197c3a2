// Modular integers and reductions
#include "mc.hpp"
#include <sstream>
#include "library/number/modint.hpp"
#include "library/number/modint_2^61m1.hpp"
#include "library/number/montogomery.hpp"
#include "library/number/barrett_reduction.hpp"
#include "library/number/ext_gcd.hpp"
#include "library/number/garner.hpp"
#include "library/number/mod_sqrt.hpp"
#include "library/number/util.hpp"
using namespace suisen; using namespace std; typedef long long ll; typedef unsigned long long u64; typedef unsigned __int128 u128; typedef __int128 i128;
static ll md(i128 v, i128 m) { v %= m; return (ll)(v < 0 ? v + m : v); }
static vector<ll> residues(ll m, int full) { vector<ll> v; if (m <= full) { for (ll i = 0; i < m; ++i) v.push_back(i); return v; } for (ll x : { 0LL, 1LL, 2LL, 3LL, m / 2 - 1, m / 2, m / 2 + 1, m - 3, m - 2, m - 1, 46340LL, 46341LL, 65535LL, 65536LL, 123456789LL, 1000000006LL, (1LL << 30) - 1, 1LL << 30, (1LL << 31) - 2 }) if (0 <= x && x < m) v.push_back(x); sort(v.begin(), v.end()); v.erase(unique(v.begin(), v.end()), v.end()); return v; }
static bool isp(ll m) { if (m < 2) return false; for (ll d = 2; d * d <= m; ++d) if (m % d == 0) return false; return true; }
static const vector<ll>& ints() { static vector<ll> v = [] { vector<ll> v; for (ll b : { 0LL, 1LL << 7, 1LL << 8, 1LL << 15, 1LL << 16, 1LL << 31, 1LL << 32, 1LL << 40, 998244353LL, 1000000007LL, 998244353LL * 998244353, LLONG_MAX - 2, LLONG_MIN + 2, -(1LL << 31), -(1LL << 32), -998244353LL }) for (int d = -2; d <= 2; ++d) v.push_back(b + d); return v; }(); return v; }
template <class mint> static void modint_case(ll m) {
    MC_EQ((ll)mint::mod(), m, "mod"); MC_EQ((ll)mint::umod(), m, "umod"); MC_EQ((ll)mint().val(), 0LL, "default"); auto rs = residues(m, 24);
    for (ll x : ints()) { MC_EQ((ll)mint(x).val(), md(x, m), "mint(long long " << x << ") mod " << m); MC_EQ((ll)mint((u64)x).val(), md((i128)(u64)x, m), "mint(unsigned long long " << (u64)x << ") mod " << m); MC_EQ((ll)mint((int)x).val(), md((int)x, m), "mint(int " << (int)x << ") mod " << m); MC_EQ((ll)mint((unsigned)x).val(), md((unsigned)x, m), "mint(unsigned) mod " << m); MC_EQ((ll)mint((short)x).val(), md((short)x, m), "mint(short) mod " << m); MC_EQ((ll)mint((unsigned char)x).val(), md((unsigned char)x, m), "mint(unsigned char) mod " << m); MC_EQ((ll)mint((i128)x * 5000000000LL).val(), md((i128)x * 5000000000LL, m), "mint(int128) mod " << m); { u128 t = (u128)(i128)x; MC_EQ((ll)mint(t).val(), (ll)(t % (u128)m), "mint(uint128) mod " << m); } mc::step(8); } MC_EQ((ll)mint(true).val(), md(1, m), "mint(true)");
    for (ll a : rs) { mint x(a); MC_EQ((ll)mint::raw((int)a).val(), a, "raw"); { mint y = x; MC_EQ((ll)(++y).val(), md(a + 1, m), "++" << a); MC_EQ((ll)(--y).val(), a, "--"); MC_EQ((ll)(y--).val(), a, "x--"); MC_EQ((ll)y.val(), md(a - 1, m), "x--"); MC_EQ((ll)(y++).val(), md(a - 1, m), "x++"); MC_EQ((ll)y.val(), a, "x++"); }
        ll w = md(1, m); for (int e = 0; e <= 40; ++e) { MC_EQ((ll)x.pow(e).val(), w, a << "^" << e << " mod " << m); w = md((i128)w * a, m); } for (ll e : { (1LL << 31) - 1, 1LL << 40, LLONG_MAX }) { ll r = md(1, m), b = a; for (ll k = e; k; k >>= 1) { if (k & 1) r = md((i128)r * b, m); b = md((i128)b * b, m); } MC_EQ((ll)x.pow(e).val(), r, a << "^" << e << " mod " << m); MC_EQ((ll)x.xpow(e).val(), r, "xpow"); MC_EQ((ll)suisen::pow(x, e).val(), r, "suisen::pow"); }
        if (gcd(a, m) == 1) { mint i = x.inv(); MC_EQ((ll)(md((i128)a * i.val(), m)), md(1, m), "inverse of " << a << " mod " << m); MC_CHECK((ll)i.val() < m, "inverse not reduced"); MC_CHECK(suisen::inv(x) == i, "inv()"); MC_EQ((ll)(x.xpow(-3) * x * x * x).val(), md(1, m), "xpow(-3)"); }
        { stringstream ss; ss << x; MC_EQ(ss.str(), to_string(a), "operator<<"); stringstream st(to_string(a - 3 * m)); mint y; st >> y; MC_CHECK(y == x, "operator>>"); }
        if (isp(m)) { auto s = mod_sqrt(x); bool qr = false; if (m <= 24) { for (ll t = 0; t < m; ++t) qr = qr || t * t % m == a; } else if (m == 2 || a == 0) qr = true; else { ll r = 1, b = a; for (ll k = (m - 1) / 2; k; k >>= 1) { if (k & 1) r = md((i128)r * b, m); b = md((i128)b * b, m); } qr = r == 1; } MC_EQ(bool(s), qr, "mod_sqrt(" << a << ") mod " << m << " existence"); if (s) { MC_CHECK(*s * *s == x, "mod_sqrt(" << a << ") mod " << m); MC_CHECK(suisen::sqrt(x) * suisen::sqrt(x) == x, "sqrt"); } }
        for (ll b : rs) { mint y(b); MC_EQ((ll)(x + y).val(), md(a + b, m), a << " + " << b << " mod " << m); MC_EQ((ll)(x - y).val(), md(a - b, m), a << " - " << b << " mod " << m); MC_EQ((ll)(x * y).val(), md((i128)a * b, m), a << " * " << b << " mod " << m); if (gcd(b, m) == 1) MC_EQ(md((i128)(x / y).val() * b, m), a, a << " / " << b << " mod " << m); MC_EQ(x == y, a == b, "=="); MC_EQ(x != y, a != b, "!="); mint z = x; z += y; z *= y; z -= x; MC_EQ((ll)z.val(), md((i128)(a + b) * b - a, m), "compound"); z = x; z += z; MC_EQ((ll)z.val(), md(2 * (i128)a, m), "aliased +="); z = x; z *= z; MC_EQ((ll)z.val(), md((i128)a * a, m), "aliased *="); z -= z; MC_EQ((ll)z.val(), 0LL, "aliased -="); mc::step(6); } }
}
template <int m> static void static_one() { MC_CASE(m); using mint = static_modint<m>; static_assert(is_modint_v<mint> && is_static_modint_v<mint> && !is_dynamic_modint_v<mint>); modint_case<mint>(m); for (ll a : residues(m, 24)) { MC_EQ((ll)(-mint(a)).val(), md(-a, m), "-" << a); MC_EQ((ll)(+mint(a)).val(), a, "+"); } static_assert(mint(5).pow(3) == mint(125)); MC_EQ(internal::modint::is_prime(m), isp(m), "modint is_prime " << m); }
template <int... I> static void small_static(integer_sequence<int, I...>) { (static_one<I + 1>(), ...); }
MC_GROUP(static_modint) { mc::bound("static_modint<m> for m = 1..13 and 7 large moduli up to 2^31-1 (prime and composite): all pairs of residues (boundary residues for large m), constructors from every integer width at the type limits"); small_static(make_integer_sequence<int, 13>()); static_one<998244353>(); static_one<1000000007>(); static_one<2147483647>(); static_one<2147483646>(); static_one<1073741824>(); static_one<1000000000>(); static_one<65536>(); }
MC_GROUP(dynamic_modint) { mc::bound("dynamic_modint with every modulus 1..48 and large moduli up to 2^31-1, the modulus changed between uses; two ids independent"); static_assert(is_dynamic_modint_v<modint> && is_modint_v<modint>); typedef dynamic_modint<3> other; other::set_mod(12345); vector<int> ms; for (int m = 1; m <= mc::T(48, 200); ++m) ms.push_back(m); for (int m : { 65535, 65536, 65537, 998244353, 1000000000, 1000000007, 1073741823, 1073741824, 1073741827, 2147483646, 2147483647, 2147483629, 2 }) ms.push_back(m); for (int m : ms) { MC_CASE(m); modint::set_mod(m); modint_case<modint>(m); MC_EQ(other::mod(), 12345, "modulus of another id"); } }
MC_GROUP(is_prime_constexpr) { mc::bound("compile-time primality of static_modint for every n in -3..200000 and the top of int"); for (int n = -3; n <= 200000; ++n) { if (n % 1024 == 0) MC_CASE(n); MC_EQ(internal::modint::is_prime(n), isp(n), "is_prime(" << n << ")"); } for (int d = 0; d < 200; ++d) { MC_CASE(INT_MAX - d); MC_EQ(internal::modint::is_prime(INT_MAX - d), isp(INT_MAX - d), "is_prime(" << INT_MAX - d << ")"); } }
MC_GROUP(modint_2p61m1) {
    mc::bound("all ordered pairs of 200+ boundary values (2^k +-2, p +-2, top of uint64): + - * == pow inv"); const u64 P = (1ULL << 61) - 1; vector<u64> v; for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) v.push_back((1ULL << k) + d); for (int d = -3; d <= 3; ++d) v.push_back(P + d), v.push_back(2 * P + d), v.push_back(P / 2 + d); for (int d = 0; d < 3; ++d) v.push_back(~0ULL - d); sort(v.begin(), v.end()); v.erase(unique(v.begin(), v.end()), v.end()); MC_EQ(modint2p61m1::mod(), P, "mod"); MC_EQ(modint2p61m1().val(), 0ULL, "default");
    for (u64 a : v) { MC_CASE((ll)a); modint2p61m1 x(a); u64 ra = a % P; MC_EQ(x.val(), ra, "modint2p61m1(" << a << ")"); MC_EQ(modint2p61m1::fast_mod(a), ra, "fast_mod"); for (ll e : { 0LL, 1LL, 2LL, 3LL, 61LL, (1LL << 61) - 2, LLONG_MAX }) { u128 r = 1, b = ra; for (ll k = e; k; k >>= 1) { if (k & 1) r = r * b % P; b = b * b % P; } MC_EQ(x.pow(e).val(), (u64)r, a << "^" << e); } if (ra) MC_EQ((u64)((u128)x.inv().val() * ra % P), 1ULL, "inverse of " << a); for (u64 b : v) { modint2p61m1 y(b); u64 rb = b % P; MC_EQ((x + y).val(), (ra + rb) % P, a << " + " << b); MC_EQ((x - y).val(), (ra + P - rb) % P, a << " - " << b); MC_EQ((x * y).val(), (u64)((u128)ra * rb % P), a << " * " << b); MC_EQ(x == y, ra == rb, "=="); mc::step(4); } }
}
template <class M, class I> static void mont(I N) { M g(N); vector<I> v; if (N <= 33) for (I i = 0; i < N; ++i) v.push_back(i); else { for (int k = 0; k < numeric_limits<I>::digits; ++k) for (int d = -1; d <= 1; ++d) v.push_back((I)(((I)1 << k) + d) % N); for (int d = 0; d < 4; ++d) v.push_back(N - 1 - d), v.push_back(N / 2 + d); sort(v.begin(), v.end()); v.erase(unique(v.begin(), v.end()), v.end()); } auto back = [&](I A) { return (u64)g.reduce(A); }; for (I a : v) { I A = g.make(a); MC_CHECK(A < N, "make not reduced"); MC_EQ(back(A), (u64)a, "make/reduce " << (u64)a << " mod " << (u64)N); for (ll e : { 0LL, 1LL, 2LL, 5LL, 1LL << 40, LLONG_MAX }) { u128 r = 1 % N, b = a; for (ll k = e; k; k >>= 1) { if (k & 1) r = r * b % N; b = b * b % N; } MC_EQ(back(g.pow(A, e)), (u64)r, (u64)a << "^" << e << " mod " << (u64)N); } for (I b : v) { I B = g.make(b); MC_EQ(back(g.add(A, B)), (u64)(((u128)a + b) % N), (u64)a << " + " << (u64)b << " mod " << (u64)N); MC_EQ(back(g.sub(A, B)), (u64)(((u128)a + N - b) % N), (u64)a << " - " << (u64)b << " mod " << (u64)N); MC_EQ(back(g.mul(A, B)), (u64)((u128)a * b % N), (u64)a << " * " << (u64)b << " mod " << (u64)N); mc::step(3); } } }
MC_GROUP(montgomery) { mc::bound("Montgomery32/64 for every odd N <= 33 (all pairs) and odd N around every power of two up to the full word (boundary residues, all pairs)"); for (unsigned n = 1; n <= 33; n += 2) { MC_CASE((int)n); mont<Montgomery32, uint32_t>(n); mont<Montgomery64, uint64_t>(n); } for (int k = 6; k < 64; k += mc::T(k < 30 ? 8 : 1, 1)) for (int d : { -1, 1, 3, -5 }) { MC_CASE(k, d); if (k < 32) mont<Montgomery32, uint32_t>((1u << k) + d); if (k > 28) mont<Montgomery64, uint64_t>((1ULL << k) + d); } for (int d = 0; d < 8; d += 2) { MC_CASE(99, d); mont<Montgomery32, uint32_t>(~0u - d); mont<Montgomery64, uint64_t>(~0ULL - d); } mont<Montgomery32, uint32_t>(998244353); mont<Montgomery64, uint64_t>(998244353); }
MC_GROUP(barrett) { mc::bound("barrett quotient/remainder for every M <= 300 and M around every power of two up to 2^32-1: x at 0, 2^k +-2, multiples of M +-1 up to the top of uint64; products at the residue bounds"); vector<u64> ms; for (int m = 1; m <= 300; ++m) ms.push_back(m); for (int k = 9; k <= 32; ++k) for (int d = -3; d <= 3; ++d) { u64 m = (1ULL << k) + d; if (m < (1ULL << 32)) ms.push_back(m); } ms.push_back(998244353); ms.push_back(1000000007); ms.push_back(3000000019u); ms.push_back(4000000007u); vector<u64> xs; for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) xs.push_back((1ULL << k) + d);
    for (u64 m : ms) { MC_CASE((ll)m); suisen::barrett b((uint32_t)m); internal::modint::barrett_K128 b2((uint32_t)m); MC_EQ((u64)b.umod(), m, "umod"); vector<u64> all = xs; for (int d = -1; d <= 1; ++d) { for (u64 q : { 1ULL, 2ULL, (1ULL << 31) - 1, 1ULL << 31, (1ULL << 32) - 1 }) all.push_back(q * m + d); all.push_back(~0ULL / m * m + d); all.push_back(~0ULL / 2 / m * m + d); all.push_back((m - 1) * (m - 1) + d); } for (u64 x : all) { MC_EQ(b.quo(x), x / m, x << " / " << m); MC_EQ((u64)b.rem(x), x % m, x << " % " << m); auto [q, r] = b.quorem(x); MC_EQ(q, x / m, "quorem"); MC_EQ((u64)r, x % m, "quorem"); if (m > 1) { MC_EQ((u64)b.rem<false>(x), x % m, "rem<false>"); } MC_EQ((u64)b2.rem(x), x % m, "barrett_K128 " << x << " % " << m); mc::step(3); } for (u64 a : { (u64)0, (u64)1, m / 2, m - 1 }) for (u64 c : { (u64)0, (u64)1, m / 2, m - 1 }) if (a < m && c < m) { MC_EQ((u64)b.mul(a, c), a * c % m, "mul mod " << m); MC_EQ((u64)b2.mul(a, c), a * c % m, "mul K128 mod " << m); } } suisen::barrett def; MC_EQ(def.rem(12345), 0u, "default barrett"); MC_EQ(def.quo(12345), (uint64_t)12345, "default barrett"); }
// ---- extended gcd, Garner, square roots
MC_GROUP(ext_gcd) { mc::bound("ext_gcd / gcd_inv / inv_mod for all |a|,|b| <= 60 and all pairs of 60 large values"); auto one = [&](ll a, ll b) { auto [x, y, g] = ext_gcd(a, b); MC_EQ(g, (ll)gcd(a, b), "gcd(" << a << "," << b << ")"); MC_CHECK((i128)a * x + (i128)b * y == g, "Bezout identity for " << a << "," << b); if (b > 0) { auto [z, h] = gcd_inv(a, b); MC_EQ(h, (ll)gcd(a, b), "gcd_inv"); MC_CHECK(0 <= z && z < b && md((i128)a * z - h, b) == 0, "gcd_inv(" << a << "," << b << ") = " << z); if (h == 1) { ll i = inv_mod(a, b); MC_CHECK(0 <= i && i < b && md((i128)a * i - 1, b) == 0, "inv_mod(" << a << "," << b << ")"); } MC_EQ(safe_mod(a, b), md(a, b), "safe_mod"); } mc::step(); }; for (int a = -60; a <= 60; ++a) { MC_CASE(a); for (int b = -60; b <= 60; ++b) one(a, b); } vector<ll> v; for (ll c : { 1000000007LL, 1LL << 31, 1LL << 32, 1LL << 40, 1LL << 61, LLONG_MAX - 3, 4660046610375530309LL, 7540113804746346429LL, 2880067194370816120LL }) for (int d = -3; d <= 3; ++d) v.push_back(c + d); for (ll a : v) { MC_CASE(a); for (ll b : v) { one(a, b); one(-a, b); one(a, -b); one(-a, -b); } } }
MC_GROUP(garner) { mc::bound("garner: all ordered tuples of <= 4 pairwise coprime moduli from 1..9 (all residues, negative and unreduced residues), five target moduli; large coprime moduli near 2^31"); vector<pair<int, int>> eq; auto ref = [&](int m) { ll x = 0, L = 1; for (auto& e : eq) L *= e.second; for (x = 0; x < L; ++x) { bool ok = true; for (auto& e : eq) ok = ok && md(x - e.first, e.second) == 0; if (ok) return x % m; } return -1LL; }; function<void(int, ll)> rec = [&](int k, ll L) { for (int m : { 1, 2, 10, 1000000007, INT_MAX }) MC_EQ((ll)suisen::garner(eq, m), ref(m), "garner " << mc::show(eq) << " mod " << m); mc::step(); if (k == mc::T(3, 4)) return; for (int q = 1; q <= 9; ++q) if (gcd((ll)q, L) == 1) for (int r = (k == 0 ? -q : 0); r < (k == 0 ? 2 * q : q); ++r) { if (k == 0) MC_CASE(q, r); eq.push_back({ r, q }); rec(k + 1, L * q); eq.pop_back(); } }; MC_CASE(0); rec(0, 1);
    vector<int> P = { 2147483647, 2147483629, 2147483587, 998244353, 1000000007, 2147483646 }; for (int a : P) for (int b : P) if (gcd(a, b) == 1) for (ll x : { 0LL, 1LL, (1LL << 61) + 12345, 123456789012345678LL, (ll)a * b - 1 }) { if (x >= (ll)a * b) continue; MC_CASE(7, a, b, x); for (int m : { 1000000007, INT_MAX, 998244353, 1 }) MC_EQ((ll)suisen::garner({ { (int)(x % a), a }, { (int)(x % b), b } }, m), x % m, "garner large"); } }
MC_GROUP(mod_sqrt) {
    mc::bound("prime_mod_sqrt for every prime < 260 and all a in [-p,2p]; primes with 2-adic valuation up to 57 and primes near 2^61; composite_mod_sqrt for every modulus <= 400 (thorough 1500) and all a in [-m, 2m), prime powers up to 2^62");
    for (int p = 2; p < 260; ++p) if (isp(p)) for (int a = -p; a <= 2 * p; ++a) { MC_CASE(p, a); auto s = prime_mod_sqrt(a, p); bool qr = false; for (int t = 0; t < p; ++t) qr = qr || md((ll)t * t - a, p) == 0; MC_EQ(bool(s), qr, "prime_mod_sqrt(" << a << "," << p << ") existence"); if (s) MC_CHECK(0 <= *s && *s < p && md((i128)*s * *s - a, p) == 0, "prime_mod_sqrt(" << a << "," << p << ") = " << *s); mc::step(); }
    auto big = [&](ll p) { vector<ll> as; for (ll t : { 2LL, 3LL, 5LL, 7LL, 10LL, p - 1, p - 2, p - 3, p / 2, 123456789LL, 1LL << 40 }) as.push_back(t % p); for (ll t : { 12345LL, 987654321LL, 1LL << 30, p / 3 }) as.push_back(md((i128)(t % p) * (t % p), p)); for (ll a : as) { MC_CASE(p, a); ll r = 1, b = a; for (ll k = (p - 1) / 2; k; k >>= 1) { if (k & 1) r = md((i128)r * b, p); b = md((i128)b * b, p); } auto s = prime_mod_sqrt(a, p); MC_EQ(bool(s), a == 0 || r == 1, "prime_mod_sqrt(" << a << "," << p << ") existence"); if (s) MC_CHECK(md((i128)*s * *s - a, p) == 0, "prime_mod_sqrt(" << a << "," << p << ") = " << *s); mc::step(); } };
    for (ll p : { 998244353LL, 1000000007LL, 2013265921LL, 2147483647LL, 3221225473LL, 77309411329LL, 206158430209LL, 2061584302081LL, 2748779069441LL, 6597069766657LL, 39582418599937LL, 1945555039024054273LL, 4179340454199820289LL, (1LL << 61) - 1, 2305843009213693967LL, 4611686018427387847LL }) big(p);
    for (int m = 1; m <= mc::T(400, 1500); ++m) { MC_CASE(m); auto f = factorize(m); vector<char> sq(m); for (int t = 0; t < m; ++t) sq[(ll)t * t % m] = 1; for (int a = -m; a < 2 * m; ++a) { auto s = composite_mod_sqrt(a, f); MC_EQ(bool(s), (bool)sq[md(a, m)], "composite_mod_sqrt(" << a << ", " << m << ") existence"); if (s) MC_CHECK(0 <= *s && *s < m && md((i128)*s * *s - a, m) == 0, "composite_mod_sqrt(" << a << ", " << m << ") = " << *s); mc::step(); } }
    for (ll p : { 2LL, 3LL, 5LL, 7LL, 65537LL, 1000003LL, 998244353LL, 2147483647LL, 2147483659LL, 3037000493LL, 1000000000000000003LL }) { ll m = 1; for (int q = 1; (i128)m * p < ((i128)1 << 63); ++q) { m *= p; vector<pair<ll, int>> f{ { p, q } }; for (ll t : { 1LL, 2LL, 3LL, 5LL, p, p * p, 6 * p, 123456789LL, m - 1, m / 2 + 1, 0x123456789abcdef1LL, 0x7edcba9876543217LL, 0x5555555555555555LL, (1LL << 40) + 3, (1LL << 55) - 5 }) { ll a = md((i128)(t % m) * (t % m), m); for (ll aa : { a, a - m }) { MC_CASE(p, q, t % m, aa < 0); auto s = composite_mod_sqrt(aa, f); MC_CHECK(bool(s), "composite_mod_sqrt misses the root " << t << " mod " << p << "^" << q); MC_CHECK(0 <= *s && *s < m && md((i128)*s * *s - a, m) == 0, "composite_mod_sqrt " << aa << " mod " << p << "^" << q); mc::step(); } } } }
    vector<pair<int, int>> f{ { 2, 5 }, { 3, 2 }, { 1009, 1 }, { 65537, 2 } }; ll m = 32LL * 9 * 1009 * 65537 * 65537; for (ll t = 0; t < mc::T(300, 5000); ++t) { MC_CASE(8, t); ll x = md((i128)t * 987654321987LL, m), a = md((i128)x * x, m); auto s = composite_mod_sqrt(a, f); MC_CHECK(s && md((i128)*s * *s - a, m) == 0, "composite_mod_sqrt " << a); mc::step(); }
}
MC_GROUP(garner_many) { mc::bound("garner with every number 1..61 of prime moduli (ascending, descending, rotated): small values, the product minus a constant, multiples of the product of all moduli but one (at each place), five target moduli");
    vector<int> pr; for (int i = 2; pr.size() < 61; ++i) { bool ok = true; for (int p : pr) ok = ok && i % p; if (ok) pr.push_back(i); } for (int k = 1; k <= 61; ++k) for (int ord = 0; ord < 3; ++ord) { MC_CASE(k, ord); vector<int> m(pr.begin(), pr.begin() + k); if (ord == 1) reverse(m.begin(), m.end()); if (ord == 2) rotate(m.begin(), m.begin() + k / 3, m.end()); long double lg = 0; for (int p : m) lg += log2l(p); for (int t : { 1, 2, 10, 1000000007, INT_MAX }) { auto prod = [&](int skip) { i128 r = 1; for (int i = 0; i < k; ++i) if (i != skip) r = r * m[i] % t; return (ll)r; }; for (ll x : { 0LL, 1LL, 12345LL, 1234567890123LL }) { if (lg < 62 && lg <= log2l((long double)x + 1) + 0.001L) continue; vector<pair<int, int>> e, f; for (int p : m) e.push_back({ (int)(x % p), p }), f.push_back({ (int)((p - x % p) % p), p }); MC_EQ((ll)suisen::garner(e, t), x % t, "garner of " << x << " with " << k << " moduli"); if (x) MC_EQ((ll)suisen::garner(f, t), ((prod(-1) - x % t) % t + t) % t, "garner of L - " << x << " with " << k << " moduli"); } for (int j = 0; j < k; ++j) { ll r = 1; for (int i = 0; i < k; ++i) if (i != j) r = r * m[i] % m[j]; for (int c : { 1, m[j] - 1 }) { vector<pair<int, int>> e; for (int i = 0; i < k; ++i) e.push_back({ i == j ? (int)(r * c % m[j]) : 0, m[i] }); MC_EQ((ll)suisen::garner(e, t), (ll)((i128)prod(j) * c % t), "garner of a multiple of all moduli but one, place " << j << " of " << k); } mc::step(); } } } }
MC_MAIN
