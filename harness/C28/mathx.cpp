// mc: flags='-O1'
// Factorials, power tables, sums of binomials, set power series, square roots in modints.
#include "mc.hpp"
#include <sstream>
#include <fstream>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/polynomial/formal_power_series.hpp"
#include "library/math/factorial.hpp"
#include "library/math/factorial_large.hpp"
#include "library/math/factorial_embeded.hpp"
#include "library/math/binomial_coefficient_sum.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/pow_mods.hpp"
#include "library/math/modint_extension.hpp"
#include "library/math/product_of_differences.hpp"
#include "library/math/sum_i^d_r^i.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
#include "library/math/util.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using ll = long long; using V = std::vector<mint>; using A = FormalPowerSeries<mint>;
template <int P, int ID> struct TagMod : atcoder::static_modint<P> { using atcoder::static_modint<P>::static_modint; };
// ---- factorial: every sequence of growth requests, tables are static so each sequence uses primes with fresh tables via forked exploration
template <class M> void facseq(mc::Chooser& c, int maxn) { // static storage: the order of requests over the whole run is the history
    factorial<M> f; int len = c.range(1, 3); for (int t = 0; t < len; ++t) { int n = c.range(0, maxn); M w = 1; for (int i = 1; i <= n; ++i) w *= i; MC_CHECK(f.fac(n) == w, "fac"); MC_CHECK(f(n) == w, "operator()"); MC_CHECK(f.fac_inv(n) * w == 1, "fac_inv n=" + std::to_string(n)); mc::step(); } }
template <int P, int O> void grow() { using M = atcoder::static_modint<P>; factorial<M> f; for (int n : O == 0 ? std::vector<int>{0, 1, 2, 3, 5, 6, P / 2, P / 2 + 1, P - 2, P - 1} : O == 1 ? std::vector<int>{3, P - 1, 4} : std::vector<int>{P / 2 + 1, P - 2, P - 1, 1}) if (n >= 0 && n < P) { MC_CASE(P, O, n); M w = 1; for (int i = 1; i <= n; ++i) w *= i; MC_CHECK(f.fac(n) == w, "fac"); MC_CHECK(f.fac_inv(n) * w == 1, "fac_inv"); MC_CHECK(f.binom(n, 0) == 1 && f.binom(n, n) == 1, "binom"); mc::step(); } }
MC_GROUP(factorials) { mc::bound("factorial tables modulo primes 7..1000003 under growth orders (ascending, jump to p-1, past half): never past the modulus; binom/perm/polynom for all small arguments incl. negative and out-of-range; integer factorials up to 20!");
    grow<7, 0>(); grow<11, 0>(); grow<13, 1>(); grow<17, 2>(); grow<19, 1>(); grow<23, 0>(); grow<97, 0>(); grow<101, 2>(); grow<1009, 0>(); grow<1000003, 0>(); grow<5, 1>(); grow<3, 0>(); grow<2, 0>();
    mc::explore([&](mc::Chooser& c) { factorial<mint> f; int n = c.range(-1, 9), r = c.range(-2, 11), s = c.range(-1, 5); auto C = [&](int a, int b) -> mint { if (a < 0 || b < 0 || b > a) return 0; mint x = 1; for (int i = 0; i < b; ++i) x *= a - i, x /= i + 1; return x; }; MC_CHECK(f.binom(n, r) == C(n, r), "binom"); mint pm = C(n, r); if (pm != 0) for (int i = 1; i <= r; ++i) pm *= i; MC_CHECK(f.perm(n, r) == pm, "perm"); mint po = (r < 0 || s < 0) ? mint(0) : C(n, r) * C(n - r, s); MC_CHECK(f.polynom(n, r, s) == po, "polynom"); MC_CHECK(f.polynom(n, r) == C(n, r), "polynom 1"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { if (c.flag()) facseq<atcoder::static_modint<41>>(c, 20); else facseq<mint>(c, 25); }); { factorial<ll, double> f(20); for (int i = 0; i <= 20; ++i) { MC_CASE(i); ll w = 1; for (int j = 1; j <= i; ++j) w *= j; MC_CHECK(f.fac(i) == w, "integer factorial"); } } }
template <int P> void large(const std::vector<ll>& ns, const V* = nullptr) { using M = atcoder::static_modint<P>; using L = factorial_large<M>; static std::vector<M> t; if (t.empty() && P < 3000000) { t.resize(P); t[0] = 1; for (int i = 1; i < P; ++i) t[i] = t[i - 1] * i; } for (ll n : ns) { MC_CASE(P, n); if (n >= P) { MC_CHECK(L::fac(n) == 0, "n >= p"); continue; } M w = t[n]; MC_CHECK(L::fac(n) == w, "fac p=" + std::to_string(P) + " n=" + std::to_string(n)); MC_CHECK(L::fac_inv(n) * w == 1, "fac_inv"); for (int r : {0, 1, (int)n / 2, (int)n - 1, (int)n, (int)n + 1, -1}) { M b = (r < 0 || r > n) ? M(0) : w / t[r] / t[n - r]; MC_CHECK(L::binom(n, r) == b, "binom"); M p = (r < 0 || r > n) ? M(0) : w / t[n - r]; MC_CHECK(L::perm(n, r) == p, "perm"); MC_CHECK(L::polynom(n, r) == b, "polynom"); } mc::step(); } }
MC_GROUP(factorial_large_) { mc::bound("factorial_large with block tables forced (threshold -1): every n in 0..p+1 for p=2053 and 4099, block borders for p=524309 and 1000003; 998244353: Wilson identities, block borders and random-access chain (n+k)!/n! over 1500 consecutive values");
    factorial_large<atcoder::static_modint<4099>>::threshold = -1; factorial_large<atcoder::static_modint<8209>>::threshold = -1; factorial_large<atcoder::static_modint<524309>>::threshold = -1; factorial_large<atcoder::static_modint<1000003>>::threshold = -1; factorial_large<mint>::threshold = 100;
    std::vector<ll> a, b, c, d; for (int i = 0; i <= 4101; ++i) a.push_back(i); for (int i = 0; i <= 8211; i += mc::T(7, 1)) b.push_back(i); auto br = [&](std::vector<ll>& v, ll P) { for (ll q : {0LL, 1LL, 2LL, 511LL, 512LL, 513LL, 1023LL, 1024LL, P >> 9}) for (ll e : {-257LL, -256LL, -255LL, -1LL, 0LL, 1LL, 255LL, 256LL, 257LL}) { ll n = (q << 9) + e; if (n >= 0 && n <= P + 1) v.push_back(n); } for (ll n = P - 5; n <= P + 1; ++n) v.push_back(n); }; br(c, 524309); br(d, 1000003);
    large<4099>(a); large<8209>(b); large<524309>(c); large<1000003>(d);
    using L = factorial_large<mint>; MC_CHECK(L::fac(998244352) == -1, "Wilson"); MC_CHECK(L::fac(998244351) == 1, "Wilson 2"); MC_CHECK(L::fac(998244353) == 0, "p!"); for (ll base : {101LL, 511LL, 1000000LL - 700, 499122176LL - 750, 998244352LL - 1500}) { MC_CASE(base); mint w = L::fac(base); for (ll k = 1; k <= 1500; ++k) { w *= base + k; if (k % 5 == 0 || k > 1490) MC_CHECK(L::fac(base + k) == w, "chain"); } mc::step(300); } for (ll x = 200; x < 998244353; x = x * 3 + 1) { MC_CASE(x, 0); mint s = L::fac(x) * L::fac(998244352 - x); MC_CHECK(s == (x % 2 ? 1 : -1), "generalized Wilson"); } }
template <int P, int BB> void emb() { std::ostringstream o; write_embeded_factorial<P, BB>(o); std::string s = o.str(); auto p = s.find("F[D]{"); MC_CASE(P, BB); MC_CHECK(p != std::string::npos, "table present"); std::istringstream is(s.substr(p + 5)); std::vector<ll> F; ll v; char ch; while (is >> v >> ch && ch == ',') F.push_back(v); MC_EQ((int)F.size(), (P - 1) / BB + 1, "table size"); ll f = 1; for (int i = 0; i < P; ++i) { if (i) f = f * i % P; if (i % BB == 0) MC_EQ(F[i / BB], f, "embedded factorial"); } MC_CHECK(s.find("MOD = " + std::to_string(P)) != std::string::npos && s.find("int B = " + std::to_string(BB)) != std::string::npos, "constants"); mc::step(); }
MC_GROUP(tables) { mc::bound("embedded factorial tables for 6 (MOD,B); inv_mods modulo 2..1009 up to p-1; get_invs of all vectors over 1..6 mod 7 of length <=4; pow_mods and static_pow_mods under interleaved growth; random_walk_1d/2d for all n<=8 against step enumeration; product_of_differences");
    emb<13, 3>(); emb<13, 4>(); emb<13, 12>(); emb<13, 1>(); emb<1009, 64>(); emb<7, 10>();
    { inv_mods<atcoder::static_modint<1009>> iv; for (int i : {1, 5, 2, 900, 3}) { MC_CASE(i, 1); MC_CHECK(iv[i] * i == 1, "inv"); } inv_mods<atcoder::static_modint<1009>> iw(1008); for (int i = 1; i < 1009; ++i) MC_CHECK(iw[i] * i == 1, "inv"); inv_mods<atcoder::static_modint<2>> i2; MC_CHECK(i2[1] == 1, "mod 2"); inv_mods<atcoder::static_modint<3>> i3; MC_CHECK(i3[2] == 2, "mod 3"); inv_mods<mint> im(300); for (int i = 1; i <= 300; ++i) MC_CHECK(im[i] * i == 1, "inv"); }
    mc::explore([&](mc::Chooser& c) { using M = atcoder::static_modint<7>; int n = c.range(0, 4); std::vector<M> v(n); for (auto& x : v) x = c.range(1, 6); auto r = get_invs(v); MC_EQ((int)r.size(), n, "size"); for (int i = 0; i < n; ++i) MC_CHECK(r[i] * v[i] == 1, "get_invs"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int base = c.range(-2, 3); pow_mods<mint> p(base, c.range(0, 3)); for (int t = 0; t < 3; ++t) { int i = c.range(0, 6); MC_CHECK(p[i] == mint(base).pow(i), "pow_mods"); static_pow_mods<5, mint> s; MC_CHECK(s[i] == mint(5).pow(i), "static_pow_mods"); mc::step(); } });
    for (int n = 0; n <= 8; ++n) for (int x = -9; x <= 9; ++x) { MC_CASE(n, x, 5); mint w = 0; for (int m = 0; m < 1 << n; ++m) if (2 * __builtin_popcount(m) - n == x) w += 1; MC_CHECK(random_walk_1d<mint>(n, x) == w, "walk 1d"); factorial<mint> f(n); MC_CHECK((random_walk_1d<mint>(n, x, [&](int k) { return f.binom(n, k); }) == w), "walk 1d binom"); mc::step(); }
    { std::map<std::pair<int, int>, mint> cur{{{0, 0}, 1}}; for (int n = 0; n <= 7; ++n) { for (int x = -8; x <= 8; ++x) for (int y = -8; y <= 8; ++y) { MC_CASE(n, x, y, 6); MC_CHECK(random_walk_2d<mint>(n, x, y) == cur[std::make_pair(x, y)], "walk 2d"); factorial<mint> f(n); MC_CHECK((random_walk_2d<mint>(n, x, y, [&](int k) { return f.binom(n, k); }) == cur[std::make_pair(x, y)]), "walk 2d binom"); mc::step(); } std::map<std::pair<int, int>, mint> nx; for (auto& [p, v] : cur) for (auto [dx, dy] : {std::pair{0, 1}, {1, 0}, {0, -1}, {-1, 0}}) nx[{p.first + dx, p.second + dy}] += v; cur = nx; } }
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 5); V x(n); for (auto& e : x) e = c.choose(4); auto r = product_of_differences<A>(x); MC_EQ((int)r.size(), n, "size"); for (int i = 0; i < n; ++i) { mint w = 1; for (int j = 0; j < n; ++j) if (j != i) w *= x[i] - x[j]; MC_CHECK(r[i] == w, "product of differences"); } mc::step(); }); for (int n : {6, 59, 60, 61, 65, 100}) { MC_CASE(n, 9); V x(n); for (int i = 0; i < n; ++i) x[i] = i * i % 997; auto r = product_of_differences<A>(x); for (int i = 0; i < n; ++i) { mint w = 1; for (int j = 0; j < n; ++j) if (j != i) w *= x[i] - x[j]; MC_CHECK(r[i] == w, "product of differences"); } } }
template <int P> void sq() { using M = atcoder::static_modint<P>; std::vector<char> q(P); for (ll i = 0; i < P; ++i) q[i * i % P] = 1; for (int a = 0; a < P; ++a) { MC_CASE(P, a); auto r = safe_sqrt(M(a)); MC_EQ(r.has_value(), (bool)q[a], "existence"); if (r) MC_CHECK(*r * *r == a, "square"); mc::step(); } }
MC_GROUP(modint_functions) { mc::bound("safe_sqrt/sqrt for every residue of p in {2,3,5,7,11,13,17,97,193,257,769,7681,12289} and, with a dynamic modulus, after every ordered pair of modulus changes over 9 primes; pow/inv/exp/log"); sq<2>(); sq<3>(); sq<5>(); sq<7>(); sq<11>(); sq<13>(); sq<17>(); sq<97>(); sq<193>(); sq<257>(); sq<769>(); sq<7681>(); sq<12289>();
    using D = atcoder::dynamic_modint<55>; std::vector<int> ps{2, 3, 5, 7, 13, 17, 41, 97, 193}; for (int p : ps) for (int p2 : ps) for (int m : {p, p2}) { D::set_mod(m); for (int a = 0; a < m; ++a) { MC_CASE(p, p2, m, a); bool ex = false; for (int x = 0; x < m; ++x) if (x * x % m == a) ex = true; auto r = safe_sqrt(D(a)); MC_EQ(r.has_value(), ex, "existence after modulus change"); if (r) MC_CHECK((*r * *r).val() == a, "square after modulus change"); } mc::step(m); }
    for (ll a : {1LL, 4LL, 499122177LL, 998244352LL, 2LL, 123456LL}) { MC_CASE(a); mint m = a; auto r = safe_sqrt(m); if (r) { MC_CHECK(*r * *r == m, "sqrt"); MC_CHECK(sqrt(m) == *r, "sqrt()"); } else MC_CHECK(m.pow(499122176) == -1, "non-residue"); MC_CHECK(::inv(m) * m == 1, "inv"); MC_CHECK(::pow(m, 5) == m * m * m * m * m, "pow"); MC_CHECK(::exp(mint(0)) == 1 && ::log(mint(1)) == 0, "exp/log"); } }
MC_GROUP(binomial_sums) { mc::bound("binom_sum_prefix/binom_sum: all query lists of length <=2 with m 0..5, bounds -2..7 and r in {1,-1,2,0,3}; batches of all (n,m) with m<=25; sum_i i^d r^i for d 0..6, r in {0,1,-1,2,5}, n 0..14 and large n (finite, ranged and formal-infinite sums)");
    auto C = [](int a, int b) -> mint { if (b < 0 || b > a || a < 0) return 0; mint x = 1; for (int i = 0; i < b; ++i) x *= a - i, x /= i + 1; return x; }; auto ref = [&](int a, int b, int m, mint r) { mint s = 0; for (int i = std::max(0, a); i <= b && i <= m; ++i) s += r.pow(i) * C(m, i); return s; };
    mc::explore([&](mc::Chooser& c) { mint r = c.pick(std::vector<int>{1, -1, 2, 0, 3}); int q = c.range(0, 2); std::vector<std::pair<int, int>> l; for (int i = 0; i < q; ++i) { int m = c.range(0, 5); l.emplace_back(c.range(-2, 7), m); } auto x = binom_sum_prefix(l, r); MC_EQ((int)x.size(), q, "size"); for (int i = 0; i < q; ++i) MC_CHECK(x[i] == ref(0, l[i].first, l[i].second, r), "prefix"); if (r == 1) MC_CHECK(binom_sum_prefix<mint>(l) == x, "default r"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { mint r = c.pick(std::vector<int>{1, -1, 2, 0}); int a = c.range(-1, 6), b = c.range(a - 1, 7), m = c.range(0, 6); auto x = binom_sum<mint>({{a, b, m}, {0, 3, 4}}, r); MC_CHECK(x[0] == ref(a, b, m, r) && x[1] == ref(0, 3, 4, r), "range sum"); mc::step(); });
    for (int r : {1, -1, 2, 0}) { MC_CASE(r); std::vector<std::pair<int, int>> l; for (int m = 25; m >= 0; --m) for (int n = 0; n <= 26; ++n) l.emplace_back((n * 7) % 27, m); auto x = binom_sum_prefix<mint>(l, r); for (size_t i = 0; i < l.size(); ++i) MC_CHECK(x[i] == ref(0, l[i].first, l[i].second, r), "batch"); }
    for (int d = 0; d <= 6; ++d) for (int r : {0, 1, -1, 2, 5}) { MC_CASE(d, r, 0); sum_i_i_pow_d_r_pow_i<mint> s(d, r); auto term = [&](ll i) { return mint(i).pow(d) * mint(r).pow(i); }; mint w = 0; V pre; for (int n = 0; n <= 20; ++n) { pre.push_back(w); MC_CHECK(s.sum(n) == w, "sum d=" + std::to_string(d) + " r=" + std::to_string(r) + " n=" + std::to_string(n)); w += term(n); } for (int t = 0; t <= 12; ++t) for (int m : {0, 1, 3, 8}) { auto v = s.sum(t, m); MC_EQ((int)v.size(), m, "size"); for (int i = 0; i < m; ++i) MC_CHECK(v[i] == pre[t + i], "sum(t, m) t=" + std::to_string(t)); } if (r != 1) { mint c = s.sum(); /* (1-r) c-type identity: infinite sum c satisfies the same recurrence as tail generating function */ mint num = 0; { A f(d + 2), g(d + 2); mint rp = 1; for (int i = 0; i <= d + 1; ++i, rp *= r) f[i] = mint(i).pow(d) * rp; g[0] = 1; for (int k = 0; k <= d; ++k) { for (int i = d + 1; i >= 1; --i) g[i] -= g[i - 1] * r; } for (int i = 0; i <= d; ++i) for (int j = 0; j + i <= d; ++j) num += f[i] * g[j]; mint den = (mint(1) - r).pow(d + 1); MC_CHECK(c == num / den, "formal infinite sum"); } }
        for (ll n : {1000LL, 998244352LL, 998244353LL, 998244354LL, 1000000000000000000LL}) { mint a = s.sum(n), b = s.sum(n + 1); MC_CHECK(b - a == term(n), "difference at large n d=" + std::to_string(d) + " r=" + std::to_string(r)); if (n < 998244000 || n > 998245000) { auto v = s.sum(n, 4); MC_EQ((int)v.size(), 4, "size"); for (int i = 0; i < 4; ++i) MC_CHECK(v[i] == s.sum(n + i), "sum(t, m) at large t d=" + std::to_string(d) + " r=" + std::to_string(r)); } } mc::step(30); } }
// ---- set power series
template <class S> S brute(const S& a, const S& b) { S r = a; for (size_t m = 0; m < a.size(); ++m) { r[m] = 0; for (size_t s = m;; s = (s - 1) & m) { r[m] += a[s] * b[m ^ s]; if (!s) break; } } return r; }
template <class S> bool same(const S& a, const S& b) { return std::vector<mint>(a.begin(), a.end()) == std::vector<mint>(b.begin(), b.end()); }
template <class S> void sps(mc::Chooser& c, int maxn) { static const int al[] = {0, 1, -1, 2, 4}; int n = c.range(0, maxn), sz = 1 << n; S f(V(sz, 0)), g(V(sz, 0)); int k = n >= 3 ? 2 : n == 2 ? 4 : 5; f[0] = al[c.choose(5)]; for (int i = 1; i < sz; ++i) f[i] = n >= 3 ? mint(al[c.choose(k)]) : mint(al[c.choose(k)]); for (int i = 0; i < sz; ++i) g[i] = (i * 5 + 3) % 7;
    MC_EQ(f.cardinality(), n, "cardinality"); MC_CHECK(same(f * g, brute(f, g)), "subset product"); { S h = f; h *= g; MC_CHECK(same(h, brute(f, g)), "*="); h = f + g; h -= g; MC_CHECK(same(h, f), "+ -"); h = -f; h += f; for (auto& x : h) MC_CHECK(x == 0, "unary -"); h = f * mint(3); h /= mint(3); MC_CHECK(same(h, f), "scalar"); } S one = S::one(n); MC_CHECK(same(f * one, f), "one");
    if (f[0] != 0) MC_CHECK(same(brute(f, f.inv()), one), "inv"); if (f[0] == 1 || f[0] == 4) { S s = f.sqrt(); MC_CHECK(same(brute(s, s), f), "sqrt"); }
    S pw = one; for (int e = 0; e <= 4; ++e) { MC_CHECK(same(f.pow(e), pw), "pow"); pw = brute(pw, f); }
    { const ll K = (1LL << 33) + 5; S w = one, b = f; for (ll k = K; k; k >>= 1) { if (k & 1) w = brute(w, b); b = brute(b, b); } MC_CHECK(same(f.pow(K), w), "pow 2^33+5"); }
    if (f[0] == 0) { S e = f.exp(); S w = one; S t = one; mint fact = 1; for (int i = 1; i <= n; ++i) { t = brute(t, f); fact *= i; for (int m = 0; m < sz; ++m) w[m] += t[m] / fact; } MC_CHECK(same(e, w), "exp"); MC_CHECK(same(e.log(), f), "log(exp)"); }
    if (f[0] == 1) { S l = f.log(); MC_CHECK(l[0] == 0, "log const"); MC_CHECK(same(l.exp(), f), "exp(log)"); }
    { auto z = f.zeta(); MC_CHECK(same(z.mobius(), f), "zeta/mobius"); auto y = (z * g.zeta()) + z - z; MC_CHECK(same(y.mobius(), brute(f, g)), "zeta arithmetic"); auto u = (-z) * mint(2) / mint(2); MC_CHECK(same(u.mobius(), -f), "zeta scalar"); if (f[0] != 0) MC_CHECK(same(brute(z.inv().mobius(), f), one), "zeta inv"); MC_CHECK(same(z.pow(3).mobius(), brute(f, brute(f, f))), "zeta pow"); MC_CHECK(same(z.mobius_inplace(), f), "mobius_inplace"); }
    if (n) { S lo = f.cut_lower(sz / 2), hi = f.cut_upper(sz / 2); MC_EQ((int)lo.size(), sz / 2, "cut_lower"); lo.concat(hi); MC_CHECK(same(lo, f), "concat"); } { S h = f; h.set_cardinality(n + 1); MC_EQ((int)h.size(), 2 * sz, "set_cardinality"); } mc::step(20); }
MC_GROUP(set_power) { mc::bound("SetPowerSeries: all series on ground sets of size 0..2 over {0,1,-1,2(,4)} and of size 3 over {0,1} with constant term in {0,1,-1,2,4}: product, inv, sqrt, pow, exp, log, zeta-domain arithmetic; composition with all polynomials of length <=3"); mc::explore([&](mc::Chooser& c) { sps<SetPowerSeries<mint>>(c, 3); });
    mc::explore([&](mc::Chooser& c) { static const int al[] = {0, 1, -1, 2}; int n = c.range(0, 2), sz = 1 << n; SetPowerSeries<mint> g(V(sz, 0)); for (auto& x : g) x = al[c.choose(3)]; int l = c.range(0, 4); V f(l); for (auto& x : f) x = al[c.choose(3)]; auto r = SetPowerSeries<mint>::polynomial_composite(f, g); SetPowerSeries<mint> w(V(sz, 0)); for (int i = l - 1; i >= 0; --i) { w = brute(w, g); w[0] += f[i]; } MC_CHECK(same(r, w), "polynomial_composite"); mc::step(); });
    for (int n : {3, 4, 5}) { MC_CASE(n); int sz = 1 << n; SetPowerSeries<mint> g(V(sz, 0)); for (int i = 0; i < sz; ++i) g[i] = i * i + 3; V f{5, 1, 4, 1, 5, 9, 2, 6}; auto r = SetPowerSeries<mint>::polynomial_composite(f, g); SetPowerSeries<mint> w(V(sz, 0)); for (int i = 7; i >= 0; --i) { w = brute(w, g); w[0] += f[i]; } MC_CHECK(same(r, w), "composite"); } }
MC_GROUP(array_set_power) { mc::bound("ArraySetPowerSeries<N=4> and <N=6>: the same space"); mc::explore([&](mc::Chooser& c) { sps<ArraySetPowerSeries<mint, 4>>(c, 3); }); mc::explore([&](mc::Chooser& c) { sps<ArraySetPowerSeries<mint, 6>>(c, 2); }); }
template <class S> void sps_ops(mc::Chooser& c) { static const int al[] = {0, 1, -1, 3}; int n = c.range(0, 2), sz = 1 << n; S f(V(sz, 0)), g(V(sz, 0)); for (auto& x : f) x = al[c.choose(n == 2 ? 3 : 4)]; for (int i = 0; i < sz; ++i) g[i] = (i * 3 + 2) % 5; const S cf = f, cg = g; mint k = c.pick(std::vector<int>{0, 1, 5});
    auto pw = [&](auto fn) { S r = f; for (int i = 0; i < sz; ++i) r[i] = fn(f[i], g[i]); return r; };
    MC_CHECK(same(+cf, f), "unary +"); MC_CHECK(same(-cf, pw([](mint a, mint) { return -a; })), "unary -"); MC_CHECK(same(cf + cg, pw([](mint a, mint b) { return a + b; })), "+"); MC_CHECK(same(cf - cg, pw([](mint a, mint b) { return a - b; })), "-"); MC_CHECK(same(cf * k, pw([&](mint a, mint) { return a * k; })), "f*c"); MC_CHECK(same(k * cf, pw([&](mint a, mint) { return k * a; })), "c*f"); if (k != 0) { MC_CHECK(same(cf / k, pw([&](mint a, mint) { return a / k; })), "f/c"); S h = f; S& hr = (h /= k); MC_CHECK(&hr == &h && same(h, pw([&](mint a, mint) { return a / k; })), "/= c"); } { S h = f; S& hr = (h *= k); MC_CHECK(&hr == &h && same(h, cf * k), "*= c"); S& h2 = (h += g); MC_CHECK(&h2 == &h, "+= ref"); S& h3 = (h -= g); MC_CHECK(&h3 == &h && same(h, cf * k), "-="); } MC_CHECK(same(cf, f) && same(cg, g), "operands unchanged");
    S sq = f; sq *= sq; MC_CHECK(same(sq, brute(f, f)), "self product"); S dbl = f; dbl += dbl; MC_CHECK(same(dbl, cf * mint(2)), "self sum");
    const auto z = cf.zeta(), y = cg.zeta(); MC_CHECK(same((+z).mobius(), f), "zeta unary +"); MC_CHECK(same((k * z).mobius(), k * f), "c * zeta"); MC_CHECK(same((z - y).mobius(), f - g), "zeta -"); MC_CHECK(same((z + y).mobius(), f + g), "zeta +"); MC_CHECK(same((z * y).mobius(), brute(f, g)), "zeta *"); MC_CHECK(same((-z).mobius(), -f), "zeta unary -"); { auto w = z; w *= k; MC_CHECK(same(w.mobius(), f * k), "zeta *="); if (k != 0) { w /= k; MC_CHECK(same(w.mobius(), f), "zeta /="); MC_CHECK(same((z / k).mobius(), f / k), "zeta / c"); } w = z; w += y; w -= z; MC_CHECK(same(w.mobius(), g), "zeta += -="); }
    if (f[0] == 1) { S q = z.sqrt().mobius(); MC_CHECK(same(brute(q, q), f), "zeta sqrt"); MC_CHECK(same(z.log().mobius(), f.log()), "zeta log"); MC_CHECK(same(z.log().exp().mobius(), f), "zeta exp(log)"); MC_CHECK(same(z.mobius(), f), "functions leave the operand"); } if (f[0] == 0) { MC_CHECK(same(z.exp().mobius(), f.exp()), "zeta exp"); MC_CHECK(same(z.exp().log().mobius(), f), "zeta log(exp)"); }
    mc::step(20); }
MC_GROUP(set_power_operators) { mc::bound("SetPowerSeries and ArraySetPowerSeries: every operator and in-place form, on the series and in the zeta domain, for all series on ground sets of size 0..2 over a small alphabet; constructors"); mc::explore([&](mc::Chooser& c) { sps_ops<SetPowerSeries<mint>>(c); }); mc::explore([&](mc::Chooser& c) { sps_ops<ArraySetPowerSeries<mint, 5>>(c); });
    { MC_CASE(0); SetPowerSeries<mint> a{mint(1), mint(2), mint(3), mint(4)}; MC_EQ(a.cardinality(), 2, "list"); MC_CHECK((V(a.begin(), a.end()) == V{1, 2, 3, 4}), "list"); SetPowerSeries<mint> b(std::size_t(3)); MC_EQ((int)b.size(), 8, "size ctor"); for (auto x : b) MC_CHECK(x == 0, "zero"); SetPowerSeries<mint> d(std::size_t(2), mint(7)); MC_CHECK((V(d.begin(), d.end()) == V{7, 7, 7, 7}), "fill"); SetPowerSeries<mint> e; MC_EQ((int)e.size(), 1, "default is the empty ground set"); ArraySetPowerSeries<mint, 5> h{mint(1), mint(2)}; MC_EQ(h.cardinality(), 1, "list"); ArraySetPowerSeries<mint, 5> i(std::size_t(2), mint(7)), j; MC_EQ((int)i.size(), 4, "fill"); MC_EQ((int)j.size(), 1, "default"); } }
template <int P, int TH> void large_all() { using M = atcoder::static_modint<P>; using L = factorial_large<M>; L::threshold = TH; std::vector<M> t(P); t[0] = 1; for (int i = 1; i < P; ++i) t[i] = t[i - 1] * i; for (int n = P + 1; n >= 0; --n) { MC_CASE(P, TH, n); if (n >= P) { MC_CHECK(L::fac(n) == 0, "n >= p"); continue; } MC_CHECK(L::fac(n) == t[n], "fac p=" + std::to_string(P) + " n=" + std::to_string(n)); if (n % 5 == 0 || n > P - 300) MC_CHECK(L::fac_inv(n) * t[n] == 1, "fac_inv"); mc::step(); }
    for (int n = -2; n <= 7; ++n) for (int a = -1; a <= 8; ++a) for (int b = -1; b <= 8; ++b) { MC_CASE(P, n, a, b); M w = 0; if (n >= 0 && a >= 0 && b >= 0 && a + b <= n) w = t[n] / t[a] / t[b] / t[n - a - b]; MC_CHECK(L::polynom(n, a, b) == w, "polynom"); M x = n >= 0 && a >= 0 && a <= n ? t[n] / t[a] / t[n - a] : M(0); MC_CHECK(L::polynom(n, a) == x && L::binom(n, a) == x, "binom"); MC_CHECK(L::perm(n, a) == (n >= 0 && a >= 0 && a <= n ? t[n] / t[n - a] : M(0)), "perm"); mc::step(); } }
MC_GROUP(factorial_large_residues) { mc::bound("factorial_large for primes whose residue modulo the block size 512 lies in the lower and the upper half (Wilson branch): 4093, 12281, 2543 with block tables forced, 4099 and 3583 with threshold 1000 (both branches), every n in 0..p+1; polynom/binom/perm on all small arguments"); large_all<4093, -1>(); large_all<12281, -1>(); large_all<2543, -1>(); large_all<3583, 1000>(); large_all<6143, 1000>(); }
template <int P, int BB> void emit(std::ostream& o, std::ostream& m, int id) { o << "namespace X" << id << " {\n"; write_embeded_factorial<P, BB>(o); o << "}\n"; m << "for (long long n = 0; n <= " << P + 3 << "LL; ++n) printf(\"" << P << " %lld %d\\n\", n, X" << id << "::factorial_embeded(n)); static_assert(X" << id << "::factorial_embeded(0) == 1, \"\");\n"; }
MC_GROUP(embedded_program) { mc::bound("the program text written by write_embeded_factorial for 8 (MOD,B) is compiled and run: factorial_embeded(n) for every n in 0..MOD+3"); MC_CASE(0);
    std::ostringstream o, m; emit<13, 3>(o, m, 0); emit<13, 4>(o, m, 1); emit<13, 12>(o, m, 2); emit<13, 1>(o, m, 3); emit<1009, 64>(o, m, 4); emit<7, 10>(o, m, 5); emit<2, 1>(o, m, 6); emit<10007, 100>(o, m, 7);
    char dir[] = "/tmp/mc_embXXXXXX"; MC_CHECK(mkdtemp(dir) != nullptr, "scratch directory"); std::string d = dir; { std::ofstream f(d + "/a.cpp"); f << "#include <cstdio>\n" << o.str() << "int main() {\n" << m.str() << "}\n"; }
    int rc = std::system(("cd " + d + " && env -u ASAN_OPTIONS $(command -v g++-10 || command -v g++) -std=gnu++17 -w -O0 a.cpp -o a >/dev/null 2>log && ./a > out").c_str()); std::ifstream r(d + "/out"); std::vector<std::array<ll, 3>> got; ll p, n, v; while (r >> p >> n >> v) got.push_back({p, n, v}); r.close(); std::string fl; for (const char* x : {"/a.cpp", "/a", "/log", "/out"}) std::remove((d + x).c_str()); rmdir(dir);
    MC_EQ(rc, 0, "the emitted program compiles and runs"); std::size_t i = 0; for (int P : {13, 13, 13, 13, 1009, 7, 2, 10007}) { ll f = 1; for (int k = 0; k <= P + 3; ++k) { MC_CHECK(i < got.size() && got[i][0] == P && got[i][1] == k, "output shape"); if (k) f = f * k % P; MC_EQ(got[i][2], k >= P ? 0 : f, "factorial_embeded(" << k << ") mod " << P); ++i; } mc::step(P); } }
MC_GROUP(wide_arguments) { mc::bound("arguments beyond 32 bits: factorial_large::fac at 2^31..2^40, polynom with arguments whose sum passes 2^31");
    using L = factorial_large<mint>; for (ll n : { 998244353LL, 2147483648LL, 4294967296LL, 4294967297LL, 1LL << 40 }) { MC_CASE(n); MC_CHECK(L::fac(n) == 0, "fac beyond the modulus"); mc::step(); }
    for (int n : { 900000000, 998244352 }) { MC_CASE(n, 0); MC_CHECK(L::polynom(n, n, n, n) == 0, "polynom, sum of parts above n"); MC_CHECK(L::polynom(n, n, n, n, n, n) == 0, "polynom, five parts"); MC_CHECK(L::polynom(n, n) == 1, "polynom(n, n)"); MC_CHECK(L::polynom(n, n - 1) == n, "polynom(n, n-1)"); MC_CHECK(L::polynom(n, n - 1, 1) == n, "polynom(n, n-1, 1)"); mc::step(); } }
MC_GROUP(self_operands) {
    mc::bound("set power series with the object itself on the right (+=, -=, *=): every series over {0,1,2} on 0..2 elements, dense series on 3..8 elements, SetPowerSeries, ArraySetPowerSeries-independent subset sums as oracle");
    auto chk = [&](int n, const V& v) { using S = SetPowerSeries<mint>; S f(n); for (size_t i = 0; i < v.size(); ++i) f[i] = v[i]; S x = f; x += x; for (size_t i = 0; i < v.size(); ++i) MC_CHECK(x[i] == v[i] + v[i], "f += f"); x = f; x -= x; for (size_t i = 0; i < v.size(); ++i) MC_CHECK(x[i] == 0, "f -= f"); x = f; x *= x; for (size_t s = 0; s < v.size(); ++s) { mint w = 0; for (size_t t = s;; t = (t - 1) & s) { w += v[t] * v[s ^ t]; if (!t) break; } MC_CHECK(x[s] == w, "f *= f"); } for (size_t i = 0; i < v.size(); ++i) MC_CHECK(f[i] == v[i], "unchanged"); mc::step(); };
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 2); V v(1 << n); for (auto& x : v) x = c.choose(3); chk(n, v); });
    for (int n = 3; n <= 8; ++n) { MC_CASE(n); V v(1 << n); mint r = 7; for (auto& x : v) x = r, r = r * r + 3; chk(n, v); }
}
template <class S> void sps_mid(int n, int kind) { int sz = 1 << n; S f(V(sz, 0)), g(V(sz, 0)); mint r = 7 + kind; for (int i = 0; i < sz; ++i) { f[i] = kind == 1 ? (i & (i - 1) ? mint(0) : mint(i % 5 + 1)) : kind == 2 && i % 3 ? mint(0) : r; g[i] = r + i; r = r * r + 3; } S one = S::one(n);
    MC_CHECK(same(f * g, brute(f, g)), "product n=" + std::to_string(n)); f[0] = 5; MC_CHECK(same(brute(f, f.inv()), one), "inv"); f[0] = 4; { S s = f.sqrt(); MC_CHECK(same(brute(s, s), f), "sqrt"); } { S w = one; for (int e = 0; e <= 5; ++e) { MC_CHECK(same(f.pow(e), w), "pow"); w = brute(w, f); } } f[0] = 0; { S w = one; for (int e = 0; e <= 5; ++e) { MC_CHECK(same(f.pow(e), w), "pow, zero constant term"); w = brute(w, f); } }
    { S e = f.exp(), w = one, t = one; mint fc = 1; for (int i = 1; i <= n; ++i) { t = brute(t, f); fc *= i; for (int m = 0; m < sz; ++m) w[m] += t[m] / fc; } MC_CHECK(same(e, w), "exp"); MC_CHECK(same(w.log(), f), "log"); } { auto z = f.zeta(); auto y = g.zeta(); MC_CHECK(same((z * y).mobius(), brute(f, g)), "zeta product"); MC_CHECK(same(z.exp().mobius(), f.exp()), "zeta exp"); MC_CHECK(same(z.mobius(), f), "mobius"); }
    if constexpr (std::is_same_v<S, SetPowerSeries<mint>>) for (int l : { 1, n, n + 1, n + 4 }) { f[0] = kind; V p(l); for (int i = 0; i < l; ++i) p[i] = i * i + 2; auto rr = S::polynomial_composite(p, f); S w(V(sz, 0)); for (int i = l - 1; i >= 0; --i) { w = brute(w, f); w[0] += p[i]; } MC_CHECK(same(rr, w), "composite l=" + std::to_string(l)); } mc::step(10); }
MC_GROUP(set_power_mid) { mc::bound("SetPowerSeries and ArraySetPowerSeries<.,9> on every ground set of 4..8 elements (dense, singletons only, every third entry): product, inv, sqrt, powers 0..5, exp, log, zeta domain, composition with polynomials shorter and longer than the ground set, against subset sums");
    for (int n = 4; n <= 8; ++n) for (int k = 0; k < 3; ++k) { MC_CASE(n, k); sps_mid<SetPowerSeries<mint>>(n, k); sps_mid<ArraySetPowerSeries<mint, 9>>(n, k); } }
MC_GROUP(sums_mid) { mc::bound("binom_sum_prefix/binom_sum for batches with m in 26..130 and bounds -1..m+1, r in {1,-1,2,0}; sum_i i^d r^i for every d 7..64 and r in {0,1,-1,2,7}, n 0..d+10, windows and far arguments; inv_mods and pow_mods entry by entry to 700");
    for (int r : { 1, -1, 2, 0 }) { MC_CASE(r); std::vector<std::vector<mint>> C(132, V(132)); for (int i = 0; i < 132; ++i) for (int j = 0; j <= i; ++j) C[i][j] = j == 0 || j == i ? mint(1) : C[i - 1][j - 1] + C[i - 1][j]; auto ref = [&](int a, int b, int m) { mint s = 0; for (int i = std::max(a, 0); i <= b && i <= m; ++i) s += mint(r).pow(i) * C[m][i]; return s; }; std::vector<std::pair<int, int>> l; std::vector<std::tuple<int, int, int>> q; for (int m = 26; m <= 130; m += 3) for (int n = -1; n <= m + 1; n += 1 + m / 14) { l.emplace_back(n, m); q.emplace_back(n, std::min(m + 1, n + 17), m); } auto x = binom_sum_prefix<mint>(l, r); for (size_t i = 0; i < l.size(); ++i) MC_CHECK(x[i] == ref(0, l[i].first, l[i].second), "prefix n=" + std::to_string(l[i].first) + " m=" + std::to_string(l[i].second)); auto y = binom_sum<mint>(q, r); for (size_t i = 0; i < q.size(); ++i) MC_CHECK(y[i] == ref(std::get<0>(q[i]), std::get<1>(q[i]), std::get<2>(q[i])), "range"); for (size_t i = 0; i < l.size(); i += 37) MC_CHECK(binom_sum_prefix<mint>({ l[i] }, r)[0] == x[i], "single"); mc::step(l.size()); }
    for (int d = 7; d <= 64; ++d) for (int r : { 0, 1, -1, 2, 7 }) { MC_CASE(d, r); sum_i_i_pow_d_r_pow_i<mint> s(d, r); mint w = 0; V pre; for (int n = 0; n <= d + 10; ++n) { pre.push_back(w); MC_CHECK(s.sum(n) == w, "sum d=" + std::to_string(d) + " r=" + std::to_string(r) + " n=" + std::to_string(n)); w += mint(n).pow(d) * mint(r).pow(n); } for (int t : { 0, 1, d - 2, d, d + 1 }) { auto v = s.sum(t, 8); MC_EQ((int)v.size(), 8, "size"); for (int i = 0; i < 8; ++i) MC_CHECK(v[i] == pre[t + i], "window d=" + std::to_string(d)); } for (ll n : { 5000LL, 1000000000000000000LL }) MC_CHECK(s.sum(n + 1) - s.sum(n) == mint(n).pow(d) * mint(r).pow(n), "far"); mc::step(); } }
MC_MAIN
