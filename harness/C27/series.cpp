// mc: flags='-O1'
// Recurrences, relaxed series, composition, gcd, rational functions, sparse block polynomials.
#include "mc.hpp"
#include <optional>
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/polynomial/berlekamp_massey.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/compose.hpp"
#include "library/polynomial/compose_exp.hpp"
#include "library/polynomial/compose_inv.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/polynomial/vec_sparse_fps.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using ll = long long; using V = std::vector<mint>; using ull = unsigned long long;
using A = FormalPowerSeries<mint>; using B = FPS<mint>;
static V conv(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
static mint at(const V& a, int i) { return i < (int)a.size() ? a[i] : mint(0); }
template <class T> V vec(const T& f) { return V(f.begin(), f.end()); }
static V trim(V a) { while (a.size() && a.back() == 0) a.pop_back(); return a; }
static V cut(V a, int n) { a.resize(n); return a; }
static V add(V a, const V& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] += b[i]; return a; }
static std::string sh(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 12; ++i) { int x = v[i].val(); s += std::to_string(x > 499122176 ? x - 998244353 : x) + " "; } return s + (v.size() > 12 ? "... n=" + std::to_string(v.size()) : "") + "]"; }
static V pool(int len, int kind) { V f(len); for (int i = 0; i < len; ++i) switch (kind) { case 0: f[i] = (i * 7919LL + 13) * (i + 5) % 1000003; break; case 1: f[i] = i % 5 == 0 ? i + 1 : 0; break; case 2: f[i] = -1; break; case 3: f[i] = (i == 0 || i == len - 1) ? 3 : 0; break; case 4: f[i] = 0; break; } return f; }
static void setB() { B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); }); }
static const int AL[] = {0, 1, -1, 2};
static V vecof(mc::Chooser& c, int lo, int hi, int k = 4) { int m = c.range(lo, hi); V f(m); for (auto& x : f) x = AL[c.choose(k)]; return f; }
static bool prodeq(const V& f, const V& g, const V& h, int n) { for (int k = 0; k < n; ++k) { mint s = 0; for (int i = 0; i <= k && i < (int)f.size(); ++i) s += f[i] * at(g, k - i); if (s != at(h, k)) return false; } return true; }
// ---- relaxed series: after every append the prefix must satisfy the defining identity
template <class M> struct OldTest {};
static void relaxed(const V& f, int upto) {
    int n = f.size();
    if (f[0] != 0) { RelaxedInv<mint> q; V g; for (int i = 0; i < n; ++i) { g.push_back(q.append(f[i])); MC_CHECK(q[i] == g[i], "operator[]"); mint s = 0; for (int j = 0; j <= i; ++j) s += f[j] * g[i - j]; MC_CHECK(s == (i == 0 ? 1 : 0), "relaxed inv " + sh(f)); mc::step(); } }
    if (f[0] == 0) { RelaxedExp<mint> q; V g; for (int i = 0; i < n; ++i) { g.push_back(q.append(f[i])); MC_CHECK(q[i] == g[i], "operator[]"); mint s = 0; for (int j = 1; j <= i; ++j) s += f[j] * j * g[i - j]; MC_CHECK(i == 0 ? g[0] == 1 : s == g[i] * i, "relaxed exp " + sh(f)); mc::step(); } }
    if (f[0] == 1) { RelaxedLog<mint> q; V g; for (int i = 0; i < n; ++i) { g.push_back(q.append(f[i])); MC_CHECK(q[i] == g[i], "operator[]"); mint s = 0; for (int j = 1; j <= i; ++j) s += g[j] * j * f[i - j]; MC_CHECK(i == 0 ? g[0] == 0 : s == f[i] * i, "relaxed log " + sh(f)); mc::step(); } }
    for (ll k : {0LL, 1LL, 2LL, 3LL, 5LL, 998244353LL, 1000000000000LL}) { RelaxedPow<mint> q(k); V g; for (int i = 0; i < n; ++i) { g.push_back(q.append(f[i])); MC_CHECK(q[i] == g[i], "operator[]"); mc::step(); } V w; if (k <= 5) { w = cut(V{1}, n); for (int i = 0; i < k; ++i) w = cut(conv(w, f), n); } else w = vec(A(f).pow(k, n)); MC_CHECK(g == w, "relaxed pow k=" + std::to_string(k) + " " + sh(f)); }
    if (f[0] != 0) { RelaxedSqrt<mint> q; bool ex = f[0].pow((998244353 - 1) / 2) == 1; V g; for (int i = 0; i < n; ++i) { auto r = q.append(f[i]); MC_EQ(r.has_value(), ex, "relaxed sqrt existence"); if (!ex) break; g.push_back(*r); MC_CHECK(q[i] == g[i], "operator[]"); mint s = 0; for (int j = 0; j <= i; ++j) s += g[j] * g[i - j]; MC_CHECK(s == f[i], "relaxed sqrt " + sh(f)); mc::step(); } }
}
MC_GROUP(relaxed_series) { mc::bound("Relaxed inv/exp/log/pow/sqrt: all series of length <=5 (thorough 7) over {0,1,-1,2}; shapes of length up to 300 (thorough 1100), checked after every append");
    mc::explore([&](mc::Chooser& c) { V f = vecof(c, 1, mc::T(5, 7)); relaxed(f, 0); });
    for (int n : mc::thorough() ? std::vector<int>{64, 129, 300, 1100} : std::vector<int>{64, 129, 300}) for (int k = 0; k < 4; ++k) for (int f0 : {0, 1, 4, 3}) for (int z : {1, 3}) { MC_CASE(n, k, f0, z); V f = pool(n, k); f[0] = f0; for (int i = 1; i < z; ++i) f[i] = 0; relaxed(f, 0); } }
// ---- linear recurrences
template <class M> bool fits(const std::vector<M>& s, const std::vector<M>& c, int L) { for (int i = L; i < (int)s.size(); ++i) { M v = 0; for (int j = 1; j <= L; ++j) v += c[j] * s[i - j]; if (v != s[i]) return false; } return true; }
template <int P> void bm(int maxn) { using M = atcoder::static_modint<P>;
    mc::explore([&](mc::Chooser& ch) { int n = ch.range(0, maxn); std::vector<M> s(n); for (auto& x : s) x = ch.choose(P); auto c = find_linear_recuurence(s); int L = (int)c.size() - 1; MC_CHECK(L >= 0 && c[0] == 1, "c0"); MC_CHECK(fits(s, c, L), "recurrence holds");
        for (int l = 0; l < L; ++l) { int tot = 1; for (int i = 0; i < l; ++i) tot *= P; for (int m = 0; m < tot; ++m) { std::vector<M> d(l + 1); int t = m; for (int i = 1; i <= l; ++i) d[i] = t % P, t /= P; MC_CHECK(!fits(s, d, l), "a shorter recurrence exists, n=" + std::to_string(n)); } } mc::outcome(L); mc::step(); }); }
MC_GROUP(berlekamp_massey) { mc::bound("find_linear_recurrence: every sequence over Z_2 of length <=10 and over Z_3 of length <=6 (thorough 13/8): recurrence valid and no shorter recurrence exists (all candidates tried)"); bm<2>(mc::T(10, 13)); bm<3>(mc::T(6, 8)); 
    for (int d : {1, 5, 30, 60}) for (int z : {0, 3}) { MC_CASE(d, z); V c(d); for (int i = 0; i < d; ++i) c[i] = i * 7 + 3; V s(z); for (int i = 0; i < d; ++i) s.push_back(i * i + 1); while ((int)s.size() < 2 * (d + z) + 5) { mint v = 0; int n = s.size(); for (int j = 0; j < d; ++j) v += c[j] * s[n - 1 - j]; s.push_back(v); } auto r = find_linear_recuurence(s); int L = (int)r.size() - 1; MC_CHECK(L <= d + z && fits(s, r, L), "long recurrence"); mc::step(); } }
MC_GROUP(nth_term) { mc::bound("bostan_mori: all P (len<=3), Q (len 1..3, Q0!=0) over {0,1,-1,2} and every n<=20; nth term of all recurrences of order <=3, n<=20; large n checked by matrix-free doubling of a known sequence (2^n, Fibonacci, n^2) up to 2^63"); setB();
    mc::explore([&](mc::Chooser& c) { V P = vecof(c, 0, 3), Q = vecof(c, 1, 3); if (Q[0] == 0) return; V w; for (int i = 0; i <= 20; ++i) { mint v = at(P, i); for (int j = 1; j < (int)Q.size() && j <= i; ++j) v -= Q[j] * w[i - j]; w.push_back(v / Q[0]); } for (int n = 0; n <= 20; ++n) { MC_CHECK((bostan_mori(A(P), A(Q), n) == w[n]), "bostan_mori A"); if (n % 4 == 3) MC_CHECK((bostan_mori(B(P), B(Q), n) == w[n]), "bostan_mori B"); mc::step(); } });
    mc::explore([&](mc::Chooser& c) { V r = vecof(c, 0, 3, 4), a = vecof(c, 0, 3, 3); if (a.size() < r.size()) return; int K = r.size(); V w = a; w.resize(K); for (int i = K; i <= 20; ++i) { mint v = 0; for (int j = 0; j < K; ++j) v += r[j] * w[i - 1 - j]; w.push_back(v); } for (int n = 0; n <= 20; ++n) { MC_CHECK((nth_term_of_linearly_recurrent_sequence(A(a), A(r), n) == w[n]), "nth term"); mc::step(); } });
    for (int e = 5; e < 64; ++e) for (int d = -1; d <= 1; ++d) { ull n = (1ULL << e) + d; MC_CASE(e, d); MC_CHECK((bostan_mori(A{1}, A{1, -2}, n) == mint(2).pow((ll)(n % 998244352ULL))), "2^n"); MC_CHECK((bostan_mori(A{0, 1, 1}, A{1, -3, 3, -1}, n) == mint(n) * mint(n)), "n^2"); auto fib = [&](ull m) { std::function<std::pair<mint, mint>(ull)> go = [&](ull k) -> std::pair<mint, mint> { if (!k) return {0, 1}; auto [a, b] = go(k / 2); mint x = a * (b * 2 - a), y = a * a + b * b; if (k & 1) return {y, x + y}; return {x, y}; }; return go(m).first; }; MC_CHECK((bostan_mori(A{0, 1}, A{1, -1, -1}, n) == fib(n)), "fibonacci"); MC_CHECK((nth_term_of_linearly_recurrent_sequence(A{0, 1}, A{1, 1}, n) == fib(n)), "fibonacci nth"); mc::step(); }
    for (int d : {60, 64, 65, 100}) for (int n : {59, 64, 127, 1000, 3001}) { MC_CASE(d, n, 0); V P = pool(d, 0), Q = pool(d + 1, 2); Q[0] = 5; V w; for (int i = 0; i <= n; ++i) { mint v = at(P, i); for (int j = 1; j <= d && j <= i; ++j) v -= Q[j] * w[i - j]; w.push_back(v / Q[0]); } MC_CHECK((bostan_mori(A(P), A(Q), n) == w[n]), "long recurrence"); MC_CHECK((bostan_mori(B(P), B(Q), n) == w[n]), "long recurrence B"); } }
// ---- composition
static V composeNaive(const V& f, const V& g, int n) { V r(n); for (int i = (int)f.size() - 1; i >= 0; --i) { r = cut(conv(r, g), n); if (n) r[0] += f[i]; } return r; }
MC_GROUP(composition) { mc::bound("compose f(g(x)) mod x^n: all f (len<=3), g (len<=4) over {0,1,-1,2}, n 0..6 (n smaller and larger than both); shapes up to 70 terms; compositional inverse of all f (len 2..5), n 0..7 and up to 70; f(e^x) for all f (len<=4), n 0..6 and larger"); setB();
    mc::explore([&](mc::Chooser& c) { V f = vecof(c, 0, 3), g = vecof(c, 0, 4); for (int n = 0; n <= 6; ++n) { V w = composeNaive(f, g, n), r = compose(f, g, n); MC_CHECK(r == w, "compose f=" + sh(f) + " g=" + sh(g) + " n=" + std::to_string(n) + " got " + sh(r)); mc::step(); } });
    for (int fl : {1, 2, 9, 16, 33, 70}) for (int gl : {1, 2, 8, 33, 65, 100}) for (int n : {1, 2, 3, 8, 9, 16, 33, 64}) for (int k : {0, 2, 1}) { MC_CASE(fl, gl, n, k); V f = pool(fl, k), g = pool(gl, 2 - k); MC_CHECK(compose(f, g, n) == composeNaive(f, g, n), "compose"); mc::step(); }
    mc::explore([&](mc::Chooser& c) { V f = vecof(c, 2, 5); if (f[0] != 0 || f[1] == 0) return; for (int n = 0; n <= 7; ++n) { V g = compositional_inv(f, n); MC_EQ((int)g.size(), n, "size"); V x(n); if (n > 1) x[1] = 1; MC_CHECK(composeNaive(f, g, n) == x, "f(g(x))=x f=" + sh(f) + " n=" + std::to_string(n)); MC_CHECK(composeNaive(g, f, n) == x, "g(f(x))=x"); mc::step(); } });
    for (int n : {8, 9, 10, 15, 16, 17, 24, 25, 26, 33, 48, 49, 50, 64, 70}) for (int k : {0, 2, 1}) for (int fl : {2, 10, n, n + 20}) { MC_CASE(n, k, fl, -1); V f = pool(fl, k); f[0] = 0; if (f[1] == 0) f[1] = 3; V g = compositional_inv(f, n), x(n); x[1] = 1; MC_CHECK(composeNaive(f, g, n) == x, "f(g(x))=x"); mc::step(); }
    auto cexp = [&](const V& f, int n) { V w(n); mint fact = 1; for (int j = 0; j < n; ++j) { if (j) fact *= j; for (size_t i = 0; i < f.size(); ++i) w[j] += f[i] * mint((int)i).pow(j) / fact; } MC_CHECK(cut(vec(compose_exp(A(f), n)), n) == w, "f(e^x) f=" + sh(f) + " n=" + std::to_string(n)); MC_CHECK(cut(vec(compose_exp(B(f), n)), n) == w, "f(e^x) B f=" + sh(f) + " n=" + std::to_string(n)); mc::step(); };
    mc::explore([&](mc::Chooser& c) { V f = vecof(c, 0, 4); for (int n = 0; n <= 6; ++n) cexp(f, n); });
    for (int fl : {1, 5, 59, 64, 70}) for (int n : {1, 30, 60, 65, 100}) for (int k : {0, 1, 2, 3}) { MC_CASE(fl, n, k, -2, 0); cexp(pool(fl, k), n); } }
// ---- gcd
template <class T> void gcdchk(const V& a, const V& b, const V* known = nullptr) { T FA(a), FB(b); auto [x, y, g] = polynomial_ext_gcd(FA, FB); V gx = trim(vec(g)); std::string ctx = "a=" + sh(a) + " b=" + sh(b);
    MC_CHECK(trim(add(conv(a, vec(x)), conv(b, vec(y)))) == gx, "ax+by=g " + ctx); V ta = trim(a), tb = trim(b);
    if (ta.empty() && tb.empty()) { MC_CHECK(gx.empty(), "gcd(0,0)=0"); return; }
    MC_CHECK(gx.size() && gx.back() == 1, "gcd is monic " + ctx); MC_CHECK(trim(vec(T(ta).div_mod(T(gx)).second)).empty(), "g | a " + ctx); MC_CHECK(trim(vec(T(tb).div_mod(T(gx)).second)).empty(), "g | b " + ctx);
    if (known) MC_CHECK(gx == *known, "known gcd");
    MC_CHECK(trim(vec(polynomial_gcd(FA, FB))) == gx, "polynomial_gcd"); { auto [s, h] = polynomial_gcd_inv(FA, FB); MC_CHECK(trim(vec(h)) == gx && vec(s) == vec(x), "polynomial_gcd_inv"); if (gx == V{1} && tb.size()) { V s2 = vec(polynomial_inv(FA, FB)); V r = conv(a, s2); r.resize(std::max<size_t>(r.size(), 1)); r[0] -= 1; MC_CHECK(trim(vec(T(trim(r)).div_mod(T(tb)).second)).empty(), "polynomial_inv " + ctx); } } mc::step(); }
static V monic(V f) { f = trim(f); if (f.size()) { mint c = f.back().inv(); for (auto& x : f) x *= c; } return f; }
MC_GROUP(poly_gcd) { mc::bound("extended gcd: all a,b of length <=4 over {0,1,-1,2} (incl. zero and untrimmed); degrees 250..600 around the half-gcd switch with quotient degree patterns 1, 2, mixed, huge jumps and planted common factors"); setB();
    mc::explore([&](mc::Chooser& c) { V a = vecof(c, 0, mc::T(3, 4)), b = vecof(c, 0, 3); gcdchk<A>(a, b); gcdchk<B>(a, b); gcdchk<A>(b, a); });
    // build (a,b) with a prescribed quotient sequence and gcd: exact knowledge of g
    for (int pat = 0; pat < 7; ++pat) for (int deg : mc::thorough() ? std::vector<int>{100, 255, 256, 257, 258, 300, 400, 514, 600, 1030} : std::vector<int>{257, 258, 300, 520}) for (int gd : mc::thorough() ? std::vector<int>{0, 1, 40, 200} : std::vector<int>{0, 40}) for (int rev = 0; rev < 2; ++rev) { MC_CASE(pat, deg, gd, rev); V g(gd + 1); for (int i = 0; i < gd; ++i) g[i] = i * 17 + 3; g[gd] = 1; V a = g, b; int step = 0; while ((int)a.size() <= deg) { int q = pat == 0 ? 1 : pat == 1 ? 2 : pat == 2 ? 1 + step % 3 : pat == 3 ? (step == 0 ? deg / 2 : 1) : pat == 4 ? (step == 30 ? deg / 3 : 1) : pat == 5 ? 64 : (step % 10 == 9 ? 37 : 1); V Q(q + 1); for (int i = 0; i <= q; ++i) Q[i] = (step * 31 + i * 7 + 1) % 1009 + 1; V na = add(conv(Q, a), b); b = a; a = na; ++step; } if (rev) std::swap(a, b); if (pat % 2) gcdchk<A>(a, b, &g); else gcdchk<B>(a, b, &g); } }
// ---- rational functions
MC_GROUP(rational) { mc::bound("RationalFPS: all pairs of fractions num/den (len<=2, den0 or common leading zeros) over {0,1,-1,2}: + - * scalar ops, inv, to_fps, normalize, sum/prod of lists of size 0..5"); setB();
    using R = RationalFPS<A>; auto ser = [](const V& p, const V& q, int n) { int z = 0; while (q[z] == 0) ++z; V w; for (int i = 0; i < n; ++i) { mint v = at(p, i + z); for (int j = 1; j + z < (int)q.size() && j <= i; ++j) v -= q[j + z] * w[i - j]; w.push_back(v / q[z]); } return w; };
    auto same = [&](const R& r, const V& w, const char* m) { MC_CHECK(cut(vec(r.to_fps(w.size())), w.size()) == w, m); mc::step(); };
    mc::explore([&](mc::Chooser& c) { V p = vecof(c, 0, 2), q = vecof(c, 1, mc::T(2, 3), 3), p2 = vecof(c, 1, 2, 3), q2 = vecof(c, 1, 2, 3); if (q[0] == 0 || q2[0] == 0) return; const int N = 6; R a{A(p), A(q)}, b{A(p2), A(q2)}; V sa = ser(p, q, N), sb = ser(p2, q2, N); V d = sb; for (auto& x : d) x = -x;
        same(a, sa, "to_fps"); same(a + b, add(sa, sb), "+"); same(a - b, add(sa, d), "-"); same(a * b, cut(conv(sa, sb), N), "*"); V n = sa; for (auto& x : n) x = -x; same(-a, n, "unary -"); V t = sa; for (auto& x : t) x *= 3; same(a * mint(3), t, "* scalar"); same(mint(3) * a, t, "scalar *"); V h = sa; for (auto& x : h) x /= 3; same(a / mint(3), h, "/ scalar"); R e = a; e += b; same(e, add(sa, sb), "+="); e -= b; same(e, sa, "-="); e *= b; same(e, cut(conv(sa, sb), N), "*="); e = a; e *= mint(3); same(e, t, "*= scalar"); e = a; e /= mint(3); same(e, h, "/= scalar");
        if (p2[0] != 0) { same(b.inv(), ser(q2, p2, N), "inv"); R f = b; f.inv_inplace(); same(f, ser(q2, p2, N), "inv_inplace"); V v = ser(q2, p2, N); for (auto& x : v) x *= 5; same(mint(5) / b, v, "scalar /"); }
        { R f = a; V qq = vec(f.normalize()); MC_CHECK(trim(vec(f.num)).size() < std::max<size_t>(1, trim(q).size()), "normalize degree"); V s = cut(V{}, N); for (size_t i = 0; i < qq.size() && (int)i < N; ++i) s[i] = qq[i]; same(f, add(sa, [&] { V m = s; for (auto& x : m) x = -x; return m; }()), "normalize remainder"); }
        { V pz = p, qz = q; pz.insert(pz.begin(), 2, 0); qz.insert(qz.begin(), 2, 0); same(R{A(pz), A(qz)}, sa, "common leading zeros"); }
        for (int k = 0; k <= 5; ++k) { std::vector<R> l; V s(N), pr = cut(V{1}, N); for (int i = 0; i < k; ++i) { bool u = i % 2; l.push_back(u ? b : a); s = add(s, u ? sb : sa); pr = cut(conv(pr, u ? sb : sa), N); } same(R::sum(l), s, "sum of list"); same(R::prod(l), pr, "prod of list"); } }); }
// ---- block-sparse polynomials
MC_GROUP(vec_sparse) { mc::bound("VecSparseFPS: all pairs of polynomials with <=3 exponents from {0,1,2,4,5,9} (adjacent, overlapping, distant blocks): coefficients, + - * (dense factor), bostan_mori for n<=12 and exponents near 2^40"); using W = VecSparseFPS<ll, mint>; W::set_multiplication([](const V& a, const V& b) { return conv(a, b); });
    static const ll E[] = {0, 1, 2, 4, 5, 9}; auto build = [&](mc::Chooser& c, V& d) { int k = c.range(0, d.empty() ? 3 : mc::T(2, 3)); std::vector<std::pair<ll, mint>> l; d.assign(24, 0); for (int i = 0; i < k; ++i) { ll e = E[c.choose(6)]; mint v = i + 1; l.emplace_back(e, v); d[e] += v; } return W(l); };
    auto eq = [&](W w, const V& d, const char* m) { for (int i = 0; i < 30; ++i) MC_CHECK(w[i] == at(d, i), m); ll last = -1; for (auto& [i, f] : w) { MC_CHECK(i > last, "blocks sorted and disjoint"); last = i + (ll)f.size() - 1; } mc::step(); };
    mc::explore([&](mc::Chooser& c) { V da, db(1); W a = build(c, da), b = build(c, db); eq(a, da, "construct"); eq(a + b, add(da, db), "+"); V n = db; for (auto& x : n) x = -x; eq(-b, n, "unary -"); eq(a - b, add(da, n), "-"); eq(a * b, conv(da, db), "*"); V q{2, 0, 1}; eq(a * q, conv(da, q), "* dense"); eq(q * a, conv(da, q), "dense *"); });
    mc::explore([&](mc::Chooser& c) { V d; W a = build(c, d); V Q = vecof(c, 1, 3); if (Q[0] == 0) return; V w; for (int i = 0; i <= 12; ++i) { mint v = at(d, i); for (int j = 1; j < (int)Q.size() && j <= i; ++j) v -= Q[j] * w[i - j]; w.push_back(v / Q[0]); MC_CHECK(W::bostan_mori(a, Q, i) == w[i], "bostan_mori"); mc::step(); } ll K = 1LL << 40; std::vector<std::pair<ll, mint>> l; for (int i = 0; i < 24; ++i) if (d[i] != 0) l.emplace_back(K + i, d[i]); for (int i = 0; i <= 12; i += mc::T(9, 3)) MC_CHECK(W::bostan_mori(W(l), Q, K + i) == w[i], "bostan_mori, exponents beyond 2^40"); }); }
MC_MAIN
