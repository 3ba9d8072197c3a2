// mc: flags='-O2'
// Series and polynomial algorithms at 1000..70001 terms: closed forms and defining identities (products by the reference transform).
#include "mc.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/shift_of_sampling_points.hpp"
#include "library/polynomial/subset_sum.hpp"
using namespace suisen; using mint = atcoder::modint998244353; using ll = long long; using V = std::vector<mint>;
using A = FormalPowerSeries<mint>; using B = FPS<mint>;
template <class T> V vec(const T& f) { return V(f.begin(), f.end()); }
static V mul(const V& a, const V& b, int n) { V c = atcoder::convolution(a, b); c.resize(n); return c; }
static V diff(const V& f) { V r; for (size_t i = 1; i < f.size(); ++i) r.push_back(f[i] * mint((ll)i)); return r; }
static V pool(int n) { V f(n); for (int i = 0; i < n; ++i) f[i] = mint((i * 7919LL + 13) % 1000003) * (i + 5); return f; }
static V unit(int n) { V e(n); e[0] = 1; return e; }
template <class T> static void ladder(int n) {
    MC_CASE(n); V f = pool(n); f[0] = 1; V u = f; u[0] = 0; V inv(n + 1), fac(n + 1, 1), ifac(n + 1, 1); for (int i = 1; i <= n; ++i) inv[i] = mint(i).inv(), fac[i] = fac[i - 1] * i, ifac[i] = ifac[i - 1] * inv[i];
    V fib(n); fib[0] = 1; for (int i = 1; i < n; ++i) fib[i] = fib[i - 1] + (i > 1 ? fib[i - 2] : mint(0)); MC_CHECK(vec(T(V{ 1, -1, -1 }).inv(n)) == fib, "1/(1-x-x^2)"); mc::step();
    MC_CHECK(mul(vec(T(f).inv(n)), f, n) == unit(n), "inverse"); mc::step();
    V ex = vec(T(V{ 0, 1 }).exp(n)); V w(ifac.begin(), ifac.begin() + n); MC_CHECK(ex == w, "exp(x)"); V ge(n, 1), lg = vec(T(ge).log(n)); for (int i = 1; i < n; ++i) MC_CHECK(lg[i] == inv[i], "log 1/(1-x), term " << i); mc::step();
    V e = vec(T(u).exp(n)); MC_CHECK(e[0] == 1 && mul(diff(u), e, n - 1) == diff(e), "exp"); V l = vec(T(f).log(n)); MC_CHECK(l[0] == 0 && mul(diff(l), f, n - 1) == diff(f), "log"); mc::step();
    for (ll k : { 2LL, 3LL, 1000000006LL, 1000000000000000000LL }) { V p = vec(T(f).pow(k, n)); V l2 = mul(f, diff(p), n - 1), r = mul(diff(f), p, n - 1); for (auto& x : r) x *= k; MC_CHECK(p[0] == 1 && l2 == r, "pow " << k); mc::step(); }
    { V s = mul(f, f, n); auto q = T(s).sqrt(n); V g = vec(q); MC_CHECK(g == f || mul(g, g, n) == s, "sqrt of a square"); mc::step(); }
    { V z(n); for (int i = n / 3; i < n; ++i) z[i] = f[i - n / 3]; V p = vec(T(z).pow(2, n)); MC_CHECK(p == mul(z, z, n), "pow with leading zeros"); V b = vec(T(V{ 1, 1 }).pow(n - 1, n)); for (int i = 0; i < n; ++i) MC_CHECK(b[i] == fac[n - 1] * ifac[i] * ifac[n - 1 - i], "binomial row, term " << i); mc::step(); }
    { V g = pool(n / 2 + 1); V q = T(f).div_mod(T(g)).first, r = T(f).div_mod(T(g)).second; MC_CHECK((int)r.size() < (int)g.size() || [&] { for (size_t i = g.size() - 1; i < r.size(); ++i) if (r[i] != 0) return false; return true; }(), "degree of the remainder"); V s = atcoder::convolution(q, g); s.resize(std::max(s.size(), f.size())); for (size_t i = 0; i < r.size(); ++i) s[i] += r[i]; V t = f; t.resize(s.size()); MC_CHECK(s == t, "f = qg + r"); mc::step(); }
    { V x(n); x[n - 1] = 1; V g = vec(translate(T(x), mint(3))); mint p = 1; for (int i = n; i-- > 0; p *= 3) MC_CHECK(i < (int)g.size() && g[i] == fac[n - 1] * ifac[i] * ifac[n - 1 - i] * p, "(x+3)^(n-1), term " << i); mc::step(); }
}
MC_GROUP(series_ladder) {
    mc::bound("n in {1000,1023,1024,1025,2047,2049,4097,8191,16385} (thorough also 32769, 65537, 70001): inverse, exp, log, pow (exponents up to 10^18), sqrt, division, Taylor shift: closed forms and defining identities on every coefficient, both series types");
    B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); }); std::vector<int> ns{ 1000, 1023, 1024, 1025, 2047, 2049, 4097, 8191, 16385 }; if (mc::T(0, 1)) ns.insert(ns.end(), { 32769, 65537, 70001 });
    for (int n : ns) { ladder<A>(n); if (n < 5000 || mc::T(0, 1)) ladder<B>(n); }
}
MC_GROUP(points_ladder) {
    mc::bound("n coefficients and m points, n,m in {1000,1024,1025,2049} (thorough 5000): multipoint evaluation against Horner, interpolation recovers the polynomial, n-th term of order-n recurrences, sampling-point shift, subset sums");
    B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); }); std::vector<int> ns{ 1000, 1024, 1025, 2049 }; if (mc::T(0, 1)) ns.push_back(5000);
    auto ev = [](const V& f, mint x) { mint y = 0; for (int i = (int)f.size() - 1; i >= 0; --i) y = y * x + f[i]; return y; };
    for (int n : ns) for (int m : ns) { MC_CASE(n, m); V f = pool(n), xs(m); for (int i = 0; i < m; ++i) xs[i] = mint(i) * 1000003 - 7; V w(m); for (int i = 0; i < m; ++i) w[i] = ev(f, xs[i]); MC_CHECK(vec(multi_point_eval(A(f), xs)) == w, "multi_point_eval"); MC_CHECK(vec(multi_point_eval(B(f), xs)) == w, "multi_point_eval (FPS)"); if (n == m) { V g = vec(polynomial_interpolation<A>(xs, w)); g.resize(n); MC_CHECK(g == f, "interpolation"); } mc::step(); }
    for (int d : ns) { MC_CASE(d, -1); V P = pool(d), Q = pool(d + 1); Q[0] = 1; int N = 2 * d + 77; V w; for (int i = 0; i <= N; ++i) { mint v = i < d ? P[i] : mint(0); for (int j = 1; j <= d && j <= i; ++j) v -= Q[j] * w[i - j]; w.push_back(v); } for (int n : { d - 1, d, d + 1, N }) { MC_CHECK((bostan_mori(A(P), A(Q), n) == w[n]), "bostan_mori, n=" << n); mc::step(); }
        V ys(d), f = pool(5); for (int i = 0; i < d; ++i) ys[i] = ev(f, i); for (ll t : { (ll)d / 2, (ll)d, 5LL * d + 3, 900000000LL }) { V z = shift_of_sampling_points<mint>(ys, mint(t), d + 5); for (int i = 0; i < d + 5; ++i) MC_CHECK(z[i] == ev(f, mint(t + i)), "sampling points from " << t << " at " << i); mc::step(); } }
}
#include "library/polynomial/array_fps_naive.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
template <int N> static void array_pow() { using R = ArrayFPSNaive<mint, N>; mc::explore([&](mc::Chooser& c) { R f; int i = 0; for (auto& x : f) { (void)i; x = c.choose(3) - 1; } for (ll K : { (1LL << 33) + 5, 1000000000000000000LL }) { V w(N), b(N); w[0] = 1; for (int j = 0; j < N; ++j) b[j] = f[j]; auto m = [&](const V& x, const V& y) { V z(N); for (int p = 0; p < N; ++p) for (int q = 0; p + q < N; ++q) z[p + q] += x[p] * y[q]; return z; }; for (ll k = K; k; k >>= 1) { if (k & 1) w = m(w, b); b = m(b, b); } auto g = f.pow(K); for (int j = 0; j < N; ++j) MC_CHECK(g[j] == w[j], "ArrayFPSNaive pow " << K << " term " << j); } mc::step(); }); }
MC_GROUP(wide_exponents) { mc::bound("ArrayFPSNaive<1..4>::pow with exponents 2^33+5 and 10^18 on every series over {-1,0,1}; prod_f_rk_x of monomials with 46341, 65537 and 70000 factors"); array_pow<1>(); array_pow<2>(); array_pow<3>(); array_pow<4>();
    B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); });
    for (int m : { 46341, 65537, 70000 }) for (ll r : { 1LL, 3LL, 998244352LL, 123456789LL }) { MC_CASE(m, r); V g = vec(prod_f_rk_x(A(V{ 0, 7 }), mint(r), m, m + 2)); mint w = mint(7).pow(m) * mint(r).pow((ll)m * (m - 1) / 2); MC_EQ((int)g.size(), m + 2, "size"); for (int i = 0; i < m + 2; ++i) MC_CHECK(g[i] == (i == m ? w : mint(0)), "product of monomials, term " << i); mc::step(); } }
MC_MAIN
