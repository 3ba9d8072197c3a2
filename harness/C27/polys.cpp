// mc: flags='-O1'
// Algorithms on polynomials: evaluation, interpolation, shifts, composition, gcd, rational functions, rook polynomials.
#include "mc.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/lagrange_interpolation.hpp"
#include "library/polynomial/convert_to_newton_basis.hpp"
#include "library/polynomial/shift_of_sampling_points.hpp"
#include "library/polynomial/rook_polynomial.hpp"
#include "library/polynomial/subset_sum.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using ll = long long; using V = std::vector<mint>;
using A = FormalPowerSeries<mint>; using B = FPS<mint>;
static V conv(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
static mint at(const V& a, int i) { return i < (int)a.size() ? a[i] : mint(0); }
template <class T> V vec(const T& f) { return V(f.begin(), f.end()); }
static V trim(V a) { while (a.size() && a.back() == 0) a.pop_back(); return a; }
static V cut(V a, int n) { a.resize(n); return a; }
static mint ev(const V& f, mint x) { mint y = 0; for (int i = (int)f.size() - 1; i >= 0; --i) y = y * x + f[i]; return y; }
static std::string sh(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 12; ++i) { int x = v[i].val(); s += std::to_string(x > 499122176 ? x - 998244353 : x) + " "; } return s + (v.size() > 12 ? "... n=" + std::to_string(v.size()) : "") + "]"; }
static V pool(int len, int kind) { V f(len); for (int i = 0; i < len; ++i) switch (kind) { case 0: f[i] = (i * 7919LL + 13) * (i + 5) % 1000003; break; case 1: f[i] = i % 5 == 0 ? i + 1 : 0; break; case 2: f[i] = -1; break; case 3: f[i] = (i == 0 || i == len - 1) ? 3 : 0; break; case 4: f[i] = 0; break; } return f; }
static void setB() { B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); }); }
static const int AL[] = {0, 1, -1, 2};
static V vecof(mc::Chooser& c, int lo, int hi, int k = 4) { int m = c.range(lo, hi); V f(m); for (auto& x : f) x = AL[c.choose(k)]; return f; }

template <class T> void mpe(const V& f, const V& xs, const char* nm) { auto ys = multi_point_eval(T(f), xs); MC_EQ(ys.size(), xs.size(), "size"); for (size_t i = 0; i < xs.size(); ++i) MC_CHECK(ys[i] == ev(f, xs[i]), std::string("multi_point_eval ") + nm + " f=" + sh(f) + " xs=" + sh(xs)); mc::step(); }
MC_GROUP(multi_point) { mc::bound("multi_point_eval: all f (len<=4) over {0,1,-1,2} x all point lists of length <=3 over {0,1,2} (repeats); shapes with degree and point counts around 1,2,60..66,100 incl. more points than coefficients"); setB();
    mc::explore([&](mc::Chooser& c) { V f = vecof(c, 0, 4); int n = c.range(0, 3); V xs(n); for (auto& x : xs) x = c.choose(3); mpe<A>(f, xs, "A"); mpe<B>(f, xs, "B"); });
    for (int n : {1, 2, 3, 5, 60, 61, 63, 65, 100}) for (int m : {1, 2, 3, 7, 60, 62, 64, 65, 120}) for (int k = 0; k < 5; ++k) for (int rep = 0; rep < 2; ++rep) { MC_CASE(n, m, k, rep); V xs(m); for (int i = 0; i < m; ++i) xs[i] = rep ? i / 2 : i * 1000003LL - 5; mpe<A>(pool(n, k), xs, "A"); mpe<B>(pool(n, k), xs, "B"); } }
template <class T> void interp(const V& xs, const V& ys, const char* nm) { V f = vec(polynomial_interpolation<T>(xs, ys)); MC_CHECK(trim(f).size() <= xs.size(), "degree < n"); for (size_t i = 0; i < xs.size(); ++i) MC_CHECK(ev(f, xs[i]) == ys[i], std::string("interpolation ") + nm + " xs=" + sh(xs) + " ys=" + sh(ys)); mc::step(); }
MC_GROUP(interpolation) { mc::bound("polynomial_interpolation / lagrange_interpolation (naive, FPS, arithmetic progression): all ordered lists of <=4 distinct nodes of {0..4} and all values over {0,1,-1}, evaluation points on and off the nodes; larger n 59..130; zero ys"); setB();
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4); V xs, ys; for (int i = 0; i < n; ++i) { int x = c.choose(5); for (auto& y : xs) if (y == x) return; xs.push_back(x); } for (int i = 0; i < n; ++i) ys.push_back(AL[c.choose(3)]); interp<A>(xs, ys, "A"); interp<B>(xs, ys, "B");
        if (n) { V f = vec(polynomial_interpolation<A>(xs, ys)); for (int t = -1; t <= 5; ++t) { mint w = ev(f, t); MC_CHECK(lagrange_interpolation_naive(xs, ys, mint(t)) == w, "lagrange naive"); MC_CHECK((lagrange_interpolation<A>(xs, ys, mint(t)) == w), "lagrange A"); MC_CHECK((lagrange_interpolation<B>(xs, ys, mint(t)) == w), "lagrange B"); mc::step(); } } });
    mc::explore([&](mc::Chooser& c) { V ys = vecof(c, 1, 5, 3); int a = AL[1 + c.choose(3)], b = c.range(-2, 2); int n = ys.size(); V xs; for (int i = 0; i < n; ++i) xs.push_back(mint(a) * i + b); for (int t = -3; t <= 12; ++t) { mint w = lagrange_interpolation_naive(xs, ys, mint(t)); MC_CHECK(lagrange_interpolation_arithmetic_progression(mint(a), mint(b), ys, mint(t)) == w, "arithmetic progression"); if (a == 1 && b == 0) MC_CHECK(lagrange_interpolation_arithmetic_progression(ys, mint(t)) == w, "0,1,2.."); mc::step(); } });
    for (int n : {1, 2, 59, 60, 61, 64, 65, 128, 130}) for (int k = 0; k < 5; ++k) for (int ap = 0; ap < 2; ++ap) { MC_CASE(n, k, ap); V xs(n); for (int i = 0; i < n; ++i) xs[i] = ap ? mint(i) : mint(i) * 1000003 - 7; V ys = pool(n, k); interp<A>(xs, ys, "A"); interp<B>(xs, ys, "B"); V f = vec(polynomial_interpolation<A>(xs, ys)); for (mint t : {xs[0], xs[n / 2], xs[n - 1], mint(12345), mint(-1)}) { MC_CHECK((lagrange_interpolation<A>(xs, ys, t) == ev(f, t)), "lagrange big"); MC_CHECK(lagrange_interpolation_naive(xs, ys, t) == ev(f, t), "lagrange naive big"); if (ap) MC_CHECK(lagrange_interpolation_arithmetic_progression(ys, t) == ev(f, t), "ap big"); } } }
template <class T> void shift(const V& f, mint c0) { T F(f); V g = vec(translate(F, c0)); V w; { V p{1}; w.assign(std::max<size_t>(1, f.size()), 0); for (auto& a : f) { for (size_t i = 0; i < p.size(); ++i) w[i] += a * p[i]; p = conv(p, V{c0, 1}); } } MC_CHECK(trim(g) == trim(w), "f(x+c) f=" + sh(f)); mc::step(); }
MC_GROUP(taylor_shift) { mc::bound("translate: all f of length <=5 over {0,1,-1,2}, c in -3..3 and large; lengths 59..130"); setB();
    mc::explore([&](mc::Chooser& c) { V f = vecof(c, 0, 5); for (ll x : {-3LL, -1LL, 0LL, 1LL, 2LL, 998244352LL, 123456789LL}) { shift<A>(f, x); shift<B>(f, x); } });
    for (int n : {59, 60, 61, 64, 65, 128, 130}) for (int k = 0; k < 5; ++k) for (int x : {0, 1, -1, 1000003}) { MC_CASE(n, k, x); shift<A>(pool(n, k), x); shift<B>(pool(n, k), x); } }
MC_GROUP(newton_basis) { mc::bound("convert_to_newton_basis: all f of length <=4 over {0,1,-1,2}, all node lists over {0,1,2} (repeats allowed); lengths 59..100"); setB();
    auto chk = [&](const V& f, const V& p) { for (int t = 0; t < 2; ++t) { V b = t ? convert_to_newton_basis(B(f), p) : convert_to_newton_basis(A(f), p); MC_EQ(b.size(), f.size(), "size"); V w(f.size() + 1), q{1}; for (size_t i = 0; i < b.size(); ++i) { for (size_t j = 0; j < q.size(); ++j) w[j] += b[i] * q[j]; q = conv(q, V{-p[i], 1}); } MC_CHECK(trim(w) == trim(f), "newton basis f=" + sh(f) + " p=" + sh(p)); mc::step(); } };
    mc::explore([&](mc::Chooser& c) { V f = vecof(c, 0, 4), p(f.size()); for (auto& x : p) x = c.choose(3); chk(f, p); });
    for (int n : {5, 7, 8, 9, 59, 64, 65, 100, 130}) for (int k = 0; k < 5; ++k) for (int r = 0; r < 2; ++r) { MC_CASE(n, k, r); V p(n); for (int i = 0; i < n; ++i) p[i] = r ? i / 3 : i * 7919LL; chk(pool(n, k), p); } }
MC_GROUP(sampling_shift) { mc::bound("shift_of_sampling_points: all ys of length <=4 over {0,1,-1,2}, t in -6..8 (overlapping and disjoint), m 0..6; lengths 59..130; user-supplied convolution");
    auto chk = [&](const V& ys, mint t, int m) { V r = shift_of_sampling_points(ys, t, m), r2 = shift_of_sampling_points(ys, t, m, [](const V& a, const V& b) { return conv(a, b); }); MC_EQ((int)r.size(), m, "size"); int n = ys.size(); for (int i = 0; i < m; ++i) { mint w = 0; if (n) { V xs(n); for (int j = 0; j < n; ++j) xs[j] = j; w = lagrange_interpolation_naive(xs, ys, t + i); } MC_CHECK(r[i] == w, "f(t+i)"); } MC_CHECK(r == r2, "custom convolution"); mc::step(); };
    mc::explore([&](mc::Chooser& c) { V ys = vecof(c, 0, 4); for (int t = -6; t <= 8; t += 2) for (int m : {0, 1, 3, 6}) chk(ys, t, m); });
    for (int n : {1, 59, 60, 64, 65}) for (int m : {1, 20, 60, 90}) for (int k = 0; k < 4; ++k) for (int t : {0, 5, -30, 1000000}) { MC_CASE(n, m, k, t); chk(pool(n, k), t, m); } }
// rook numbers by explicit recursion over columns; rooks in one row attack each other only along contiguous board cells
static V rook(const std::vector<int>& h) { int n = h.size(); V r(n + 1); std::vector<int> at(n, -1); std::function<void(int, int)> go = [&](int i, int k) { if (i == n) { r[k] += 1; return; } go(i + 1, k); for (int y = 0; y < h[i]; ++y) { bool ok = true; for (int j = i - 1; j >= 0 && h[j] > y; --j) if (at[j] == y) ok = false; if (ok) { at[i] = y; go(i + 1, k + 1); at[i] = -1; } } }; go(0, 0); return r; }
MC_GROUP(rook) { mc::bound("rook polynomials of every Ferrers board and every skyline board with <=5 columns of height <=4 against direct placement counting"); setB();
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(4, 5)); std::vector<int> h(n); for (auto& x : h) x = c.choose(5); V w = rook(h); MC_CHECK(trim(vec(rook_polynomial_skyline_board<A>(h))) == trim(w), "skyline A"); MC_CHECK(trim(vec(rook_polynomial_skyline_board<B>(h))) == trim(w), "skyline B"); if (std::is_sorted(h.begin(), h.end())) { MC_CHECK(trim(vec(rook_polynomial_ferrers_board<A>(h))) == trim(w), "ferrers A"); MC_CHECK(trim(vec(rook_polynomial_ferrers_board<B>(h))) == trim(w), "ferrers B"); } mc::step(); });
    // wide boards: column-by-column recurrence on sorted heights
    for (int n : {6, 10, 59, 61, 64, 65}) for (int k = 0; k < 3; ++k) { MC_CASE(n, k); std::vector<int> h(n); for (int i = 0; i < n; ++i) h[i] = k == 0 ? n : k == 1 ? i + 1 : (i * 3) / 2; V w{1}; for (int i = 0; i < n; ++i) { V v(w.size() + 1); for (size_t j = 0; j < w.size(); ++j) { v[j] += w[j]; v[j + 1] += w[j] * std::max(0, h[i] - (int)j); } w = v; } MC_CHECK(trim(vec(rook_polynomial_ferrers_board<A>(h))) == trim(w), "ferrers wide"); auto h2 = h; std::reverse(h2.begin(), h2.end()); MC_CHECK(trim(vec(rook_polynomial_skyline_board<A>(h2))) == trim(w), "skyline wide (reversed)"); mc::step(); } }
MC_GROUP(subset_sums) { mc::bound("subset_sum: all multisets of <=5 items of 0..6 with n 0..8; 130-item shapes with n 58..130"); setB();
    auto chk = [&](int n, const std::vector<int>& it) { V w(n + 1); w[0] = 1; for (int e : it) { V v = w; for (int i = 0; i + e <= n; ++i) v[i + e] += w[i]; w = v; } MC_CHECK(subset_sum<A>(n, it) == w, "subset_sum A"); MC_CHECK(subset_sum<B>(n, it) == w, "subset_sum B"); mc::step(); };
    mc::explore([&](mc::Chooser& c) { int k = c.range(0, 5), lo = 0; std::vector<int> it; for (int i = 0; i < k; ++i) it.push_back(lo = c.range(lo, 6)); for (int n = 0; n <= 8; ++n) chk(n, it); });
    for (int n : {58, 59, 60, 61, 64, 65, 130}) for (int k = 0; k < 4; ++k) { MC_CASE(n, k); std::vector<int> it; for (int i = 0; i < 130; ++i) it.push_back(k == 0 ? i : k == 1 ? 1 : k == 2 ? n - i % 3 : 7 * i % 20 + 1); chk(n, it); } }
template <class T> void prk(const V& f, mint r, int m, int n) { T F(f); V w{1}; int N = n < 0 ? (int)f.size() : n; w.resize(N); mint p = 1; for (int k = 0; k < m; ++k, p *= r) { V g = f; mint q = 1; for (auto& x : g) x *= q, q *= p; w = cut(conv(w, g), N); } V g = vec(prod_f_rk_x(F, r, m, n)); MC_CHECK(g == w, "prod f(r^k x) f=" + sh(f) + " r=" + std::to_string(r.val()) + " m=" + std::to_string(m) + " n=" + std::to_string(n) + " got " + sh(g) + " want " + sh(w)); mc::step(); }
MC_GROUP(prod_rk) { mc::bound("prod_f_rk_x: all f of length 1..4 over {0,1,-1,2}, r in {0,1,-1,2,4th root of unity, 8th root}, m 0..4, result sizes 1..6 and default; sparse and dense shapes of 59..130 terms"); setB(); mint i4 = mint(3).pow((998244353 - 1) / 4), i8 = mint(3).pow((998244353 - 1) / 8);
    mc::explore([&](mc::Chooser& c) { V f = vecof(c, 1, 4); mint r = c.pick(V{0, 1, -1, 2, i4, i8}); for (int m = 0; m <= 4; ++m) for (int n : {-1, 1, 2, 3, 4, 6}) { prk<A>(f, r, m, n); prk<B>(f, r, m, n); } });
    for (int n : {59, 60, 64, 65, 100}) for (int k = 0; k < 4; ++k) for (int z : {0, 1, 3}) for (int m : {1, 2, 3, 7, 25}) for (int ri = 0; ri < 5; ++ri) { MC_CASE(n, k, z, m, ri); V f = pool(n, k); for (int i = 0; i < z; ++i) f[i] = 0; V rs{0, -1, 2, i4, 1}; prk<A>(f, rs[ri], m, -1); prk<A>(f, rs[ri], m, n / 2 + 5); } }
MC_MAIN
