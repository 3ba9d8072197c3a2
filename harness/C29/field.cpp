// mc: flags='-O1'
// Matrices over prime fields / composite moduli / floating point, elimination, characteristic polynomials, determinants-based counts.
#include "mc.hpp"
#include <atcoder/modint>
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/hessenberg_reduction.hpp"
#include "library/linear_algebra/characteristic_polynomial.hpp"
#include "library/linear_algebra/count_spanning_trees.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/hafnian.hpp"
#include <numeric>
using namespace suisen;
using ll = long long; using IM = std::vector<std::vector<int>>; using IV = std::vector<int>;
static int md(ll x, int p) { x %= p; return x < 0 ? x + p : x; }
static IM mulo(const IM& a, const IM& b, int l, int p) { IM c(a.size(), IV(l, 0)); for (size_t i = 0; i < a.size(); ++i) for (int k = 0; k < l; ++k) { ll s = 0; for (size_t j = 0; j < b.size(); ++j) s += (ll)a[i][j] * b[j][k]; c[i][k] = md(s, p); } return c; }
// determinant by permutation expansion (any modulus)
static int deto(const IM& a, int p) { int n = a.size(); IV pr(n); std::iota(pr.begin(), pr.end(), 0); ll s = 0; do { int inv = 0; ll t = 1; for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) inv += pr[j] > pr[i]; t = t * a[i][pr[i]] % p; } s += inv & 1 ? p - t : t; } while (std::next_permutation(pr.begin(), pr.end())); return md(s, p); }
// characteristic polynomial det(xI - A) by permutation expansion over polynomials
static IV charo(const IM& a, int p) { int n = a.size(); IV pr(n); std::iota(pr.begin(), pr.end(), 0); IV s(n + 1, 0); do { int inv = 0; IV t{1}; for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) inv += pr[j] > pr[i]; IV u(t.size() + 1, 0); for (size_t k = 0; k < t.size(); ++k) { u[k] = md(u[k] - (ll)t[k] * a[i][pr[i]], p); if (pr[i] == i) u[k + 1] = md(u[k + 1] + t[k], p); } t = u; } for (int k = 0; k <= n && k < (int)t.size(); ++k) s[k] = md(s[k] + (inv & 1 ? -t[k] : t[k]), p); } while (std::next_permutation(pr.begin(), pr.end())); return s; }
static int ranko(IM a, int m, int p) { int r = 0, n = a.size(); for (int j = 0; j < m && r < n; ++j) { int q = -1; for (int i = r; i < n; ++i) if (a[i][j]) { q = i; break; } if (q < 0) continue; std::swap(a[q], a[r]); int iv = 1; while (iv * a[r][j] % p != 1) ++iv; for (int i = r + 1; i < n; ++i) { int f = a[i][j] * iv % p; for (int k = 0; k < m; ++k) a[i][k] = md(a[i][k] - (ll)f * a[r][k], p); } ++r; } return r; }
static IM gen(mc::Chooser& c, int n, int m, int p) { IM a(n, IV(m)); for (auto& r : a) for (int& x : r) x = c.choose(p); return a; }
template <class M> Matrix<M> mk(const IM& a, int m) { Matrix<M> A((int)a.size(), m); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < m; ++j) A[i][j] = a[i][j]; return A; }
template <class M> IM un(const Matrix<M>& A) { IM a(A.row_size(), IV(A.col_size())); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) a[i][j] = A[i][j].val(); return a; }
template <class M, size_t N, size_t K> ArrayMatrix<M, N, K> mka(const IM& a) { ArrayMatrix<M, N, K> A; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < K; ++j) A[i][j] = a[i][j]; return A; }
template <class M, size_t N, size_t K> IM una(const ArrayMatrix<M, N, K>& A) { IM a(N, IV(K)); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < K; ++j) a[i][j] = A[i][j].val(); return a; }
static IM idn(int n) { IM a(n, IV(n, 0)); for (int i = 0; i < n; ++i) a[i][i] = 1; return a; }
template <int P, int N, bool FULL> void square(mc::Chooser& c) {
    using M = atcoder::static_modint<P>; IM a(N, IV(N)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a[i][j] = N == 4 && !mc::thorough() && i == 3 && j < 2 ? 0 : c.choose(P); const Matrix<M> A = mk<M>(a, N); const auto AA = mka<M, N, N>(a);
    int d = deto(a, P); MC_EQ((int)A.det().val(), d, "det"); MC_EQ((int)AA.det().val(), d, "array det"); MC_EQ((int)A.det_arbitrary_mod().val(), d, "det_arbitrary_mod"); MC_EQ((int)AA.det_arbitrary_mod().val(), d, "array det_arbitrary_mod");
    auto iv = A.safe_inv(); auto ia = AA.safe_inv(); MC_EQ(bool(iv), d != 0, "inverse exists iff det != 0"); MC_EQ(bool(ia), d != 0, "array inverse exists");
    if (iv) { IM b = un(*iv); MC_CHECK(mulo(a, b, N, P) == idn(N) && mulo(b, a, N, P) == idn(N), "inverse"); MC_CHECK(una(*ia) == b, "array inverse"); MC_CHECK(un(A.inv()) == b && una(AA.inv()) == b, "inv()"); MC_CHECK(un(M(2) / A) == un(M(2) * *iv), "scalar/matrix"); MC_CHECK(una(M(2) / AA) == un(M(2) * *iv), "array scalar/matrix"); MC_CHECK(un(A / A) == idn(N) && una(AA / AA) == idn(N), "A/A"); auto B = A; B /= A; MC_CHECK(un(B) == idn(N), "A/=A"); auto BB = AA; BB /= AA; MC_CHECK(una(BB) == idn(N), "array A/=A"); }
    auto cp = characteristic_polynomial(A); IV w = charo(a, P), g; for (auto x : cp) g.push_back(x.val()); MC_EQ(g, w, "characteristic polynomial");
    IM h = un(hessenberg_reduction(A)); for (int i = 0; i < N; ++i) for (int j = 0; j + 1 < i; ++j) MC_CHECK(h[i][j] == 0, "hessenberg shape"); MC_EQ(charo(h, P), w, "hessenberg: characteristic polynomial");
    if (FULL) { int cnt = 1; for (int i = 0; i < N; ++i) cnt *= P; for (int f = 0; f < cnt; ++f) { auto ev = [&](const IM& x) { IM s = idn(N); int t = f; for (int i = 0; i < N; ++i, t /= P) { s = mulo(s, x, N, P); for (int j = 0; j < N; ++j) s[j][j] = (s[j][j] + t % P) % P; } return ranko(s, N, P); }; MC_EQ(ev(h), ev(a), "hessenberg: similar (rank of every monic polynomial of degree n)"); } }
    IM pw = idn(N); for (int e = 0; e <= 5; ++e) { MC_CHECK(un(A.pow(e)) == pw, "pow"); MC_CHECK(una(AA.pow(e)) == pw, "array pow"); pw = mulo(pw, a, N, P); }
    MC_CHECK(un(Matrix<M>::e1(N)) == idn(N) && un(Matrix<M>::e0(N)) == IM(N, IV(N, 0)), "e0/e1"); mc::step(3); mc::outcome(d); }
MC_GROUP(square2) { mc::bound("every 1x1 and 2x2 matrix over Z_2,Z_3,Z_5,Z_7: det, inverse, char. polynomial, Hessenberg form (similarity by ranks of all monic polynomials), powers 0..5, for Matrix and ArrayMatrix"); mc::explore([&](mc::Chooser& c) { switch (c.choose(6)) { case 0: square<2, 2, true>(c); break; case 1: square<3, 2, true>(c); break; case 2: square<5, 2, true>(c); break; case 3: square<7, 2, true>(c); break; case 4: square<3, 1, true>(c); break; default: square<7, 1, true>(c); } }); }
MC_GROUP(square3) { mc::bound("every 3x3 matrix over Z_2 and Z_3 (thorough: similarity too)"); mc::explore([&](mc::Chooser& c) { if (mc::thorough()) c.flag() ? square<2, 3, true>(c) : square<3, 3, true>(c); else c.flag() ? square<2, 3, true>(c) : square<3, 3, false>(c); }); }
MC_GROUP(square4) { mc::bound("4x4 matrices over Z_2 (quick: two entries fixed to 0; thorough all 2^16 with similarity)"); mc::explore([&](mc::Chooser& c) { if (mc::thorough()) square<2, 4, true>(c); else square<2, 4, false>(c); }); }
template <int P, int N> void comp(mc::Chooser& c, const IV& vals) { using M = atcoder::static_modint<P>; IM a(N, IV(N)); for (auto& r : a) for (int& x : r) x = c.pick(vals); int d = deto(a, P); MC_EQ((int)mk<M>(a, N).det_arbitrary_mod().val(), d, "det_arbitrary_mod"); auto AA = mka<M, N, N>(a); MC_EQ((int)AA.det_arbitrary_mod().val(), d, "array det_arbitrary_mod"); mc::step(); mc::outcome(d); }
MC_GROUP(composite_det) { mc::bound("det_arbitrary_mod modulo 4, 6, 12 and 1000000000-type moduli: every 2x2 over Z_4,Z_6,Z_12; 3x3 over all residues mod 4 and selected residues mod 6 and 12"); mc::explore([&](mc::Chooser& c) { switch (c.choose(6)) { case 0: comp<4, 2>(c, {0, 1, 2, 3}); break; case 1: comp<6, 2>(c, {0, 1, 2, 3, 4, 5}); break; case 2: comp<12, 2>(c, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}); break; case 3: comp<6, 3>(c, mc::thorough() ? IV{0, 2, 3, 5} : IV{0, 2, 3}); break; case 4: comp<12, 3>(c, {0, 8, 9}); break; default: comp<4, 3>(c, mc::thorough() ? IV{0, 1, 2, 3} : IV{0, 2, 3}); } }); }
template <size_t N, size_t K, size_t L> void prod(mc::Chooser& c) { constexpr int P = 3; using M = atcoder::static_modint<P>; IM a = gen(c, N, K, P), b = gen(c, K, L, P); auto A = mk<M>(a, K), B = mk<M>(b, L); auto X = mka<M, N, K>(a); auto Y = mka<M, K, L>(b); IM w = mulo(a, b, L, P);
    MC_CHECK(un(A * B) == w, "product"); MC_CHECK(una(X * Y) == w, "array product"); std::vector<M> x(K); std::array<M, K> xa; for (size_t j = 0; j < K; ++j) x[j] = xa[j] = b[j][0]; auto y = A * x; auto ya = X * xa; for (size_t i = 0; i < N; ++i) MC_CHECK((int)y[i].val() == w[i][0] && (int)ya[i].val() == w[i][0], "matrix-vector"); MC_CHECK((int)y.size() == N, "vector length");
    auto sc = [&](int t) { IM r = a; for (auto& q : r) for (int& v : q) v = v * t % P; return r; }; for (int t = 0; t < P; ++t) { MC_CHECK(un(A * M(t)) == sc(t) && un(M(t) * A) == sc(t) && una(X * M(t)) == sc(t) && una(M(t) * X) == sc(t), "scalar product"); if (t) MC_CHECK(un((A * M(t)) / M(t)) == a && una((X * M(t)) / M(t)) == a, "scalar quotient"); }
    MC_CHECK(una(-X) == sc(2) && una(+X) == a, "unary"); MC_CHECK((un(A + A * M(2)) == sc(0) && un(A - A) == sc(0) && una(X + X) == sc(2) && una(X - X * M(2)) == sc(2)), "add/sub"); MC_CHECK((A.shape() == std::pair<int, int>(N, K) && X.shape() == A.shape() && X.row_size() == (int)N && X.col_size() == (int)K), "shape"); MC_CHECK((A == mk<M>(a, K)) && !(A != mk<M>(a, K)) && X == (mka<M, N, K>(a)), "equality"); mc::step(); }
MC_GROUP(products) { mc::bound("every pair of matrices over Z_3 with shapes (1,2,3) (2,2,2) (3,1,2) (2,3,1) (1,3,1) (2,1,2): products, matrix-vector, scalar and elementwise operations"); mc::explore([&](mc::Chooser& c) { switch (c.choose(6)) { case 0: prod<1, 2, 3>(c); break; case 1: prod<2, 2, 2>(c); break; case 2: prod<3, 1, 2>(c); break; case 3: prod<2, 3, 1>(c); break; case 4: prod<1, 3, 1>(c); break; default: prod<2, 1, 2>(c); } }); }
MC_GROUP(strassen) { mc::bound("products around and above the Strassen switch: every (n,m,l) in {69..73}^3 and {141,142,143}^3, thorough also one side {283,285}: distinct entries modulo 998244353"); using M = atcoder::modint998244353; auto one = [&](int n, int m, int l) { MC_CASE(n, m, l); Matrix<M> A(n, m), B(m, l), W(n, l); M x = 3; for (auto& r : A.dat) for (M& v : r) v = x, x = x * x + 7; for (auto& r : B.dat) for (M& v : r) v = x, x = x * x + 7; for (int i = 0; i < n; ++i) for (int k = 0; k < l; ++k) { unsigned long long s = 0; for (int j = 0; j < m; ++j) { s += (unsigned long long)A[i][j].val() * B[j][k].val(); if (s >> 63) s %= 998244353; } W[i][k] = s % 998244353; } MC_CHECK(A * B == W, "product"); if (n == m && m == l) { auto C = A; C *= C; MC_CHECK(C == A * A, "self product"); } mc::step(); };
    for (int n = 69; n <= 73; ++n) for (int m = 69; m <= 73; ++m) for (int l = 69; l <= 73; ++l) one(n, m, l); for (int n = 141; n <= 143; ++n) for (int m = 141; m <= 143; ++m) for (int l = 141; l <= 143; ++l) if (mc::thorough() || n + m + l >= 427 || n == m) one(n, m, l); for (int n : {1, 200}) { one(n, 71, 150); one(71, n, 150); one(150, 72, n); } if (mc::thorough()) { one(283, 285, 284); one(285, 285, 285); } }
// linear systems: solution set of every small system
template <int P, class T, template <class> class G> void sys(mc::Chooser& c, int n, int m) { IM a = gen(c, n, m, P); IV b(n); for (int& x : b) x = c.choose(P); std::vector<std::vector<T>> A(n, std::vector<T>(m)); std::vector<T> B(n); for (int i = 0; i < n; ++i) { B[i] = b[i]; for (int j = 0; j < m; ++j) A[i][j] = a[i][j]; }
    const G<T> g(A, B); std::set<IV> want; int tot = 1; for (int i = 0; i < m; ++i) tot *= P; for (int f = 0; f < tot; ++f) { IV x(m); int t = f; for (int& v : x) v = t % P, t /= P; bool ok = true; for (int i = 0; i < n && ok; ++i) { int s = 0; for (int j = 0; j < m; ++j) s += a[i][j] * x[j]; ok = s % P == b[i]; } if (ok) want.insert(x); }
    MC_EQ(g.has_solution(), !want.empty(), "has_solution"); MC_EQ(g.has_unique_solution(), want.size() == 1, "has_unique_solution"); MC_EQ(g.has_multiple_solutions(), want.size() > 1, "has_multiple_solutions"); auto s = g.get_solution(); MC_EQ(bool(s), !want.empty(), "get_solution"); auto val = [&](const T& v) -> int { if constexpr (std::is_integral_v<T>) return v; else return v.val(); };
    if (!s) { MC_EQ(g.dimension(), -1, "dimension of the empty set"); return; } MC_EQ((int)s->size(), m, "solution length"); int d = g.dimension(); MC_EQ((int)g.get_basis().size(), d, "basis size"); std::set<IV> got; int cm = 1; for (int i = 0; i < d; ++i) cm *= P; MC_EQ(cm, (int)want.size(), "dimension"); for (int f = 0; f < cm; ++f) { IV x(m); int t = f; for (int j = 0; j < m; ++j) x[j] = val((*s)[j]); for (int i = 0; i < d; ++i, t /= P) for (int j = 0; j < m; ++j) x[j] = (x[j] + t % P * val(g.get_basis()[i][j])) % P; got.insert(x); } MC_CHECK(got == want, "solution set"); mc::step(2); mc::outcome(d); }
template <class T> using GA = GaussianEliminationArithmetic<T>; template <class T> using GF = GaussianEliminationF2<T>;
MC_GROUP(systems) { mc::bound("solution sets of every linear system: Z_2 all n,m<=3 plus 2x4,4x2,3x4,4x3 (thorough 4x4) with int/bool-like/modint cells; Z_3 all shapes n,m<=3 with nm+n<=9 (thorough 3x3); Z_5 2x2; compared with all p^m vectors"); mc::explore([&](mc::Chooser& c) { switch (c.choose(4)) { case 0: { int n = c.range(1, 4), m = c.range(1, 4); if (n * m + n > mc::T(16, 20)) return; sys<2, int, GF>(c, n, m); break; } case 1: { int n = c.range(1, 3), m = c.range(1, 4); if (n * m + n > 12) return; if (c.flag()) sys<2, char, GF>(c, n, m); else sys<2, atcoder::static_modint<2>, GA>(c, n, m); break; } case 2: { int n = c.range(1, 4), m = c.range(1, 4); if (n * m + n > mc::T(9, 12)) return; sys<3, atcoder::static_modint<3>, GA>(c, n, m); break; } default: { int n = c.range(1, 2), m = c.range(1, 2); sys<5, atcoder::static_modint<5>, GA>(c, n, m); } } }); }
// floating point: exact rank over the rationals by integer elimination
static int rankq(std::vector<std::vector<ll>> a, int m) { int r = 0, n = a.size(); for (int j = 0; j < m && r < n; ++j) { int q = -1; for (int i = r; i < n; ++i) if (a[i][j]) { q = i; break; } if (q < 0) continue; std::swap(a[q], a[r]); for (int i = r + 1; i < n; ++i) { ll f = a[i][j], h = a[r][j]; for (int k = 0; k < m; ++k) a[i][k] = a[i][k] * h - f * a[r][k]; } ++r; } return r; }
template <class D> void fsys(mc::Chooser& c, int n, int m, const IV& vals) { std::vector<std::vector<ll>> a(n, std::vector<ll>(m)), e; std::vector<std::vector<D>> A(n, std::vector<D>(m)); std::vector<D> b(n); e = a; for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) A[i][j] = a[i][j] = c.pick(vals); b[i] = c.range(-1, 2); e[i] = a[i]; e[i].push_back((ll)b[i]); } GaussianEliminationArithmetic<D> g(A, b); int r = rankq(a, m), re = rankq(e, m + 1); MC_EQ(g.has_solution(), r == re, "has_solution"); if (r != re) return; MC_EQ(g.dimension(), m - r, "dimension"); auto s = *g.get_solution(); for (int i = 0; i < n; ++i) { D v = 0; for (int j = 0; j < m; ++j) v += A[i][j] * s[j]; MC_CHECK(std::abs(v - b[i]) < 1e-6, "solution"); for (auto& w : g.get_basis()) { D u = 0; for (int j = 0; j < m; ++j) u += A[i][j] * w[j]; MC_CHECK(std::abs(u) < 1e-6, "kernel vector"); } }
    if ((int)g.get_basis().size() == 1) { D mx = 0; for (D v : g.get_basis()[0]) mx = std::max(mx, std::abs(v)); MC_CHECK(mx > 1e-6, "kernel vector nonzero"); } else if (g.get_basis().size() == 2) { D mx = 0; auto& B = g.get_basis(); for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) mx = std::max(mx, std::abs(B[0][i] * B[1][j] - B[0][j] * B[1][i])); MC_CHECK(mx > 1e-6, "kernel independent"); } mc::step(); mc::outcome(r); }
MC_GROUP(float_systems) { mc::bound("double / long double systems: every shape n,m<=2 with entries in {-2..3}, 2x3, 3x2, 3x3 with entries {-1,0,3} and {0,1,2}: consistency, dimension, residuals, kernel"); mc::explore([&](mc::Chooser& c) { switch (c.choose(4)) { case 0: { int n = c.range(1, 2), m = c.range(1, 2); fsys<double>(c, n, m, {-2, -1, 0, 1, 3}); break; } case 1: fsys<double>(c, 2, 3, {-1, 0, 3}); break; case 2: fsys<long double>(c, 3, 2, {-1, 0, 3}); break; default: if (!mc::thorough()) fsys<double>(c, 3, 3, {0, 3}); else fsys<double>(c, 3, 3, {-1, 0, 3}); } });
    using D = double; mc::explore([&](mc::Chooser& c) { int n = c.range(1, 3); Matrix<D> A(n), B; std::vector<std::vector<ll>> a(n, std::vector<ll>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = a[i][j] = n == 3 ? c.range(0, 2) : c.range(-2, 3); IV pr(n); std::iota(pr.begin(), pr.end(), 0); ll d = 0; do { int in = 0; ll t = 1; for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) in += pr[j] > pr[i]; t *= a[i][pr[i]]; } d += in & 1 ? -t : t; } while (std::next_permutation(pr.begin(), pr.end())); MC_CHECK(std::abs(A.det() - d) < 1e-6, "double det"); if (d) { auto I = A * A.inv(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_CHECK(std::abs(I[i][j] - (i == j)) < 1e-6, "double inverse"); } }); }
MC_GROUP(spanning_trees) { mc::bound("count_spanning_trees: every edge sequence (ordered pairs, loops and multi-edges) on n<=4 vertices, length <=4 (thorough 5 for n<=3..4) against subset enumeration"); using M = atcoder::modint998244353; mc::explore([&](mc::Chooser& c) { int n = c.range(1, 4), k = c.range(0, n == 4 ? mc::T(4, 5) : n == 3 ? 5 : 4); std::vector<std::pair<int, int>> e(k); for (auto& [u, v] : e) u = c.choose(n), v = c.choose(n); int w = 0; for (int s = 0; s < 1 << k; ++s) if (__builtin_popcount(s) == n - 1) { IV p(n); std::iota(p.begin(), p.end(), 0); auto f = [&](int x) { while (p[x] != x) x = p[x]; return x; }; bool ok = true; for (int i = 0; i < k; ++i) if (s >> i & 1) { int a = f(e[i].first), b = f(e[i].second); if (a == b) ok = false; p[a] = b; } w += ok; } MC_EQ((int)(count_spanning_trees<M>(n, e).val()), w, "count"); mc::step(); mc::outcome(w); }); for (int n = 5; n <= 8; ++n) { MC_CASE(n); std::vector<std::pair<int, int>> e; M w = 1; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) e.emplace_back(j, i); for (int i = 0; i < n - 2; ++i) w *= n; MC_CHECK((count_spanning_trees<M>(n, e) == w), "Cayley"); } }
static std::vector<ll> cv(const std::vector<ll>& a, const std::vector<ll>& b) { if (a.empty() || b.empty()) return {}; std::vector<ll> r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
MC_GROUP(circulant) { mc::bound("every pair of circulant integer matrices of size 0..4 (entries -1..2): entries, products, matrix-vector, powers 0..5 against dense products"); using C = CirculantMatrix<ll>; C::set_multiplication(cv); auto dense = [&](const C& x) { int n = x.size(); std::vector<std::vector<ll>> r(n, std::vector<ll>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { r[i][j] = x.get(i, j); MC_CHECK((x[{i, j}] == r[i][j]), "operator[]"); } return r; };
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(3, 4)); std::vector<ll> a(n), b(n); for (auto& x : a) x = c.range(-1, 2); for (auto& x : b) x = c.range(-1, 2); C A(a), B(b); auto da = dense(A), db = dense(B); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_CHECK(da[i][j] == a[(i - j + n) % n], "layout"); auto mm = [&](const auto& x, const auto& y) { auto r = x; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { r[i][j] = 0; for (int k = 0; k < n; ++k) r[i][j] += x[i][k] * y[k][j]; } return r; }; MC_CHECK(dense(A * B) == mm(da, db), "product"); auto s = A; s *= B; MC_CHECK(dense(s) == mm(da, db), "*="); auto y = A * b; for (int i = 0; i < n; ++i) { ll t = 0; for (int k = 0; k < n; ++k) t += da[i][k] * b[k]; MC_CHECK(y[i] == t, "matrix-vector"); }
        auto P = dense(C::e1(n)); for (int e = 0; e <= 5; ++e) { MC_CHECK(dense(A.pow(e)) == P, "pow"); P = mm(P, da); } auto S = dense(A + B), D = dense(A - B), N = dense(-A), K = dense(3LL * A); auto t = A; t += B; t -= A; MC_CHECK(dense(t) == db, "+= -="); t *= 2LL; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_CHECK(S[i][j] == da[i][j] + db[i][j] && D[i][j] == da[i][j] - db[i][j] && N[i][j] == -da[i][j] && K[i][j] == 3 * da[i][j] && t.get(i, j) == 2 * db[i][j] && dense(C::e0(n))[i][j] == 0, "linear ops"); mc::step(); }); }
MC_GROUP(hafnian_) { mc::bound("hafnian: n=0, every symmetric matrix over {0,1,2} with n=4, every graph (0/1) on 6 vertices, n=8 and 10 with distinct entries and each of the 105 perfect matchings of 8, arbitrary diagonals, against matching enumeration"); using M = atcoder::modint998244353; struct F { static M haf(const std::vector<std::vector<M>>& a, unsigned rest) { if (!rest) return 1; int i = __builtin_ctz(rest); rest &= rest - 1; M s = 0; for (unsigned t = rest; t; t &= t - 1) { int j = __builtin_ctz(t); if (a[i][j].val()) s += a[i][j] * haf(a, rest & ~(1u << j)); } return s; } };
    mc::explore([&](mc::Chooser& c) { int n = 2 * c.range(0, 3), d = c.choose(2); std::vector<std::vector<M>> a(n, std::vector<M>(n, d * 5)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i][j] = a[j][i] = c.choose(n == 6 ? 2 : 3); MC_CHECK(hafnian<M>(a) == F::haf(a, (1u << n) - 1), "hafnian"); mc::step(); });
    for (int n = 8; n <= mc::T(10, 12); n += 2) { MC_CASE(n); std::vector<std::vector<M>> a(n, std::vector<M>(n, 0)); M x = 3; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i][j] = a[j][i] = x, x = x * x + 1; MC_CHECK(hafnian<M>(a) == F::haf(a, (1u << n) - 1), "hafnian generic"); std::vector<std::vector<int>> q(n, IV(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[i][j] = i == j ? 0 : 1; M w = 1; for (int i = 1; i < n; i += 2) w *= i; MC_CHECK((hafnian<M, int>(q) == w), "complete graph"); }
    std::vector<std::pair<int, int>> mt; std::function<void(unsigned)> rec = [&](unsigned r) { if (!r) { std::vector<std::vector<M>> a(8, std::vector<M>(8, 0)); M w = 1; int k = 2; for (auto [i, j] : mt) a[i][j] = a[j][i] = k, w *= k++; MC_CASE(mt[0].second, mt[1].second, mt[2].second); MC_CHECK(hafnian<M>(a) == w, "single matching"); return; } int i = __builtin_ctz(r); r &= r - 1; for (unsigned t = r; t; t &= t - 1) { int j = __builtin_ctz(t); mt.emplace_back(i, j); rec(r & ~(1u << j)); mt.pop_back(); } }; rec(255); }
MC_GROUP(interface) { mc::bound("Matrix/ArrayMatrix shapes, conversions, neutral elements, fill and diagonal constructors, in-place and mixed operators, for every shape <=3 x 3 incl. empty, entries from all of Z_3 (<=4 cells)"); using M = atcoder::static_modint<3>;
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3), m = c.range(0, 3); if (n * m > 4 && !(n == 3 && m == 3)) return; IM a(n, IV(m)), b(n, IV(m)); int z = 0; for (auto& r : a) for (auto& x : r) x = n * m <= 4 ? c.choose(3) : (z += 2) % 3; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) b[i][j] = (i * 2 + j + 1) % 3; auto mk = [&](const IM& v) { std::vector<std::vector<M>> d(n, std::vector<M>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) d[i][j] = v[i][j]; return d; }; auto da = mk(a), db = mk(b); Matrix<M> A(da), B(db); const Matrix<M>& cA = A;
        MC_EQ(A.row_size(), n, "row_size"); MC_EQ(A.col_size(), n ? m : 0, "col_size"); MC_CHECK(A.shape() == std::make_pair(n, n ? m : 0), "shape"); std::vector<std::vector<M>> back = A; MC_CHECK(back == da, "conversion"); for (int i = 0; i < n; ++i) MC_CHECK(cA[i] == da[i], "const []"); MC_CHECK((A == B) == (da == db) && (A != B) == (da != db), "=="); Matrix<M> F(n, m, 2), Z(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) MC_CHECK(F[i][j] == 2 && Z[i][j] == 0, "fill"); Matrix<M> D; MC_CHECK(D.shape() == std::make_pair(0, 0), "default"); Matrix<M> Q(n); MC_CHECK(Q == Matrix<M>(n, n), "square ctor");
        auto S = A; S += B; MC_CHECK(S == A + B, "+="); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) MC_CHECK(S[i][j] == da[i][j] + db[i][j], "+"); S -= B; MC_CHECK(S == A && A - A == Z, "-"); S *= M(2); MC_CHECK(S == A * M(2) && S == M(2) * A && S == A + A, "scalar *"); S /= M(2); MC_CHECK(S == A && (A * M(2)) / M(2) == A, "scalar /"); 
        if (n == m) { auto I = Matrix<M>::e1(n), O = Matrix<M>::e0(n); MC_CHECK(I.shape() == A.shape() && O == Z && A * I == A && I * A == A && A + O == A, "e0/e1"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_EQ(I[i][j].val(), i == j, "e1"); MC_CHECK(A.pow(0) == I && A.pow(1) == A, "pow"); auto P = A; P *= B; MC_CHECK(P == A * B, "*="); P = A; P *= P; MC_CHECK(P == A.pow(2), "self *="); if (auto v = B.safe_inv()) { MC_CHECK(A / B == A * *v && M(2) / B == M(2) * *v, "/"); P = A; P /= B; MC_CHECK(P == A / B && P * B == A, "/="); } }
        mc::step(); });
    mc::explore([&](mc::Chooser& c) { std::array<std::array<M, 2>, 2> d; for (auto& r : d) for (auto& x : r) x = c.choose(3); using A2 = ArrayMatrix<M, 2, 2>; using A23 = ArrayMatrix<M, 2, 3>; A2 A(d), L{ d[0], d[1] }, D(M(2)), Z = A2::e0(), I = A2::e1(); MC_CHECK(A == L && A.size() == 2 && A.shape() == std::make_pair(2, 2) && A.row_size() == 2 && A.col_size() == 2, "square"); A23 R(M(1)); MC_CHECK(R.shape() == std::make_pair(2, 3) && R.row_size() == 2 && R.col_size() == 3, "rect"); for (int i = 0; i < 2; ++i) { for (int j = 0; j < 3; ++j) MC_EQ(R[i][j].val(), i == j, "diag ctor"); for (int j = 0; j < 2; ++j) MC_CHECK(D[i][j].val() == (i == j ? 2u : 0u) && Z[i][j] == 0 && I[i][j].val() == (unsigned)(i == j), "neutral"); } A23 R0 = A23::e0(); auto I3 = A23::e1(); MC_CHECK(R * I3 == R && R + R0 == R && A * I == A && I * A == A, "neutral laws"); MC_CHECK(+A == A && -A + A == Z && A * M(2) == M(2) * A && A * D == A * M(2) && A + A == A * M(2) && (A * M(2)) / M(2) == A, "scalar"); A2 P = A; P *= A; MC_CHECK(P == A * A && P == A.pow(2), "*="); P = A; P += A; P -= A; MC_CHECK(P == A, "+= -="); P *= M(2); P /= M(2); MC_CHECK(P == A, "*= /= scalar"); if (auto v = A.safe_inv()) { MC_CHECK(A * *v == I && A / A == I && M(2) / A == M(2) * *v && *v == A.inv(), "inverse"); P = A; P /= A; MC_CHECK(P == I, "/="); } mc::step(); });
    MC_CASE(0); MC_CHECK(characteristic_polynomial(Matrix<M>(std::vector<std::vector<M>>{})) == std::vector<M>{ 1 }, "characteristic polynomial of the 0x0 matrix"); }
#include <atcoder/modint>
MC_GROUP(wide_powers) {
    mc::bound("pow with exponents 2^31, 2^32+3, 2^33+5, 10^18 and 2^63-1: every 2x2 matrix over {0,1,-1} (Matrix, ArrayMatrix) and every circulant matrix of size 1..3 over {0,1,2}, modulo 998244353, against square-and-multiply on plain arrays");
    using W = atcoder::modint998244353; using VV = std::vector<std::vector<W>>; auto mm = [](const VV& a, const VV& b) { int n = a.size(); VV c(n, std::vector<W>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) c[i][j] += a[i][k] * b[k][j]; return c; }; auto pw = [&](VV b, unsigned long long e) { int n = b.size(); VV r(n, std::vector<W>(n)); for (int i = 0; i < n; ++i) r[i][i] = 1; for (; e; e >>= 1) { if (e & 1) r = mm(r, b); b = mm(b, b); } return r; };
    const long long ES[] = { 1LL << 31, (1LL << 32) + 3, (1LL << 33) + 5, 1000000000000000000LL, 9223372036854775807LL };
    mc::explore([&](mc::Chooser& c) { VV a(2, std::vector<W>(2)); for (auto& r : a) for (auto& x : r) x = c.choose(3) - 1; for (long long e : ES) { VV w = pw(a, e); Matrix<W> A(a); auto P = A.pow(e); ArrayMatrix<W, 2, 2> B; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) B[i][j] = a[i][j]; auto Q = B.pow(e); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { MC_CHECK(P[i][j] == w[i][j], "Matrix pow " << e); MC_CHECK(Q[i][j] == w[i][j], "ArrayMatrix pow " << e); } mc::step(); } });
    CirculantMatrix<W>::set_multiplication([](const std::vector<W>& a, const std::vector<W>& b) { std::vector<W> c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; });
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 3); std::vector<W> d(n); for (auto& x : d) x = c.choose(3); CirculantMatrix<W> C(d); VV a(n, std::vector<W>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = d[(i - j + n) % n]; for (long long e : ES) { VV w = pw(a, e); auto P = C.pow(e); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_CHECK(P.get(i, j) == w[i][j], "CirculantMatrix pow " << e); mc::step(); } });
}
MC_MAIN
