// mc: flags='-O1'
// Linear algebra at middle sizes: every order on a ladder 4..45, patterned matrices, against an independent elimination on plain integers.
#include "mc.hpp"
#include <functional>
#include <numeric>
#include <map>
#include <atcoder/modint>
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/hessenberg_reduction.hpp"
#include "library/linear_algebra/characteristic_polynomial.hpp"
#include "library/linear_algebra/count_spanning_trees.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/hafnian.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
#include "library/linear_algebra/gaussian_elimination_f2.hpp"
#include "library/linear_algebra/xor_base.hpp"
using namespace suisen; using ll = long long; using M = atcoder::modint998244353; using W = std::vector<ll>; using WW = std::vector<W>;
static const ll P = 998244353;
static ll pw(ll a, ll e) { ll r = 1; for (a %= P; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; }
// own elimination: determinant and rank
static ll own(WW a, int m, int* rank = nullptr) { int n = a.size(), r = 0; ll d = 1; for (int j = 0; j < m && r < n; ++j) { int q = r; while (q < n && !a[q][j]) ++q; if (q == n) { d = 0; continue; } if (q != r) std::swap(a[q], a[r]), d = (P - d) % P; d = d * a[r][j] % P; ll iv = pw(a[r][j], P - 2); for (int i = r + 1; i < n; ++i) if (a[i][j]) { ll f = a[i][j] * iv % P; for (size_t k = j; k < a[i].size(); ++k) a[i][k] = (a[i][k] + (P - f) * a[r][k]) % P; } ++r; } if (rank) *rank = r; return r == n && n == m ? d : 0; }
static WW mul(const WW& a, const WW& b) { int n = a.size(), k = b.size(), l = k ? b[0].size() : 0; WW c(n, W(l)); for (int i = 0; i < n; ++i) for (int t = 0; t < k; ++t) if (a[i][t]) for (int j = 0; j < l; ++j) c[i][j] = (c[i][j] + a[i][t] * b[t][j]) % P; return c; }
// pattern: kind 0 dense, 1 permuted triangular (many row swaps), 2 banded, 3 singular (last row a combination), 4 block with zero columns up front, 5 sparse permutation-like
static WW pat(int n, int m, int kind) { WW a(n, W(m)); ll s = 12345 + n * 7 + kind; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { s = (s * s + 7 * i + j + 1) % P; int pi = (i * 5 + 3) % n; bool z = kind == 1 ? j < pi && n % 5 : kind == 2 ? std::abs(i - j) > 2 : kind == 4 ? j < 2 && i < n - 2 : kind == 5 ? j != pi % m && (i * j) % 7 != 1 : false; a[i][j] = z ? 0 : s; } if (kind == 3 && n > 2) for (int j = 0; j < m; ++j) a[n - 1][j] = (a[0][j] * 3 + a[n / 2][j]) % P; return a; }
static Matrix<M> up(const WW& a) { std::vector<std::vector<M>> d(a.size()); for (size_t i = 0; i < a.size(); ++i) d[i].assign(a[i].begin(), a[i].end()); return Matrix<M>(d); }
template <class A> static bool is(const A& x, const WW& w) { for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < w[i].size(); ++j) if ((ll)M(x[i][j]).val() != w[i][j]) return false; return true; }
static WW id(int n) { WW e(n, W(n)); for (int i = 0; i < n; ++i) e[i][i] = 1; return e; }
static std::vector<int> ladder() { std::vector<int> v; for (int n = 4; n <= 12; ++n) v.push_back(n); for (int n : { 16, 19, 20, 21, 22, 32, 33, 41, 42, 45 }) v.push_back(n); if (mc::thorough()) for (int n : { 13, 14, 15, 17, 18, 24, 28, 37, 63, 64, 65 }) v.push_back(n); return v; }
MC_GROUP(square) {
    mc::bound("square matrices modulo 998244353 of every order on the ladder 4..12, 16..45 in six patterns: determinant (both algorithms), inverse and its absence, elementwise operators, product, power 5, matrix-vector, submatrix, characteristic polynomial at n+1 points, Hessenberg form (shape and characteristic polynomial at four points)");
    for (int n : ladder()) for (int kind = 0; kind < 6; ++kind) { MC_CASE(n, kind); WW a = pat(n, n, kind), b = pat(n, n, (kind + 1) % 6); Matrix<M> A = up(a), B = up(b); ll d = own(a, n); std::string ctx = "n=" + std::to_string(n) + " pattern " + std::to_string(kind); MC_EQ((ll)A.det().val(), d, "det " << ctx); if (n <= 20) MC_EQ((ll)A.det_arbitrary_mod().val(), d, "det_arbitrary_mod " << ctx); auto iv = A.safe_inv(); MC_EQ((bool)iv, d != 0, "inverse exists " << ctx); if (iv) { WW x(n, W(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) x[i][j] = (*iv)[i][j].val(); MC_CHECK(mul(a, x) == id(n), "inverse " << ctx); }
        WW s = a, df = a, k3 = a; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s[i][j] = (a[i][j] + b[i][j]) % P, df[i][j] = (a[i][j] - b[i][j] + P) % P, k3[i][j] = a[i][j] * 3 % P; MC_CHECK(is(A + B, s) && is(A - B, df) && is(A * M(3), k3) && is(M(3) * A, k3), "elementwise " << ctx); WW ab = mul(a, b); MC_CHECK(is(A * B, ab), "product " << ctx); WW a2 = mul(a, a), a5 = mul(mul(a2, a2), a); MC_CHECK(is(A.pow(5), a5), "pow " << ctx); MC_CHECK(is(A.pow(0), id(n)), "pow 0"); std::vector<M> x(n); W wx(n); for (int i = 0; i < n; ++i) x[i] = wx[i] = i * i + 1; auto y = A * x; for (int i = 0; i < n; ++i) { ll t = 0; for (int j = 0; j < n; ++j) t = (t + a[i][j] * wx[j]) % P; MC_EQ((ll)y[i].val(), t, "matrix-vector " << ctx); }
        auto det_at = [&](const WW& h, ll l) { WW c(n, W(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c[i][j] = ((i == j ? l : 0) - h[i][j] + P) % P; return own(c, n); }; auto cp = characteristic_polynomial(A); MC_EQ((int)cp.size(), n + 1, "degree " << ctx); MC_EQ((int)cp[n].val(), 1, "monic " << ctx); for (int l = 0; l <= n; l += n > 22 && !mc::thorough() ? 3 : 1) { M v = 0; for (int i = n; i >= 0; --i) v = v * l + cp[i]; MC_EQ((ll)v.val(), det_at(a, l), "characteristic polynomial at " << l << " " << ctx); }
        auto H = hessenberg_reduction(A); WW h(n, W(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { h[i][j] = H[i][j].val(); if (i > j + 1) MC_EQ(h[i][j], 0LL, "Hessenberg shape " << ctx); } for (ll l : { 0LL, 1LL, 77LL, 998244300LL }) MC_EQ(det_at(h, l), det_at(a, l), "Hessenberg similarity " << ctx); mc::outcome(d); mc::step(n); }
}
template <size_t N> static void arr() { using A = ArrayMatrix<M, N, N>; for (int kind = 0; kind < 6; ++kind) { MC_CASE(N, kind); WW a = pat(N, N, kind), b = pat(N, N, (kind + 2) % 6); A x, y; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) x[i][j] = a[i][j], y[i][j] = b[i][j]; WW s = a, df = a, k3 = a, ng = a; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) s[i][j] = (a[i][j] + b[i][j]) % P, df[i][j] = (a[i][j] - b[i][j] + P) % P, k3[i][j] = a[i][j] * 3 % P, ng[i][j] = (P - a[i][j]) % P; std::string ctx = "array order " + std::to_string(N) + " pattern " + std::to_string(kind); MC_CHECK(is(x + y, s) && is(x - y, df) && is(x * M(3), k3) && is(-x, ng), "elementwise " << ctx); MC_CHECK(is(x * y, mul(a, b)), "product " << ctx); WW a2 = mul(a, a); MC_CHECK(is(x.pow(3), mul(a2, a)), "pow " << ctx); ll d = own(a, N); MC_EQ((ll)x.det().val(), d, "det " << ctx); if (d) { auto iv = x.inv(); WW z(N, W(N)); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) z[i][j] = M(iv[i][j]).val(); MC_CHECK(mul(a, z) == id(N), "inverse " << ctx); MC_CHECK(is(y / x, mul(b, z)), "division " << ctx); } mc::step(N); } }
MC_GROUP(array_square) { mc::bound("ArrayMatrix of order 5, 6, 7, 9, 10, 11, 20, 21, 41, 42 in six patterns: elementwise operators, product, power, determinant, inverse, division"); arr<5>(); arr<6>(); arr<7>(); arr<9>(); arr<10>(); arr<11>(); arr<20>(); arr<21>(); arr<41>(); arr<42>(); }
MC_GROUP(systems) {
    mc::bound("linear systems modulo 998244353 with n rows and m columns over the ladder, six patterns, rank-deficient, consistent and inconsistent right-hand sides; and over F2 (GaussianEliminationF2<int> and bitset elimination, 5..90 columns): consistency, dimension m - rank, residual, kernel, independence");
    for (int n : { 5, 9, 10, 11, 20, 21, 30, 41, 44 }) for (int dm : { -4, 0, 1, 7 }) for (int kind = 0; kind < 6; ++kind) for (int rhs = 0; rhs < 2; ++rhs) { int m = n + dm; MC_CASE(n, m, kind, rhs); WW a = pat(n, m, kind); W b(n); for (int i = 0; i < n; ++i) { if (rhs) b[i] = i + 1; else for (int j = 0; j < m; ++j) b[i] = (b[i] + a[i][j] * (j + 2)) % P; } WW ab = a; for (int i = 0; i < n; ++i) ab[i].push_back(b[i]); int r, r2; own(a, m, &r); own(ab, m + 1, &r2); std::vector<std::vector<M>> A(n); std::vector<M> B(b.begin(), b.end()); for (int i = 0; i < n; ++i) A[i].assign(a[i].begin(), a[i].end()); GaussianEliminationArithmetic<M> g(A, B); MC_EQ(g.has_solution(), r == r2, "consistent n=" << n << " m=" << m << " kind " << kind); if (r != r2) { mc::step(); continue; } MC_EQ(g.dimension(), m - r, "dimension"); auto s = *g.get_solution(); for (int i = 0; i < n; ++i) { M t = 0; for (int j = 0; j < m; ++j) t += A[i][j] * s[j]; MC_CHECK(t == B[i], "solution row " << i << " n=" << n << " m=" << m << " kind " << kind); } WW bs; for (auto& v : g.get_basis()) { W w; for (int i = 0; i < n; ++i) { M t = 0; for (int j = 0; j < m; ++j) t += A[i][j] * v[j]; MC_CHECK(t == 0, "kernel"); } for (auto& x : v) w.push_back(x.val()); bs.push_back(w); } if (!bs.empty()) { own(bs, m, &r2); MC_EQ(r2, m - r, "kernel vectors independent"); } mc::step(); }
    for (int n : { 5, 9, 10, 11, 20, 21, 30, 41, 45, 70 }) for (int dm : { -4, 0, 3, 20 }) for (int kind = 0; kind < 5; ++kind) for (int rhs = 0; rhs < 2; ++rhs) { int m = n + dm; MC_CASE(n, m, kind, rhs, 2); std::vector<std::vector<int>> a(n, std::vector<int>(m)); std::vector<int> b(n); unsigned s = n * 31 + m + kind; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { s = s * 1664525u + 1013904223u; a[i][j] = kind == 0 ? s >> 30 & 1 : kind == 1 ? j == (i * 3 + 1) % m || j == i : kind == 2 ? j >= i : kind == 3 ? (i % 3 == 0 ? 1 : s >> 29 & 1) : (j > 3 && (s >> 28 & 3) == 0); } for (int i = 0; i < n; ++i) { if (rhs) b[i] = i % 2; else for (int j = 0; j < m; ++j) b[i] ^= a[i][j] & (j % 3 == 1); } auto rk = [](std::vector<std::vector<int>> x, int m) { int n = x.size(), r = 0; for (int j = 0; j < m && r < n; ++j) { int q = r; while (q < n && !x[q][j]) ++q; if (q == n) continue; std::swap(x[q], x[r]); for (int i = 0; i < n; ++i) if (i != r && x[i][j]) for (size_t k = 0; k < x[i].size(); ++k) x[i][k] ^= x[r][k]; ++r; } return r; }; auto ab = a; for (int i = 0; i < n; ++i) ab[i].push_back(b[i]); int r = rk(a, m), r2 = rk(ab, m + 1); GaussianEliminationF2<int> g(a, b); MatrixF2 A(n, m); DynamicBitSet B(n); for (int i = 0; i < n; ++i) { B[i] = b[i]; for (int j = 0; j < m; ++j) A[i][j] = a[i][j]; } auto h = gaussian_elimination_f2(A, B); MC_EQ((int)A.rank(), r, "rank n=" << n << " m=" << m << " kind " << kind); MC_EQ(g.has_solution(), r == r2, "consistent (F2)"); MC_EQ(h.has_solution(), r == r2, "consistent (bitset)"); auto chk = [&](auto&& x, bool hom, const char* w) { for (int i = 0; i < n; ++i) { int t = 0; for (int j = 0; j < m; ++j) t ^= a[i][j] & int(x[j]); MC_EQ(t, hom ? 0 : b[i], w << " n=" << n << " m=" << m << " kind " << kind); } }; if (r != r2) { mc::step(); continue; } MC_EQ(g.dimension(), m - r, "dimension"); MC_EQ(h.dim(), m - r, "dim"); auto s1 = *g.get_solution(); auto s2 = h.solution(); chk(s1, false, "F2 solution"); std::vector<int> c2(m); for (int j = 0; j < m; ++j) c2[j] = (bool)s2[j]; chk(c2, false, "bitset solution"); std::vector<std::vector<int>> k1(g.get_basis().begin(), g.get_basis().end()), k2; for (auto& v : h.basis()) { std::vector<int> q(m); for (int j = 0; j < m; ++j) q[j] = (bool)v[j]; k2.push_back(q); } for (auto& v : k1) chk(v, true, "F2 kernel"); for (auto& v : k2) chk(v, true, "bitset kernel"); if (m > r) { MC_EQ(rk(k1, m), m - r, "independent"); MC_EQ(rk(k2, m), m - r, "independent (bitset)"); auto nz = h.normalized(); std::vector<std::vector<int>> k3; for (auto& v : nz.basis()) { std::vector<int> q(m); for (int j = 0; j < m; ++j) q[j] = (bool)v[j]; k3.push_back(q); } for (auto& v : k3) chk(v, true, "normalised kernel"); MC_EQ(rk(k3, m), m - r, "normalised basis independent"); } mc::step(); }
    for (int n : { 5, 9, 10, 12, 20 }) for (int kind = 0; kind < 3; ++kind) { MC_CASE(n, kind, 77); std::vector<std::vector<double>> a(n, std::vector<double>(n)); std::vector<double> b(n), x(n); for (int i = 0; i < n; ++i) x[i] = (i * 7) % 5 - 2; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = kind == 0 ? (i == j ? n + 3 : (i * j + i) % 3 - 1) : kind == 1 ? ((j - i * 3 % n + n) % n == 0 && n % 3 ? n + 2 : n % 3 ? (i + j) % 2 : i == j ? 5 : j == i + 1) : (j == n - 1 - i ? n + 1 : (i * i + j) % 2); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i] += a[i][j] * x[j]; GaussianEliminationArithmetic<double> g(a, b); MC_CHECK(g.has_solution(), "double system is consistent"); if (g.has_unique_solution()) { auto s = *g.get_solution(); for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) t += a[i][j] * s[j]; MC_CHECK(std::abs(t - b[i]) < 1e-6, "double residual"); } } mc::step(); }
}
MC_GROUP(others) {
    mc::bound("circulant matrices of every order 4..45 (sum, difference, scalar, product, matrix-vector, powers); hafnians of 10, 12 and 14 vertices by matching DP; spanning trees of complete graphs, cycles, grids, wheels and multigraphs with 4..45 vertices against an independent determinant; F2 matrices of order 4..45 (inverse, product, determinant, transpose); XOR bases of 1..64 dimensions on 64-bit and 90-bit vectors");
    CirculantMatrix<M>::set_multiplication([](const std::vector<M>& a, const std::vector<M>& b) { std::vector<M> r(a.empty() ? 0 : a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }); using C = CirculantMatrix<M>;
    for (int n = 4; n <= 45; ++n) { MC_CASE(n, 1); std::vector<M> a(n), b(n); for (int i = 0; i < n; ++i) a[i] = i * i + 3, b[i] = i * 7 + 1; C A(a), B(b), S = A + B, D = A - B, K = A * M(5), Q = A * B, N = -A, T = A.pow(3); std::vector<M> q(n), t(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[(i + j) % n] += a[i] * b[j]; std::vector<M> a2(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a2[(i + j) % n] += a[i] * a[j]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) t[(i + j) % n] += a2[i] * a[j]; auto y = A * b; for (int i = 0; i < n; ++i) { MC_CHECK(y[i] == q[i], "circulant * vector n=" << n); for (int j = 0; j < n; ++j) { int k = (i - j + n) % n; MC_CHECK(S.get(i, j) == a[k] + b[k] && D.get(i, j) == a[k] - b[k] && K.get(i, j) == a[k] * 5 && Q.get(i, j) == q[k] && N.get(i, j) == -a[k] && T.get(i, j) == t[k], "circulant n=" << n << " at " << i << "," << j); } } mc::step(); }
    for (int n : { 10, 12, 14 }) for (int kind = 0; kind < 3; ++kind) { MC_CASE(n, kind, 2); std::vector<std::vector<M>> a(n, std::vector<M>(n, 4)); M x = 3 + kind; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { a[i][j] = a[j][i] = kind == 1 ? M((i * j + i + j) % 3) : kind == 2 && (i + j) % 2 == 0 ? M(0) : x; x = x * x + 1; } std::vector<M> d(1 << n); d[0] = 1; for (int m = 1; m < 1 << n; ++m) { if (__builtin_popcount(m) & 1) continue; int i = __builtin_ctz(m); for (int j = i + 1; j < n; ++j) if (m >> j & 1) d[m] += a[i][j] * d[m ^ (1 << i) ^ (1 << j)]; } MC_CHECK(hafnian<M>(a) == d.back(), "hafnian n=" << n << " kind " << kind); mc::step(); }
    for (int n : ladder()) for (int kind = 0; kind < 5; ++kind) { MC_CASE(n, kind, 3); std::vector<std::pair<int, int>> e; if (kind == 0) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) e.push_back({ i, j }); if (kind == 1) for (int i = 0; i < n; ++i) e.push_back({ i, (i + 1) % n }); if (kind == 2) for (int i = 0; i < n; ++i) { if (i % 5 != 4 && i + 1 < n) e.push_back({ i, i + 1 }); if (i + 5 < n) e.push_back({ i + 5, i }); } if (kind == 3) for (int i = 1; i < n; ++i) { e.push_back({ 0, i }); e.push_back({ i, i % (n - 1) + 1 }); } if (kind == 4) for (int i = 0; i < 3 * n; ++i) e.push_back({ (i * 7) % n, (i * i + 1) % n }); WW l(n - 1, W(n - 1)); for (auto [u, v] : e) { if (u == v) continue; if (u < n - 1) l[u][u]++; if (v < n - 1) l[v][v]++; if (u < n - 1 && v < n - 1) l[u][v] = (l[u][v] + P - 1) % P, l[v][u] = (l[v][u] + P - 1) % P; } ll w = own(l, n - 1); if (kind == 0) MC_EQ(w, pw(n, n - 2), "oracle: Cayley"); MC_EQ((ll)count_spanning_trees<M>(n, e).val(), w, "spanning trees n=" << n << " kind " << kind); mc::step(); }
    for (int n = 4; n <= 45; ++n) for (int kind = 0; kind < 3; ++kind) { MC_CASE(n, kind, 4); MatrixF2 A(n, n), B(n, n); unsigned s = n + kind; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { s = s * 1664525u + 1013904223u; int p = (i + kind) % n; A[i][j] = j > p ? s >> 30 & 1 : j == p; B[i][j] = s >> 29 & 1; } MC_CHECK(A.det(), "F2 det n=" << n); auto iv = A.inv(); MC_CHECK((bool)iv, "F2 inverse exists"); MatrixF2 Q = A * *iv, R = A * B, T = B.transposed(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int t = 0, u = 0; for (int k = 0; k < n; ++k) t ^= bool(A[i][k]) & bool((*iv)[k][j]), u ^= bool(A[i][k]) & bool(B[k][j]); MC_EQ(t, int(i == j), "F2 inverse n=" << n); MC_EQ((int)bool(R[i][j]), u, "F2 product n=" << n); MC_CHECK(bool(T[j][i]) == bool(B[i][j]), "F2 transpose"); MC_EQ((int)bool(Q[i][j]), int(i == j), "F2 A A^-1"); } mc::step(); }
    for (int d = 1; d <= 64; ++d) { MC_CASE(d, 5); using u64 = unsigned long long; XorBase<u64> x, y; std::vector<u64> in; for (int i = 0; i < d; ++i) { int p = (i * 37) % 64; u64 v = 1ULL << p; for (int j = 0; j < i; j += 3) v ^= in[j]; in.push_back(v); MC_CHECK(x.add(v), "independent vector rejected, dim " << i); u64 dup = v; if (i) dup ^= in[i / 2]; if (dup) MC_CHECK(!x.add(dup), "dependent vector accepted, dim " << i + 1); } MC_EQ(x.dim(), d, "dim"); for (int i = 0; i < d; i += 2) y.add(in[i]); for (int i = d; i < 64; ++i) y.add(1ULL << ((i * 37) % 64)); auto s = x + y, t = x & y; MC_EQ(s.dim(), 64, "sum dimension at " << d); MC_EQ(t.dim(), (d + 1) / 2, "intersection dimension at " << d); auto rest = [&](u64 v, XorBase<u64> b) { return !b.add(v); }; for (u64 v : t.get_basis()) MC_CHECK(rest(v, x) && rest(v, y), "intersection inside both"); mc::step(); }
}
MC_MAIN
