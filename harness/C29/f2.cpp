// Bit matrices, elimination over F2, xor bases.
#include "mc.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
#include "library/linear_algebra/gaussian_elimination_f2.hpp"
#include "library/linear_algebra/xor_base.hpp"
#include <set>
using namespace suisen; using U = std::vector<unsigned>;
static MatrixF2 mk(const U& a, int m) { MatrixF2 A(a.size(), m); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < m; ++j) A[i][j] = a[i] >> j & 1; return A; }
static U un(const MatrixF2& A) { U a(A.row_size(), 0); for (size_t i = 0; i < a.size(); ++i) for (int j = 0; j < A.col_size(); ++j) if (A[i][j]) a[i] |= 1u << j; return a; }
static DynamicBitSet bs(unsigned x, int n) { DynamicBitSet b(n); for (int i = 0; i < n; ++i) b[i] = x >> i & 1; return b; }
static unsigned ub(const DynamicBitSet& b) { unsigned x = 0; for (int i = 0; i < (int)b.size(); ++i) if (b[i]) x |= 1u << i; return x; }
static std::set<unsigned> span(const U& a) { std::set<unsigned> s{0}; for (unsigned v : a) { auto t = s; for (unsigned x : t) s.insert(x ^ v); } return s; }
static int lg(size_t x) { int r = 0; while (x > 1) x /= 2, ++r; return r; }
MC_GROUP(matrices) { mc::bound("every 0/1 matrix with n,m<=4 (nm<=12; 4x4: first two rows from 5 patterns, thorough all): rank vs span size, transpose, det, inverse, powers 0..4, matrix-vector for every vector"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4), m = c.range(0, 4); U a(n); for (int i = 0; i < n; ++i) a[i] = c.choose(!mc::thorough() && n * m > 12 && i < 2 ? 5 : 1 << m); auto A = mk(a, m); int r = lg(span(a).size()); MC_EQ((int)A.rank(), r, "rank"); MC_CHECK((A.shape() == std::pair<int, int>(n, m)), "shape"); auto T = A.transposed(); MC_CHECK((T.shape() == std::pair<int, int>(m, n)), "transposed shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) MC_CHECK(bool(T[j][i]) == bool(A[i][j]), "transposed"); MC_EQ((int)T.rank(), r, "rank of the transpose");
        for (unsigned x = 0; x < 1u << m; ++x) { unsigned w = 0; for (int i = 0; i < n; ++i) w |= (__builtin_popcount(a[i] & x) & 1u) << i; auto y = A * bs(x, m); MC_CHECK((int)y.size() == n && ub(y) == w, "matrix-vector"); }
        MC_CHECK(un(A + A) == U(n, 0) && un(A - A) == U(n, 0) && un(A * true) == a && un(false * A) == U(n, 0) && un(A / true) == a, "elementwise"); MC_CHECK(A == mk(a, m) && !(A != mk(a, m)), "eq"); if (n == m) { U id(n); for (int i = 0; i < n; ++i) id[i] = 1u << i; MC_EQ(A.det(), r == n, "det"); auto iv = A.inv(); MC_EQ(bool(iv), r == n, "inverse exists"); if (iv) MC_CHECK(un(*iv * A) == id && un(A * *iv) == id && un(A / A) == id, "inverse"); U p = id; for (int e = 0; e <= 4; ++e) { MC_CHECK(un(A.pow(e)) == p, "pow"); U q(n, 0); for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) if (p[i] >> k & 1) q[i] ^= a[k]; p = q; } } mc::step(); mc::outcome(r); }); }
MC_GROUP(products) { mc::bound("every pair of 0/1 matrices with shapes n,k,l<=3, (nk+kl)<=12 (thorough 15): product, product-assign"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3), k = c.range(0, 3), l = c.range(0, 3); if (n * k + k * l > mc::T(12, 15)) return; U a(n), b(k); for (auto& x : a) x = c.choose(1 << k); for (auto& x : b) x = c.choose(1 << l); U w(n, 0); for (int i = 0; i < n; ++i) for (int t = 0; t < k; ++t) if (a[i] >> t & 1) w[i] ^= b[t]; auto A = mk(a, k), B = mk(b, l); auto C = A * B; MC_CHECK((C.shape() == std::pair<int, int>(n, l)), "shape"); MC_CHECK(un(C) == w, "product"); A *= B; MC_CHECK(A == C, "*="); mc::step(); }); }
MC_GROUP(word_border) { mc::bound("sizes 63..66, 127..129: identity, shift, triangular and near-singular matrices: inverse*matrix, det, rank, transpose, kernel vectors, systems with more columns than rows"); for (int n : {1, 63, 64, 65, 66, 127, 128, 129}) for (int kind = 0; kind < 5; ++kind) { MC_CASE(n, kind); MatrixF2 A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = kind == 0 ? i == j : kind == 1 ? j == (i + 1) % n : kind == 2 ? j >= i : kind == 3 ? (i + j == n - 1 || (i * j + i) % 7 == 3) && i + j >= n - 1 : i == n - 1 ? n > 1 : j >= i; bool sing = kind == 4; MC_EQ(A.det(), !sing, "det"); auto iv = A.inv(); MC_EQ(bool(iv), !sing, "inv"); if (iv) MC_CHECK(A * *iv == MatrixF2::e1(n) && *iv * A == MatrixF2::e1(n), "inverse"); MC_EQ((int)A.rank(), sing ? n - 1 : n, "rank"); MC_CHECK(A.transposed().transposed() == A, "transpose"); DynamicBitSet x(n), b; for (int i = 0; i < n; ++i) x[i] = i % 3 == 1 || i == n - 1; b = A * x; auto s = gaussian_elimination_f2(A, b); MC_CHECK(s.has_solution() && A * s.solution() == b, "solve"); MC_EQ(s.dim(), sing ? 1 : 0, "kernel"); for (auto& v : s.basis()) MC_CHECK(v.any() && !(A * v).any(), "kernel vector");
        MatrixF2 B(2, n); for (int j = 0; j < n; ++j) B[0][j] = 1, B[1][j] = j == n - 1; auto t = gaussian_elimination_f2(B, bs(2, 2)); if (n > 1) { MC_EQ(t.dim(), n - 2, "wide system dimension"); MC_CHECK(t.has_solution() && B * t.solution() == bs(2, 2), "wide system"); for (auto& v : t.basis()) MC_CHECK(v.any() && !(B * v).any(), "wide kernel"); MC_EQ((int)B.rank(), 2, "wide rank"); } mc::step(); } }
static U basis_of(const SolutionSpace& s) { U r; for (auto& v : s.basis()) r.push_back(ub(v)); return r; }
MC_GROUP(systems) { mc::bound("every system over F2 with n<=3,m<=4 and n=4,m<=3 (thorough 4x4): solution set vs all 2^m vectors; dimension, rank, normalisation keeps the set"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4), m = c.range(0, 4); if (n * m + n > mc::T(16, 20)) return; U a(n); for (auto& x : a) x = c.choose(1 << m); unsigned b = c.choose(1 << n); std::set<unsigned> want; for (unsigned x = 0; x < 1u << m; ++x) { bool ok = true; for (int i = 0; i < n; ++i) ok &= (__builtin_popcount(a[i] & x) & 1u) == (b >> i & 1); if (ok) want.insert(x); } auto s = gaussian_elimination_f2(mk(a, m), bs(b, n)); MC_EQ(s.has_solution(), !want.empty(), "has_solution"); if (want.empty()) return; MC_EQ(1 << s.dim(), (int)want.size(), "dim"); MC_EQ(s.rank(), m - s.dim(), "rank"); auto set = [&](const SolutionSpace& q) { std::set<unsigned> r; for (unsigned x : span(basis_of(q))) r.insert(x ^ ub(q.solution())); return r; }; MC_CHECK(set(s) == want, "solution set"); auto t = s.normalized(); MC_CHECK(set(t) == want && t.dim() == s.dim(), "normalized"); s.normalize(); MC_CHECK(set(s) == want, "normalize"); mc::step(); mc::outcome(s.dim()); }); }
MC_GROUP(solution_spaces) { mc::bound("sum and intersection of normalised kernels: every pair of 0/1 matrices with m=3 (<=2 rows) and m=4 (thorough)"); mc::explore([&](mc::Chooser& c) { int m = c.range(1, mc::T(3, 4)), n1 = c.range(0, 2), n2 = c.range(0, 2); U a(n1), b(n2); for (auto& x : a) x = c.choose(1 << m); for (auto& x : b) x = c.choose(1 << m); auto s = gaussian_elimination_f2(mk(a, m), bs(0, n1)), t = gaussian_elimination_f2(mk(b, m), bs(0, n2)); auto S = span(basis_of(s)), T = span(basis_of(t)); std::set<unsigned> I, P; for (unsigned x : S) { if (T.count(x)) I.insert(x); for (unsigned y : T) P.insert(x ^ y); } int which = c.choose(3); auto x = which == 1 ? s : s.normalized(), y = which == 2 ? t : t.normalized(); auto q = x & y; MC_CHECK(span(basis_of(q)) == I, "intersection"); MC_EQ(1 << q.dim(), (int)I.size(), "intersection dimension"); if (which != 1) { auto z = x + y; MC_CHECK(span(basis_of(z)) == P, "sum"); MC_EQ(1 << z.dim(), (int)P.size(), "sum dimension"); z = x; z &= y; MC_CHECK(span(basis_of(z)) == I, "&="); auto r = q + y; MC_CHECK(span(basis_of(r)) == T, "intersection usable as normalised space"); unsigned v = c.choose(1 << m); MC_EQ(x.add_base(bs(v, m)), !S.count(v), "add_base"); } mc::step(); }); }
template <class T, class F, class G> void xb(mc::Chooser& c, int bits, int l1, int l2, F to, G from) { U a(c.range(0, l1)), b(c.range(0, l2)); for (auto& x : a) x = c.choose(1 << bits); for (auto& x : b) x = c.choose(1 << bits); auto vec = [&](const U& u) { std::vector<T> r; for (unsigned x : u) r.push_back(to(x)); return r; }; auto bas = [&](const XorBase<T>& x) { U r; for (const T& v : x.get_basis()) r.push_back(from(v)); return r; }; XorBase<T> A, B(vec(b)); std::set<unsigned> cur{0}; U pre; for (unsigned x : a) { MC_EQ(A.add(to(x)), !cur.count(x), "add reports independence"); pre.push_back(x); cur = span(pre); MC_CHECK(span(bas(A)) == cur, "span"); MC_EQ(1 << A.dim(), (int)cur.size(), "dim"); } auto SB = span(b); MC_CHECK(span(bas(B)) == SB && 1 << B.dim() == (int)SB.size(), "vector ctor"); std::set<unsigned> I, S; for (unsigned x : cur) { if (SB.count(x)) I.insert(x); for (unsigned y : SB) S.insert(x ^ y); } auto X = A + B; MC_CHECK(span(bas(X)) == S && 1 << X.dim() == (int)S.size(), "sum"); auto Y = A & B; MC_CHECK(span(bas(Y)) == I && 1 << Y.dim() == (int)I.size(), "intersection"); Y = A; Y &= B; MC_CHECK(span(bas(Y)) == I, "&="); MC_CHECK(span(bas(A.intersection(B) + A)) == cur, "intersection + A"); Y = A; Y += B; MC_CHECK(span(bas(Y)) == S, "+="); if (!b.empty()) { U z = a; z.push_back(b[0]); MC_CHECK(span(bas(A + to(b[0]))) == span(z), "+ vector"); Y = A; Y += to(b[0]); MC_CHECK(span(bas(Y)) == span(z), "+= vector"); } mc::step(); mc::outcome(A.dim() * 8 + (int)I.size()); }
MC_GROUP(xor_bases) { mc::bound("every pair of insertion sequences over 3-bit vectors (lengths <=2 x <=3, thorough <=3 x <=3) for unsigned and long long, over 3-bit DynamicBitSet: span, dimension, sum, intersection"); mc::explore([&](mc::Chooser& c) { int w = c.choose(3); auto id = [](unsigned x) { return x; }; if (w == 0) xb<unsigned>(c, 3, mc::T(2, 3), 3, id, id); else if (w == 1) xb<unsigned long long>(c, 3, 2, 2, [](unsigned x) { return (unsigned long long)x << 61; }, [](unsigned long long x) { return unsigned(x >> 61); }); else { int m = 3; xb<DynamicBitSet>(c, m, mc::T(1, 2), 3, [m](unsigned x) { return bs(x, m); }, [](const DynamicBitSet& b) { return ub(b); }); } }); }
MC_GROUP(interface) { mc::bound("MatrixF2 conversion, fill, shape, default object, in-place scalar and matrix division for every 2x2 pair"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3), m = c.range(0, 3); bool f = c.flag(); MatrixF2 F(n, m, f); MC_CHECK(F.shape() == std::make_pair(n, m) && F.row_size() == n && F.col_size() == m, "shape"); U w(n, f ? (1u << m) - 1 : 0); MC_CHECK(un(F) == w, "fill"); std::vector<DynamicBitSet> v = F; MC_EQ((int)v.size(), n, "conversion"); for (int i = 0; i < n; ++i) MC_EQ(ub(v[i]), w[i], "conversion row"); F /= true; MC_CHECK(un(F) == w, "/= true"); F *= true; MC_CHECK(un(F) == w, "*= true"); F *= false; MC_CHECK(un(F) == U(n, 0), "*= false"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { U a{ (unsigned)c.choose(4), (unsigned)c.choose(4) }, b{ (unsigned)c.choose(4), (unsigned)c.choose(4) }; MatrixF2 A = mk(a, 2), B = mk(b, 2); MC_EQ(A == B, a == b, "=="); MC_EQ(A != B, a != b, "!="); auto S = A; S += B; MC_CHECK(un(S) == (U{ a[0] ^ b[0], a[1] ^ b[1] }), "+="); S -= B; MC_CHECK(S == A, "-="); auto P = A; P *= P; MC_CHECK(P == A * A, "self product"); if (b[0] && b[1] && b[0] != b[1]) { auto Q = A; Q /= B; MC_CHECK(Q * B == A && Q == A / B, "/="); } mc::step(); }); MatrixF2 E; MC_CHECK(E.shape() == std::make_pair(0, 0), "default"); }
MC_GROUP(wide_powers_f2) { mc::bound("MatrixF2::pow with exponents 2^31, 2^33+5, 10^18+7, 2^63-1: every matrix of size 1..3 against square-and-multiply on plain arrays");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 3); std::vector<std::vector<int>> a(n, std::vector<int>(n)); for (auto& r : a) for (auto& x : r) x = c.choose(2); auto mm = [&](const std::vector<std::vector<int>>& x, const std::vector<std::vector<int>>& y) { std::vector<std::vector<int>> z(n, std::vector<int>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) z[i][j] ^= x[i][k] & y[k][j]; return z; };
        MatrixF2 A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = (bool)a[i][j]; for (long long e : { 1LL << 31, (1LL << 33) + 5, 1000000000000000007LL, 9223372036854775807LL }) { std::vector<std::vector<int>> r(n, std::vector<int>(n)), b = a; for (int i = 0; i < n; ++i) r[i][i] = 1; for (long long k = e; k; k >>= 1) { if (k & 1) r = mm(r, b); b = mm(b, b); } auto P = A.pow(e); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_EQ((int)(bool)P[i][j], r[i][j], "MatrixF2 pow " << e); mc::step(); } });
}
MC_GROUP(self_operands) {
    mc::bound("compound operators with the object itself on the right: every 0/1 matrix of order 1..3 (+=, -=, *=, and /= when invertible), dense 0/1 matrices of order 63..66, and every XOR basis built from at most 4 vectors of 3 bits (+=, &=)");
    auto chk = [&](const std::vector<std::vector<bool>>& a) { int n = a.size(); MatrixF2 A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = a[i][j]; auto is = [&](const MatrixF2& x, auto f, const char* w) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_CHECK(bool(x[i][j]) == bool(f(i, j)), w); }; MatrixF2 x = A; x += x; is(x, [&](int, int) { return 0; }, "+="); x = A; x -= x; is(x, [&](int, int) { return 0; }, "-="); x = A; x *= x; is(x, [&](int i, int j) { int s = 0; for (int k = 0; k < n; ++k) s ^= a[i][k] & a[k][j]; return s; }, "*="); if (A.det()) { x = A; x /= x; is(x, [&](int i, int j) { return i == j; }, "/="); } is(A, [&](int i, int j) { return a[i][j]; }, "unchanged"); mc::step(); };
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 3); std::vector<std::vector<bool>> a(n, std::vector<bool>(n)); for (auto& r : a) for (int j = 0; j < n; ++j) r[j] = c.choose(2); chk(a); });
    for (int n = 63; n <= 66; ++n) { MC_CASE(n); std::vector<std::vector<bool>> a(n, std::vector<bool>(n)); unsigned s = n; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { s = s * 1664525u + 1013904223u; a[i][j] = j > i ? s >> 30 & 1 : i == j; } chk(a); }
    mc::explore([&](mc::Chooser& c) { int k = c.range(0, 4); U v(k); for (auto& x : v) x = c.choose(8); auto span = [](const XorBase<unsigned>& b) { std::set<unsigned> s{ 0 }; for (unsigned e : b.get_basis()) { std::set<unsigned> t = s; for (unsigned x : s) t.insert(x ^ e); s = t; } return s; }; XorBase<unsigned> b(v), x = b; auto w = span(b); x += x; MC_CHECK(span(x) == w && x.dim() == b.dim(), "basis += itself"); x = b; x &= x; MC_CHECK(span(x) == w && x.dim() == b.dim(), "basis &= itself"); mc::step(); });
}
MC_MAIN
