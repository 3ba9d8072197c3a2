// mc: flags='-O1'
// Nimbers, affine maps and clamped affine maps, generic transform convolution.
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <sstream>
#include <tuple>
#include <unordered_set>
#include <set>
#include <numeric>
#include <atcoder/modint>
#include "library/algebra/field/nimber.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
#include "library/convolution/convolution.hpp"
#include "library/convolution/polynomial_eval_multipoint_eval.hpp"
using ll = long long; using u64 = std::uint64_t; using suisen::nimber;
static u64 nimpow2(int i, int j) { static std::map<std::pair<int, int>, u64> memo; if (i > j) std::swap(i, j); auto it = memo.find({i, j}); if (it != memo.end()) return it->second; u64 r; std::function<u64(u64, u64)> mul = [&](u64 a, u64 b) { u64 s = 0; for (int x = 0; x < 64; ++x) if (a >> x & 1) for (int y = 0; y < 64; ++y) if (b >> y & 1) s ^= nimpow2(x, y); return s; }; if (i == 0) r = 1ULL << j; else { int k = 0; while ((2 << k) <= j) ++k; while ((1 << (k + 1)) <= j) ++k; int F = 1 << k; /* Fermat power 2^F with F <= j < 2F */ if (i < F) r = mul(1ULL << i, 1ULL << (j - F)) << F; else { u64 p = mul(1ULL << (i - F), 1ULL << (j - F)); r = (p << F) ^ mul(p, 1ULL << (F - 1)); } } return memo[{i, j}] = r; }
static u64 nimmul(u64 a, u64 b) { u64 s = 0; for (int x = 0; x < 64; ++x) if (a >> x & 1) for (int y = 0; y < 64; ++y) if (b >> y & 1) s ^= nimpow2(x, y); return s; }
MC_GROUP(nim_small) { mc::bound("all pairs below 64 (256): product is the mex definition for values below 24 (32) and the power-of-two recursion above; every non-zero element below 2^8 (2^10) has its inverse; distributivity on all triples below 16 (32)"); { static std::vector<std::vector<int>> m; int N = mc::T(24, 32); m.assign(N, std::vector<int>(N)); for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { std::vector<char> s(1024); for (int x = 0; x < a; ++x) for (int y = 0; y < b; ++y) s[m[x][b] ^ m[a][y] ^ m[x][y]] = 1; int k = 0; while (s[k]) ++k; m[a][b] = k; MC_CASE(a, b); MC_EQ((nimber(a) * nimber(b)).val(), (u64)k, "nim product"); MC_EQ(nimmul(a, b), (u64)k, "oracle recursion"); } }
    mc::explore([&](mc::Chooser& c) { int a = c.choose(256); for (int b = 0; b < mc::T(64, 256); ++b) { u64 w = nimmul(a, b); MC_EQ((nimber(a) * nimber(b)).val(), w, "product"); MC_EQ((suisen::nimber8_t(a) * suisen::nimber8_t(b)).val(), w, "nimber8"); MC_EQ((suisen::nimber16_t(a) * suisen::nimber16_t(b)).val(), w, "nimber16"); MC_EQ((suisen::nimber32_t(a) * suisen::nimber32_t(b)).val(), w, "nimber32"); if (a < 16 && b < 16) { MC_EQ((suisen::nimber4_t(a) * suisen::nimber4_t(b)).val(), w, "nimber4"); if (a < 4 && b < 4) MC_EQ((suisen::nimber2_t(a) * suisen::nimber2_t(b)).val(), w, "nimber2"); if (a < 2 && b < 2) MC_EQ((suisen::nimber1_t(a) * suisen::nimber1_t(b)).val(), w, "nimber1"); } MC_CHECK(nimber(a) + nimber(b) == nimber(a ^ b) && nimber(a) - nimber(b) == nimber(a ^ b) && -nimber(a) == nimber(a), "sum"); if (b) { MC_EQ((nimber(a) / nimber(b) * nimber(b)).val(), (u64)a, "quotient"); auto q = nimber(a); q /= nimber(b); q *= nimber(b); q += nimber(1); q -= nimber(1); MC_EQ(q.val(), (u64)a, "compound"); } } if (a) { MC_EQ((nimber(a).inv() * nimber(a)).val(), (u64)1, "inverse"); MC_EQ((suisen::nimber8_t(a).inv() * suisen::nimber8_t(a)).val(), (u64)1, "inverse8"); } u64 w = 1; for (int k = 0; k < 12; ++k) { MC_EQ(nimber(a).pow(k).val(), w, "pow"); w = nimmul(w, a); } MC_CHECK((nimber(a) < nimber(a + 1)) && nimber(a) <= nimber(a) && nimber(a) != nimber(a + 1) && nimber(a + 1) > nimber(a) && nimber(a) >= nimber(a) && bool(nimber(a)) == (a != 0), "comparisons"); std::stringstream ss; ss << nimber(a); nimber r; ss >> r; MC_CHECK(r == nimber(a), "stream"); mc::step(); }); }
MC_GROUP(nim_wide) { mc::bound("all pairs of 2^i and 2^i+2^j+1 over 64 bits (products and inverses) against the power-of-two recursion; associativity on a grid of wide values"); mc::explore([&](mc::Chooser& c) { int i = c.choose(64), j = c.choose(64); MC_EQ((nimber(1ULL << i) * nimber(1ULL << j)).val(), nimmul(1ULL << i, 1ULL << j), "2^i*2^j"); u64 a = (1ULL << i) | (1ULL << j) | 1, b = ~a ^ (a << 7); MC_EQ((nimber(a) * nimber(b)).val(), nimmul(a, b), "wide product"); if (mc::thorough() || (i + j) % 4 == 0) { MC_EQ((nimber(a).inv() * nimber(a)).val(), (u64)1, "wide inverse"); MC_EQ((nimber(1ULL << i).inv() * nimber(1ULL << i)).val(), (u64)1, "inverse of 2^i"); if (b) MC_EQ((nimber(b).inv() * nimber(b)).val(), (u64)1, "wide inverse"); } nimber x(a), y(b), z(a * 0x9e3779b97f4a7c15ULL); MC_CHECK(x * y == y * x && (x * y) * z == x * (y * z) && x * (y + z) == x * y + x * z, "ring laws"); u64 h = a & 0xffffffffu, g = b & 0xffffffffu; MC_EQ((suisen::nimber32_t(h) * suisen::nimber32_t(g)).val(), nimmul(h, g), "nimber32"); MC_EQ((suisen::nimber16_t(h & 0xffff) * suisen::nimber16_t(g & 0xffff)).val(), nimmul(h & 0xffff, g & 0xffff), "nimber16"); mc::step(); }); std::unordered_set<nimber> st; for (int i = 0; i < 50; ++i) st.insert(nimber(i)); MC_EQ((int)st.size(), 50, "hash"); }
MC_GROUP(affine_maps) { mc::bound("every pair of maps ax+b with a,b in -2..2 and clamps in {-inf,-3,0,2,inf}: composition applied to every x in -8..8; identity; arithmetic; stream input/output round trip"); mc::explore([&](mc::Chooser& c) { using A = suisen::Affine<ll>; A f(c.range(-2, 2), c.range(-2, 2)), g(c.range(-2, 2), c.range(-2, 2)); for (ll x = -8; x <= 8; ++x) { MC_EQ(f(x), f.a * x + f.b, "apply"); MC_EQ(f.compose(g)(x), f(g(x)), "compose"); MC_EQ(A::compose(f, g)(x), f(g(x)), "static compose"); MC_EQ(A::id()(x), x, "id"); MC_EQ((f + g)(x), f(x) + g(x), "sum"); MC_EQ((f - g)(x), f(x) - g(x), "difference"); MC_EQ((-f)(x), -f(x), "negate"); MC_EQ((+f)(x), f(x), "plus"); MC_EQ((f + 5LL)(x), f(x) + 5, "add constant"); MC_EQ((f - 5LL)(x), f(x) - 5, "subtract constant"); A h = f; MC_EQ((++h)(x), f(x) + 1, "++"); MC_EQ((--h)(x), f(x), "--"); MC_EQ((h++)(x), f(x), "post ++"); MC_EQ((h--)(x), f(x) + 1, "post --"); } auto tf = std::make_pair(f.a, f.b), tg = std::make_pair(g.a, g.b); MC_CHECK((f == g) == (tf == tg) && (f != g) == (tf != tg) && (f < g) == (tf < tg) && (f <= g) == (tf <= tg) && (f > g) == (tf > tg) && (f >= g) == (tf >= tg), "order"); std::pair<ll, ll> p = f; std::tuple<ll, ll> t = f; MC_CHECK(p == tf && std::get<0>(t) == f.a && std::get<1>(t) == f.b, "conversion"); std::stringstream ss; ss << f; A r; ss >> r; MC_CHECK(r == f, "stream round trip"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { using A = suisen::AffineClamp<ll>; const ll I = A::pos_inf, N = A::neg_inf; std::vector<ll> B{N, -3, 0, 2, I}; auto mk = [&] { ll a = c.range(-2, 2), b = c.range(-1, 2); int l = c.choose(5), r = l + c.choose(5 - l); if (l == 4 || r == 0) { l = 0; r = 4; } return A(a, b, B[l], B[r]); }; A f = mk(), g = mk(), h = A::compose(f, g); auto ap = [](const A& m, ll x) { return (ll)std::clamp<__int128>((__int128)m.a * x + m.b, m.l, m.r); }; for (ll x : {-1000000000LL, -8LL, -5LL, -3LL, -2LL, -1LL, 0LL, 1LL, 2LL, 3LL, 4LL, 7LL, 1000000000LL}) { MC_EQ(f(x), ap(f, x), "apply"); MC_EQ(h(x), ap(f, ap(g, x)), "compose"); MC_EQ(f.compose(g)(x), ap(f, ap(g, x)), "member compose"); MC_EQ(A::id()(x), x, "id"); } std::tuple<ll, ll, ll, ll> t = h; MC_CHECK((t == std::make_tuple(h.a, h.b, h.l, h.r)), "conversion"); std::stringstream ss; ss << f; A r; ss >> r; MC_CHECK(r.a == f.a && r.b == f.b && r.l == f.l && r.r == f.r, "stream round trip"); mc::step(); }); }
using mint = atcoder::modint998244353;
static void zeta(std::vector<mint>& a) { int n = a.size(); for (int b = 1; b < n; b <<= 1) for (int i = 0; i < n; ++i) if (i & b) a[i] += a[i ^ b]; } static void mobius(std::vector<mint>& a) { int n = a.size(); for (int b = 1; b < n; b <<= 1) for (int i = 0; i < n; ++i) if (i & b) a[i] -= a[i ^ b]; }
MC_GROUP(transforms) { mc::bound("transform_convolution with the subset zeta transform equals OR-convolution for all 0..2 vectors of length 4 (two and three factors); polynomial_eval equals the polynomial evaluated in the OR-convolution algebra for every polynomial of degree <=3"); mc::explore([&](mc::Chooser& c) { std::vector<mint> a(4), b(4), d{1, 0, 2, 1}; for (auto& x : a) x = c.choose(3); for (auto& x : b) x = c.choose(2); auto orc = [](const std::vector<mint>& x, const std::vector<mint>& y) { std::vector<mint> z(4); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) z[i | j] += x[i] * y[j]; return z; }; auto eq = [](const std::vector<mint>& x, const std::vector<mint>& y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (x[i] != y[i]) return false; return true; }; auto r = suisen::convolution::transform_convolution<mint, zeta, mobius>(a, b); MC_CHECK(eq(r, orc(a, b)), "two factors"); auto s = suisen::convolution::transform_convolution<mint, zeta, mobius>(std::vector<std::vector<mint>>{a, b, d}); MC_CHECK(eq(s, orc(orc(a, b), d)), "three factors"); suisen::FPS<mint>::set_multiplication([](const std::vector<mint>& x, const std::vector<mint>& y) { std::vector<mint> z(x.empty() || y.empty() ? 0 : x.size() + y.size() - 1); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) z[i + j] += x[i] * y[j]; return z; }); suisen::FPS<mint> f{1, 2, 0, 1}; f.resize(c.range(1, 4)); std::vector<mint> w(4), p{1, 0, 0, 0}; for (size_t k = 0; k < f.size(); ++k) { for (int i = 0; i < 4; ++i) w[i] += f[k] * p[i]; p = orc(p, a); } auto g = suisen::polynomial_eval<mint, zeta, mobius>(a, f); MC_CHECK(eq(g, w), "polynomial_eval"); mc::step(); }); }
MC_GROUP(affine_interface) { mc::bound("Affine/AffineClamp: every operator, comparison, conversion and static constructor on all pairs with coefficients in -2..2; std::hash<nimber>");
    mc::explore([&](mc::Chooser& c) { using A = suisen::Affine<ll>; ll a = c.range(-2, 2), b = c.range(-2, 2), p = c.range(-2, 2), q = c.range(-2, 2), k = 3; A f(a, b), g(p, q); auto is = [](const A& x, ll u, ll v) { return x.a == u && x.b == v; };
        MC_CHECK(is(A::id(), 1, 0), "id"); MC_CHECK(is(A::compose(f, g), a * p, a * q + b) && is(f.compose(g), a * p, a * q + b), "compose"); for (ll x = -3; x <= 3; ++x) MC_EQ(f(x), a * x + b, "operator()"); MC_CHECK(is(+f, a, b) && is(-f, -a, -b), "unary");
        { A h = f; A o = h++; MC_CHECK(is(o, a, b) && is(h, a, b + 1), "post++"); o = h--; MC_CHECK(is(o, a, b + 1) && is(h, a, b), "post--"); MC_CHECK(&++h == &h && is(h, a, b + 1), "++"); MC_CHECK(&--h == &h && is(h, a, b), "--"); h += k; MC_CHECK(is(h, a, b + k), "+=c"); h -= k; h -= k; MC_CHECK(is(h, a, b - k), "-=c"); h = f; h += g; MC_CHECK(is(h, a + p, b + q), "+=g"); h = f; h -= g; MC_CHECK(is(h, a - p, b - q), "-=g"); }
        MC_CHECK(is(f + k, a, b + k) && is(f - k, a, b - k) && is(f + g, a + p, b + q) && is(f - g, a - p, b - q), "binary"); std::pair<ll, ll> x{a, b}, y{p, q};
        MC_CHECK((f == g) == (x == y) && (f != g) == (x != y) && (f < g) == (x < y) && (f <= g) == (x <= y) && (f > g) == (x > y) && (f >= g) == (x >= y), "comparisons"); std::pair<ll, ll> cp = f; MC_CHECK(cp == x, "pair conversion"); std::tuple<ll, ll> ct = f.operator std::tuple<ll, ll>(); MC_CHECK((ct == std::tuple<ll, ll>(a, b)), "tuple conversion");
        suisen::AffineClamp<ll> h(a, b, -5, 7); std::tuple<ll, ll, ll, ll> t = h.operator std::tuple<ll, ll, ll, ll>(); MC_CHECK((t == std::tuple<ll, ll, ll, ll>(a, b, -5, 7)), "clamp tuple"); auto id = suisen::AffineClamp<ll>::id(); for (ll v : {std::numeric_limits<ll>::min(), -1LL, 0LL, 5LL, std::numeric_limits<ll>::max()}) MC_EQ(id(v), v, "clamp id"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { u64 v = c.choose(40); std::unordered_set<nimber> s; for (u64 i = 0; i <= v; ++i) { s.insert(nimber(i)); s.insert(nimber(i)); } MC_EQ(s.size(), size_t(v + 1), "hash set of nimbers"); for (u64 i = 0; i < 45; ++i) MC_EQ(s.count(nimber(i)), size_t(i <= v), "membership"); mc::step(); }); }
MC_MAIN
