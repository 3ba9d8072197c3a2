// Transforms and transform-based convolutions against their defining sums.  All of them are (bi)linear in
// their data, so checking every basis vector (pair) decides a size completely; dense vectors are added.
#include "mc.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include <numeric>
#include "library/convolution/and_convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/convolution/gcd_convolution.hpp"
#include "library/convolution/lcm_convolution.hpp"
#include "library/convolution/subset_convolution.hpp"
#include "library/convolution/array_subset_convolution.hpp"
#include "library/convolution/polynomial_eval.hpp"
#include "library/transform/kronecker.hpp"
#include "library/transform/chirp_z_transform.hpp"
using namespace suisen;
using mint = atcoder::modint998244353;
using ll = long long;
template <class T> std::string sh(const std::vector<T>& v) { std::string s; for (auto& x : v) { if constexpr (std::is_integral_v<T>) s += std::to_string(x) + " "; else s += std::to_string(x.val()) + " "; } return s; }
template <class T> T val(int k) { return T(ll(k) * 7919 % 1009 + 1); }
template <class T> std::vector<T> dense(int n, int salt) { std::vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = val<T>(i * 31 + salt * 977 + 5); return v; }
template <class T> std::vector<T> unit(int n, int i, T x = T(1)) { std::vector<T> v(n, T(0)); v[i] = x; return v; }

template <class T> void bitconv(int n) {
    auto run = [&](const std::vector<T>& a, const std::vector<T>& b, int tag) {
        std::vector<T> A(n, T(0)), O(n, T(0)), X(n, T(0)), S(n, T(0));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { T p = a[i] * b[j]; A[i & j] += p; O[i | j] += p; X[i ^ j] += p; if (!(i & j)) S[i | j] += p; }
        MC_CHECK((and_convolution<T>(a, b) == A), "and " + sh(a) + "/" + sh(b)); MC_CHECK((or_convolution<T>(a, b) == O), "or " + sh(a) + "/" + sh(b));
        MC_CHECK((xor_convolution<T>(a, b) == X), "xor " + sh(a) + "/" + sh(b));
        if constexpr (!std::is_integral_v<T>) {
            MC_CHECK((subset_convolution<T>(a, b) == S), "subset " + sh(a) + "/" + sh(b));
            auto ra = array_ranked_subset_transform::ranked_zeta<T, 7>(a), rb = array_ranked_subset_transform::ranked_zeta<T, 7>(b);
            for (int i = 0; i < n; ++i) ra[i] = ra[i] * rb[i];
            MC_CHECK((array_ranked_subset_transform::deranked_mobius<T, 7>(ra) == S), "array subset " + sh(a) + "/" + sh(b));
        }
        mc::step();
    };
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { MC_CASE(n, i, j); run(unit<T>(n, i, T(3)), unit<T>(n, j, T(5)), 0); }
    for (int s = 0; s < 4; ++s) { MC_CASE(n, -1, s); run(dense<T>(n, s), dense<T>(n, s + 9), 1); }
}
MC_GROUP(bit_conv_mod) { mc::bound("and/or/xor/subset/array-subset convolution mod p: sizes 2^0..2^5 (thorough 2^6), every pair of basis vectors + dense"); for (int n = 1; n <= mc::T(32, 64); n *= 2) bitconv<mint>(n); }
MC_GROUP(bit_conv_int) { mc::bound("and/or/xor convolution over long long and int: sizes 2^0..2^5"); for (int n = 1; n <= 32; n *= 2) bitconv<ll>(n); for (int n = 1; n <= 16; n *= 2) bitconv<int>(n); }
// user-supplied operations: (max, +)-style zeta, multiplication replaced
static ll mx(ll a, ll b) { return std::max(a, b); }
MC_GROUP(custom_ops) {
    mc::bound("zeta with a user-supplied max, all 3^(2^n) inputs n<=3 (n=3: values 0..1), all four lattices; transform_convolution of several factors");
    mc::explore([&](mc::Chooser& c) {
        int n = 1 << c.range(0, 3); int m = n == 8 ? 2 : 3; std::vector<ll> f(n); for (auto& x : f) x = c.choose(m);
        auto a = f, b = f; subset_transform::zeta<ll, mx>(a); supset_transform::zeta<ll, mx>(b);
        for (int i = 0; i < n; ++i) { ll u = 0, v = 0; for (int j = 0; j < n; ++j) { if ((j & i) == j) u = std::max(u, f[j]); if ((j & i) == i) v = std::max(v, f[j]); } MC_EQ(a[i], u, "subset max"); MC_EQ(b[i], v, "supset max"); }
        mc::step();
    });
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, 9); std::vector<ll> f(n); for (auto& x : f) x = c.choose(n >= 8 ? 2 : n > 5 ? 2 : 3);
        auto a = f, b = f; divisor_transform::zeta<ll, mx>(a); multiple_transform::zeta<ll, mx>(b);
        for (int i = 1; i < n; ++i) { ll u = 0, v = 0; for (int j = 1; j < n; ++j) { if (i % j == 0) u = std::max(u, f[j]); if (j % i == 0) v = std::max(v, f[j]); } MC_EQ(a[i], u, "divisor max"); MC_EQ(b[i], v, "multiple max"); }
        mc::step();
    });
    for (int k = 1; k <= 4; ++k) { MC_CASE(k); std::vector<std::vector<mint>> fs; for (int i = 0; i < k; ++i) fs.push_back(dense<mint>(8, i)); auto w = fs[0]; for (int i = 1; i < k; ++i) { std::vector<mint> t(8); for (int x = 0; x < 8; ++x) for (int y = 0; y < 8; ++y) t[x | y] += w[x] * fs[i][y]; w = t; }
        auto g = convolution::transform_convolution<mint, subset_transform::zeta<mint>, subset_transform::mobius<mint>>(fs); MC_CHECK(g == w, "k-fold or convolution"); mc::step(); }
}
template <class T> void lattice(int n) {
    auto runl = [&](const std::vector<T>& f) {
        std::vector<T> dz = f, mz = f; divisor_transform::zeta<T>(dz); multiple_transform::zeta<T>(mz);
        for (int i = 1; i < n; ++i) { T u = 0, v = 0; for (int j = 1; j < n; ++j) { if (i % j == 0) u += f[j]; if (j % i == 0) v += f[j]; } MC_CHECK(dz[i] == u, "divisor zeta n=" + std::to_string(n)); MC_CHECK(mz[i] == v, "multiple zeta n=" + std::to_string(n)); }
        divisor_transform::mobius<T>(dz); multiple_transform::mobius<T>(mz); MC_CHECK(dz == f && mz == f, "mobius inverts zeta n=" + std::to_string(n));
        mc::step();
    };
    for (int i = 0; i < n; ++i) { MC_CASE(n, i); runl(unit<T>(n, i)); }
    runl(dense<T>(n, n));
}
MC_GROUP(divisor_multiple) { mc::bound("divisor/multiple zeta+mobius: all sizes 0..80 (thorough 200), every basis vector + dense"); for (int n = 0; n <= mc::T(80, 200); ++n) lattice<ll>(n); for (int n : {0, 1, 2, 30, 61}) lattice<mint>(n); }
MC_GROUP(gcd_lcm_conv) {
    mc::bound("gcd/lcm convolution: all sizes 0..26 (thorough 40), every pair of basis vectors with index >= 1, + dense");
    for (int n = 0; n <= mc::T(26, 40); ++n) {
        auto run = [&](std::vector<mint> a, std::vector<mint> b) {
            std::vector<mint> G(n), L(n); for (int i = 1; i < n; ++i) for (int j = 1; j < n; ++j) { G[std::gcd(i, j)] += a[i] * b[j]; if (std::lcm(i, j) < n) L[std::lcm(i, j)] += a[i] * b[j]; }
            auto g = gcd_convolution<mint>(a, b), l = lcm_convolution<mint>(a, b);
            for (int i = 1; i < n; ++i) { MC_EQ(g[i].val(), G[i].val(), "gcd"); MC_EQ(l[i].val(), L[i].val(), "lcm"); }
            mc::step();
        };
        for (int i = 1; i < n; ++i) for (int j = 1; j < n; ++j) { MC_CASE(n, i, j); run(unit<mint>(n, i), unit<mint>(n, j)); }
        MC_CASE(n, -1); run(dense<mint>(n, 1), dense<mint>(n, 2));
    }
}
MC_GROUP(poly_eval) {
    mc::bound("polynomial_eval: composition of a polynomial of degree <= 3 with and/or/xor/gcd algebra elements, sizes up to 16, lvalue, const and rvalue arguments");
    for (int n = 1; n <= 16; n *= 2) for (int s = 0; s < 3; ++s) for (int t = 0; t < 3; ++t) {
        MC_CASE(n, s, t); std::vector<mint> a = dense<mint>(n, s); mint c0 = t, c1 = t * 3 + 1, c2 = t == 1 ? 0 : 5, c3 = t;
        auto f = [&](mint x) { return c0 + x * (c1 + x * (c2 + x * c3)); };
        for (int op = 0; op < 3; ++op) {
            auto mulv = [&](const std::vector<mint>& x, const std::vector<mint>& y) { std::vector<mint> z(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) z[op == 0 ? (i & j) : op == 1 ? (i | j) : (i ^ j)] += x[i] * y[j]; return z; };
            std::vector<mint> one(n); one[op == 0 ? n - 1 : 0] = 1; std::vector<mint> w(n), p = one; mint cs[] = {c0, c1, c2, c3};
            for (int d = 0; d < 4; ++d) { for (int i = 0; i < n; ++i) w[i] += cs[d] * p[i]; p = mulv(p, a); }
            std::vector<mint> g, h; const auto& ca = a;
            if (op == 0) g = polynomial_eval<mint, supset_transform::zeta<mint>, supset_transform::mobius<mint>>(ca, f), h = polynomial_eval<mint, supset_transform::zeta<mint>, supset_transform::mobius<mint>>(std::vector<mint>(a), f);
            if (op == 1) g = polynomial_eval<mint, subset_transform::zeta<mint>, subset_transform::mobius<mint>>(ca, f), h = polynomial_eval<mint, subset_transform::zeta<mint>, subset_transform::mobius<mint>>(std::vector<mint>(a), f);
            if (op == 2) g = polynomial_eval<mint, walsh_hadamard_transform::walsh_hadamard<mint>, walsh_hadamard_transform::walsh_hadamard_inv<mint>>(ca, f), h = polynomial_eval<mint, walsh_hadamard_transform::walsh_hadamard<mint>, walsh_hadamard_transform::walsh_hadamard_inv<mint>>(std::vector<mint>(a), f);
            MC_CHECK(g == w && h == w, "polynomial_eval op " + std::to_string(op)); MC_CHECK(a == dense<mint>(n, s), "argument untouched");
        }
        mc::step();
    }
}
MC_GROUP(kronecker_) {
    mc::bound("kronecker transforms: every dims list with product <= 24, every basis vector; matrix powers with every 0/1/2 2x2 matrix and a 3x3 one");
    std::vector<std::vector<int>> all; std::vector<int> cur; std::function<void(int)> rec = [&](int p) { all.push_back(cur); if (cur.size() < 5) for (int d = 1; d * p <= 24; ++d) { if (d == 1 && cur.size() >= 3) continue; cur.push_back(d); rec(p * d); cur.pop_back(); } }; rec(1);
    for (size_t t = 0; t < all.size(); ++t) {
        auto& dims = all[t]; int n = 1; for (int d : dims) n *= d;
        auto digs = [&](int x) { std::vector<int> r; for (int d : dims) r.push_back(x % d), x /= d; return r; };
        std::vector<std::vector<int>> D(n); for (int i = 0; i < n; ++i) D[i] = digs(i);
        auto le = [&](int i, int j) { for (size_t k = 0; k < dims.size(); ++k) if (D[i][k] > D[j][k]) return false; return true; };
        for (int b = 0; b <= n; ++b) {
            MC_CASE(t, b); std::vector<ll> f = b < n ? unit<ll>(n, b) : dense<ll>(n, t), s = f, u = f;
            kronecker_transform::sub_zeta<ll>(s, dims); kronecker_transform::sup_zeta<ll>(u, dims);
            for (int i = 0; i < n; ++i) { ll x = 0, y = 0; for (int j = 0; j < n; ++j) { if (le(j, i)) x += f[j]; if (le(i, j)) y += f[j]; } MC_EQ(s[i], x, "sub_zeta"); MC_EQ(u[i], y, "sup_zeta"); }
            kronecker_transform::sub_mobius<ll>(s, dims); kronecker_transform::sup_mobius<ll>(u, dims); MC_CHECK(s == f && u == f, "mobius");
            mc::step();
        }
        // which slices are visited
        MC_CASE(t); std::vector<int> cnt(n, 0); std::vector<ll> idx(n); std::iota(idx.begin(), idx.end(), 0);
        std::vector<std::vector<int>> seen(dims.size(), std::vector<int>(n, 0));
        kronecker_transform::transform(idx, dims, [&](int d, StepView<std::vector<ll>> v) { MC_EQ((int)v.size(), dims[d], "slice length"); for (size_t k = 0; k < v.size(); ++k) { int x = v[k]; seen[d][x]++; MC_EQ(D[x][d], (int)k, "slice order"); if (k) for (size_t e = 0; e < dims.size(); ++e) if ((int)e != d) MC_EQ(D[x][e], D[v[0]][e], "slice fixed coordinates"); } });
        for (auto& r : seen) for (int x : r) MC_EQ(x, 1, "every entry in exactly one slice per dimension");
        mc::step();
    }
    for (int d = 2; d <= 4; ++d) for (int e = 0; e <= 3; ++e) { int n = 1; for (int i = 0; i < e; ++i) n *= d; MC_CASE(d, e); auto f = dense<ll>(n, d), g = f, h = f; std::vector<int> dims(e, d); kronecker_transform::sub_zeta<ll>(g, d); kronecker_transform::sub_zeta<ll>(h, dims); MC_CHECK(g == h, "uniform"); kronecker_transform::sub_mobius<ll>(g, d); MC_CHECK(g == f, "uniform mobius");
        kronecker_transform::sup_zeta<ll>(g, d); kronecker_transform::sup_mobius<ll>(g, d); MC_CHECK(g == f, "uniform sup"); g = f; h = f; kronecker_transform::sup_zeta<ll>(g, d); kronecker_transform::sup_zeta<ll>(h, dims); MC_CHECK(g == h, "uniform sup"); 
        int calls = 0; kronecker_transform::transform(g, d, [&](StepView<std::vector<ll>> v) { calls++; MC_EQ((int)v.size(), d, "len"); }); MC_EQ(calls, e ? e * n / d : 0, "calls"); mc::step(); }
    mc::explore([&](mc::Chooser& c) {
        int D = c.range(2, 3); std::vector<std::vector<mint>> A(D, std::vector<mint>(D)); if (D == 2) { for (auto& r : A) for (auto& x : r) x = c.choose(3); } else for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = i * 3 + j * j + 1;
        int e = c.range(0, D == 2 ? 3 : 2), n = 1; for (int i = 0; i < e; ++i) n *= D; auto f = dense<mint>(n, 3), g = f; kronecker_power_transform::kronecker_power_transform<mint>(g, A);
        for (int i = 0; i < n; ++i) { mint s = 0; for (int j = 0; j < n; ++j) { mint p = f[j]; int x = i, y = j; for (int k = 0; k < e; ++k) p *= A[x % D][y % D], x /= D, y /= D; s += p; } MC_EQ(g[i].val(), s.val(), "A^(x)e"); }
        mc::step();
    });
}
MC_GROUP(chirp_z) {
    mc::bound("chirp z-transform: n in 0..70 around the 60 switch, m in {0,1,2,n,n+5,150}, a in {0,1,2,5,p-1}, r in {0,1,p-1,3, order-8 root}, each basis vector for n<=8 and dense otherwise; default and custom convolution");
    std::vector<int> ns{0, 1, 2, 3, 5, 8, 30, 58, 59, 60, 61, 64, 70}; mint w8 = mint(3).pow((998244353 - 1) / 8);
    for (int n : ns) for (int m : {0, 1, 2, n, n + 5, 150}) for (mint a : {mint(0), mint(1), mint(2), mint(5), mint(-1)}) for (mint r : {mint(0), mint(1), mint(-1), mint(3), w8}) for (int b = (n <= 8 ? 0 : n); b <= n; ++b) {
        MC_CASE(n, m, a.val(), r.val(), b); std::vector<mint> f = b < n ? unit<mint>(n, b) : dense<mint>(n, 1);
        auto g = b & 1 ? chirp_z_transform<mint>(f, a, r, m, [](const std::vector<mint>& x, const std::vector<mint>& y) { return atcoder::convolution(x, y); }) : chirp_z_transform<mint>(f, a, r, m);
        MC_EQ((int)g.size(), m, "size"); mint p = a;
        for (int k = 0; k < m; ++k) { mint y = 0; for (int i = n; i-- > 0;) y = y * p + f[i]; MC_EQ(g[k].val(), y.val(), "f(a r^k) k=" + std::to_string(k)); p *= r; }
        mc::step();
    }
}
MC_MAIN
