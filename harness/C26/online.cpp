// Online (relaxed) convolutions checked after every append, Dirichlet and (min,+) convolutions.
#include "mc.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include <numeric>
#include <cassert>
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
#include "library/convolution/dirichlet_convolution.hpp"
#include "library/convolution/min_plus_convolution.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using ll = long long;
static std::vector<mint> cv(const std::vector<mint>& a, const std::vector<mint>& b) { return atcoder::convolution(a, b); }
static std::vector<ll> cvl(const std::vector<ll>& a, const std::vector<ll>& b) { if (a.empty() || b.empty()) return {}; std::vector<ll> c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
static mint gen(int i, int s) { return mint((i * 48271LL + s * 977 + 13) * (i + 3)); }
// seq kinds: 0 dense, 1+i: unit at i
template <class R> void online(R& r, int N, int kf, int kg) {
    std::vector<mint> f, g; for (int n = 0; n < N; ++n) {
        mint x = kf ? mint(n == kf - 1) : gen(n, 1), y = kg ? mint(n == kg - 1) : gen(n, 2); f.push_back(x); g.push_back(y);
        mint got = r.append(x, y), w = 0;
        if (kf) { if (kf - 1 <= n) w = g[n - kf + 1]; } else if (kg) { if (kg - 1 <= n) w = f[n - kg + 1]; } else for (int i = 0; i <= n; ++i) w += f[i] * g[n - i];
        MC_EQ(got.val(), w.val(), "append #" + std::to_string(n) + " kinds " + std::to_string(kf) + "," + std::to_string(kg)); MC_EQ(r[n].val(), w.val(), "operator[]"); mc::step();
    }
    auto h = r.get(); for (int n = 0; n < N; ++n) MC_EQ(h[n].val(), r[n].val(), "get()");
}
MC_GROUP(relaxed) { mc::bound("relaxed convolution (generic and NTT): 600 appends dense (thorough 1100), and every unit sequence position < 330 against a dense one, both sides; default construction + set_convolve_function");
    { MC_CASE(0); RelaxedConvolution<mint> a(cv); online(a, mc::T(600, 1100), 0, 0); RelaxedConvolutionNTT<mint> b; online(b, mc::T(600, 1100), 0, 0); }
    for (int k = 1; k <= 330; ++k) { MC_CASE(k); RelaxedConvolutionNTT<mint> b; online(b, 330, k, 0); RelaxedConvolutionNTT<mint> c; online(c, 330, 0, k); if (k <= 70) { RelaxedConvolution<mint> d(cv); online(d, 100, k, 0); RelaxedConvolution<mint> e(cv); online(e, 100, 0, k); } } 
    { MC_CASE(1000); auto* p = new char[sizeof(RelaxedConvolution<mint>)]; memset(p, 0x5a, sizeof(RelaxedConvolution<mint>)); auto* q = new (p) RelaxedConvolution<mint>; q->set_convolve_function(cv); online(*q, 40, 0, 0); q->~RelaxedConvolution<mint>(); delete[] p; } }
template <class R> void semi(R& r, const std::vector<mint>& f, int N, int kg) { std::vector<mint> g; for (int n = 0; n < N; ++n) { mint y = kg ? mint(n == kg - 1) : gen(n, 5); g.push_back(y); mint got = r.append(y), w = 0; for (int i = 0; i <= n && i < (int)f.size(); ++i) w += f[i] * g[n - i]; MC_EQ(got.val(), w.val(), "append #" + std::to_string(n) + " |f|=" + std::to_string(f.size())); MC_EQ(r[n].val(), w.val(), "operator[]"); mc::step(); } auto h = r.get(); for (int n = 0; n < N; ++n) MC_EQ(h[n].val(), r[n].val(), "get()"); }
MC_GROUP(semi_relaxed) { mc::bound("semi-relaxed convolution (generic and NTT): |f| in {0..5, 31, 63..66, 127..130, 200, 256, 300, 700}, 330 appends dense and every unit position < 200");
    for (int m : {0, 1, 2, 3, 4, 5, 31, 63, 64, 65, 66, 127, 128, 129, 130, 200, 256, 300, 700}) { std::vector<mint> f; for (int i = 0; i < m; ++i) f.push_back(gen(i, 3));
        for (int k = 0; k <= (m == 65 || m == 200 || m == 3 ? 200 : 0); ++k) { MC_CASE(m, k); SemiRelaxedConvolutionNTT<mint> a(f); semi(a, f, k ? 210 : 330, k); if (k <= 40) { SemiRelaxedConvolution<mint> b(f, cv); semi(b, f, k ? 60 : 330, k); SemiRelaxedConvolution<mint> c(f); c.set_convolve_function(cv); semi(c, f, 20, k); } } } }
MC_GROUP(feedback) { mc::bound("online use: the appended coefficients depend on the returned ones (g' = g*g recurrences and inverse), 300 terms, generic and NTT");
    { MC_CASE(0); RelaxedConvolutionNTT<mint> a; RelaxedConvolution<mint> b(cv); std::vector<mint> c{1}; for (int n = 0; n < 300; ++n) { mint x = a.append(c[n], c[n]), y = b.append(c[n], c[n]); MC_EQ(x.val(), y.val(), "same"); c.push_back(x); mc::step(); } std::vector<mint> cat{1}; for (int n = 0; n < 300; ++n) { mint s = 0; for (int i = 0; i <= n; ++i) s += cat[i] * cat[n - i]; cat.push_back(s); } MC_CHECK(c == cat, "Catalan recurrence"); }
    { MC_CASE(1); std::vector<mint> f; for (int i = 0; i < 300; ++i) f.push_back(gen(i, 8)); mint i0 = f[0].inv(); std::vector<mint> f1(f.begin() + 1, f.end()); SemiRelaxedConvolutionNTT<mint> a(f1); std::vector<mint> g{i0}; for (int n = 1; n < 300; ++n) { g.push_back(-a.append(g[n - 1]) * i0); mc::step(); } auto h = cv(f, g); for (int i = 0; i < 300; ++i) MC_EQ(h[i].val(), (unsigned)(i == 0), "inverse"); } }
MC_GROUP(dirichlet) { mc::bound("Dirichlet and coprime Dirichlet convolution: |a|,|b|,n in 0..14 (all triples), dense; n=60 every basis pair");
    auto ref = [](const std::vector<ll>& a, const std::vector<ll>& b, int n, bool cop) { std::vector<ll> c(n); for (int i = 1; i < (int)a.size(); ++i) for (int j = 1; j < (int)b.size(); ++j) if (i * j < n && (!cop || std::gcd(i, j) == 1)) c[i * j] += a[i] * b[j]; return c; };
    auto run = [&](const std::vector<ll>& a, const std::vector<ll>& b, int n) { MC_CHECK(dirichlet_convolution<ll>(a, b, n) == ref(a, b, n, false), "dirichlet"); MC_CHECK(dirichlet_convolution_coprime<ll>(a, b, n) == ref(a, b, n, true), "coprime"); mc::step(); };
    for (int x = 0; x <= 14; ++x) for (int y = 0; y <= 14; ++y) for (int n = 0; n <= 30; ++n) { MC_CASE(x, y, n); std::vector<ll> a(x), b(y); for (int i = 0; i < x; ++i) a[i] = i * i + 3; for (int i = 0; i < y; ++i) b[i] = 5 * i + 1; run(a, b, n); }
    for (int i = 0; i < 60; ++i) for (int j = 0; j < 60; ++j) { MC_CASE(60, i, j); std::vector<ll> a(60), b(60); a[i] = 2; b[j] = 3; run(a, b, 60); } }
MC_GROUP(min_plus) { mc::bound("(min,+): all convex a with start 0/5, slopes in -2..2, n<=5, against all convex b (m<=4) and all arbitrary b over -1..2, m<=4 (thorough 5)");
    auto ref = [](const std::vector<ll>& a, const std::vector<ll>& b) { std::vector<ll> c(a.size() + b.size() - 1, LLONG_MAX); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] = std::min(c[i + j], a[i] + b[j]); return c; };
    auto convex = [](mc::Chooser& c, int n) { std::vector<ll> a{c.flag() ? 5 : 0}; int s = -2; for (int i = 1; i < n; ++i) { s = c.range(s, 2); a.push_back(a.back() + s); } return a; };
    mc::explore([&](mc::Chooser& c) { auto a = convex(c, c.range(1, 5)); auto b = convex(c, c.range(1, 4)); MC_CHECK(min_plus_convolution_convex_convex(a, b) == ref(a, b), mc::show(a) + mc::show(b)); MC_CHECK(min_plus_convolution_convex_convex(b, a) == ref(a, b), mc::show(a) + mc::show(b)); mc::step(); });
    mc::explore([&](mc::Chooser& c) { auto a = convex(c, c.range(1, 5)); int m = c.range(1, mc::T(4, 5)); std::vector<ll> b(m); for (auto& x : b) x = c.range(-1, 2); MC_CHECK(min_plus_convolution_convex_arbitrary(a, b) == ref(a, b), mc::show(a) + mc::show(b)); mc::step(); });
    for (int n : {1, 2, 7, 20, 33}) for (int m : {1, 2, 9, 31}) for (int s = 0; s < 6; ++s) { MC_CASE(n, m, s); std::vector<ll> a(n), b(m); for (int i = 0; i < n; ++i) a[i] = ll(i - s) * (i - s); for (int j = 0; j < m; ++j) b[j] = (j * 7919 + s * 31) % 41 - 20; MC_CHECK(min_plus_convolution_convex_arbitrary(a, b) == ref(a, b), "larger"); mc::step(); } 
    for (int i = 0; i < 2; ++i) { MC_CASE(i); ll M = LLONG_MAX / 4; std::vector<ll> a{i ? M : -M, 0, i ? -M + 5 : M + 7}, b{M, -M, 3}; if (!i || true) { std::vector<ll> a2{M, 0, 0, M}; MC_CHECK(min_plus_convolution_convex_arbitrary(a2, b) == ref(a2, b), "large values"); } mc::step(); } }
MC_MAIN
