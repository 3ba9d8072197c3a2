// mc: flags='-O1'
// Formal power series: every operation checked against its defining identity computed by plain O(n^2) loops.
#include "mc.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/array_fps_naive.hpp"
using namespace suisen;
using mint = atcoder::modint998244353; using ll = long long; using V = std::vector<mint>;
using A = FormalPowerSeries<mint>; using B = FPS<mint>; using C = FPSNaive<mint>;
static V conv(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
static mint at(const V& a, int i) { return i < (int)a.size() ? a[i] : mint(0); }
template <class T> V vec(const T& f) { return V(f.begin(), f.end()); }
static V trim(V a) { while (a.size() && a.back() == 0) a.pop_back(); return a; }
static std::string sh(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 12; ++i) { int x = v[i].val(); s += std::to_string(x > 499122176 ? x - 998244353 : x) + " "; } return s + (v.size() > 12 ? "... n=" + std::to_string(v.size()) : "") + "]"; }
// (f*g) mod x^n equals h mod x^n
static bool prodeq(const V& f, const V& g, const V& h, int n) { for (int k = 0; k < n; ++k) { mint s = 0; for (int i = 0; i <= k && i < (int)f.size(); ++i) s += f[i] * at(g, k - i); if (s != at(h, k)) return false; } return true; }
static V diff(const V& f) { V r; for (size_t i = 1; i < f.size(); ++i) r.push_back(f[i] * mint((int)i)); return r; }
template <class T> struct Is { static constexpr bool naive = false; }; template <> struct Is<C> { static constexpr bool naive = true; };

template <class T> void checkUnary(const V& f, int n, const std::string& nm) { // n: number of terms requested, -1 = default
    const T F(f); int N = n < 0 ? (int)f.size() : n; std::string ctx = nm + " f=" + sh(f) + " n=" + std::to_string(n);
    if (f.size() && f[0] != 0) { V g = vec(F.inv(n)); MC_EQ((int)g.size(), N, "inv size " + ctx); MC_CHECK(prodeq(f, g, V{1}, N), "inv " + ctx); }
    if (f.size() && f[0] == 1) { V g = vec(F.log(n)); MC_EQ((int)g.size(), N, "log size " + ctx); MC_CHECK(N == 0 || g[0] == 0, "log(1)=0 " + ctx); if (N > 1) { V t = f; t.resize(N); MC_CHECK(prodeq(diff(g), f, diff(t), N - 1), "log " + ctx); } }
    if (!f.size() || f[0] == 0) { if (!(Is<T>::naive && f.empty())) { V g = vec(T(F).exp(n)); MC_EQ((int)g.size(), N, "exp size " + ctx); if (N) { MC_CHECK(g[0] == 1, "exp(0)=1 " + ctx); V t = f; t.resize(N); MC_CHECK(prodeq(diff(t), g, diff(g), N - 1), "exp " + ctx); } } }
    mc::step();
}
template <class T> void checkPow(const V& f, ll k, int n, const std::string& nm) {
    const T F(f); int N = n < 0 ? (int)f.size() : n; std::string ctx = nm + " f=" + sh(f) + " k=" + std::to_string(k) + " n=" + std::to_string(n); if (N == 0) return;
    V g = vec(F.pow(k, n)); MC_EQ((int)g.size(), N, "pow size " + ctx);
    if (k <= 6) { V w{1}; for (int i = 0; i < k; ++i) { w = conv(w, f); if ((int)w.size() > N) w.resize(N); } w.resize(N); MC_CHECK(g == w, "pow " + ctx); }
    else { int z = 0; while (z < (int)f.size() && f[z] == 0) ++z;
        if (z == (int)f.size() || (z && z > (N - 1) / k)) { MC_CHECK(trim(g).empty(), "pow zero " + ctx); }
        else { ll zk = (ll)z * k; for (int i = 0; i < zk; ++i) MC_CHECK(g[i] == 0, "pow leading " + ctx); MC_CHECK(g[zk] == f[z].pow(k), "pow lead coefficient " + ctx);
            V ff(f.begin() + z, f.end()), gg(g.begin() + zk, g.end()); int M = gg.size(); ff.resize(M); V df = diff(ff); for (auto& x : df) x *= mint(k); if (M > 1) { for (int t = 0; t < M - 1; ++t) { mint s = 0; V dg; for (int i = 0; i <= t; ++i) s += ff[i] * gg[t - i + 1] * mint(t - i + 1) - at(df, i) * gg[t - i]; MC_CHECK(s == 0, "f g' = k f' g " + ctx); } } } }
    mc::step();
}
template <class T> void checkSqrt(const V& f, int n, const std::string& nm) {
    const T F(f); int N = n < 0 ? (int)f.size() : n; std::string ctx = nm + " f=" + sh(f) + " n=" + std::to_string(n);
    int z = 0; while (z < (int)f.size() && f[z] == 0) ++z;
    auto g = F.safe_sqrt(n);
    if (z < (int)f.size() && z >= N) { if (g) { V v = vec(*g); MC_CHECK(prodeq(v, v, V{}, N), "sqrt of 0 mod x^n " + ctx); } mc::step(); return; }
    bool ex = z == (int)f.size() || (z % 2 == 0 && f[z].pow((998244353 - 1) / 2) == 1);
    MC_EQ(g.has_value(), ex, "sqrt existence " + ctx); if (g) { V v = vec(*g); MC_EQ((int)v.size(), N, "sqrt size " + ctx); MC_CHECK(prodeq(v, v, f, N), "sqrt " + ctx); if (n < 0) MC_CHECK(vec(F.sqrt()) == v, "sqrt()"); }
    mc::step();
}
static V pool(int len, int kind) { V f(len); for (int i = 0; i < len; ++i) switch (kind) { case 0: f[i] = (i * 7919LL + 13) * (i + 5) % 1000003; break; case 1: f[i] = i % 5 == 0 ? i + 1 : 0; break; case 2: f[i] = -1; break; case 3: f[i] = (i == 0 || i == len - 1) ? 3 : 0; break; case 4: f[i] = i < 15 ? i + 2 : 0; break; case 5: f[i] = i < 16 ? i + 2 : 0; break; case 6: f[i] = i % 2 ? 1 : -2; break; } return f; }
static const int NK = 7;
static std::vector<int> lens() { return mc::thorough() ? std::vector<int>{1, 2, 3, 16, 31, 58, 59, 60, 61, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300} : std::vector<int>{1, 2, 16, 59, 60, 61, 64, 65, 128, 130}; }
template <class T> void small(const char* nm) {
    static const int al[] = {0, 1, -1, 2};
    mc::explore([&](mc::Chooser& c) {
        int m = c.range(0, mc::T(4, 5)); V f(m); for (auto& x : f) x = al[c.choose(4)];
        for (int n = 1; n <= 7; ++n) { if (!(Is<T>::naive && m == 0)) checkUnary<T>(f, n, nm); checkSqrt<T>(f, n, nm); for (ll k : {0LL, 1LL, 2LL, 3LL, 5LL, 998244353LL, 1000000000000000000LL}) checkPow<T>(f, k, n, nm); }
        if (!(Is<T>::naive && m == 0)) checkUnary<T>(f, -1, nm); checkSqrt<T>(f, -1, nm); for (ll k : {0LL, 1LL, 4LL}) checkPow<T>(f, k, -1, nm);
        T F(f); V d = trim(vec(F.diff())); MC_CHECK(d == trim(diff(f)), "diff"); V I = vec(F.intg()); MC_EQ((int)I.size(), m + 1, "intg size"); MC_CHECK(I[0] == 0 && trim(diff(I)) == trim(f), "intg");
        for (int x = -2; x <= 2; ++x) { mint y = 0, p = 1; for (auto& e : f) y += e * p, p *= x; MC_CHECK(F.eval(x) == y, "eval"); }
        for (int s = 0; s <= 6; ++s) { V l(s); l.insert(l.end(), f.begin(), f.end()); MC_CHECK(trim(vec(F << s)) == trim(l), "<<"); V r(f.begin() + std::min(s, m), f.end()); MC_CHECK(vec(F >> s) == r, ">>"); }
        T G = F; ++G; MC_CHECK(trim(vec(G)) == trim(conv(V{1}, [&] { V t = f; t.resize(std::max(m, 1)); t[0] += 1; return t; }())), "++"); --G; MC_CHECK(trim(vec(G)) == trim(f), "--"); MC_CHECK(trim(vec(-F + F)).empty(), "-f+f"); MC_CHECK((F == G) && !(F != G), "==");
    });
}
template <class T> void big(const char* nm) {
    for (int len : lens()) for (int kind = 0; kind < NK; ++kind) {
        V f = pool(len, kind);
        for (int n : {-1, 1, 40, 59, 60, 61, 64, 65, 100, 130}) {
            if (!mc::thorough() && n > 65 && len > 66) continue;
            MC_CASE(len, kind, n);
            V h = f; if (h[0] == 0) h[0] = 5; checkUnary<T>(h, n, nm); h[0] = 1; checkUnary<T>(h, n, nm); h[0] = 0; checkUnary<T>(h, n, nm);
            for (int z : {0, 1, 2, 3, 20}) { V s(z); s.insert(s.end(), f.begin(), f.end()); s[z] = 4; checkSqrt<T>(s, n, nm); s[z] = 3; if (z < 3) checkSqrt<T>(s, n, nm); }
            for (ll k : {0LL, 1LL, 3LL, 7LL, 998244352LL, 1000000000000LL}) for (int z : {0, 1, 12}) { V s(z); s.insert(s.end(), f.begin(), f.end()); checkPow<T>(s, k, n, nm); }
        }
    }
}
MC_GROUP(small_ntt) { mc::bound("FormalPowerSeries: all coefficient vectors of length <= 4 (thorough 5) over {0,1,-1,2}, results of 1..7 terms and default size: inv log exp pow(k up to 1e18) sqrt diff intg eval shifts"); small<A>("FormalPowerSeries"); }
MC_GROUP(small_generic) { mc::bound("FPS with user-supplied multiplication: same space"); B::set_multiplication([](const V& a, const V& b) { return conv(a, b); }); small<B>("FPS"); }
MC_GROUP(small_naive) { mc::bound("FPSNaive: same space"); small<C>("FPSNaive"); }
MC_GROUP(big_ntt) { mc::bound("FormalPowerSeries: lengths around the 60-term, 15/16-nonzero and power-of-two switches x 7 shapes x 10 result sizes x leading-zero counts"); big<A>("FormalPowerSeries"); }
MC_GROUP(big_generic) { mc::bound("FPS: same space, multiplication = NTT"); B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); }); big<B>("FPS"); }
MC_GROUP(sqrt_far) { mc::bound("sqrt mod x^n of series whose first nonzero term lies beyond x^n (sparse and dense, n below and above 60)"); B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); });
    for (int z : {59, 60, 62, 80, 120, 122, 160, 200}) for (int terms : {1, 14, 20}) for (int n : {1, 30, 59, 60, 61, 80, 100}) { MC_CASE(z, terms, n); V f(z + terms); for (int i = 0; i < terms; ++i) f[z + i] = i ? i + 7 : 4; checkSqrt<A>(f, n, "A"); checkSqrt<B>(f, n, "B"); } }
template <class T> void mulgrp(const char* nm) {
    for (int n : {0, 1, 2, 59, 60, 61, 62, 63, 64, 65, 66, 67, 70, 75, 100, 128, 140}) for (int m : {0, 1, 5, 60, 61, 62, 64, 65, 66, 68, 70, 77, 129, 190, 196}) for (int k : {0, 2}) { MC_CASE(n, m, k); V f = pool(n, k), g = pool(m, 6 - k); MC_CHECK(trim(vec(T(f) * T(g))) == trim(conv(f, g)), std::string("product ") + nm); mc::step(); }
}
MC_GROUP(products) { mc::bound("products at all size pairs around the 60/61 switch and just above powers of two (the wrap-avoidance path)"); B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); }); mulgrp<A>("A"); mulgrp<B>("B"); mulgrp<C>("C"); 
    for (int d = 55; d <= 75; ++d) for (int e = 61; e <= 75; ++e) { MC_CASE(d, e, 99); V f = pool(d, 0), g = pool(e, 2); MC_CHECK(trim(vec(A(f) * A(g))) == trim(conv(f, g)), "product A"); mc::step(); } }
template <class T> void divchk(const V& f, const V& g, const char* nm) {
    T F(f), G(g); auto qr = F.div_mod(G); V q = vec(qr.first), r = vec(qr.second), s = conv(q, g), tf = trim(f), tg = trim(g); s.resize(std::max({s.size(), r.size(), f.size()})); for (size_t i = 0; i < r.size(); ++i) s[i] += r[i];
    std::string ctx = std::string(nm) + " " + sh(f) + " / " + sh(g); MC_CHECK(trim(s) == tf, "f=qg+r " + ctx); MC_CHECK(trim(r).size() < tg.size(), "deg r < deg g " + ctx); MC_CHECK(trim(vec(F / G)) == trim(q), "/ " + ctx); MC_CHECK(trim(vec(F % G)) == trim(r), "% " + ctx); mc::step();
}
MC_GROUP(division) { mc::bound("div_mod: all f (len<=4), g (len<=3) over {0,1,-1,2}; shapes at lengths around 60 and powers of two; trailing zero coefficients; all three types"); B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); });
    static const int al[] = {0, 1, -1, 2};
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4), m = c.range(1, 3); V f(n), g(m); for (auto& x : f) x = al[c.choose(4)]; for (auto& x : g) x = al[c.choose(4)]; if (trim(g).empty()) return; divchk<A>(f, g, "A"); divchk<B>(f, g, "B"); divchk<C>(f, g, "C"); });
    for (int n : {1, 58, 59, 60, 61, 64, 65, 100, 128, 130, 200}) for (int m : {1, 2, 5, 30, 59, 60, 61, 64, 65, 99, 130}) for (int k = 0; k < NK; ++k) for (int t : {0, 3}) { MC_CASE(n, m, k, t); V f = pool(n, k), g = pool(m, (k + 2) % NK); if (trim(g).empty()) continue; f.resize(n + t); g.resize(m + t); divchk<A>(f, g, "A"); divchk<B>(f, g, "B"); if (n < 70) divchk<C>(f, g, "C"); if (n > m) { V p = conv(pool(n, k), pool(m, 0)); divchk<A>(p, pool(m, 0), "A exact"); divchk<B>(p, pool(m, 0), "B exact"); } } }
MC_GROUP(prod_many) { mc::bound("FormalPowerSeries::prod / FPS::prod over 0..6 factors of all lengths 0..3, and 40 linear factors"); B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); });
    mc::explore([&](mc::Chooser& c) { int k = c.range(0, 5); std::vector<A> fa; std::vector<B> fb; V w{1}; for (int i = 0; i < k; ++i) { V f = pool(c.range(i < 3 ? 0 : 1, 3), i % NK); for (auto& x : f) x += 1; fa.push_back(A(f)); fb.push_back(B(f)); w = conv(w, f); } MC_CHECK(trim(vec(A::prod(fa))) == trim(w), "prod A"); MC_CHECK(trim(vec(B::prod(fb))) == trim(w), "prod B"); mc::step(); });
    MC_CASE(40); std::vector<A> fs; std::vector<B> fb; V w{1}; for (int i = 0; i < 40; ++i) { V f{mint(i + 1), 1}; fs.push_back(A(f)); fb.push_back(B(f)); w = conv(w, f); } MC_CHECK(trim(vec(A::prod(fs))) == w && trim(vec(B::prod(fb))) == w, "40 factors"); mc::step(); }

template <size_t N> void arr() {
    using R = ArrayFPSNaive<mint, N>; static const int al[] = {0, 1, -1, 4};
    mc::explore([&](mc::Chooser& c) {
        R f; V v(N); for (size_t i = 0; i < N; ++i) f[i] = v[i] = al[c.choose(4)]; std::string ctx = sh(v);
        if (v[0] != 0) MC_CHECK(prodeq(v, vec(f.inv()), V{1}, N), "inv " + ctx);
        if (v[0] == 1) { V g = vec(f.log()); MC_CHECK(g[0] == 0 && prodeq(diff(g), v, diff(v), N - 1), "log " + ctx); }
        if (v[0] == 0) { V g = vec(f.exp()); MC_CHECK(g[0] == 1 && prodeq(diff(v), g, diff(g), N - 1), "exp " + ctx); }
        for (ll k : {0LL, 1LL, 2LL, 3LL, 5LL}) { V w{1}; for (int i = 0; i < k; ++i) { w = conv(w, v); w.resize(N); } w.resize(N); MC_CHECK(vec(f.pow(k)) == w, "pow " + ctx + std::to_string(k)); }
        int z = 0; while (z < (int)N && v[z] == 0) ++z; if (z == (int)N || (z % 2 == 0)) { V g = vec(f.sqrt()); MC_CHECK(prodeq(g, g, v, N), "sqrt " + ctx); }
        for (int s = 0; s <= (int)N + 2; ++s) { V l(s), r; l.insert(l.end(), v.begin(), v.end()); l.resize(N); if (s < (int)N) r.assign(v.begin() + s, v.end()); r.resize(N); MC_CHECK(vec(f << s) == l && vec(f >> s) == r, "shift " + ctx); }
        V d = diff(v); d.resize(N); MC_CHECK(vec(f.diff()) == d, "diff"); V I = vec(f.intg()); I.resize(N); MC_CHECK(I[0] == 0, "intg"); for (size_t i = 0; i + 1 < N; ++i) MC_CHECK(I[i + 1] * mint((int)i + 1) == v[i], "intg");
        mc::step();
    });
    mc::explore([&](mc::Chooser& c) { R f, g; V v(N), w(N); for (size_t i = 0; i < N; ++i) f[i] = v[i] = c.choose(3), g[i] = w[i] = c.choose(2); V p = conv(v, w); p.resize(N); MC_CHECK(vec(f * g) == p, "mul"); if (!trim(w).empty()) { auto qr = div_mod(f, g); V q = vec(qr.first), r = vec(qr.second); V s = conv(q, w); s.resize(2 * N); for (size_t i = 0; i < N; ++i) s[i] += r[i]; MC_CHECK(trim(s) == trim(v) && trim(r).size() < trim(w).size(), "div_mod"); MC_CHECK(f / g == qr.first && f % g == qr.second, "/ %"); } mc::step(); });
}
MC_GROUP(array_series) { mc::bound("ArrayFPSNaive<N>, N = 1, 2, 3, 4 (thorough 5): all coefficient vectors over {0,1,-1,4}: inv log exp pow sqrt shifts diff intg; all products and divisions over {0,1,2}x{0,1}"); arr<1>(); arr<2>(); arr<3>(); arr<4>(); if (mc::thorough()) arr<5>(); }
template <class T> void operators(const char* nm) {
    static const int al[] = {0, 1, -3};
    mc::explore([&](mc::Chooser& c) {
        int m = c.range(0, 3), l = c.range(0, 3); V f(m), g(l); for (auto& x : f) x = al[c.choose(3)]; for (auto& x : g) x = al[c.choose(3)]; mint k = std::array<int, 3>{0, 1, 5}[c.choose(3)]; const T F(f), G(g); std::string ctx = std::string(nm) + " f=" + sh(f) + " g=" + sh(g) + " k=" + std::to_string(k.val());
        auto pls = [](V a, const V& b, mint s) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] += s * b[i]; return a; };
        auto scl = [](V a, mint s) { for (auto& x : a) x *= s; return a; };
        auto eq = [&](const T& x, const V& y, const char* w) { MC_CHECK(trim(vec(x)) == trim(y), std::string(w) + " " + ctx + " got " + sh(vec(x))); };
        eq(F + G, pls(f, g, 1), "f+g"); eq(F - G, pls(f, g, -1), "f-g"); eq(F * G, conv(f, g), "f*g"); eq(+F, f, "+f"); eq(-F, scl(f, -1), "-f"); eq(F + k, pls(f, V{k}, 1), "f+k"); eq(F - k, pls(f, V{k}, -1), "f-k"); eq(F * k, scl(f, k), "f*k"); eq(k * F, scl(f, k), "k*f");
        { T H = F; T& r = (H += G); eq(H, pls(f, g, 1), "f+=g"); MC_CHECK(&r == &H, "+= returns *this"); } { T H = F; H -= G; eq(H, pls(f, g, -1), "f-=g"); } { T H = F; H *= G; eq(H, conv(f, g), "f*=g"); } { T H = F; H += k; eq(H, pls(f, V{k}, 1), "f+=k"); } { T H = F; H -= k; eq(H, pls(f, V{k}, -1), "f-=k"); } { T H = F; H *= k; eq(H, scl(f, k), "f*=k"); }
        { T H = F; H += H; eq(H, scl(f, 2), "f+=f"); H -= H; eq(H, V{}, "f-=f"); } { T H = F; H *= H; eq(H, conv(f, f), "f*=f"); }
        if (!trim(g).empty()) { auto qr = F.div_mod(G); T H = F; H /= G; eq(H, vec(qr.first), "f/=g"); H = F; H %= G; eq(H, vec(qr.second), "f%=g"); }
        for (int t = 0; t <= 5; ++t) { T H = F; H <<= t; V w(t); w.insert(w.end(), f.begin(), f.end()); eq(H, w, "<<="); H >>= t; eq(H, f, ">>="); H = F; H >>= t; eq(H, V(f.begin() + std::min(t, m), f.end()), ">>="); }
        { T H = F; T& r = ++H; eq(H, pls(f, V{1}, 1), "++f"); MC_CHECK(&r == &H, "++ returns *this"); } { T H = F; --H; eq(H, pls(f, V{1}, -1), "--f"); }
        MC_EQ(F == G, trim(f) == trim(g), "== " + ctx); MC_EQ(F != G, trim(f) != trim(g), "!= " + ctx); MC_EQ(F.size(), m, "size"); MC_EQ(F.deg(), m - 1, "deg");
        if constexpr (!Is<T>::naive) {
            eq(k + F, pls(f, V{k}, 1), "k+f"); eq(k - F, pls(V{k}, f, -1), "k-f"); if (k != 0) { eq(F / k, scl(f, k.inv()), "f/k"); T H = F; H /= k; eq(H, scl(f, k.inv()), "f/=k"); }
            { T H = F; T o = H++; eq(o, f, "f++ value"); eq(H, pls(f, V{1}, 1), "f++"); } { T H = F; T o = H--; eq(o, f, "f-- value"); eq(H, pls(f, V{1}, -1), "f--"); }
            for (int i = 0; i < 6; ++i) { MC_CHECK(F.safe_get(i) == at(f, i), "safe_get const " + ctx); T H = F; H.safe_get(i) += 7; V w = f; if ((int)w.size() <= i) w.resize(i + 1); w[i] += 7; MC_CHECK(vec(H) == w, "safe_get ref " + ctx); }
            for (int n = -1; n <= 5; ++n) { T H = F; H.cut(n); V w = f; if (n < m) w.resize(std::max(0, n)); MC_CHECK(vec(H) == w, "cut " + ctx); H = F; H.ensure(n); w = f; if (n > m) w.resize(n); MC_CHECK(vec(H) == w, "ensure"); if (n >= 0) { w = f; w.resize(n); MC_CHECK(vec(F.cut_copy(n)) == w, "cut_copy " + ctx); for (int lo = 0; lo <= n; ++lo) { V u; for (int i = lo; i < n; ++i) u.push_back(at(f, i)); MC_CHECK(vec(F.cut_copy(lo, n)) == u, "cut_copy(l,r) " + ctx); } } }
            { T H = F; H.cut_trailing_zeros(); MC_CHECK(vec(H) == trim(f), "cut_trailing_zeros"); } { T H = F; H.diff_inplace(); eq(H, diff(f), "diff_inplace"); } { T H = F; H.intg_inplace(); MC_CHECK(vec(H) == vec(F.intg()), "intg_inplace"); }
            for (int n : {-1, 1, 5}) { int N = n < 0 ? m : n; { T H = F; H.pow_inplace(3, n); MC_CHECK(vec(H) == vec(F.pow(3, n)), "pow_inplace " + ctx); } if (at(f, 0) != 0) { T H = F; H.inv_inplace(n); MC_CHECK(vec(H) == vec(F.inv(n)), "inv_inplace"); MC_EQ(H.size(), N, "inv_inplace size"); } if (at(f, 0) == 1) { T H = F; H.log_inplace(n); MC_CHECK(vec(H) == vec(F.log(n)), "log_inplace"); } if (m && f[0] == 0) { T H = F; H.exp_inplace(n); MC_CHECK(vec(H) == vec(F.exp(n)), "exp_inplace"); } if (F.safe_sqrt(n)) { T H = F; H.sqrt_inplace(n); MC_CHECK(vec(H) == vec(*F.safe_sqrt(n)), "sqrt_inplace"); } }
            for (int lim = 0; lim <= 4; ++lim) { auto sp = F.sparse_fps_format(lim); int nz = 0; for (auto& x : f) nz += x != 0; MC_EQ(sp.has_value(), nz <= lim, "sparse format " + ctx); if (sp) { V w(m); for (auto& [i, x] : *sp) w[i] = x; MC_CHECK(w == f && (int)sp->size() == nz, "sparse format contents"); } }
        } else {
            for (int i = 0; i < 6; ++i) { MC_CHECK(F[i] == at(f, i), "operator[] const " + ctx); T H = F; H[i] += 7; V w = f; if ((int)w.size() <= i) w.resize(i + 1); w[i] += 7; MC_CHECK(vec(H) == w, "operator[] grows " + ctx); }
            for (int n = -1; n <= 5; ++n) { T H = F; H.cut_inplace(n); V w = f; if (n < m) w.resize(std::max(0, n)); MC_CHECK(vec(H) == w && vec(F.cut(n)) == w, "cut " + ctx); int N = n < 0 ? m : n; V p = conv(f, g); if ((int)p.size() > N) p.resize(N); MC_CHECK(vec(F.mul(G, n)) == p, "mul(g,n) " + ctx); }
            { T H = F; int d = H.normalize(); MC_CHECK(vec(H) == trim(f) && d == (int)trim(f).size() - 1, "normalize"); } MC_EQ(F.inv(0).size() + F.exp(0).size() + F.log(0).size() + F.pow(3, 0).size(), 0, "no terms requested");
            for (int lim = 1; lim <= 6; ++lim) { T::set_max_size(lim); V p = conv(f, g); if ((int)p.size() > lim) p.resize(lim); V got = vec(F * G); T::set_max_size(std::numeric_limits<int>::max() / 2); MC_CHECK(got == p, "product under set_max_size " + ctx); }
        }
        if (at(f, 0) != 0) MC_CHECK(vec(::inv(T(F))) == vec(F.inv()), "::inv"); if (at(f, 0) == 1) MC_CHECK(vec(::log(T(F))) == vec(F.log()), "::log"); if (m && f[0] == 0) MC_CHECK(vec(::exp(T(F))) == vec(F.exp()), "::exp"); MC_CHECK(vec(::pow(T(F), 3)) == vec(F.pow(3)), "::pow"); if (F.safe_sqrt()) MC_CHECK(vec(::sqrt(T(F))) == vec(*F.safe_sqrt()), "::sqrt");
        mc::step();
    });
    for (int n : {1, 59, 60, 61, 64, 100}) for (int m : {0, 1, 59, 60, 61, 64, 90}) { MC_CASE(n, m, 5); V z(m); MC_CHECK(vec(T(z).pow(3, n)) == V(n), "0^3"); MC_CHECK(vec(T(z).pow(1000000000000000000LL, n)) == V(n), "0^k"); V o(n); o[0] = 1; MC_CHECK(vec(T(z).pow(0, n)) == o, "0^0"); auto q = T(z).safe_sqrt(n); MC_CHECK(q && vec(*q) == V(n), "sqrt(0)"); if (m) MC_CHECK(vec(T(z).exp(n)) == o, "exp(0)"); mc::step(); }
}
MC_GROUP(operators_ntt) { mc::bound("FormalPowerSeries: every operator, in-place form, scalar form, comparison, accessor and free function on all pairs of series of length <= 3 over {0,1,-3} x scalar {0,1,5}, incl. self-assignment; zero series at all sizes around 60"); operators<A>("A"); }
MC_GROUP(operators_generic) { mc::bound("FPS: same"); B::set_multiplication([](const V& a, const V& b) { return conv(a, b); }); operators<B>("B"); }
MC_GROUP(operators_naive) { mc::bound("FPSNaive: same, with mul(g,n), set_max_size and growing operator[]"); operators<C>("C"); }
template <size_t N> void arrops() {
    using R = ArrayFPSNaive<mint, N>; static const int al[] = {0, 1, -3};
    mc::explore([&](mc::Chooser& c) { R F, G; V f(N), g(N); for (size_t i = 0; i < N; ++i) F[i] = f[i] = al[c.choose(3)], G[i] = g[i] = al[c.choose(3)]; mint k = 5; auto eq = [&](const R& x, V y, const char* w) { y.resize(N); MC_CHECK(vec(x) == y, std::string(w) + " f=" + sh(f) + " g=" + sh(g)); };
        auto pls = [](V a, const V& b, mint s) { for (size_t i = 0; i < b.size(); ++i) a[i] += s * b[i]; return a; }; auto scl = [](V a, mint s) { for (auto& x : a) x *= s; return a; };
        eq(F + G, pls(f, g, 1), "+"); eq(F - G, pls(f, g, -1), "-"); eq(+F, f, "+f"); eq(-F, scl(f, -1), "-f"); eq(F + k, pls(f, V{k}, 1), "f+k"); eq(F - k, pls(f, V{k}, -1), "f-k"); eq(F * k, scl(f, k), "f*k"); eq(k * F, scl(f, k), "k*f"); eq(F.mul(G), conv(f, g), "mul");
        { R H = F; H += G; eq(H, pls(f, g, 1), "+="); H = F; H -= G; eq(H, pls(f, g, -1), "-="); H = F; H *= G; eq(H, conv(f, g), "*="); H = F; H *= H; eq(H, conv(f, f), "f*=f"); H = F; H += k; eq(H, pls(f, V{k}, 1), "+=k"); H = F; H -= k; eq(H, pls(f, V{k}, -1), "-=k"); H = F; H *= k; eq(H, scl(f, k), "*=k"); H = F; ++H; eq(H, pls(f, V{1}, 1), "++"); H = F; --H; eq(H, pls(f, V{1}, -1), "--"); }
        if (!trim(g).empty()) { R H = F; H /= G; MC_CHECK(H == F / G, "/="); H = F; H %= G; MC_CHECK(H == F % G, "%="); }
        for (int x = -2; x <= 2; ++x) { mint y = 0, p = 1; for (auto& e : f) y += e * p, p *= x; MC_CHECK(F.eval(x) == y, "eval"); }
        MC_CHECK(::pow(F, 3) == F.pow(3), "::pow"); if (f[0] != 0) MC_CHECK(::inv(F) == F.inv(), "::inv"); if (f[0] == 1) MC_CHECK(::log(F) == F.log() && ::sqrt(F) == F.sqrt(), "::log"); if (f[0] == 0) MC_CHECK(::exp(F) == F.exp(), "::exp"); mc::step(); });
    MC_CASE(1); R z{mint(2)}; V w(N); w[0] = 2; MC_CHECK(vec(z) == w, "initializer list"); mc::step();
}
MC_GROUP(operators_array) { mc::bound("ArrayFPSNaive<1..3>: every operator and free function on all pairs of series over {0,1,-3}"); arrops<1>(); arrops<2>(); arrops<3>(); }
template <class F> static void self_ops(mc::Chooser& c, const V& v, bool div) {
    auto eq = [](const F& x, const F& y) { V a(x.begin(), x.end()), b(y.begin(), y.end()); while (a.size() && a.back() == 0) a.pop_back(); while (b.size() && b.back() == 0) b.pop_back(); return a == b; };
    const F f(v), g(v); F x(v); x += x; MC_CHECK(eq(x, f + g), "f += f"); x = f; x -= x; MC_CHECK(eq(x, f - g) && eq(x, F{}), "f -= f"); x = f; x *= x; V sq(v.empty() ? 0 : 2 * v.size() - 1); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) sq[i + j] += v[i] * v[j]; MC_CHECK(eq(x, F(sq)) && eq(f * f, F(sq)), "f *= f");
    if (div) { x = f; x /= x; MC_CHECK(eq(x, F{ 1 }), "f /= f"); x = f; x %= x; MC_CHECK(eq(x, F{}), "f %= f"); } x = f; x = x; MC_CHECK(eq(x, f), "f = f"); F y = f; y *= f; y += y; MC_CHECK(eq(f, g), "operand untouched"); mc::step();
}
MC_GROUP(self_operands) {
    mc::bound("compound operators with the object itself on the right (f += f, -=, *=, /=, %=) in all three dynamic series types: every coefficient vector over {0,1,-1,5} of length 0..4, and dense vectors of every length 5..40, 63..66 and 120..130, against plain arrays"); B::set_multiplication([](const V& a, const V& b) { return atcoder::convolution(a, b); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4); V v(n); const int W[] = { 0, 1, -1, 5 }; for (auto& x : v) x = W[c.choose(4)]; bool d = n && v.back() != 0; self_ops<A>(c, v, d); self_ops<B>(c, v, d); self_ops<C>(c, v, d); });
    mc::explore([&](mc::Chooser& c) { int k = c.range(0, 50); int n = k < 36 ? k + 5 : k < 40 ? k - 36 + 63 : k - 40 + 120; V v(n); mint r = 3; for (auto& x : v) x = r, r = r * r + n; self_ops<A>(c, v, true); self_ops<B>(c, v, true); self_ops<C>(c, v, true); });
}
MC_MAIN
