// Big integers: schoolbook oracle in base 10 on vectors of decimal digits (no code shared with the library).
#include "mc.hpp"
#include "library/math/bigint.hpp"
#include <algorithm>
#include <climits>
#include <sstream>
#include <string>
#include <vector>
using namespace suisen;
using UB = unsigned_bigint;
using SB = bigint;
using V = std::vector<long long>; // base 1e9 limbs, little endian, canonical
static const long long B = 1000000000;
static void trim(V& a) { while (!a.empty() && !a.back()) a.pop_back(); }
static std::string str(const V& a) {
    if (a.empty()) return "0";
    std::string s = std::to_string(a.back());
    for (int i = int(a.size()) - 2; i >= 0; --i) { std::string t = std::to_string(a[i]); s += std::string(9 - t.size(), '0') + t; }
    return s;
}
static UB mk(const V& a) { return UB(str(a)); }
static int cmp(const V& a, const V& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    for (int i = int(a.size()) - 1; i >= 0; --i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
static V add(const V& a, const V& b) {
    V c; long long k = 0;
    for (size_t i = 0; i < std::max(a.size(), b.size()) || k; ++i) { long long s = k + (i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0); c.push_back(s % B); k = s / B; }
    trim(c); return c;
}
static V sub(const V& a, const V& b) {
    V c; long long k = 0;
    for (size_t i = 0; i < a.size(); ++i) { long long s = a[i] - k - (i < b.size() ? b[i] : 0); k = s < 0; c.push_back(s + k * B); }
    trim(c); return c;
}
static V mul(const V& a, const V& b) {
    if (a.empty() || b.empty()) return {};
    V c(a.size() + b.size() + 1, 0);
    for (size_t i = 0; i < a.size(); ++i) {
        if (!a[i]) continue;
        long long k = 0;
        for (size_t j = 0; j < b.size() || k; ++j) { long long s = c[i + j] + k + (j < b.size() ? a[i] * b[j] : 0); c[i + j] = s % B; k = s / B; }
    }
    trim(c); return c;
}
static std::string S(const UB& x) { return std::string(x); }
static std::string S(const SB& x) { return std::string(x); }

// limb patterns of a given length
static const int NP = 10;
static V pat(int len, int p) {
    V a(len, 0);
    switch (p) {
    case 0: for (auto& x : a) x = B - 1; break;                               // D^len - 1
    case 1: a[len - 1] = 1; break;                                            // D^(len-1)
    case 2: a[len - 1] = 500000000; break;
    case 3: a[len - 1] = 1; a[0] += len > 1 ? 1 : 0; break;                    // D^(len-1) + 1
    case 4: a[len - 1] = B - 1; break;
    case 5: for (int i = 0; i < len; ++i) a[i] = i % 2 ? 0 : B - 1; a[len - 1] = 499999999; break;
    case 6: for (int i = 0; i < len; ++i) a[i] = (i * 7919LL * 104729 + 12345) % B; if (!a[len - 1]) a[len - 1] = 3; break;
    case 7: for (int i = 0; i < len; ++i) a[i] = i < len / 2 ? B - 1 : 0; a[len - 1] = 2; break;
    case 8: for (int i = 0; i < len; ++i) a[i] = i < len / 2 ? 0 : B - 1; break;
    case 9: for (int i = 0; i < len; ++i) a[i] = 999999998 - (i * i * 31LL) % 1000; break;
    }
    return a;
}

MC_GROUP(strings) {
    mc::bound("all decimal strings with 0..12 leading zeros x lengths 1..20 x first/last digits 0,1,9 (+ '-' for bigint), stream round trips");
    mc::explore([&](mc::Chooser& c) {
        int z = c.range(0, 12), len = c.range(0, 20), d = c.pick(std::vector<int>{0, 1, 9}), e = c.pick(std::vector<int>{0, 1, 9});
        if (z + len == 0) return;
        std::string body(len, char('0' + e)); if (len) body[0] = char('0' + d);
        std::string s = std::string(z, '0') + body;
        std::string w = s; while (w.size() > 1 && w[0] == '0') w.erase(0, 1);
        UB x(s);
        MC_EQ(S(x), w, s);
        MC_CHECK(x == UB(w) && !(x < UB(w)) && !(UB(w) < x), s);
        MC_EQ(bool(x), w != "0", s);
        UB y; std::istringstream is(s + " 7"); is >> y; MC_CHECK(y == x, s);
        is >> y; MC_EQ(S(y), std::string("7"), s);
        std::ostringstream os; os << x; MC_EQ(os.str(), w, s);
        for (int neg = 0; neg < 2; ++neg) {
            std::string t = (neg ? "-" : "") + s, wt = (neg && w != "0" ? "-" : "") + w;
            SB b(t); MC_EQ(S(b), wt, t); MC_CHECK(b == SB(wt), t); MC_EQ(bool(b), w != "0", t);
            SB q; std::istringstream js(t); js >> q; MC_CHECK(q == b, t);
            std::ostringstream ps; ps << b; MC_EQ(ps.str(), wt, t);
        }
        mc::step();
    });
}

static std::string i128(__int128 v) { if (!v) return "0"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; while (u) s += char('0' + int(u % 10)), u /= 10; if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
template <class T> void prim(std::vector<T> vs) {
    for (T v : vs) {
        MC_CASE((long long)v);
        SB b(v); SB b2 = v;
        MC_EQ(S(b), i128((__int128)v), "bigint from integer"); MC_CHECK(b == b2, "copy-init");
        if (v >= T(0)) { UB u(v), u2 = v; MC_EQ(S(u), i128((__int128)v), "unsigned_bigint from integer"); MC_CHECK(u == u2, "copy-init"); }
        mc::step();
    }
}
template <class T> void back(const char* nm, T v) {
    SB b(v); MC_LOG(nm); MC_EQ((long long)static_cast<T>(b), (long long)v, "bigint -> primitive"); 
    if (v >= T(0)) { UB u(v); MC_EQ((long long)static_cast<T>(u), (long long)v, "unsigned_bigint -> primitive"); }
    mc::step();
}
MC_GROUP(primitives) {
    mc::bound("construction from every integral type at 0, +-1, limb borders and both type limits; casts back for int..128-bit, float, double, long double");
    prim<signed char>({0, 1, -1, 127, -128}); prim<char>({0, 1, 127}); prim<unsigned char>({0, 1, 255}); prim<short>({0, 1, -1, 32767, -32768}); prim<unsigned short>({0, 65535});
    prim<bool>({false, true});
    prim<int>({0, 1, -1, 999999999, 1000000000, -999999999, -1000000000, INT_MAX, INT_MIN});
    prim<unsigned>({0, 1, 999999999, 1000000000, UINT_MAX});
    prim<long>({0, 1, -1, 999999999, 1000000000, -1000000000, 999999999999999999, 1000000000000000000, LONG_MAX, LONG_MIN});
    prim<long long>({0, 1, -1, 999999999, 1000000000, -1000000000, 999999999999999999, 1000000000000000000, LLONG_MAX, LLONG_MIN});
    prim<unsigned long>({0, 1, 2, 5, 999999999, 1000000000, 1000000000000000000, ULONG_MAX});
    prim<unsigned long long>({0, 1, 2, 5, 999999999, 1000000000, 1000000000000000000, ULLONG_MAX});
    for (int v : {0, 1, -1, 999999999, 1000000000, INT_MAX, INT_MIN, INT_MIN + 1}) back<int>("int", v);
    for (long v : {0L, 1L, -1L, 1000000000L, LONG_MAX, LONG_MIN, LONG_MIN + 1}) back<long>("long", v), back<long long>("long long", v);
    for (unsigned v : {0u, 1u, UINT_MAX}) back<unsigned>("unsigned", v);
    for (unsigned long v : {0ul, 1ul, ULONG_MAX}) back<unsigned long>("ulong", v), back<unsigned long long>("ull", v);
    {
        std::vector<__int128> vs{0, 1, -1, B, -B, (__int128)1 << 64, -((__int128)1 << 64), ((__int128)1 << 126) - 1 + ((__int128)1 << 126), -((__int128)1 << 126) - ((__int128)1 << 126) };
        for (auto v : vs) { std::string s = i128(v); SB b(s); MC_CHECK(static_cast<__int128_t>(b) == v, s); if (v >= 0) { UB u(s); MC_CHECK(static_cast<__int128_t>(u) == v && static_cast<__uint128_t>(u) == (unsigned __int128)v, s); } mc::step(); }
        MC_CHECK(static_cast<__uint128_t>(UB("340282366920938463463374607431768211455")) == ~(unsigned __int128)0, "2^128-1");
    }
    for (int e = 0; e <= 60; ++e) for (int d : {-1, 0, 1}) for (int sg : {1, -1}) {
        long long v = (1LL << e) + d; MC_CASE(e, d, sg);
        SB b(v * sg); double x = static_cast<double>(b); long double y = static_cast<long double>(b); float z = static_cast<float>(b);
        if (e < 53) MC_CHECK(x == double(v * sg), "double exact below 2^53"); else MC_CHECK(std::abs(x - double(v * sg)) <= std::abs(x) * 1e-14, "double");
        MC_CHECK(y == (long double)(v * sg), "long double exact below 2^63");
        if (e < 24) MC_CHECK(z == float(v * sg), "float exact below 2^24");
        if (sg > 0) { UB u(v); MC_CHECK(static_cast<double>(u) == x && static_cast<long double>(u) == y && static_cast<float>(u) == z, "unsigned"); }
        mc::step();
    }
    { UB z = UB::ZERO, o = UB::ONE; MC_EQ(S(z), std::string("0"), "ZERO"); MC_EQ(S(o), std::string("1"), "ONE"); SB sz = SB::ZERO, so = SB::ONE; MC_EQ(S(sz), std::string("0"), "ZERO"); MC_EQ(S(so), std::string("1"), "ONE"); }
    { UB b{1000000000}; MC_EQ(S(b), std::string("1000000000"), "braces"); MC_CHECK(b == UB("1000000000"), "braces"); MC_CHECK(b == UB(1000000000), "braces"); UB bb{}; MC_CHECK(!bool(bb), "braces"); }
}

MC_GROUP(addsub) {
    mc::bound("all pairs of <=4-limb (thorough 5) numbers over limbs {0,1,D/2,D-1}: + - ++ -- comparisons, aliasing");
    int L = mc::T(4, 5); std::vector<V> all{V{}};
    const long long al[] = {0, 1, 500000000, B - 1};
    for (int n = 1; n <= L; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 4; for (int m = 0; m < t; ++m) { V a; int x = m; for (int i = 0; i < n; ++i) a.push_back(al[x % 4]), x /= 4; if (a.back()) all.push_back(a); } }
    std::vector<UB> U; for (auto& a : all) U.push_back(mk(a));
    for (size_t i = 0; i < all.size(); ++i) {
        V one{1}; MC_CASE(i);
        UB x = U[i]; UB o = x++; MC_CHECK(o == U[i], "post++"); MC_EQ(S(x), str(add(all[i], one)), "++"); UB y = U[i]; MC_CHECK(++y == x, "pre++");
        MC_CHECK(--y == U[i], "pre--"); o = x--; MC_EQ(S(x), str(all[i]), "--"); MC_EQ(S(o), str(add(all[i], one)), "post--");
        x = U[i]; x += x; MC_EQ(S(x), str(add(all[i], all[i])), "x+=x"); x = U[i]; x -= x; MC_EQ(S(x), std::string("0"), "x-=x"); MC_CHECK(!bool(x), "x-=x");
        x = U[i]; x *= x; MC_EQ(S(x), str(mul(all[i], all[i])), "x*=x");
        if (!all[i].empty()) { x = U[i]; x /= x; MC_EQ(S(x), std::string("1"), "x/=x"); x = U[i]; x %= x; MC_CHECK(x == UB(0), "x%=x"); }
        for (int k = 0; k <= 4; ++k) {
            V w; if (!all[i].empty()) { w = V(k, 0); w.insert(w.end(), all[i].begin(), all[i].end()); }
            MC_EQ(S(U[i] << k), str(w), "<<"); MC_CHECK((U[i] << k) >> k == U[i], "<< >>");
            V r; if (k < (int)all[i].size()) r.assign(all[i].begin() + k, all[i].end()); MC_EQ(S(U[i] >> k), str(r), ">>");
        }
        mc::step();
        for (size_t j = 0; j < all.size(); ++j) {
            int c = cmp(all[i], all[j]); const UB &a = U[i], &b = U[j];
            bool ok = (a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0);
            if (!ok) mc::fail("comparison " + str(all[i]) + " " + str(all[j]));
            UB s = a + b; MC_EQ(S(s), str(add(all[i], all[j])), str(all[i]) + " + " + str(all[j])); MC_CHECK(s == mk(add(all[i], all[j])), "canonical");
            if (c >= 0) { UB d = a - b; MC_EQ(S(d), str(sub(all[i], all[j])), str(all[i]) + " - " + str(all[j])); MC_CHECK(d == mk(sub(all[i], all[j])), "canonical"); }
            mc::step();
        }
    }
}

MC_GROUP(signed_small) {
    mc::bound("bigint: all pairs over +-{0,1,2,3,7,D-1,D,D+1,2D,D^2-1,D^2}: + - * / % compare against 128-bit; ++ -- around zero; unary; limb shifts");
    std::vector<__int128> vs; std::vector<__int128> base{0, 1, 2, 3, 7, B - 1, B, B + 1, 2 * B, (__int128)B * B - 1, (__int128)B * B};
    for (auto v : base) { vs.push_back(v); if (v) vs.push_back(-v); }
    for (auto a : vs) {
        MC_CASE((long long)(a % B), (long long)(a / B)); SB A(i128(a)); 
        { SB x = A; SB o = x++; MC_CHECK(o == A, "post"); MC_EQ(S(x), i128(a + 1), "++"); x = A; MC_EQ(S(++x), i128(a + 1), "++"); x = A; o = x--; MC_CHECK(o == A, "post"); MC_EQ(S(x), i128(a - 1), "--"); MC_CHECK(x == SB(i128(a - 1)), "--"); x = A; MC_EQ(S(--x), i128(a - 1), "--");
          MC_EQ(S(-A), i128(-a), "neg"); MC_CHECK(-A == SB(i128(-a)), "neg"); MC_EQ(S(+A), i128(a), "plus");
          x = A; x += x; MC_EQ(S(x), i128(2 * a), "x+=x"); x = A; x -= x; MC_EQ(S(x), std::string("0"), "x-=x"); MC_CHECK(x == SB(0), "x-=x"); }
        for (int k = 0; k < 4; ++k) { __int128 q = a; for (int i = 0; i < k; ++i) q /= B; SB r = A >> k; MC_EQ(S(r), i128(q), ">> limbs truncates"); MC_CHECK(r == SB(i128(q)), ">> canonical"); SB l = A << k; MC_CHECK((l >> k) == A, "<< then >>"); }
        { SB x("-5"); x >>= 1; MC_CHECK(x == SB(0) && !(x < SB(0)), "-5 >> 1"); }
        if (a >= 0) { UB u = static_cast<UB>(A); MC_EQ(S(u), i128(a), "to unsigned"); }
        for (auto b : vs) {
            SB Bb(i128(b)); std::string ctx = i128(a) + " , " + i128(b);
            MC_EQ(S(A + Bb), i128(a + b), ctx); MC_EQ(S(A - Bb), i128(a - b), ctx); 
            MC_CHECK(A + Bb == SB(i128(a + b)) && A - Bb == SB(i128(a - b)), ctx);
            MC_CHECK((A < Bb) == (a < b) && (A <= Bb) == (a <= b) && (A > Bb) == (a > b) && (A >= Bb) == (a >= b) && (A == Bb) == (a == b) && (A != Bb) == (a != b), ctx);
            MC_EQ(S(A * Bb), i128(a * b), ctx); { SB x = A; x *= Bb; MC_CHECK(x == SB(i128(a * b)), ctx); }
            if (b) { MC_EQ(S(A / Bb), i128(a / b), ctx); MC_EQ(S(A % Bb), i128(a % b), ctx); auto qr = SB::divmod(A, Bb); MC_CHECK(qr.first == SB(i128(a / b)) && qr.second == SB(i128(a % b)), ctx); SB x = A; x /= Bb; MC_CHECK(x == qr.first, ctx); x = A; x %= Bb; MC_CHECK(x == qr.second, ctx); }
            mc::step();
        }
    }
}

static void chkdiv(const V& a, const V& b, const std::string& ctx) {
    auto qr = UB::divmod(mk(a), mk(b));
    // parse back
    auto parse = [](const std::string& s) { V r; for (int i = s.size(); i > 0; i -= 9) { int l = std::max(0, i - 9); r.push_back(std::stoll(s.substr(l, i - l))); } trim(r); return r; };
    V q = parse(S(qr.first)), r = parse(S(qr.second));
    MC_CHECK(cmp(r, b) < 0, "r<b " + ctx);
    MC_CHECK(cmp(add(mul(q, b), r), a) == 0, "a=qb+r " + ctx);
    MC_CHECK(qr.first == mk(q) && qr.second == mk(r), "canonical " + ctx);
    mc::step();
}
MC_GROUP(div_small) {
    mc::bound("all a of <=4 limbs and b of <=3 limbs over {0,1,D/2-1,D/2,D-1} (thorough adds 2, D-2): a = qb + r, 0 <= r < b");
    std::vector<long long> al{0, 1, 499999999, 500000000, B - 1}; if (mc::thorough()) al.push_back(2), al.push_back(B - 2);
    int k = al.size(); auto gen = [&](int L) { std::vector<V> all{V{}}; for (int n = 1; n <= L; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= k; for (int m = 0; m < t; ++m) { V a; int x = m; for (int i = 0; i < n; ++i) a.push_back(al[x % k]), x /= k; if (a.back()) all.push_back(a); } } return all; };
    auto as = gen(4), bs = gen(mc::thorough() ? 3 : 3);
    for (size_t i = 0; i < as.size(); ++i) for (size_t j = 1; j < bs.size(); ++j) { MC_CASE(i, j); chkdiv(as[i], bs[j], "small"); }
}
static std::vector<int> lens() { return {1, 2, 3, 32, 63, 64, 65, 66, 100, 127, 128, 129, 130, 131, 150, 199, 200, 201, 202, 260, 330}; }
MC_GROUP(mul_big) {
    mc::bound("products of all 10 limb patterns at every pair of lengths around the 64/65 and 200/201 algorithm switches (21 lengths)");
    auto L = lens(); std::vector<std::pair<int, int>> id; std::vector<V> vs; for (int l : L) for (int p = 0; p < NP; ++p) vs.push_back(pat(l, p)), id.push_back({l, p});
    std::vector<UB> U; for (auto& v : vs) U.push_back(mk(v));
    for (size_t i = 0; i < vs.size(); ++i) for (size_t j = 0; j <= i; ++j) {
        MC_CASE(id[i].first, id[i].second, id[j].first, id[j].second);
        V w = mul(vs[i], vs[j]); UB p = U[i] * U[j];
        MC_CHECK(p == mk(w) && S(p) == str(w), "product");
        if (i != j && (i + j) % 4 == 0) MC_CHECK(U[j] * U[i] == p, "commuted");
        mc::step();
    }
}
MC_GROUP(div_big) {
    mc::bound("divisions of all pattern pairs at lengths around the 64/65 switch, with a of up to 330 limbs (both the schoolbook and the Newton path), plus a = q b, q b + 1, q b + b - 1");
    std::vector<int> la = mc::thorough() ? std::vector<int>{64, 65, 66, 128, 129, 130, 131, 132, 133, 196, 200, 260, 330} : std::vector<int>{66, 130, 131, 132, 200, 262};
    std::vector<int> lb = mc::thorough() ? std::vector<int>{1, 2, 63, 64, 65, 66, 67, 80, 100, 128, 129, 130, 195} : std::vector<int>{2, 64, 65, 66, 67, 129};
    for (int a : la) for (int b : lb) if (b <= a) for (int p = 0; p < NP; ++p) for (int q = 0; q < NP; ++q) { MC_CASE(a, p, b, q); chkdiv(pat(a, p), pat(b, q), "pattern"); }
}
MC_GROUP(div_big_exact) {
    mc::bound("a = q b + r for all patterns q (len 1, 65, 66, 70, 140), b (len 65, 66, 100), r in {0, 1, b-1}");
    std::vector<int> lq = mc::thorough() ? std::vector<int>{1, 64, 65, 66, 70, 90, 130, 140, 200} : std::vector<int>{65, 66, 140}, lb = mc::thorough() ? std::vector<int>{64, 65, 66, 80, 100, 130} : std::vector<int>{65, 70};
    for (int a : lq) for (int b : lb) for (int p = 0; p < NP; ++p) for (int q = 0; q < NP; ++q) for (int m = 0; m < 3; ++m) {
        MC_CASE(a, p, b, q, m); V Q = pat(a, p), Bv = pat(b, q), R = m == 0 ? V{} : m == 1 ? V{1} : sub(Bv, V{1});
        V A = add(mul(Q, Bv), R); auto qr = UB::divmod(mk(A), mk(Bv));
        MC_CHECK(qr.first == mk(Q), "quotient"); MC_CHECK(qr.second == mk(R), "remainder");
        if (m == 0) { MC_CHECK(mk(A) / mk(Bv) == mk(Q), "/"); MC_CHECK(!bool(mk(A) % mk(Bv)), "%"); }
        mc::step();
    }
}
MC_MAIN
