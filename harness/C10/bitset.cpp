#include "free.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
using namespace suisen; using VB = std::vector<bool>; using std::string;
static const int SZ[] = { 0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 200 };
static string str(const VB& v) { string s; for (bool b : v) s += '0' + b; return s; }
// pattern k over size n
static bool pat(int k, int i, int n) { switch (k) { case 0: return false; case 1: return true; case 2: return i % 2; case 3: return i % 3 == 0; case 4: return i == n - 1; case 5: return i == 0; case 6: return (i / 7) % 2; default: return fr::K(i * 31 + k) & 1; } }
static const int NP = 9;
template <class B> static void check(B& b, const VB& v, bool deep = true) {
    const B& cb = b; int n = v.size(); MC_EQ(b.size(), n, "size"); MC_EQ(b.empty(), n == 0, "empty"); int cnt = 0; for (int i = 0; i < n; ++i) { cnt += v[i]; MC_EQ(bool(cb[i]), bool(v[i]), "bit " << i << " of " << n); MC_EQ(bool(b[i]), bool(v[i]), "bit ref"); }
    MC_EQ(b.count(), cnt, "count"); MC_EQ(b.any(), cnt > 0, "any"); MC_EQ(b.none(), cnt == 0, "none"); MC_EQ(b.all(), cnt == n, "all"); MC_EQ(bool(b), cnt > 0, "operator bool");
    int f = 0; while (f < n && !v[f]) ++f; MC_EQ(b.find_first(), f, "find_first"); for (int i = 0; i < n; ++i) { int g = i + 1; while (g < n && !v[g]) ++g; MC_EQ(b.find_next(i), g, "find_next(" << i << ")"); }
}
static DynamicBitSet mk(const VB& v) { DynamicBitSet b(v.size()); for (size_t i = 0; i < v.size(); ++i) b[i] = v[i]; return b; }
// variants with garbage beyond the end: same value, different history
static DynamicBitSet mkdirty(const VB& v) { DynamicBitSet b(v.size(), true); b = ~b; for (size_t i = 0; i < v.size(); ++i) b[i] = v[i]; DynamicBitSet c(v.size() + 3, true); for (size_t i = 0; i < v.size(); ++i) c[i] = v[i]; c.pop_back(); c.pop_back(); c.pop_back(); if (v.size() % 2) return c; return b; }
MC_GROUP(dynamic_construct) {
    mc::bound("13 sizes around the 64-bit block borders x 9 contents: all observers, clean and dirty tails");
    for (int n : SZ) for (int k = 0; k < NP; ++k) for (int d = 0; d < 2; ++d) { MC_CASE(n, k, d); VB v(n); for (int i = 0; i < n; ++i) v[i] = pat(k, i, n); auto b = d ? mkdirty(v) : mk(v); check(b, v); if (k < 2) { DynamicBitSet c(n, k); check(c, v); }
        DynamicBitSet c = ~b; VB w = v; w.flip(); check(c, w); c.set(); check(c, VB(n, true)); c.reset(); check(c, VB(n, false)); auto e = d ? mk(v) : mkdirty(v); MC_CHECK(b == e && !(b != e), "equality ignores history"); if (n) { VB u = v; u[n - 1] = !u[n - 1]; auto x = mk(u); MC_CHECK(b != x && !(b == x), "inequality in the last bit"); } MC_CHECK(!(b == DynamicBitSet(n + 1)), "sizes differ"); }
    DynamicBitSet z; check(z, {});
}
MC_GROUP(dynamic_bitref) {
    mc::bound("every operation through a bit reference at every position, others untouched");
    for (int n : { 1, 64, 65, 130 }) for (int k : { 0, 1, 2, 8 }) for (int i = 0; i < n; ++i) { MC_CASE(n, k, i); VB v(n); for (int j = 0; j < n; ++j) v[j] = pat(k, j, n); for (int op = 0; op < 11; ++op) { auto b = mk(v); VB w = v; auto r = b[i]; switch (op) { case 0: r.set(); w[i] = true; break; case 1: r.reset(); w[i] = false; break; case 2: r.flip(); w[i] = !w[i]; break; case 3: r &= true; break; case 4: r &= false; w[i] = false; break; case 5: r |= true; w[i] = true; break; case 6: r |= false; break; case 7: r ^= true; w[i] = !w[i]; break; case 8: r ^= false; break; case 9: r = b[(i + 1) % n]; w[i] = bool(v[(i + 1) % n]); break; case 10: r = true; w[i] = true; MC_EQ(r.test(), true, "test"); break; } MC_EQ(b == mk(w), true, "bitref op " << op << " at " << i << " of " << str(v)); MC_EQ(bool(r), bool(w[i]), "value"); } }
}
MC_GROUP(dynamic_ranges) {
    mc::bound("all (l,r) for 10 sizes, 3 contents, set/reset/flip/update/count");
    for (int n : { 0, 1, 63, 64, 65, 127, 128, 129, 192, 200 }) for (int k : { 0, 1, 8 }) for (int l = 0; l <= n; ++l) { MC_CASE(n, k, l); VB v(n); for (int i = 0; i < n; ++i) v[i] = pat(k, i, n); auto base = mk(v); for (int r = l; r <= n; ++r) { if (n > 129 && (r - l) % 3 && r < n - 3 && (r & 63) > 2 && (r & 63) < 62 && !mc::thorough()) continue; VB s = v, t = v, f = v; int cnt = 0; for (int i = l; i < r; ++i) s[i] = true, t[i] = false, f[i] = !f[i], cnt += v[i]; auto a = base, b = base, c = base, d = base; a.range_set(l, r); b.range_reset(l, r); c.range_flip(l, r); d.range_update(l, r, (l + r) & 1);
        MC_EQ(a == mk(s), true, "range_set " << l << " " << r); MC_EQ(b == mk(t), true, "range_reset " << l << " " << r); MC_EQ(c == mk(f), true, "range_flip " << l << " " << r); MC_EQ(d == ((l + r) & 1 ? a : b), true, "range_update"); MC_EQ(base.range_count(l, r), cnt, "range_count " << l << " " << r); } }
}
MC_GROUP(dynamic_binary) {
    mc::bound("all pairs of 9 contents x clean/dirty for 13 sizes: and/or/xor, order, intersection (also across sizes)");
    for (int n : SZ) for (int k = 0; k < NP; ++k) for (int k2 = 0; k2 < NP; ++k2) { MC_CASE(n, k, k2); VB v(n), w(n), a(n), o(n), x(n); bool inter = false; for (int i = 0; i < n; ++i) v[i] = pat(k, i, n), w[i] = pat(k2, i + k2 % 2, n), a[i] = v[i] && w[i], o[i] = v[i] || w[i], x[i] = v[i] != w[i], inter |= a[i]; auto p = mkdirty(v), q = k2 & 1 ? mkdirty(w) : mk(w); auto r1 = p & q, r2 = p | q, r3 = p ^ q; check(r1, a); check(r2, o); check(r3, x);
        VB rv(v.rbegin(), v.rend()), rw(w.rbegin(), w.rend()); MC_EQ(p < q, rv < rw, "<"); MC_EQ(p <= q, rv <= rw, "<="); MC_EQ(p > q, rv > rw, ">"); MC_EQ(p >= q, rv >= rw, ">="); MC_EQ(p == q, v == w, "=="); MC_EQ(p.has_intersection(q), inter, "has_intersection"); MC_EQ(p.is_disjoint(q), !inter, "is_disjoint");
        for (int m : { 0, 1, 64, 65, 130 }) { VB u(m); for (int i = 0; i < m; ++i) u[i] = pat(k2, i, m); bool in = false; for (int i = 0; i < std::min(n, m); ++i) in |= v[i] && u[i]; auto z = mkdirty(u); MC_EQ(p.has_intersection(z), in, "has_intersection, sizes " << n << " " << m); MC_EQ(z.is_disjoint(p), !in, "is_disjoint, sizes"); } }
}
MC_GROUP(dynamic_shift) {
    mc::bound("every shift 0..n+2 for 13 sizes, 9 contents, clean and dirty tails");
    for (int n : SZ) for (int k = 0; k < NP; ++k) { MC_CASE(n, k); VB v(n); for (int i = 0; i < n; ++i) v[i] = pat(k, i, n); auto b = mkdirty(v); for (int s = 0; s <= n + 2; ++s) { VB l(n), r(n); for (int i = 0; i < n; ++i) { if (i >= s) l[i] = v[i - s]; if (i + s < n) r[i] = v[i + s]; } MC_EQ(mk(l) == (b << s), true, "<< " << s << " of " << str(v)); MC_EQ(mk(r) == (b >> s), true, ">> " << s << " of " << str(v)); auto c = b; c <<= s; MC_EQ(c == mk(l), true, "<<="); MC_EQ(c.count(), (int)std::count(l.begin(), l.end(), true), "count after <<"); c >>= s; VB m(n); for (int i = 0; i + s < n; ++i) m[i] = l[i + s]; MC_EQ(c == mk(m), true, ">>= after <<="); } }
}
MC_GROUP(dynamic_resize) {
    mc::bound("every history of resize(12 sizes x fill)/push_back/pop_back to depth 3(4), from 3 contents");
    static const int R[] = { 0, 1, 5, 63, 64, 65, 66, 127, 128, 129, 130, 200 };
    mc::explore([&](mc::Chooser& c) { int n = std::vector<int>{ 0, 63, 64, 70 }[c.choose(4)], k = c.choose(2); VB v(n); for (int i = 0; i < n; ++i) v[i] = pat(k ? 1 : 8, i, n); auto b = mk(v); for (int d = 0; d < mc::T(3, 4); ++d) { int o = c.choose(4); if (o == 0) { int m = R[c.choose(12)]; bool f = c.flag(); MC_LOG("resize " << m << " " << f); b.resize(m, f); v.resize(m, f); } else if (o == 3) { if (v.empty()) return; MC_LOG("pop_back"); b.pop_back(); v.pop_back(); } else { b.push_back(o == 1); v.push_back(o == 1); MC_LOG("push_back " << (o == 1)); } } check(b, v); });
}
// ---------------------------------------------------------------- static_bitset
template <size_t N> static void stat() {
    using B = static_bitset<N>; auto mkS = [](const VB& v) { B b; for (size_t i = 0; i < N; ++i) b.set(i, v[i]); return b; };
    auto same = [&](B b, const VB& v, const string& what) { for (size_t i = 0; i < N; ++i) MC_EQ(bool(b[i]), bool(v[i]), what << ": bit " << i << " of N=" << N); B e = mkS(v); MC_CHECK(b == e && !(b != e), what << ": equal to the same set built bit by bit, N=" << N); MC_EQ(bool(b), std::count(v.begin(), v.end(), true) > 0, what << ": operator bool"); std::ostringstream os; os << b; string s = str(v); std::reverse(s.begin(), s.end()); MC_EQ(os.str(), s, what << ": printed"); };
    for (int k = 0; k < NP; ++k) { MC_CASE((int)N, k); VB v(N); for (size_t i = 0; i < N; ++i) v[i] = pat(k, i, N); B b = mkS(v); same(b, v, "set"); same(B(b.data()), v, "data round trip"); VB w = v; w.flip(); same(~b, w, "~"); { B c = ~b; same(~c, v, "~~"); for (size_t s = 0; s <= N + 1; ++s) { VB r(N); for (size_t i = 0; i + s < N; ++i) r[i] = w[i + s]; same(c >> s, r, "~ then >>"); } }
        for (size_t i = 0; i < N; ++i) { B c = b; c.flip(i); VB u = v; u[i] = !u[i]; same(c, u, "flip"); }
        for (size_t s = 0; s <= N + 2; ++s) { VB l(N), r(N), m(N); for (size_t i = 0; i < N; ++i) { if (i >= s) l[i] = v[i - s]; if (i + s < N) r[i] = v[i + s]; } for (size_t i = 0; i + s < N; ++i) m[i] = l[i + s]; same(b << s, l, "<<"); same(b >> s, r, ">>"); B c = b; c <<= s; same(c, l, "<<="); c >>= s; same(c, m, "<<= >>="); c = b; c >>= s; same(c, r, ">>="); }
        for (size_t l = 0; l <= N; ++l) for (size_t r = l; r <= N; ++r) { if (N > 70 && (r & 63) > 2 && (r & 63) < 62 && (r - l) % 5) continue; B c = b, d = b; c.range_set(l, r); d.range_set(l, r, false); VB x = v, y = v; for (size_t i = l; i < r; ++i) x[i] = true, y[i] = false; MC_EQ(c == mkS(x), true, "range_set " << l << " " << r); MC_EQ(d == mkS(y), true, "range_set false " << l << " " << r); }
        for (int k2 = 0; k2 < NP; ++k2) { VB q(N), a(N), o(N), x(N); for (size_t i = 0; i < N; ++i) q[i] = pat(k2, i + k2 % 2, N), a[i] = v[i] && q[i], o[i] = v[i] || q[i], x[i] = v[i] != q[i]; B t = mkS(q); same(b & t, a, "&"); same(b | t, o, "|"); same(b ^ t, x, "^"); VB rv(v.rbegin(), v.rend()), rq(q.rbegin(), q.rend()); MC_EQ(b < t, rv < rq, "<"); MC_EQ(b <= t, rv <= rq, "<="); MC_EQ(b > t, rv > rq, ">"); MC_EQ(b >= t, rv >= rq, ">="); MC_EQ(b == t, v == q, "=="); }
        b.clear(); same(b, VB(N), "clear"); }
}
MC_GROUP(static_small) { mc::bound("N in {1,10,63,64,65}: all shifts, ranges, pairs of 9 contents"); stat<1>(); stat<10>(); stat<63>(); stat<64>(); stat<65>(); }
MC_GROUP(static_large) { mc::bound("N in {127,128,130,192}: all shifts, ranges, pairs of 9 contents"); stat<127>(); stat<128>(); stat<130>(); stat<192>(); }
template <int N> static void point_ops() {
    for (int pat = 0; pat < 4; ++pat) for (int n = 0; n < N; ++n) { MC_CASE(N, pat, n); auto f = [&](int i) { return pat == 0 ? 0 : pat == 1 ? 1 : int((i * 2654435761u >> 7) + pat) & 1; };
        suisen::static_bitset<N> a; suisen::DynamicBitSet d(N); std::vector<int> v(N); for (int i = 0; i < N; ++i) if (f(i)) a.set(i), d[i] = true, v[i] = 1;
        auto chk = [&](const char* m) { for (int i = 0; i < N; ++i) { MC_EQ(bool(a[i]), bool(v[i]), "static " << m << " bit " << i); MC_EQ(bool(d[i]), bool(v[i]), "dynamic " << m << " bit " << i); } MC_EQ((int)d.count(), (int)std::count(v.begin(), v.end(), 1), "dynamic count"); };
        a.set(n, false); d[n].reset(); v[n] = 0; chk("set(n, false)"); a.set(n, false); d[n] = false; chk("set(n, false) again"); a.set(n, true); d[n].set(); v[n] = 1; chk("set(n, true)"); a.set(n); d[n] = true; chk("set(n) again"); a.flip(n); d[n].flip(); v[n] ^= 1; chk("flip(n)"); a.flip(n); d[n].flip(); v[n] ^= 1; chk("flip(n) twice"); }
}
MC_GROUP(point_operations) { mc::bound("static_bitset and DynamicBitSet: set(n,false), set(n,true), set(n), flip(n) and the bit proxies at every position of 1, 63, 64, 65, 130 bits, four contents"); point_ops<1>(); point_ops<63>(); point_ops<64>(); point_ops<65>(); point_ops<130>(); }
namespace many {
    using VC = std::vector<char>; static VC pat(int n, int s) { VC v(n); unsigned x = s * 2654435761u + 12345; for (auto& b : v) x = x * 1664525u + 1013904223u, b = x >> 31; return v; }
    static bool less_(const VC& a, const VC& b) { for (int i = (int)a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i]; return false; }
    static suisen::DynamicBitSet dyn(const VC& v) { suisen::DynamicBitSet d(v.size()); for (size_t i = 0; i < v.size(); ++i) d[i] = bool(v[i]); return d; }
    static void same(const suisen::DynamicBitSet& d, const VC& v, const char* w) { MC_EQ((int)d.size(), (int)v.size(), w); for (size_t i = 0; i < v.size(); ++i) MC_CHECK(d[i] == bool(v[i]), w << " bit " << i); }
    template <size_t N> static suisen::static_bitset<N> sta(const VC& v) { suisen::static_bitset<N> d; for (size_t i = 0; i < N; ++i) d.set(i, v[i]); return d; }
    template <size_t N> static void same(const suisen::static_bitset<N>& d, const VC& v, const char* w) { for (size_t i = 0; i < N; ++i) MC_CHECK(d[i] == bool(v[i]), w << " bit " << i); }
    static VC shl(const VC& v, size_t s) { VC r(v.size()); for (size_t i = s; i < v.size(); ++i) r[i] = v[i - s]; return r; }
    static VC shr(const VC& v, size_t s) { VC r(v.size()); for (size_t i = s; i < v.size(); ++i) r[i - s] = v[i]; return r; }
    static const int SH[] = { 0, 1, 63, 64, 65, 127, 128, 640, 641, 703, 1280, 1283, 1344, 2560, 2600, 2879, 2880, 2881, 2890, 2896, 2897, 5000 };
    template <class Bs, class Mk> static void common(int n, Mk mk) {
        for (int s = 0; s < 2; ++s) { VC a = pat(n, 2 * s), b = pat(n, 2 * s + 1); Bs x = mk(a), y = mk(b); VC r(n); 
            for (int i = 0; i < n; ++i) r[i] = a[i] & b[i]; same(x & y, r, "&"); for (int i = 0; i < n; ++i) r[i] = a[i] | b[i]; same(x | y, r, "|"); for (int i = 0; i < n; ++i) r[i] = a[i] ^ b[i]; same(x ^ y, r, "^"); for (int i = 0; i < n; ++i) r[i] = !a[i]; same(~x, r, "~"); same(x, a, "operands"); same(y, b, "operands");
            for (int k : SH) { MC_CASE(n, s, k); same(x << k, shl(a, k), "<<"); same(x >> k, shr(a, k), ">>"); mc::step(); } }
        VC z(n), o(n, 1), a = pat(n, 7); Bs x = mk(a), zero = mk(z), one = mk(o); MC_CHECK(!bool(zero), "bool of zero"); MC_CHECK(x == mk(a) && !(x != mk(a)) && !(x < mk(a)) && x <= mk(a) && x >= mk(a) && !(x > mk(a)), "equal"); 
        for (int p = 0; p < n; p += p % 64 == 0 ? 31 : p % 64 == 31 ? 32 : 1) { MC_CASE(n, p); VC b = a; b[p] ^= 1; Bs y = mk(b); bool lt = less_(a, b); MC_CHECK(x != y && !(x == y), "differs at " << p); MC_CHECK((x < y) == lt && (x <= y) == lt && (x > y) == !lt && (x >= y) == !lt, "order decided at " << p); for (int q : { 0, n / 2, n - 1 }) if (q != p) { VC c = z, d = z; c[p] = 1; d[q] = 1; MC_CHECK((mk(c) < mk(d)) == (p < q) && (mk(c) > mk(d)) == (p > q), "order of single bits"); } z[p] = 1; MC_CHECK(bool(mk(z)), "bool"); z[p] = 0; mc::step(); }
    }
}
MC_GROUP(many_blocks) {
    mc::bound("bitsets of 46 words (n = 2880, 2896, 2943): every operator, comparisons decided at the first, middle and last bit of every word, 22 shift distances, searches, counts and range operations between every pair of word-border positions of a 12-element grid, against plain arrays");
    using namespace many; for (int n : { 2880, 2896, 2943 }) common<suisen::DynamicBitSet>(n, [](const VC& v) { return dyn(v); });
    common<suisen::static_bitset<2896>>(2896, [](const VC& v) { return sta<2896>(v); }); common<suisen::static_bitset<2880>>(2880, [](const VC& v) { return sta<2880>(v); });
    for (int n : { 2880, 2896, 2943 }) { VC z(n), o(n, 1), a = pat(n, 9); auto x = dyn(a); int cnt = 0; for (char c : a) cnt += c; MC_EQ((int)x.count(), cnt, "count"); MC_CHECK(dyn(o).all() && dyn(z).none() && !dyn(z).any() && (int)dyn(o).count() == n, "all/none"); auto one = dyn(o);
        for (int p = 0; p < n; p += p % 64 == 0 ? 31 : p % 64 == 31 ? 32 : 1) { MC_CASE(n, p); z[p] = 1; o[p] = 0; auto s = dyn(z), t = dyn(o); MC_CHECK(!t.all() && !s.none() && s.any() && t.any() && s.has_intersection(one) && !s.has_intersection(t) && s.is_disjoint(t) && !s.is_disjoint(one), "tests at " << p); MC_EQ((int)s.count(), 1, "count"); MC_EQ((int)t.count(), n - 1, "count"); MC_EQ((int)s.find_first(), p, "find_first"); int nx = p; do ++nx; while (nx < n && !a[nx]); if (nx < n) MC_EQ((int)x.find_next(p), nx, "find_next"); z[p] = 0; o[p] = 1; mc::step(); }
        const int G[] = { 0, 1, 63, 64, 600, 640, 1290, 1343, 2559, 2561, n - 1, n }; for (int l : G) for (int r : G) if (l <= r) { MC_CASE(n, l, r); auto y = x, w = x, f = x; VC b = a, c = a, d = a; int k = 0; for (int i = l; i < r; ++i) b[i] = 1, c[i] = 0, d[i] ^= 1, k += a[i]; y.range_set(l, r); same(y, b, "range_set"); w.range_reset(l, r); same(w, c, "range_reset"); f.range_flip(l, r); same(f, d, "range_flip"); MC_EQ((int)x.range_count(l, r), k, "range_count"); mc::step(); if (n == 2896) { auto s1 = sta<2896>(a), s2 = s1; s1.range_set(l, r); same(s1, b, "static range_set"); s2.range_set(l, r, false); same(s2, c, "static range_set false"); } } }
}
MC_MAIN
