#include "mc.hpp"
#include "library/datastructure/ZDD.hpp"
using namespace suisen; using namespace std;
// A family over L levels is a bitmask over the 2^L subsets.  Build the ZDD for every family, and check every operation on
// every family (pair) against set-theoretic definitions.
typedef unsigned F;
static vector<unsigned> lev;   // lev[i] = level of item i (ascending)
static ZDD build(F f, int L) {
    ZDD z = ZDD::terminal0();
    for (int s = 0; s < (1 << L); ++s) if (f >> s & 1) { ZDD t = ZDD::terminal1(); for (int i = 0; i < L; ++i) if (s >> i & 1) t = ZDD::change(t, lev[i]); z = z + t; }
    return z;
}
static F value(ZDD z, int L) {  // members by walking the diagram, checking order and zero-suppression on the way
    if (z.is_terminal0()) return 0; if (z.is_terminal1()) return 1;
    int i = 0; while (i < L && lev[i] != z.top()) ++i; MC_CHECK(i < L, "unknown level in diagram"); MC_CHECK(!z[1].is_terminal0(), "zero-suppressed"); MC_CHECK(z[0].top() < z.top() && z[1].top() < z.top(), "ordered");
    F lo = value(z[0], L), hi = value(z[1], L), r = lo; for (int s = 0; s < (1 << L); ++s) if (hi >> s & 1) r |= F(1) << (s | (1 << i)); return r;
}
static int hand_rank(F f, int L) { (void)L; return __builtin_popcount(f); }
static void init(int L) { while ((int)lev.size() < L) lev.push_back(ZDD::new_level()); }
static void unary(F f, ZDD z, int L) {
    string ctx = "family " + to_string(f) + " L=" + to_string(L); MC_EQ(value(z, L), f, ctx); MC_EQ(z.is_terminal0(), f == 0, ctx); MC_EQ(z.is_terminal1(), f == 1, ctx);
    MC_EQ(ZDD::card<int>(z), hand_rank(f, L), ctx); MC_EQ(ZDD::card<long long>(z), (long long)hand_rank(f, L), ctx);
    int best = -1; for (int s = 0; s < (1 << L); ++s) if (f >> s & 1) best = max(best, __builtin_popcount(s));
    if (f) MC_EQ(ZDD::len(z), best, ctx + " len"); else MC_CHECK(ZDD::len(z) < 0, ctx);
    for (int rep = 0; rep < 2; ++rep) { auto it = ZDD::max_len_item(z); MC_EQ(it.has_value(), f != 0, ctx); if (it) { int s = 0; for (int x : *it) { int i = find(lev.begin(), lev.begin() + L, (unsigned)x) - lev.begin(); MC_CHECK(i < L && !(s >> i & 1), ctx + " item"); s |= 1 << i; } MC_CHECK(f >> s & 1, ctx + " max_len_item is a member: " + mc::show(*it)); MC_EQ((int)it->size(), best, ctx); } }
    for (int i = 0; i < L; ++i) { F ch = 0, on0 = 0, on1 = 0, off = 0; for (int s = 0; s < (1 << L); ++s) if (f >> s & 1) { ch |= F(1) << (s ^ (1 << i)); if (s >> i & 1) on0 |= F(1) << (s ^ (1 << i)), on1 |= F(1) << s; else off |= F(1) << s; }
        string c = ctx + " item " + to_string(i); MC_EQ(value(ZDD::change(z, lev[i]), L), ch, c + " change"); MC_EQ(value(ZDD::onset0(z, lev[i]), L), on0, c + " onset0"); MC_EQ(value(ZDD::onset1(z, lev[i]), L), on1, c + " onset1"); MC_EQ(value(ZDD::offset(z, lev[i]), L), off, c + " offset"); }
    // node count: number of distinct non-trivial subfunctions of the reduced diagram
    set<pair<int, F>> nodes; auto rec = [&](auto&& rec, F g, int k) -> void { while (k > 0) { F lo = 0, hi = 0; for (int s = 0; s < (1 << k); ++s) if (g >> s & 1) (s >> (k - 1) & 1 ? hi : lo) |= F(1) << (s & ((1 << (k - 1)) - 1)); if (hi) { if (nodes.insert({ k, g }).second) { rec(rec, lo, k - 1); rec(rec, hi, k - 1); } return; } g = lo; --k; } };
    rec(rec, f, L); MC_EQ(ZDD::size(z), (int)nodes.size(), ctx + " size");
}
static void binary(F f, F g, ZDD a, ZDD b, int L) {
    string ctx = "f=" + to_string(f) + " g=" + to_string(g) + " L=" + to_string(L);
    MC_EQ(value(a & b, L), f & g, ctx + " &"); MC_EQ(value(a + b, L), f | g, ctx + " +"); MC_EQ(value(a - b, L), f & ~g, ctx + " -"); MC_EQ(value(a ^ b, L), f ^ g, ctx + " ^");
    F re = 0, pe = 0; for (int s = 0; s < (1 << L); ++s) if (f >> s & 1) { bool r = false, p = false; for (int t = 0; t < (1 << L); ++t) if (g >> t & 1) r |= (s & t) == t, p |= (s & t) == s; if (r) re |= F(1) << s; if (p) pe |= F(1) << s; }
    MC_EQ(value(ZDD::restrict(a, b), L), re, ctx + " restrict"); MC_EQ(value(ZDD::permit(a, b), L), pe, ctx + " permit");
    if (((a ^ b).is_terminal0()) != (f == g)) mc::fail(ctx + " canonicity");
}
MC_GROUP(zdd_pairs_3) {
    mc::bound("ZDD over 3 items: all 256 families (all unary operations, node counts, max_len_item, canonicity) and all 65536 ordered pairs (&, +, -, ^, restrict, permit)");
    int L = 3; init(L); vector<ZDD> z(256); for (int f = 0; f < 256; ++f) { MC_CASE(f); z[f] = build(f, L); unary(f, z[f], L); }
    for (int f = 0; f < 256; ++f) for (int g = 0; g < 256; ++g) { MC_CASE(f, g); binary(f, g, z[f], z[g], L); }
}
MC_GROUP(zdd_unary_4) {
    int st = mc::T(5, 1); mc::bound("ZDD over 4 items: every (quick: every 5th) of the 65536 families, all unary operations; pairs with a fixed set of 12 families");
    int L = 4; init(L); vector<F> fix{ 0, 1, 2, 0x8000, 0xffff, 0x8001, 0x1234, 0x6996, 0x0116, 0x7ee0, 0x00ff, 0xaaaa }; vector<ZDD> fz; for (F g : fix) fz.push_back(build(g, L));
    for (int f = 0; f < 65536; f += st) { MC_CASE(f); ZDD z = build(f, L); unary(f, z, L); for (size_t i = 0; i < fix.size(); ++i) { binary(f, fix[i], z, fz[i], L); binary(fix[i], f, fz[i], z, L); } }
}
MC_GROUP(zdd_powerset) {
    mc::bound("ZDD: power sets of up to 40 items: cardinality 2^n, len n, size n");
    ZDD z = ZDD::terminal1(); init(4); for (int n = 1; n <= 40; ++n) { MC_CASE(n); init(n); z = z + ZDD::change(z, lev[n - 1]); MC_EQ(ZDD::card<long long>(z), 1ll << n, ""); MC_EQ(ZDD::len(z), n, ""); MC_EQ(ZDD::size(z), n, ""); MC_EQ((int)ZDD::max_len_item(z)->size(), n, ""); MC_EQ(ZDD::card<long long>(ZDD::onset0(z, lev[n / 2])), 1ll << (n - 1), ""); MC_EQ(ZDD::card<long long>(ZDD::change(z, lev[n / 2])), 1ll << n, ""); }
}
MC_MAIN
