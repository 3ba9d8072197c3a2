#include "free.hpp"
#include "library/datastructure/bbst/red_black_tree.hpp"
#include "library/datastructure/bbst/red_black_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_reversible_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
using namespace fr; using namespace suisen::bbst;
// sequence trees hold free cells; the reversible tree needs a reversal-invariant product: the sorted multiset of cells
static Seq mapn(string f, Seq x, int n) { MC_EQ(cells(x), n, "mapping is told the number of elements"); return smap(f, x); }
static Seq srt(const Seq& x) { std::vector<string> c; string t; for (char ch : x.s) { t += ch; if (ch == '|') c.push_back(t), t.clear(); } std::sort(c.begin(), c.end()); string r; for (auto& y : c) r += y; return Seq(r); }
static Seq mcat(Seq a, Seq b) { return srt(scat(a, b)); }
static Seq mmap(string f, Seq x, int n) { MC_EQ(cells(x), n, "mapping is told the number of elements"); return srt(smap(f, x)); }
using N0 = RedBlackTreeNode<Seq>; using P0 = PersistentRedBlackTreeNode<Seq>;
using N1 = segtree::RedBlackTreeNode<Seq, scat, seps>; using P1 = segtree::PersistentRedBlackTreeNode<Seq, scat, seps>;
using N2 = lazy_segtree::RedBlackTreeNode<Seq, scat, seps, string, mapn, comp, fid>; using P2 = lazy_segtree::PersistentRedBlackTreeNode<Seq, scat, seps, string, mapn, comp, fid>;
using N3 = reversible_lazy_segtree::RedBlackTreeNode<Seq, mcat, seps, string, mmap, comp, fid>; using P3 = reversible_lazy_segtree::PersistentRedBlackTreeNode<Seq, mcat, seps, string, mmap, comp, fid>;
using V = std::vector<Seq>;
// kind 0: plain, 1: product, 2: lazy, 3: reversible lazy
template <class N, int kind> static Seq product(const V& a, int l, int r) { Seq s = foldS(a, l, r); return kind == 3 ? srt(s) : s; }
static bool quiet_ = false;   // unobserved histories: nothing dumps (and thereby pushes) between operations
template <class N, int kind> static void check(typename N::tree_type t, const V& a) {
    if (quiet_) { MC_EQ(N::size(t), (int)a.size(), "size"); return; }
    N::check_rbtree_properties(t);
    MC_EQ(N::size(t), (int)a.size(), "size"); MC_EQ(N::empty(t), a.empty(), "empty");
    V d; N::dump(t, std::back_inserter(d)); MC_EQ(d, a, "contents");
    if constexpr (kind) MC_EQ(N::prod_all(t), (product<N, kind>(a, 0, a.size())), "prod_all");
}
template <class N, int kind> static V init(int n) { V a(n); for (int i = 0; i < n; ++i) a[i] = cell(letter(i)); return a; }
// one operation on (t, a); returns the new tree, never touching older versions if N is persistent
template <class N, int kind> static typename N::tree_type oper(mc::Chooser& c, typename N::tree_type t, V& a, int d, bool& ok) {
    int n = a.size(); Seq v = cell(letter(26 + d)); string f(1, digit(d + 1));
    int K = kind == 0 ? 6 : kind == 1 ? 7 : kind == 2 ? 8 : 9;
    switch (c.choose(K)) {
    case 0: { int k = c.range(0, n); MC_LOG("insert " << k); a.insert(a.begin() + k, v); return k == 0 && n ? N::push_front(t, v) : k == n ? N::push_back(t, v) : N::insert(t, k, v); }
    case 1: { if (!n) { ok = false; return t; } int k = c.choose(n); MC_LOG("erase " << k); auto r = k == 0 ? N::pop_front(t) : k == n - 1 ? N::pop_back(t) : N::erase(t, k); MC_EQ(r.second, a[k], "erased value"); a.erase(a.begin() + k); return r.first; }
    case 2: { if (!n) { ok = false; return t; } int k = c.choose(n); MC_LOG("set " << k); a[k] = v; return N::set(t, k, v); }
    case 3: { if (!n) { ok = false; return t; } int k = c.choose(n); MC_LOG("update_value " << k); t = N::update_value(t, k, [&](const Seq& x) { MC_EQ(x, a[k], "value seen by updater"); return v; }); a[k] = v; return t; }
    case 4: { if (!n) { ok = false; return t; } int k = c.choose(n); MC_LOG("get " << k); auto r = N::get(t, k); MC_EQ(r.second, a[k], "get " << k); return r.first; }
    case 5: { int l = c.range(0, n), r = c.range(l, n); bool sw = c.flag(); auto [x, y, z] = N::split_range(t, l, r); check<N, kind>(x, V(a.begin(), a.begin() + l)); check<N, kind>(y, V(a.begin() + l, a.begin() + r)); check<N, kind>(z, V(a.begin() + r, a.end())); MC_LOG("split_range " << l << " " << r << (sw ? " and rotate" : ""));
        if (sw) { std::rotate(a.begin(), a.begin() + l, a.begin() + r); return N::merge(N::merge(y, x), z); } return N::merge(x, N::merge(y, z)); }
    case 6: if constexpr (kind >= 1) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("prod " << l << " " << r); auto p = N::prod(t, l, r); MC_EQ(p.second, (product<N, kind>(a, l, r)), "prod(" << l << "," << r << ")"); return p.first; }
    case 7: if constexpr (kind >= 2) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("apply " << l << " " << r); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); return l == 0 && r == n ? N::apply_all(t, f) : N::apply(t, l, r, f); }
    case 8: if constexpr (kind >= 3) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("reverse " << l << " " << r); std::reverse(a.begin() + l, a.begin() + r); return l == 0 && r == n ? N::reverse_all(t) : N::reverse(t, l, r); }
    }
    abort();
}
template <class N, int kind> static void hist(mc::Chooser& c, int n, int D) {
    N::init_pool(mc::keep_going() ? 512 : 64); V a = init<N, kind>(n); auto t = N::build(a); check<N, kind>(t, a); MC_LOG("n=" << n);
    for (int d = 0; d < D; ++d) { bool ok = true; t = oper<N, kind>(c, t, a, d, ok); if (!ok) { if (mc::keep_going()) continue; break; } check<N, kind>(t, a); }
    mc::outcome(std::hash<string>()(foldS(a, 0, a.size()).s));
    N::free(t); MC_EQ(N::node_num(), 0, "free returns every node to the pool");
}
// persistent: operations start from any earlier version; all versions are compared after every operation
template <class N, int kind> static void versions(mc::Chooser& c, int n, int D) {
    N::init_pool(mc::keep_going() ? 4000 : 400); V a = init<N, kind>(n); std::vector<std::pair<typename N::tree_type, V>> vs; vs.push_back({ N::build(a), a }); MC_LOG("n=" << n);
    for (int d = 0; d < D; ++d) {
        int from = c.choose(vs.size()); V b = vs[from].second; bool ok = true; MC_LOG("from version " << from); typename N::tree_type t = vs[from].first;
        auto r = oper<N, kind>(c, t, b, d, ok); if (!ok) { if (mc::keep_going()) continue; break; } vs.push_back({ r, b });
        for (size_t i = 0; i < vs.size(); ++i) { V g; N::dump(vs[i].first, std::back_inserter(g)); MC_EQ(g, vs[i].second, "version " << i << " after " << d + 1 << " operations"); check<N, kind>(vs[i].first, vs[i].second); }
    }
    u_int64_t h = 1; for (auto& v : vs) h = mc::mix(h, std::hash<string>()(foldS(v.second, 0, v.second.size()).s)); mc::outcome(h);
}
#define HIST(nm, N, k) MC_GROUP(hist_##nm) { mc::bound("initial n<=4(5), depth 2(3); n=3 depth 3"); mc::explore([&](mc::Chooser& c) { if (c.flag()) hist<N, k>(c, 2, mc::T(3, 4)); else hist<N, k>(c, c.range(0, mc::T(5, 6)), 2); }); }
#define VERS(nm, N, k) MC_GROUP(vers_##nm) { mc::bound("initial n<=4(5), depth 2, every version as base; n=2 depth 3"); mc::explore([&](mc::Chooser& c) { if (c.flag()) versions<N, k>(c, mc::T(2, 3), 3); else versions<N, k>(c, c.range(0, mc::T(4, 6)), 2); }); }
HIST(plain, N0, 0) HIST(prod, N1, 1) HIST(lazy, N2, 2) HIST(rev, N3, 3) VERS(plain, P0, 0) VERS(prod, P1, 1) VERS(lazy, P2, 2) VERS(rev, P3, 3)
template <class N, int kind> static void ladder(int M, int n0 = 0) {
    mc::bound("merge of every pair of sizes, split at every point, after every build of n");
    for (int n = n0; n <= M; ++n) for (int k = 0; k <= n; ++k) {
        MC_CASE(n, k); N::init_pool(6000); V a = init<N, kind>(n); auto t = N::build(a); check<N, kind>(t, a);
        auto [x, y] = N::split(t, k); V b(a.begin(), a.begin() + k), d(a.begin() + k, a.end()); check<N, kind>(x, b); check<N, kind>(y, d);
        auto u = N::merge(y, x); V e(d); e.insert(e.end(), b.begin(), b.end()); check<N, kind>(u, e);   // sizes n-k and k
        auto [p, q] = N::split(u, k); auto w = N::merge(q, p); std::rotate(e.begin(), e.begin() + k, e.end()); check<N, kind>(w, e);
    }
}
#define LAD(nm, N, k) MC_GROUP(ladder_##nm) { ladder<N, k>(mc::T(40, 70)); }
LAD(plain, N0, 0) LAD(prod, N1, 1) LAD(lazy, N2, 2) LAD(rev, N3, 3) LAD(pplain, P0, 0) LAD(pprod, P1, 1) LAD(plazy, P2, 2) LAD(prev, P3, 3)
// growing one element at a time (deep rotations), all insertion disciplines
template <class N, int kind> static void grow() {
    mc::bound("n up to 48 by push_front / push_back / middle / alternating insertion, then drained from either end or the middle");
    for (int how = 0; how < 4; ++how) for (int dr = 0; dr < 3; ++dr) {
        MC_CASE(how, dr); N::init_pool(40000); V a; typename N::tree_type t = N::empty_tree();
        for (int i = 0; i < 48; ++i) { int n = a.size(), k = how == 0 ? 0 : how == 1 ? n : how == 2 ? n / 2 : i % 2 ? n : 0; a.insert(a.begin() + k, cell(letter(i))); t = N::insert(t, k, cell(letter(i))); if constexpr (kind >= 3) if (i % 5 == 4) { t = N::reverse(t, 1, n); std::reverse(a.begin() + 1, a.begin() + n); } check<N, kind>(t, a); }
        while (!a.empty()) { int n = a.size(), k = dr == 0 ? 0 : dr == 1 ? n - 1 : n / 2; auto r = N::erase(t, k); MC_EQ(r.second, a[k], "erased"); t = r.first; a.erase(a.begin() + k); check<N, kind>(t, a); }
    }
}
#define GROW(nm, N, k) MC_GROUP(grow_##nm) { grow<N, k>(); }
GROW(plain, N0, 0) GROW(prod, N1, 1) GROW(lazy, N2, 2) GROW(rev, N3, 3) GROW(pplain, P0, 0) GROW(pprev, P3, 3)
// persistent-only composite operations
template <class N, int kind> static void composite(mc::Chooser& c) {
    mc::bound("two versions of size <=4(5) and <=3(4), every swap/cut/replace range, both versions unchanged");
    N::init_pool(300); int n = c.range(0, mc::T(4, 5)), m = c.range(0, mc::T(3, 4)); V a = init<N, kind>(n), b; for (int i = 0; i < m; ++i) b.push_back(cell(letter(30 + i)));
    auto t = N::build(a), u = N::build(b); int how = c.choose(4); MC_LOG("n=" << n << " m=" << m << " how=" << how);
    if (how == 0) { bool self = c.flag(); V& bb = self ? a : b; auto uu = self ? t : u; int m2 = bb.size(), l = c.range(0, n), r = c.range(l, n), p = c.range(0, m2), q = c.range(p, m2); auto [x, y] = N::swap(t, l, r, uu, p, q);
        V w(a.begin(), a.begin() + l); w.insert(w.end(), bb.begin() + p, bb.begin() + q); w.insert(w.end(), a.begin() + r, a.end()); V z(bb.begin(), bb.begin() + p); z.insert(z.end(), a.begin() + l, a.begin() + r); z.insert(z.end(), bb.begin() + q, bb.end());
        check<N, kind>(x, w); check<N, kind>(y, z); }
    if (how == 1) { int l = c.range(0, n), r = c.range(l, n); check<N, kind>(N::cut(t, l, r), V(a.begin() + l, a.begin() + r)); }
    if (how == 2) { int l = c.range(0, n), r = c.range(l, n); auto x = N::replace(u, t, l, r); V w(a.begin(), a.begin() + l); w.insert(w.end(), b.begin(), b.end()); w.insert(w.end(), a.begin() + r, a.end()); check<N, kind>(x, w); }
    if (how == 3) { if (m > n) return; int l = c.range(0, n - m); auto x = N::replace(u, t, l); V w(a.begin(), a.begin() + l); w.insert(w.end(), b.begin(), b.end()); w.insert(w.end(), a.begin() + l + m, a.end()); check<N, kind>(x, w); check<N, kind>(t, a); x = N::rebuild(x); check<N, kind>(x, w); return; }
    check<N, kind>(t, a); check<N, kind>(u, b);
}
#define COMP(nm, N, k) MC_GROUP(comp_##nm) { mc::explore([&](mc::Chooser& c) { composite<N, k>(c); }); }
COMP(plain, P0, 0) COMP(prod, P1, 1) COMP(lazy, P2, 2) COMP(rev, P3, 3)
MC_GROUP(to_string) {
    mc::bound("n<=5");
    using M = RedBlackTreeNode<int>;
    for (int n = 0; n <= 5; ++n) { MC_CASE(n); M::init_pool(100); std::vector<int> a(n); string w = "["; for (int i = 0; i < n; ++i) a[i] = i * 7, w += (i ? ", " : "") + std::to_string(i * 7); w += "]"; MC_EQ(M::to_string(M::build(a)), w, "to_string"); }
}
template <class N, int kind> static void quiet_hist(mc::Chooser& c, int n, int D) {
    quiet_ = true; N::init_pool(400); V a = init<N, kind>(n); auto t = N::build(a); MC_LOG("n=" << n << " (unobserved history)");
    for (int d = 0; d < D; ++d) { bool ok = true; t = oper<N, kind>(c, t, a, d, ok); if (!ok) { quiet_ = false; return; } }
    quiet_ = false; check<N, kind>(t, a); mc::step();
}
template <class N, int kind> static void quiet_vers(mc::Chooser& c, int n, int D) {
    quiet_ = true; N::init_pool(600); V a = init<N, kind>(n); std::vector<std::pair<typename N::tree_type, V>> vs; vs.push_back({ N::build(a), a }); MC_LOG("n=" << n << " (unobserved versions)");
    for (int d = 0; d < D; ++d) { int from = c.choose(vs.size()); V b = vs[from].second; bool ok = true; typename N::tree_type t = vs[from].first; auto r = oper<N, kind>(c, t, b, d, ok); if (!ok) { quiet_ = false; return; } vs.push_back({ r, b }); }
    quiet_ = false; if (c.flag()) for (size_t i = 0; i < vs.size(); ++i) check<N, kind>(vs[i].first, vs[i].second); else for (size_t i = vs.size(); i-- > 0;) check<N, kind>(vs[i].first, vs[i].second); mc::step();
}
#define QH(nm, N, k) MC_GROUP(quiet_##nm) { mc::bound("every history of 2 operations from n<=4(5) and of 3 from n=2(3) with nothing observed in between (reads are operations); one comparison at the end"); mc::explore([&](mc::Chooser& c) { if (c.flag()) quiet_hist<N, k>(c, mc::T(2, 3), 3); else quiet_hist<N, k>(c, c.range(0, mc::T(4, 5)), 2); }); }
#define QV(nm, N, k) MC_GROUP(quiet_vers_##nm) { mc::bound("persistent: every history of 2 operations from n<=3(4), of 3 from n=2 (thorough), any version as base, nothing observed in between; versions compared at the end in both orders"); mc::explore([&](mc::Chooser& c) { if (mc::thorough() && c.flag()) quiet_vers<N, k>(c, 2, 3); else quiet_vers<N, k>(c, c.range(0, mc::T(3, 4)), 2); }); }
QH(plain, N0, 0) QH(prod, N1, 1) QH(lazy, N2, 2) QH(rev, N3, 3) QV(plain, P0, 0) QV(prod, P1, 1) QV(lazy, P2, 2) QV(rev, P3, 3)
template <class N, int kind> static void med(int n) {
    MC_CASE(n, kind); N::init_pool(200000); V a; for (int i = 0; i < n; ++i) a.push_back(cell(letter(i % 40))); auto t = N::build(a);
    for (int i = 0; i < 70; ++i) { int m = a.size(), l = (i * 37) % (m + 1), r = (i * 91 + 13) % (m + 1); if (l > r) std::swap(l, r);
        switch (i % 5) { case 0: t = N::insert(t, l, cell(letter(i % 40))); a.insert(a.begin() + l, cell(letter(i % 40))); break; case 1: if (l < m) { auto e = N::erase(t, l); MC_EQ(e.second, a[l], "erased"); t = e.first; a.erase(a.begin() + l); } break;
            case 2: { auto [x, y] = N::split(t, l); t = N::merge(y, x); std::rotate(a.begin(), a.begin() + l, a.end()); break; }
            case 3: if constexpr (kind >= 3) { t = N::reverse(t, l, r); std::reverse(a.begin() + l, a.begin() + r); } break;
            case 4: if constexpr (kind == 2 || kind == 4) { string f(1, digit(i % 10)); t = N::apply(t, l, r, f); for (int j = l; j < r; ++j) a[j] = smap(f, a[j]); } break; }
        if (i % 9 == 0) check<N, kind>(t, a); mc::step(); }
    check<N, kind>(t, a); for (int k = 0; k < (int)a.size(); k += 13) { auto [x, y] = N::split(t, k); V b(a.begin(), a.begin() + k), d(a.begin() + k, a.end()); check<N, kind>(x, b); check<N, kind>(y, d); t = N::merge(x, y); check<N, kind>(t, a); }
}
MC_GROUP(medium_sizes) { mc::bound("130, 257 and 300 elements, 70 interleaved operations, then split and re-merged at every 13th point: contents, products, red-black shape"); for (int n : { 130, 257, 300 }) { med<N0, 0>(n); med<N1, 1>(n); med<N2, 2>(n); med<N3, 3>(n); med<P0, 0>(n); med<P3, 3>(n); } }
MC_GROUP(periodic_plain) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a tree of 6 elements");  auto f = [&](mc::Chooser& c) { hist<N0, 0>(c, 6, 30); }; mc::periodic(f); }
MC_GROUP(periodic_prod) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a tree of 6 elements");  auto f = [&](mc::Chooser& c) { hist<N1, 1>(c, 6, 30); }; mc::periodic(f); }
MC_GROUP(periodic_lazy) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a tree of 6 elements");  auto f = [&](mc::Chooser& c) { hist<N2, 2>(c, 6, 30); }; mc::periodic(f); }
MC_GROUP(periodic_rev) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a tree of 6 elements");  auto f = [&](mc::Chooser& c) { hist<N3, 3>(c, 6, 30); }; mc::periodic(f, true); }
MC_GROUP(periodic_vers_plain) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 12 operations from any version, first tree of 4 elements");  auto f = [&](mc::Chooser& c) { versions<P0, 0>(c, 4, 12); }; mc::periodic(f, true); }
MC_GROUP(periodic_vers_prod) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 12 operations from any version, first tree of 4 elements");  auto f = [&](mc::Chooser& c) { versions<P1, 1>(c, 4, 12); }; mc::periodic(f, true); }
MC_GROUP(periodic_vers_lazy) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 12 operations from any version, first tree of 4 elements");  auto f = [&](mc::Chooser& c) { versions<P2, 2>(c, 4, 12); }; mc::periodic(f, true); }
MC_GROUP(periodic_vers_rev) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 12 operations from any version, first tree of 4 elements");  auto f = [&](mc::Chooser& c) { versions<P3, 3>(c, 4, 12); }; mc::periodic(f, true); }
MC_MAIN
