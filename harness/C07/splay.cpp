#include "free.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
using namespace fr; using namespace suisen;
static Seq srt(const Seq& x) { std::vector<string> c; string t; for (char ch : x.s) { t += ch; if (ch == '|') c.push_back(t), t.clear(); } std::sort(c.begin(), c.end()); string r; for (auto& y : c) r += y; return Seq(r); }
static Seq mcat(Seq a, Seq b) { return srt(scat(a, b)); }
static Seq mmap(string f, Seq x) { return srt(smap(f, x)); }
using V = std::vector<Seq>;
// reads restructure the tree, so histories contain them as operations and the full comparison comes last
struct D0 : DynamicSequence<Seq> { using DynamicSequence<Seq>::DynamicSequence; };
using S0 = DynamicSequence<Seq>; using S1 = RangeFoldableDynamicSequence<Seq, scat, seps>; using S2 = LazyEvalDynamicSequence<Seq, scat, seps, string, smap, comp, fid>;
using C1 = RangeFoldableDynamicSequence<Seq, mcat, seps>; using C2 = LazyEvalDynamicSequence<Seq, mcat, seps, string, mmap, comp, fid>;   // commutative: reversal allowed
template <class S> struct cap; template <> struct cap<S0> { enum { k = 0, r = 1 }; }; template <> struct cap<S1> { enum { k = 1, r = 0 }; }; template <> struct cap<S2> { enum { k = 2, r = 0 }; }; template <> struct cap<C1> { enum { k = 1, r = 1 }; }; template <> struct cap<C2> { enum { k = 2, r = 1 }; };
template <class S> static Seq prod(const V& a, int l, int r) { Seq s = foldS(a, l, r); return cap<S>::r ? srt(s) : s; }
template <class S> static void deep(S& s, const V& a, int order) {
    int n = a.size(); MC_EQ(s.size(), n, "size"); if constexpr (cap<S>::k) MC_EQ(s.prod_all(), prod<S>(a, 0, n), "prod_all");
    for (int q = 0; q < n; ++q) { int i = order == 0 ? q : order == 1 ? n - 1 - q : (q & 1 ? n - 1 - q / 2 : q / 2); Seq x = s[i]; MC_EQ(x, a[i], "[] " << i); if constexpr (cap<S>::k == 0) { const S& cs = s; MC_EQ(Seq(cs[i]), a[i], "const []"); } }
    if constexpr (cap<S>::k == 0) if (n) { const S& cs = s; MC_EQ(Seq(s.front()), a[0], "front"); MC_EQ(Seq(s.back()), a[n - 1], "back"); MC_EQ(Seq(cs.back()), a[n - 1], "const back"); MC_EQ(Seq(cs.front()), a[0], "const front"); }
    if constexpr (cap<S>::k) for (int l = 0; l <= n; ++l) for (int r = n; r >= l; --r) { if ((l + r) & 1) MC_EQ(s.prod(l, r), prod<S>(a, l, r), "prod(" << l << "," << r << ")"); else MC_EQ(s(l, r), prod<S>(a, l, r), "operator()(" << l << "," << r << ")"); }
    MC_EQ(s.size(), n, "size");
}
template <class S> static bool oper(mc::Chooser& c, S& s, V& a, int d) {
    constexpr int k_ = cap<S>::k; int n = a.size(); Seq v = cell(letter(26 + d)); string f(1, digit(d + 1));
    switch (c.choose(8)) {
    case 0: { int k = c.range(0, n); MC_LOG("insert " << k); if (k == 0 && n) s.push_front(v); else if (k == n) s.push_back(v); else s.insert(k, v); a.insert(a.begin() + k, v); return true; }
    case 1: { if (!n) return false; int k = c.choose(n); MC_LOG("erase " << k); if (k == 0) s.pop_front(); else if (k == n - 1) s.pop_back(); else s.erase(k); a.erase(a.begin() + k); return true; }
    case 2: { if (!n) return false; int k = c.choose(n); MC_LOG("set " << k); s[k] = v; a[k] = v; if constexpr (k_) MC_EQ(s.prod_all(), prod<S>(a, 0, n), "prod_all after set"); return true; }
    case 3: { if (!n) return false; int k = c.choose(n); MC_LOG("get " << k); Seq x = s[k]; MC_EQ(x, a[k], "get"); return true; }
    case 4: { int k = c.range(0, n), how = c.choose(3); MC_LOG("split " << k << " then concat#" << how); S t = s.split(k); V l(a.begin(), a.begin() + k), r(a.begin() + k, a.end()); MC_EQ(s.size(), k, "left size"); MC_EQ(t.size(), n - k, "right size");
        if constexpr (k_) { MC_EQ(s.prod_all(), prod<S>(l, 0, k), "left product"); MC_EQ(t.prod_all(), prod<S>(r, 0, n - k), "right product"); }
        if (how == 0) s.concat(std::move(t)); else if (how == 1) { s.concat_left(std::move(t)); std::rotate(a.begin(), a.begin() + k, a.end()); } else { t += std::move(s); s = std::move(t); std::rotate(a.begin(), a.begin() + k, a.end()); }
        MC_EQ(t.size(), 0, "moved-from is empty"); return true; }
    case 5: if constexpr (cap<S>::r) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("reverse " << l << " " << r); if (l == 0 && r == n) s.reverse_all(); else s.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); return true; } else return false;
    case 6: if constexpr (k_ >= 1) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("prod " << l << " " << r); MC_EQ(s.prod(l, r), prod<S>(a, l, r), "prod(" << l << "," << r << ")"); return true; } else return false;
    case 7: if constexpr (k_ >= 2) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("apply " << l << " " << r); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); if (l == 0 && r == n) s.apply_all(f); else s.apply(l, r, f); return true; } else return false;
    }
    abort();
}
template <class S> static void build(S& s, V& a, int n, int how) { for (int i = 0; i < n; ++i) { int k = how == 0 ? (int)a.size() : how == 1 ? 0 : (int)a.size() / 2; s.insert(k, cell(letter(i))); a.insert(a.begin() + k, cell(letter(i))); } }
template <class S> static void hist(mc::Chooser& c, int n, int D) {
    S s; V a; int how = n >= 2 ? c.choose(3) : 0; build(s, a, n, how); MC_LOG("n=" << n << " built#" << how);
    for (int d = 0; d < D; ++d) { if (!oper(c, s, a, d)) { if (mc::keep_going()) continue; return; } MC_EQ(s.size(), (int)a.size(), "size"); if constexpr (cap<S>::k) MC_EQ(s.prod_all(), prod<S>(a, 0, a.size()), "prod_all"); }
    mc::outcome(std::hash<string>()(foldS(a, 0, a.size()).s)); deep(s, a, a.size() ? c.choose(2) : 0);
}
#define HIST(nm, S) MC_GROUP(seq_##nm) { mc::bound("n<=4(6) (3 with commutative products) depth 2, three build orders; n<=1(3) depth 3; all reads in both orders afterwards"); mc::explore([&](mc::Chooser& c) { if (c.flag()) hist<S>(c, c.range(0, mc::T(1, 3)), 3); else hist<S>(c, c.range(0, mc::T(cap<S>::r && cap<S>::k ? 3 : 4, 6)), 2); }); }
HIST(plain, S0) HIST(fold, S1) HIST(lazy, S2) HIST(fold_rev, C1) HIST(lazy_rev, C2)
template <class S> static void ladder() {
    mc::bound("n up to 36 (22 commutative; thorough 64), every access order pattern, split at every point");
    for (int n = 0; n <= mc::T(cap<S>::r && cap<S>::k ? 22 : 36, 64); ++n) for (int how = 0; how < 3; ++how) for (int o = 0; o < 3; ++o) {
        MC_CASE(n, how, o); S s; V a; build(s, a, n, how); for (int i = 0; i < n; ++i) { int k = (i * 7 + o * 3) % n; Seq x = s[k]; MC_EQ(x, a[k], "[]"); if constexpr (cap<S>::r) { s.reverse(k / 2, k); std::reverse(a.begin() + k / 2, a.begin() + k); } if constexpr (cap<S>::k == 2) { string f(1, digit(i)); s.apply(k / 3, k, f); for (int j = k / 3; j < k; ++j) a[j] = smap(f, a[j]); } }
        for (int k = 0; k <= n; k += (n > 12 ? 5 : 1)) { S t = s.split(k); t += std::move(s); s = std::move(t); std::rotate(a.begin(), a.begin() + k, a.end()); if constexpr (cap<S>::k) MC_EQ(s.prod_all(), prod<S>(a, 0, n), "product"); }
        if (n <= 12 || how == 0) deep(s, a, o);
    }
}
MC_GROUP(ladder_plain) { ladder<S0>(); } MC_GROUP(ladder_fold) { ladder<S1>(); } MC_GROUP(ladder_lazy) { ladder<S2>(); } MC_GROUP(ladder_fold_rev) { ladder<C1>(); } MC_GROUP(ladder_lazy_rev) { ladder<C2>(); }
MC_GROUP(swap_two) {
    mc::bound("two sequences of sizes <=3 swapped, then used");
    mc::explore([&](mc::Chooser& c) { S2 s, t; V a, b; build(s, a, c.range(0, 3), 0); build(t, b, c.range(0, 3), 1); s.swap(t); std::swap(a, b); if (!oper(c, s, a, 0)) return; deep(s, a, 0); deep(t, b, 1); S1 u, v; build(u, a = V(), c.range(0, 2), 0); build(v, b = V(), 2, 2); u.swap(v); deep(u, b, 0); deep(v, a, 0); });
}
// ---------------------------------------------------------------- maps
using M0 = SplayTreeMap<int, Seq>; using M1 = RangeFoldableMap<int, Seq, scat, seps>; using M2 = LazyEvalMap<int, Seq, scat, seps, string, smap, comp, fid>;
template <class M> struct mk; template <> struct mk<M0> { enum { v = 0 }; }; template <> struct mk<M1> { enum { v = 1 }; }; template <> struct mk<M2> { enum { v = 2 }; };
using R = std::map<int, Seq>;
static Seq foldk(const R& m, int l, int r) { Seq s; for (auto& [k, v] : m) if (l <= k && k < r) s = scat(s, v); return s; }
static Seq foldi(const R& m, int l, int r) { Seq s; int i = 0; for (auto& [k, v] : m) { if (l <= i && i < r) s = scat(s, v); ++i; } return s; }
template <class M> static void deepm(M& s, const R& m, int U, int order) {
    int n = m.size(); MC_EQ(s.size(), n, "size"); if constexpr (mk<M>::v) MC_EQ(s.prod_all(), foldk(m, -99, 99), "prod_all");
    for (int q = -1; q <= U; ++q) { int k = order ? U - 1 - q : q; MC_EQ(s.contains(k), m.count(k) > 0, "contains " << k); MC_EQ(s.get_or_default(k, cell("dflt")), m.count(k) ? m.at(k) : cell("dflt"), "get_or_default " << k); }
    int i = 0; for (auto& [k, v] : m) { int j = order ? n - 1 - i : i; auto it = m.begin(); std::advance(it, j); auto g = s.kth_entry(j); MC_EQ(g.first, it->first, "kth key"); MC_EQ(g.second, it->second, "kth value"); ++i; (void)k; (void)v; }
    if constexpr (mk<M>::v) { for (int l = -1; l <= U; ++l) for (int r = l; r <= U; ++r) { MC_EQ(s.prod_by_key(l, r), foldk(m, l, r), "prod_by_key(" << l << "," << r << ")"); MC_EQ(s(l, r), foldk(m, l, r), "operator()"); } for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) MC_EQ(s.prod_by_index(l, r), foldi(m, l, r), "prod_by_index(" << l << "," << r << ")"); }
    MC_EQ(s.size(), n, "size");
}
template <class M> static bool operm(mc::Chooser& c, M& s, R& m, int U, int d) {
    int n = m.size(), k = c.range(0, 13); Seq v = cell(letter(26 + d)); string f(1, digit(d + 1));
    auto key = [&]() { return c.choose(U); };
    switch (k) {
    case 0: { int x = key(); MC_LOG("insert " << x); s.insert(x, v); m[x] = v; return true; }
    case 1: { int x = key(); MC_LOG("insert_if_absent " << x); s.insert_if_absent(x, v); m.insert({ x, v }); return true; }
    case 2: { int x = key(); MC_LOG("erase_key " << x); MC_EQ(s.erase_key(x), m.erase(x) > 0, "erase_key"); return true; }
    case 3: { if (!n) return false; int i = c.choose(n); MC_LOG("erase_index " << i); s.erase_index(i); auto it = m.begin(); std::advance(it, i); m.erase(it); return true; }
    case 4: { int x = key(); MC_LOG("get_or_create " << x); Seq g = s.get_or_create(x, v); m.insert({ x, v }); MC_EQ(g, m[x], "get_or_create"); return true; }
    case 5: { int x = key(); MC_LOG("[] = " << x); s[x] = v; m[x] = v; return true; }
    case 6: { int x = key(); MC_LOG("read [] " << x); Seq g = s[x]; MC_EQ(g, m[x], "[]"); return true; }
    case 7: { int x = key(); MC_LOG("contains " << x); MC_EQ(s.contains(x), m.count(x) > 0, "contains"); return true; }
    case 8: { int i = c.range(0, n); bool sw = c.flag(); MC_LOG("split_by_index " << i); M t = s.split_by_index(i); R a, b; int j = 0; for (auto& e : m) (j++ < i ? a : b).insert(e); MC_EQ(s.size(), (int)a.size(), "left size"); if (sw && n) { if constexpr (mk<M>::v) { MC_EQ(s.prod_all(), foldk(a, -9, 9), "left"); MC_EQ(t.prod_all(), foldk(b, -9, 9), "right"); } for (int x = 0; x < U; ++x) { MC_EQ(s.contains(x), a.count(x) > 0, "left"); MC_EQ(t.contains(x), b.count(x) > 0, "right"); } } s.merge(std::move(t)); return true; }
    case 9: { int x = c.range(-1, U); bool sw = c.flag(); MC_LOG("split_by_key " << x); M t = s.split_by_key(x); R a, b; for (auto& e : m) (e.first < x ? a : b).insert(e); MC_EQ(s.size(), (int)a.size(), "left size"); if (sw) { M w; w.merge(std::move(s)); deepm(s, R(), U, 0); s = std::move(w); } s.merge(std::move(t)); MC_EQ(t.size(), 0, "moved-from"); return true; }
    case 10: { if (!n) return false; int i = c.choose(n); MC_LOG("kth_entry " << i); auto it = m.begin(); std::advance(it, i); MC_EQ(s.kth_entry(i).first, it->first, "kth"); return true; }
    case 11: { M t; R b; t.insert(3, cell("q")); b[3] = cell("q"); t.swap(s); std::swap(b, m); deepm(t, b, U, 0); t.swap(s); std::swap(b, m); return true; }
    case 12: if constexpr (mk<M>::v == 2) { int l = c.range(-1, U), r = c.range(l, U); MC_LOG("apply_by_key " << l << " " << r); s.apply_by_key(l, r, f); for (auto& e : m) if (l <= e.first && e.first < r) e.second = smap(f, e.second); return true; } else return false;
    case 13: if constexpr (mk<M>::v == 2) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("apply_by_index " << l << " " << r); if (l == 0 && r == n) s.apply_all(f); else s.apply_by_index(l, r, f); int i = 0; for (auto& e : m) { if (l <= i && i < r) e.second = smap(f, e.second); ++i; } return true; } else return false;
    }
    abort();
}
template <class M> static void histm(mc::Chooser& c, int D, bool pre) {
    const int U = mc::keep_going() ? 9 : mc::T(4, 5); M s; R m; int pat = c.choose(pre ? 6 : 1);
    static const std::vector<int> P[6] = { {}, { 0, 1, 2, 3 }, { 3, 2, 1, 0 }, { 2, 0, 3 }, { 1, 3 }, { 0, 3, 1, 2 } };
    int i = 0; for (int x : P[pat]) { s.insert(x, cell(letter(i))); m[x] = cell(letter(i)); ++i; } MC_LOG("prefilled#" << pat);
    for (int d = 0; d < D; ++d) { if (!operm(c, s, m, U, d)) { if (mc::keep_going()) continue; return; } MC_EQ(s.size(), (int)m.size(), "size"); if constexpr (mk<M>::v) MC_EQ(s.prod_all(), foldk(m, -99, 99), "prod_all"); }
    u_int64_t h = 1; for (auto& e : m) h = mc::mix(h, std::hash<string>()(e.second.s) + e.first); mc::outcome(h); deepm(s, m, U, c.choose(2));
}
#define HM(nm, M) MC_GROUP(map_##nm) { mc::bound("4(5) keys: every history of 2(3) operations from empty and of 2 from 6 prefills"); mc::explore([&](mc::Chooser& c) { if (c.flag()) histm<M>(c, 2, true); else histm<M>(c, mc::T(2, 3), false); }); }
HM(splay, M0) HM(fold, M1) HM(lazy, M2)
MC_GROUP(map_get_or_create_ref) { mc::bound("reference returned by SplayTreeMap::get_or_create / [] is the stored value"); mc::explore([&](mc::Chooser& c) { M0 s; R m; for (int d = 0; d < 3; ++d) { int x = c.choose(4); Seq v = cell(letter(d)); if (c.flag()) s.get_or_create(x, seps()) = v; else s[x] = v; m[x] = v; } deepm(s, m, 4, 0); }); }
MC_GROUP(set) {
    mc::bound("SplayTreeSet over 5 keys, every history to depth 4(5)");
    mc::explore([&](mc::Chooser& c) {
        SplayTreeSet<int> s; std::set<int> m; const int U = 5;
        for (int d = 0; d < mc::T(4, 5); ++d) switch (c.choose(5)) {
            case 0: { int x = c.choose(U); s.insert(x); m.insert(x); MC_LOG("insert " << x); break; }
            case 1: { int x = c.choose(U); MC_LOG("erase " << x); MC_EQ(s.erase(x), m.erase(x) > 0, "erase"); break; }
            case 2: { int x = c.choose(U); MC_EQ(s.contains(x), m.count(x) > 0, "contains"); MC_LOG("contains " << x); break; }
            case 3: { int x = c.range(0, U); MC_LOG("split_by_key " << x); auto t = s.split_by_key(x); std::set<int> b(m.lower_bound(x), m.end()); MC_EQ(t.size(), (int)b.size(), "right size"); int i = 0; for (int y : b) MC_EQ(t[i++], y, "right [i]"); s.merge(std::move(t)); break; }
            case 4: { int x = c.range(0, m.size()); MC_LOG("split_by_index " << x); auto t = s.split_by_index(x); MC_EQ(s.size(), x, "left size"); SplayTreeSet<int> u; u.swap(s); s = std::move(u); s.merge(std::move(t)); break; }
        }
        MC_EQ(s.size(), (int)m.size(), "size"); int i = 0; u_int64_t h = 1; for (int y : m) { MC_EQ(s.kth_element(i), y, "kth"); MC_EQ(s[i++], y, "[i]"); h = mc::mix(h, y); } for (int x = -1; x <= U; ++x) MC_EQ(s.contains(x), m.count(x) > 0, "contains"); mc::outcome(h);
    });
}
MC_GROUP(map_ladder) {
    mc::bound("n up to 40 keys inserted ascending / descending / scattered, accessed in 3 orders, erased");
    for (int n = 1; n <= 40; ++n) for (int how = 0; how < 3; ++how) for (int o = 0; o < 3; ++o) {
        MC_CASE(n, how, o); M2 s; R m; for (int i = 0; i < n; ++i) { int k = how == 0 ? i : how == 1 ? n - 1 - i : (i * 17 + 5) % 41; s.insert(k, cell(letter(i))); m[k] = cell(letter(i)); }
        for (int i = 0; i < n; ++i) { int k = o == 0 ? i : o == 1 ? n - 1 - i : (i * 11) % n; MC_EQ(s.contains(k), m.count(k) > 0, "contains"); string f(1, digit(i)); s.apply_by_key(k / 2, k, f); for (auto& e : m) if (k / 2 <= e.first && e.first < k) e.second = smap(f, e.second); MC_EQ(s.prod_by_key(k / 3, k), foldk(m, k / 3, k), "prod_by_key"); }
        for (int i = 0; i < n; i += 2) { int k = (i * 7) % 41; MC_EQ(s.erase_key(k), m.erase(k) > 0, "erase_key"); } MC_EQ(s.size(), (int)m.size(), "size"); MC_EQ(s.prod_all(), foldk(m, -1, 99), "prod_all"); int i = 0; for (auto& e : m) { auto g = s.kth_entry(i++); MC_EQ(g.first, e.first, "key"); MC_EQ(g.second, e.second, "value"); }
    }
}
template <class M> static void first_map(mc::Chooser& c) {
    const int U = 4; M s; R m; static const std::vector<int> P[3] = { { 0, 1, 2, 3 }, { 2, 0, 3 }, { 3, 1 } }; int pat = mc::T(0, 1) ? c.choose(3) : 1, i = 0; for (int x : P[pat]) { s.insert(x, cell(letter(i))); m[x] = cell(letter(i)); ++i; }
    for (int d = 0; d < 2; ++d) if (!operm(c, s, m, U, d)) return;
    int n = m.size(), k = c.choose(6); MC_LOG("first query kind " << k);
    if (k == 0) { int x = c.range(-1, U); MC_EQ(s.get_or_default(x, cell("dflt")), m.count(x) ? m.at(x) : cell("dflt"), "first query get_or_default"); }
    if (k == 1 && n) { int j = c.choose(n); auto it = m.begin(); std::advance(it, j); auto g = s.kth_entry(j); MC_EQ(g.first, it->first, "first query kth key"); MC_EQ(g.second, it->second, "first query kth value"); }
    if (k == 2) { int x = c.range(-1, U); MC_EQ(s.contains(x), m.count(x) > 0, "first query contains"); }
    if constexpr (mk<M>::v) { if (k == 3) { int l = c.range(-1, U), r = c.range(l, U); MC_EQ(s.prod_by_key(l, r), foldk(m, l, r), "first query prod_by_key"); } if (k == 4) { int l = c.range(0, n), r = c.range(l, n); MC_EQ(s.prod_by_index(l, r), foldi(m, l, r), "first query prod_by_index"); } if (k == 5) MC_EQ(s.prod_all(), foldk(m, -99, 99), "first query prod_all"); }
    mc::step();
}
MC_GROUP(map_first_query_splay) { mc::bound("prefills of 4 keys (1 quick, 3 thorough), every 2-operation history, then every single query as the first one"); mc::explore([&](mc::Chooser& c) { first_map<M0>(c); }); }
MC_GROUP(map_first_query_fold) { mc::bound("prefills of 4 keys (1 quick, 3 thorough), every 2-operation history, then every single query as the first one"); mc::explore([&](mc::Chooser& c) { first_map<M1>(c); }); }
MC_GROUP(map_first_query_lazy) { mc::bound("prefills of 4 keys (1 quick, 3 thorough), every 2-operation history, then every single query as the first one"); mc::explore([&](mc::Chooser& c) { first_map<M2>(c); }); }
template <class S> static void med(int n, int how) {
    MC_CASE(n, how, cap<S>::k, cap<S>::r); S s; V a; for (int i = 0; i < n; ++i) { int k = how == 0 ? (int)a.size() : how == 1 ? 0 : (int)a.size() / 2; s.insert(k, cell(letter(i % 40))); a.insert(a.begin() + k, cell(letter(i % 40))); }
    for (int i = 0; i < 60; ++i) { int m = a.size(), l = (i * 37) % (m + 1), r = (i * 91 + 13) % (m + 1); if (l > r) std::swap(l, r);
        switch (i % 4) { case 0: s.insert(l, cell(letter(i % 40))); a.insert(a.begin() + l, cell(letter(i % 40))); break; case 1: { S t = s.split(l); t += std::move(s); s = std::move(t); std::rotate(a.begin(), a.begin() + l, a.end()); break; }
            case 2: if constexpr (cap<S>::r) { s.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); } break;
            case 3: if constexpr (cap<S>::k == 2) { string f(1, digit(i % 10)); s.apply(l, r, f); for (int j = l; j < r; ++j) a[j] = smap(f, a[j]); } break; }
        if constexpr (cap<S>::k > 0) if (i % 7 == 0) MC_EQ(s.prod(l / 2, r / 2), prod<S>(a, l / 2, r / 2), "prod"); if (i % 5 == 0 && l < (int)a.size()) { Seq x = s[l]; MC_EQ(x, a[l], "[]"); } mc::step(); }
    for (int i = 0; i < (int)a.size(); ++i) { int k = how ? (int)a.size() - 1 - i : i; Seq x = s[k]; MC_EQ(x, a[k], "[] " << k); } MC_EQ(s.size(), (int)a.size(), "size");
}
MC_GROUP(medium_sizes) { mc::bound("sequences of 130 and 300 elements in three build orders, 60 interleaved operations; maps of 300 keys in three insertion orders with range applications, products and erasures"); for (int n : { 130, 300 }) for (int how = 0; how < 3; ++how) { med<S0>(n, how); med<S1>(n, how); med<S2>(n, how); med<C1>(n, how); med<C2>(n, how); }
    for (int n : { 130, 300 }) for (int how = 0; how < 3; ++how) { MC_CASE(n, how, 9, 9); M2 s; R m; for (int i = 0; i < n; ++i) { int k = how == 0 ? i : how == 1 ? n - 1 - i : (i * 17 + 5) % 311; s.insert(k, cell(letter(i % 40))); m[k] = cell(letter(i % 40)); } for (int i = 0; i < 60; ++i) { int k = (i * 53) % n; MC_EQ(s.contains(k), m.count(k) > 0, "contains"); string f(1, digit(i % 10)); s.apply_by_key(k / 2, k, f); for (auto& e : m) if (k / 2 <= e.first && e.first < k) e.second = smap(f, e.second); if (i % 6 == 0) MC_EQ(s.prod_by_key(k / 3, k), foldk(m, k / 3, k), "prod_by_key"); if (i % 2) { int q = (i * 29) % n; MC_EQ(s.erase_key(q), m.erase(q) > 0, "erase_key"); } mc::step(); } int i = 0; MC_EQ(s.size(), (int)m.size(), "size"); for (auto& e : m) { auto g = s.kth_entry(i++); MC_EQ(g.first, e.first, "key"); MC_EQ(g.second, e.second, "value"); } } }
MC_GROUP(periodic_S0) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a sequence of 6 elements");  auto f = [&](mc::Chooser& c) { hist<S0>(c, 6, 30); }; mc::periodic(f); }
MC_GROUP(periodic_S1) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a sequence of 6 elements");  auto f = [&](mc::Chooser& c) { hist<S1>(c, 6, 30); }; mc::periodic(f); }
MC_GROUP(periodic_S2) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a sequence of 6 elements");  auto f = [&](mc::Chooser& c) { hist<S2>(c, 6, 30); }; mc::periodic(f, true); }
MC_GROUP(periodic_C1) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a sequence of 6 elements");  auto f = [&](mc::Chooser& c) { hist<C1>(c, 6, 30); }; mc::periodic(f, true); }
MC_GROUP(periodic_C2) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a sequence of 6 elements");  auto f = [&](mc::Chooser& c) { hist<C2>(c, 6, 30); }; mc::periodic(f, true); }
MC_GROUP(periodic_M0) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a map over 9 keys");  auto f = [&](mc::Chooser& c) { histm<M0>(c, 30, true); }; mc::periodic(f); }
MC_GROUP(periodic_M1) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a map over 9 keys");  auto f = [&](mc::Chooser& c) { histm<M1>(c, 30, true); }; mc::periodic(f, true); }
MC_GROUP(periodic_M2) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a map over 9 keys");  auto f = [&](mc::Chooser& c) { histm<M2>(c, 30, true); }; mc::periodic(f, true); }
MC_MAIN
