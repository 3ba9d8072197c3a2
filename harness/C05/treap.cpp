#include "free.hpp"
#define mt19937 mc_mt19937
namespace std { struct mc_mt19937 { typedef unsigned result_type; mc_mt19937(unsigned = 0) {} unsigned operator()() { return mc::rng_hook() ? unsigned(mc::rng_hook()()) : unsigned(mc::det_rand()); } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } }; }
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
using namespace fr; using namespace suisen;
static Seq mapn(string f, Seq x, int n) { MC_EQ(cells(x), n, "mapping is told the number of elements"); return smap(f, x); }
using A0 = DynamicArray<Seq>; using A1 = DynamicSegmentTree<Seq, scat, seps>; using R0 = ReversibleDynamicArray<Seq>; using R1 = ReversibleDynamicSegmentTree<Seq, scat, seps, srev>;
using R2 = ReversibleDynamicDualSegmentTree<Seq, string, smap, comp, fid>; using R3 = ReversibleDynamicLazySegmentTree<Seq, scat, seps, srev, string, mapn, comp, fid>;
using V = std::vector<Seq>;
enum { REV = 1, PROD = 2, APPLY = 4, IT = 8 };   // capabilities; IT: the iterator-returning interface
template <class S> struct cap; template <> struct cap<A0> { enum { v = IT }; }; template <> struct cap<A1> { enum { v = IT | PROD }; };
template <> struct cap<R0> { enum { v = REV }; }; template <> struct cap<R1> { enum { v = REV | PROD }; }; template <> struct cap<R2> { enum { v = REV | APPLY }; }; template <> struct cap<R3> { enum { v = REV | PROD | APPLY }; };
static void prios(int prio, mc::Chooser* c = nullptr) {
    if (prio == 4) { mc::rng_hook() = [c]() -> mc::u64 { return 10 + c->choose(3); }; return; }
    unsigned ctr = 1000; mc::rng_hook() = [ctr, prio]() mutable -> mc::u64 { ++ctr; return prio == 0 ? ctr : prio == 1 ? 100000 - ctr : prio == 2 ? 7 : (K(ctr) >> 33); };
}
static bool quiet_ = false;   // quiet histories: nothing observes (and thereby pushes) between operations
template <class S> static void light(S& s, const V& a) { if (quiet_) { MC_EQ(s.size(), (int)a.size(), "size"); return; } MC_EQ(s.size(), (int)a.size(), "size"); MC_EQ(s.empty(), a.empty(), "empty"); MC_EQ(s.dump(), a, "contents"); if constexpr (cap<S>::v & PROD) MC_EQ(s.prod_all(), foldS(a, 0, a.size()), "prod_all"); }
template <class S> static void deep(S& s, const V& a, bool jumps = true) {
    int n = a.size(); const S& cs = s;
    for (int i = 0; i < n; ++i) { MC_EQ(Seq(cs[i]), a[i], "[] " << i); }
    if (n) { MC_EQ(Seq(cs.front()), a[0], "front"); MC_EQ(Seq(cs.back()), a[n - 1], "back");
        if constexpr (!(cap<S>::v & PROD)) { Seq x = a[n - 1], y = a[0]; MC_EQ(s.back(), x, "mutable back"); s.back() = cell('?'); MC_EQ(Seq(cs[n - 1]), cell('?'), "write through back"); s.back() = x; MC_EQ(s.front(), y, "mutable front"); s.front() = cell('!'); MC_EQ(Seq(cs[0]), cell('!'), "write through front"); s.front() = y; } }
    { V d; for (auto it = s.begin(); it != s.end(); ++it) d.push_back(*it); MC_EQ(d, a, "forward iteration"); }
    { V d; for (auto it = s.rbegin(); it != s.rend(); ++it) d.push_back(*it); std::reverse(d.begin(), d.end()); MC_EQ(d, a, "reverse iteration"); }
    { V d; for (auto it = cs.end(); it != cs.begin();) { --it; d.push_back(*it); } std::reverse(d.begin(), d.end()); MC_EQ(d, a, "iteration from end"); }
    { V d; for (auto it = cs.crend(); it != cs.crbegin();) { it--; d.push_back(*it); } MC_EQ(d, a, "iteration from rend"); }
    if (jumps) for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) {
        auto p = s.begin() + i; auto q = s.cbegin(); q += i; if (i < n) { MC_EQ(Seq(*p), a[i], "*(begin+i)"); MC_EQ(Seq(*q), a[i], "*(cbegin+i)"); }
        p += j - i; q -= i - j; MC_EQ(int(p - s.begin()), j, "distance"); MC_EQ(p == s.end(), j == n, "== end"); MC_EQ(p < s.end(), j < n, "< end");
        if (j < n) { MC_EQ(Seq(*p), a[j], "jump " << i << "->" << j); MC_EQ(Seq(*q), a[j], "const jump " << i << "->" << j); MC_EQ(Seq(s.begin()[j]), a[j], "it[j]"); }
        auto r = s.rbegin() + i; if (i < n) MC_EQ(Seq(*r), a[n - 1 - i], "*(rbegin+i)"); r += j - i; if (j < n) MC_EQ(Seq(*r), a[n - 1 - j], "reverse jump " << i << "->" << j);
    }
    auto idx = [&](const Seq& x) { return int(std::find(a.begin(), a.end(), x) - a.begin()); };
    if constexpr (cap<S>::v & IT) {
        for (int k = 0; k <= n; ++k) { auto it = s.binary_search([&](auto i) { MC_EQ(idx(*i), i.index(), "index seen by predicate"); return i.index() >= k; }); MC_EQ(it.index(), k, "binary_search"); if (k < n) { MC_EQ(Seq(*it), a[k], "*binary_search"); if (k + 1 < n) MC_EQ(Seq(*++it), a[k + 1], "next of binary_search"); }
            auto lb = cs.lower_bound(k, [&](const Seq& x, int t) { return idx(x) < t; }); MC_EQ(lb.index(), k, "lower_bound"); if (k) { auto ub = cs.upper_bound(k - 1, [&](int t, const Seq& x) { return t < idx(x); }); MC_EQ(ub.index(), k, "upper_bound"); } }
    } else {
        for (int k = 0; k <= n; ++k) { auto r = cs.binary_search([&](const Seq& x, int i) { MC_EQ(idx(x), i, "index seen by predicate"); return i >= k; }); MC_EQ(r.first, k, "binary_search"); MC_EQ(r.second, k < n ? std::optional<Seq>(a[k]) : std::nullopt, "binary_search value");
            auto lb = cs.lower_bound(k, [&](const Seq& x, int t) { return idx(x) < t; }); MC_EQ(lb.first, k, "lower_bound"); if (k) { auto ub = cs.upper_bound(k - 1, [&](int t, const Seq& x) { return t < idx(x); }); MC_EQ(ub.first, k, "upper_bound"); } }
    }
    if constexpr (cap<S>::v & PROD) {
        for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) {
            MC_EQ(s.prod(l, r), foldS(a, l, r), "prod(" << l << "," << r << ")");
            string w = foldS(a, l, r).s; auto f = [&](const Seq& x) { return isprefix(x.s, w); }; auto g = [&](const Seq& x) { return issuffix(x.s, w); };
            if constexpr (cap<S>::v & IT) { auto it = s.max_right(l, f); MC_EQ(it.index(), r, "max_right"); if (r < n) { MC_EQ(Seq(*it), a[r], "*max_right"); if (r + 1 < n) MC_EQ(Seq(*(it + 1)), a[r + 1], "next of max_right"); if (r) MC_EQ(Seq(*(it - 1)), a[r - 1], "previous of max_right"); }
                it = s.min_left(r, g); MC_EQ(it.index(), l, "min_left"); if (l < n) { MC_EQ(Seq(*it), a[l], "*min_left"); if (l + 1 < n) MC_EQ(Seq(*++it), a[l + 1], "next of min_left"); } }
            else { MC_EQ(s.max_right(l, f), r, "max_right"); MC_EQ(s.min_left(r, g), l, "min_left"); }
        }
    }
    light(s, a);
}
template <class S> static bool oper(mc::Chooser& c, S& s, V& a, int d) {
    constexpr int C = cap<S>::v; int n = a.size(); Seq v = cell(letter(26 + d)); string f(1, digit(d + 1));
    int K = c.choose(10);
    switch (K) {
    case 0: { int k = c.range(0, n); MC_LOG("insert " << k); a.insert(a.begin() + k, v); if (k == 0 && n) s.push_front(v); else if (k == n) s.push_back(v); else s.insert(k, v); return true; }
    case 1: { if (!n) return false; int k = c.choose(n); MC_LOG("erase " << k); Seq g = k == 0 ? s.pop_front() : k == n - 1 ? s.pop_back() : s.erase(k); MC_EQ(g, a[k], "erased value"); a.erase(a.begin() + k); return true; }
    case 2: { if (!n) return false; int k = c.choose(n); MC_LOG("set " << k); a[k] = v; if constexpr (C & PROD) { if (d & 1) s.set(k, v); else s.apply(k, [&](const Seq& x) { (void)x; return v; }); } else if (d & 1) s[k] = v; else *(s.begin() + k) = v; return true; }
    case 3: { int k = c.range(0, n); bool sw = c.flag(); MC_LOG("split " << k << (sw ? " swapped" : "")); S t = s.split(k); V b(a.begin() + k, a.end()), l(a.begin(), a.begin() + k); light(t, b); light(s, l); if (sw) { t.merge(s); s = t; std::rotate(a.begin(), a.begin() + k, a.end()); } else s.merge(t); return true; }
    case 4: { int l = c.range(0, n), m = c.range(l, n), r = c.range(m, n); MC_LOG("rotate " << l << " " << m << " " << r); if (l == 0 && r == n) s.rotate(m); else s.rotate(l, m, r); std::rotate(a.begin() + l, a.begin() + m, a.begin() + r); return true; }
    case 5: if constexpr (C & REV) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("reverse " << l << " " << r); if (l == 0 && r == n) s.reverse_all(); else s.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); return true; } else {
        int k = c.range(0, n), how = c.choose(6); MC_LOG("iterator op " << how << " at " << k); if (n == 0 && how % 3 != 0) return false;
        if (how == 0) { s.insert(s.begin() + k, v); a.insert(a.begin() + k, v); }
        if (how == 1) { if (k == n) return false; auto it = s.cbegin(); it += k; MC_EQ(s.erase(it), a[k], "erase(it)"); a.erase(a.begin() + k); }
        if (how == 2) { S t = s.split(s.begin() + k); V b(a.begin() + k, a.end()), l(a.begin(), a.begin() + k); light(t, b); light(s, l); s.merge(t); }
        if (how == 3) { s.insert(s.rbegin() + k, v); a.insert(a.begin() + (n - k), v); }
        if (how == 4) { if (k == n) return false; MC_EQ(s.erase(s.rbegin() + k), a[n - 1 - k], "erase(rit)"); a.erase(a.begin() + (n - 1 - k)); }
        if (how == 5) { S t = s.split(s.crbegin() + k); V b(a.begin() + (n - k), a.end()), l(a.begin(), a.begin() + (n - k)); light(t, b); light(s, l); s.merge(t); }
        return true; }
    case 6: if constexpr (C & APPLY) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("apply " << l << " " << r); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); if (l == 0 && r == n) s.apply_all(f); else s.apply(l, r, f); return true; } else return false;
    case 7: if constexpr (C & PROD) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("prod " << l << " " << r); MC_EQ(s.prod(l, r), foldS(a, l, r), "prod(" << l << "," << r << ")"); return true; } else return false;
    case 8: if constexpr (C & PROD) { int l = c.range(0, n), r = c.range(l, n); MC_LOG("max_right/min_left " << l << " " << r); string w = foldS(a, l, r).s; auto i = s.max_right(l, [&](const Seq& x) { return isprefix(x.s, w); }); auto j = s.min_left(r, [&](const Seq& x) { return issuffix(x.s, w); });
            if constexpr (C & IT) { MC_EQ(i.index(), r, "max_right"); MC_EQ(j.index(), l, "min_left"); } else { MC_EQ(i, r, "max_right"); MC_EQ(j, l, "min_left"); } return true; } else return false;
    case 9: if constexpr (C & REV) {   // position-monotone predicates: the sorted-order interface on any sequence
            int k = c.range(0, n), how = c.choose(3); auto idx = [&](const Seq& x) { return int(std::find(a.begin(), a.end(), x) - a.begin()); }; auto P = [&](const Seq& x) { return idx(x) >= k; }; MC_LOG("predicate op " << how << " at " << k);
            if (how == 0) { MC_EQ(s.insert_binary_search(v, P), k, "insert_binary_search position"); a.insert(a.begin() + k, v); }
            if (how == 1) { bool keep = c.flag(); auto g = s.erase_binary_search(P, [&](const Seq& x) { return keep ? idx(x) != k : true; }); bool er = k < n && !keep; MC_EQ((bool)g, er, "erase_binary_search erased"); if (er) { MC_EQ(g->first, k, "erased position"); MC_EQ(g->second, a[k], "erased value"); a.erase(a.begin() + k); } }
            if (how == 2) { S t = s.split_binary_search(P); V b(a.begin() + k, a.end()), l(a.begin(), a.begin() + k); light(t, b); light(s, l); t.merge(s); s = t; std::rotate(a.begin(), a.begin() + k, a.end()); }
            return true; } else return false;
    }
    abort();
}
static V init(int n) { V a(n); for (int i = 0; i < n; ++i) a[i] = cell(letter(i)); return a; }
template <class S> static void hist(mc::Chooser& c, int n, int D, int prio) {
    prios(prio, &c); V a = init(n); S s(a); MC_LOG("n=" << n << " priorities#" << prio); light(s, a);
    for (int d = 0; d < D; ++d) { if (!oper(c, s, a, d)) { if (mc::keep_going()) continue; s.free(); return; } light(s, a); }
    deep(s, a, a.size() <= 4); mc::outcome(std::hash<string>()(foldS(a, 0, a.size()).s)); s.free(); MC_EQ(s.size(), 0, "size after free"); mc::rng_hook() = nullptr;
}
#define HIST(nm, S) MC_GROUP(hist_##nm) { mc::bound("n<=4(5), every 2-operation history, 4 priority regimes (one for n=4 in quick); n=1(2) depth 3; n<=1(3) depth 2 with every priority assignment from 3 values"); mc::explore([&](mc::Chooser& c) { int w = c.choose(3); \
    if (w == 0) { int n = c.range(0, mc::T(4, 5)); hist<S>(c, n, 2, n < 4 || mc::thorough() ? c.choose(4) : 3); } else if (w == 1) hist<S>(c, mc::T(1, 2), 3, 3); else hist<S>(c, c.range(0, mc::T(1, 3)), 2, 4); }); }
HIST(array, A0) HIST(prod, A1) HIST(rarray, R0) HIST(rprod, R1) HIST(rdual, R2) HIST(rlazy, R3)
// constructor / split / merge / iterator ladder
template <class S> static void ladder(int M) {
    mc::bound("every size to " + std::to_string(M) + ", split at every point, 4 priority regimes; iterator jumps across every distance");
    for (int n = 0; n <= M; ++n) for (int pr = 0; pr < 4; ++pr) {
        MC_CASE(n, pr); prios(pr); V a = init(n); S s(a); light(s, a); if (pr == 3) deep(s, a, n <= 26 || n == M);
        for (int k = 0; k <= n; ++k) { S t = s.split(k); V b(a.begin() + k, a.end()), l(a.begin(), a.begin() + k); light(t, b); light(s, l); t.merge(s); s = t; std::rotate(a.begin(), a.begin() + k, a.end()); light(s, a); }
        if constexpr (cap<S>::v & REV) for (int k = 0; k <= n; ++k) { s.reverse(0, k); std::reverse(a.begin(), a.begin() + k); if constexpr (cap<S>::v & APPLY) { string f(1, digit(k)); s.apply(k / 2, k, f); for (int i = k / 2; i < k; ++i) a[i] = smap(f, a[i]); } light(s, a); }
        V e = init(n); s.clear(); light(s, V()); for (int i = 0; i < n; ++i) { s.insert(i / 2, e[i]); } V g; for (int i = 0; i < n; ++i) g.insert(g.begin() + i / 2, e[i]); if (pr != 3) light(s, g); else deep(s, g, n == M);
        while (s.size()) { int k = s.size() * 2 / 3; MC_EQ(s.erase(k), g[k], "erase"); g.erase(g.begin() + k); light(s, g); } s.free();
        S u(n, cell('z')); V z(n, cell('z')); MC_EQ(u.dump(), z, "fill constructor"); u.free();
    }
    mc::rng_hook() = nullptr;
}
#define LAD(nm, S) MC_GROUP(ladder_##nm) { ladder<S>(mc::T(34, 52)); }
LAD(array, A0) LAD(prod, A1) LAD(rarray, R0) LAD(rprod, R1) LAD(rdual, R2) LAD(rlazy, R3)
// sorted multisets: ties are distinguishable because the comparator looks at the first character only
struct Less { bool operator()(const Seq& x, const Seq& y) const { return x.s[0] < y.s[0]; } };
template <class S> static void sorted(mc::Chooser& c, int D) {
    prios(c.choose(4)); S s; V a; Less L; MC_LOG("sorted"); int pre = c.choose(3); for (int i = 0; i < pre; ++i) { Seq v = cell(string(1, 'b') + "p" + char('0' + i)); s.push_back(v); a.push_back(v); }
    for (int d = 0; d < D; ++d) {
        int k = c.choose(7); Seq v = cell(string(1, char('a' + c.choose(3))) + letter(26 + d)); int lo = std::lower_bound(a.begin(), a.end(), v, L) - a.begin(), up = std::upper_bound(a.begin(), a.end(), v, L) - a.begin(), n = a.size(); MC_LOG("op " << k << " " << v);
        MC_EQ(s.lower_bound(v, L).first, lo, "lower_bound"); MC_EQ(s.upper_bound(v, L).first, up, "upper_bound");
        auto er = [&](const std::optional<std::pair<int, Seq>>& g, int p, bool yes) { MC_EQ((bool)g, yes, "erased something"); if (yes) { MC_EQ(g->first, p, "erased position"); MC_EQ(g->second, a[p], "erased value"); a.erase(a.begin() + p); } };
        if (k == 0) { MC_EQ(s.insert_lower_bound(v, L), lo, "insert_lower_bound"); a.insert(a.begin() + lo, v); }
        if (k == 1) { MC_EQ(s.insert_upper_bound(v, L), up, "insert_upper_bound"); a.insert(a.begin() + up, v); }
        if (k == 2) er(s.erase_lower_bound(v, L), lo, lo < n);
        if (k == 3) er(s.erase_upper_bound(v, L), up, up < n);
        if (k == 4) er(s.erase_if_exists(v, L), lo, lo < up);
        if (k == 5) { S t = s.split_lower_bound(v, L); light(t, V(a.begin() + lo, a.end())); light(s, V(a.begin(), a.begin() + lo)); s.merge(t); }
        if (k == 6) { S t = s.split_upper_bound(v, L); light(t, V(a.begin() + up, a.end())); light(s, V(a.begin(), a.begin() + up)); s.merge(t); }
        light(s, a);
    }
    if constexpr (cap<S>::v & PROD) for (size_t l = 0; l <= a.size(); ++l) for (size_t r = l; r <= a.size(); ++r) MC_EQ(s.prod(l, r), foldS(a, l, r), "prod");
    mc::outcome(std::hash<string>()(foldS(a, 0, a.size()).s)); s.free(); mc::rng_hook() = nullptr;
}
#define SORTED(nm, S) MC_GROUP(sorted_##nm) { mc::bound("sorted histories to depth 3(4), 3 key classes with ties, 4 priority regimes"); mc::explore([&](mc::Chooser& c) { sorted<S>(c, mc::T(3, 4)); }); }
SORTED(rarray, R0) SORTED(rprod, R1) SORTED(rdual, R2) SORTED(rlazy, R3)
// two live trees share the node pool: operations on one never show in the other, freed nodes are recycled
template <class S> static void shared(mc::Chooser& c) {
    prios(3); V a = init(3), b; for (int i = 0; i < 3; ++i) b.push_back(cell(letter(10 + i))); S s(a), t(b);
    for (int d = 0; d < 3; ++d) { bool w = c.flag(); S& x = w ? t : s; V& y = w ? b : a; switch (c.choose(3)) { case 0: x.push_back(cell(letter(30 + d))); y.push_back(cell(letter(30 + d))); break; case 1: if (y.empty()) { s.free(); t.free(); return; } x.pop_front(); y.erase(y.begin()); break; case 2: x.free(); y.clear(); break; } light(s, a); light(t, b); }
    deep(s, a); deep(t, b); s.free(); t.free(); mc::rng_hook() = nullptr;
}
MC_GROUP(shared_pool) { mc::bound("two live trees, depth 3"); mc::explore([&](mc::Chooser& c) { switch (c.choose(6)) { case 0: shared<A0>(c); break; case 1: shared<A1>(c); break; case 2: shared<R0>(c); break; case 3: shared<R1>(c); break; case 4: shared<R2>(c); break; case 5: shared<R3>(c); break; } }); }
template <class It, class AT> static void itpair(It first, int n, AT at) {
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { It p = first + i, q = j + first; MC_EQ(p == q, i == j, "=="); MC_EQ(p != q, i != j, "!="); MC_EQ(p < q, i < j, "<"); MC_EQ(p > q, i > j, ">"); MC_EQ(p <= q, i <= j, "<="); MC_EQ(p >= q, i >= j, ">="); MC_EQ(int(p - q), i - j, "difference"); if (j <= i) { It r = p - j; MC_EQ(int(r - first), i - j, "it - k"); if (i - j < n) MC_EQ(Seq(*r), at(i - j), "*(it - k)"); It s = p; It& t = (s -= j); MC_CHECK(&t == &s && s == r, "-="); } if (i + j <= n) { It s = p; It& t = (s += j); MC_CHECK(&t == &s, "+="); if (i + j < n) MC_EQ(Seq(*s), at(i + j), "+= value"); } }
    for (int i = 0; i < n; ++i) { It p = first + i; It q = p++; MC_EQ(int(q - first), i, "post ++ result"); MC_EQ(int(p - first), i + 1, "post ++"); MC_EQ(Seq(*q), at(i), "post ++ value"); if (i + 1 < n) MC_EQ(Seq(*p), at(i + 1), "after post ++"); It r = p--; MC_EQ(int(r - first), i + 1, "post -- result"); MC_EQ(int(p - first), i, "post --"); MC_EQ(Seq(*p), at(i), "post -- value"); MC_EQ(Seq(first[i]), at(i), "[]"); }
}
template <class S> static void iface(int n, int pr) {
    MC_CASE(n, pr); prios(pr); V a = init(n); S s(a); if constexpr (cap<S>::v & REV) { s.reverse(0, n); std::reverse(a.begin(), a.end()); if (n > 2) { s.reverse(1, n - 1); std::reverse(a.begin() + 1, a.end() - 1); } } const S& cs = s; auto fw = [&](int i) { return a[i]; }; auto bw = [&](int i) { return a[n - 1 - i]; };
    itpair(s.begin(), n, fw); itpair(cs.begin(), n, fw); itpair(cs.cbegin(), n, fw); itpair(s.rbegin(), n, bw); itpair(cs.rbegin(), n, bw); itpair(cs.crbegin(), n, bw);
    MC_CHECK(cs.end() - cs.begin() == n && cs.cend() - cs.cbegin() == n && cs.rend() - cs.rbegin() == n && cs.crend() - cs.crbegin() == n && s.end() - s.begin() == n && s.rend() - s.rbegin() == n, "range lengths");
    if constexpr (cap<S>::v & IT) { V b; for (int i = 0; i < n; ++i) b.push_back(cell(letter(i / 2 * 2))); S t(b); const S& ct = t; auto L = [](const Seq& x, const Seq& y) { return x.s < y.s; };
        for (int i = -1; i <= n; ++i) { Seq v = i < 0 ? cell(string(1, '!')) : cell(letter(i)); int lo = std::lower_bound(b.begin(), b.end(), v, L) - b.begin(), up = std::upper_bound(b.begin(), b.end(), v, L) - b.begin(); MC_EQ(int(t.lower_bound(v, L) - t.begin()), lo, "lower_bound"); MC_EQ(int(t.upper_bound(v, L) - t.begin()), up, "upper_bound"); MC_EQ(int(ct.lower_bound(v, L) - ct.begin()), lo, "const lower_bound"); MC_EQ(int(ct.upper_bound(v, L) - ct.begin()), up, "const upper_bound"); auto it = ct.binary_search([&](auto it) { return !L(*it, v); }); MC_EQ(int(it - ct.begin()), lo, "const binary_search"); if (lo < n) MC_EQ(Seq(*it), b[lo], "const binary_search value"); }
        t.free(); }
    { auto root = cs.root_node(); s.set_root_node(root); light(s, a); auto& r = s.root_node(); MC_CHECK(r == root, "root_node"); }
    if constexpr (cap<S>::v == REV) { Less L; using N = typename S::internal_node; for (int how = 0; how < 5; ++how) for (int i = 0; i <= n; ++i) { V b = init(n); S t(b); Seq v = cell(letter(i)); int lo = std::lower_bound(b.begin(), b.end(), v, L) - b.begin(), up = std::upper_bound(b.begin(), b.end(), v, L) - b.begin(); if (how >= 3) { if (!n || i) { t.free(); continue; } auto [r, x] = how == 3 ? N::pop_front(t.root_node()) : N::pop_back(t.root_node()); t.set_root_node(r); int k = how == 3 ? 0 : n - 1; MC_EQ(x, b[k], "popped"); b.erase(b.begin() + k); light(t, b); t.free(); continue; }
        auto [r, e] = how == 0 ? N::erase_lower_bound(t.root_node(), v, L) : how == 1 ? N::erase_upper_bound(t.root_node(), v, L) : N::erase_if_exists(t.root_node(), v, L); t.set_root_node(r); int k = how == 1 ? up : lo; bool did = how == 2 ? lo < up : k < n; MC_EQ(bool(e), did, "node-level erase " << how); if (did) { MC_EQ(int(e->first), k, "position"); MC_EQ(e->second, b[k], "value"); b.erase(b.begin() + k); } light(t, b); t.free(); } }
    s.free(); mc::rng_hook() = nullptr; mc::step(n * n);
}
#define IFACE(nm, S) MC_GROUP(iterators_##nm) { mc::bound("every size to 6(9), 4 priority regimes, all six iterator ranges: every pair of positions under every iterator operation; const and mutable searches; node-level interface"); for (int n = 0; n <= mc::T(6, 9); ++n) for (int pr = 0; pr < 4; ++pr) iface<S>(n, pr); }
IFACE(array, A0) IFACE(prod, A1) IFACE(rarray, R0) IFACE(rprod, R1) IFACE(rdual, R2) IFACE(rlazy, R3)
template <class S> static void probe_first(mc::Chooser& c, S& s, const V& a) {
    int n = a.size(), k = c.choose(14); const S& cs = s; MC_LOG("first query kind " << k); auto idx = [&](const Seq& x) { return int(std::find(a.begin(), a.end(), x) - a.begin()); };
    switch (k) {
    case 0: if (n) { int i = c.choose(n); MC_EQ(Seq(cs[i]), a[i], "first query [] " << i); } break;
    case 1: if (n) MC_EQ(Seq(cs.front()), a[0], "first query front"); break;
    case 2: if (n) MC_EQ(Seq(cs.back()), a[n - 1], "first query back"); break;
    case 3: { V d; for (auto it = s.begin(); it != s.end(); ++it) d.push_back(*it); MC_EQ(d, a, "first query forward iteration"); break; }
    case 4: { V d; for (auto it = s.rbegin(); it != s.rend(); ++it) d.push_back(*it); std::reverse(d.begin(), d.end()); MC_EQ(d, a, "first query reverse iteration"); break; }
    case 5: { V d; for (auto it = cs.end(); it != cs.begin();) { --it; d.push_back(*it); } std::reverse(d.begin(), d.end()); MC_EQ(d, a, "first query iteration from end"); break; }
    case 6: if (n) { int i = c.choose(n), j = c.choose(n); auto it = s.begin() + i; it += j - i; MC_EQ(Seq(*it), a[j], "first query jump " << i << "->" << j); } break;
    case 7: if (n) { int i = c.choose(n), j = c.choose(n); auto it = cs.crbegin() + i; it += j - i; MC_EQ(Seq(*it), a[n - 1 - j], "first query reverse jump"); } break;
    case 8: { int t = c.range(0, n); if constexpr (cap<S>::v & IT) { auto it = s.binary_search([&](auto i) { return i.index() >= t; }); MC_EQ(it.index(), t, "first query binary_search"); if (t < n) MC_EQ(Seq(*it), a[t], "*"); } else { auto r = cs.binary_search([&](const Seq& x, int i) { MC_EQ(idx(x), i, "index seen by predicate"); return i >= t; }); MC_EQ(r.first, t, "first query binary_search"); MC_EQ(r.second, t < n ? std::optional<Seq>(a[t]) : std::nullopt, "value"); } break; }
    case 9: { int t = c.range(0, n); auto lb = cs.lower_bound(t, [&](const Seq& x, int u) { return idx(x) < u; }); if constexpr (cap<S>::v & IT) MC_EQ(lb.index(), t, "first query lower_bound"); else MC_EQ(lb.first, t, "first query lower_bound"); break; }
    case 10: MC_EQ(s.dump(), a, "first query dump"); break;
    case 11: if constexpr (cap<S>::v & PROD) { int l = c.range(0, n), r = c.range(l, n); MC_EQ(s.prod(l, r), foldS(a, l, r), "first query prod"); } break;
    case 12: if constexpr (cap<S>::v & PROD) { int l = c.range(0, n), r = c.range(l, n); string w = foldS(a, l, r).s; auto i = s.max_right(l, [&](const Seq& x) { return isprefix(x.s, w); }); if constexpr (cap<S>::v & IT) MC_EQ(i.index(), r, "first query max_right"); else MC_EQ(i, r, "first query max_right"); } break;
    case 13: if constexpr (cap<S>::v & PROD) { int l = c.range(0, n), r = c.range(l, n); string w = foldS(a, l, r).s; auto i = s.min_left(r, [&](const Seq& x) { return issuffix(x.s, w); }); if constexpr (cap<S>::v & IT) MC_EQ(i.index(), l, "first query min_left"); else MC_EQ(i, l, "first query min_left"); } break;
    }
}
template <class S> static void quiet_hist(mc::Chooser& c, int n, int D, int prio) {
    quiet_ = true; prios(prio, &c); V a = init(n); S s(a); MC_LOG("n=" << n << " priorities#" << prio << " (unobserved history)");
    for (int d = 0; d < D; ++d) if (!oper(c, s, a, d)) { s.free(); quiet_ = false; return; }
    if (D <= 2) probe_first(c, s, a); quiet_ = false; light(s, a); if (D > 2) deep(s, a, false); s.free(); mc::rng_hook() = nullptr; mc::step();
}
#define QH(nm, S) MC_GROUP(first_query_##nm) { mc::bound("every 2-operation history (n<=3(4), two priority regimes (4)) with nothing observed in between, then each single query as the first one; n<=2(3) depth 3 with the full comparison at the end only"); mc::explore([&](mc::Chooser& c) { if (c.flag()) { int n = c.range(1, mc::T(3, 4)); quiet_hist<S>(c, n, 2, mc::thorough() ? c.choose(4) : n < 3 ? c.choose(2) * 3 : 3); } else quiet_hist<S>(c, c.range(1, mc::T(2, 3)), 3, 3); }); }
QH(array, A0) QH(prod, A1) QH(rarray, R0) QH(rprod, R1) QH(rdual, R2) QH(rlazy, R3)
template <class S> static void med(int n, int pr) {
    MC_CASE(n, pr); prios(pr); V a; for (int i = 0; i < n; ++i) a.push_back(cell(letter(i % 40))); S s(a); int h = 1;
    for (int i = 0; i < 60; ++i) { int m = a.size(), l = (i * 37) % (m + 1), r = (i * 91 + 13) % (m + 1); if (l > r) std::swap(l, r);
        switch (i % 5) { case 0: s.insert(l, cell(letter(i % 40))); a.insert(a.begin() + l, cell(letter(i % 40))); break; case 1: if (l < m) { MC_EQ(s.erase(l), a[l], "erase"); a.erase(a.begin() + l); } break;
            case 2: { S t = s.split(l); t.merge(s); s = t; std::rotate(a.begin(), a.begin() + l, a.end()); break; }
            case 3: if constexpr (cap<S>::v & REV) { s.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); } break;
            case 4: if constexpr (cap<S>::v & APPLY) { string f(1, digit(i % 10)); s.apply(l, r, f); for (int j = l; j < r; ++j) a[j] = smap(f, a[j]); } break; }
        if constexpr (cap<S>::v & PROD) if (i % 7 == 0) { int L = l / 2, R = (int)a.size() - r / 3; if (L > R) std::swap(L, R); MC_EQ(s.prod(L, R), foldS(a, L, R), "prod(" << L << "," << R << ")"); } if (i % 11 == 0) light(s, a); mc::step(); (void)h; }
    light(s, a); s.free(); mc::rng_hook() = nullptr;
}
MC_GROUP(medium_sizes) { mc::bound("130 and 300 elements, 60 interleaved inserts, erases, rotations, reversals, applications, range products; increasing, decreasing, equal (130 only) and mixed priorities"); for (int n : { 130, 300 }) for (int pr = 0; pr < 4; ++pr) { med<A0>(n, pr); med<A1>(n, pr); med<R0>(n, pr); med<R1>(n, pr); med<R2>(n, pr); med<R3>(n, pr); } }
MC_GROUP(periodic_A0) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a treap of 6 elements, scrambled priorities");  auto f = [&](mc::Chooser& c) { hist<A0>(c, 6, 30, 3); }; mc::periodic(f); }
MC_GROUP(periodic_A1) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a treap of 6 elements, scrambled priorities");  auto f = [&](mc::Chooser& c) { hist<A1>(c, 6, 30, 3); }; mc::periodic(f, true); }
MC_GROUP(periodic_R0) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a treap of 6 elements, scrambled priorities");  auto f = [&](mc::Chooser& c) { hist<R0>(c, 6, 30, 3); }; mc::periodic(f); }
MC_GROUP(periodic_R1) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a treap of 6 elements, scrambled priorities");  auto f = [&](mc::Chooser& c) { hist<R1>(c, 6, 30, 3); }; mc::periodic(f, true); }
MC_GROUP(periodic_R2) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 30 operations on a treap of 6 elements, scrambled priorities");  auto f = [&](mc::Chooser& c) { hist<R2>(c, 6, 30, 3); }; mc::periodic(f); }
MC_GROUP(periodic_R3) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 30 operations on a treap of 6 elements, scrambled priorities");  auto f = [&](mc::Chooser& c) { hist<R3>(c, 6, 30, 3); }; mc::periodic(f, true); }
MC_MAIN
