#include "free.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
using namespace fr;
using Seg = suisen::LazySegmentTree<Seq, scat, seps, string, smap, comp, fid>;
static bool short2(Seq s) { return cells(s) <= 2; }
static void queries(Seg& s, const std::vector<Seq>& a, bool search) {
    int n = a.size();
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) MC_EQ(s(l, r), foldS(a, l, r), "prod(" << l << "," << r << ") n=" << n);
    for (int i = 0; i < n; ++i) MC_EQ(s.get(i), a[i], "get " << i << " n=" << n);
    MC_EQ(s.all_prod(), foldS(a, 0, n), "all_prod n=" << n);
    for (int l = 0; l <= n; ++l) { MC_EQ(s.prefix_prod(l), foldS(a, 0, l), "prefix_prod"); MC_EQ(s.suffix_prod(l), foldS(a, l, n), "suffix_prod"); }
    if (search) for (int l = 0; l <= n; ++l) for (size_t k = 0; k <= foldS(a, 0, n).s.size() + 1; k += 1 + (n > 5)) {
        auto f = [&](const Seq& x) { return x.s.size() <= k; };
        int r = l; { Seq t; while (r < n && f(scat(t, a[r]))) t = scat(t, a[r++]); }
        string P = foldS(a, l, n).s, Q = foldS(a, 0, l).s;   // content-sensitive: accepts only true products
        auto fp = [&](const Seq& x) { return x.s.size() <= k && isprefix(x.s, P); }; auto fs = [&](const Seq& x) { return x.s.size() <= k && issuffix(x.s, Q); };
        MC_EQ(s.max_right(l, fp), r, "max_right l=" << l << " k=" << k << " n=" << n);
        int q = l; { Seq t; while (q > 0 && f(scat(a[q - 1], t))) t = scat(a[--q], t); }
        MC_EQ(s.min_left(l, fs), q, "min_left r=" << l << " k=" << k << " n=" << n);
    }
}
// every history of range/point updates, with a chosen observation between operations (observations push laziness)
static void hist(mc::Chooser& c, int n, int D, bool search) {
    std::vector<Seq> a(n); for (int i = 0; i < n; ++i) a[i] = cell(letter(i));
    Seg s(a); MC_LOG("n=" << n);
    for (int d = 0; d < D; ++d) {
        int kind = c.choose(d + 1 == D ? 3 : 4);
        string f(1, digit(d + 1));
        if (kind == 0) { int l = c.range(0, n), r = c.range(l, n); s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); MC_LOG("apply(" << l << "," << r << "," << f << ")"); }
        else if (kind == 1) { int i = c.choose(n); s.apply(i, f); a[i] = smap(f, a[i]); MC_LOG("apply(" << i << ")"); }
        else if (kind == 2) { int i = c.choose(n); Seq v = cell(letter(10 + d)); if (d & 1) s.set(i, v); else s[i] = v; a[i] = v; MC_LOG("set(" << i << ")"); }
        else { int l = c.range(0, n), r = c.range(l, n); MC_EQ(s.prod(l, r), foldS(a, l, r), "prod(" << l << "," << r << ")"); MC_LOG("prod(" << l << "," << r << ")"); }
    }
    // observe in both orders: direct search on the lazy state, then everything
    if (search) { MC_EQ(s.max_right<short2>(0), std::min(n, 2), "max_right<f>"); MC_EQ(s.min_left<short2>(n), std::max(0, n - 2), "min_left<f>"); }
    queries(s, a, search);
    mc::outcome(std::hash<string>()(foldS(a, 0, n).s));
}
MC_GROUP(histories) { mc::bound("n<=4(5), depth 3 of apply-range/apply-point/set/prod, all queries at the end"); mc::explore([&](mc::Chooser& c) { hist(c, c.range(1, mc::T(4, 5)), 3, true); }); }
MC_GROUP(histories_big) { mc::bound("n in {7,8,9}(5..9), depth 2"); mc::explore([&](mc::Chooser& c) { hist(c, c.range(mc::T(7, 5), 9), 2, true); }); }
MC_GROUP(histories_deep) { mc::bound("n<=3, depth 4(5)"); mc::explore([&](mc::Chooser& c) { hist(c, c.range(1, 3), mc::T(4, 5), false); }); }
MC_GROUP(sizes) {
    mc::bound("n in 0..33,63..65: one range apply for every (l,r) after a full apply, then all queries touching its borders");
    for (int n = 0; n <= 65; ++n) { if (n > 33 && n < 63) continue;
        std::vector<Seq> a0(n); for (int i = 0; i < n; ++i) a0[i] = cell(letter(i));
        { Seg s(n); for (int i = 0; i < n; ++i) a0[i] = Seq(); queries(s, a0, false); for (int i = 0; i < n; ++i) a0[i] = cell(letter(i)); }
        for (int l = 0; l <= n; ++l) for (int r = l; r <= n; r += (n > 33 ? 3 : 1)) {
            MC_CASE(n, l, r); auto a = a0; Seg s(a); s.apply(0, n, "1"); s.apply(l, r, "2");
            for (int i = 0; i < n; ++i) a[i] = smap(i >= l && i < r ? "12" : "1", a[i]);
            for (int x : { 0, l, r, (l + r) / 2, n }) for (int y : { l, r, (l + r + 1) / 2, n }) if (x <= y) MC_EQ(s(x, y), foldS(a, x, y), "n=" << n << " apply(" << l << "," << r << ") prod(" << x << "," << y << ")");
            if (n <= 17) queries(s, a, false);
        } }
}
// dual trees
template <class D> static void dual(mc::Chooser& c, int n, int depth, bool commutative) {
    std::vector<Seq> a(n); for (int i = 0; i < n; ++i) a[i] = cell(letter(i)); int how = c.choose(2);
    if (how == 1) for (auto& x : a) x = cell('z');
    D s = how == 0 ? D(a) : D(n, cell('z')); MC_LOG("n=" << n << " how=" << how);
    auto norm = [&](Seq x) { if (commutative) std::sort(x.s.begin(), x.s.end()); return x; };
    for (int d = 0; d < depth; ++d) {
        int l = c.range(0, n), r = c.range(l, n); string f(1, digit(d + 1));
        s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); MC_LOG("apply(" << l << "," << r << "," << f << ")");
        for (int i = 0; i < n; ++i) { MC_EQ(norm(s.get(i)), norm(a[i]), "get " << i << " n=" << n); MC_EQ(norm(s[i]), norm(a[i]), "[] " << i); }
    }
    mc::outcome(std::hash<string>()(foldS(a, 0, n).s));
}
using Dual = suisen::DualSegmentTree<Seq, string, smap, comp, fid>;
using CDual = suisen::CommutativeDualSegmentTree<Seq, string, smap, comp, fid>;
MC_GROUP(dual_hist) { mc::bound("n<=5(6), depth 3 / n<=9 depth 2"); mc::explore([&](mc::Chooser& c) { if (c.flag()) dual<Dual>(c, c.range(1, mc::T(5, 6)), 3, false); else dual<Dual>(c, c.range(6, 9), 2, false); }); }
MC_GROUP(dual_deep) { mc::bound("n<=3, depth 4(5)"); mc::explore([&](mc::Chooser& c) { dual<Dual>(c, c.range(1, 3), mc::T(4, 5), false); }); }
MC_GROUP(cdual_hist) { mc::bound("n<=4, depth 3 / n<=9 depth 2; actions commute"); mc::explore([&](mc::Chooser& c) { if (c.flag()) dual<CDual>(c, c.range(1, 4), 3, true); else dual<CDual>(c, c.range(5, 9), 2, true); }); }
// every query as the very first one on the pending state: each runs on its own copy, so that no earlier query has pushed anything
static void first_queries(const Seg& s0, const std::vector<Seq>& a) {
    int n = a.size();
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { Seg s = s0; MC_EQ(s(l, r), foldS(a, l, r), "first query prod(" << l << "," << r << ") n=" << n); }
    for (int i = 0; i < n; ++i) { { Seg s = s0; MC_EQ(s.get(i), a[i], "first query get " << i); } { Seg s = s0; Seq x = s[i]; MC_EQ(x, a[i], "first query [] " << i); } }
    { Seg s = s0; MC_EQ(s.all_prod(), foldS(a, 0, n), "first query all_prod"); }
    for (int l = 0; l <= n; ++l) { { Seg s = s0; MC_EQ(s.prefix_prod(l), foldS(a, 0, l), "first query prefix_prod"); } { Seg s = s0; MC_EQ(s.suffix_prod(l), foldS(a, l, n), "first query suffix_prod"); } 
        for (int r = l; r <= n; ++r) { string w = foldS(a, l, r).s; { Seg s = s0; MC_EQ(s.max_right(l, [&](const Seq& x) { return isprefix(x.s, w); }), r, "first query max_right l=" << l << " r=" << r); } { Seg s = s0; MC_EQ(s.min_left(r, [&](const Seq& x) { return issuffix(x.s, w); }), l, "first query min_left l=" << l << " r=" << r); } }
        { Seg s = s0; MC_EQ(s.max_right<short2>(l), std::min(n, l + 2), "first query max_right<f>"); } { Seg s = s0; MC_EQ(s.min_left<short2>(l), std::max(0, l - 2), "first query min_left<f>"); } }
}
MC_GROUP(first_query) { mc::bound("every query (all ranges, positions, search targets) as the first query after every history of 2 updates, n<=5(6) and n in {7,8,9} with range applies"); mc::explore([&](mc::Chooser& c) { bool big = c.flag(); int n = big ? c.range(7, mc::T(8, 9)) : c.range(1, mc::T(5, 6)); std::vector<Seq> a(n); for (int i = 0; i < n; ++i) a[i] = cell(letter(i)); Seg s(a); MC_LOG("n=" << n);
    for (int d = 0; d < 2; ++d) { int kind = big ? 0 : c.choose(3); string f(1, digit(d + 1)); if (kind == 0) { int l = c.range(0, n - 1), r = c.range(l + 1, n); s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); MC_LOG("apply(" << l << "," << r << "," << f << ")"); } else if (kind == 1) { int i = c.choose(n); s.apply(i, f); a[i] = smap(f, a[i]); MC_LOG("apply(" << i << ")"); } else { int i = c.choose(n); Seq v = cell(letter(10 + d)); s.set(i, v); a[i] = v; MC_LOG("set(" << i << ")"); } }
    first_queries(s, a); mc::step(); }); }
template <class D> static void dual_first(mc::Chooser& c, bool commutative) { int n = c.range(1, mc::T(6, 8)); std::vector<Seq> a(n); for (int i = 0; i < n; ++i) a[i] = cell(letter(i)); D s(a); auto norm = [&](Seq x) { if (commutative) std::sort(x.s.begin(), x.s.end()); return x; }; for (int d = 0; d < 3; ++d) { int l = c.range(0, n - 1), r = c.range(l + 1, n); string f(1, digit(d + 1)); s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); MC_LOG("apply(" << l << "," << r << ")"); } for (int i = 0; i < n; ++i) { { D t = s; MC_EQ(norm(t.get(i)), norm(a[i]), "first query get " << i); } { D t = s; Seq x = t[i]; MC_EQ(norm(x), norm(a[i]), "first query [] " << i); } } mc::step(); }
MC_GROUP(dual_first_query) { mc::bound("dual trees: every point as the first read after every 3 range applies without reads, n<=6(8)"); mc::explore([&](mc::Chooser& c) { if (c.flag()) dual_first<Dual>(c, false); else dual_first<CDual>(c, true); }); }
MC_GROUP(periodic_histories) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 40 operations on 6 and 11 elements");  auto f = [&](mc::Chooser& c) { hist(c, 6, 40, false); hist(c, 11, 25, false); }; mc::periodic(f, true); }
MC_GROUP(periodic_dual) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 40 operations on 7 elements");  auto f = [&](mc::Chooser& c) { dual<Dual>(c, 7, 40, false); dual<CDual>(c, 7, 40, true); }; mc::periodic(f); }
MC_MAIN
