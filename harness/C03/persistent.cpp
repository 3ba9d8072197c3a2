#include "free.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
using namespace fr;
static bool le2s(string s) { return s.size() <= 2; }
static bool le2q(Seq s) { return cells(s) <= 2; }
// ---------------------------------------------------------------- point-update segment tree
using PS = suisen::PersistentSegmentTree<string, cat, eps>;
static void full(PS t, const std::vector<string>& a, bool search) {
    int n = a.size();
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { string w = fold(a.begin() + l, a.begin() + r); MC_EQ(t.prod(l, r), w, "prod " << l << "," << r); MC_EQ(t(l, r), w, "()"); }
    for (int i = 0; i < n; ++i) { MC_EQ(t.get(i), a[i], "get " << i); MC_EQ(t[i], a[i], "[] " << i); }
    MC_EQ(t.prod_all(), fold(a.begin(), a.end()), "prod_all"); MC_EQ(t.dump(), a, "dump"); std::vector<string> d; t.dump(std::back_inserter(d)); MC_EQ(d, a, "dump(it)");
    if (search) for (int l = 0; l <= n; ++l) for (size_t k = 0; k <= 2 * a.size() + 1; ++k) {
        string P = fold(a.begin() + l, a.end()), Q = fold(a.begin(), a.begin() + l);
        int r = l; { string w; while (r < n && w.size() + a[r].size() <= k) w += a[r++]; } MC_EQ(t.max_right(l, [&](const string& x) { return x.size() <= k && isprefix(x, P); }), r, "max_right " << l << " " << k);
        int q = l; { string w; while (q > 0 && w.size() + a[q - 1].size() <= k) w += a[--q]; } MC_EQ(t.min_left(l, [&](const string& x) { return x.size() <= k && issuffix(x, Q); }), q, "min_left " << l << " " << k);
        if (k == 2) { MC_EQ(t.max_right<le2s>(l), r, "max_right<f>"); MC_EQ(t.min_left<le2s>(l), q, "min_left<f>"); }
    }
}
MC_GROUP(segtree) {
    mc::bound("n<=5(6), depth 3, each operation from any earlier version; all versions re-read completely after every step; node pool reused across executions");
    PS::init_pool(600);
    mc::explore([&](mc::Chooser& c) {
        PS::clear_pool(); int n = c.range(1, mc::T(5, 6)); std::vector<string> a(n); for (int i = 0; i < n; ++i) a[i] = string(1, letter(i));
        bool byn = c.flag(); if (byn) a.assign(n, ""); std::vector<std::pair<PS, std::vector<string>>> vs; vs.push_back({ byn ? PS(n) : PS(a), a }); MC_LOG("n=" << n);
        for (int d = 0; d < 3; ++d) {
            int f = c.choose(vs.size()), i = c.choose(n); auto [t, b] = vs[f]; string v(1 + d % 2, digit(d + 1)); PS u;
            if ((i + d) % 2) u = t.set(i, v), b[i] = v; else { string old = b[i]; u = t.apply(i, [&](const string& x) { MC_EQ(x, old, "apply sees"); return x + v; }), b[i] += v; }
            MC_LOG("from v" << f << ((i + d) % 2 ? " set " : " apply ") << i); vs.push_back({ u, b });
            for (auto& [t2, b2] : vs) full(t2, b2, d == 2 && f == 0);
        }
        mc::outcome(std::hash<string>()(vs.back().first.prod_all()));
    });
}
MC_GROUP(segtree_sizes) {
    mc::bound("n in 1..34,63..65: every point set once from the initial version, old and new version compared; searches from every start");
    PS::init_pool(20000);
    for (int n = 1; n <= 65; ++n) { if (n > 34 && n < 63) continue; PS::clear_pool(); std::vector<string> a(n); for (int i = 0; i < n; ++i) a[i] = string(1, letter(i)); PS t(a);
        for (int i = 0; i < n; ++i) { MC_CASE(n, i); auto b = a; b[i] = "!?"; PS u = t.set(i, "!?"); MC_EQ(u.dump(), b, "new"); MC_EQ(t.dump(), a, "old"); for (int l = 0; l <= n; l += 1 + n / 8) for (int r = l; r <= n; r += 1 + n / 8) MC_EQ(u(l, r), fold(b.begin() + l, b.begin() + r), "prod"); }
        full(t, a, n <= 17); }
}
// ---------------------------------------------------------------- lazy
using PL = suisen::PersistentLazySegmentTree<Seq, scat, seps, string, smap, comp, fid>;
static void full(PL t, const std::vector<Seq>& a, bool search) {
    int n = a.size();
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { MC_EQ(t.prod(l, r), foldS(a, l, r), "prod " << l << "," << r); MC_EQ(t(l, r), foldS(a, l, r), "()"); }
    for (int i = 0; i < n; ++i) { MC_EQ(t.get(i), a[i], "get " << i); MC_EQ(t[i], a[i], "[] " << i); }
    MC_EQ(t.prod_all(), foldS(a, 0, n), "prod_all"); MC_EQ(t.dump(), a, "dump");
    if (search) for (int l = 0; l <= n; ++l) for (int k = 0; k <= n; ++k) {
        string P = foldS(a, l, n).s, Q = foldS(a, 0, l).s; int r = std::min(n, l + k), q = std::max(0, l - k);
        MC_EQ(t.max_right(l, [&](const Seq& x) { return cells(x) <= k && isprefix(x.s, P); }), r, "max_right " << l << " " << k); MC_EQ(t.min_left(l, [&](const Seq& x) { return cells(x) <= k && issuffix(x.s, Q); }), q, "min_left " << l << " " << k);
        if (k == 2) { MC_EQ(t.max_right<le2q>(l), r, "max_right<f>"); MC_EQ(t.min_left<le2q>(l), q, "min_left<f>"); }
    }
}
static void lazyh(mc::Chooser& c, int n, int D) {
    PL::clear_pool(); std::vector<Seq> a(n); for (int i = 0; i < n; ++i) a[i] = cell(letter(i)); std::vector<std::pair<PL, std::vector<Seq>>> vs; vs.push_back({ PL(a), a }); MC_LOG("n=" << n);
    for (int d = 0; d < D; ++d) {
        int f = c.choose(vs.size()), k = c.choose(4); auto [t, b] = vs[f]; string v(1, digit(d + 1)); PL u;
        if (k == 0) { int l = c.range(0, n), r = c.range(l, n); u = t.apply(l, r, v); for (int i = l; i < r; ++i) b[i] = smap(v, b[i]); MC_LOG("from v" << f << " apply " << l << " " << r); }
        if (k == 1) { u = t.apply_all(v); for (auto& x : b) x = smap(v, x); MC_LOG("from v" << f << " apply_all"); }
        if (k == 2) { int i = c.choose(n); Seq x = cell(letter(26 + d)); u = t.set(i, x); b[i] = x; MC_LOG("from v" << f << " set " << i); }
        if (k == 3) { int i = c.choose(n); Seq old = b[i]; u = t.apply(i, [&](const Seq& x) { MC_EQ(x, old, "apply(i) sees"); return smap(v, x); }); b[i] = smap(v, b[i]); MC_LOG("from v" << f << " apply(i) " << i); }
        vs.push_back({ u, b });
        if (d + 1 < D) continue;   // prefixes of this history are their own executions at smaller depth
        for (auto& [t2, b2] : vs) full(t2, b2, false); full(u, b, true);
    }
    mc::outcome(std::hash<string>()(vs.back().first.prod_all().s));
}
MC_GROUP(lazy) { mc::bound("n<=4(5), depth 1..3(3), each from any version, all versions re-read"); PL::init_pool(2000); mc::explore([&](mc::Chooser& c) { int D = c.range(1, 3); lazyh(c, c.range(1, D == 3 ? mc::T(3, 4) : mc::T(6, 7)), D); }); }
MC_GROUP(lazy_sizes) {
    mc::bound("n in 1..20,31..33: apply on every range after a full apply, old and new version compared"); PL::init_pool(200000);
    for (int n = 1; n <= 33; ++n) { if (n > 20 && n < 31) continue; PL::clear_pool(); std::vector<Seq> a(n); for (int i = 0; i < n; ++i) a[i] = cell(letter(i)); PL t = PL(a).apply_all("1"); for (auto& x : a) x = smap("1", x);
        for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { MC_CASE(n, l, r); auto b = a; PL u = t.apply(l, r, "2"); for (int i = l; i < r; ++i) b[i] = smap("2", b[i]); MC_EQ(u.dump(), b, "new"); MC_EQ(u.prod(l / 2, r), foldS(b, l / 2, r), "prod"); MC_EQ(u.prod(l, n), foldS(b, l, n), "prod"); if (r == n) MC_EQ(t.dump(), a, "old"); } }
}
MC_GROUP(lazy_default) { mc::bound("PersistentLazySegmentTree(n), n<=9"); PL::init_pool(100); for (int n = 1; n <= 9; ++n) { MC_CASE(n); PL::clear_pool(); full(PL(n), std::vector<Seq>(n), false); } }
// ---------------------------------------------------------------- dual
using PD = suisen::PersistentDualSegmentTree<string, comp, fid>;
static string sorted2(string a, string b) { a += b; std::sort(a.begin(), a.end()); return a; }
using PC = suisen::PersistentCommutativeDualSegmentTree<string, sorted2, fid>;
template <class T> static void dual(mc::Chooser& c, bool comm, int n, int D) {
    T::clear_pool(); std::vector<std::pair<T, std::vector<string>>> vs; vs.push_back({ T(n), std::vector<string>(n) }); MC_LOG("n=" << n);
    for (int d = 0; d < D; ++d) {
        int f = c.choose(vs.size()); auto [t, b] = vs[f]; string v(1, digit(D - d)); int l = c.range(0, n), r = c.range(l, n); T u = l == 0 && r == n ? t.apply_all(v) : t.apply(l, r, v);
        for (int i = l; i < r; ++i) b[i] = comm ? sorted2(b[i], v) : b[i] + v; MC_LOG("from v" << f << " apply " << l << " " << r << " " << v); vs.push_back({ u, b });
        for (size_t k = 0; k < vs.size(); ++k) for (int i = 0; i < n; ++i) { MC_EQ(vs[k].first.get(i), vs[k].second[i], "get " << i << " version " << k); MC_EQ(vs[k].first[i], vs[k].second[i], "[]"); }
    }
    u_int64_t h = 0; for (auto& s : vs.back().second) h = mc::mix(h, std::hash<string>()(s)); mc::outcome(h);
}
MC_GROUP(dual) { mc::bound("n<=5(6), depth 3 (n<=3 depth 4 in thorough), any version as base"); PD::init_pool(2000); mc::explore([&](mc::Chooser& c) { dual<PD>(c, false, c.range(1, mc::T(5, 6)), 3); }); }
MC_GROUP(cdual) { mc::bound("n<=5(6), depth 3, any version as base"); PC::init_pool(2000); mc::explore([&](mc::Chooser& c) { dual<PC>(c, true, c.range(1, mc::T(5, 6)), 3); }); }
// ---------------------------------------------------------------- array
template <int lg> static void arr(mc::Chooser& c, std::vector<int> sizes, int D, std::vector<int> (*pos)(int)) {
    using A = suisen::PersistentArray<int, lg>; int n = c.pick(sizes); A::Node::pool.clear(); bool fill = c.flag();
    std::vector<int> a(n, 77); if (!fill) for (int i = 0; i < n; ++i) a[i] = i * 3; std::vector<std::pair<A, std::vector<int>>> vs; vs.push_back({ fill ? A(n, 77) : A(a), a }); auto P = pos(n);
    for (int d = 0; d < D; ++d) {
        if (P.empty()) break; int f = c.choose(vs.size()), i = c.pick(P); auto [t, b] = vs[f]; A u = t.set(i, 1000 + d); b[i] = 1000 + d; MC_LOG("n=" << n << " from v" << f << " set " << i); vs.push_back({ u, b });
    }
    for (size_t k = 0; k < vs.size(); ++k) { auto& [t, b] = vs[k]; MC_EQ(t.size(), n, "size"); MC_EQ(t.dump(), b, "dump of version " << k); for (int i = 0; i < n; ++i) MC_EQ(t.get(i), b[i], "get " << i << " version " << k); }
    // mut_set is the documented in-place store: returns the old value, visible in this version
    if (n) { auto& [t, b] = vs.back(); int i = n - 1; MC_EQ(t.mut_set(i, -5), b[i], "mut_set returns the old value"); b[i] = -5; for (int j = 0; j < n; ++j) MC_EQ(t.get(j), b[j], "after mut_set"); A cl = t.clone(); MC_EQ(cl.dump(), b, "clone"); A s2 = cl.set(0, 4); MC_EQ(t.get(0), b[0], "set on a clone"); MC_EQ(s2.get(0), 4, "set on a clone"); }
}
static std::vector<int> all_pos(int n) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); return v; }
static std::vector<int> edge_pos(int n) { std::set<int> s; for (int x : { 0, 1, 2, 14, 15, 16, 17, 30, 31, 32, 33, 240, 241, 255, 256, 257, 271, 272, 273, 288, 289, 4368, 4369, n / 2, n - 2, n - 1 }) if (0 <= x && x < n) s.insert(x); return std::vector<int>(s.begin(), s.end()); }
MC_GROUP(array_lg1) { mc::bound("binary array, n<=9, depth 3, any version as base"); suisen::PersistentArray<int, 1>::init_pool(200); mc::explore([&](mc::Chooser& c) { arr<1>(c, { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, 3, all_pos); }); }
MC_GROUP(array_lg2) { mc::bound("4-ary array, n in 1,4,5,6,16,17,20,21,22,23, depth 2"); suisen::PersistentArray<int, 2>::init_pool(300); mc::explore([&](mc::Chooser& c) { arr<2>(c, { 1, 4, 5, 6, 16, 17, 20, 21, 22, 23 }, 2, all_pos); }); }
MC_GROUP(array_lg4) { mc::bound("16-ary array, n around 16, 256, 272, 4096 boundaries, depth 2 over boundary positions"); suisen::PersistentArray<int, 4>::init_pool(6000); mc::explore([&](mc::Chooser& c) { arr<4>(c, { 1, 2, 15, 16, 17, 18, 32, 33, 256, 257, 272, 273, 274, 300 }, 2, edge_pos); }); }
MC_GROUP(array_lg4_big) { mc::bound("n in {4368,4369,4370,4500}, every single position"); using A = suisen::PersistentArray<int, 4>; A::init_pool(60000); for (int n : { 4368, 4369, 4370, 4500 }) { A::Node::pool.clear(); std::vector<int> a(n); std::iota(a.begin(), a.end(), 5); A t(a); MC_EQ(t.dump(), a, "dump"); for (int i = 0; i < n; ++i) { MC_CASE(n, i); MC_EQ(t.get(i), a[i], "get"); A u = t.set(i, -1); MC_EQ(u.get(i), -1, "new"); MC_EQ(t.get(i), a[i], "old"); MC_EQ(u.get((i + 1) % n), a[(i + 1) % n], "neighbour"); MC_EQ(u.get(i / 2 == i ? 1 : i / 2), a[i / 2 == i ? 1 : i / 2], "other"); } } }
// ---------------------------------------------------------------- Fenwick
typedef unsigned long long u64;
using PF = suisen::PersistentFenwickTree<u64>;
MC_GROUP(fenwick) {
    mc::bound("n<=8(9), zero or given initial values, depth 2(3), any version as base, all ranges of all versions"); PF::init_pool(400);
    mc::explore([&](mc::Chooser& c) {
        PF::clear_pool(); int n = c.range(1, mc::T(8, 9)); bool z = c.flag(); std::vector<u64> a(n); if (!z) for (int i = 0; i < n; ++i) a[i] = K(i); std::vector<std::pair<PF, std::vector<u64>>> vs; vs.push_back({ z ? PF(n) : PF(a), a });
        for (int d = 0; d < 3; ++d) { int f = c.choose(vs.size()), i = c.choose(n); auto [t, b] = vs[f]; PF u = t.add(i, K(100 + d)); b[i] += K(100 + d); MC_LOG("n=" << n << " from v" << f << " add " << i); vs.push_back({ u, b }); }
        for (size_t k = 0; k < vs.size(); ++k) for (int l = 0; l <= n; ++l) { u64 w = 0; for (int r = l; r <= n; ++r) { MC_EQ(vs[k].first.sum(l, r), w, "sum " << l << "," << r << " version " << k << " n=" << n); if (r < n) w += vs[k].second[r]; } }
    });
}
MC_GROUP(fenwick_sizes) {
    mc::bound("n in 1..70, 127..130: every add position, every prefix of new and old version"); PF::init_pool(20000);
    for (int n = 1; n <= 130; ++n) { if (n > 70 && n < 127) continue; PF::clear_pool(); std::vector<u64> a(n); for (int i = 0; i < n; ++i) a[i] = K(i); PF t(a); for (int i = 0; i < n; ++i) { MC_CASE(n, i); PF u = t.add(i, K(999)); u64 w = 0; for (int r = 0; r <= n; ++r) { MC_EQ(t.sum(0, r), w, "old"); MC_EQ(u.sum(0, r), w + (i < r ? K(999) : 0), "new " << r); MC_EQ(u.sum(r, n) + u.sum(0, r), u.sum(0, n), "split"); if (r < n) w += a[r]; } } }
}
// ---------------------------------------------------------------- union find
using PU = suisen::PersistentUnionFind;
static std::vector<int> label(const std::vector<std::pair<int, int>>& es, int n) { std::vector<int> l(n); std::iota(l.begin(), l.end(), 0); for (auto [x, y] : es) { int p = l[x], q = l[y]; for (auto& v : l) if (v == p) v = q; } return l; }
static void ufcheck(PU u, const std::vector<int>& l, int k) {
    int n = l.size();
    for (int x = 0; x < n; ++x) { int r = u.root(x); MC_EQ(u[x], r, "[] vs root"); MC_EQ(l[r], l[x], "root of " << x << " lies in another component, version " << k); MC_EQ(u.root(r), r, "root of root"); MC_EQ(u.size(x), (int)std::count(l.begin(), l.end(), l[x]), "size of " << x << " version " << k); for (int y = 0; y < n; ++y) MC_EQ(u.same(x, y), l[x] == l[y], "same " << x << "," << y << " version " << k); }
    auto g = u.groups(); std::set<std::vector<int>> s; for (auto v : g) { std::sort(v.begin(), v.end()); s.insert(v); } std::map<int, std::vector<int>> m; for (int i = 0; i < n; ++i) m[l[i]].push_back(i); std::set<std::vector<int>> w; for (auto& p : m) w.insert(p.second); MC_EQ(s, w, "groups version " << k); MC_EQ(g.size(), w.size(), "number of groups");
}
static void ufh(mc::Chooser& c, int n, int D, bool linear) {
    suisen::PersistentArray<int, 4>::Node::pool.clear(); std::vector<std::pair<PU, std::vector<std::pair<int, int>>>> vs; vs.push_back({ PU(n), {} });
    for (int d = 0; d < D; ++d) { int f = linear ? vs.size() - 1 : c.choose(vs.size()), x = c.choose(n), y = c.choose(n); if (linear && x >= y) return; auto [u, es] = vs[f]; bool same = label(es, n)[x] == label(es, n)[y]; auto [nu, merged] = u.merge(x, y); MC_EQ(merged, !same, "merge result"); es.push_back({ x, y }); MC_LOG("n=" << n << " from v" << f << " merge " << x << " " << y); vs.push_back({ nu, es }); }
    // observing the newest version first must not disturb the older ones (and vice versa)
    for (int k = (int)vs.size() - 1; k >= 0; --k) ufcheck(vs[k].first, label(vs[k].second, n), k);
    for (int k = 0; k < (int)vs.size(); ++k) ufcheck(vs[k].first, label(vs[k].second, n), k);
}
MC_GROUP(union_find) { mc::bound("n<=4(5), depth 3, any version as base"); PU::init_pool(600); mc::explore([&](mc::Chooser& c) { ufh(c, c.range(1, mc::T(4, 4)), 3, false); }); }
MC_GROUP(union_find_linear) { mc::bound("n=5(6), chains of 4 merges, each x<y"); PU::init_pool(600); mc::explore([&](mc::Chooser& c) { ufh(c, mc::T(5, 5), 4, true); }); }
MC_GROUP(union_find_big) { mc::bound("n=40: binomial merging in 4 directions, every version re-read at the end"); PU::init_pool(20000); for (int how = 0; how < 4; ++how) { MC_CASE(how); suisen::PersistentArray<int, 4>::Node::pool.clear(); int n = 40; std::vector<PU> vs{ PU(n) }; std::vector<std::vector<std::pair<int, int>>> es{ {} }; for (int s = 1; s < 32; s *= 2) for (int i = 0; i + s < n; i += 2 * s) { int x = how & 1 ? i : i + s - 1, y = how & 2 ? i + s : std::min(n - 1, i + 2 * s - 1); auto e = es.back(); vs.push_back(vs.back().merge(x, y).first); e.push_back({ x, y }); es.push_back(e); } for (int k = (int)vs.size() - 1; k >= 0; k -= 1) ufcheck(vs[k], label(es[k], n), k); } }
MC_GROUP(empty_trees) {
    mc::bound("length 0 (default, by size, by empty vector): products, range updates, searches and dumps of the lazy, plain, dual and array variants");
    PS::init_pool(16); PL::init_pool(16); std::vector<string> a; std::vector<Seq> b;
    for (int k = 0; k < 3; ++k) { MC_CASE(k); full(k == 0 ? PS() : k == 1 ? PS(0) : PS(a), a, true); PL t = k == 0 ? PL() : k == 1 ? PL(0) : PL(b); full(t, b, true); full(t.apply(0, 0, "1"), b, true); full(t.apply_all("1"), b, true); }
}
MC_GROUP(union_find_dump) { mc::bound("PersistentUnionFind::dump on every version of every merge sequence of length <=3 (4) on n=4: parent array consistent with roots and sizes; older versions unchanged"); using P = suisen::PersistentUnionFind; mc::explore([&](mc::Chooser& c) { P::init_pool(256); int n = c.range(1, 4), L = c.range(0, mc::T(3, 4)); std::vector<P> vs{ P(n) }; std::vector<std::vector<int>> ds; auto check = [&](P& p, const std::vector<int>& d, const char* w) { MC_EQ((int)d.size(), n, w); for (int i = 0; i < n; ++i) { int r = i; for (int k = 0; k <= n && d[r] >= 0; ++k) r = d[r]; MC_EQ(r, p.root(i), w); MC_EQ(p[i], r, w); MC_EQ(-d[r], p.size(i), w); } }; ds.push_back(vs[0].dump()); check(vs[0], ds[0], "initial dump"); for (int s = 0; s < L; ++s) { int x = c.choose(n), y = c.choose(n), b = c.choose((int)vs.size()); auto [q, ok] = vs[b].merge(x, y); vs.push_back(q); ds.push_back(vs.back().dump()); check(vs.back(), ds.back(), "dump after merge"); for (size_t i = 0; i < vs.size(); ++i) MC_CHECK(vs[i].dump() == ds[i], "older version's dump unchanged"); mc::step(); } }); }
static u64 ladd(u64 a, u64 b) { return a + b; } static u64 lzero() { return 0; }
struct LA { u64 s, n; bool operator==(const LA& o) const { return s == o.s && n == o.n; } };
static std::ostream& operator<<(std::ostream& o, const LA& a) { return o << a.s << "/" << a.n; }
static LA laop(LA a, LA b) { return { a.s + b.s, a.n + b.n }; } static LA lae() { return { 0, 0 }; } static LA lamap(u64 f, LA x) { return { x.s + f * x.n, x.n }; } static u64 lamap2(u64 f, u64 x) { return f + x; }
MC_GROUP(large_sizes) {
    mc::bound("n in {127,128,129,130,200,255,256,257,300,511,512,513}: 40 updates in a chain with a branch at every 8th; every version read back by dump, prefix / suffix / window queries and threshold searches");
    using A = suisen::PersistentSegmentTree<u64, ladd, lzero>; using B = suisen::PersistentLazySegmentTree<LA, laop, lae, u64, lamap, lamap2, lzero>; using D = suisen::PersistentDualSegmentTree<u64, lamap2, lzero>;
    A::init_pool(20000); B::init_pool(40000); D::init_pool(40000);
    for (int n : { 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513 }) {
        MC_CASE(n); A::clear_pool(); B::clear_pool(); D::clear_pool(); std::vector<u64> v(n); std::vector<LA> lv(n); for (int i = 0; i < n; ++i) v[i] = 1 + K(i) % 1000, lv[i] = { v[i], 1 };
        struct V { A a; B b; D d; std::vector<u64> x, y; }; std::vector<V> vs{ V{ A(v), B(lv), D(n), v, v } };
        for (int k = 0; k < 40; ++k) { V z = vs[k % 8 == 7 ? k / 2 : k]; int i = K(k * 3 + n) % n, l = K(k * 5 + 1) % (n + 1), r = l + K(k * 7 + 2) % (n + 1 - l); u64 w = 1 + K(k) % 500; z.a = z.a.set(i, w); z.x[i] = w; z.b = z.b.apply(l, r, w); z.d = z.d.apply(l, r, w); for (int j = l; j < r; ++j) z.y[j] += w; vs.push_back(z); }
        for (auto& z : vs) {
            MC_EQ(z.a.dump(), z.x, "dump"); for (int j = 0; j < n; ++j) MC_EQ(z.d.get(j) + v[j], z.y[j], "dual"); auto bd = z.b.dump(); for (int j = 0; j < n; ++j) MC_EQ(bd[j].s, z.y[j], "lazy dump");
            std::vector<u64> p(n + 1), q(n + 1); for (int j = 0; j < n; ++j) p[j + 1] = p[j] + z.x[j], q[j + 1] = q[j] + z.y[j];
            for (int l = 0; l <= n; l += 3) for (int r : { l, std::min(n, l + 1), std::min(n, l + 129), n }) { MC_EQ(z.a.prod(l, r), p[r] - p[l], "prod"); MC_EQ(z.b.prod(l, r).s, q[r] - q[l], "lazy prod"); u64 lim = p[r] - p[l], lim2 = q[r] - q[l]; MC_EQ(z.a.max_right(l, [&](u64 x) { return x <= lim; }), r, "max_right"); MC_EQ(z.b.max_right(l, [&](LA x) { return x.s <= lim2; }), r, "lazy max_right"); MC_EQ(z.a.min_left(r, [&](u64 x) { return x <= lim; }), l, "min_left"); MC_EQ(z.b.min_left(r, [&](LA x) { return x.s <= lim2; }), l, "lazy min_left"); if (l < n) { MC_EQ(z.a.get(l), z.x[l], "get"); MC_EQ(z.b.get(l).s, z.y[l], "lazy get"); } }
        }
    }
}
MC_GROUP(periodic_lazy) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 12 operations on 5 elements, any version as base"); PL::init_pool(4000); auto f = [&](mc::Chooser& c) { lazyh(c, 5, 12); }; mc::periodic(f); }
MC_GROUP(periodic_dual) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 12 operations on 6 elements, any version as base"); PD::init_pool(4000); PC::init_pool(4000); auto f = [&](mc::Chooser& c) { dual<PD>(c, false, 6, 12); dual<PC>(c, true, 6, 12); }; mc::periodic(f); }
MC_GROUP(periodic_union_find) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 14 merges on 7 vertices, any version as base"); PU::init_pool(4000); auto f = [&](mc::Chooser& c) { ufh(c, 7, 14, false); }; mc::periodic(f, true); }
MC_GROUP(periodic_array) { mc::bound("every periodic choice word (period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6); shears 0, 1, 3): 14 operations, any version as base"); suisen::PersistentArray<int, 1>::init_pool(4000); auto f = [&](mc::Chooser& c) { arr<1>(c, { 5, 7, 9 }, 14, all_pos); }; mc::periodic(f); }
MC_MAIN
