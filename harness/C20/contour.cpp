// Contour sums / updates on trees: all eight classes against distance-matrix sums
#include "mc.hpp"
#include "trees.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
using namespace suisen; using namespace std; typedef long long ll; typedef __int128 W;
struct V { W x = 0; int tag = 0; bool operator==(const V& o) const { return x == o.x && tag == o.tag; } };
ostream& operator<<(ostream& o, const V& v) { return o << "V(" << ll(v.x >> 60) << "," << ll(v.x & ((1ll << 60) - 1)) << "," << v.tag << ")"; }
static V mk(W x) { V v; v.x = x; v.tag = 7; return v; }
static V add(V a, V b) { if (a.tag != 7 || b.tag != 7) mc::fail("monoid operation applied to a value that was never supplied"); return mk(a.x + b.x); }
static V zero() { return mk(0); }
static V neg(V a) { if (a.tag != 7) mc::fail("inverse of a value that was never supplied"); return mk(-a.x); }
static V mapping(V f, V x) { return add(f, x); }
// choose the start vertex that build() will draw: find a seed for which the draw is s
static map<pair<int, int>, mc::u64> seeds;
static void force_start(int n, int s) { auto it = seeds.find({ n, s }); if (it == seeds.end()) { for (mc::u64 r = 1;; ++r) { mc::rng_seed() = r * 77; std::mt19937 g{ unsigned(mc::det_rand()) }; if (std::uniform_int_distribution<int>{ 0, n - 1 }(g) == s) { it = seeds.emplace(make_pair(n, s), r * 77).first; break; } } } mc::rng_seed() = it->second; }
static W unit(int v) { return W(1) << (3 * v % 117); }
struct Obj { ContourSumOnTree<V, add, zero> cs; RangeContourSumOnTree<V, add, zero, neg> rs; PointAddRangeContourSum<V, add, zero> pa; PointAddRangeContourSumOnTree<V, add, zero, neg> pai; PointSetRangeContourSum<V, add, zero> ps; PointGetRangeContourOperate<V, V, mapping, add, zero> pg; PointGetRangeContourAddOnTree<V, V, mapping, add, zero, neg> pgi; };
static void check_all(const Obj& o, const trees::Ref& r, const vector<W>& base, const vector<W>& a, const vector<W>& b, int step, const string& ctx) {
    // base: values at build time; a: current values of the point-update structures; b: current values of the range-update structures
    int n = a.size();
    for (int u = 0; u < n; u += step) {
        MC_EQ(o.pa.get(u), mk(a[u]), ctx << " pa.get"); MC_EQ(o.pai.get(u), mk(a[u]), ctx << " pai.get"); MC_EQ(o.ps.get(u), mk(a[u]), ctx << " ps.get"); MC_EQ(o.pg.get(u), mk(b[u]), ctx << " pg.get " << u); MC_EQ(o.pgi.get(u), mk(b[u]), ctx << " pgi.get " << u);
        vector<W> c0(n + 3), c1(n + 3); for (int v = 0; v < n; ++v) c0[r.d[u][v]] += base[v], c1[r.d[u][v]] += a[v];
        for (int d = -1; d <= n; ++d) MC_EQ(o.cs.sum(u, d), mk(d < 0 ? W(0) : c0[d]), ctx << " ContourSum u=" << u << " d=" << d);
        for (int l = -1; l <= n; l += (n > 12 && l >= 3 ? 5 : 1)) { W s0 = 0, s1 = 0; for (int q = max(l, 0); q <= n + 1; ++q) { bool ask = n <= 12 || q < 6 || q % 7 == 0 || q > n; if (q >= l && ask) { MC_EQ(o.rs.sum(u, l, q), mk(s0), ctx << " RangeContourSum u=" << u << " [" << l << "," << q << ")"); MC_EQ(o.pa.sum(u, l, q), mk(s1), ctx << " PointAddRangeContourSum u=" << u << " [" << l << "," << q << ")"); MC_EQ(o.pai.sum(u, l, q), mk(s1), ctx << " PointAddRangeContourSumOnTree u=" << u << " [" << l << "," << q << ")"); MC_EQ(o.ps.sum(u, l, q), mk(s1), ctx << " PointSetRangeContourSum u=" << u << " [" << l << "," << q << ")"); } if (q < n + 3) s0 += c0[q], s1 += c1[q]; } }
    }
}
template <class F> static void build_all(int n, const trees::E& es, int start, int order, const vector<W>& base, F f) {
    vector<V> w; for (W x : base) w.push_back(mk(x));
    Obj o{ ContourSumOnTree<V, add, zero>(w), RangeContourSumOnTree<V, add, zero, neg>(w), PointAddRangeContourSum<V, add, zero>(w), PointAddRangeContourSumOnTree<V, add, zero, neg>(w), PointSetRangeContourSum<V, add, zero>(w), PointGetRangeContourOperate<V, V, mapping, add, zero>(n), PointGetRangeContourAddOnTree<V, V, mapping, add, zero, neg>(n) };
    trees::E e = es; if (order & 1) reverse(e.begin(), e.end()); for (auto [u, v] : e) { if (order & 2) swap(u, v); o.cs.add_edge(u, v); o.rs.add_edge(u, v); o.pa.add_edge(u, v); o.pai.add_edge(u, v); o.ps.add_edge(u, v); o.pg.add_edge(u, v); o.pgi.add_edge(u, v); }
    force_start(n, start); o.cs.build(); force_start(n, start); o.rs.build(); force_start(n, start); o.pa.build(); force_start(n, start); o.pai.build(); o.ps.build(); o.pg.build(w); force_start(n, start); o.pgi.build(w);
    f(o);
}
static void run_tree(int n, const trees::E& es, int start, int order, int depth, int ustep, int qstep, const string& name) {
    trees::Ref r(trees::adj(n, es), 0); vector<W> base(n); for (int v = 0; v < n; ++v) base[v] = n <= 12 ? unit(v) : W(v) * v + 1;
    string ctx = name + " edges=" + mc::show(es) + " start=" + to_string(start);
    build_all(n, es, start, order, base, [&](Obj& o) {
        vector<W> a = base, b = base; check_all(o, r, base, a, b, qstep, ctx + " after build");
        for (int rep = 0; rep < depth; ++rep) for (int u = 0; u < n; u += ustep) {
            W dv = n <= 12 ? unit((u + 1) % n) : W(1000003) * (u + 1);
            if (rep % 2 == 0) { a[u] += dv; o.pa.add(u, mk(dv)); o.pai.add(u, mk(dv)); o.ps.set(u, mk(a[u])); } else { W x = dv * 3; o.pa.add(u, mk(x - a[u])); o.ps.set(u, mk(x)); o.pai.set(u, mk(x)); a[u] = x; }
            for (int l = -1; l <= n; l += (n > 12 ? 9 : 1)) for (int q = l; q <= n + 1; q += (n > 12 ? 11 : 1)) { W f = n <= 12 ? unit((l + q + n + 2) % n) : W(l + 2) * (q + 3); o.pg.apply(u, l, q, mk(f)); o.pgi.apply(u, l, q, mk(f)); for (int v = 0; v < n; ++v) if (l <= r.d[u][v] && r.d[u][v] < q) b[v] += f; if (n <= 4) for (int v = 0; v < n; ++v) { MC_EQ(o.pg.get(v), mk(b[v]), ctx << " pg.get after apply(" << u << "," << l << "," << q << ")"); MC_EQ(o.pgi.get(v), mk(b[v]), ctx << " pgi.get after apply(" << u << "," << l << "," << q << ")"); } }
            if (rep == 0) { o.pg.apply(u, mk(5)); o.pgi.add(u, mk(5)); b[u] += 5; }
            check_all(o, r, base, a, b, qstep, ctx + " after update " + to_string(u));
        }
    });
}
MC_GROUP(all_labelled) { mc::bound("all labelled trees on 1..5 vertices x every start vertex of build x 2 edge orders: every contour [dl,dr) with bounds -1..n+1 from every vertex after the build, after a point add and a point set of every vertex and a range update of every contour of every vertex; values are independent digit vectors so every vertex is accounted for exactly once"); int k = 0; for (int n = 1; n <= 5; ++n) trees::all(n, [&](const trees::E& es) { ++k; for (int s = 0; s < n; ++s) for (int o = 0; o < (n < 5 ? 4 : mc::T(2, 4)); ++o) { MC_CASE(n, k, s, o); run_tree(n, es, s, n < 5 ? o : (o + k + s) % 4, n < 4 ? 4 : n < 5 ? 2 : 1, 1, 1, "tree"); } }); }
MC_GROUP(shapes) { mc::bound("all parent arrays (every unlabelled rooted shape) on 6..7 (thorough 8) vertices, start vertex cycling; one update per second vertex"); int k = 0; for (int n = 6; n <= mc::T(7, 8); ++n) trees::rec(n, [&](const trees::E& es) { ++k; MC_CASE(n, k); run_tree(n, es, k % n, k % 4, 1, n < 7 ? 1 : 2, 1, "shape"); }); }
MC_GROUP(all_labelled_6) { mc::bound("all 1296 labelled trees on 6 vertices (quick: one start each, thorough: every start)"); int k = 0; trees::all(6, [&](const trees::E& es) { ++k; for (int s = 0; s < mc::T(3, 6); ++s) { MC_CASE(k, s); run_tree(6, es, (s + k) % 6, k % 4, 1, 2, 1, "tree"); } }); }
MC_GROUP(larger) { mc::bound("paths, stars, caterpillars, spiders and heaps of 9..60 vertices"); for (int kind = 0; kind < 5; ++kind) for (int n : vector<int>{ 9, 10, 16, 17, 31, 33, 60 }) { MC_CASE(kind, n); trees::E es; for (int v = 1; v < n; ++v) es.push_back({ kind == 0 ? v - 1 : kind == 1 ? 0 : kind == 2 ? (v % 2 ? max(v - 2, 0) : v - 1) : kind == 3 ? max(v - 4, 0) : (v - 1) / 2, v }); run_tree(n, es, (n * 7) % n, kind % 4, 1, n / 3 + 1, n <= 17 ? 1 : 7, "kind " + to_string(kind)); } }
MC_GROUP(defaults) { mc::bound("default operators, fill constructors"); for (int n = 1; n <= 5; ++n) trees::all(n, [&](const trees::E& es) { MC_CASE(n); trees::Ref r(trees::adj(n, es), 0); ContourSumOnTree<ll> a(n, 3); RangeContourSumOnTree<ll> b(n, 3); PointAddRangeContourSumOnTree<ll> c(n, 3); PointAddRangeContourSum<V, add, zero> d(n, mk(3)), d0(n); PointSetRangeContourSum<V, add, zero> e(n, mk(3)); for (auto [u, v] : es) { a.add_edge(u, v); b.add_edge(u, v); c.add_edge(u, v); d.add_edge(u, v); d0.add_edge(u, v); e.add_edge(u, v); } a.build(); b.build(); c.build(); d.build(); d0.build(); e.build(); for (int u = 0; u < n; ++u) for (int l = 0; l < n; ++l) { ll cnt = 0; for (int v = 0; v < n; ++v) cnt += 3 * (r.d[u][v] == l); MC_EQ(a.sum(u, l), cnt, "default ContourSum"); MC_EQ(b.sum(u, l, l + 1), cnt, "default RangeContourSum"); MC_EQ(c.sum(u, l, l + 1), cnt, "default PointAddRangeContourSumOnTree"); MC_EQ(d.sum(u, l, l + 1), mk(cnt), "fill PointAdd"); MC_EQ(d0.sum(u, l, l + 1), mk(0), "zero fill"); MC_EQ(e.sum(u, l, l + 1), mk(cnt), "fill PointSet"); } }); }
MC_GROUP(hundred) { mc::bound("paths, stars, caterpillars, spiders and heaps of 100 vertices built from a start vertex in the middle: contours and one update round"); for (int kind = 0; kind < 5; ++kind) for (int st : { 0, 40, 71 }) { int n = 100; MC_CASE(kind, st); trees::E es; for (int v = 1; v < n; ++v) es.push_back({ kind == 0 ? v - 1 : kind == 1 ? 0 : kind == 2 ? (v % 2 ? max(v - 2, 0) : v - 1) : kind == 3 ? max(v - 4, 0) : (v - 1) / 2, v }); run_tree(n, es, st, kind % 4, 1, n / 3 + 1, 13, "hundred kind " + to_string(kind)); } }
MC_MAIN
