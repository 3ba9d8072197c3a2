#include "mc.hpp"
#include "trees.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/get_path.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/centroid_decomposition.hpp"
using namespace suisen; using namespace std; using trees::E; using trees::G; using trees::Ref;
static string lab(int v) { return string(1, char('a' + v)); }
static void check_hld(const HeavyLightDecomposition& h, const vector<Ref>& rs, const vector<int>& roots, int n, const string& ctx) {
    // rs[t]: reference of the component rooted at roots[t]; comp[v] = t
    vector<int> comp(n, -1); for (size_t t = 0; t < roots.size(); ++t) for (int v = 0; v < n; ++v) if (v == roots[t] || rs[t].par[v] >= 0) comp[v] = t;
    MC_EQ(h.size(), n, ctx); auto inv = h.inv_ids(); vector<char> seen(n); vector<int> rt = h.get_roots(); auto sr = roots; sort(sr.begin(), sr.end()); MC_EQ(rt, sr, ctx + " roots");
    for (int v = 0; v < n; ++v) { const Ref& r = rs[comp[v]]; int t = h.get_visit_time(v); MC_CHECK(t >= 0 && t < n && !seen[t], ctx + " visit is a permutation"); seen[t] = 1; MC_EQ(inv[t], v, ctx); MC_EQ(h.get_kth_visited(t), v, ctx); MC_EQ(h.get_parent(v), r.par[v], ctx); MC_EQ(h.get_depth(v), r.dep[v], ctx); MC_EQ(h.get_subtree_size(v), r.sz[v], ctx); MC_EQ(h.get_leave_time(v), t + r.sz[v], ctx + " subtree is a contiguous interval");
        int hd = h.get_head(v); MC_CHECK(r.is_anc(hd, v), ctx + " head"); MC_EQ(h.get_visit_time(v) - h.get_visit_time(hd), r.dep[v] - r.dep[hd], ctx + " heavy path is contiguous"); 
        { set<int> a, b; h.fold_subtree<int>(v, [&](int l, int q) { for (int i = l; i < q; ++i) a.insert(inv[i]); return 0; }); for (int u = 0; u < n; ++u) if (comp[u] == comp[v] && r.is_anc(v, u)) b.insert(u); MC_EQ(a, b, ctx + " subtree"); set<int> c; h.update_subtree(v, [&](int l, int q) { for (int i = l; i < q; ++i) c.insert(inv[i]); }, true); b.erase(v); MC_EQ(c, b, ctx + " subtree edges"); } MC_EQ(h.get_point<int>(v, [&](int i) { return i; }), t, ctx); int pt = -1; h.update_point(v, [&](int i) { pt = i; }); MC_EQ(pt, t, ctx);
        if (r.par[v] >= 0) { // heavy child: a child whose head is its parent's head has maximal size among siblings, exactly one
            int p = r.par[v]; int heavy = 0, mx = 0, hs = 0; for (int u = 0; u < n; ++u) if (comp[u] == comp[v] && r.par[u] == p) { mx = max(mx, r.sz[u]); if (h.get_head(u) == h.get_head(p)) ++heavy, hs = r.sz[u]; else MC_EQ(h.get_head(u), u, ctx); } MC_EQ(heavy, 1, ctx + " one heavy child"); MC_EQ(hs, mx, ctx + " heavy child is largest"); }
        for (int k = -1; k <= n; ++k) { int w = k < 0 ? -1 : r.anc(v, k); MC_EQ(h.la(v, k), w, ctx + " la"); MC_EQ(h.la(v, k, -7), w < 0 ? -7 : w, ctx + " la default"); } }
    for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) if (comp[u] == comp[v]) { const Ref& r = rs[comp[u]]; auto p = r.path(u, v); string c2 = ctx + " path " + to_string(u) + "-" + to_string(v); MC_EQ(h.lca(u, v), r.lca(u, v), c2); MC_EQ(h.dist(u, v), (int)p.size() - 1, c2); for (int d = -1; d <= (int)p.size(); ++d) MC_EQ(h.jump(u, v, d, -5), d < 0 || d >= (int)p.size() ? -5 : p[d], c2 + " jump");
        auto fq = [&](int l, int q) { string s; for (int i = l; i < q; ++i) s += lab(inv[i]); return s; }; auto fr = [&](int l, int q) { string s; for (int i = q; i-- > l;) s += lab(inv[i]); return s; }; auto cat = [](string a, string b) { return a + b; };
        string w; for (int x : p) w += lab(x); MC_EQ(h.fold_path_noncommutative(u, v, string(), cat, fq, fr), w, c2 + " ordered fold"); string we; for (int x : p) if (x != r.lca(u, v)) we += lab(x); MC_EQ(h.fold_path_noncommutative(u, v, string(), cat, fq, fr, true), we, c2 + " ordered edge fold");
        auto so = [](string s) { sort(s.begin(), s.end()); return s; }; MC_EQ(so(h.fold_path(u, v, string(), cat, fq)), so(w), c2 + " fold"); MC_EQ(so(h.fold_path(u, v, string(), cat, fq, true)), so(we), c2 + " edge fold"); string up, ue; h.update_path(u, v, [&](int l, int q) { up += fq(l, q); }); h.update_path(u, v, [&](int l, int q) { ue += fq(l, q); }, true); MC_EQ(so(up), so(w), c2 + " update"); MC_EQ(so(ue), so(we), c2 + " edge update"); }
}
static void check_tree(int n, const E& es, int order, int root, const string& ctx) {
    G g = trees::adj(n, es, order); Ref r(g, root);
    { G h = g; HeavyLightDecomposition a(h, { root }); check_hld(a, { r }, { root }, n, ctx + " HLD"); for (int i = 0; i < n; ++i) { auto x = h[i], y = g[i]; sort(x.begin(), x.end()); sort(y.begin(), y.end()); MC_EQ(x, y, ctx + " adjacency kept as a set"); } if (root == 0) { G k = g; HeavyLightDecomposition b(k); check_hld(b, { r }, { 0 }, n, ctx + " HLD default"); } }
    LowestCommonAncestor L(g, root); LevelAncestor A(g, root); EulerTour T(g, root), T2([&](int u, auto f) { for (int v : g[u]) f(v); }, n, root); vector<vector<pair<int, int>>> we(n); for (int i = 0; i < n; ++i) for (int v : g[i]) we[i].push_back({ v, 9 }); EulerTour T3(we, [](const pair<int, int>& e) { return e.first; }, root); set<int> times;
    for (int u = 0; u < n; ++u) { for (int v = 0; v < n; ++v) { int w = r.lca(u, v); MC_EQ(L.lca(u, v), w, ctx + " LCA"); MC_EQ(L(u, v), w, ctx); MC_EQ(L.dist(u, v), r.d[u][v], ctx + " LCA dist"); MC_EQ(T.lca(u, v), w, ctx + " EulerTour"); MC_EQ(T.dist(u, v), r.d[u][v], ctx); MC_EQ(T2.lca(u, v), w, ctx); MC_EQ(T3.lca(u, v), w, ctx); MC_EQ(get_tree_path(g, u, v), r.path(u, v), ctx + " get_tree_path"); MC_EQ(T.visit_time(u) <= T.visit_time(v) && T.leave_time(v) <= T.leave_time(u), r.is_anc(u, v), ctx + " tour nesting"); }
        MC_EQ(T.depth(u), r.dep[u], ctx); MC_EQ(T.parent(u), r.par[u], ctx + " tour parent"); MC_EQ(T3.parent(u), r.par[u], ctx); MC_CHECK(T.visit_time(u) < T.leave_time(u) && T.leave_time(u) - T.visit_time(u) == 2 * r.sz[u] - 1, ctx + " tour length"); times.insert(T.visit_time(u)); times.insert(T.leave_time(u)); MC_EQ(A.get_depth(u), r.dep[u], ctx); MC_EQ(A.get_visit_time_inv(A.get_visit_time(u)), u, ctx); MC_EQ(A.get_kth_visited(A.get_visit_time(u)), u, ctx); for (int k = -1; k <= n; ++k) { int w = k < 0 ? -1 : r.anc(u, k); MC_EQ(A.query(u, k), w, ctx + " level ancestor"); MC_EQ(A(u, k), w, ctx); } } MC_EQ((int)times.size(), 2 * n, ctx);
}
static void check_cen(int n, const E& es, int order, const string& ctx) {
    G g = trees::adj(n, es, order); Ref r(g, 0); vector<int> w; for (int v = 0; v < n; ++v) { bool ok = true; for (int u : g[v]) { int s = r.par[u] == v ? r.sz[u] : n - r.sz[v]; if (2 * s > n) ok = false; } if (ok) w.push_back(v); } auto c = find_centroids(g); sort(c.begin(), c.end()); MC_EQ(c, w, ctx + " centroids");
    CentroidDecompositionUnweighted cd(Graph<void>{ g }); vector<vector<pair<int, long long>>> wg(n); for (auto [u, v] : es) { wg[u].push_back({ v, 10 * (u + v) + 1 }); wg[v].push_back({ u, 10 * (u + v) + 1 }); }
    // component of v at depth d: vertices reachable without passing vertices of smaller depth
    int roots = 0; for (int v = 0; v < n; ++v) { int d = cd.dct_depth(v), p = cd.dct_parent(v); MC_EQ(d == 0, p < 0, ctx); roots += d == 0; if (p >= 0) MC_EQ(cd.dct_depth(p), d - 1, ctx + " depth of the decomposition parent"); vector<int> dist(n, -1); vector<int> o{ v }; dist[v] = 0; for (size_t i = 0; i < o.size(); ++i) for (int u : g[o[i]]) if (dist[u] < 0 && cd.dct_depth(u) > d) dist[u] = dist[o[i]] + 1, o.push_back(u); for (size_t i = 0; i < o.size(); ++i) for (int u : g[o[i]]) MC_CHECK(dist[u] >= 0 || cd.dct_depth(u) < d, ctx + " equal depths are separated"); MC_EQ(cd.dct_size(v), (int)o.size(), ctx + " component size"); for (int u : o) { int x = u; while (x >= 0 && x != v) x = cd.dct_parent(x); MC_EQ(x, v, ctx + " v is an ancestor of its component"); }
        auto col = cd.collect(v, 100); set<pair<int, int>> a0(col[0].begin(), col[0].end()), b0; for (int u : o) b0.insert({ u, 100 + dist[u] }); MC_EQ(a0, b0, ctx + " collect"); MC_EQ(col[0].size(), o.size(), ctx); size_t k = 0; for (int u : g[v]) if (cd.dct_depth(u) > d) { ++k; set<pair<int, int>> b; vector<int> q{ u }; vector<char> s(n); s[u] = s[v] = 1; for (size_t i = 0; i < q.size(); ++i) { b.insert({ q[i], 100 + dist[q[i]] }); for (int x : g[q[i]]) if (!s[x] && cd.dct_depth(x) > d) s[x] = 1, q.push_back(x); } MC_CHECK(2 * (int)q.size() <= (int)o.size(), ctx + " balanced"); bool f = false; for (size_t i = 1; i < col.size(); ++i) if (set<pair<int, int>>(col[i].begin(), col[i].end()) == b) f = true; MC_CHECK(f, ctx + " branch of collect"); } MC_EQ(col.size(), k + 1, ctx); }
    MC_EQ(roots, 1, ctx);
}
static void trees_upto(int N, const function<void(int, const E&, int)>& f) { for (int n = 1; n <= N; ++n) { int id = 0; trees::all(n, [&](const E& es) { MC_CASE(n, id); f(n, es, id); ++id; }); } }
MC_GROUP(labelled_trees) {
    int N = mc::T(6, 7); mc::bound("HLD, LowestCommonAncestor, LevelAncestor, EulerTour, get_tree_path: all labelled trees on 1..6 (thorough 7) vertices, every root, two adjacency orders; all pairs, all k, ordered path folds over strings");
    trees_upto(N, [&](int n, const E& es, int id) { for (int root = 0; root < n; ++root) check_tree(n, es, (id * 3 + root) % 8, root, "tree " + mc::show(es) + " root " + to_string(root)); mc::outcome(id); });
}
MC_GROUP(rooted_shapes) {
    int N = mc::T(8, 9); mc::bound("all parent arrays (recursive trees) on 6..8 (thorough 9) vertices rooted at 0 and at the last vertex, and 5 shapes (path, star, caterpillar, broom, binary) up to 40 vertices");
    for (int n = 6; n <= N; ++n) { int id = 0; trees::rec(n, [&](const E& es) { MC_CASE(n, id); check_tree(n, es, id % 8, id % 2 ? n - 1 : 0, "tree " + mc::show(es)); ++id; }); }
    for (int k = 0; k < 5; ++k) for (int n : { 9, 16, 17, 33 }) { MC_CASE(100 + k, n); E es; for (int v = 1; v < n; ++v) es.push_back({ k == 0 ? v - 1 : k == 1 ? 0 : k == 2 ? (v % 2 ? max(0, v - 2) : v - 1) : k == 3 ? (v < n / 2 ? v - 1 : n / 2 - 1) : (v - 1) / 2, v }); for (int root : { 0, n / 2, n - 1 }) { G g = trees::adj(n, es, k); Ref r(g, root); LowestCommonAncestor L(g, root); LevelAncestor A(g, root); EulerTour T(g, root); G h = g; HeavyLightDecomposition H(h, { root }); for (int u = 0; u < n; ++u) { for (int v = 0; v < n; ++v) { int w = r.lca(u, v); string ctx = "shape " + to_string(k) + " n=" + to_string(n) + " root " + to_string(root); MC_EQ(L.lca(u, v), w, ctx); MC_EQ(T.lca(u, v), w, ctx); MC_EQ(H.lca(u, v), w, ctx); MC_EQ(L.dist(u, v), r.d[u][v], ctx); auto p = r.path(u, v); for (int d = 0; d < (int)p.size(); ++d) MC_EQ(H.jump(u, v, d), p[d], ctx); } for (int j = 0; j <= n; ++j) { MC_EQ(A.query(u, j), r.anc(u, j), ""); MC_EQ(H.la(u, j), r.anc(u, j), ""); } } } check_cen(n, es, k, "shape " + to_string(k)); }
}
MC_GROUP(forests) {
    mc::bound("HLD over forests: all pairs of parent arrays on 3+4 vertices, automatic roots and every explicit root choice for the components");
    trees::rec(3, [&](const E& a) { trees::rec(4, [&](const E& b) { E es = a; for (auto [u, v] : b) es.push_back({ u + 3, v + 3 }); for (int x = 0; x < 3; ++x) for (int y = 3; y < 7; ++y) { MC_CASE(x, y); G g = trees::adj(7, es, x + y); vector<Ref> rs{ Ref(g, x, false), Ref(g, y, false) }; G h = g; HeavyLightDecomposition H(h, y % 2 ? vector<int>{ x, y } : vector<int>{ y, x }); check_hld(H, rs, { x, y }, 7, "forest " + mc::show(es)); } G g = trees::adj(7, es); HeavyLightDecomposition H(g); check_hld(H, { Ref(trees::adj(7, es), 0, false), Ref(trees::adj(7, es), 3, false) }, { 0, 3 }, 7, "forest default " + mc::show(es)); }); });
}
MC_GROUP(auxiliary_tree) {
    mc::bound("AuxiliaryTree: all labelled trees on 1..5 vertices and all parent arrays on 6 (thorough 7), every non-empty vertex subset built one after another on one object in two orders; oracle: closure under lca, compressed ancestor edges; the empty set clears the tree");
    auto go = [&](int n, const E& es, int root, const string& ctx) { G g = trees::adj(n, es), h = g; Ref r(g, root, false); HeavyLightDecomposition H(h, { root }); AuxiliaryTree t(H); MC_EQ(t.get_hld().size(), n, ctx); for (int k = 0; k < 2 << n; ++k) { int S = k < (1 << n) ? k : ((k * 5 + 3) & ((1 << n) - 1)); vector<int> vs; for (int v = 0; v < n; ++v) if (S >> v & 1) vs.push_back(v); if (k & 1) reverse(vs.begin(), vs.end()); t.build(vs); set<int> c(vs.begin(), vs.end()); for (int a : vs) for (int b : vs) c.insert(r.lca(a, b)); vector<set<int>> w(n); for (int v : c) { int p = r.par[v]; while (p >= 0 && !c.count(p)) p = r.par[p]; if (p >= 0) w[v].insert(p), w[p].insert(v); } for (int v = 0; v < n; ++v) { MC_EQ(t[v].size(), w[v].size(), ctx + " S=" + mc::show(vs) + " degree of " + to_string(v)); MC_EQ(set<int>(t[v].begin(), t[v].end()), w[v], ctx + " S=" + mc::show(vs) + " neighbours of " + to_string(v)); } } };
    trees_upto(5, [&](int n, const E& es, int id) { go(n, es, id % n, "tree " + mc::show(es)); }); int id = 0; trees::rec(mc::T(6, 7), [&](const E& es) { MC_CASE(99, id++); go(mc::T(6, 7), es, 0, "tree " + mc::show(es)); });
}
MC_GROUP(centroids) {
    mc::bound("find_centroids and centroid decomposition (parents, depths, sizes, balance, collect): all labelled trees on 1..6 (thorough 7) vertices, and parent arrays on 8");
    trees_upto(mc::T(6, 7), [&](int n, const E& es, int id) { check_cen(n, es, id % 8, "tree " + mc::show(es)); }); int id = 0; trees::rec(8, [&](const E& es) { MC_CASE(99, id++); check_cen(8, es, id % 8, "tree " + mc::show(es)); });
}
MC_GROUP(centroids_weighted) {
    mc::bound("weighted centroid decomposition: all labelled trees on 1..5 vertices, ordered (string) path aggregates from every centroid");
    trees_upto(5, [&](int n, const E& es, int id) { vector<tuple<int, int, string>> we; map<pair<int, int>, string> lb; for (size_t i = 0; i < es.size(); ++i) { auto [u, v] = es[i]; string s = string(1, 'a' + i); lb[{ u, v }] = lb[{ v, u }] = s; } G g = trees::adj(n, es); for (auto [u, v] : es) we.push_back({ u, v, lb[{ u, v }] }); CentroidDecompositionWeighted<string> cd(Graph<string>(n, we, undirected_graph_tag{})); Ref r(g, 0); for (int v = 0; v < n; ++v) { auto col = cd.collect(v, [](string a, string b) { return a + b; }, string("^")); set<pair<int, string>> a(col[0].begin(), col[0].end()), b; for (int u = 0; u < n; ++u) { auto p = r.path(v, u); bool in = true; for (int x : p) in &= x == v || cd.dct_depth(x) > cd.dct_depth(v); if (!in) continue; string s = "^"; for (size_t i = 0; i + 1 < p.size(); ++i) s += lb[{ p[i], p[i + 1] }]; b.insert({ u, s }); } MC_EQ(a, b, "weighted collect " + mc::show(es)); size_t tot = 0; for (size_t i = 1; i < col.size(); ++i) tot += col[i].size(); MC_EQ(tot + 1, b.size(), ""); } });
}
MC_GROUP(medium_sizes) {
    mc::bound("path, star, caterpillar, broom, binary, spider, scattered trees on {64,65,127,128,129,200,300} vertices, three roots: lca, dist, level ancestors, jumps, path folds, auxiliary trees, centroid decomposition");
    for (int n : { 64, 65, 127, 128, 129, 200, 300 }) for (int k = 0; k < 7; ++k) {
        MC_CASE(n, k); E es; for (int v = 1; v < n; ++v) es.push_back({ k == 0 ? v - 1 : k == 1 ? 0 : k == 2 ? (v % 2 ? max(0, v - 2) : v - 1) : k == 3 ? (v < n / 2 ? v - 1 : n / 2 - 1) : k == 4 ? (v - 1) / 2 : k == 5 ? max(0, v - 7) : int((v * 7919LL + 5) % v), v });
        if (n < 129 || k % 2) { int m = 11; while (__gcd(m, n) != 1) ++m; for (auto& [u, v] : es) u = (u * m + 3) % n, v = (v * m + 3) % n; }
        G g = trees::adj(n, es, k); for (int root : { 0, n / 2, n - 1 }) { if (n > 129 && root == 0) continue;
            vector<int> par(n, -1), dep(n), ord{ root }; for (size_t i = 0; i < ord.size(); ++i) for (int u : g[ord[i]]) if (u != par[ord[i]]) par[u] = ord[i], dep[u] = dep[ord[i]] + 1, ord.push_back(u);
            auto lca = [&](int u, int v) { while (u != v) { if (dep[u] < dep[v]) swap(u, v); u = par[u]; } return u; }; auto anc = [&](int u, int j) { while (j-- > 0 && u >= 0) u = par[u]; return u; };
            LowestCommonAncestor L(g, root); LevelAncestor A(g, root); EulerTour T(g, root); G h = g; HeavyLightDecomposition H(h, { root });
            for (int u = 0; u < n; u += 1 + n / 130) { for (int v = 0; v < n; v += 1 + n / 60) { int w = lca(u, v), d = dep[u] + dep[v] - 2 * dep[w]; MC_EQ(L.lca(u, v), w, "lca"); MC_EQ(T.lca(u, v), w, "tour lca"); MC_EQ(H.lca(u, v), w, "hld lca"); MC_EQ(L.dist(u, v), d, "dist"); MC_EQ(H.dist(u, v), d, "hld dist"); MC_EQ(T.dist(u, v), d, "tour dist"); for (int j : { 0, 1, d / 2, d - 1, d }) if (j >= 0 && j <= d) MC_EQ(H.jump(u, v, j), j <= dep[u] - dep[w] ? anc(u, j) : anc(v, d - j), "jump"); long long sum = H.fold_path(u, v, 0LL, [](long long a, long long b) { return a + b; }, [&](int l, int r) { long long s = 0; for (int i = l; i < r; ++i) s += 1LL + i * 1000; return s; }), ws = 0; for (int x = u; x != w; x = par[x]) ws += 1 + H.get_visit_time(x) * 1000LL; for (int x = v; x != w; x = par[x]) ws += 1 + H.get_visit_time(x) * 1000LL; ws += 1 + H.get_visit_time(w) * 1000LL; MC_EQ(sum, ws, "fold over path"); } for (int j = 0; j <= dep[u] + 1; j += 1 + n / 100) { MC_EQ(A.query(u, j), anc(u, j), "level ancestor"); MC_EQ(H.la(u, j), anc(u, j), "la"); } MC_EQ(A.query(u, dep[u]), root, "root"); MC_EQ(A.query(u, dep[u] + 1), -1, "above the root"); }
            AuxiliaryTree t(H); for (int s = 0; s < 6; ++s) { vector<int> vs; for (int v = s; v < n; v += 3 + s * 7) vs.push_back((v * 13 + s) % n); sort(vs.begin(), vs.end()); vs.erase(unique(vs.begin(), vs.end()), vs.end()); if (s % 2) reverse(vs.begin(), vs.end()); t.build(vs); set<int> c(vs.begin(), vs.end()); for (int a : vs) for (int b : vs) if (a < b) c.insert(lca(a, b)); vector<set<int>> w(n); for (int v : c) { int p = par[v]; while (p >= 0 && !c.count(p)) p = par[p]; if (p >= 0) w[v].insert(p), w[p].insert(v); } for (int v = 0; v < n; ++v) MC_EQ(set<int>(t[v].begin(), t[v].end()), w[v], "auxiliary tree"); }
        }
        if (n <= 200) check_cen(n, es, k, "medium");
    }
}
MC_GROUP(many_roots) {
    mc::bound("HLD over forests of 45 vertices with automatic roots: for every vertex p, p isolated beside one path or star over the rest, and 15 components of three vertices in two label orders: complete observation");
    for (int p = 0; p < 47; ++p) for (int kind = 0; kind < 2; ++kind) { if (p < 45 && kind && p % 5) continue; MC_CASE(p, kind); int n = p < 45 ? 45 : 24; E es; if (p < 45) { vector<int> o; for (int i = 0; i < n; ++i) if (i != p) o.push_back(i); for (size_t i = 1; i < o.size(); ++i) es.push_back({ kind ? o[0] : o[i - 1], o[i] }); } else for (int i = 0; i < n / 3; ++i) { if (p == 45) es.push_back({ 3 * i, 3 * i + 1 }), es.push_back({ kind ? 3 * i : 3 * i + 1, 3 * i + 2 }); else es.push_back({ i, i + n / 3 }), es.push_back({ kind ? i : i + n / 3, i + 2 * (n / 3) }); }
        G g = trees::adj(n, es), h = g; vector<int> id(n); iota(id.begin(), id.end(), 0); for (int it = 0; it < n; ++it) for (auto [u, v] : es) id[u] = id[v] = min(id[u], id[v]); vector<int> roots; vector<Ref> rs; for (int i = 0; i < n; ++i) if (id[i] == i) roots.push_back(i), rs.push_back(Ref(g, i, false)); HeavyLightDecomposition H(h); check_hld(H, rs, roots, n, "many roots"); mc::step(); }
}
MC_MAIN
