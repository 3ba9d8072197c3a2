#include "mc.hpp"
#include "library/graph/tree_decomposition_tw2.hpp"
#include "library/graph/tree_decomposition_tw2_dp.hpp"
using namespace suisen; using namespace std;
typedef vector<pair<int, int>> E;
// exact: treewidth <= 2 iff some elimination order has all elimination degrees <= 2 (DP over eliminated sets)
static bool tw_le2(int n, const vector<int>& a) {
    vector<char> ok(1 << n, 0); ok[0] = 1; for (int s = 0; s < (1 << n); ++s) if (ok[s]) for (int v = 0; v < n; ++v) if (!(s >> v & 1)) { int seen = 1 << v, q = 1 << v, nb = 0; while (q) { int x = __builtin_ctz(q); q &= q - 1; int y = a[x] & ~seen; seen |= y; nb |= y & ~s; q |= y & s; } nb &= ~(1 << v); if (__builtin_popcount(nb) <= 2) ok[s | 1 << v] = 1; }
    return ok[(1 << n) - 1];
}
template <class Adj> static void check_td(int n, const E& es, int N, const vector<vector<int>>& bag, Adj edges, const string& ctx) {
    vector<int> m(N); for (int i = 0; i < N; ++i) { MC_CHECK(bag[i].size() <= 3, ctx + " width"); MC_CHECK(is_sorted(bag[i].begin(), bag[i].end()), ctx + " sorted bag"); for (int v : bag[i]) { MC_CHECK(v >= 0 && v < n && !(m[i] >> v & 1), ctx + " bag"); m[i] |= 1 << v; } }
    // the decomposition graph is a tree
    vector<int> p(N); iota(p.begin(), p.end(), 0); function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; int ne = 0; for (auto [x, y] : edges) { MC_CHECK(x >= 0 && x < N && y >= 0 && y < N && f(x) != f(y), ctx + " tree"); p[f(x)] = f(y); ++ne; } MC_EQ(ne, N ? N - 1 : 0, ctx + " tree edge count");
    for (auto [u, v] : es) { bool in = false; for (int i = 0; i < N; ++i) if (m[i] >> u & 1 && m[i] >> v & 1) in = true; MC_CHECK(in, ctx + " edge in a bag"); }
    for (int v = 0; v < n; ++v) { int cnt = 0, ed = 0; for (int i = 0; i < N; ++i) cnt += m[i] >> v & 1; for (auto [x, y] : edges) ed += (m[x] >> v & 1) && (m[y] >> v & 1); MC_CHECK(cnt >= 1, ctx + " vertex in a bag"); MC_EQ(ed, cnt - 1, ctx + " bags of vertex " + to_string(v) + " are connected"); }
}
static void check(int n, const E& es, const string& ctx) {
    vector<int> a(n); for (auto [u, v] : es) if (u != v) a[u] |= 1 << v, a[v] |= 1 << u; bool ok = tw_le2(n, a); TreeDecompositionTW2 td(n, es); auto d = td.decomp(); MC_EQ(d.has_value(), ok, ctx + " treewidth <= 2"); auto nd = td.nice_decomp(); MC_EQ(nd.has_value(), ok, ctx); 
    { TreeDecompositionTW2 t2(n); for (auto [u, v] : es) t2.add_edge(u, v); MC_EQ(t2.decomp().has_value(), ok, ctx + " via add_edge"); bool simple = true; set<pair<int, int>> st; for (auto [u, v] : es) simple &= u != v && st.insert({ min(u, v), max(u, v) }).second; if (simple && n) { vector<vector<int>> g(n); for (auto [u, v] : es) g[u].push_back(v), g[v].push_back(u); TreeDecompositionTW2 t3(g); MC_EQ(t3.decomp().has_value(), ok, ctx + " via adjacency"); } }
    if (!ok) return;
    vector<vector<int>> bag; E te; for (int i = 0; i < (int)d->size(); ++i) { bag.push_back((*d)[i].bag); for (int j : (*d)[i].adj) if (i < j) te.push_back({ i, j }); } check_td(n, es, bag.size(), bag, te, ctx + " decomp");
    bag.clear(); te.clear(); int N = nd->size(); for (int i = 0; i < N; ++i) { auto& x = (*nd)[i]; bag.push_back(x.bag); for (int j : x.ch) { te.push_back({ i, j }); MC_EQ((*nd)[j].par, i, ctx + " parent link"); } } if (n) { MC_EQ((*nd)[0].par, -1, ctx); check_td(n, es, N, bag, te, ctx + " nice"); }
    for (int i = 0; i < N; ++i) { auto& x = (*nd)[i]; if (x.ch.size() == 0) MC_EQ(x.bag.size(), 1u, ctx + " leaf bag"); else if (x.ch.size() == 1) { auto& y = (*nd)[x.ch[0]]; vector<int> df; set_symmetric_difference(x.bag.begin(), x.bag.end(), y.bag.begin(), y.bag.end(), back_inserter(df)); MC_EQ(df.size(), 1u, ctx + " introduce/forget differ in one vertex"); } else { MC_EQ(x.ch.size(), 2u, ctx); for (int j : x.ch) MC_EQ((*nd)[j].bag, x.bag, ctx + " join bags"); } }
    if (!n) return; TreeDecompositionTW2::assert_nice(*nd, 0);
    // run_dp: count proper 3-colourings (every constraint handled at introduction), compare with enumeration
    NiceDecompTree t(n, es); MC_EQ(t.size(), N, ctx); typedef map<vector<int>, long long> M; auto types = t.get_node_types(); for (int i = 0; i < N; ++i) { auto ty = t.get_node_type(i); MC_CHECK(ty == types[i], ctx); NodeType w = t[i].ch.size() == 0 ? NodeType::LEAF : t[i].ch.size() == 2 ? NodeType::JOIN : t[i].bag.size() > t[t[i].ch[0]].bag.size() ? NodeType::INTRODUCE : NodeType::FORGET; MC_CHECK(ty == w, ctx + " node type"); }
    auto pos = [](const vector<int>& b, int v) { return int(find(b.begin(), b.end(), v) - b.begin()); }; bool loop = false; for (auto [u, v] : es) loop |= u == v;
    auto go = [&](NiceDecompTree& tr) { M r = tr.run_dp<M>([&](const DecompNodeRooted& nd_, int v) { MC_CHECK(nd_.bag.size() == 1 && nd_.bag[0] == v, ctx); M x; for (int c = 0; c < 3; ++c) x[{ c }] = 1; return x; },
        [&](const DecompNodeRooted& x, const DecompNodeRooted& ch, const M& r, int v) { MC_EQ(x.bag.size(), ch.bag.size() + 1, ctx); int p = pos(x.bag, v); MC_CHECK(p < (int)x.bag.size() && pos(ch.bag, v) == (int)ch.bag.size(), ctx + " introduced vertex"); M o; for (auto& [k, w] : r) for (int c = 0; c < 3; ++c) { auto kk = k; kk.insert(kk.begin() + p, c); bool good = true; for (size_t i = 0; i < x.bag.size(); ++i) if (x.bag[i] != v && a[v] >> x.bag[i] & 1 && kk[i] == c) good = false; if (good) o[kk] += w; } return o; },
        [&](const DecompNodeRooted& x, const DecompNodeRooted& ch, const M& r, int v) { MC_EQ(x.bag.size() + 1, ch.bag.size(), ctx); int p = pos(ch.bag, v); MC_CHECK(p < (int)ch.bag.size() && pos(x.bag, v) == (int)x.bag.size(), ctx + " forgotten vertex"); M o; for (auto& [k0, w] : r) { auto k = k0; k.erase(k.begin() + p); o[k] += w; } return o; },
        [&](const DecompNodeRooted& x, const DecompNodeRooted&, const M& r, const DecompNodeRooted&, const M& q) { M o; for (auto& [k, w] : r) { auto it = q.find(k); if (it != q.end()) o[k] = w * it->second; } return o; }); long long s = 0; for (auto& [k, w] : r) s += w; return s; };
    long long want = 0; int P = 1; for (int i = 0; i < n; ++i) P *= 3; for (int x = 0; x < P; ++x) { vector<int> c; for (int i = 0, y = x; i < n; ++i, y /= 3) c.push_back(y % 3); bool g = true; for (auto [u, v] : es) if (u != v && c[u] == c[v]) g = false; want += g; }
    MC_EQ(go(t), want, ctx + " 3-colourings by run_dp"); MC_EQ(go(t), want, ctx + " second run_dp"); NiceDecompTree t4(*nd); MC_EQ(go(t4), want, ctx);
}
MC_GROUP(all_graphs) {
    int N = 6; mc::bound("TreeDecompositionTW2 (decomp, nice_decomp) and NiceDecompTree::run_dp: all simple graphs on 0..6 vertices; oracle: elimination-order DP for treewidth <= 2, axioms of tree decompositions, brute-force count of 3-colourings");
    for (int n = 0; n <= N; ++n) { E A; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) A.push_back({ i, j }); for (int s = 0; s < (1 << A.size()); ++s) { MC_CASE(n, s); E es; for (size_t i = 0; i < A.size(); ++i) if (s >> i & 1) es.push_back((i + s) % 2 ? A[i] : make_pair(A[i].second, A[i].first)); if (s % 3 == 0) reverse(es.begin(), es.end()); check(n, es, "n=" + to_string(n) + " " + mc::show(es)); mc::outcome(s); } }
}
MC_GROUP(multigraphs) {
    mc::bound("all edge sequences of length <= 4 (thorough 5) with parallel edges and self-loops on 3 vertices, length 4 without loops on 4 vertices (thorough 5)");
    mc::explore([&](mc::Chooser& c) { int m = c.range(0, mc::T(4, 5)); E es; for (int i = 0; i < m; ++i) { int u = c.choose(3), v = c.choose(3); es.push_back({ u, v }); } mc::step(); check(3, es, mc::show(es)); MC_LOG(mc::show(es)); });
    mc::explore([&](mc::Chooser& c) { int m = mc::T(3, 4); E es; for (int i = 0; i < m; ++i) { int u = c.choose(4), v = (u + 1 + c.choose(3)) % 4; es.push_back({ u, v }); } mc::step(); check(4, es, mc::show(es)); });
}
MC_GROUP(structured) {
    mc::bound("series-parallel graphs on 9 vertices grown by every sequence of add-ear choices (3^5), with parallel copies and relabelings, and each with one extra chord");
    mc::explore([&](mc::Chooser& c) { int n = 3; E es{ { 0, 1 }, { 1, 2 }, { 0, 2 } }; for (int k = 0; k < mc::T(4, 5); ++k) { int w = c.choose(3); auto e = es[(k * 2 + w * 5) % es.size()]; if (w < 2) { es.push_back({ e.first, n }); es.push_back({ n, e.second }); ++n; if (w == 1) es.push_back(e); } else { es.push_back({ e.first, n }); ++n; } } int r = c.choose(4); if (r & 1) for (auto& [u, v] : es) u = n - 1 - u, v = n - 1 - v; if (r & 2) reverse(es.begin(), es.end()); if (c.flag()) es.push_back({ 0, n - 1 }); mc::step(); check(n, es, "sp " + mc::show(es)); });
}
static void big_td(int n, const E& es, int N, const vector<vector<int>>& bag, const E& te, const string& ctx) {
    MC_EQ((int)te.size(), N - 1, ctx + " tree edges"); vector<int> p(N); iota(p.begin(), p.end(), 0); function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; for (auto [u, v] : te) { MC_CHECK(f(u) != f(v), ctx + " acyclic"); p[f(u)] = f(v); } vector<int> c(n); vector<set<int>> b(N); set<pair<int, int>> cov; for (int i = 0; i < N; ++i) { MC_CHECK(bag[i].size() <= 3, ctx + " bag size"); b[i] = set<int>(bag[i].begin(), bag[i].end()); MC_EQ(b[i].size(), bag[i].size(), ctx + " bag has distinct vertices"); for (int u : b[i]) { MC_CHECK(0 <= u && u < n, ctx + " vertex"); ++c[u]; for (int v : b[i]) cov.insert({ u, v }); } } for (auto [u, v] : te) for (int x : b[u]) c[x] -= b[v].count(x); for (int v = 0; v < n; ++v) MC_EQ(c[v], 1, ctx + " bags of vertex " + to_string(v) + " form one subtree"); for (auto e : es) MC_CHECK(cov.count(e), ctx + " edge covered");
}
MC_GROUP(larger) {
    mc::bound("paths, cycles, stars, caterpillars of triangles, ladders, outerplanar fans and forests of 12, 25, 45 and 70 vertices under three label orders, and each with a K4 subdivision attached at every fifth vertex: existence, validity of the decomposition and of the nice decomposition");
    for (int n : { 12, 25, 45, 70 }) for (int kind = 0; kind < 7; ++kind) for (int lab = 0; lab < 3; ++lab) for (int k4 = -1; k4 + 4 <= n; k4 += k4 < 0 ? 1 : 5) { MC_CASE(n, kind, lab, k4); E es; for (int i = 0; i < n; ++i) { if (kind == 0 && i) es.push_back({ i - 1, i }); if (kind == 1) es.push_back({ i, (i + 1) % n }); if (kind == 2 && i) es.push_back({ 0, i }); if (kind == 3 && i >= 2) { es.push_back({ i - 1, i }); if (i % 2 == 0) es.push_back({ i - 2, i }), es.push_back({ i - 2, i - 1 }); } if (kind == 4) { if (i + 2 < n) es.push_back({ i, i + 2 }); if (i % 2 == 0 && i + 1 < n) es.push_back({ i, i + 1 }); } if (kind == 5 && i) { es.push_back({ 0, i }); if (i > 1) es.push_back({ i - 1, i }); } if (kind == 6 && i % 3) es.push_back({ i - 1, i }); }
        bool ok = true; if (k4 >= 0) { ok = false; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) es.push_back({ k4 + i, k4 + j }); } for (auto& [u, v] : es) { auto f = [&](int x) { return lab == 0 ? x : lab == 1 ? n - 1 - x : (x * 11 + 4) % n; }; u = f(u), v = f(v); } set<pair<int, int>> st; for (auto [u, v] : es) if (u != v) st.insert({ min(u, v), max(u, v) }); es.assign(st.begin(), st.end());
        TreeDecompositionTW2 td(n, es); auto d = td.decomp(); MC_EQ(d.has_value(), ok, "treewidth at most 2"); TreeDecompositionTW2 t2(n, es); auto nd = t2.nice_decomp(); MC_EQ(nd.has_value(), ok, "nice decomposition exists"); mc::step(); if (!ok) continue; vector<vector<int>> bag; E te; for (int i = 0; i < (int)d->size(); ++i) { bag.push_back((*d)[i].bag); for (int j : (*d)[i].adj) if (i < j) te.push_back({ i, j }); } big_td(n, es, bag.size(), bag, te, "larger"); bag.clear(); te.clear(); for (int i = 0; i < (int)nd->size(); ++i) { bag.push_back((*nd)[i].bag); for (int j : (*nd)[i].ch) te.push_back({ i, j }); } big_td(n, es, bag.size(), bag, te, "larger nice"); TreeDecompositionTW2::assert_nice(*nd, 0); }
}
MC_MAIN
