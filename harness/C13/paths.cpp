#include "mc.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/minmax_floyd_warshall.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/segment_tree_graph.hpp"
#include "library/graph/remove_multiedges.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
using namespace suisen; using namespace std;
typedef vector<vector<long long>> Mat; static const long long INF = 1e15;
static Mat floyd(Mat d) { int n = d.size(); for (int i = 0; i < n; ++i) d[i][i] = min(d[i][i], 0ll); for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d[i][j] = min(d[i][j], d[i][k] + d[k][j]); return d; }
template <class C> static void check_dijkstra(const vector<vector<pair<int, C>>>& g, const Mat& w, const Mat& d, const string& ctx) {
    int n = g.size();
    for (int s = 0; s < n; ++s) for (int form = 0; form < 2; ++form) {
        unique_ptr<dijkstra<C>> D(form ? new dijkstra<C>(n, [&](int u, C du, auto f) { for (auto [v, c] : g[u]) f(v, du + c); }, s) : new dijkstra<C>(g, s));
        for (int t = 0; t < n; ++t) {
            bool r = d[s][t] < INF; string c = ctx + " s=" + to_string(s) + " t=" + to_string(t);
            MC_EQ(D->is_reachale(t), r, c); MC_EQ(D->is_unreachable(t), !r, c); if (!r) { MC_EQ((*D)[t], numeric_limits<C>::max(), c); continue; }
            MC_EQ((long long)(*D)[t], d[s][t], c); auto p = D->path_to(t); MC_CHECK(!p.empty() && (int)p[0] == s && (int)p.back() == t, c + " path ends"); long long len = 0; for (size_t i = 0; i + 1 < p.size(); ++i) { MC_CHECK(w[p[i]][p[i + 1]] < INF, c + " path uses a non-edge"); len += w[p[i]][p[i + 1]]; } MC_EQ(len, d[s][t], c + " path length"); MC_CHECK((int)p.size() <= n, c + " simple");
        }
    }
}
MC_GROUP(dijkstra_all_digraphs) {
    mc::bound("dijkstra: all digraphs on 1..3 vertices (self-loops included) with arc weights in {none,0,1,3}, and on 4 vertices with weights in {none,1} (thorough {none,0,2}); every source and target, both constructors, distances and explicit paths; parallel arcs of different weight");
    auto run = [&](int n, vector<long long> ws, bool loops) {
        mc::explore([&](mc::Chooser& c) {
            vector<vector<pair<int, long long>>> g(n); Mat w(n, vector<long long>(n, INF)); string ctx = "n=" + to_string(n);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (loops || i != j) { long long x = ws[c.choose(ws.size())]; if (x < INF) { g[i].push_back({ j, x }); w[i][j] = x; ctx += " " + to_string(i) + ">" + to_string(j) + ":" + to_string(x); } }
            mc::step(); Mat d = floyd(w); check_dijkstra<long long>(g, w, d, ctx); MC_LOG(ctx); mc::outcome(d[0][n - 1]);
        });
    };
    run(1, { INF, 0, 1 }, true); run(2, { INF, 0, 1, 3, 7 }, true); run(3, { INF, 0, 1, 3 }, mc::thorough()); run(4, mc::thorough() ? vector<long long>{ INF, 0, 2 } : vector<long long>{ INF, 1 }, false);
    mc::explore([&](mc::Chooser& c) { // multigraphs: any sequence of 4 weighted arcs on 3 vertices, int and double costs
        int n = 3; vector<vector<pair<int, int>>> g(n); vector<vector<pair<int, double>>> h(n); Mat w(n, vector<long long>(n, INF)); int m = mc::T(3, 4); for (int k = 0; k < m; ++k) { int u = c.choose(3), v = c.choose(3); int x = c.pick({ 0, 2, 5 }); g[u].push_back({ v, x }); h[u].push_back({ v, double(x) }); w[u][v] = min<long long>(w[u][v], x); } mc::step(); Mat d = floyd(w); check_dijkstra<int>(g, w, d, mc::show(g)); check_dijkstra<double>(h, w, d, mc::show(g)); });
    for (long long big : { (long long)4e18, (long long)1 << 62 }) { dijkstra<long long> D(vector<vector<pair<int, long long>>>{ { { 1, big } }, { { 2, 1 } }, {} }, 0); MC_CASE(big); MC_EQ(D[2], big + 1, "large costs"); }
}
MC_GROUP(bfs_all_graphs) {
    int N = mc::T(5, 6); mc::bound("BFS and ComplementBFS: all undirected graphs on 1..5 (thorough 6) vertices: distances from every vertex and every vertex subset as sources, connected components; bipartite_coloring on the same graphs with several colour pairs; directed adjacency input for BFS/ComplementBFS on 3 vertices");
    for (int n = 1; n <= N; ++n) { vector<pair<int, int>> E; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) E.push_back({ i, j }); int m = E.size();
        for (int s = 0; s < (1 << m); ++s) {
            MC_CASE(n, s); vector<pair<int, int>> es; Mat w(n, vector<long long>(n, INF)), cw = w; vector<vector<int>> g(n); for (int i = 0; i < m; ++i) { auto [u, v] = E[i]; if (s >> i & 1) { es.push_back((s >> (i + 1)) & 1 ? make_pair(v, u) : E[i]); g[u].push_back(v); g[v].push_back(u); w[u][v] = w[v][u] = 1; } else cw[u][v] = cw[v][u] = 1; }
            Mat d = floyd(w), cd = floyd(cw); string ctx = "n=" + to_string(n) + " edges=" + mc::show(es);
            BFS b1(n, es), b2(g), b3(n); for (auto [u, v] : es) b3.add_edge(u, v); ComplementBFS c1(n, es), c2(g), c3(n); for (auto [u, v] : es) c3.add_edge(u, v);
            auto check = [&](const auto& b, const Mat& d, const string& nm) {
                for (int S = 0; S < (1 << n); ++S) { vector<int> src; for (int i = n - 1; i >= 0; --i) if (S >> i & 1) src.push_back(i); vector<int> want(n, -1); for (int v = 0; v < n; ++v) { long long x = INF; for (int u : src) x = min(x, d[u][v]); if (x < INF) want[v] = x; } MC_EQ(b.distance(src), want, ctx + " " + nm + " src=" + mc::show(src)); if (src.size() == 1) MC_EQ(b.distance(src[0]), want, ctx); }
                auto cc = b.connected_components(); vector<int> id(n, -1); int k = 0; for (auto& c : cc) { MC_CHECK(!c.empty(), ctx + nm); for (int v : c) { MC_EQ(id[v], -1, ctx + nm + " listed twice"); id[v] = k; } ++k; } for (int i = 0; i < n; ++i) { MC_CHECK(id[i] >= 0, ctx + nm + " missing vertex"); for (int j = 0; j < n; ++j) MC_EQ(id[i] == id[j], d[i][j] < INF, ctx + nm); }
            };
            check(b1, d, "bfs"); check(c1, cd, "cbfs"); if (s % 3 == 0) { check(b2, d, "bfs(adj)"); check(b3, d, "bfs(add_edge)"); check(c2, cd, "cbfs(adj)"); check(c3, cd, "cbfs(add_edge)"); }
            bool bip = false; for (int S = 0; S < (1 << n) && !bip; ++S) { bip = true; for (auto [u, v] : es) if ((S >> u & 1) == (S >> v & 1)) bip = false; }
            for (auto [c0, c1_] : vector<pair<int, int>>{ { 0, 1 }, { 1, 0 }, { 2, 3 }, { -1, 1 }, { 3, 2 } }) { auto r = bipartite_coloring(g, c0, c1_); MC_EQ(r.has_value(), bip, ctx + " bipartite"); if (r) { for (int x : *r) MC_CHECK(x == c0 || x == c1_, ctx + " colour"); for (auto [u, v] : es) MC_CHECK((*r)[u] != (*r)[v], ctx + " proper"); } }
            mc::outcome(mc::hash_range(d[0]));
        } }
    { vector<vector<int>> g{ { 0 } }; MC_CHECK(!bipartite_coloring(g).has_value(), "self-loop"); { vector<vector<int>> h{ { 1 }, { 0, 2 }, { 1 }, {} }; auto r = bipartite_coloring(h); MC_CHECK(r.has_value(), "path"); for (int x : *r) MC_CHECK(x == 0 || x == 1, "default colours are 0 and 1"); MC_CHECK((*r)[0] != (*r)[1] && (*r)[0] == (*r)[2], "path colouring"); } MC_EQ(bipartite_coloring({})->size(), 0u, "empty"); MC_EQ(BFS(0).connected_components().size(), 0u, ""); MC_EQ(ComplementBFS().connected_components().size(), 0u, ""); }
    for (int s = 0; s < 64; ++s) { MC_CASE(s); vector<vector<int>> g(3); Mat w(3, vector<long long>(3, INF)), cw = w; int k = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) { if (s >> k++ & 1) g[i].push_back(j), w[i][j] = 1; else cw[i][j] = 1; } Mat d = floyd(w), cd = floyd(cw); for (int i = 0; i < 3; ++i) { auto a = BFS(g).distance(i), b = ComplementBFS(g).distance(i); for (int j = 0; j < 3; ++j) { MC_EQ(a[j], d[i][j] < INF ? int(d[i][j]) : -1, "directed"); MC_EQ(b[j], cd[i][j] < INF ? int(cd[i][j]) : -1, "directed complement"); } } }
}
MC_GROUP(bfs01) {
    mc::bound("BFS01/MapBFS01: all 0/1-weighted digraphs on 3 vertices with self-loops (3^9), on 4 vertices without (3^12 thorough; quick: arcs of a fixed orientation pattern 3^8), all single sources and source pairs");
    auto run = [&](int n, vector<pair<int, int>> arcs) { mc::explore([&](mc::Chooser& c) {
        Mat w(n, vector<long long>(n, INF)); vector<vector<pair<int, bool>>> g(n); string ctx; for (auto [u, v] : arcs) { int x = c.choose(3); if (x == 2) continue; w[u][v] = x; g[u].push_back({ v, x }); ctx += " " + to_string(u) + ">" + to_string(v) + ":" + to_string(x); } mc::step(); Mat d = floyd(w);
        auto fn = [&](int u, auto f) { for (auto [v, x] : g[u]) f(v, x); };
        auto chk = [&](const auto& b, vector<int> src) { for (int v = 0; v < n; ++v) { long long x = INF; for (int s : src) x = min(x, d[s][v]); MC_EQ(b[v], x < INF ? int(x) : numeric_limits<int>::max(), ctx + " src " + mc::show(src) + " v=" + to_string(v)); MC_EQ(b.is_reachable(v), x < INF, ctx); MC_EQ(b.is_unreachable(v), x >= INF, ctx); } };
        for (int s = 0; s < n; ++s) { chk(BFS01(n, s, fn), { s }); chk(MapBFS01<int>(s, fn), { s }); for (int t = s + 1; t < n; ++t) { chk(BFS01(n, vector<int>{ t, s }, fn), { s, t }); chk(MapBFS01<int>(vector<int>{ s, t }, fn), { s, t }); } }
        MC_LOG(ctx); }); };
    vector<pair<int, int>> a3, a4; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (mc::thorough() || i != j) a3.push_back({ i, j }); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j && (mc::thorough() || (i + j) % 4 != 1)) a4.push_back({ i, j }); run(3, a3); run(4, a4);
}
MC_GROUP(minmax_floyd) {
    mc::bound("minmax_floyd_warshall: all 3x3 cost matrices over {0..2} (thorough also {0..3}) incl. the diagonal, all 4x4 off-diagonal patterns over {0,1} with fixed large diagonal, ladder n=63..130 of structured matrices crossing the 64-bit word, std::greater comparator");
    auto ref = [](vector<vector<int>> d, bool gr) { int n = d.size(); for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (gr) d[i][j] = max(d[i][j], min(d[i][k], d[k][j])); else d[i][j] = min(d[i][j], max(d[i][k], d[k][j])); } return d; };
    int K = mc::T(3, 4); mc::explore([&](mc::Chooser& c) { vector<vector<int>> a(3, vector<int>(3)); for (auto& r : a) for (int& x : r) x = c.choose(K); mc::step(); MC_EQ(minmax_floyd_warshall(a), ref(a, false), mc::show(a)); MC_EQ(minmax_floyd_warshall(a, greater<int>()), ref(a, true), mc::show(a)); });
    mc::explore([&](mc::Chooser& c) { vector<vector<int>> a(4, vector<int>(4, 9)); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) a[i][j] = c.choose(2) * 5 + (i * 4 + j) % 3; mc::step(); MC_EQ(minmax_floyd_warshall(a), ref(a, false), mc::show(a)); });
    for (int n : { 1, 2, 63, 64, 65, 127, 128, 129 }) for (int t = 0; t < 4; ++t) { MC_CASE(n, t); vector<vector<int>> a(n, vector<int>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = t == 0 ? (j == (i + 1) % n ? i : 1000) : t == 1 ? (i * 37 + j * 101 + i * j * 7) % 251 : t == 2 ? abs(i - j) * 3 + (i > j) : (i == (j + 1) % n ? j * 5 % n : 2000 + (i ^ j)); auto g = minmax_floyd_warshall(a); MC_EQ(g == ref(a, false), true, "n=" + to_string(n) + " pattern " + to_string(t)); }
    MC_EQ(minmax_floyd_warshall(vector<vector<int>>{}).size(), 0u, "empty");
}
MC_GROUP(dag_and_toposort) {
    mc::bound("topological_sort: all digraphs on <= 4 vertices (self-loops on 3), is_dag iff acyclic and order valid; single_source_shortest_path_dag: all DAGs on 4 vertices under all vertex orders with weights {none,-2,3} (unweighted: hop counts), every source vertex of in-degree 0; remove_multiedges: all adjacency rows of length <= 4 over 3 vertices");
    for (int n = 0; n <= 4; ++n) { vector<pair<int, int>> A; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j || n <= 3) A.push_back({ i, j }); for (int s = 0; s < (1 << A.size()); ++s) { MC_CASE(n, s); vector<vector<int>> g(n); Mat w(n, vector<long long>(n, INF)); for (size_t i = 0; i < A.size(); ++i) if (s >> i & 1) { g[A[i].first].push_back(A[i].second); w[A[i].first][A[i].second] = 1; }
        Mat r = w; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] = min(r[i][j], r[i][k] + r[k][j]); bool dag = true; for (int i = 0; i < n; ++i) dag &= r[i][i] >= INF;
        topological_sort t(g); MC_EQ(t.is_dag(), dag, mc::show(g)); if (dag) { auto o = t.sorted(); vector<int> pos(n, -1); MC_EQ((int)o.size(), n, ""); for (int i = 0; i < n; ++i) { MC_EQ(t[i], o[i], ""); MC_CHECK(pos[o[i]] < 0, mc::show(g)); pos[o[i]] = i; } for (int i = 0; i < n; ++i) for (int j : g[i]) MC_CHECK(pos[i] < pos[j], mc::show(g) + " order " + mc::show(o)); } } }
    vector<int> P{ 0, 1, 2, 3 }; do { mc::explore([&](mc::Chooser& c) {
        Mat w(4, vector<long long>(4, INF)), u1 = w; vector<tuple<int, int, int>> es; vector<pair<int, int>> us; vector<int> in(4); for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { int x = c.choose(3); if (x) { int v = x == 1 ? -2 : 3; es.push_back({ P[i], P[j], v }); us.push_back({ P[i], P[j] }); w[P[i]][P[j]] = v; u1[P[i]][P[j]] = 1; in[P[j]]++; } } mc::step(); Mat d = floyd(w), e = floyd(u1);
        auto g = Graph<int>::create_directed_graph(4, es); auto h = Graph<void>::create_directed_graph(4, us);
        for (int s = 0; s < 4; ++s) if (!in[s]) { auto a = single_source_shortest_path_dag(g, s); auto b = single_source_shortest_path_dag(h, s); for (int t = 0; t < 4; ++t) { bool r = e[s][t] < INF; MC_EQ((long long)a[t], r ? d[s][t] : (long long)numeric_limits<int>::max(), mc::show(es)); MC_EQ((long long)b[t], r ? e[s][t] : (long long)numeric_limits<int>::max(), mc::show(us)); } } }); } while (next_permutation(P.begin(), P.end()) && (mc::thorough() || P[0] < 2));
    mc::explore([&](mc::Chooser& c) { vector<vector<int>> g(3); for (auto& r : g) { int k = c.range(0, &r == &g[0] ? 4 : 2); for (int i = 0; i < k; ++i) r.push_back(c.choose(3)); } auto h = g; remove_multiedges(h); mc::step(); for (int i = 0; i < 3; ++i) { vector<int> w; for (int v : g[i]) if (find(w.begin(), w.end(), v) == w.end()) w.push_back(v); MC_EQ(h[i], w, mc::show(g)); } });
}
MC_GROUP(segment_tree_graph) {
    int N = mc::T(20, 70); mc::bound("SegmentTreeGraph: every n <= 20 (thorough 70) and 33, 41, 64, 65, 1-3 orders (identity, reversed, rotation): every range [l,r) reaches exactly its elements (through add_edge + children edges), node ids dense, get_segment_node ranges equal the set of leaves below the node");
    for (int n = 0; n <= 70; ++n) for (int k = 1; k <= 3; ++k) { if (n > N && n != 33 && n != 41 && n != 64 && n != 65) continue;
        MC_CASE(n, k); SegmentTreeGraph g(n); vector<vector<int>> ord; MC_EQ(g.size(), n, ""); vector<int> p(n); iota(p.begin(), p.end(), 0);
        for (int i = 0; i < k; ++i) { int id; if (i == 0) { ord.push_back(p); id = g.add_order_identity(); } else { vector<int> q = p; if (i == 1) reverse(q.begin(), q.end()); else if (n) rotate(q.begin(), q.begin() + n / 3, q.end()); ord.push_back(q); id = g.add_order(q); } MC_EQ(id, i, "order id"); }
        MC_EQ(g.size(), n + k * max(0, n - 1), "size"); int V = g.size(); vector<vector<int>> ch(V), ch3(V); g.add_edges_to_children([&](int a, int b) { ch[a].push_back(b); }); g.add_edges_to_children([&](int a, int b, int c) { ch3[a].push_back(b); ch3[a].push_back(c); }); MC_EQ(ch, ch3, "children");
        vector<vector<int>> leaf(V); for (int v = 0; v < n; ++v) leaf[v] = { v }; auto rec = [&](auto&& rec, int v) -> vector<int>& { if (leaf[v].empty() && !ch[v].empty()) for (int c : ch[v]) { MC_CHECK(0 <= c && c < V && c != v, "child"); auto x = rec(rec, c); leaf[v].insert(leaf[v].end(), x.begin(), x.end()); } return leaf[v]; };
        for (int v = 0; v < V; ++v) { MC_EQ(g.is_segment_node(v), v >= n, ""); if (v >= n && !ch[v].empty()) { auto s = g[v]; auto t = g.get_segment_node(v); MC_EQ(s.order_id, (v - n) / (n - 1), "order"); MC_CHECK(0 <= s.l && s.l < s.r && s.r <= n && t.l == s.l, "range n=" + to_string(n)); vector<int> w(ord[s.order_id].begin() + s.l, ord[s.order_id].begin() + s.r), got = rec(rec, v); MC_EQ(got, w, "segment node leaves n=" + to_string(n) + " v=" + to_string(v)); } }
        for (int o = 0; o < k; ++o) for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { vector<int> got; int cnt = 0; g.add_edge(V, SegmentTreeGraph::SegmentNode{ o, l, r }, [&](int a, int b) { MC_EQ(a, V, "from"); ++cnt; auto x = rec(rec, b); MC_CHECK(!x.empty(), "edge to an invalid node"); got.insert(got.end(), x.begin(), x.end()); }); vector<int> w(ord[o].begin() + l, ord[o].begin() + r); sort(w.begin(), w.end()); sort(got.begin(), got.end()); MC_EQ(got, w, "range " + to_string(l) + "," + to_string(r) + " n=" + to_string(n)); MC_CHECK(cnt <= 16, "logarithmic"); }
    }
}
MC_GROUP(medium_sizes) {
    mc::bound("n in {30,64,65,129,150}: grid, path, dense, layered and scattered digraphs with arc weights up to 10^13: dijkstra (two sources), BFS, ComplementBFS, BFS01, topological order and DAG distances against Bellman-Ford");
    for (int n : { 30, 64, 65, 129, 150 }) for (int kind = 0; kind < 5; ++kind) {
        MC_CASE(n, kind); vector<tuple<int, int, long long>> es; auto wt = [&](int u, int v) { return (long long)((u * 7919LL + v * 104729LL + 13) % 1000003) * 10000000LL; };
        if (kind == 0) { int k = 10; for (int i = 0; i < n; ++i) { if (i % k + 1 < k && i + 1 < n) es.push_back({ i, i + 1, wt(i, i + 1) }), es.push_back({ i + 1, i, wt(i + 1, i) }); if (i + k < n) es.push_back({ i, i + k, wt(i, i + k) }), es.push_back({ i + k, i, wt(i + k, i) }); } }
        else if (kind == 1) for (int i = 0; i + 1 < n; ++i) es.push_back({ i * 7 % n == 0 ? i : i, i + 1, wt(i, 3) });
        else if (kind == 2) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && (i * 31 + j * 17) % 3) es.push_back({ i, j, wt(i, j) }); }
        else if (kind == 3) { for (int i = 0; i < n; ++i) for (int j : { i + 1, i + 2, i + 5, i + 11 }) if (j < n && (i + j) % 7) es.push_back({ i, j, wt(j, i) }); }
        else for (int i = 0; i < n; ++i) for (int t = 1; t <= 2; ++t) es.push_back({ i, int((i * 37LL + t * 11) % n), wt(i, t) });
        vector<vector<pair<int, long long>>> g(n); Mat w(n, vector<long long>(n, INF)); vector<vector<int>> ug(n); vector<vector<pair<int, bool>>> z(n); for (auto [u, v, c] : es) { g[u].push_back({ v, c }); w[u][v] = min(w[u][v], c); ug[u].push_back(v); z[u].push_back({ v, (u + v) % 3 != 0 }); }
        auto bf = [&](int s, auto cost) { vector<long long> d(n, INF * 100); d[s] = 0; for (int it = 0; it < n; ++it) { bool ch = false; for (auto [u, v, c] : es) if (d[u] < INF * 100 && d[u] + cost(u, v, c) < d[v]) d[v] = d[u] + cost(u, v, c), ch = true; if (!ch) break; } return d; };
        for (int s : { 0, n / 2 }) {
            auto d = bf(s, [](int, int, long long c) { return c; }), d1 = bf(s, [](int, int, long long) { return 1LL; }), dz = bf(s, [](int u, int v, long long) { return (long long)((u + v) % 3 != 0); });
            dijkstra<long long> D(g, s); BFS01 b01(n, s, [&](int u, auto f) { for (auto [v, x] : z[u]) f(v, x); }); auto b = BFS(ug).distance(s);
            for (int t = 0; t < n; ++t) { bool r = d[t] < INF * 100; MC_EQ(D.is_reachale(t), r, "reachable"); MC_EQ(b[t], r ? (int)d1[t] : -1, "bfs"); MC_EQ(b01[t], r ? (int)dz[t] : numeric_limits<int>::max(), "bfs01"); if (!r) continue; MC_EQ(D[t], d[t], "dijkstra"); auto p = D.path_to(t); long long len = 0; for (size_t i = 0; i + 1 < p.size(); ++i) len += w[p[i]][p[i + 1]]; MC_CHECK((int)p[0] == s && (int)p.back() == t, "path ends"); MC_EQ(len, d[t], "path length"); }
            vector<int> cd(n, -1); vector<int> q{ s }; cd[s] = 0; for (size_t i = 0; i < q.size(); ++i) { vector<char> adj(n); for (int v : ug[q[i]]) adj[v] = 1; for (int v = 0; v < n; ++v) if (!adj[v] && cd[v] < 0) cd[v] = cd[q[i]] + 1, q.push_back(v); } MC_EQ(ComplementBFS(ug).distance(s), cd, "complement bfs");
        }
    }
    for (int n : { 100, 128, 129, 300 }) { MC_CASE(n); vector<vector<int>> g(n); vector<int> pos(n); for (int i = 0; i < n; ++i) pos[i] = (i * 77 + 5) % n; for (int i = 0; i < n; ++i) for (int t : { 1, 3, 50 }) if (i + t < n) g[pos[i] % n].push_back(pos[i + t] % n); if (set<int>(pos.begin(), pos.end()).size() != (size_t)n) continue; suisen::topological_sort ts(g); MC_CHECK(ts.is_dag(), "dag"); vector<int> at(n, -1); int k = 0; for (int v : ts.sorted()) at[v] = k++; MC_EQ(k, n, "order length"); for (int u = 0; u < n; ++u) for (int v : g[u]) MC_CHECK(at[u] < at[v], "order"); g[pos[n - 1]].push_back(pos[n - 2]); MC_CHECK(!suisen::topological_sort(g).is_dag(), "cycle"); }
}
MC_MAIN
