// mc: flags='-fno-sanitize-address-use-after-scope'
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <deque>
#include <map>
#include <numeric>
#include <set>
#include "library/graph/csr_graph.hpp"
#include "library/graph/cycle_detection.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
using namespace suisen; using namespace std;
typedef vector<pair<int, int>> E; typedef vector<vector<int>> G;
// graphs in which a chosen vertex p is the one whose treatment matters: isolated, first or only member of its component, on the only cycle, ...
static E make(int n, int p, int kind) {
    E e; vector<int> o; for (int i = 0; i < n; ++i) if (i != p) o.push_back(i);
    switch (kind) {
    case 0: for (size_t i = 0; i + 1 < o.size(); ++i) e.emplace_back(o[i], o[i + 1]); break; // p isolated, the rest a path
    case 1: for (size_t i = 0; i + 1 < o.size(); i += 2) e.emplace_back(o[i], o[i + 1]); break; // p isolated, the rest pairs
    case 2: for (int k = 0; k < 3; ++k) e.emplace_back((p + k) % n, (p + (k + 1) % 3) % n); break; // one triangle, the rest isolated
    case 3: for (int k = 0; k < 4; ++k) e.emplace_back((p + k) % n, (p + (k + 1) % 4) % n); for (int i = 0; i + 1 < n; ++i) if (((i - p + n) % n) >= 4 && ((i + 1 - p + n) % n) >= 5) e.emplace_back(i, i + 1); break; // a square and paths
    case 4: for (int i : o) e.emplace_back(p, i); break; // star at p
    case 5: for (int i = 0; i < n; ++i) if (i != p && i % 3 != p % 3) e.emplace_back(i, i < p ? (i + 3 < p ? i + 3 : p) : (i - 3 > p ? i - 3 : p)); break; // two residue classes joined at p
    case 6: for (int i = 0; i + 1 < n; ++i) e.emplace_back((p + i) % n, (p + i + 1) % n); break; // path starting at p
    default: for (int i = 0; i + 1 < n; ++i) e.emplace_back((p + 2 * n - i - 1) % n, (p + 2 * n - i) % n); if (n > 5) e.emplace_back((p + 5) % n, p); break; // path ending at p and one extra arc
    }
    return e;
}
static G comps(int n, const vector<vector<char>>& a) { vector<int> id(n, -1); G r; for (int i = 0; i < n; ++i) if (id[i] < 0) { vector<int> c{ i }; id[i] = i; for (size_t k = 0; k < c.size(); ++k) for (int v = 0; v < n; ++v) if (a[c[k]][v] && id[v] < 0) id[v] = i, c.push_back(v); sort(c.begin(), c.end()); r.push_back(c); } return r; }
static G canon(G g) { for (auto& c : g) sort(c.begin(), c.end()); sort(g.begin(), g.end()); return g; }
template <class GG> static G adj(const GG& g) { G a(g.size()); for (int i = 0; i < g.size(); ++i) for (int v : g[i]) a[i].push_back(v); return a; }
template <class R> static void closed(const R& r, const set<pair<int, int>>& es, const char* w) { int k = r.size(); MC_CHECK(k >= 1, w); set<int> vs; for (int i = 0; i < k; ++i) { int to = r[i], from = r[(i + k - 1) % k]; MC_CHECK(vs.insert(to).second, w << ": repeated vertex " << to); MC_CHECK(es.count({ from, to }), w << ": no edge " << from << "-" << to); } }
MC_GROUP(every_leader) {
    mc::bound("n in {12, 25, 45, 70}, every vertex p, eight graph shapes in which p is isolated, the first vertex of its component, on the only cycle, the centre of a star, a joint, or the start or end of a path: components of the graph and its complement, distances from p in both, two-colouring, undirected and directed cycle search, topological order, DAG distances from p, CSR adjacency, reversal, shrink_to_fit, DFS tree");
    for (int n : { 12, 25, 45, 70 }) for (int p = 0; p < n; ++p) for (int kind = 0; kind < 8; ++kind) {
        MC_CASE(n, p, kind); E es = make(n, p, kind); vector<vector<char>> a(n, vector<char>(n)), b = a; G g(n), dg(n), rg(n); set<pair<int, int>> us, ds; for (auto [u, v] : es) { a[u][v] = a[v][u] = 1; g[u].push_back(v); g[v].push_back(u); dg[u].push_back(v); rg[v].push_back(u); us.insert({ u, v }); us.insert({ v, u }); ds.insert({ u, v }); } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i][j] = i != j && !a[i][j]; for (auto& r : rg) sort(r.begin(), r.end());
        G ca = comps(n, a); MC_CHECK(canon(BFS(n, es).connected_components()) == canon(ca), "components"); MC_CHECK(canon(BFS(g).connected_components()) == canon(ca), "components (adjacency)"); MC_CHECK(canon(ComplementBFS(n, es).connected_components()) == canon(comps(n, b)), "components of the complement");
        auto dist = [&](const vector<vector<char>>& m) { vector<int> d(n, -1), q{ p }; d[p] = 0; for (size_t k = 0; k < q.size(); ++k) for (int v = 0; v < n; ++v) if (m[q[k]][v] && d[v] < 0) d[v] = d[q[k]] + 1, q.push_back(v); return d; }; MC_EQ(BFS(n, es).distance(p), dist(a), "distance"); MC_EQ(ComplementBFS(n, es).distance(p), dist(b), "distance in the complement");
        bool bip = true; { vector<int> col(n, -1); for (int s = 0; s < n; ++s) if (col[s] < 0) { col[s] = 0; vector<int> q{ s }; for (size_t k = 0; k < q.size(); ++k) for (int v : g[q[k]]) { if (col[v] < 0) col[v] = 1 - col[q[k]], q.push_back(v); else if (col[v] == col[q[k]]) bip = false; } } } auto col = bipartite_coloring(g); MC_EQ(col.has_value(), bip, "bipartite"); if (col) { for (int i = 0; i < n; ++i) MC_CHECK((*col)[i] == 0 || (*col)[i] == 1, "colour"); for (auto [u, v] : es) MC_CHECK((*col)[u] != (*col)[v], "proper"); }
        bool cyc = (int)es.size() > n - (int)ca.size(); auto ug = Graph<void>::create_undirected_graph(n, es), dd = Graph<void>::create_directed_graph(n, es); auto r = get_cycle_undirected(ug); MC_EQ(r.has_value(), cyc, "undirected cycle"); if (r) closed(*r, us, "undirected cycle");
        vector<int> in(n), ord; for (auto& l : dg) for (int v : l) ++in[v]; vector<int> deg = in; for (int i = 0; i < n; ++i) if (!deg[i]) ord.push_back(i); for (size_t k = 0; k < ord.size(); ++k) for (int v : dg[ord[k]]) if (!--deg[v]) ord.push_back(v); bool dag = (int)ord.size() == n; auto dr = get_cycle_directed(dd); MC_EQ(dr.has_value(), !dag, "directed cycle"); if (dr) closed(*dr, ds, "directed cycle"); topological_sort ts(dg); MC_EQ(ts.is_dag(), dag, "is_dag"); if (dag) { vector<int> at(n, -1); int k = 0; for (int v : ts.sorted()) at[v] = k++; MC_EQ(k, n, "order length"); for (auto [u, v] : es) MC_CHECK(at[u] >= 0 && at[u] < at[v], "order"); }
        vector<tuple<int, int, int>> ws; for (auto [u, v] : es) ws.emplace_back(u, v, (u * 5 + v * 3) % 11 - 4); auto wg = Graph<int>::create_directed_graph(n, ws); if (dag) for (int s : { p, (p + 1) % n, n - 1 }) if (!in[s]) { vector<long long> d(n, 1LL << 40); d[s] = 0; vector<int> h(n, 1 << 30); h[s] = 0; for (int u : ord) for (auto [x, v, w] : ws) if (x == u) d[v] = min(d[v], d[u] + (d[u] < (1LL << 30) ? w : 0)), h[v] = min(h[v], h[u] + 1); auto x = single_source_shortest_path_dag(wg, s); auto y = single_source_shortest_path_dag(dd, s); for (int t = 0; t < n; ++t) { bool re = h[t] < (1 << 30); MC_EQ((long long)x[t], re ? d[t] : (long long)numeric_limits<int>::max(), "weighted DAG distance to " << t); MC_EQ(y[t], re ? h[t] : numeric_limits<int>::max(), "DAG hops to " << t); } }
        MC_CHECK(adj(dd) == dg && adj(ug) == g && adj(Graph<void>(dg)) == dg, "adjacency"); { auto rv = adj(dd.reversed()); for (auto& l : rv) sort(l.begin(), l.end()); MC_CHECK(rv == rg, "reversed"); auto sh = dd; sh.shrink_to_fit(); MC_CHECK(adj(sh) == dg, "shrink_to_fit"); for (int i = 0; i < n; ++i) { int k = 0; for (auto& e : wg[i]) { MC_EQ((int)e, dg[i][k], "weighted adjacency"); MC_EQ(wg.get_weight(e), (i * 5 + dg[i][k] * 3) % 11 - 4, "weight"); ++k; } MC_EQ(k, (int)dg[i].size(), "weighted degree"); } }
        auto t = ug.dfs_tree(p); vector<int> par(n, -1), seen(n); int te = 0, be = 0; MC_EQ((int)t.pre_ord.size(), n, "pre order"); MC_EQ((int)t.pst_ord.size(), n, "post order"); MC_EQ(t.pre_ord[0], p, "start"); for (int v : t.pre_ord) ++seen[v]; for (int v : t.pst_ord) ++seen[v]; for (int i = 0; i < n; ++i) { MC_EQ(seen[i], 2, "orders are permutations"); for (auto& e : t.tree[i]) { par[(int)e] = i; ++te; MC_CHECK(a[i][(int)e], "tree edge"); } for (auto& e : t.back[i]) { ++be; MC_CHECK(a[i][(int)e], "back edge"); } } MC_EQ(t.par, par, "parents"); MC_EQ(te, n - (int)ca.size(), "tree edges"); MC_EQ(te + be, (int)es.size(), "all edges"); vector<int> pos(n); for (int i = 0; i < n; ++i) pos[t.pre_ord[i]] = i; for (int i = 0; i < n; ++i) if (par[i] >= 0) MC_CHECK(pos[par[i]] < pos[i], "parent first"); mc::step();
    }
}
MC_MAIN
