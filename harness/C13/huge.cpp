// mc: flags='-O1'
// Size ladder across the 10-, 12- and 16-bit borders.
#include "mc.hpp"
#include "free.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/cycle_detection.hpp"
using namespace suisen; using namespace std; typedef long long ll;
static vector<int> perm(int n) { int p = 12347; while (__gcd(p, n) != 1) ++p; vector<int> r(n); for (int i = 0; i < n; ++i) r[i] = int((ll)i * p % n); return r; }
static void one(int n, int kind) {
    MC_CASE(n, kind); auto id = perm(n); // kind 0: cycle, 1: binary tree, 2: chords i->i+1, i->i+256, 3: star; distances known by a plain queue/relaxation on the unpermuted graph
    vector<pair<int, int>> es; for (int i = 0; i < n; ++i) { if (kind == 0) es.push_back({ i, (i + 1) % n }); else if (kind == 1) { if (i) es.push_back({ (i - 1) / 2, i }); } else if (kind == 2) { if (i + 1 < n) es.push_back({ i, i + 1 }); if (i + 256 < n) es.push_back({ i, i + 256 }); } else if (i) es.push_back({ 0, i }); }
    auto wt = [](int u, int v) { return ll(u % 1000 + v % 77 + 1) * 100000007LL; }; vector<vector<int>> g(n); vector<vector<pair<int, ll>>> wg(n); vector<vector<pair<int, bool>>> z(n); for (auto [a, b] : es) { int u = id[a], v = id[b]; g[u].push_back(v); wg[u].push_back({ v, wt(a, b) }); z[u].push_back({ v, (a + b) % 3 != 0 }); }
    // oracle: from 0 the unpermuted arcs go upward (the closing arc of the cycle returns to the source), so increasing order is topological
    vector<ll> d(n, -1), h(n, -1), zz(n, -1); d[0] = h[0] = zz[0] = 0; for (int i = 0; i < n; ++i) { auto relax = [&](int j) { if (j < 0 || j >= n || j == 0) return; auto up = [](ll& x, ll y) { if (x < 0 || y < x) x = y; }; up(d[j], d[i] + wt(i, j)); up(h[j], h[i] + 1); up(zz[j], zz[i] + ((i + j) % 3 != 0)); }; if (kind == 0) relax(i + 1); else if (kind == 1) relax(2 * i + 1), relax(2 * i + 2); else if (kind == 2) relax(i + 1), relax(i + 256); else if (i == 0) for (int j = 1; j < n; ++j) relax(j); }
    int s = id[0]; dijkstra<ll> D(wg, s); auto B = BFS(g).distance(s); BFS01 Z(n, s, [&](int u, auto f) { for (auto [v, x] : z[u]) f(v, x); }); for (int i = 0; i < n; ++i) { int v = id[i]; if (!D.is_reachale(v) || D[v] != d[i]) mc::fail("dijkstra at " + to_string(i)); if (B[v] != h[i]) mc::fail("bfs at " + to_string(i)); if (Z[v] != zz[i]) mc::fail("bfs01 at " + to_string(i)); } for (int i : { 1, n / 2, n - 1 }) { auto p = D.path_to(id[i]); MC_EQ((int)p.size() >= 2, true, "path"); MC_CHECK((int)p[0] == s && (int)p.back() == id[i], "path ends"); vector<int> inv(n); for (int j = 0; j < n; ++j) inv[id[j]] = j; ll len = 0; for (size_t j = 0; j + 1 < p.size(); ++j) len += wt(inv[p[j]], inv[p[j + 1]]); MC_EQ(len, d[i], "path length"); }
    topological_sort ts(g); MC_EQ(ts.is_dag(), kind != 0, "dag"); if (kind) { vector<int> at(n, -1); int k = 0; for (int v : ts.sorted()) at[v] = k++; MC_EQ(k, n, "order length"); for (int u = 0; u < n; ++u) for (int v : g[u]) if (at[u] >= at[v]) mc::fail("order"); }
    vector<vector<int>> ug(n); for (auto [a, b] : es) ug[id[a]].push_back(id[b]), ug[id[b]].push_back(id[a]); auto bp = bipartite_coloring(ug); bool ok = kind == 0 ? n % 2 == 0 : kind != 2; MC_EQ(bp.has_value(), ok, "bipartite"); if (bp) for (int u = 0; u < n; ++u) for (int v : ug[u]) if ((*bp)[u] == (*bp)[v]) mc::fail("colouring");
    if (kind == 3) { auto cd = ComplementBFS(ug).distance(s); for (int i = 0; i < n; ++i) if (cd[id[i]] != (i ? -1 : 0)) mc::fail("complement from the centre"); cd = ComplementBFS(ug).distance(id[1]); for (int i = 0; i < n; ++i) if (cd[id[i]] != (i == 0 ? -1 : i == 1 ? 0 : 1)) mc::fail("complement from a leaf"); }
    mc::step(es.size());
}
MC_GROUP(search_huge) { mc::bound("directed cycle, binary tree, strided band, star on {1023,1025,4097,32769,65535,65536,65537,70001} permuted vertices: dijkstra (values beyond 2^32), BFS, BFS01, topological order, bipartiteness, complement BFS"); for (int n : { 1023, 1025, 4097, 32769, 65535, 65536, 65537, 70001 }) for (int k = 0; k < 4; ++k) one(n, k); }
MC_MAIN
