#include "mc.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/dulmage_mendelsohn_decomposition.hpp"
#include "library/graph/edge_coloring_of_bipartite_graph.hpp"
#include "library/graph/assignment_problem.hpp"
using namespace suisen; using namespace std;
typedef vector<pair<int, int>> E;
// exact maximum matching by dynamic programming over subsets of the right side; banned left/right vertex
static int brute(int n, int m, const vector<int>& adj, int bl = -1, int br = -1) {
    vector<char> ok(1 << m, 0); ok[0] = 1; for (int i = 0; i < n; ++i) if (i != bl) { vector<char> nx = ok; for (int s = 0; s < (1 << m); ++s) if (ok[s]) for (int j = 0; j < m; ++j) if (j != br && adj[i] >> j & 1 && !(s >> j & 1)) nx[s | 1 << j] = 1; ok = nx; }
    int b = 0; for (int s = 0; s < (1 << m); ++s) if (ok[s]) b = max(b, __builtin_popcount(s)); return b;
}
static void check(BipartiteMatching& b, int n, int m, const E& es, bool dm, const string& ctx) {
    vector<int> adj(n); for (auto [u, v] : es) adj[u] |= 1 << v; int f = brute(n, m, adj); MC_EQ(b.solve(), f, ctx + " size"); MC_EQ(b.solve(), f, ctx + " second solve");
    MC_EQ(b.left_size(), n, ctx); MC_EQ(b.right_size(), m, ctx); MC_EQ(b.size(), make_pair(n, m), ctx);
    auto mm = b.max_matching(); MC_EQ((int)mm.size(), f, ctx); int ul = 0, ur = 0; for (auto [u, v] : mm) { MC_CHECK(u >= 0 && u < n && v >= 0 && v < m && adj[u] >> v & 1, ctx + " matching edge"); MC_CHECK(!(ul >> u & 1) && !(ur >> v & 1), ctx + " disjoint"); ul |= 1 << u; ur |= 1 << v; MC_EQ(b.right(u), v, ctx); MC_EQ(b.left(v), u, ctx); }
    for (int u = 0; u < n; ++u) if (!(ul >> u & 1)) MC_EQ(b.right(u), (int)BipartiteMatching::ABSENT, ctx); for (int v = 0; v < m; ++v) if (!(ur >> v & 1)) MC_EQ(b.left(v), (int)BipartiteMatching::ABSENT, ctx);
    auto vc = b.min_vertex_cover(); MC_EQ((int)vc.size(), f, ctx + " vertex cover"); set<int> S(vc.begin(), vc.end()); MC_EQ((int)S.size(), f, ctx); for (auto [u, v] : es) MC_CHECK(S.count(u) || S.count(n + v), ctx + " covers"); for (int x : S) MC_CHECK(0 <= x && x < n + m, ctx);
    auto is = b.max_independent_set(); MC_EQ((int)is.size(), n + m - f, ctx + " independent set"); set<int> I(is.begin(), is.end()); MC_EQ((int)I.size(), n + m - f, ctx); for (auto [u, v] : es) MC_CHECK(!(I.count(u) && I.count(n + v)), ctx + " independent");
    auto ec = b.min_edge_cover(); int cl = 0, cr = 0, wl = 0, wr = 0; for (auto [u, v] : es) wl |= 1 << u, wr |= 1 << v; for (auto [u, v] : ec) { MC_CHECK(u >= 0 && u < n && v >= 0 && v < m && adj[u] >> v & 1, ctx + " edge cover"); cl |= 1 << u; cr |= 1 << v; } MC_EQ(cl, wl, ctx + " edge cover left"); MC_EQ(cr, wr, ctx + " edge cover right"); MC_EQ((int)ec.size(), __builtin_popcount(wl) + __builtin_popcount(wr) - f, ctx + " edge cover size (Gallai)");
    auto rg = b.reversed_graph(); MC_EQ((int)rg.size(), m, ctx); multiset<pair<int, int>> a1, a2(es.begin(), es.end()); for (int j = 0; j < m; ++j) for (int i : rg[j]) a1.insert({ i, j }); MC_EQ(a1, a2, ctx); auto g = b.graph(); multiset<pair<int, int>> a3; for (int i = 0; i < n; ++i) for (int j : g[i]) a3.insert({ i, j }); MC_EQ(a3, a2, ctx);
    if (!dm) return;
    auto d = dulmage_mendelsohn_decomposition(b); int K = d.size(); MC_CHECK(K >= 2, ctx + " W_0 and W_k always present"); vector<int> L(n, -1), R(m, -1);
    for (int k = 0; k < K; ++k) { for (int i : d[k].first) { MC_CHECK(i >= 0 && i < n && L[i] < 0, ctx + " dm left"); L[i] = k; } for (int j : d[k].second) { MC_CHECK(j >= 0 && j < m && R[j] < 0, ctx + " dm right"); R[j] = k; } if (k && k < K - 1) MC_CHECK(d[k].first.size() == d[k].second.size() && d[k].first.size(), ctx + " square part"); for (size_t t = 0; t < min(d[k].first.size(), d[k].second.size()); ++t) MC_CHECK(adj[d[k].first[t]] >> d[k].second[t] & 1 && b.right(d[k].first[t]) == d[k].second[t], ctx + " diagonal is a matching"); }
    for (int i = 0; i < n; ++i) { MC_CHECK(L[i] >= 0, ctx + " dm covers"); MC_EQ(L[i] == K - 1 && brute(n, m, adj, i) == f, brute(n, m, adj, i) == f, ctx + " left vertices avoidable by a maximum matching are in the last part"); }
    for (int j = 0; j < m; ++j) { MC_CHECK(R[j] >= 0, ctx + " dm covers"); if (brute(n, m, adj, -1, j) == f) MC_EQ(R[j], 0, ctx + " right vertices avoidable by a maximum matching are in the first part"); }
    // exact membership: W_0 right = avoidable right vertices, W_k left = avoidable left vertices
    for (int j = 0; j < m; ++j) MC_EQ(R[j] == 0, brute(n, m, adj, -1, j) == f, ctx + " W_0"); for (int i = 0; i < n; ++i) MC_EQ(L[i] == K - 1, brute(n, m, adj, i) == f, ctx + " W_k");
    for (auto [u, v] : es) { MC_CHECK(L[u] <= R[v], ctx + " block triangular"); if (L[u] > 0 && R[v] < K - 1 && L[u] < K - 1 && R[v] > 0) { bool allowed = brute(n, m, adj, u, v) == f - 1; MC_EQ(allowed, L[u] == R[v], ctx + " finest: an edge lies in some maximum matching iff within one part"); } }
}
static void run(int n, int m, const E& es, bool dm, const string& ctx) { BipartiteMatching b(n, m); for (auto [u, v] : es) b.add_edge(u, v); check(b, n, m, es, dm, ctx); }
MC_GROUP(all_bipartite_graphs) {
    mc::bound("BipartiteMatching and dulmage_mendelsohn_decomposition: all bipartite graphs with n,m in 0..3 plus 4x3 and 3x4 (thorough 4x4), two edge orders; oracle: subset DP for the matching number with and without each vertex");
    for (int n = 0; n <= 4; ++n) for (int m = 0; m <= 4; ++m) { if (n * m > mc::T(12, 16)) continue; for (int s = 0; s < (1 << (n * m)); ++s) { MC_CASE(n, m, s); E es; for (int i = 0; i < n * m; ++i) if (s >> i & 1) es.push_back({ i / m, i % m }); string ctx = to_string(n) + "x" + to_string(m) + " " + mc::show(es); run(n, m, es, true, ctx); reverse(es.begin(), es.end()); run(n, m, es, s % 5 == 0, ctx + " reversed"); mc::outcome(s); } }
    mc::bound("1xk, kx1, 2xk, kx2 for k <= 6"); for (int k = 5; k <= 6; ++k) for (int a = 1; a <= 2; ++a) for (int w = 0; w < 2; ++w) for (int s = 0; s < (1 << (a * k)); ++s) { MC_CASE(k, a, w, s); int n = w ? k : a, m = w ? a : k; E es; for (int i = 0; i < n * m; ++i) if (s >> i & 1) es.push_back({ i / m, i % m }); run(n, m, es, true, to_string(n) + "x" + to_string(m) + " " + mc::show(es)); }
}
MC_GROUP(parallel_and_incremental) {
    mc::bound("all sequences of <= 4 edges (with parallel edges) on 2x3 / 3x2 / 3x3 with solve() after every edge");
    mc::explore([&](mc::Chooser& c) { int sh = c.choose(3); int n = sh ? 3 : 2, m = sh == 1 ? 2 : 3, len = c.range(1, sh == 2 ? mc::T(3, 4) : 4), each = c.flag(); BipartiteMatching b(n, m); E es; for (int i = 0; i < len; ++i) { int u = c.choose(n), v = c.choose(m); b.add_edge(u, v); es.push_back({ u, v }); mc::step(); if (each && i + 1 < len) { vector<int> adj(n); for (auto [x, y] : es) adj[x] |= 1 << y; MC_EQ(b.solve(), brute(n, m, adj), mc::show(es) + " incremental"); } } check(b, n, m, es, true, mc::show(es) + (each ? " solved after each edge" : "")); MC_LOG(mc::show(es)); });
}
MC_GROUP(long_alternating) {
    mc::bound("Hopcroft-Karp phases: all 5x5 (thorough 6x6) graphs in which every left vertex has 2 ordered neighbours out of 4 window choices, and path/ladder graphs up to 12x12 in both orders");
    int N = mc::T(5, 6); mc::explore([&](mc::Chooser& c) { BipartiteMatching b(N, N); vector<int> adj(N); E es; for (int i = 0; i < N; ++i) { int k = c.choose(6); static const int P[6][2] = { { 0, 1 }, { 1, 0 }, { 0, 2 }, { 2, 1 }, { -1, 0 }, { 3, 0 } }; for (int t = 0; t < 2; ++t) { int v = ((i + P[k][t]) % N + N) % N; if (v == 0 && i % 2) v = 1; b.add_edge(i, v); adj[i] |= 1 << v; es.push_back({ i, v }); } } mc::step(); MC_EQ(b.solve(), brute(N, N, adj), mc::show(es)); auto mm = b.max_matching(); int ul = 0, ur = 0; for (auto [u, v] : mm) { MC_CHECK(adj[u] >> v & 1 && !(ul >> u & 1) && !(ur >> v & 1), mc::show(es)); ul |= 1 << u; ur |= 1 << v; } MC_EQ((int)mm.size(), b.solve(), mc::show(es)); });
    for (int n = 2; n <= 10; ++n) for (int w = 0; w < 16; ++w) { MC_CASE(n, w); E es; for (int i = 0; i < n; ++i) { es.push_back({ i, i }); if (i + 1 < n) es.push_back({ i, i + 1 }); if (w & 4 && i) es.push_back({ i, i - 1 }); if (w & 8) es.push_back({ i, 0 }); } if (w & 1) reverse(es.begin(), es.end()); if (w & 2) for (auto& [u, v] : es) swap(u, v); run(n, n, es, false, "path " + mc::show(es)); E d(es); d.erase(d.begin() + n / 2); run(n, n, d, false, "path minus edge " + mc::show(d)); }
}
static void colour(int l, int r, const E& es, const string& ctx) {
    EdgeColoringOfBipartiteGraph g(l, r); vector<int> dl(l), dr(r); int k = 0; for (auto [u, v] : es) g.add_edge(u, v), k = max({ k, ++dl[u], ++dr[v] }); auto [c, col] = g.solve(); MC_EQ(c, k, ctx + " chromatic index = maximum degree"); MC_EQ(col.size(), es.size(), ctx); for (size_t i = 0; i < es.size(); ++i) { MC_CHECK(0 <= col[i] && col[i] < k, ctx + " colour range"); for (size_t j = 0; j < i; ++j) if (es[i].first == es[j].first || es[i].second == es[j].second) MC_CHECK(col[i] != col[j], ctx + " edges " + to_string(i) + "," + to_string(j) + " share a vertex and a colour: " + mc::show(col)); }
}
MC_GROUP(wide_sides) {
    mc::bound("one side of up to 3 vertices against 63..200 on the other (word borders of the internal bit vectors): stars, double stars");
    for (int k : { 63, 64, 65, 127, 128, 129, 200 }) for (int a = 1; a <= 3; ++a) for (int w = 0; w < 2; ++w) { MC_CASE(k, a, w); int n = w ? k : a, m = w ? a : k; BipartiteMatching b(n, m); for (int j = 0; j < k; ++j) for (int i = 0; i < a; ++i) if (j % a == i || j == 0) w ? b.add_edge(j, i) : b.add_edge(i, j); MC_EQ(b.solve(), a, "star"); auto ec = b.min_edge_cover(); set<int> L, R; for (auto [u, v] : ec) { L.insert(u); R.insert(v); } MC_EQ((int)ec.size(), k, "edge cover of a star forest"); MC_EQ((int)L.size(), n, ""); MC_EQ((int)R.size(), m, ""); MC_EQ((int)b.min_vertex_cover().size(), a, ""); MC_EQ((int)b.max_independent_set().size(), k, ""); auto d = dulmage_mendelsohn_decomposition(b); int t = 0; for (auto& [x, y] : d) t += x.size() + y.size(); MC_EQ(t, n + m, ""); }
}
MC_GROUP(edge_coloring) {
    mc::bound("EdgeColoringOfBipartiteGraph: all bipartite graphs with n,m <= 3, 4x3, 3x4 (thorough 4x4), all multigraph edge sequences of length <= 5 (thorough 6) on 2x2 and <= 4 on 3x2");
    for (int n = 0; n <= 4; ++n) for (int m = 0; m <= 4; ++m) { if (n * m > mc::T(12, 16)) continue; for (int s = 0; s < (1 << (n * m)); ++s) { MC_CASE(n, m, s); E es; for (int i = 0; i < n * m; ++i) if (s >> i & 1) es.push_back({ i / m, i % m }); if (s & 1) reverse(es.begin(), es.end()); colour(n, m, es, to_string(n) + "x" + to_string(m) + mc::show(es)); } }
    mc::explore([&](mc::Chooser& c) { int m = c.range(1, mc::T(5, 6)); E es; for (int i = 0; i < m; ++i) { int u = c.choose(2), v = c.choose(2); es.push_back({ u, v }); } mc::step(); colour(2, 2, es, mc::show(es)); });
    mc::explore([&](mc::Chooser& c) { int m = c.range(1, 4); bool w = c.flag(); E es; for (int i = 0; i < m; ++i) { int u = c.choose(3), v = c.choose(2); es.push_back(w ? make_pair(u, v) : make_pair(v, u)); } mc::step(); colour(w ? 3 : 2, w ? 2 : 3, es, mc::show(es)); });
    for (int k = 1; k <= 9; ++k) for (int n = 1; n <= 8; ++n) { MC_CASE(k, n); E es; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) es.push_back({ i, (i * 3 + j * (j + 1) / 2) % 7 }); colour(n, 7, es, "regular-ish k=" + to_string(k)); }
}
template <class T> static void assign(const vector<vector<T>>& a, const string& ctx) {
    int n = a.size(); auto [c, p] = assignment_problem<T>(a); vector<int> q(n); iota(q.begin(), q.end(), 0); T best = 0; bool first = true; do { T s = 0; for (int i = 0; i < n; ++i) s += a[i][q[i]]; if (first || s < best) best = s, first = false; } while (next_permutation(q.begin(), q.end()));
    MC_EQ(c, best, ctx + " cost"); MC_EQ((int)p.size(), n, ctx); T s = 0; int m = 0; for (int i = 0; i < n; ++i) { MC_CHECK(p[i] >= 0 && p[i] < n && !(m >> p[i] & 1), ctx + " permutation " + mc::show(p)); m |= 1 << p[i]; s += a[i][p[i]]; } MC_EQ(s, best, ctx + " assignment attains the cost");
}
MC_GROUP(assignment) {
    mc::bound("assignment_problem: all 0..2x0..2 matrices over {-2,-1,0,1,3}, all 3x3 over {-1,0,2}, all 4x4 over {0,1} (thorough also {0,3} spread), 10^12-scaled and double variants, int at +-10^8; oracle: all permutations");
    assign<int>({}, "empty"); for (int n = 1; n <= 2; ++n) mc::explore([&](mc::Chooser& c) { vector<vector<int>> a(n, vector<int>(n)); for (auto& r : a) for (int& x : r) x = c.pick({ -2, -1, 0, 1, 3 }); mc::step(); assign(a, mc::show(a)); });
    mc::explore([&](mc::Chooser& c) { vector<vector<int>> a(3, vector<int>(3)); for (auto& r : a) for (int& x : r) x = c.pick({ -1, 0, 2 }); mc::step(); assign(a, mc::show(a)); vector<vector<long long>> b(3, vector<long long>(3)); vector<vector<double>> d(3, vector<double>(3)); vector<vector<int>> e = a; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) b[i][j] = a[i][j] * 1000000000000LL + (i + j) % 2, d[i][j] = a[i][j] * 0.25, e[i][j] *= 50000000; assign(b, mc::show(b)); assign(d, mc::show(d)); assign(e, mc::show(e)); });
    mc::explore([&](mc::Chooser& c) { vector<vector<int>> a(4, vector<int>(4)); for (auto& r : a) for (int& x : r) x = c.choose(2); if (!mc::thorough() && (a[0][0] > a[1][1] || a[0][1] > a[1][0])) return; mc::step(); assign(a, mc::show(a)); });
    for (int n = 5; n <= 6; ++n) for (int s = 0; s < 40; ++s) { MC_CASE(n, s); vector<vector<int>> a(n, vector<int>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = (i * i * 7 + j * j * 5 + i * j * (s + 1) + s * 3) % 11 - 4; assign(a, mc::show(a)); }
}
MC_GROUP(queries_without_solve) {
    mc::bound("all bipartite graphs with n, m <= 3: each query (matching, covers, independent set, Dulmage-Mendelsohn) asked first on a fresh object, without calling solve(); then another edge is added and the same query asked again; edge colouring without edges");
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3), m = c.range(0, 3); int mask = c.choose(1 << (n * m)); E es; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (mask >> (i * m + j) & 1) es.push_back({ i, j }); int q = c.choose(5); BipartiteMatching b(n, m); for (auto [u, v] : es) b.add_edge(u, v);
        for (int round = 0; round < 2; ++round) { vector<int> adj(n); for (auto [u, v] : es) adj[u] |= 1 << v; int f = brute(n, m, adj); string ctx = "query " + to_string(q) + " round " + to_string(round) + " n=" + to_string(n) + " m=" + to_string(m) + " mask=" + to_string(mask);
            if (q == 0) { auto mm = b.max_matching(); MC_EQ((int)mm.size(), f, ctx); }
            if (q == 1) { auto vc = b.min_vertex_cover(); MC_EQ((int)vc.size(), f, ctx); set<int> S(vc.begin(), vc.end()); for (auto [u, v] : es) MC_CHECK(S.count(u) || S.count(n + v), ctx + " covers"); }
            if (q == 2) { auto is = b.max_independent_set(); MC_EQ((int)is.size(), n + m - f, ctx); }
            if (q == 3) { auto ec = b.min_edge_cover(); int cl = 0, cr = 0, wl = 0, wr = 0; for (auto [u, v] : es) wl |= 1 << u, wr |= 1 << v; for (auto [u, v] : ec) { MC_CHECK(adj[u] >> v & 1, ctx); cl |= 1 << u, cr |= 1 << v; } MC_CHECK(cl == wl && cr == wr, ctx); MC_EQ((int)ec.size(), __builtin_popcount(wl) + __builtin_popcount(wr) - f, ctx); }
            if (q == 4) { if (round == 0) { auto d = dulmage_mendelsohn_decomposition(b); MC_CHECK(d.size() >= 2, ctx); } else check(b, n, m, es, true, ctx); }
            if (!n || !m) break; int u = c.choose(n), v = c.choose(m); es.push_back({ u, v }); b.add_edge(u, v); }
        mc::step(); });
    for (int l = 0; l <= 3; ++l) for (int r = 0; r <= 3; ++r) { MC_CASE(l, r); EdgeColoringOfBipartiteGraph ec(l, r); auto res = ec.solve(); MC_EQ((int)std::get<1>(res).size(), 0, "no edges, no colours"); MC_EQ(std::get<0>(res), 0, "no edges need no colour"); }
}
MC_GROUP(matching_medium) {
    mc::bound("bipartite graphs with 40..260 vertices per side (banded, two-regular cycles, sparse, unbalanced, complete minus diagonal), both edge orders: size certified by a vertex cover of the same size, edge cover by Gallai, Dulmage-Mendelsohn parts by block triangularity and square inner parts");
    for (int n : { 40, 65, 129, 260 }) for (int kind = 0; kind < 6; ++kind) for (int rev = 0; rev < 2; ++rev) { MC_CASE(n, kind, rev); int m = kind == 3 ? n / 2 : kind == 4 ? n + 37 : n; E es; for (int i = 0; i < n; ++i) { if (kind == 0) for (int d = 0; d < 3; ++d) { if (i + d < m) es.push_back({ i, (i + d) }); } if (kind == 1) es.push_back({ i, i }), es.push_back({ i, (i + 1) % m }); if (kind == 2) es.push_back({ i, (i * i) % m }), es.push_back({ i, (i * 3 + 1) % m }); if (kind == 3) es.push_back({ i, i % m }), es.push_back({ i, (i * 7 + 3) % m }); if (kind == 4) for (int d = 0; d < 4; ++d) es.push_back({ i, (i / 2 * 5 + d * d * 7) % m }); if (kind == 5 && n <= 65) for (int j = 0; j < m; ++j) if (j != i) es.push_back({ i, j }); } if (rev) reverse(es.begin(), es.end());
        BipartiteMatching b(n, m); for (auto [u, v] : es) b.add_edge(u, v); int f = b.solve(); string ctx = "n=" + to_string(n) + " kind=" + to_string(kind) + " rev=" + to_string(rev); set<pair<int, int>> has(es.begin(), es.end()); set<int> L, R, WL, WR; for (auto [u, v] : es) WL.insert(u), WR.insert(v); auto mm = b.max_matching(); MC_EQ((int)mm.size(), f, ctx); for (auto p : mm) { MC_CHECK(has.count(p), ctx + " matching edge"); MC_CHECK(L.insert(p.first).second && R.insert(p.second).second, ctx + " disjoint"); MC_EQ(b.right(p.first), p.second, ctx); MC_EQ(b.left(p.second), p.first, ctx); }
        auto vc = b.min_vertex_cover(); set<int> S(vc.begin(), vc.end()); MC_EQ((int)vc.size(), f, ctx + " cover size"); for (auto [u, v] : es) MC_CHECK(S.count(u) || S.count(n + v), ctx + " cover"); auto is = b.max_independent_set(); set<int> I(is.begin(), is.end()); MC_EQ((int)I.size(), n + m - f, ctx); for (auto [u, v] : es) MC_CHECK(!(I.count(u) && I.count(n + v)), ctx + " independent");
        auto ec = b.min_edge_cover(); set<int> CL, CR; for (auto p : ec) { MC_CHECK(has.count(p), ctx); CL.insert(p.first); CR.insert(p.second); } MC_CHECK(CL == WL && CR == WR, ctx + " edge cover covers"); MC_EQ((int)ec.size(), (int)(WL.size() + WR.size()) - f, ctx + " edge cover size");
        auto d = dulmage_mendelsohn_decomposition(b); int K = d.size(); vector<int> dl(n, -1), dr(m, -1); for (int k = 0; k < K; ++k) { for (int i : d[k].first) { MC_CHECK(dl[i] < 0, ctx); dl[i] = k; } for (int j : d[k].second) { MC_CHECK(dr[j] < 0, ctx); dr[j] = k; } if (k && k < K - 1) MC_EQ(d[k].first.size(), d[k].second.size(), ctx + " square"); for (size_t q = 0; q < min(d[k].first.size(), d[k].second.size()); ++q) MC_EQ(b.right(d[k].first[q]), d[k].second[q], ctx + " diagonal"); } for (int x : dl) MC_CHECK(x >= 0, ctx); for (int x : dr) MC_CHECK(x >= 0, ctx); for (auto [u, v] : es) MC_CHECK(dl[u] <= dr[v], ctx + " block triangular"); mc::outcome(f); }
}
MC_GROUP(coloring_medium) {
    mc::bound("edge colourings: regular and irregular bipartite multigraphs with up to 60 vertices per side and degrees up to 33");
    for (int n : { 7, 16, 33, 60 }) for (int k : { 1, 2, 3, 5, 8, 16, 33 }) for (int kind = 0; kind < 4; ++kind) { MC_CASE(n, k, kind); if (n * k > 700) continue; int m = kind == 2 ? n / 2 + 1 : kind == 3 ? 2 * n : n; E es; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) es.push_back({ i, kind == 0 ? (i + j) % m : kind == 1 ? (i * i + j * j) % m : kind == 2 ? (i * (j + 1)) % m : (i * 3 + j * 11) % m }); colour(n, m, es, "n=" + to_string(n) + " k=" + to_string(k) + " kind=" + to_string(kind)); }
}
template <class T> static void assign_dual(int n, const vector<vector<T>>& a, const string& ctx) {
    // optimality certificate: no negative cycle in the exchange graph of the returned permutation (Floyd-Warshall in 128 bits)
    auto [c, p] = assignment_problem<T>(a); vector<char> used(n); __int128 s = 0; MC_EQ((int)p.size(), n, ctx); for (int i = 0; i < n; ++i) { MC_CHECK(p[i] >= 0 && p[i] < n && !used[p[i]], ctx + " permutation"); used[p[i]] = 1; s += a[i][p[i]]; } MC_CHECK(s == (__int128)c, ctx + " cost is that of the returned permutation");
    vector<vector<__int128>> d(n, vector<__int128>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d[i][j] = (__int128)a[i][p[j]] - a[i][p[i]]; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (d[i][k] + d[k][j] < d[i][j]) d[i][j] = d[i][k] + d[k][j]; MC_CHECK(d[i][i] >= 0, ctx + " a cheaper permutation exists"); } mc::step();
}
MC_GROUP(assignment_medium) {
    mc::bound("assignment_problem n in 7..80 with costs up to 10^15 (long long), 10^7 (int), negative, constant and Monge matrices; optimality certified by the absence of negative exchange cycles");
    for (int n : { 7, 12, 20, 33, 80 }) for (int kind = 0; kind < 7; ++kind) { MC_CASE(n, kind); vector<vector<long long>> a(n, vector<long long>(n)); vector<vector<int>> b(n, vector<int>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { long long x = kind == 0 ? (i * 7919LL + j * 104729LL + i * j * 31LL) % 1009 : kind == 1 ? -(long long)(i + 1) * (j + 1) : kind == 2 ? (long long)(i + 1) * (j + 1) : kind == 3 ? 5 : kind == 4 ? (i ^ j) - 20 : kind == 5 ? abs(i - 3 * j) : ((i * j) % 7 == 3 ? -50 : (i * 13 + j * 5) % 41); b[i][j] = x * 1000; a[i][j] = x * 100000000000LL + (i * j) % 13; } string ctx = "n=" + to_string(n) + " kind=" + to_string(kind); assign_dual<long long>(n, a, ctx + " long long"); assign_dual<int>(n, b, ctx + " int"); }
}
MC_MAIN
