#include "mc.hpp"
#include "library/graph/low_link.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/biconnected_components.hpp"
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/scc_tournament.hpp"
using namespace suisen; using namespace std;
typedef vector<pair<int, int>> E;
static int comps(int n, const E& es, int skipv, int skipe, vector<int>* id = nullptr) { vector<int> p(n); iota(p.begin(), p.end(), 0); function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; for (int i = 0; i < (int)es.size(); ++i) if (i != skipe && es[i].first != skipv && es[i].second != skipv) p[f(es[i].first)] = f(es[i].second); int c = 0; for (int i = 0; i < n; ++i) c += i != skipv && f(i) == i; if (id) { id->resize(n); for (int i = 0; i < n; ++i) (*id)[i] = f(i); } return c; }
struct Ref { int n; E es; int cc; vector<int> bridges, arts; vector<int> cut_v; vector<char> isb; vector<vector<char>> same2; vector<vector<char>> same_block; };
// brute force: bridges / articulation points by deletion; 2-edge-connectivity by deleting each bridge;
// two edges are in one block iff they lie on a common cycle (equivalently: after subdividing both, no vertex separates them)
static Ref ref(int n, const E& es) {
    Ref r; r.n = n; r.es = es; int m = es.size(); r.cc = comps(n, es, -1, -1); r.isb.assign(m, 0);
    for (int i = 0; i < m; ++i) if (comps(n, es, -1, i) > r.cc) r.bridges.push_back(i), r.isb[i] = 1;
    for (int v = 0; v < n; ++v) { int k = comps(n, es, v, -1); r.cut_v.push_back(k); if (k > r.cc) r.arts.push_back(v); }
    E rest; for (int i = 0; i < m; ++i) if (!r.isb[i]) rest.push_back(es[i]); vector<int> id; comps(n, rest, -1, -1, &id); r.same2.assign(n, vector<char>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.same2[i][j] = id[i] == id[j];
    // blocks: equivalence closure of "share a vertex v and their other ends stay connected in G - v"
    vector<int> p(m); iota(p.begin(), p.end(), 0); function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); };
    for (int v = 0; v < n; ++v) { E w; for (auto e : es) if (e.first != v && e.second != v) w.push_back(e); vector<int> c; comps(n, w, -1, -1, &c); for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) { auto o = [&](int k) { return es[k].first == v ? es[k].second : es[k].second == v ? es[k].first : -1; }; int a = o(i), b = o(j); if (a >= 0 && b >= 0 && a != v && b != v && c[a] == c[b]) p[f(i)] = f(j); } }
    r.same_block.assign(m, vector<char>(m)); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) r.same_block[i][j] = f(i) == f(j);
    return r;
}
template <class L> static void check_low(const L& g, const Ref& r, const string& ctx) {
    int m = r.es.size(); MC_EQ(g.vertex_num(), r.n, ctx); MC_EQ(g.edge_num(), m, ctx); MC_EQ(g.edges(), r.es, ctx); for (int i = 0; i < m; ++i) MC_EQ(g.edge(i), r.es[i], ctx);
    auto b = g.bridge_ids(); sort(b.begin(), b.end()); MC_EQ(b, r.bridges, ctx + " bridges"); auto a = g.articulation_points(); sort(a.begin(), a.end()); MC_EQ(a, r.arts, ctx + " articulation points"); MC_EQ(g.connected_component_num(), r.cc, ctx);
    for (int i = 0; i < m; ++i) if (r.es[i].first != r.es[i].second) { MC_EQ(g.is_bridge(r.es[i].first, r.es[i].second), (bool)r.isb[i], ctx + " is_bridge"); MC_EQ(g.is_bridge(r.es[i].second, r.es[i].first), (bool)r.isb[i], ctx); MC_EQ(g.connected_component_num_if_removed(r.es[i].first, r.es[i].second), r.cc + r.isb[i], ctx); }
    vector<int> po; for (int v = 0; v < r.n; ++v) { MC_EQ(g.connected_component_num_if_removed(v), r.cut_v[v], ctx + " remove vertex " + to_string(v)); MC_EQ(g.is_articulation_point(v), r.cut_v[v] > r.cc, ctx); po.push_back(g.pre_order(v)); MC_CHECK(g.low_link(v) <= g.pre_order(v), ctx); } sort(po.begin(), po.end()); for (int i = 0; i < r.n; ++i) MC_EQ(po[i], i, ctx + " preorder is a permutation");
}
static void check_2ecc(const TwoEdgeConnectedComponents& g, const Ref& r, const string& ctx) {
    check_low(g, r, ctx); int n = r.n; set<int> ids; for (int i = 0; i < n; ++i) { ids.insert(g[i]); MC_CHECK(0 <= g[i] && g[i] < g.component_num(), ctx); for (int j = 0; j < n; ++j) MC_EQ(g[i] == g[j], (bool)r.same2[i][j], ctx + " 2ecc"); } MC_EQ((int)ids.size(), g.component_num(), ctx);
    auto gr = g.groups(); MC_EQ((int)gr.size(), g.component_num(), ctx); for (int i = 0; i < (int)gr.size(); ++i) { vector<int> w; for (int v = 0; v < n; ++v) if (g[v] == i) w.push_back(v); auto x = gr[i]; sort(x.begin(), x.end()); MC_EQ(x, w, ctx + " groups"); }
    auto f = g.reduced_forest(); MC_EQ((int)f.size(), g.component_num(), ctx); multiset<tuple<int, int, int>> got, want; for (int i = 0; i < (int)f.size(); ++i) for (auto [v, id] : f[i]) got.insert({ i, v, id }); for (int b : r.bridges) { int x = g[r.es[b].first], y = g[r.es[b].second]; want.insert({ x, y, b }); want.insert({ y, x, b }); } MC_EQ(got, want, ctx + " reduced forest");
}
static void check_bcc(const BiconnectedComponents& g, const Ref& r, const string& ctx) {
    check_low(g, r, ctx); int n = r.n, m = r.es.size(); set<int> ids; for (int i = 0; i < m; ++i) { MC_CHECK(0 <= g[i] && g[i] < g.edge_component_num(), ctx); ids.insert(g[i]); for (int j = 0; j < m; ++j) MC_EQ(g[i] == g[j], (bool)r.same_block[i][j], ctx + " blocks of edges " + to_string(i) + "," + to_string(j)); } MC_EQ((int)ids.size(), g.edge_component_num(), ctx);
    vector<int> iso; for (int v = 0; v < n; ++v) { bool a = true; for (auto [x, y] : r.es) if (x == v || y == v) a = false; if (a) iso.push_back(v); } MC_EQ(g.isolated_vertices(), iso, ctx); MC_EQ(g.isolated_vertex_num(), (int)iso.size(), ctx); MC_EQ(g.component_num(), g.edge_component_num() + (int)iso.size(), ctx);
    auto cs = g.components(); MC_EQ((int)cs.size(), g.component_num(), ctx); vector<set<int>> bv(cs.size()); for (int i = 0; i < (int)cs.size(); ++i) { MC_EQ(g.is_isolated_component(i), i >= g.edge_component_num(), ctx); set<int> v, e; for (int j = 0; j < m; ++j) if (g[j] == i) { e.insert(j); v.insert(r.es[j].first); v.insert(r.es[j].second); } if (i >= g.edge_component_num()) v.insert(iso[i - g.edge_component_num()]); bv[i] = v; MC_EQ(cs[i].vertex_num(), (int)v.size(), ctx); MC_EQ(cs[i].edge_num(), (int)e.size(), ctx); MC_EQ(set<int>(cs[i].vertex_set().begin(), cs[i].vertex_set().end()), v, ctx); MC_EQ(set<int>(cs[i].edge_set().begin(), cs[i].edge_set().end()), e, ctx); }
    BlockCutForest f(g); int A = r.arts.size(), C = cs.size(); MC_EQ(f.size(), C + A, ctx); auto arts = g.articulation_points();
    for (int i = 0; i < f.size(); ++i) { MC_EQ(f.is_articulation_point(i), i >= C, ctx); MC_EQ(f.is_biconnected_component(i), i < C, ctx); MC_EQ(f.is_isolated_vertex(i), i >= g.edge_component_num() && i < C, ctx); set<int> w; if (i >= C) { for (int c = 0; c < C; ++c) if (bv[c].count(arts[i - C])) w.insert(c); MC_EQ(f.vertex_num(i), 1, ctx); } else { for (int a = 0; a < A; ++a) if (bv[i].count(arts[a])) w.insert(C + a); MC_EQ(f.vertex_num(i), (int)bv[i].size(), ctx + " vertices of block"); } MC_EQ((int)f[i].size(), (int)w.size(), ctx + " block-cut degree"); MC_EQ(set<int>(f[i].begin(), f[i].end()), w, ctx + " block-cut adjacency"); }
    for (int v = 0; v < n; ++v) { int c = f.component_id(v); MC_CHECK(0 <= c && c < C && bv[c].count(v), ctx + " component_id"); }
}
static void all(int n, const E& es, const string& ctx, bool rebuild) {
    Ref r = ref(n, es); bool loop = false; for (auto [u, v] : es) loop |= u == v;
    { LowLink a(n, es); check_low(a, r, ctx); LowLink b(n); for (size_t i = 0; i < es.size(); ++i) MC_EQ(b.add_edge(es[i].first, es[i].second), (int)i, ctx); b.build(); check_low(b, r, ctx); for (int v = 0; v < n; ++v) { E w, g = b[v]; for (int i = 0; i < (int)es.size(); ++i) { if (es[i].first == v) w.push_back({ es[i].second, i }); if (es[i].second == v) w.push_back({ es[i].first, i }); } MC_EQ(g, w, ctx + " adjacency"); } }
    { TwoEdgeConnectedComponents a(n, es); check_2ecc(a, r, ctx); TwoEdgeConnectedComponents b(n); for (auto [u, v] : es) b.add_edge(u, v); b.build(); check_2ecc(b, r, ctx); }
    if (!loop) { BiconnectedComponents a(n, es); check_bcc(a, r, ctx); BiconnectedComponents b(n); for (auto [u, v] : es) b.add_edge(u, v); b.build(); check_bcc(b, r, ctx); }
    if (rebuild && es.size() > 1) { // build, add the remaining edges, build again
        size_t h = es.size() / 2; LowLink a(n); TwoEdgeConnectedComponents b(n); BiconnectedComponents c(n); for (size_t i = 0; i < es.size(); ++i) { a.add_edge(es[i].first, es[i].second); b.add_edge(es[i].first, es[i].second); if (!loop) c.add_edge(es[i].first, es[i].second); if (i == h) { a.build(); b.build(); if (!loop) c.build(); } } a.build(); b.build(); check_low(a, r, ctx + " rebuilt"); check_2ecc(b, r, ctx + " rebuilt"); if (!loop) { c.build(); check_bcc(c, r, ctx + " rebuilt"); } }
}
MC_GROUP(simple_graphs) {
    int N = mc::T(5, 6); mc::bound("LowLink/TwoEdgeConnectedComponents/BiconnectedComponents/BlockCutForest: all simple graphs on 0..5 (thorough 6) vertices, both construction paths, and build after build with added edges; oracle: deletion of every vertex and edge, block equivalence closure");
    for (int n = 0; n <= N; ++n) { E A; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) A.push_back({ i, j }); for (int s = 0; s < (1 << A.size()); ++s) { MC_CASE(n, s); E es; for (size_t i = 0; i < A.size(); ++i) if (s >> i & 1) es.push_back((i * 7 + s) % 3 ? A[i] : make_pair(A[i].second, A[i].first)); if (s % 2) reverse(es.begin(), es.end()); all(n, es, "n=" + to_string(n) + " " + mc::show(es), true); mc::outcome(s); } }
}
MC_GROUP(multigraphs) {
    mc::bound("all edge sequences (parallel edges, self-loops; blocks only without self-loops) of length <= 4 (thorough 5) on 3 vertices, and of length <= 4 without self-loops on 4 vertices");
    mc::explore([&](mc::Chooser& c) { int m = c.range(0, mc::T(3, 5)); E es; for (int i = 0; i < m; ++i) { int u = c.choose(3), v = c.choose(3); es.push_back({ u, v }); } mc::step(); all(3, es, mc::show(es), m > 2); MC_LOG(mc::show(es)); });
    mc::explore([&](mc::Chooser& c) { int m = mc::T(3, 4); E es; for (int i = 0; i < m; ++i) { int u = c.choose(4), v = (u + 1 + c.choose(3)) % 4; es.push_back({ u, v }); } mc::step(); all(4, es, mc::show(es), true); });
}
MC_GROUP(structured) {
    mc::bound("cactus chains, theta graphs, ladders, star-of-cycles and random-looking fixed graphs up to 12 vertices under 6 vertex relabelings");
    vector<pair<int, E>> gs; for (int k = 2; k <= 4; ++k) { E e; int n = 1; for (int c = 0; c < 3; ++c) { int s = n - 1; for (int i = 0; i < k - 1; ++i) e.push_back({ i ? n - 1 : s, n }), ++n; e.push_back({ n - 1, s }); } gs.push_back({ n, e }); E f; for (int a = 0; a < 3; ++a) { int p = 0; for (int i = 0; i < k - 1; ++i) { int v = 2 + a * (k - 1) + i; f.push_back({ p, v }); p = v; } f.push_back({ p, 1 }); } gs.push_back({ 2 + 3 * (k - 1), f }); E l; for (int i = 0; i < k + 1; ++i) { l.push_back({ 2 * i, 2 * i + 1 }); if (i) l.push_back({ 2 * i - 2, 2 * i }), l.push_back({ 2 * i - 1, 2 * i + 1 }); } gs.push_back({ 2 * k + 2, l }); }
    gs.push_back({ 12, { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 2, 3 }, { 3, 4 }, { 4, 5 }, { 5, 3 }, { 5, 6 }, { 6, 7 }, { 8, 9 }, { 9, 10 }, { 10, 8 }, { 10, 9 } } });
    for (size_t g = 0; g < gs.size(); ++g) for (int r = 0; r < 6; ++r) { MC_CASE((int)g, r); int n = gs[g].first; vector<int> p(n); iota(p.begin(), p.end(), 0); if (r & 1) reverse(p.begin(), p.end()); rotate(p.begin(), p.begin() + (r * 5 % n), p.end()); E es; for (auto [u, v] : gs[g].second) es.push_back({ p[u], p[v] }); if (r >= 3) reverse(es.begin(), es.end()); all(n, es, "structured " + mc::show(es), true); }
}
MC_GROUP(scc_tournament) {
    int N = mc::T(5, 6); mc::bound("scc_tournament: all tournaments on 0..5 (thorough 6) vertices (in-degree input): components are the SCCs listed in topological order");
    for (int n = 1; n <= N; ++n) { E A; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) A.push_back({ i, j }); for (int s = 0; s < (1 << A.size()); ++s) { MC_CASE(n, s); vector<vector<char>> r(n, vector<char>(n)); vector<int> in(n); for (size_t i = 0; i < A.size(); ++i) { auto [u, v] = A[i]; if (s >> i & 1) swap(u, v); r[u][v] = 1; in[v]++; } for (int i = 0; i < n; ++i) r[i][i] = 1; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] |= r[i][k] & r[k][j]; auto sc = scc_tournament(in); vector<int> id(n, -1); for (int c = 0; c < (int)sc.size(); ++c) for (int v : sc[c]) { MC_EQ(id[v], -1, ""); id[v] = c; } for (int i = 0; i < n; ++i) { MC_CHECK(id[i] >= 0, mc::show(in)); for (int j = 0; j < n; ++j) { MC_EQ(id[i] == id[j], r[i][j] && r[j][i], mc::show(in)); if (r[i][j]) MC_CHECK(id[i] <= id[j], mc::show(in) + " topological"); } } } }
    MC_EQ(scc_tournament({}).size(), 0u, "empty");
}
MC_GROUP(subgraph_equality) { mc::bound("BiconnectedComponents::Subgraph ==/!= on every pair of (vertex list, edge list) with <=2 entries over 0..1"); mc::explore([&](mc::Chooser& c) { auto mk = [&] { BiconnectedComponents::Subgraph s; int a = c.range(0, 2), b = c.range(0, 2); while (a--) s.vids.push_back(c.choose(2)); while (b--) s.eids.push_back(c.choose(2)); return s; }; auto x = mk(), y = mk(); bool e = x.vids == y.vids && x.eids == y.eids; MC_EQ(x == y, e, "=="); MC_EQ(x != y, !e, "!="); MC_CHECK(x.vertex_num() == (int)x.vids.size() && x.edge_num() == (int)x.eids.size() && x.vertex_set() == x.vids && x.edge_set() == x.eids, "accessors"); mc::step(); }); }
MC_GROUP(medium_sizes) {
    mc::bound("n in {20,33,64,65,130}: path, cycle, caterpillar with cycles, chain of cliques, barbell ladders, scattered sparse graphs and disjoint unions, relabelled; deletion oracle as for the small graphs");
    for (int n : { 20, 33, 64, 65, 130 }) for (int kind = 0; kind < 7; ++kind) for (int rl = 0; rl < 2; ++rl) {
        if (n > 65 && (rl || kind == 3)) continue; MC_CASE(n, kind, rl); E es;
        if (kind <= 1) { for (int i = 0; i + 1 < n; ++i) es.push_back({ i, i + 1 }); if (kind) es.push_back({ n - 1, 0 }); }
        else if (kind == 2) { for (int i = 1; i < n; ++i) es.push_back({ i % 3 ? i - 1 : max(0, i - 3), i }); for (int i = 2; i < n; i += 5) es.push_back({ i, max(0, i - 2) }); }
        else if (kind == 3) { for (int b = 0; b < n; b += 4) { for (int i = b; i < min(n, b + 4); ++i) for (int j = b; j < i; ++j) es.push_back({ i, j }); if (b) es.push_back({ b, b - 1 }); } }
        else if (kind == 4) { for (int i = 0; i + 2 < n; i += 2) { es.push_back({ i, i + 2 }); if (i + 3 < n && i % 8 != 4) es.push_back({ i + 1, i + 3 }); } for (int i = 0; i + 1 < n; i += 2) es.push_back({ i, i + 1 }); }
        else if (kind == 5) { for (int i = 0; i < n; ++i) { int j = (i * 13 + 7) % n; if (i != j) es.push_back({ i, j }); } }
        else { for (int i = 0; i < n; ++i) if (i % 5 != 4 && i + 1 < n) es.push_back({ i, i + 1 }); for (int i = 0; i + 4 < n; i += 10) es.push_back({ i + 4, i }); for (int i = 7; i + 1 < n; i += 10) es.push_back({ i, i - 1 }); }
        if (rl) { int k = 7; while (__gcd(k, n) != 1) ++k; for (auto& [u, v] : es) u = (u * k + 3) % n, v = (v * k + 3) % n; reverse(es.begin(), es.end()); }
        all(n, es, "medium n=" + to_string(n) + " kind=" + to_string(kind), n <= 33);
    }
    for (int n : { 30, 64, 65, 129, 200 }) for (int kind = 0; kind < 3; ++kind) { MC_CASE(n, kind); int B = kind == 0 ? 1 : kind == 1 ? 7 : n; vector<int> in(n); vector<vector<char>> a(n, vector<char>(n)); int k = 7; while (__gcd(k, n) != 1) ++k; auto lab = [&](int i) { return i * k % n; }; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { bool fwd = i / B != j / B ? true : (i - j) * 2 <= min(B, n - i / B * B); int x = lab(fwd ? j : i), y = lab(fwd ? i : j); a[x][y] = 1; ++in[y]; } auto r = scc_tournament(in); vector<int> id(n, -1); int t = 0; for (auto& c : r) { for (int v : c) id[v] = t; ++t; } auto c = a; for (int q = 0; q < n; ++q) for (int i = 0; i < n; ++i) if (c[i][q]) for (int j = 0; j < n; ++j) c[i][j] |= c[q][j]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { MC_EQ(id[i] == id[j], c[i][j] && c[j][i], "scc of a tournament"); if (a[i][j]) MC_CHECK(id[i] <= id[j], "topological order"); } }
}
MC_GROUP(scc_tournament_huge) {
    mc::bound("tournaments on up to 100001 vertices (degree sums beyond 2^31): rotational (one component), transitive (n components), blocks of rotational tournaments in order");
    for (int n : { 1025, 4097, 46341, 65537, 92683, 100001 }) for (int b : { n, 1, 3, 1001, 65537 }) { if (b > n) continue; MC_CASE(n, b); vector<int> deg(n), blk(n); int k = 0, pos = 0; for (; pos < n; ++k) { int s = min(b, n - pos); if (s % 2 == 0) s = s > 1 ? s - 1 : 1; for (int i = 0; i < s; ++i) { int v = int((pos + i) * 12347LL % n); deg[v] = pos + (s - 1) / 2; blk[v] = k; } pos += s; }
        if (__gcd(12347, n) != 1) continue; auto c = scc_tournament(deg); MC_EQ((int)c.size(), k, "components"); size_t tot = 0; for (int i = 0; i < k; ++i) { tot += c[i].size(); for (int v : c[i]) if (blk[v] != i) mc::fail("vertex " + to_string(v) + " in the wrong component"); } MC_EQ((int)tot, n, "every vertex once"); mc::step(n); }
}
MC_MAIN
