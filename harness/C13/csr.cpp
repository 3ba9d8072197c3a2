#include "mc.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/cycle_detection.hpp"
using namespace suisen; using namespace std;
typedef vector<pair<int, int>> E; typedef tuple<int, int, int> WE;
template <class G> static vector<vector<int>> adj(const G& g) { vector<vector<int>> a(g.size()); for (int i = 0; i < g.size(); ++i) for (int v : g[i]) a[i].push_back(v); return a; }
static vector<vector<pair<int, int>>> wadj(const Graph<int>& g) { vector<vector<pair<int, int>>> a(g.size()); for (int i = 0; i < g.size(); ++i) for (auto& e : g[i]) a[i].push_back({ get<0>(e), get<1>(e) }); return a; }
// every constructor and a copy / move / assignment / container-relocation chain must give the same adjacency
template <class G> static G relocate(G g, int how) {
    switch (how) { case 0: return g; case 1: { vector<G> v; v.push_back(move(g)); v.push_back(v[0]); v.reserve(100); G r = v[1]; return r; } case 2: { G r; r = g; G q(move(r)); return q; } default: { auto p = make_unique<G>(g); G r = *p; p.reset(); return r; } }
}
MC_GROUP(construction) {
    mc::bound("Graph: every sequence of <= 4 arcs over 3 vertices (multi-arcs, self-loops), directed and undirected, weighted and not, all constructors/builders, reversed(), and copies/moves/relocations; adjacency in input order");
    int M = mc::T(3, 4); mc::explore([&](mc::Chooser& c) {
        int n = 3, m = c.range(0, M); E es; vector<WE> ws; for (int i = 0; i < m; ++i) { int u = c.choose(3), v = c.choose(3); es.push_back({ u, v }); ws.push_back({ u, v, 10 + i }); } mc::step(); string ctx = mc::show(es);
        vector<vector<int>> d(n), u(n), r(n); vector<vector<pair<int, int>>> wd(n), wu(n), wr(n); for (int i = 0; i < m; ++i) { auto [a, b] = es[i]; d[a].push_back(b); u[a].push_back(b); u[b].push_back(a); wd[a].push_back({ b, 10 + i }); wu[a].push_back({ b, 10 + i }); wu[b].push_back({ a, 10 + i }); }
        for (int i = 0; i < n; ++i) for (size_t k = 0; k < d[i].size(); ++k) { r[d[i][k]].push_back(i); wr[d[i][k]].push_back({ i, wd[i][k].second }); }
        Graph<void> g1(n, es, directed_graph_tag{}), g2(n, es, undirected_graph_tag{}); Graph<int> w1(n, ws, directed_graph_tag{}), w2(n, ws, undirected_graph_tag{});
        MC_EQ(adj(g1), d, ctx); MC_EQ(adj(g2), u, ctx); MC_EQ(wadj(w1), wd, ctx); MC_EQ(wadj(w2), wu, ctx);
        MC_EQ(adj(Graph<void>::create_directed_graph(n, es)), d, ctx); MC_EQ(adj(Graph<void>::create_undirected_graph(n, es)), u, ctx); MC_EQ(wadj(Graph<int>::create_undirected_graph(n, ws)), wu, ctx);
        MC_EQ(adj(Graph<void>(d)), d, ctx); MC_EQ(adj(g1.reversed()), r, ctx); MC_EQ(wadj(w1.reversed()), wr, ctx);
        { DirectedGraphBuilder<> b(n); b.add_edges(es); auto x = b.build_without_move(); MC_EQ(adj(x), d, ctx); b.emplace_edge(0, 2); auto y = b.build(); auto d2 = d; d2[0].push_back(2); MC_EQ(adj(y), d2, ctx); MC_EQ(adj(DirectedGraphBuilder<>::build(n, es)), d, ctx); }
        { UndirectedGraphBuilder<int> b(n); for (auto& e : ws) b.add_edge(e); MC_EQ(wadj(b.build()), wu, ctx); MC_EQ(wadj(UndirectedGraphBuilder<int>::build(n, ws)), wu, ctx); }
        for (int how = 0; how < 4; ++how) { { auto a = relocate(w1, how); a.shrink_to_fit(); MC_EQ(wadj(a), wd, ctx + " shrink directly after relocation"); } auto a = relocate(g1, how); MC_EQ(adj(a), d, ctx); auto b = relocate(w2, how); MC_EQ(wadj(b), wu, ctx); b.shrink_to_fit(); MC_EQ(wadj(b), wu, ctx + " shrink after relocation"); a.shrink_to_fit(); MC_EQ(adj(a), d, ctx); }
        for (int i = 0; i < n; ++i) { auto& l = w1[i]; MC_EQ(l.size(), (int)wd[i].size(), ctx); MC_EQ(l.empty(), wd[i].empty(), ctx); vector<int> rv; for (auto it = l.rbegin(); it != l.rend(); ++it) rv.push_back(*it); vector<int> wv(d[i].rbegin(), d[i].rend()); MC_EQ(rv, wv, ctx); for (int k = 0; k < l.size(); ++k) { MC_EQ(int(l[k]), d[i][k], ctx); MC_EQ(int(l.at(k)), d[i][k], ctx); MC_EQ(w1.get_weight(l[k]), wd[i][k].second, ctx); MC_EQ(l.data()[k].second, wd[i][k].second, ctx); } if (l.size()) { MC_EQ(int(l.front()), d[i][0], ctx); MC_EQ(int(l.back()), d[i].back(), ctx); } }
        MC_LOG(ctx);
    });
    MC_EQ(Graph<void>(0, E{}, directed_graph_tag{}).size(), 0, ""); MC_EQ(Graph<void>::get_weight(3), 1, "");
}
MC_GROUP(adjacent_list_edits) {
    int D = mc::T(3, 5); mc::bound("AdjacentList as a bounded vector inside the shared edge array: every history of <= 3 (thorough 5) edits (erase one/range, pop_back, clear, push_back, insert one/n/range/list, emplace) on the middle vertex; neighbours' lists stay untouched; shrink_to_fit anywhere");
    mc::explore([&](mc::Chooser& c) {
        vector<vector<int>> m{ { 1, 2 }, { 0, 2, 1, 0 }, { 1 } }; Graph<void> g(m); int cap = 4; string h;
        for (int s = 0; s < D; ++s) {
            int o = c.choose(10); auto& v = m[1]; auto l = [&]() -> auto& { return g[1]; }; int n = v.size();
            if (o == 0) { if (!n) return; int k = c.choose(n); l().erase(l().cbegin() + k); v.erase(v.begin() + k); h += " erase@" + to_string(k); }
            else if (o == 1) { int a = c.range(0, n), b = c.range(a, n); l().erase(l().cbegin() + a, l().cbegin() + b); v.erase(v.begin() + a, v.begin() + b); h += " erase[" + to_string(a) + "," + to_string(b); }
            else if (o == 2) { if (!n) return; l().pop_back(); v.pop_back(); h += " pop"; }
            else if (o == 3) { l().clear(); v.clear(); h += " clear"; }
            else if (o == 4) { if (n + 1 > cap) return; l().push_back(s); v.push_back(s); h += " push"; }
            else if (o == 5) { if (n + 1 > cap) return; int k = c.range(0, n); l().insert(l().cbegin() + k, s + 5); v.insert(v.begin() + k, s + 5); h += " ins@" + to_string(k); }
            else if (o == 6) { int q = c.range(0, 2); if (n + q > cap) return; int k = c.range(0, n); l().insert(l().cbegin() + k, q, s + 5); v.insert(v.begin() + k, q, s + 5); h += " insn@" + to_string(k); }
            else if (o == 7) { if (n + 2 > cap) return; int k = c.range(0, n); vector<int> x{ 7, 8 }; l().insert(l().cbegin() + k, x.begin(), x.end()); v.insert(v.begin() + k, x.begin(), x.end()); h += " insr@" + to_string(k); }
            else if (o == 8) { if (n + 1 > cap) return; if (c.flag()) { l().emplace_back(9); v.push_back(9); } else { int k = c.range(0, n); l().emplace(l().cbegin() + k, 9); v.insert(v.begin() + k, 9); } h += " emplace"; }
            else { g.shrink_to_fit(); cap = n; h += " shrink"; }
            mc::step(); MC_EQ(adj(g), m, h); MC_EQ(g[1].capacity(), cap, h); MC_EQ((int)(g[1].cend() - g[1].cbegin()), (int)v.size(), h);
        }
        MC_LOG(h);
    });
}
MC_GROUP(dfs_tree_undirected) {
    int N = mc::T(4, 5); mc::bound("dfs_tree: all undirected simple graphs on <= 4 (thorough 5) vertices and all multigraph edge sequences of length <= 4 on 3 vertices, weighted and unweighted, every start vertex, on relocated graphs: pre/post orders are DFS orders of the parent forest, tree edges are the parent edges, every other edge appears exactly once as descendant->ancestor back edge");
    auto check = [&](int n, const E& es, const vector<int>& w, int start, bool weighted, int how, const string& ctx) {
        auto run = [&](const auto& g) {
            auto t = g.dfs_tree(start); vector<int> pin(n, -1), pout(n, -1); MC_EQ((int)t.pre_ord.size(), n, ctx); for (int i = 0; i < n; ++i) pin[t.pre_ord[i]] = i, pout[t.pst_ord[i]] = i; for (int i = 0; i < n; ++i) MC_CHECK(pin[i] >= 0 && pout[i] >= 0, ctx); if (n) MC_EQ(t.pre_ord[0], start, ctx);
            multiset<tuple<int, int, int>> in, got; for (size_t i = 0; i < es.size(); ++i) in.insert({ min(es[i].first, es[i].second), max(es[i].first, es[i].second), weighted ? w[i] : 1 });
            auto anc = [&](int a, int d) { return pin[a] <= pin[d] && pout[a] >= pout[d]; };
            vector<int> par(n, -1); for (int u = 0; u < n; ++u) for (auto& e : t.tree[u]) { int v = e; MC_EQ(par[v], -1, ctx); par[v] = u; got.insert({ min(u, v), max(u, v), g.get_weight(e) }); MC_CHECK(anc(u, v), ctx + " tree edge order"); }
            MC_EQ(t.par, par, ctx + " par"); for (int u = 0; u < n; ++u) for (auto& e : t.back[u]) { int v = e; MC_CHECK(anc(v, u), ctx + " back edge goes to an ancestor"); got.insert({ min(u, v), max(u, v), g.get_weight(e) }); }
            MC_EQ(got, in, ctx + " every edge exactly once"); for (int i = 0; i < n; ++i) { int r = 0; for (int j = 0; j < n; ++j) r += j != i && anc(i, j) && (par[j] >= 0); (void)r; }
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool x = false; for (int k = j; k >= 0; k = par[k]) x |= k == i; MC_EQ(anc(i, j), x, ctx + " pre/post orders agree with the parent forest"); }
        };
        if (weighted) { vector<WE> ws; for (size_t i = 0; i < es.size(); ++i) ws.push_back({ es[i].first, es[i].second, w[i] }); auto g = relocate(Graph<int>::create_undirected_graph(n, ws), how); run(g); } else { auto g = relocate(Graph<void>::create_undirected_graph(n, es), how); run(g); }
    };
    for (int n = 1; n <= N; ++n) { E A; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) A.push_back({ i, j }); for (int s = 0; s < (1 << A.size()); ++s) for (int st = 0; st < n; ++st) { MC_CASE(n, s, st); E es; for (size_t i = 0; i < A.size(); ++i) if (s >> i & 1) es.push_back(A[i]); check(n, es, {}, st, false, s % 4, "n=" + to_string(n) + " " + mc::show(es) + " start=" + to_string(st)); } }
    mc::explore([&](mc::Chooser& c) { int m = c.range(0, mc::T(3, 4)); E es; vector<int> w; for (int i = 0; i < m; ++i) { int u = c.choose(3), v = (u + 1 + c.choose(2)) % 3; es.push_back({ u, v }); w.push_back(c.choose(2)); } int st = c.choose(3); mc::step(); check(3, es, w, st, true, c.choose(2) * 3, mc::show(es) + mc::show(w)); check(3, es, w, st, false, 0, mc::show(es)); });
    MC_EQ(Graph<void>(0, E{}, directed_graph_tag{}).dfs_tree().par.size(), 0u, "empty");
}
MC_GROUP(cycle_detection) {
    int N = mc::T(4, 5); mc::bound("get_cycle_directed: all digraphs on <= 4 vertices (self-loops on <= 3); get_cycle_undirected: all graphs on <= 4 (thorough 5) vertices, all multigraph sequences (self-loops, parallel edges, equal and different weights) of <= 4 edges on 3 vertices: nullopt iff acyclic, else a closed chain of distinct existing edges through distinct vertices");
    auto chk = [&](auto& g, bool directed, bool cyc, map<tuple<int, int, int>, int> avail, const string& ctx) {
        auto r = directed ? get_cycle_directed(g) : get_cycle_undirected(g); MC_EQ(r.has_value(), cyc, ctx); if (!r) return; int k = r->size(); MC_CHECK(k >= 1, ctx); set<int> vs; for (int i = 0; i < k; ++i) { int to = (*r)[i], from = (*r)[(i + k - 1) % k]; MC_CHECK(vs.insert(to).second, ctx + " vertex repeated"); int a = from, b = to; if (!directed && a > b) swap(a, b); tuple<int, int, int> key(a, b, g.get_weight((*r)[i])); MC_CHECK(avail[key]-- > 0, ctx + " uses a missing or already used edge"); }
    };
    for (int n = 1; n <= 4; ++n) { E A; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j || n <= 3) A.push_back({ i, j }); for (int s = 0; s < (1 << A.size()); ++s) { MC_CASE(n, s); E es; map<tuple<int, int, int>, int> av; vector<vector<char>> r(n, vector<char>(n)); for (size_t i = 0; i < A.size(); ++i) if (s >> i & 1) { es.push_back(A[i]); av[{ A[i].first, A[i].second, 1 }]++; r[A[i].first][A[i].second] = 1; } for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] |= r[i][k] & r[k][j]; bool cyc = false; for (int i = 0; i < n; ++i) cyc |= r[i][i]; auto g = Graph<void>::create_directed_graph(n, es); chk(g, true, cyc, av, mc::show(es)); } }
    auto und_cyc = [](int n, const E& es) { vector<int> p(n); iota(p.begin(), p.end(), 0); function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; for (auto [u, v] : es) { if (f(u) == f(v)) return true; p[f(u)] = f(v); } return false; };
    for (int n = 1; n <= N; ++n) { E A; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) A.push_back({ i, j }); for (int s = 0; s < (1 << A.size()); ++s) { MC_CASE(n, s); E es; map<tuple<int, int, int>, int> av; for (size_t i = 0; i < A.size(); ++i) if (s >> i & 1) { es.push_back(A[i]); av[{ A[i].first, A[i].second, 1 }]++; } auto g = Graph<void>::create_undirected_graph(n, es); chk(g, false, und_cyc(n, es), av, mc::show(es)); } }
    mc::explore([&](mc::Chooser& c) { int m = c.range(0, mc::T(3, 4)); E es; vector<WE> ws; map<tuple<int, int, int>, int> av, aw; for (int i = 0; i < m; ++i) { int u = c.choose(3), v = c.choose(3), w = c.choose(2); es.push_back({ u, v }); ws.push_back({ u, v, w }); av[{ min(u, v), max(u, v), 1 }]++; aw[{ min(u, v), max(u, v), w }]++; } mc::step(); bool cy = und_cyc(3, es); auto g = Graph<void>::create_undirected_graph(3, es); chk(g, false, cy, av, mc::show(es)); auto h = Graph<int>::create_undirected_graph(3, ws); chk(h, false, cy, aw, mc::show(ws)); });
}
MC_GROUP(adjacent_list_interface) {
    mc::bound("every sequence of <= 3 arcs over 2 vertices, weighted and unweighted: const and mutable element access, data(), front/back, all iterator ranges; writes through each mutable accessor");
    mc::explore([&](mc::Chooser& c) { int n = 2, m = c.range(0, 3); E es; vector<WE> ws; vector<vector<int>> a(n), aw(n); for (int i = 0; i < m; ++i) { int u = c.choose(2), v = c.choose(2); es.push_back({ u, v }); ws.push_back({ u, v, 10 + i }); a[u].push_back(v); aw[u].push_back(10 + i); } string ctx = mc::show(es);
        Graph<void> g(n, es, directed_graph_tag{}); Graph<int> w(n, ws, directed_graph_tag{}); const auto& cg = g; const auto& cw = w;
        for (int i = 0; i < n; ++i) { const auto& l = cg[i]; const auto& wl = cw[i]; int k = a[i].size(); MC_EQ(l.size(), k, ctx); MC_EQ(l.capacity() >= k, true, ctx); for (int j = 0; j < k; ++j) { MC_EQ(int(l.at(j)), a[i][j], ctx); MC_EQ(int(l[j]), a[i][j], ctx); MC_EQ(int(l.data()[j]), a[i][j], ctx); MC_EQ(int(wl.at(j)), a[i][j], ctx); MC_EQ(int(get<1>(wl.at(j))), aw[i][j], ctx); MC_EQ(int(get<1>(wl.data()[j])), aw[i][j], ctx); }
            if (k) { MC_EQ(int(l.front()), a[i][0], ctx); MC_EQ(int(l.back()), a[i][k - 1], ctx); MC_EQ(int(get<1>(wl.front())), aw[i][0], ctx); MC_EQ(int(get<1>(wl.back())), aw[i][k - 1], ctx); }
            vector<int> f, r, mf, mr; for (auto it = l.cbegin(); it != l.cend(); ++it) f.push_back(*it); for (auto it = wl.crbegin(); it != wl.crend(); ++it) r.push_back(get<1>(*it)); for (auto it = l.begin(); it != l.end(); ++it) mf.push_back(*it); for (auto it = l.rbegin(); it != l.rend(); ++it) mr.push_back(*it); MC_EQ(f, a[i], ctx); MC_EQ(mf, a[i], ctx); vector<int> x(aw[i].rbegin(), aw[i].rend()), y(a[i].rbegin(), a[i].rend()); MC_EQ(r, x, ctx); MC_EQ(mr, y, ctx); { vector<int> cr; for (auto it = l.crbegin(); it != l.crend(); ++it) cr.push_back(*it); MC_EQ(cr, y, ctx); }
            auto& ml = g[i]; for (int j = 0; j < k; ++j) { ml.at(j) = 100 + j; MC_EQ(int(cg[i][j]), 100 + j, ctx); ml.data()[j] = 200 + j; MC_EQ(int(cg[i][j]), 200 + j, ctx); ml[j] = 300 + j; MC_EQ(int(cg[i].at(j)), 300 + j, ctx); } if (k) { ml.front() = 7; MC_EQ(int(cg[i].at(0)), 7, ctx); ml.back() = 8; MC_EQ(int(cg[i].at(k - 1)), 8, ctx); } }
        mc::step(); });
}
MC_MAIN
