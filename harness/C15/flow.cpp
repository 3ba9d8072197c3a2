#include "mc.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/optimization/project_selection_problem.hpp"
#include "library/optimization/k_project_selection_problem.hpp"
using namespace suisen; using namespace std;
struct Ed { int u, v; int cap, cost; };
static string sh(const vector<Ed>& es) { string s; for (auto& e : es) s += "(" + to_string(e.u) + "->" + to_string(e.v) + " cap" + to_string(e.cap) + " cost" + to_string(e.cost) + ")"; return s; }
// every integral flow: best[f] = minimum cost of a flow of value f
static map<int, int> brute(int n, const vector<Ed>& es, int s, int t, bool& neg_cycle) {
    map<int, int> best; int m = es.size(); vector<int> x(m, 0); neg_cycle = false;
    while (true) {
        vector<int> ex(n); int c = 0; for (int i = 0; i < m; ++i) ex[es[i].u] -= x[i], ex[es[i].v] += x[i], c += x[i] * es[i].cost; bool ok = true; for (int v = 0; v < n; ++v) if (v != s && v != t && ex[v]) ok = false;
        if (ok) { int f = ex[t]; if (f == 0 && c < 0) neg_cycle = true; auto it = best.find(f); if (it == best.end() || c < it->second) best[f] = c; }
        int i = 0; while (i < m && ++x[i] > es[i].cap) x[i++] = 0; if (i == m) break;
    }
    return best;
}
typedef map<int, int> Best;
// the slope must be the exact lower-convex cost curve with strictly increasing slopes
template <class Sl> static void check_slope(const Sl& sl, const Best& best, int upto, const string& ctx) {
    MC_CHECK(sl.size() >= 1 && sl[0].first == 0 && sl[0].second == 0, ctx + " slope starts at (0,0)"); MC_EQ((long long)sl.back().first, (long long)upto, ctx + " flow value");
    for (size_t i = 0; i < sl.size(); ++i) { auto it = best.find((int)sl[i].first); MC_CHECK(it != best.end(), ctx); MC_EQ((long long)sl[i].second, (long long)it->second, ctx + " cost at flow " + to_string((int)sl[i].first)); if (i) { MC_CHECK(sl[i - 1].first < sl[i].first, ctx); for (int f = (int)sl[i - 1].first; f <= (int)sl[i].first; ++f) { long long num = (long long)(sl[i].second - sl[i - 1].second) * (f - (long long)sl[i - 1].first), den = (long long)(sl[i].first - sl[i - 1].first); MC_EQ((best.at(f) - (long long)sl[i - 1].second) * den, num, ctx + " linear piece"); } } if (i >= 2) { long long a = (long long)(sl[i - 1].second - sl[i - 2].second) * (long long)(sl[i].first - sl[i - 1].first), b = (long long)(sl[i].second - sl[i - 1].second) * (long long)(sl[i - 1].first - sl[i - 2].first); MC_CHECK(a < b, ctx + " strictly convex breakpoints"); } }
}
template <class G> static void check_edges(const G& g, int n, const vector<Ed>& es, int s, int t, int f, int c, const string& ctx) {
    auto ge = g.get_edges(); MC_EQ(ge.size(), es.size(), ctx); vector<long long> ex(n); long long cs = 0; for (size_t i = 0; i < es.size(); ++i) { auto e = g.get_edge(i); MC_CHECK(e.from == es[i].u && e.to == es[i].v && (int)e.cap == es[i].cap && (int)e.cost == es[i].cost, ctx + " get_edge"); MC_EQ((int)e.flow, (int)ge[i].flow, ctx); MC_CHECK(e.flow >= 0 && e.flow <= e.cap, ctx + " capacity"); ex[e.from] -= e.flow; ex[e.to] += e.flow; cs += e.flow * e.cost; } for (int v = 0; v < n; ++v) MC_EQ(ex[v], (long long)(v == t ? f : v == s ? -f : 0), ctx + " conservation"); MC_EQ(cs, (long long)c, ctx + " cost of the edge flows");
}
template <class Cap, class Cost, MCFPotentialInitializer I> static void run(int n, const vector<Ed>& es, int s, int t, const Best& best, const string& ctx) {
    typedef MinCostFlow<Cap, Cost, I> G; auto mk = [&] { G g(n); for (size_t i = 0; i < es.size(); ++i) MC_EQ(g.add_edge(es[i].u, es[i].v, es[i].cap, es[i].cost), (int)i, ctx); return g; };
    int mf = best.rbegin()->first, arb = 0; for (auto [f, c] : best) if (f >= 0 && c < best.at(arb)) arb = f;
    { G g = mk(); auto sl = g.min_cost_max_flow_slope(s, t); check_slope(sl, best, mf, ctx + " slope"); check_edges(g, n, es, s, t, mf, best.at(mf), ctx); }
    { G g = mk(); auto r = g.min_cost_max_flow(s, t); MC_EQ((int)r.first, mf, ctx); MC_EQ((int)r.second, best.at(mf), ctx); }
    { G g = mk(); auto r = g.min_cost_arbitrary_flow(s, t); MC_EQ((int)r.first, arb, ctx + " arbitrary flow value"); MC_EQ((int)r.second, best.at(arb), ctx + " arbitrary flow cost"); check_edges(g, n, es, s, t, arb, best.at(arb), ctx); }
    for (int f = 0; f <= mf + 1; ++f) { G g = mk(); auto sl = g.min_cost_max_flow_slope(s, t, f); int w = min(f, mf); check_slope(sl, best, w, ctx + " limited to " + to_string(f)); check_edges(g, n, es, s, t, w, best.at(w), ctx); G h = mk(); auto r = h.min_cost_max_flow(s, t, f); MC_EQ((int)r.first, w, ctx); MC_EQ((int)r.second, best.at(w), ctx);
        if (I != DAG) { auto r2 = h.min_cost_max_flow(s, t); MC_EQ((int)r2.first, mf - w, ctx + " remaining flow after limit " + to_string(f)); MC_EQ((int)r2.second, best.at(mf) - best.at(w), ctx + " remaining cost after limit " + to_string(f)); check_edges(h, n, es, s, t, mf, best.at(mf), ctx); } }
}
static void all(int n, const vector<Ed>& es, int s, int t, bool dag, const string& ctx) {
    bool neg; Best b = brute(n, es, s, t, neg); if (neg) return; bool nonneg = true; for (auto& e : es) nonneg &= e.cost >= 0; mc::step();
    run<int, int, BELLMAN_FORD>(n, es, s, t, b, ctx + " [BF]"); run<long long, int, BELLMAN_FORD>(n, es, s, t, b, ctx + " [BF cap=ll cost=int]"); if (nonneg) run<int, long long, DIJKSTRA>(n, es, s, t, b, ctx + " [Dijkstra]"); if (dag) run<long long, long long, DAG>(n, es, s, t, b, ctx + " [DAG]");
}
MC_GROUP(mcf_diamond) {
    mc::bound("MinCostFlow: diamond digraph 0->{1,2}->3 with chord 1->2 (and back chord), all capacities in {0,1,2} x costs in {-2,0,1,3} on 5 edges sampled exhaustively per axis (caps fixed, all costs; costs fixed, all caps); oracle: every integral flow");
    mc::explore([&](mc::Chooser& c) { vector<Ed> es = { { 0, 1, 1, 0 }, { 0, 2, 1, 0 }, { 1, 3, 1, 0 }, { 2, 3, 1, 0 }, { 1, 2, 1, 0 } }; int mode = c.choose(2); bool back = c.flag(); if (back) swap(es[4].u, es[4].v); static const int CP[3][5] = { { 2, 1, 1, 2, 1 }, { 2, 2, 2, 1, 2 }, { 1, 2, 2, 1, 1 } }, CS[3][5] = { { 1, 4, 4, 1, 1 }, { 2, -1, 0, 3, -2 }, { 0, 0, 0, 0, 0 } }; int w = c.choose(3); for (int i = 0; i < 5; ++i) { if (mode == 0) { es[i].cap = CP[w][i]; es[i].cost = c.pick({ -2, 0, 3 }); } else { es[i].cost = CS[w][i]; es[i].cap = c.choose(3); } } all(4, es, 0, 3, true, sh(es)); MC_LOG(sh(es)); });
}
MC_GROUP(mcf_sequences) {
    mc::bound("all edge sequences of length 3 (thorough 4) on 3 vertices (parallel, antiparallel, into s, out of t), caps {1,2}, costs {-1,0,2}; networks with a negative cycle are outside the contract and skipped");
    int m = mc::T(3, 4); static const int P[6][2] = { { 0, 1 }, { 1, 2 }, { 0, 2 }, { 1, 0 }, { 2, 1 }, { 2, 0 } };
    mc::explore([&](mc::Chooser& c) { vector<Ed> es; for (int i = 0; i < m; ++i) { int p = c.choose(6); int k = c.choose(m == 3 ? 6 : 4); es.push_back({ P[p][0], P[p][1], 1 + k % 2, k / 2 == 0 ? 0 : k / 2 == 1 ? 2 : -1 }); } bool dag = true; int msk = 0; for (auto& e : es) for (int q = 0; q < 6; ++q) if (e.u == P[q][0] && e.v == P[q][1]) msk |= 1 << q; if ((msk & 9) == 9 || (msk & 18) == 18 || (msk & 36) == 36 || (msk & (1 | 2 | 32)) == 35 || (msk & (4 | 16 | 8)) == 28) dag = false; all(3, es, 0, 2, dag, sh(es)); MC_LOG(sh(es)); });
}
MC_GROUP(mcf_augment_then_extend) {
    mc::bound("a second call after edges were added (vertices that were unreachable before become reachable), Bellman-Ford and Dijkstra initialisation, all splits of all 4-edge layered networks with costs {0,1,3}");
    static const int P[5][2] = { { 0, 1 }, { 1, 3 }, { 0, 2 }, { 2, 3 }, { 1, 2 } };
    mc::explore([&](mc::Chooser& c) { vector<Ed> es; for (int i = 0; i < 4; ++i) { int p = c.choose(5); es.push_back({ P[p][0], P[p][1], 1, c.pick({ 0, 1, 3 }) }); } int k = c.range(1, 3); bool neg; Best full = brute(4, es, 0, 3, neg); vector<Ed> h(es.begin(), es.begin() + k); Best half = brute(4, h, 0, 3, neg); mc::step();
        // total flow after both calls is maximum; with Bellman-Ford initialisation its cost is the optimal cost reachable by augmenting only if no negative residual cycle arises, so check the flow value, conservation and the reported cost difference
        MinCostFlow<int, long long> g(4); for (auto& e : h) g.add_edge(e.u, e.v, e.cap, e.cost); auto r1 = g.min_cost_max_flow(0, 3); MC_EQ(r1.first, half.rbegin()->first, sh(es)); MC_EQ((int)r1.second, half.rbegin()->second, sh(es)); for (size_t i = k; i < es.size(); ++i) g.add_edge(es[i].u, es[i].v, es[i].cap, es[i].cost);
        if (r1.first) return; // an existing flow may leave a negative residual cycle: outside the contract
        auto r2 = g.min_cost_max_flow(0, 3); MC_EQ(r2.first, full.rbegin()->first, sh(es) + " extended after edge " + to_string(k)); MC_EQ((int)r2.second, full.rbegin()->second, sh(es) + " extended after edge " + to_string(k)); check_edges(g, 4, es, 0, 3, r2.first, (int)r2.second, sh(es)); });
}
typedef ProjectSelection<long long> PS;
static void ps_check(PS& p, int n, const vector<long long>& w, const string& ctx) {
    long long best = *min_element(w.begin(), w.end()); auto [c, x] = p.min_cost(); MC_EQ(c, best, ctx + " min cost"); MC_EQ((int)x.size(), n, ctx); int m = 0; for (int i = 0; i < n; ++i) m |= (int)x[i] << i; MC_EQ(w[m], best, ctx + " assignment attains the minimum");
    auto r = p.max_profit(); MC_EQ(r.first, -best, ctx + " max profit (second call)"); m = 0; for (int i = 0; i < n; ++i) m |= (int)r.second[i] << i; MC_EQ(w[m], best, ctx + " second assignment");
}
MC_GROUP(project_selection_ops) {
    mc::bound("ProjectSelection: all sequences of 2 pairwise/global terms (17 kinds, costs -2..3 where allowed, all ordered item pairs) over 3 items on top of 4 unary backgrounds (thorough: 3 terms); oracle: all 2^n assignments");
    int n = 3; mc::explore([&](mc::Chooser& c) { PS p(n); vector<long long> w(8, 0); int bg = c.choose(4); static const int B[4][3][2] = { { { 0, 0 }, { 0, 0 }, { 0, 0 } }, { { 2, 0 }, { 0, 3 }, { 1, 2 } }, { { 0, 4 }, { 0, 1 }, { 2, 0 } }, { { -3, 1 }, { 2, -2 }, { -1, -1 } } }; for (int i = 0; i < 3; ++i) { p.add_cost(i, { B[bg][i][0], B[bg][i][1] }); for (int m = 0; m < 8; ++m) w[m] += B[bg][i][m >> i & 1]; } string d = "bg" + to_string(bg);
        int T = mc::T(2, 3); for (int t = 0; t < T; ++t) { int k = c.choose(17); int pr = k >= 5 && k < 12 ? c.choose(T == 3 ? 3 : 6) : k < 5 ? c.choose(3) : 0; static const int Q[6][2] = { { 0, 1 }, { 2, 0 }, { 1, 2 }, { 1, 0 }, { 0, 2 }, { 2, 1 } }; int i = k < 5 ? pr : Q[pr][0], j = Q[pr][1]; long long v = k < 5 ? (k == 4 ? -2 : 3) : 2; d += " op" + to_string(k) + "(" + to_string(i) + "," + to_string(j) + ")";
            auto f = [&](auto fn) { for (int m = 0; m < 8; ++m) w[m] += fn(m >> i & 1, m >> j & 1, m); };
            switch (k) {
            case 0: p.add_cost_0(i, v); f([&](int a, int, int) { return a ? 0 : v; }); break; case 1: p.add_cost_1(i, v); f([&](int a, int, int) { return a ? v : 0; }); break;
            case 2: p.add_profit_0(i, v); f([&](int a, int, int) { return a ? 0 : -v; }); break; case 3: p.add_profit_1(i, v); f([&](int a, int, int) { return a ? -v : 0; }); break; case 4: p.add_profit(i, { 1, v }); f([&](int a, int, int) { return a ? -v : -1; }); break;
            case 5: p.add_cost_01(i, j, v); f([&](int a, int b, int) { return !a && b ? v : 0; }); break; case 6: p.add_cost_10(i, j, v); f([&](int a, int b, int) { return a && !b ? v : 0; }); break; case 7: p.add_cost_not_same(i, j, v); f([&](int a, int b, int) { return a != b ? v : 0; }); break;
            case 8: p.add_profit_00(i, j, v); f([&](int a, int b, int) { return !a && !b ? -v : 0; }); break; case 9: p.add_profit_11(i, j, v); f([&](int a, int b, int) { return a && b ? -v : 0; }); break; case 10: p.add_profit_same(i, j, v); f([&](int a, int b, int) { return a == b ? -v : 0; }); break;
            case 11: { PS::CostFunc2 cf{ { { 1, 2 }, { -1, -3 } } }; p.add_profit(i, j, PS::CostFunc2{ { { -1, -2 }, { 1, 3 } } }); f([&](int a, int b, int) { return cf[a][b]; }); break; }
            case 12: p.add_cost(5); for (auto& x : w) x += 5; break; case 13: p.add_profit(7); for (auto& x : w) x -= 7; break;
            case 14: { vector<int> is{ 0, 1, 2 }; p.add_profit_all_0(is, v); for (int m = 0; m < 8; ++m) if (m == 0) w[m] -= v; break; } case 15: { vector<int> is{ 2, 0, 1 }; p.add_profit_all_1(is, v); w[7] -= v; break; }
            case 16: { vector<int> e0, e1{ 1 }, e2{ 0, 2 }; p.add_profit_all_0(e0, 1); p.add_profit_all_1(e0, 2); p.add_profit_all_0(e1, 2); p.add_profit_all_1(e1, 3); p.add_profit_all_0(e2, 1); p.add_profit_all_1(e2, 2); for (int m = 0; m < 8; ++m) w[m] -= 3 + (m & 2 ? 3 : 2) + ((m & 5) == 0 ? 1 : 0) + ((m & 5) == 5 ? 2 : 0); break; }
            } mc::step(); }
        ps_check(p, n, w, d); MC_LOG(d); });
}
MC_GROUP(project_selection_ternary) {
    mc::bound("3-ary submodular terms: all functions {0,1}^3 -> {0,1,2} that are submodular (thorough {0..3}), on 4 unary backgrounds and two item orders");
    int V = mc::T(3, 4); mc::explore([&](mc::Chooser& c) { long long f[8]; for (auto& x : f) x = c.choose(V); for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) if (f[a] + f[b] < f[a | b] + f[a & b]) return; int bg = c.choose(4), ord = c.choose(2); static const int B[4][3] = { { 0, 0, 0 }, { 1, -1, 1 }, { -1, 0, -2 }, { 2, 1, 1 } }; PS p(4); size_t I[3]; for (int i = 0; i < 3; ++i) I[i] = ord ? 3 - i : i; PS::CostFunc3 cf; for (int m = 0; m < 8; ++m) cf[m & 1][m >> 1 & 1][m >> 2] = f[m]; for (int i = 0; i < 3; ++i) p.add_cost_1(I[i], B[bg][i]); p.add_cost(I[0], I[1], I[2], cf); vector<long long> w(16); for (int m = 0; m < 16; ++m) { int q = (m >> I[0] & 1) | (m >> I[1] & 1) << 1 | (m >> I[2] & 1) << 2; w[m] = f[q]; for (int i = 0; i < 3; ++i) if (q >> i & 1) w[m] += B[bg][i]; } mc::step(); ps_check(p, 4, w, "f=" + mc::show(vector<long long>(f, f + 8)) + " bg" + to_string(bg)); });
}
MC_GROUP(k_project_selection) {
    mc::bound("KProjectSelection: 2 and 3 items with k in 1..3, all unary costs in {-1,0,2} (subset) and all Monge pair costs generated from row/column offsets and non-positive second differences; oracle: all assignments");
    mc::explore([&](mc::Chooser& c) { vector<int> ks{ c.range(1, 3), c.range(1, 3) }; int third = c.choose(2); if (third) ks.push_back(2); typedef KProjectSelection<long long> K; K p(ks); vector<vector<long long>> u; for (int k : ks) { vector<long long> x(k); for (auto& y : x) y = c.pick({ -1, 2 }); u.push_back(x); } p.add_cost(0, u[0]); { auto x = u[1]; for (auto& y : x) y = -y; p.add_profit(1, x); } if (third) p.add_cost(2, u[2]);
        vector<vector<long long>> m(ks[0], vector<long long>(ks[1])); int off = c.choose(2), dd = ks[0] > 1 && ks[1] > 1 ? c.choose(4) : 0; for (int a = 0; a < ks[0]; ++a) for (int b = 0; b < ks[1]; ++b) { m[a][b] = off * (a * a - 2 * b); m[a][b] -= dd == 0 ? 0 : dd == 1 ? a * b : dd == 2 ? (a >= 1 && b >= 1 ? 2 : 0) : (a == ks[0] - 1 && b == ks[1] - 1 ? 3 : 0); } p.add_cost(0, 1, m); vector<vector<long long>> m2; if (third) { m2.assign(2, vector<long long>(ks[0])); for (int a = 0; a < 2; ++a) for (int b = 0; b < ks[0]; ++b) m2[a][b] = -a * b + b; p.add_cost(2, 0, m2); } p.add_cost(3); p.add_profit(1); mc::step();
        auto val = [&](const vector<int>& x) { long long s = 2 + m[x[0]][x[1]]; for (size_t i = 0; i < ks.size(); ++i) s += u[i][x[i]]; if (third) s += m2[x[2]][x[0]]; return s; }; long long best = LLONG_MAX; for (int a = 0; a < ks[0]; ++a) for (int b = 0; b < ks[1]; ++b) for (int d = 0; d < (third ? 2 : 1); ++d) { vector<int> x{ a, b }; if (third) x.push_back(d); best = min(best, val(x)); }
        string ctx = "ks=" + mc::show(ks) + " unary=" + mc::show(u) + " pair=" + mc::show(m); auto [co, x] = p.min_cost(); MC_EQ(co, best, ctx); MC_EQ(x.size(), ks.size(), ctx); for (size_t i = 0; i < ks.size(); ++i) MC_CHECK(0 <= x[i] && x[i] < ks[i], ctx); MC_EQ(val(x), best, ctx + " argmin " + mc::show(x)); auto r = p.max_profit(); MC_EQ(r.first, -best, ctx); MC_EQ(val(r.second), best, ctx); MC_LOG(ctx); });
    KProjectSelection<long long> q(2, 3); q.add_cost(0, { 3, 1, 2 }); q.add_cost(1, { 0, 5, -1 }); auto r = q.min_cost(); MC_EQ(r.first, 0LL, ""); MC_EQ(r.second, (vector<int>{ 1, 2 }), "");
}
// independent oracle: successive shortest paths with Bellman-Ford on an adjacency matrix of edge lists, one augmentation at a time, 128-bit costs
typedef __int128 L128;
struct BE { int u, v; long long cap; long long cost; };
static pair<long long, L128> ssp(int n, const vector<BE>& es, int s, int t) {
    struct A { int u, v; long long c; long long w; }; vector<A> a; for (auto& e : es) { a.push_back({ e.u, e.v, e.cap, e.cost }); a.push_back({ e.v, e.u, 0, -e.cost }); }
    long long f = 0; L128 c = 0; const L128 INF = (L128)1 << 100;
    while (true) { vector<L128> d(n, INF); vector<int> p(n, -1); d[s] = 0; for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < a.size(); ++i) if (a[i].c > 0 && d[a[i].u] < INF && d[a[i].u] + a[i].w < d[a[i].v]) d[a[i].v] = d[a[i].u] + a[i].w, p[a[i].v] = i, ch = true; } if (d[t] == INF) break; long long b = LLONG_MAX; for (int v = t; v != s; v = a[p[v]].u) b = min(b, a[p[v]].c); for (int v = t; v != s; v = a[p[v]].u) a[p[v]].c -= b, a[p[v] ^ 1].c += b; f += b; c += (L128)b * d[t]; }
    return { f, c };
}
template <class Cap, class Cost, MCFPotentialInitializer I> static void big_run(int n, const vector<BE>& es, int s, int t, pair<long long, L128> w, const string& ctx) {
    MinCostFlow<Cap, Cost, I> g(n); for (auto& e : es) g.add_edge(e.u, e.v, e.cap, e.cost); auto r = g.min_cost_max_flow(s, t); MC_EQ((long long)r.first, w.first, ctx + " flow value"); MC_CHECK((L128)r.second == w.second, ctx + " flow cost " + to_string((long long)r.second) + " want " + to_string((long long)w.second));
    vector<long long> ex(n); L128 c = 0; for (auto& e : g.get_edges()) { MC_CHECK(e.flow >= 0 && e.flow <= e.cap, ctx + " capacity"); ex[e.from] -= e.flow; ex[e.to] += e.flow; c += (L128)e.flow * e.cost; } for (int v = 0; v < n; ++v) MC_EQ(ex[v], v == s ? -w.first : v == t ? w.first : 0LL, ctx + " conservation"); MC_CHECK(c == w.second, ctx + " cost of the edge flows"); mc::step();
}
MC_GROUP(mcf_medium) {
    mc::bound("layered networks, grids and bipartite assignment networks with 10..260 vertices; costs up to 10^13 and capacities up to 10^6 in 64-bit types, 32-bit costs with distances up to 10^9; all three potential initialisers; oracle: one-path-at-a-time Bellman-Ford with 128-bit costs");
    for (int n : { 10, 17, 40, mc::T(130, 130), mc::T(130, 260) }) for (int kind = 0; kind < 5; ++kind) for (int mag = 0; mag < 2; ++mag) { MC_CASE(n, kind, mag); vector<BE> es; long long C = mag ? 10000000000000LL : 1; auto w = [&](int i, int j) { return (long long)((i * 131 + j * 71 + i * j * 17) % 23) * C + (mag ? (i ^ j) : 0); };
        if (kind == 0 && mag) C = 1000000000;
        if (kind == 0) for (int i = 0; i < n; ++i) for (int j : { i + 1, i + 2, i + 7 }) if (j < n) es.push_back({ i, j, (i * 7 + j * 3) % 5 + (mag ? 1000000LL * (j % 3) : 0), w(i, j) });
        if (kind == 1) for (int i = 0; i + 1 < n; ++i) { es.push_back({ i, i + 1, 3, w(i, i + 1) - 5 * C }); if (i + 5 < n) es.push_back({ i, i + 5, 2, w(i, i + 5) }); if (i % 4 == 0) es.push_back({ i, n - 1, 1, w(i, n) + 50 * C }); }
        if (kind == 2) { int k = 1; while ((k + 1) * (k + 1) <= n) ++k; for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { int v = i * k + j; if (j + 1 < k) { es.push_back({ v, v + 1, 1 + (i + j) % 3, w(v, v + 1) }); es.push_back({ v + 1, v, 1 + i % 2, w(v + 1, v) }); } if (i + 1 < k) { es.push_back({ v, v + k, 1 + (i * j) % 2, w(v, v + k) }); es.push_back({ v + k, v, 1, w(v + k, v) }); } } swap(es.front(), es.back()); if (k * k != n) es.push_back({ k * k - 1, n - 1, 9, C }); }
        if (kind == 3) { int k = (n - 2) / 2; for (int i = 0; i < k; ++i) { es.push_back({ 0, 1 + i, 1, 0 }); es.push_back({ 1 + k + i, n - 1, 1, 0 }); for (int d = 0; d < min(k, 9); ++d) { int j = (i * 5 + d * d) % k; es.push_back({ 1 + i, 1 + k + j, 1, w(i, j) }); } } }
        if (kind == 4) for (int i = 0; i < n; ++i) for (int j : { (i * 2 + 1) % n, (i * 3 + 2) % n, (i + n - 1) % n }) if (j != i) es.push_back({ i, j, 1 + (i + j) % 4, w(i, j) });
        bool neg = kind == 1, dag = kind == 0 || kind == 1 || kind == 3; auto o = ssp(n, es, 0, n - 1); string ctx = "network n=" + to_string(n) + " kind=" + to_string(kind) + " magnitude=" + to_string(mag);
        if (n <= 40 || !mag) big_run<long long, long long, BELLMAN_FORD>(n, es, 0, n - 1, o, ctx + " [BF]"); if (!neg) big_run<int, long long, DIJKSTRA>(n, es, 0, n - 1, o, ctx + " [Dijkstra]"); if (dag) big_run<long long, long long, DAG>(n, es, 0, n - 1, o, ctx + " [DAG]"); if (!mag) big_run<int, int, BELLMAN_FORD>(n, es, 0, n - 1, o, ctx + " [int]"); mc::outcome(o.first); }
}
MC_GROUP(project_selection_mid) {
    mc::bound("ProjectSelection on paths of 5..60 items (every n to 20, then a ladder) with unary and pairwise submodular terms of five kinds and block profits on disjoint blocks, KProjectSelection on paths of 3..12 items with k 2..12: oracle dynamic programming along the path");
    for (int n = 5; n <= 60; n += n < 20 ? 1 : 10) for (int kind = 0; kind < 5; ++kind) { MC_CASE(n, kind); PS p(n); vector<array<long long, 2>> u(n); vector<array<array<long long, 2>, 2>> b(n); auto rnd = [&](int i, int k) { return (long long)((i * 37 + k * 11 + kind * 5 + i * i * 3) % 13); }; for (int i = 0; i < n; ++i) { u[i] = { rnd(i, 1) - 6, rnd(i, 2) - 6 }; if (kind == 1) p.add_profit(i, { -u[i][0], -u[i][1] }); else if (kind == 2) p.add_cost_0(i, u[i][0]), p.add_cost_1(i, u[i][1]); else if (kind == 3) p.add_profit_0(i, -u[i][0]), p.add_profit_1(i, -u[i][1]); else p.add_cost(i, { u[i][0], u[i][1] }); }
        for (int i = 0; i + 1 < n; ++i) { auto& m = b[i]; m = {}; long long v = rnd(i, 3); int t = (i + kind) % 6; size_t x = i, y = i + 1; switch (t) { case 0: p.add_cost_01(x, y, v); m[0][1] = v; break; case 1: p.add_cost_10(x, y, v); m[1][0] = v; break; case 2: p.add_cost_not_same(x, y, v); m[0][1] = m[1][0] = v; break; case 3: p.add_profit_00(x, y, v); m[0][0] = -v; break; case 4: p.add_profit_11(x, y, v); m[1][1] = -v; break; default: p.add_profit_same(x, y, v); m[0][0] = m[1][1] = -v; } }
        auto val = [&](auto&& x) { long long s = 0; for (int i = 0; i < n; ++i) { s += u[i][x[i]]; if (i + 1 < n) s += b[i][x[i]][x[i + 1]]; } return s; }; array<long long, 2> d = u[0]; for (int i = 0; i + 1 < n; ++i) { array<long long, 2> e; for (int y = 0; y < 2; ++y) e[y] = min(d[0] + b[i][0][y], d[1] + b[i][1][y]) + u[i + 1][y]; d = e; } long long best = min(d[0], d[1]); auto [c, x] = p.min_cost(); string ctx = "path of " + to_string(n) + " kind " + to_string(kind); MC_EQ(c, best, ctx); vector<int> z(x.begin(), x.end()); MC_EQ((int)z.size(), n, ctx); MC_EQ(val(z), best, ctx + " assignment"); MC_EQ(p.max_profit().first, -best, ctx + " max_profit"); mc::step(); }
    // disjoint blocks with all-0 / all-1 profits: each block is solved independently
    for (int k = 2; k <= 9; ++k) for (int blocks : { 1, 4, 9 }) { MC_CASE(k, blocks, 9); int n = k * blocks; PS p(n); vector<long long> u(n); for (int i = 0; i < n; ++i) { u[i] = (i * 7 + k) % 9 - 4; p.add_cost_1(i, u[i]); } long long best = 0; for (int q = 0; q < blocks; ++q) { vector<int> is; for (int i = 0; i < k; ++i) is.push_back(q * k + (i * 3 + 1) % k); sort(is.begin(), is.end()); is.erase(unique(is.begin(), is.end()), is.end()); if ((int)is.size() < k) { is.clear(); for (int i = k; i--;) is.push_back(q * k + i); } long long a = 3 + q % 4, c = 2 + q % 5; p.add_profit_all_0(is, a); p.add_profit_all_1(is, c); long long bb = LLONG_MAX; for (int m = 0; m < 1 << k; ++m) { long long s = 0; for (int i = 0; i < k; ++i) if (m >> i & 1) s += u[q * k + i]; if (m == 0) s -= a; if (m == (1 << k) - 1) s -= c; bb = min(bb, s); } best += bb; } auto [c, x] = p.min_cost(); MC_EQ(c, best, "blocks of " + to_string(k)); MC_EQ((int)x.size(), n, "assignment covers the items only"); mc::step(); }
    for (int n : { 3, 5, 8, 12 }) for (int k : { 2, 3, 5, 8, 12 }) for (int kind = 0; kind < 3; ++kind) { MC_CASE(n, k, kind, 3); vector<int> ks(n); for (int i = 0; i < n; ++i) ks[i] = kind == 2 ? 1 + (i * 5 + k) % k : k; typedef KProjectSelection<long long> K; K p(ks); vector<vector<long long>> u(n); vector<vector<vector<long long>>> m(n); for (int i = 0; i < n; ++i) { for (int a = 0; a < ks[i]; ++a) u[i].push_back((i * 11 + a * 7 + a * a * kind) % 17 - 8); p.add_cost(i, u[i]); } for (int i = 0; i + 1 < n; ++i) { m[i].assign(ks[i], vector<long long>(ks[i + 1])); for (int a = 0; a < ks[i]; ++a) for (int b = 0; b < ks[i + 1]; ++b) m[i][a][b] = kind == 0 ? abs(a - b) : kind == 1 ? (a - b) * (a - b) : -(long long)a * b + i * a; p.add_cost(i, i + 1, m[i]); }
        vector<long long> d = u[0]; for (int i = 0; i + 1 < n; ++i) { vector<long long> e(ks[i + 1], LLONG_MAX); for (int b = 0; b < ks[i + 1]; ++b) { for (int a = 0; a < ks[i]; ++a) e[b] = min(e[b], d[a] + m[i][a][b]); e[b] += u[i + 1][b]; } d = e; } long long best = *min_element(d.begin(), d.end()); auto [c, x] = p.min_cost(); string ctx = "k-path n=" + to_string(n) + " k=" + to_string(k) + " kind " + to_string(kind); MC_EQ(c, best, ctx); MC_EQ((int)x.size(), n, ctx); long long s = 0; for (int i = 0; i < n; ++i) { MC_CHECK(0 <= x[i] && x[i] < ks[i], ctx); s += u[i][x[i]]; if (i + 1 < n) s += m[i][x[i]][x[i + 1]]; } MC_EQ(s, best, ctx + " assignment"); mc::step(); }
}
MC_MAIN
