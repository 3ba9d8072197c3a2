#include "mc.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/manhattan_mst.hpp"
#include "library/graph/manhattan_minimum_distances.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
using namespace suisen; using namespace std;
typedef vector<pair<int, int>> E;
struct WE { int u, v, w; };
static string sh(const vector<WE>& es) { string s; for (auto& e : es) s += "(" + to_string(e.u) + "-" + to_string(e.v) + ":" + to_string(e.w) + ")"; return s; }
// optimum over all maximal forests (all edge subsets)
static pair<int, long long> brute(int n, const vector<WE>& es, bool mx) {
    int m = es.size(), best_k = -1; long long best = 0; for (int s = 0; s < (1 << m); ++s) { vector<int> p(n); iota(p.begin(), p.end(), 0); function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; bool ok = true; long long w = 0; int k = 0; for (int i = 0; i < m && ok; ++i) if (s >> i & 1) { int a = f(es[i].u), b = f(es[i].v); if (a == b) ok = false; else p[a] = b, w += es[i].w, ++k; } if (!ok) continue; if (k > best_k || (k == best_k && (mx ? w > best : w < best))) best_k = k, best = w; } return { best_k, best };
}
template <class K> static void check_k(K& k, bool built, int n, const vector<WE>& es, bool mx, const string& ctx) {
    auto [cnt, w] = brute(n, es, mx); MC_EQ(built, n == 0 || cnt == n - 1, ctx + " connected"); MC_EQ((long long)k.get_weight(), w, ctx + " weight"); auto t = k.get_mst(); MC_EQ((int)t.size(), cnt, ctx + " forest edges"); multiset<tuple<int, int, int>> av; for (auto& e : es) av.insert({ e.u, e.v, e.w }); long long s = 0; vector<int> p(n); iota(p.begin(), p.end(), 0); function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); }; for (size_t i = 0; i < t.size(); ++i) { auto [a, b, c] = t[i]; auto it = av.find({ a, b, (int)c }); MC_CHECK(it != av.end(), ctx + " edge of the input"); av.erase(it); MC_CHECK(f(a) != f(b), ctx + " acyclic"); p[f(a)] = f(b); s += c; if (i) { if (mx) MC_CHECK(get<2>(t[i - 1]) >= c, ctx + " sorted"); else MC_CHECK(get<2>(t[i - 1]) <= c, ctx + " sorted"); } } MC_EQ(s, w, ctx);
}
MC_GROUP(kruskal) {
    mc::bound("Kruscal minimum/maximum spanning forest: all edge sequences of length <= 4 (thorough 5) with weights in {-1,0,2} on 3 vertices (self-loops, parallel), length 4 on 4 vertices with weights {0,1}, with build() again after added edges; oracle: all edge subsets");
    auto go = [&](int n, const vector<WE>& es, int mid) { KruscalMinimumSpanningTree<int> a(n); KruscalMaximumSpanningTree<long long> b(n); string ctx = sh(es) + " mid=" + to_string(mid); for (int i = 0; i <= (int)es.size(); ++i) { if (i == mid) { bool x = a.build(), y = b.build(); vector<WE> h(es.begin(), es.begin() + i); check_k(a, x, n, h, false, ctx + " partial"); check_k(b, y, n, h, true, ctx + " partial"); } if (i < (int)es.size()) { if (i % 2) a.add_edge(es[i].u, es[i].v, es[i].w); else a.add_edge({ es[i].u, es[i].v, es[i].w }); b.add_edge(es[i].u, es[i].v, es[i].w); } } bool x = a.build(), y = b.build(); check_k(a, x, n, es, false, ctx); check_k(b, y, n, es, true, ctx + " max"); };
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 3), m = c.range(0, mc::T(3, 4)); vector<WE> es; for (int i = 0; i < m; ++i) { int u = c.choose(n), v = c.choose(n); es.push_back({ u, v, c.pick({ -1, 0, 2 }) }); } int mid = m ? c.range(0, m) : 0; mc::step(); go(n, es, mid); MC_LOG(sh(es)); });
    mc::explore([&](mc::Chooser& c) { vector<WE> es; static const int P[6][2] = { { 0, 1 }, { 2, 0 }, { 0, 3 }, { 1, 2 }, { 3, 1 }, { 2, 3 } }; for (int i = 0; i < 6; ++i) { int w = c.choose(4); if (w) es.push_back({ P[i][0], P[i][1], w }); } mc::step(); go(4, es, -1); });
    KruscalMinimumSpanningTree<int> z; MC_CHECK(z.build(), "n=0"); MC_EQ(z.get_weight(), 0, "n=0");
}
template <class T> static T md(pair<T, T> a, pair<T, T> b) { return (a.first > b.first ? a.first - b.first : b.first - a.first) + (a.second > b.second ? a.second - b.second : b.second - a.second); }
template <class T, class W> static void man(const vector<pair<T, T>>& p, const string& ctx) {
    int n = p.size(); auto mst = manhattan_mst<W, T>(p); // Prim
    W w = 0; vector<T> d(n); vector<char> in(n); for (int k = 0; k < n; ++k) { int b = -1; for (int i = 0; i < n; ++i) if (!in[i] && (b < 0 || k == 0 || d[i] < d[b])) { b = i; if (k == 0) break; } in[b] = 1; if (k) w += d[b]; for (int i = 0; i < n; ++i) if (!in[i] && (k == 0 || md(p[i], p[b]) < d[i])) d[i] = md(p[i], p[b]); }
    MC_EQ(mst.get_weight(), w, ctx + " manhattan mst weight"); auto es = mst.get_mst(); MC_EQ((int)es.size(), max(0, n - 1), ctx); vector<int> q(n); iota(q.begin(), q.end(), 0); function<int(int)> f = [&](int x) { return q[x] == x ? x : q[x] = f(q[x]); }; for (auto [a, b, c] : es) { MC_CHECK(a >= 0 && a < n && b >= 0 && b < n && f(a) != f(b), ctx + " spanning"); q[f(a)] = f(b); MC_EQ((W)md(p[a], p[b]), (W)c, ctx + " edge length"); }
    auto r = manhattan_minimum_distances<T>(p); MC_EQ((int)r.size(), n, ctx); for (int i = 0; i < n; ++i) { T b = numeric_limits<T>::max(); for (int j = 0; j < n; ++j) if (j != i) b = min(b, md(p[i], p[j])); MC_EQ(r[i], b, ctx + " nearest distance of point " + to_string(i)); }
}
MC_GROUP(manhattan) {
    mc::bound("manhattan_mst and manhattan_minimum_distances: all point sequences (duplicates, collinear) of 0..4 points on a 3x3 grid centred at the origin and 5 points on 2x2 (thorough: 5 points on 3x3, subsampled by symmetry-free enumeration), int / long long (scaled 10^9) / double; oracle: Prim and all pairs");
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(4, 5)); vector<pair<int, int>> p; for (int i = 0; i < n; ++i) { int k = c.choose(9); p.push_back({ k % 3 - 1, k / 3 - 1 }); } mc::step(); string ctx = mc::show(p); man<int, int>(p, ctx); if (n <= 3) { vector<pair<long long, long long>> q; vector<pair<double, double>> d; for (auto [x, y] : p) q.push_back({ x * 1000000000LL + y, y * 1000000000LL - x }), d.push_back({ x * 0.5, y * 0.25 }); man<long long, long long>(q, mc::show(q)); man<double, double>(d, mc::show(d) + " double"); } MC_LOG(ctx); });
    for (int s = 0; s < 400; ++s) { MC_CASE(s); int n = 6 + s % 5; vector<pair<int, int>> p; for (int i = 0; i < n; ++i) p.push_back({ (i * i * 3 + i * s + s / 7) % 11 - 5, (i * 5 + i * i * (s % 4) + s / 3) % 13 - 6 }); man<int, long long>(p, mc::show(p)); vector<pair<double, double>> d; for (auto [x, y] : p) d.push_back({ x * 0.5, y * 2.0 }); man<double, double>(d, mc::show(d) + " double"); }
}
static string cat(string a, string b) { return a + b; }
static string ce() { return ""; }
MC_GROUP(functional_graph) {
    mc::bound("FunctionalGraph: all maps on 1..4 points (thorough 5): doubling query for all d <= max_step with max_step in {0,1,2,3,5,8} (and 10^18, 2^62, 2^63-1), max_step / step_until with every monotone step threshold, DoublingSum over strings (non-commutative), infinite_paths, kth_iterate for k in 0..12 and huge k");
    int N = mc::T(4, 5); for (int n = 1; n <= N; ++n) mc::explore([&](mc::Chooser& c) {
        vector<int> f(n); for (int& x : f) x = c.choose(n); string ctx = mc::show(f); mc::step(); FunctionalGraph g(f), g2(n); for (int i = 0; i < n; ++i) { g2[i] = f[i]; MC_EQ(((const FunctionalGraph&)g)[i], f[i], ctx); }
        auto it = [&](int u, long long k) { if (k > 1000) k = 60 + k % 60; for (; k; --k) u = f[u]; return u; }; // 60 = multiple of every cycle length <= 5
        vector<string> lab{ "a", "b", "c", "d", "e" }; lab.resize(n);
        for (long long ms : { 0LL, 1LL, 2LL, 3LL, 5LL, 8LL }) { auto d = g2.doubling(ms); auto ds = g2.doubling<string, cat, ce>(ms, lab); for (int u = 0; u < n; ++u) for (int k = 0; k <= ms; ++k) { MC_EQ(d.query(u, k), it(u, k), ctx + " query"); string s; int v = u; for (int i = 0; i < k; ++i) s += lab[v], v = f[v]; auto r = ds.query(u, k); MC_EQ(r.v, v, ctx); MC_EQ(r.sum, s, ctx + " sum"); pair<int, string> pr = r; MC_EQ(pr.second, s, ctx); } 
            // predicates on the accumulated sum: length < L  (monotone along every walk)
            for (int L = 1; L <= ms; ++L) for (int u = 0; u < n; ++u) { auto r = ds.max_step(u, [&](const string& s) { return (int)s.size() < L; }); string s; int v = u; for (int i = 0; i < L - 1; ++i) s += lab[v], v = f[v]; MC_EQ(r.step, (long long)L - 1, ctx + " sum max_step"); MC_EQ(r.v, v, ctx); MC_EQ(r.sum, s, ctx); auto q = ds.step_until(u, [&](const string& x) { return (int)x.size() >= L; }); MC_CHECK(q.has_value(), ctx); s += lab[v]; v = f[v]; MC_EQ(q->step, (long long)L, ctx + " sum step_until"); MC_EQ(q->v, v, ctx); MC_EQ(q->sum, s, ctx); auto z = ds.step_until(u, [&](const string&) { return true; }); MC_CHECK(z && z->step == 0 && z->v == u && z->sum == "", ctx); MC_CHECK(!ds.step_until(u, [&](const string&) { return false; }), ctx + " never"); tuple<int, string, long long> tt = *q; MC_EQ(get<2>(tt), (long long)L, ctx); } 
            // predicates on vertices: membership in a set closed under f
            for (int S = 0; S < (1 << n); ++S) { bool closed = true; for (int v = 0; v < n; ++v) if (S >> v & 1 && !(S >> f[v] & 1)) closed = false; if (!closed) continue; for (int u = 0; u < n; ++u) { int k = 0, v = u; while (k <= n && !(S >> v & 1)) v = f[v], ++k; auto r = d.step_until(u, [&](int x) { return S >> x & 1; }); long long cap = 1; while (cap * 2 <= ms) cap *= 2; cap = cap * 2 - 1; if (k > n) MC_CHECK(!r.has_value(), ctx + " unreachable"); else if (k <= max(1LL, ms)) { MC_CHECK(r.has_value(), ctx + " step_until"); MC_EQ(r->step, (long long)k, ctx); MC_EQ(r->v, v, ctx); } if (k > 0 && k <= n && k - 1 <= max(1LL, ms)) { auto q = d.max_step(u, [&](int x) { return !(S >> x & 1); }); MC_EQ(q.step, (long long)k - 1, ctx + " max_step"); MC_EQ(q.v, it(u, k - 1), ctx); pair<int, long long> pr = q; MC_EQ(pr.second, (long long)k - 1, ctx); } } } }
        for (long long ms : { 1000000000000000000LL, 1LL << 62, LLONG_MAX }) { auto d = g.doubling(ms); for (int u = 0; u < n; ++u) for (long long k : { ms, ms - 1, ms / 3, 7LL, 0LL }) MC_EQ(d.query(u, k), it(u, k), ctx + " large query " + to_string(k)); }
        auto ip = g.infinite_paths(); MC_EQ((int)ip.size(), n, ctx); for (int u = 0; u < n; ++u) { vector<int> seen(n, -1); int v = u, t = 0; while (seen[v] < 0) seen[v] = t++, v = f[v]; MC_EQ(ip[u].head_v, u, ctx); MC_EQ(ip[u].head_len, seen[v], ctx + " head_len of " + to_string(u)); MC_EQ(ip[u].loop_v, v, ctx + " loop_v"); MC_EQ(ip[u].loop_len, t - seen[v], ctx + " loop_len"); }
        for (long long k : { 0LL, 1LL, 2LL, 3LL, 4LL, 5LL, 6LL, 7LL, 12LL, 1000000007LL, 1000000000000000000LL, LLONG_MAX }) { auto r = g.kth_iterate(k); for (int u = 0; u < n; ++u) MC_EQ(r[u], it(u, k), ctx + " kth_iterate k=" + to_string(k)); }
        MC_LOG(ctx);
    });
    MC_EQ(FunctionalGraph().infinite_paths().size(), 0u, ""); MC_EQ(FunctionalGraph(0).kth_iterate(3).size(), 0u, "");
}
// does an Eulerian walk over all edges exist from s to t?  (backtracking over edge permutations)
static bool walk(const E& es, bool dir, int u, int used, int t) { if (used == (1 << es.size()) - 1) return t < 0 || u == t; for (size_t i = 0; i < es.size(); ++i) if (!(used >> i & 1)) { if (es[i].first == u && walk(es, dir, es[i].second, used | 1 << i, t)) return true; if (!dir && es[i].second == u && walk(es, dir, es[i].first, used | 1 << i, t)) return true; } return false; }
static void valid(const E& es, bool dir, const vector<int>& p, const string& ctx) { MC_EQ(p.size(), es.size() + 1, ctx + " walk length"); multiset<pair<int, int>> m; for (auto [u, v] : es) m.insert(dir ? make_pair(u, v) : make_pair(min(u, v), max(u, v))); for (size_t i = 0; i + 1 < p.size(); ++i) { auto k = dir ? make_pair(p[i], p[i + 1]) : make_pair(min(p[i], p[i + 1]), max(p[i], p[i + 1])); auto it = m.find(k); MC_CHECK(it != m.end(), ctx + " walk uses every edge once: " + mc::show(p)); m.erase(it); } }
template <class G> static void euler(int n, const E& es, bool dir, const string& ctx, int order) {
    G g(n); for (auto [u, v] : es) g.add_edge(u, v); auto same = [&](const string& w) { for (int v = 0; v < n; ++v) { vector<int> a; for (auto [x, y] : es) { if (x == v) a.push_back(y); if (!dir && y == v) a.push_back(x); } MC_EQ(g[v], a, ctx + w + " adjacency unchanged"); } }; same(" initially");
    auto circ = [&](const string& w) { bool any = false; for (int s = 0; s < n; ++s) { bool ex = walk(es, dir, s, 0, s); any |= ex; auto r = g.eulerian_circuit(s); MC_EQ(r.has_value(), ex, ctx + w + " circuit from " + to_string(s)); if (r) { valid(es, dir, *r, ctx + w); MC_EQ(r->front(), s, ctx + w + " starts at s"); MC_EQ(r->back(), s, ctx + w + " ends at s"); } } auto r = g.eulerian_circuit(); MC_EQ(r.has_value(), any, ctx + w + " circuit"); if (r) { valid(es, dir, *r, ctx + w); MC_EQ(r->front(), r->back(), ctx + w); } };
    auto trail = [&](const string& w) { bool any = false, diff = false; for (int s = 0; s < n; ++s) for (int t = 0; t < n; ++t) if (walk(es, dir, s, 0, t)) { any = true; diff |= s != t; } for (int k = 0; k < 2; ++k) { auto r = g.eulerian_trail(k); MC_EQ(r.has_value(), k ? diff : any, ctx + w + " trail different_endpoints=" + to_string(k)); if (r) { valid(es, dir, *r, ctx + w + " trail"); if (k) MC_CHECK(r->front() != r->back(), ctx + w); } same(w + " after trail"); } };
    if (order) circ(" first"); trail(" "); circ(" then"); trail(" again");
}
MC_GROUP(eulerian) {
    mc::bound("Eulerian circuits/trails: all edge sequences (parallel, self-loops, disconnected) of length <= 4 on 3 vertices and all 2^6 / 2^12 simple (di)graphs on 4 vertices with <= 6 edges, every start, repeated calls on the same object; oracle: backtracking walk");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 3), m = c.range(0, mc::T(4, 5)); E es; for (int i = 0; i < m; ++i) { int u = c.choose(n), v = c.choose(n); es.push_back({ u, v }); } mc::step(); euler<DirectedEulerianGraph>(n, es, true, "directed " + mc::show(es), m % 2); euler<UndirectedEulerianGraph>(n, es, false, "undirected " + mc::show(es), m % 2); MC_LOG(mc::show(es)); });
    for (int s = 0; s < 4096; ++s) { MC_CASE(s); if (__builtin_popcount(s) > 6) continue; E es; for (int k = 0; k < 12; ++k) if (s >> k & 1) { int u = k / 3, v = k % 3; if (v >= u) ++v; es.push_back({ u, v }); } euler<DirectedEulerianGraph>(4, es, true, "directed " + mc::show(es), 1); if (s % 3 == 0) euler<UndirectedEulerianGraph>(4, es, false, "undirected " + mc::show(es), 1); }
}
MC_GROUP(rev_edge) { mc::bound("UndirectedEulerianGraph::rev_edge involution on all edge sequences of length 3"); mc::explore([&](mc::Chooser& c) { UndirectedEulerianGraph g(3); for (int i = 0; i < 3; ++i) { int u = c.choose(3), v = c.choose(3); g.add_edge(u, v); } for (int u = 0; u < 3; ++u) for (int i = 0; i < (int)g[u].size(); ++i) { auto [v, j] = g.rev_edge(u, i); MC_EQ(v, g[u][i], ""); auto [w, k] = g.rev_edge(v, j); MC_CHECK(w == u && k == i, "rev_edge"); } }); }
MC_GROUP(medium_sizes) {
    mc::bound("spanning trees of scattered multigraphs on up to 200 vertices (Prim oracle), Manhattan trees of up to 300 points with coordinates up to 10^9, functional graphs of up to 300 points (long tails, long cycles), Eulerian walks with up to 600 edges");
    for (int n : { 20, 64, 65, 130, 200 }) for (int kind = 0; kind < 3; ++kind) { MC_CASE(n, kind); vector<tuple<int, int, long long>> es; for (int i = 0; i < n; ++i) for (int t = 1; t <= (kind ? 4 : 1); ++t) es.push_back({ i, int((i * 29LL + t * 17 + (kind == 2 ? i * i : 0)) % n), (long long)((i * 7919LL + t * 104729) % 10007) * 100000000LL - 300000000000LL }); if (kind == 2) for (int i = 0; i + 1 < n; ++i) es.push_back({ i, i + 1, 1000000000000LL + i }); KruscalMinimumSpanningTree<long long> a(n); KruscalMaximumSpanningTree<long long> b(n); for (auto [u, v, w] : es) a.add_edge(u, v, w), b.add_edge(u, v, w); bool x = a.build(), y = b.build();
        for (int mx = 0; mx < 2; ++mx) { vector<char> in(n); long long tot = 0; int cnt = 0, parts = 0; for (int s = 0; s < n; ++s) if (!in[s]) { ++parts; in[s] = 1; for (;;) { int best = -1; for (size_t i = 0; i < es.size(); ++i) { auto [u, v, w] = es[i]; if (in[u] != in[v] && (best < 0 || (mx ? w > get<2>(es[best]) : w < get<2>(es[best])))) { best = i; } } if (best < 0) break; in[get<0>(es[best])] = in[get<1>(es[best])] = 1; tot += get<2>(es[best]); ++cnt; } } MC_EQ(mx ? y : x, parts == 1, "connected"); MC_EQ(mx ? b.get_weight() : a.get_weight(), tot, "weight"); MC_EQ((int)(mx ? b.get_mst() : a.get_mst()).size(), cnt, "edges"); } }
    for (int n : { 17, 64, 65, 150, 300 }) for (int kind = 0; kind < 4; ++kind) { MC_CASE(n, kind); vector<pair<long long, long long>> p; for (int i = 0; i < n; ++i) p.push_back(kind == 0 ? make_pair((i * 7919LL % 1009) * 990000 - 500000000, (i * 104729LL % 997) * 1000000 - 498000000) : kind == 1 ? make_pair(i * 1000000LL, i * 1000000LL) : kind == 2 ? make_pair(i * 1000000LL, -i * 2000000LL + i % 3) : make_pair((i % 17) * 50000000LL - 400000000, (i / 17) * 50000000LL)); man<long long, long long>(p, "n=" + to_string(n)); vector<pair<int, int>> q; for (auto [x, y] : p) q.push_back({ int(x / 2), int(y / 2) }); man<int, long long>(q, "int n=" + to_string(n)); }
    for (int n : { 50, 64, 65, 128, 129, 300 }) for (int kind = 0; kind < 4; ++kind) { MC_CASE(n, kind); vector<int> f(n); for (int i = 0; i < n; ++i) f[i] = kind == 0 ? (i + 1) % n : kind == 1 ? (i + 1 < n ? i + 1 : n / 2) : kind == 2 ? (i * 37 + 11) % n : (i * i + 7) % n; FunctionalGraph g(f); auto it = [&](int u, long long k) { vector<int> seen(n, -1), o; int v = u; while (seen[v] < 0) seen[v] = o.size(), o.push_back(v), v = f[v]; long long h = seen[v], c = (long long)o.size() - h; return k < h ? o[k] : o[h + (k - h) % c]; };
        auto d = g.doubling(1000000000000000000LL); auto ip = g.infinite_paths(); for (long long k : { 0LL, 1LL, 2LL, (long long)n - 1, (long long)n, n + 1LL, 2LL * n + 3, 1000000007LL, 999999999999999999LL, 1000000000000000000LL }) { auto r = g.kth_iterate(k); for (int u = 0; u < n; ++u) { MC_EQ(r[u], it(u, k), "kth_iterate"); MC_EQ(d.query(u, k), it(u, k), "doubling"); } } for (int u = 0; u < n; ++u) { vector<int> seen(n, -1); int v = u, t = 0; while (seen[v] < 0) seen[v] = t++, v = f[v]; MC_EQ(ip[u].head_len, seen[v], "head_len"); MC_EQ(ip[u].loop_v, v, "loop_v"); MC_EQ(ip[u].loop_len, t - seen[v], "loop_len"); } }
    for (int n : { 5, 30, 64, 65, 130, 200 }) for (int kind = 0; kind < 3; ++kind) for (int dir = 0; dir < 2; ++dir) { MC_CASE(n, kind, dir); E es; for (int i = 0; i < n; ++i) es.push_back({ i, (i + 1) % n }); if (kind) for (int i = 0; i < n; ++i) es.push_back({ (i * 2) % n, (i * 2 + 2) % n }); if (kind == 2) for (int i = 0; i + 2 < n; i += 3) { es.push_back({ i, i + 1 }); es.push_back({ i + 1, i + 2 }); es.push_back({ i + 2, i }); } auto open = es; open.erase(open.begin() + n / 3); auto [hu, hv] = es[n / 3];
        if (dir) { DirectedEulerianGraph a(n), b(n); for (auto [u, v] : es) a.add_edge(u, v); for (auto [u, v] : open) b.add_edge(u, v); auto r = a.eulerian_circuit(); MC_CHECK(r.has_value(), "circuit exists"); valid(es, true, *r, "directed"); MC_EQ(r->front(), r->back(), "closed"); MC_CHECK(!b.eulerian_circuit().has_value(), "no circuit"); auto t = b.eulerian_trail(); MC_CHECK(t.has_value(), "trail exists"); valid(open, true, *t, "directed trail"); MC_CHECK(t->front() == hv && t->back() == hu, "trail ends"); }
        else { UndirectedEulerianGraph a(n), b(n); for (auto [u, v] : es) a.add_edge(u, v); for (auto [u, v] : open) b.add_edge(u, v); auto r = a.eulerian_circuit(); MC_CHECK(r.has_value(), "circuit exists"); valid(es, false, *r, "undirected"); MC_EQ(r->front(), r->back(), "closed"); MC_CHECK(!b.eulerian_circuit().has_value(), "no circuit"); auto t = b.eulerian_trail(); MC_CHECK(t.has_value(), "trail exists"); valid(open, false, *t, "undirected trail"); MC_EQ((set<int>{ t->front(), t->back() }), (set<int>{ hu, hv }), "trail ends"); } }
}
static unsigned long long fg_add(unsigned long long a, unsigned long long b) { return a + b; } static unsigned long long fg_zero() { return 0; }
MC_GROUP(wide_steps) { mc::bound("FunctionalGraph doubling over every map on 1..3 points with step counts 2^31..10^18: end point and sum of query, max_step and step_until with unit and weighted data against cycle arithmetic");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 3); std::vector<int> f(n); for (auto& x : f) x = c.choose(n); suisen::FunctionalGraph g(f); std::vector<unsigned long long> one(n, 1), id(n); for (int i = 0; i < n; ++i) id[i] = 3 * i + 1; typedef unsigned long long U; const long long M = 2000000000000000000LL; auto d1 = g.doubling<U, fg_add, fg_zero>(M, one); auto d2 = g.doubling<U, fg_add, fg_zero>(M, id); auto d0 = g.doubling(M);
        auto go = [&](int u, long long d) { U s = 0; std::vector<long long> at(n, -1); std::vector<U> su(n); long long i = 0; while (i < d) { if (at[u] >= 0) { long long p = i - at[u]; U ps = s - su[u]; long long t = (d - i) / p; s += ps * t; i += t * p; for (auto& x : at) x = -1; if (i == d) break; while (i < d) s += id[u], u = f[u], ++i; break; } at[u] = i; su[u] = s; s += id[u]; u = f[u]; ++i; } return std::make_pair(u, s); };
        for (int u = 0; u < n; ++u) for (long long d : { 0LL, 5LL, 2147483647LL, 2147483648LL, 4294967297LL, 1000000000000LL, 1000000000000000000LL }) { auto [v, s] = go(u, d); auto q = d2.query(u, d); MC_EQ(q.v, v, "query end after " << d); MC_EQ((U)q.sum, s, "query sum after " << d); MC_EQ(d0.query(u, d), v, "plain query"); auto q1 = d1.query(u, d); MC_EQ((U)q1.sum, (U)d, "unit sum"); auto m = d1.max_step(u, [&](U x) { return x <= (U)d; }); MC_EQ((long long)m.step, d, "max_step"); MC_EQ(m.v, v, "max_step end"); MC_EQ((U)m.sum, (U)d, "max_step sum"); auto t = d1.step_until(u, [&](U x) { return x >= (U)d; }); MC_CHECK(bool(t), "step_until exists"); MC_EQ((long long)t->step, d, "step_until"); MC_EQ(t->v, v, "step_until end"); auto m2 = d2.max_step(u, [&](U x) { return x <= s; }); MC_EQ((long long)m2.step, d, "weighted max_step"); std::tuple<int, U, long long> tt = m2; MC_EQ(std::get<2>(tt), d, "as tuple"); mc::step(); } });
}
MC_GROUP(eulerian_every_vertex) {
    mc::bound("45 vertices: for every vertex p, a closed walk of three edges through p, p+1, p+2, an open walk from p over p+1 to p+2, two disjoint triangles, and p with one more odd (unbalanced) pair elsewhere; directed and undirected: circuits and trails exist exactly when they should and use every edge once");
    for (int p = 0; p < 45; ++p) for (int kind = 0; kind < 5; ++kind) { MC_CASE(p, kind); int n = 45; auto v = [&](int k) { return (p + k) % n; }; E es; bool circ = false, trail = false;
        if (kind == 0) es = { { v(0), v(1) }, { v(1), v(2) }, { v(2), v(0) } }, circ = trail = true; else if (kind == 1) es = { { v(0), v(1) }, { v(1), v(2) } }, trail = true; else if (kind == 2) es = { { v(0), v(1) }, { v(1), v(2) }, { v(2), v(0) }, { v(20), v(21) }, { v(21), v(22) }, { v(22), v(20) } }; else if (kind == 3) es = { { v(0), v(1) }, { v(10), v(11) } }; else { for (int i = 0; i < n; ++i) es.push_back({ v(i), v(i + 1) }); es.push_back({ v(0), v(9) }); trail = true; }
        auto go = [&](auto& g, bool dir) { for (auto [x, y] : es) g.add_edge(x, y); for (int rep = 0; rep < 2; ++rep) { auto c = g.eulerian_circuit(); MC_EQ(c.has_value(), circ, "circuit"); if (c) { valid(es, dir, *c, "circuit"); MC_EQ(c->front(), c->back(), "closed"); } auto t = g.eulerian_trail(); MC_EQ(t.has_value(), trail, "trail"); if (t) valid(es, dir, *t, "trail"); auto d = g.eulerian_trail(true); MC_EQ(d.has_value(), trail && !circ, "trail with different ends"); if (d) valid(es, dir, *d, "open trail"); } };
        { DirectedEulerianGraph g(n); go(g, true); } { UndirectedEulerianGraph g(n); go(g, false); } mc::step(); }
}
MC_MAIN
