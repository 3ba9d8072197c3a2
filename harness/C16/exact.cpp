#include "mc.hpp"
#include "library/graph/chromatic_number.hpp"
#include "library/graph/enumerate_cliques.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/maximum_clique.hpp"
#include "library/graph/maximum_independent_set.hpp"
#include "library/graph/minimum_vertex_cover.hpp"
using namespace suisen; using namespace std;
typedef vector<pair<int, int>> E;
static void check(int n, const E& es, const string& ctx, bool chrom) {
    vector<int> a(n); vector<vector<int>> g(n); for (auto [u, v] : es) { a[u] |= 1 << v; a[v] |= 1 << u; g[u].push_back(v); g[v].push_back(u); }
    int N = 1 << n, alpha = 0, omega = 0; set<vector<int>> cl; vector<char> ind(N); for (int s = 0; s < N; ++s) { bool i = true, c = true; for (int v = 0; v < n; ++v) if (s >> v & 1) { if (a[v] & s) i = false; if ((a[v] | 1 << v) != ((a[v] | 1 << v) | s)) c = false; } ind[s] = i; if (i) alpha = max(alpha, __builtin_popcount(s)); if (c) { omega = max(omega, __builtin_popcount(s)); if (s) { vector<int> w; for (int v = 0; v < n; ++v) if (s >> v & 1) w.push_back(v); cl.insert(w); } } }
    auto mis = maximum_independent_set(g); int m = 0; for (int v : mis) { MC_CHECK(v >= 0 && v < n && !(m >> v & 1), ctx + " MIS vertex"); m |= 1 << v; } MC_CHECK(ind[m], ctx + " MIS is independent " + mc::show(mis)); MC_EQ((int)mis.size(), alpha, ctx + " MIS size");
    auto vc = minimum_vertex_cover(g); m = 0; for (int v : vc) { MC_CHECK(v >= 0 && v < n && !(m >> v & 1), ctx); m |= 1 << v; } for (auto [u, v] : es) MC_CHECK(m >> u & 1 || m >> v & 1, ctx + " vertex cover covers"); MC_EQ((int)vc.size(), n - alpha, ctx + " vertex cover size");
    auto mc_ = maximum_clique(g); m = 0; for (int v : mc_) { MC_CHECK(v >= 0 && v < n && !(m >> v & 1), ctx); m |= 1 << v; } for (int v : mc_) MC_CHECK(((a[v] | 1 << v) & m) == m, ctx + " maximum_clique is a clique"); MC_EQ((int)mc_.size(), omega, ctx + " maximum_clique size");
    set<vector<int>> got; enumerate_cliques(g, [&](vector<int> c) { sort(c.begin(), c.end()); MC_CHECK(got.insert(c).second, ctx + " clique listed twice"); }); MC_EQ(got, cl, ctx + " cliques");
    set<vector<int>> tg, tw; enumerate_triangles(g, [&](int x, int y, int z) { vector<int> c{ x, y, z }; sort(c.begin(), c.end()); MC_CHECK(tg.insert(c).second, ctx + " triangle listed twice"); }); for (auto& c : cl) if (c.size() == 3) tw.insert(c); MC_EQ(tg, tw, ctx + " triangles");
    if (chrom) { vector<int> chi(N, 99); chi[0] = 0; for (int s = 1; s < N; ++s) for (int t = s; t; t = (t - 1) & s) if (ind[t]) chi[s] = min(chi[s], chi[s ^ t] + 1); MC_EQ(chromatic_number(n, es), chi[N - 1], ctx + " chromatic number"); }
}
MC_GROUP(all_graphs) {
    int N = mc::T(5, 6); mc::bound("maximum_independent_set, minimum_vertex_cover, maximum_clique, enumerate_cliques, enumerate_triangles, chromatic_number: all simple graphs on 0..5 (thorough 6) vertices; oracle: all vertex subsets, subset DP for colouring");
    for (int n = 0; n <= N; ++n) { E A; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) A.push_back({ i, j }); for (int s = 0; s < (1 << A.size()); ++s) { MC_CASE(n, s); E es; for (size_t i = 0; i < A.size(); ++i) if (s >> i & 1) es.push_back((i + s) % 2 ? A[i] : make_pair(A[i].second, A[i].first)); if (s % 3 == 0) reverse(es.begin(), es.end()); check(n, es, "n=" + to_string(n) + " " + mc::show(es), true); mc::outcome(s); } }
}
MC_GROUP(six_vertices) {
    mc::bound("all 32768 graphs on 6 vertices for MIS / cover / clique / triangles (colouring every 8th)");
    E A; int n = 6; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) A.push_back({ i, j }); for (int s = 0; s < (1 << 15); ++s) { MC_CASE(s); E es; for (size_t i = 0; i < A.size(); ++i) if (s >> i & 1) es.push_back(A[i]); check(n, es, mc::show(es), s % 8 == 0); }
}
MC_GROUP(structured) {
    mc::bound("cycles, paths, wheels, complete multipartite, Petersen, Mycielski (triangle-free, chi=4), circulants up to 12 vertices, with relabelings");
    vector<pair<int, E>> gs; for (int n = 3; n <= 11; ++n) { E c, w, k, ci; for (int i = 0; i < n; ++i) { c.push_back({ i, (i + 1) % n }); w.push_back({ i, (i + 1) % n }); w.push_back({ i, n }); for (int j = 0; j < i; ++j) if (i % 3 != j % 3) k.push_back({ i, j }); } for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if ((j - i) % n == 1 || (j - i) % n == n - 1 || (j - i) == 3 || (j - i) == n - 3) ci.push_back({ i, j }); gs.push_back({ n, c }); if (n >= 4) gs.push_back({ n + 1, w }); gs.push_back({ n, k }); gs.push_back({ n, ci }); c.pop_back(); gs.push_back({ n, c }); }
    E pe; for (int i = 0; i < 5; ++i) { pe.push_back({ i, (i + 1) % 5 }); pe.push_back({ i, i + 5 }); pe.push_back({ i + 5, (i + 2) % 5 + 5 }); } gs.push_back({ 10, pe }); E my; for (int i = 0; i < 5; ++i) { my.push_back({ i, (i + 1) % 5 }); my.push_back({ 5 + i, (i + 1) % 5 }); my.push_back({ 5 + i, (i + 4) % 5 }); my.push_back({ 5 + i, 10 }); } gs.push_back({ 11, my });
    E two; for (int i = 0; i < 5; ++i) two.push_back({ i, (i + 1) % 5 }); for (int i = 0; i < 7; ++i) two.push_back({ 5 + i, 5 + (i + 1) % 7 }); gs.push_back({ 12, two });
    for (size_t k = 0; k < gs.size(); ++k) for (int r = 0; r < 3; ++r) { MC_CASE((int)k, r); int n = gs[k].first; vector<int> p(n); iota(p.begin(), p.end(), 0); if (r == 1) reverse(p.begin(), p.end()); if (r == 2) for (int i = 0; i < n; ++i) p[i] = (n % 5 ? i * 5 : n % 7 ? i * 7 : i) % n; E es; for (auto [u, v] : gs[k].second) es.push_back({ p[u], p[v] }); set<pair<int, int>> chk; for (auto [u, v] : es) chk.insert({ min(u, v), max(u, v) }); E simple(chk.begin(), chk.end()); check(n, simple, "structured n=" + to_string(n) + " " + mc::show(simple), n <= 11); }
}
MC_GROUP(sparse_larger) {
    mc::bound("24 and 42 vertices: cycles, paths, triangle chains, bipartite ladders and 9- and 10-cliques with tails, two label orders: maximum independent set, minimum vertex cover (sizes known in closed form, sets valid), triangles and cliques listed exactly once");
    for (int n : { 24, 42 }) for (int kind = 0; kind < 5; ++kind) for (int lab = 0; lab < 2; ++lab) { MC_CASE(n, kind, lab); E es; int alpha = 0; long long tri = 0; int K = kind == 4 ? 9 + lab : 0; auto f = [&](int x) { return lab ? (x * 5 + 3) % n : x; };
        if (kind == 0) { for (int i = 0; i < n; ++i) es.push_back({ i, (i + 1) % n }); alpha = n / 2; } else if (kind == 1) { for (int i = 1; i < n; ++i) es.push_back({ i - 1, i }); alpha = (n + 1) / 2; } else if (kind == 2) { for (int i = 0; i + 2 < n; i += 3) { es.push_back({ i, i + 1 }); es.push_back({ i + 1, i + 2 }); es.push_back({ i, i + 2 }); ++tri; if (i) es.push_back({ i - 1, i }); } alpha = n / 3; } else if (kind == 3) { int h = n / 2; for (int i = 0; i < h; ++i) { es.push_back({ i, h + i }); if (i) es.push_back({ i - 1, i }), es.push_back({ h + i - 1, h + i }); } alpha = h + n % 2; } else { for (int i = 0; i < K; ++i) for (int j = 0; j < i; ++j) es.push_back({ i, j }); tri = K * (K - 1) * (K - 2) / 6; for (int i = K; i < n; ++i) es.push_back({ i - 1, i }); alpha = 1 + (n - K + 1) / 2; }
        for (auto& [u, v] : es) u = f(u), v = f(v); vector<vector<int>> g(n); vector<vector<char>> a(n, vector<char>(n)); for (auto [u, v] : es) g[u].push_back(v), g[v].push_back(u), a[u][v] = a[v][u] = 1;
        auto s = maximum_independent_set(g); MC_EQ((int)s.size(), alpha, "independent set size"); set<int> ss(s.begin(), s.end()); MC_EQ(ss.size(), s.size(), "distinct"); for (auto [u, v] : es) MC_CHECK(!(ss.count(u) && ss.count(v)), "independent"); auto c = minimum_vertex_cover(g); MC_EQ((int)c.size(), n - alpha, "vertex cover size"); set<int> cs(c.begin(), c.end()); for (auto [u, v] : es) MC_CHECK(cs.count(u) || cs.count(v), "covers");
        set<vector<int>> ts; enumerate_triangles(g, [&](int x, int y, int z) { vector<int> t{ x, y, z }; sort(t.begin(), t.end()); MC_CHECK(a[x][y] && a[y][z] && a[x][z], "triangle"); MC_CHECK(ts.insert(t).second, "triangle listed twice"); }); MC_EQ((long long)ts.size(), tri, "triangles"); long long want = n + (long long)es.size() + tri; if (kind == 4) { want = (1LL << K) - 1 + (n - K) + (n - K); } set<vector<int>> qs; enumerate_cliques(g, [&](const vector<int>& q) { auto t = q; sort(t.begin(), t.end()); if (t.empty()) return; for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < i; ++j) MC_CHECK(a[t[i]][t[j]], "clique"); MC_CHECK(qs.insert(t).second, "clique listed twice"); }); MC_EQ((long long)qs.size(), want, "cliques"); mc::step(); }
}
MC_MAIN
