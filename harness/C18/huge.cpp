// mc: flags='-O1'
// Size ladder across the 10-, 12- and 16-bit borders.
#include "mc.hpp"
#include "free.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/centroid_decomposition.hpp"
using namespace suisen; using namespace std; typedef long long ll;
MC_GROUP(trees_huge) {
    mc::bound("binary, random recursive, star, broom (handle 500) trees on {1023,1025,4097,32769,65535,65536,65537,70001} permuted vertices, two roots: lca, dist, level ancestors, jumps, path and subtree sums, centroid sizes on a ladder of pairs");
    for (int n : { 1023, 1025, 4097, 32769, 65535, 65536, 65537, 70001 }) for (int kind = 0; kind < 4; ++kind) { MC_CASE(n, kind); int p = 12347; while (__gcd(p, n) != 1) ++p; auto id = [&](int i) { return int((ll)i * p % n); }; vector<vector<int>> g(n); for (int v = 1; v < n; ++v) { int u = kind == 0 ? (v - 1) / 2 : kind == 1 ? int(fr::K(v) % v) : kind == 2 ? 0 : v < 500 ? v - 1 : 499; g[id(u)].push_back(id(v)); g[id(v)].push_back(id(u)); }
        for (int root : { id(0), n - 1 }) { vector<int> par(n, -1), dep(n), ord{ root }, sz(n, 1); for (size_t i = 0; i < ord.size(); ++i) for (int u : g[ord[i]]) if (u != par[ord[i]]) par[u] = ord[i], dep[u] = dep[ord[i]] + 1, ord.push_back(u); for (int i = n; --i;) sz[par[ord[i]]] += sz[ord[i]];
            auto lca = [&](int u, int v) { while (u != v) { if (dep[u] < dep[v]) swap(u, v); u = par[u]; } return u; }; auto anc = [&](int u, int j) { while (j-- > 0 && u >= 0) u = par[u]; return u; };
            auto h = g; HeavyLightDecomposition H(h, { root }); LowestCommonAncestor L(g, root); LevelAncestor A(g, root); EulerTour T(g, root); vector<ll> pre(n + 1); for (int i = 0; i < n; ++i) pre[i + 1] = pre[i] + H.get_kth_visited(i) + 1; auto q = [&](int l, int r) { return pre[r] - pre[l]; };
            for (int v = 0; v < n; ++v) if (H.get_subtree_size(v) != sz[v] || H.get_kth_visited(H.get_visit_time(v)) != v) mc::fail("subtree size / visit order of " + to_string(v));
            for (int i = 0; i < 400; ++i) { int u = int(fr::K(i) % n), v = i % 5 == 0 ? anc(u, i / 5) : int(fr::K(i + 999) % n); if (v < 0) v = root; int w = lca(u, v), d = dep[u] + dep[v] - 2 * dep[w]; MC_EQ(H.lca(u, v), w, "hld lca"); MC_EQ(L.lca(u, v), w, "lca"); MC_EQ(T.lca(u, v), w, "tour lca"); MC_EQ(H.dist(u, v), d, "hld dist"); MC_EQ(L.dist(u, v), d, "dist"); for (int j : { 0, 1, d / 2, d }) if (j <= d) MC_EQ(H.jump(u, v, j), j <= dep[u] - dep[w] ? anc(u, j) : anc(v, d - j), "jump"); for (int j : { 0, 1, dep[u] / 2, dep[u] }) if (j <= dep[u]) { MC_EQ(H.la(u, j), anc(u, j), "hld la"); MC_EQ(A.query(u, j), anc(u, j), "level ancestor"); }
                ll s = 0; for (int x = u; x != w; x = par[x]) s += x + 1; for (int x = v; x != w; x = par[x]) s += x + 1; s += w + 1; MC_EQ(H.fold_path(u, v, 0LL, [](ll a, ll b) { return a + b; }, q), s, "path sum"); if (sz[u] < 500) { ll t = 0; vector<pair<int, int>> st{ { u, par[u] } }; while (st.size()) { auto [x, y] = st.back(); st.pop_back(); t += x + 1; for (int z : g[x]) if (z != y) st.push_back({ z, x }); } MC_EQ(H.fold_subtree<ll>(u, q), t, "subtree sum"); } mc::step(); } } }
}
MC_MAIN
