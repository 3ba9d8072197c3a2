// labelled trees: every tree on n vertices (Pruefer sequences), plus helpers used by the tree harnesses
#pragma once
#include "mc.hpp"
namespace trees {
    typedef std::vector<std::pair<int, int>> E; typedef std::vector<std::vector<int>> G;
    inline E prufer(int n, const std::vector<int>& p) { E es; if (n == 1) return es; std::vector<int> d(n, 1); for (int x : p) ++d[x]; std::set<int> leaf; for (int i = 0; i < n; ++i) if (d[i] == 1) leaf.insert(i); for (int x : p) { int l = *leaf.begin(); leaf.erase(leaf.begin()); es.push_back({ l, x }); if (--d[x] == 1) leaf.insert(x); } es.push_back({ *leaf.begin(), *std::next(leaf.begin()) }); return es; }
    // all labelled trees with exactly n vertices
    template <class F> void all(int n, F f) { if (n <= 2) { f(prufer(n, {})); return; } std::vector<int> p(n - 2, 0); while (true) { f(prufer(n, p)); int i = 0; while (i < n - 2 && ++p[i] == n) p[i++] = 0; if (i == n - 2) break; } }
    // all parent arrays par[v] < v (every rooted unlabelled shape appears), n vertices
    template <class F> void rec(int n, F f) { std::vector<int> p(n, 0); while (true) { E es; for (int v = 1; v < n; ++v) es.push_back({ p[v], v }); f(es); int i = 1; while (i < n && ++p[i] == i) p[i++] = 0; if (i >= n) break; } }
    inline G adj(int n, const E& es, int order = 0) { G g(n); E e = es; if (order & 1) std::reverse(e.begin(), e.end()); for (auto [u, v] : e) if (order & 2) { g[v].push_back(u); g[u].push_back(v); } else { g[u].push_back(v); g[v].push_back(u); } if (order & 4) for (auto& a : g) std::sort(a.rbegin(), a.rend()); return g; }
    struct Ref { // distances, parents and depths for one root
        int n; std::vector<int> par, dep, sz; std::vector<std::vector<int>> d;
        Ref(const G& g, int root, bool dist = true) : n(g.size()), par(n, -1), dep(n, 0), sz(n, 1) { std::vector<int> o{ root }; std::vector<char> s(n); s[root] = 1; for (size_t i = 0; i < o.size(); ++i) for (int v : g[o[i]]) if (!s[v]) s[v] = 1, par[v] = o[i], dep[v] = dep[o[i]] + 1, o.push_back(v); for (size_t i = o.size(); i-- > 1;) sz[par[o[i]]] += sz[o[i]]; if (dist) { d.assign(n, std::vector<int>(n, 1 << 20)); for (int i = 0; i < n; ++i) { d[i][i] = 0; for (int v : g[i]) d[i][v] = 1; } for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]); } }
        int anc(int u, int k) const { while (u >= 0 && k-- > 0) u = par[u]; return u; }
        bool is_anc(int a, int u) const { while (u >= 0 && u != a) u = par[u]; return u == a; }
        int lca(int u, int v) const { while (!is_anc(u, v)) u = par[u]; return u; }
        std::vector<int> path(int u, int v) const { int w = lca(u, v); std::vector<int> a, b; for (; u != w; u = par[u]) a.push_back(u); a.push_back(w); for (; v != w; v = par[v]) b.push_back(v); a.insert(a.end(), b.rbegin(), b.rend()); return a; }
    };
}
