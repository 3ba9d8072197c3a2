#pragma once
#include "internal_math.hpp"
namespace atcoder {
    struct scc_graph {
        scc_graph() : scc_graph(0) {} explicit scc_graph(int n) : n(n), g(n), rg(n) {}
        void add_edge(int f, int t) { assert(0 <= f && f < n && 0 <= t && t < n); g[f].push_back(t); rg[t].push_back(f); }
        // Kosaraju; components in topological order
        std::vector<std::vector<int>> scc() {
            std::vector<int> ord; std::vector<char> vis(n); std::function<void(int)> d1 = [&](int u) { vis[u] = 1; for (int v : g[u]) if (!vis[v]) d1(v); ord.push_back(u); };
            for (int i = 0; i < n; ++i) if (!vis[i]) d1(i);
            std::vector<std::vector<int>> r; std::vector<char> w(n); std::function<void(int)> d2 = [&](int u) { w[u] = 1; r.back().push_back(u); for (int v : rg[u]) if (!w[v]) d2(v); };
            for (int i = n - 1; i >= 0; --i) if (!w[ord[i]]) { r.emplace_back(); d2(ord[i]); }
            return r;
        }
    private: int n; std::vector<std::vector<int>> g, rg;
    };
}
