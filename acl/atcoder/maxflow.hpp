#pragma once
#include "internal_math.hpp"
namespace atcoder {
    template <class Cap> struct mf_graph {
        mf_graph() : _n(0) {} explicit mf_graph(int n) : _n(n), g(n) {}
        int add_edge(int f, int t, Cap c) { assert(0 <= f && f < _n && 0 <= t && t < _n && 0 <= c); int m = pos.size(); pos.push_back({ f, (int)g[f].size() }); int fi = g[f].size(), ti = g[t].size(); if (f == t) ti++; g[f].push_back({ t, ti, c }); g[t].push_back({ f, fi, 0 }); return m; }
        struct edge { int from, to; Cap cap, flow; };
        edge get_edge(int i) { auto e = g[pos[i].first][pos[i].second]; auto r = g[e.to][e.rev]; return { pos[i].first, e.to, e.cap + r.cap, r.cap }; }
        std::vector<edge> edges() { std::vector<edge> r; for (size_t i = 0; i < pos.size(); ++i) r.push_back(get_edge(i)); return r; }
        Cap flow(int s, int t) { return flow(s, t, std::numeric_limits<Cap>::max()); }
        Cap flow(int s, int t, Cap lim) {
            Cap tot = 0;
            while (tot < lim) { // Edmonds-Karp
                std::vector<std::pair<int, int>> pre(_n, { -1, -1 }); std::queue<int> q; q.push(s); pre[s] = { s, -1 };
                while (!q.empty() && pre[t].first < 0) { int u = q.front(); q.pop(); for (int i = 0; i < (int)g[u].size(); ++i) { auto& e = g[u][i]; if (e.cap && pre[e.to].first < 0) pre[e.to] = { u, i }, q.push(e.to); } }
                if (pre[t].first < 0) break;
                Cap f = lim - tot; for (int v = t; v != s; v = pre[v].first) f = std::min(f, g[pre[v].first][pre[v].second].cap);
                for (int v = t; v != s; v = pre[v].first) { auto& e = g[pre[v].first][pre[v].second]; e.cap -= f; g[e.to][e.rev].cap += f; }
                tot += f;
            }
            return tot;
        }
        std::vector<bool> min_cut(int s) { std::vector<bool> v(_n); std::queue<int> q; q.push(s); v[s] = true; while (!q.empty()) { int u = q.front(); q.pop(); for (auto& e : g[u]) if (e.cap && !v[e.to]) v[e.to] = true, q.push(e.to); } return v; }
    private: struct E_ { int to, rev; Cap cap; }; int _n; std::vector<std::pair<int, int>> pos; std::vector<std::vector<E_>> g;
    };
}
