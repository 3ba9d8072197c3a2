#pragma once
#include "scc.hpp"
namespace atcoder {
    struct two_sat {
        two_sat() : _n(0), g(0) {} explicit two_sat(int n) : _n(n), ans(n), g(2 * n) {}
        void add_clause(int i, bool f, int j, bool h) { assert(0 <= i && i < _n && 0 <= j && j < _n); g.add_edge(2 * i + (f ? 0 : 1), 2 * j + (h ? 1 : 0)); g.add_edge(2 * j + (h ? 0 : 1), 2 * i + (f ? 1 : 0)); }
        bool satisfiable() { auto c = g.scc(); std::vector<int> id(2 * _n); for (size_t k = 0; k < c.size(); ++k) for (int v : c[k]) id[v] = k; for (int i = 0; i < _n; ++i) { if (id[2 * i] == id[2 * i + 1]) return false; ans[i] = id[2 * i] < id[2 * i + 1]; } return true; }
        std::vector<bool> answer() { return ans; }
    private: int _n; std::vector<bool> ans; scc_graph g;
    };
}
