#pragma once
#include "internal_math.hpp"
namespace atcoder {
    struct dsu {
        dsu() : _n(0) {} explicit dsu(int n) : _n(n), p(n, -1) {}
        int merge(int a, int b) { assert(0 <= a && a < _n && 0 <= b && b < _n); int x = leader(a), y = leader(b); if (x == y) return x; if (-p[x] < -p[y]) std::swap(x, y); p[x] += p[y]; p[y] = x; return x; }
        bool same(int a, int b) { return leader(a) == leader(b); }
        int leader(int a) { assert(0 <= a && a < _n); while (p[a] >= 0) a = p[a]; return a; }
        int size(int a) { return -p[leader(a)]; }
        std::vector<std::vector<int>> groups() { std::vector<std::vector<int>> r(_n); for (int i = 0; i < _n; ++i) r[leader(i)].push_back(i); r.erase(std::remove_if(r.begin(), r.end(), [](const std::vector<int>& v) { return v.empty(); }), r.end()); return r; }
    private: int _n; std::vector<int> p;
    };
}
