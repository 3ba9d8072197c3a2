#pragma once
#include "internal_math.hpp"
namespace atcoder {
    template <class T> struct fenwick_tree {
        fenwick_tree() {} explicit fenwick_tree(int n) : d(n) {}
        void add(int p, T x) { assert(0 <= p && p < (int)d.size()); for (++p; p <= (int)d.size(); p += p & -p) d[p - 1] += x; }
        T sum(int l, int r) { assert(0 <= l && l <= r && r <= (int)d.size()); return pre(r) - pre(l); }
    private: std::vector<T> d; T pre(int r) const { T s = 0; for (; r; r -= r & -r) s += d[r - 1]; return s; }
    };
}
