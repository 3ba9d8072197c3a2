#pragma once
#include "internal_math.hpp"
namespace atcoder {
    // plain array: every query is a left fold
    template <class S, S (*op)(S, S), S (*e)()> struct segtree {
        segtree() : segtree(0) {} explicit segtree(int n) : d(n, e()) {} explicit segtree(const std::vector<S>& v) : d(v) {}
        void set(int p, S x) { assert(0 <= p && p < n()); d[p] = x; }
        S get(int p) const { assert(0 <= p && p < n()); return d[p]; }
        S prod(int l, int r) const { assert(0 <= l && l <= r && r <= n()); S s = e(); for (int i = l; i < r; ++i) s = op(s, d[i]); return s; }
        S all_prod() const { return prod(0, n()); }
        template <bool (*f)(S)> int max_right(int l) const { return max_right(l, [](S x) { return f(x); }); }
        template <class F> int max_right(int l, F f) const { assert(0 <= l && l <= n()); assert(f(e())); S s = e(); int r = l; while (r < n()) { S t = op(s, d[r]); if (!f(t)) break; s = t; ++r; } return r; }
        template <bool (*f)(S)> int min_left(int r) const { return min_left(r, [](S x) { return f(x); }); }
        template <class F> int min_left(int r, F f) const { assert(0 <= r && r <= n()); assert(f(e())); S s = e(); int l = r; while (l > 0) { S t = op(d[l - 1], s); if (!f(t)) break; s = t; --l; } return l; }
    private: std::vector<S> d; int n() const { return (int)d.size(); }
    };
}
