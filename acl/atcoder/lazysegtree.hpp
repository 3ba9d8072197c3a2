#pragma once
#include "internal_math.hpp"
namespace atcoder {
    template <class S, S (*op)(S, S), S (*e)(), class F, S (*mapping)(F, S), F (*composition)(F, F), F (*id)()> struct lazy_segtree {
        lazy_segtree() : lazy_segtree(0) {} explicit lazy_segtree(int n) : d(n, e()) {} explicit lazy_segtree(const std::vector<S>& v) : d(v) {}
        void set(int p, S x) { assert(0 <= p && p < n()); d[p] = x; }
        S get(int p) { assert(0 <= p && p < n()); return d[p]; }
        S prod(int l, int r) { assert(0 <= l && l <= r && r <= n()); S s = e(); for (int i = l; i < r; ++i) s = op(s, d[i]); return s; }
        S all_prod() { return prod(0, n()); }
        void apply(int p, F f) { assert(0 <= p && p < n()); d[p] = mapping(f, d[p]); }
        void apply(int l, int r, F f) { assert(0 <= l && l <= r && r <= n()); for (int i = l; i < r; ++i) d[i] = mapping(f, d[i]); }
        template <bool (*g)(S)> int max_right(int l) { return max_right(l, [](S x) { return g(x); }); }
        template <class G> int max_right(int l, G g) { S s = e(); int r = l; while (r < n()) { S t = op(s, d[r]); if (!g(t)) break; s = t; ++r; } return r; }
        template <bool (*g)(S)> int min_left(int r) { return min_left(r, [](S x) { return g(x); }); }
        template <class G> int min_left(int r, G g) { S s = e(); int l = r; while (l > 0) { S t = op(d[l - 1], s); if (!g(t)) break; s = t; --l; } return l; }
    private: std::vector<S> d; int n() const { return (int)d.size(); }
    };
}
