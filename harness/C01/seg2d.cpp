#include "free.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
using namespace fr; typedef unsigned long long u;
static u add(u a, u b) { return a + b; }
static u zero() { return 0; }
MC_GROUP(dense) {
    mc::bound("all n,m<=4(5), depth 3 sets, all rectangles; both constructors");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, mc::T(4, 5)), m = c.range(1, mc::T(4, 5)), how = c.choose(2), k = 0;
        std::vector<std::vector<u>> a(n, std::vector<u>(m));
        if (how) for (auto& r : a) for (auto& x : r) x = K(k++);
        using S = suisen::SegmentTree2D<u, add, zero>;
        S s = how ? S(a) : S(n, m);
        MC_LOG("n=" << n << " m=" << m << " how=" << how);
        for (int d = 0; d <= 2; ++d) {
            if (d) { int i = c.choose(n), j = c.choose(m); a[i][j] = K(k++); s.set(i, j, a[i][j]); MC_LOG("set " << i << " " << j); }
            for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) MC_EQ(s.get(i, j), a[i][j], "get");
            for (int x = 0; x <= n; ++x) for (int y = x; y <= n; ++y) for (int l = 0; l <= m; ++l) for (int r = l; r <= m; ++r) {
                u w = 0; for (int i = x; i < y; ++i) for (int j = l; j < r; ++j) w += a[i][j];
                MC_EQ(s(x, y, l, r), w, "rect " << x << "," << y << "," << l << "," << r << " in " << n << "x" << m);
            }
        }
        mc::outcome(s(0, n, 0, m));
    });
}
// non-commutative along the inner axis: a 1 x m (and n x 1) grid over the free monoid
MC_GROUP(dense_order) {
    mc::bound("1xm and nx1 grids, up to 9, free monoid, depth 2");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, 9); bool row = c.flag();
        std::vector<std::vector<string>> a(row ? 1 : n, std::vector<string>(row ? n : 1));
        auto at = [&](int i) -> string& { return row ? a[0][i] : a[i][0]; };
        for (int i = 0; i < n; ++i) at(i) = string(1, letter(i));
        suisen::SegmentTree2D<string, cat, eps> s(a);
        for (int d = 0; d <= 2; ++d) {
            if (d) { int i = c.choose(n); at(i) = string(1, letter(20 + d)); if (row) s.set(0, i, at(i)); else s.set(i, 0, at(i)); MC_LOG("set " << i); }
            for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { string w; for (int i = l; i < r; ++i) w += at(i); MC_EQ(row ? s(0, 1, l, r) : s(l, r, 0, 1), w, "order"); }
        }
    });
}
MC_GROUP(compressed1) {
    mc::bound("every multiset of <=3(4) of 5 coordinates incl. extremes, depth 3 of set/apply, all query intervals");
    static const std::vector<int> X = { INT_MIN, -1, 0, 5, INT_MAX - 1 };
    mc::explore([&](mc::Chooser& c) {
        int k = c.range(0, mc::T(3, 4)); suisen::CompressedSegmentTree<string, cat, eps> s; std::map<int, string> m; std::vector<int> pts;
        for (int i = 0; i < k; ++i) { int x = c.pick(X); s.add_point(x); if (!m.count(x)) pts.push_back(x); m[x]; }
        s.build(); int nx = 0;
        static const std::vector<int> Q = { INT_MIN, INT_MIN + 1, -1, 0, 1, 5, 6, INT_MAX - 1, INT_MAX };
        for (int d = 0; d <= 3; ++d) {
            if (d && pts.size()) { int x = c.pick(pts); string v(1, letter(nx++)); s.set(x, v); m[x] = v; MC_LOG("set " << x); }
            for (auto& [x, v] : m) MC_EQ(s.get(x), v, "get");
            for (int l : Q) for (int r : Q) if (l <= r) { string w; for (auto& [x, v] : m) if (l <= x && x < r) w += v; MC_EQ(s.query(l, r), w, "query " << l << "," << r); }
        }
    });
}
template <int KD> static void comp_nd(mc::Chooser& c, int G, int maxp, int depth) {
    using S = suisen::CompressedSegmentTree<u, add, zero, KD>;
    int G_all = 1; for (int i = 0; i < KD; ++i) G_all *= G;
    auto dec = [&](int id) { std::array<int, KD> p; for (int i = 0; i < KD; ++i) p[i] = (id % G) * 3 - 2, id /= G; return p; };
    int k = c.range(0, maxp); S s; std::map<int, u> m; std::vector<int> pts; int last = 0;
    for (int i = 0; i < k; ++i) { int id = last + c.choose(G_all - last); last = id; s.add_point(dec(id)); if (!m.count(id)) pts.push_back(id); m[id] = 0; }
    s.build(); int nx = 0;
    for (int d = 0; d <= depth; ++d) {
        if (d && pts.size()) {
            int id = c.pick(pts); u v = K(nx++); bool ap = c.flag();
            if (ap) s.apply(dec(id), v), m[id] += v; else s.set(dec(id), v), m[id] = v;
            MC_LOG((ap ? "apply " : "set ") << mc::show(dec(id)));
        }
        for (auto& [x, v] : m) MC_EQ(s.get(dec(x)), v, "get");
        // all boxes
        typename S::cube_type q; std::function<void(int)> rec = [&](int i) {
            if (i == KD) {
                u w = 0; for (auto& [id, v] : m) { auto p = dec(id); bool in = true; for (int t = 0; t < KD; ++t) in &= q[t].first <= p[t] && p[t] < q[t].second; if (in) w += v; }
                MC_EQ(s.query(q), w, "box query, KD=" << KD); return;
            }
            for (int l = 0; l <= G; ++l) for (int r = l; r <= G; ++r) { q[i] = { l * 3 - 2 - (l & 1), r * 3 - 2 - (r & 1) }; rec(i + 1); }
        };
        rec(0);
    }
}
MC_GROUP(compressed2) { mc::bound("<=4 points of a 3x3 grid (with duplicates), depth 2 set/apply, all boxes"); mc::explore([&](mc::Chooser& c) { comp_nd<2>(c, 3, mc::T(4, 5), 2); }); }
MC_GROUP(compressed3) { mc::bound("<=3 points of a 2x2x2 grid, depth 2 set/apply, all boxes"); mc::explore([&](mc::Chooser& c) { comp_nd<3>(c, 2, mc::T(3, 5), 2); }); }
MC_GROUP(sparse2d) {
    mc::bound("<=4 points of a 3x3 grid (with duplicates, spare x capacity 0/2), depth 2 sets, all rectangles, max_up/min_down over all thresholds");
    mc::explore([&](mc::Chooser& c) {
        int k = c.range(0, mc::T(4, 5)), spare = c.choose(2) * 2; std::map<std::pair<int, int>, u> m; std::vector<std::pair<int, int>> add_, pts; std::set<int> xs; int last = 0;
        for (int i = 0; i < k; ++i) { int id = last + c.choose(9 - last); last = id; int x = id % 3 * 2 - 1, y = id / 3 * 5 - 4; add_.push_back({ x, y }); xs.insert(x); if (!m.count({ x, y })) pts.push_back({ x, y }); m[{x, y}] = 0; }
        suisen::SegmentTree2DSparse<u, add, zero> s(int(xs.size()) + spare);
        for (auto [x, y] : add_) s.add_point(x, y);
        s.build(); int nx = 0;
        for (int d = 0; d <= 2; ++d) {
            if (d && pts.size()) { auto p = c.pick(pts); u v = 1 + (K(nx++) >> 40); if (d & 1) s.set(p.first, p.second, v); else s[p] = v; m[p] = v; MC_LOG("set " << mc::show(p)); }
            u all = 0; for (auto& [p, v] : m) { MC_EQ(s.get(p.first, p.second), v, "get"); all += v; }
            MC_EQ(s.all_prod(), all, "all_prod");
            for (int l = -2; l <= 4; ++l) for (int r = l; r <= 4; ++r) for (int dd : {-5, -4, -3, 0, 1, 2, 6, 7}) {
                for (int uu : {-4, -3, 1, 2, 6, 7}) if (uu >= dd) {
                    u w = 0; for (auto& [p, v] : m) if (l <= p.first && p.first < r && dd <= p.second && p.second < uu) w += v;
                    MC_EQ(s(l, r, dd, uu), w, "rect " << l << "," << r << "," << dd << "," << uu);
                }
                MC_EQ(s.prod(l, r, dd, 7), s(l, r, dd, 7), "prod");
            }
        }
    });
}
static u mx(u a, u b) { return std::max(a, b); }
// max_up / min_down over an idempotent commutative monoid (max): first y at which the predicate breaks
MC_GROUP(sparse2d_search) {
    mc::bound("<=4 points of a 3x3 grid, values = all assignments from {0,1,2}, all x-ranges, all starts, threshold predicates");
    mc::explore([&](mc::Chooser& c) {
        int k = c.range(1, mc::T(3, 4)); std::map<std::pair<int, int>, u> m; std::set<int> xs; int last = 0;
        for (int i = 0; i < k; ++i) { int id = last + c.choose(9 - last); last = id; int x = id % 3, y = id / 3 * 2; m[{x, y}] = 0; xs.insert(x); }
        suisen::SegmentTree2DSparse<u, mx, zero> s(int(xs.size()));
        for (auto& [p, v] : m) s.add_point(p.first, p.second);
        s.build();
        for (auto& [p, v] : m) { v = c.choose(3); s.set(p.first, p.second, v); }
        for (int l = 0; l <= 3; ++l) for (int r = l; r <= 3; ++r) for (int d = -1; d <= 6; ++d) for (u th = 0; th <= 2; ++th) {
            auto f = [&](u x) { return x <= th; };
            int want = INT_MAX; for (auto& [p, v] : m) if (l <= p.first && p.first < r && p.second >= d && v > th) want = std::min(want, p.second);
            MC_EQ(s.max_up(l, r, d, f), want, "max_up x in [" << l << "," << r << ") from " << d << " th=" << th);
            int wd = INT_MIN; for (auto& [p, v] : m) if (l <= p.first && p.first < r && p.second < d && v > th) wd = std::max(wd, p.second + 1);
            MC_EQ(s.min_down(l, r, d, f), wd, "min_down x in [" << l << "," << r << ") upto " << d << " th=" << th);
        }
    });
}
MC_GROUP(large_sizes) {
    mc::bound("dense n x m with n or m in {1,2,3,31,32,33,64,65,127,128,129,130,200,256,257,300} against 3 short other sides; compressed and sparse trees with 1..300 coordinates on a line and a diagonal: every point set once, prefix/suffix/window queries at every coordinate");
    for (int n : { 1, 2, 3, 31, 32, 33, 64, 65, 127, 128, 129, 130, 200, 256, 257, 300 }) for (int m : { 1, 2, 3 }) for (int tr = 0; tr < 2; ++tr) {
        MC_CASE(n, m, tr); int N = tr ? m : n, M = tr ? n : m; std::vector<std::vector<u>> a(N, std::vector<u>(M)); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) a[i][j] = K(i * 1000 + j);
        suisen::SegmentTree2D<u, add, zero> s(a), t(N, M); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) t.set(i, j, a[i][j]);
        std::vector<std::vector<u>> p(N + 1, std::vector<u>(M + 1)); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) p[i + 1][j + 1] = a[i][j] + p[i][j + 1] + p[i + 1][j] - p[i][j];
        auto q = [&](int l, int r, int d, int w) { u x = p[r][w] - p[l][w] - p[r][d] + p[l][d]; MC_EQ(s(l, r, d, w), x, "rect " << l << "," << r << "," << d << "," << w); MC_EQ(t(l, r, d, w), x, "rect (set) " << l << "," << r << "," << d << "," << w); };
        for (int l = 0; l <= N; ++l) for (int d = 0; d <= M; ++d) { q(l, N, d, M); q(0, l, 0, d); q(l, std::min(N, l + 5), d, std::min(M, d + 5)); q(l / 2, l, d / 3, d); }
    }
    for (int n : { 1, 2, 7, 8, 9, 64, 65, 127, 128, 129, 200, 256, 257, 300 }) {
        MC_CASE(n); suisen::CompressedSegmentTree<u, add, zero> a; suisen::CompressedSegmentTree<u, add, zero, 2> b; suisen::SegmentTree2DSparse<u, add, zero> e(n);
        auto X = [&](int i) { return i * 7 - 500; }; auto Y = [&](int i) { return (i * 37) % 301 * 2 - 100; }; std::vector<u> v(n); for (int i = n; i--;) { a.add_point(X(i)); b.add_point({ X(i), Y(i) }); e.add_point(X(i), Y(i)); } a.build(); b.build(); e.build();
        for (int i = 0; i < n; ++i) { v[i] = K(i); a.set(X(i), v[i]); if (i & 1) b.set({ X(i), Y(i) }, v[i]); else b.apply({ X(i), Y(i) }, v[i]); e.set(X(i), Y(i), v[i]); }
        for (int i = 0; i < n; ++i) { MC_EQ(a.get(X(i)), v[i], "1-d get"); MC_EQ(b.get({ X(i), Y(i) }), v[i], "2-d get"); MC_EQ(e.get(X(i), Y(i)), v[i], "sparse get"); }
        for (int i = 0; i <= n; ++i) for (int k = 0; k < 6; ++k) { int l = k == 0 ? 0 : k == 1 ? i : k == 2 ? i / 2 : k == 3 ? std::max(0, i - 3) : i, r = k == 1 ? n : k == 5 ? std::min(n, i + 130) : k == 4 ? std::min(n, i + 1) : i, d = k == 2 ? -100 : k == 3 ? -9000 : (i * 11) % 500 - 120, w = d + (k % 2 ? 9999 : 200); u x1 = 0, x2 = 0; for (int j = l; j < r; ++j) { x1 += v[j]; if (d <= Y(j) && Y(j) < w) x2 += v[j]; } MC_EQ(a.query(X(l), X(r)), x1, "1-d"); MC_EQ(b.query({ std::pair<int, int>{ X(l), X(r) }, std::pair<int, int>{ d, w } }), x2, "2-d"); MC_EQ(e(X(l), X(r), d, w), x2, "sparse"); }
    }
}
MC_MAIN
