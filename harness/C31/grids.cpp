// mc: flags='-O1'
// Rectangles and squares in 0/1 grids, unions of rectangles, frontier connectivity: every small grid.
#include "mc.hpp"
#include <algorithm>
#include <set>
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
#include "library/algorithm/area_of_union_of_rectangles.hpp"
#include "library/dp/grid_connectivity.hpp"
using namespace suisen; using ll = long long; using R4 = std::tuple<int, int, int, int>;
static std::vector<std::pair<int, int>> shapes(int lim) { std::vector<std::pair<int, int>> v; for (int n = 0; n <= 6; ++n) for (int m = 0; m <= lim; ++m) if (n * m <= lim) v.push_back({n, m}); return v; }
static bool full(const std::vector<std::vector<int>>& g, int u, int d, int l, int r) { int n = g.size(), m = n ? g[0].size() : 0; if (u < 0 || l < 0 || d > n || r > m) return false; for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) if (!g[i][j]) return false; return true; }
MC_GROUP(max_rect) {
    mc::bound("every 0/1 grid of area <=12 (16) incl. empty and one-line shapes: maximum rectangle and square (area and a witness), every reported rectangle is all-ones, every maximal rectangle is reported exactly once");
    auto sh = shapes(mc::T(12, 16));
    mc::explore([&](mc::Chooser& c) {
        auto [n, m] = c.pick(sh); if (n == 0 && m) return; int bits = c.choose(1 << (n * m)); std::vector<std::vector<int>> g(n, std::vector<int>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) g[i][j] = bits >> (i * m + j) & 1;
        int best = 0, sq = 0; std::set<R4> mx; for (int u = 0; u < n; ++u) for (int d = u + 1; d <= n; ++d) for (int l = 0; l < m; ++l) for (int r = l + 1; r <= m; ++r) if (full(g, u, d, l, r)) { best = std::max(best, (d - u) * (r - l)); if (d - u == r - l) sq = std::max(sq, (d - u) * (r - l)); if (!full(g, u - 1, d, l, r) && !full(g, u, d + 1, l, r) && !full(g, u, d, l - 1, r) && !full(g, u, d, l, r + 1)) mx.insert({u, d, l, r}); }
        auto [a, w] = maximum_rectngle(g); MC_EQ(a, best, "maximum rectangle"); if (a) { auto [u, d, l, r] = w; MC_CHECK(full(g, u, d, l, r) && (d - u) * (r - l) == a, "witness"); }
        auto [b, x] = maximum_square(g); MC_EQ(b, sq, "maximum square"); if (b) { auto [u, d, l, r] = x; MC_CHECK(full(g, u, d, l, r) && (d - u) * (r - l) == b && d - u == r - l, "square witness"); }
        std::map<R4, int> got; maximal_rectangles(g, [&](int u, int d, int l, int r) { if (u == d || l == r) return; MC_CHECK(full(g, u, d, l, r), "reported rectangle is full"); ++got[{u, d, l, r}]; });
        for (auto& r : mx) MC_EQ(got.count(r) ? got[r] : 0, 1, "maximal rectangle reported once"); mc::outcome(bits); mc::step();
    });
}
MC_GROUP(histogram) {
    mc::bound("every histogram of length <=7 (8) with heights 0..3: reported (l,r,h) fit below the bars, every maximal one is reported once; maximum area; long long heights");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, mc::T(7, 8)); std::vector<ll> h(n); for (auto& v : h) v = c.choose(4) * 3000000000LL; ll best = 0; std::set<std::tuple<int, int, ll>> mx;
        for (int l = 0; l < n; ++l) { ll m = h[l]; for (int r = l + 1; r <= n; ++r) { m = std::min(m, h[r - 1]); best = std::max(best, m * (r - l)); if (m > 0 && (l == 0 || h[l - 1] < m) && (r == n || h[r] < m)) mx.insert({l, r, m}); } }
        ll got = 0; std::map<std::tuple<int, int, ll>, int> rep; maximal_rectangles_hist(h, [&](int l, int r, ll v) { MC_CHECK(0 <= l && l < r && r <= n, "range"); MC_CHECK(*std::min_element(h.begin() + l, h.begin() + r) >= v, "fits"); got = std::max(got, v * (r - l)); ++rep[{l, r, v}]; });
        MC_EQ(got, best, "largest area"); for (auto& t : mx) MC_EQ(rep[t], 1, "maximal reported once"); mc::step();
    });
}
MC_GROUP(area) {
    mc::bound("every multiset of <=3 rectangles on a 3x3-cell (4x3) lattice incl. degenerate ones, coordinates scaled to +-1e9-sized values");
    mc::explore([&](mc::Chooser& c) {
        int k = c.range(0, 3), W = 3, H = k == 3 ? 2 : 3; if (mc::thorough()) H = 3; std::vector<std::tuple<ll, ll, ll, ll>> v; std::vector<std::tuple<int, int, int, int>> vi; std::vector<std::vector<char>> g(W, std::vector<char>(H)); const ll X[4] = {-1000000000LL, -7, 5, 999999999LL}; ll Y[4] = {-30, 0, 1, 1000000000LL}; bool deg = k < 3 && c.flag(); int prev = 0; 
        for (int i = 0; i < k; ++i) { int code = 0; std::vector<std::pair<int, int>> xs, ys; for (int a = 0; a <= W; ++a) for (int b = a + !deg; b <= W; ++b) xs.push_back({a, b}); for (int a = 0; a <= H; ++a) for (int b = a + !deg; b <= H; ++b) ys.push_back({a, b}); code = prev + c.choose((int)(xs.size() * ys.size()) - prev); if (!mc::thorough()) prev = code; auto [l, r] = xs[code / ys.size()]; auto [d, u] = ys[code % ys.size()]; v.emplace_back(X[l], X[r], Y[d], Y[u]); vi.emplace_back(l, r, d, u); for (int x = l; x < r; ++x) for (int y = d; y < u; ++y) g[x][y] = 1; }
        ll w = 0; int wi = 0; for (int x = 0; x < W; ++x) for (int y = 0; y < H; ++y) if (g[x][y]) w += (X[x + 1] - X[x]) * (Y[y + 1] - Y[y]), ++wi;
        MC_LOG(v.size()); MC_EQ(area_of_union_of_rectangles<ll>(v), w, "area"); MC_EQ(area_of_union_of_rectangles<int>(vi), wi, "int area"); mc::step();
    });
}
MC_GROUP(frontier) {
    mc::bound("every 0/1 grid of width <=4 and <=4 rows (width 5 x 3 rows), row by row: frontier labels, number of frontier components and of forgotten components against flood fill");
    mc::explore([&](mc::Chooser& c) {
        int m = c.range(1, mc::T(4, 5)), n = m <= 3 ? mc::T(4, 5) : m == 4 ? 4 : 3; std::vector<int> st(m, -1); std::vector<int> rows; int forgot = 0;
        for (int i = 0; i < n; ++i) {
            int row = c.choose(1 << m); rows.push_back(row); auto res = grid_connectivity::transition(st, row); st = res.next_state; forgot += res.forget_comp_num;
            int R = rows.size(); std::vector<int> id(R * m, -1); int k = 0; std::function<void(int, int)> dfs = [&](int x, int y) { if (x < 0 || y < 0 || x >= R || y >= m || !(rows[x] >> y & 1) || id[x * m + y] >= 0) return; id[x * m + y] = k; dfs(x + 1, y); dfs(x - 1, y); dfs(x, y + 1); dfs(x, y - 1); }; for (int x = 0; x < R; ++x) for (int y = 0; y < m; ++y) if ((rows[x] >> y & 1) && id[x * m + y] < 0) { dfs(x, y); ++k; }
            std::map<int, int> nm; std::vector<int> want(m, -1); for (int y = 0; y < m; ++y) { int v = id[(R - 1) * m + y]; if (v >= 0) { if (!nm.count(v)) { int t = nm.size(); nm[v] = t; } want[y] = nm[v]; } }
            MC_CHECK(st == want, "frontier labels"); MC_EQ(res.frontier_comp_num, (int)nm.size(), "frontier components"); MC_EQ(forgot, k - (int)nm.size(), "finished components"); mc::outcome(mc::hash_range(st)); mc::step();
        }
    });
}
MC_GROUP(medium_grids) {
    mc::bound("grids of 12x14, 20x17, 26x25, 33x9, 9x33, 3x70, 70x2, 1x40, 40x1 in ten patterns (full, stripes, blocks, residues, with each of 5 holes): maximum rectangle and square with witness, maximal rectangles; histograms of 40..400 bars; unions of 40..300 rectangles with coordinates to 10^9 against coordinate compression");
    for (auto [n, m] : std::vector<std::pair<int, int>>{ { 12, 14 }, { 20, 17 }, { 1, 40 }, { 40, 1 }, { 33, 9 }, { 9, 33 }, { 3, 70 }, { 70, 2 }, { 26, 25 } }) for (int kind = 0; kind < 10; ++kind) { MC_CASE(n, m, kind); std::vector<std::vector<int>> g(n, std::vector<int>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) g[i][j] = kind == 0 ? 1 : kind == 1 ? i % 4 != 0 : kind == 2 ? j % 5 != 2 : kind == 3 ? (i * i + j * j) % 7 != 1 : kind == 4 ? i <= j : kind == 5 ? (i * 13 + j * 29) % 11 != 0 : kind == 6 ? !(i == n / 2 && j == m / 2) : kind == 7 ? i + j != m : kind == 8 ? (i / 3 + j / 4) % 2 : (i ^ j) % 3 != 0;
        std::vector<std::vector<int>> ps(n + 1, std::vector<int>(m + 1)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) ps[i + 1][j + 1] = ps[i][j + 1] + ps[i + 1][j] - ps[i][j] + g[i][j]; auto fl = [&](int u, int d, int l, int r) { return u >= 0 && l >= 0 && d <= n && r <= m && ps[d][r] - ps[u][r] - ps[d][l] + ps[u][l] == (d - u) * (r - l); }; int best = 0, sq = 0; std::set<R4> mx; for (int u = 0; u < n; ++u) for (int d = u + 1; d <= n; ++d) for (int l = 0; l < m; ++l) for (int r = l + 1; r <= m; ++r) if (fl(u, d, l, r)) { best = std::max(best, (d - u) * (r - l)); if (d - u == r - l) sq = std::max(sq, (d - u) * (r - l)); if (!fl(u - 1, d, l, r) && !fl(u, d + 1, l, r) && !fl(u, d, l - 1, r) && !fl(u, d, l, r + 1)) mx.insert({ u, d, l, r }); mc::step(); }
        auto [a, w] = maximum_rectngle(g); MC_EQ(a, best, "maximum rectangle"); if (a) { auto [u, d, l, r] = w; MC_CHECK(fl(u, d, l, r) && (d - u) * (r - l) == a, "witness"); } auto [b, x] = maximum_square(g); MC_EQ(b, sq, "maximum square"); if (b) { auto [u, d, l, r] = x; MC_CHECK(fl(u, d, l, r) && (d - u) * (r - l) == b && d - u == r - l, "square witness"); } std::map<R4, int> got; maximal_rectangles(g, [&](int u, int d, int l, int r) { if (u == d || l == r) return; MC_CHECK(fl(u, d, l, r), "reported rectangle is full"); ++got[{ u, d, l, r }]; }); for (auto& r : mx) MC_EQ(got.count(r) ? got[r] : 0, 1, "maximal rectangle reported once"); }
    for (int n : { 40, 130, 400 }) for (int kind = 0; kind < 6; ++kind) { MC_CASE(n, kind); std::vector<ll> h(n); for (int i = 0; i < n; ++i) h[i] = (kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? 5 : kind == 3 ? (i * i) % 17 : kind == 4 ? std::abs(i - n / 2) : (i * 7919) % 101) * 3000000000LL; ll best = 0; for (int l = 0; l < n; ++l) { ll m = h[l]; for (int r = l + 1; r <= n; ++r) m = std::min(m, h[r - 1]), best = std::max(best, m * (r - l)); } ll got = 0; maximal_rectangles_hist(h, [&](int l, int r, ll v) { MC_CHECK(*std::min_element(h.begin() + l, h.begin() + r) >= v, "fits"); got = std::max(got, v * (r - l)); }); MC_EQ(got, best, "largest area"); }
    for (int k : { 40, 129, 300 }) for (int kind = 0; kind < 4; ++kind) { MC_CASE(k, kind, 7); std::vector<std::tuple<ll, ll, ll, ll>> v; std::vector<ll> xs, ys; struct B { ll l, r, d, u; }; std::vector<B> bs; for (int i = 0; i < k; ++i) { ll l = kind == 0 ? i * 3 : kind == 1 ? (i * 7919LL) % 1009 * 1900000 - 950000000 : kind == 2 ? i % 10 * 100 : i, r = l + (kind == 0 ? 5 : kind == 1 ? 90000000 + i : kind == 2 ? 60 + i : 2 * (k - i)), d = kind == 0 ? -i : kind == 1 ? (i * 104729LL) % 997 * 1900000 - 900000000 : kind == 2 ? i / 10 * 50 : i, u = d + (kind == 0 ? 2 : kind == 1 ? 70000000 - i : kind == 2 ? 70 : 2 * (k - i)); bs.push_back({ l, r, d, u }); xs.push_back(l); xs.push_back(r); ys.push_back(d); ys.push_back(u); } for (auto* q : { &xs, &ys }) { std::sort(q->begin(), q->end()); q->erase(std::unique(q->begin(), q->end()), q->end()); } auto ix = [](const std::vector<ll>& q, ll z) { return std::lower_bound(q.begin(), q.end(), z) - q.begin(); }; std::vector<std::vector<char>> g(xs.size(), std::vector<char>(ys.size())); for (auto& b : bs) for (auto x = ix(xs, b.l); x < ix(xs, b.r); ++x) for (auto y = ix(ys, b.d); y < ix(ys, b.u); ++y) g[x][y] = 1; ll w = 0; for (size_t x = 0; x + 1 < xs.size(); ++x) for (size_t y = 0; y + 1 < ys.size(); ++y) if (g[x][y]) w += (xs[x + 1] - xs[x]) * (ys[y + 1] - ys[y]); for (auto& b : bs) v.push_back({ b.l, b.r, b.d, b.u }); MC_EQ(area_of_union_of_rectangles<ll>(v), w, "area of the union"); mc::step(); }
}
MC_GROUP(frontier_wide) {
    mc::bound("grid frontiers of every width 5..28, 10 rows in eight patterns (combs, spirals, stripes, residues): labels, frontier and finished components after every row against flood fill");
    for (int m = 5; m <= 28; ++m) for (int kind = 0; kind < 8; ++kind) { MC_CASE(m, kind); const int n = 10; std::vector<int> st(m, -1), rows; int forgot = 0; for (int i = 0; i < n; ++i) { int row = 0; for (int j = 0; j < m; ++j) { bool b = kind == 0 ? j % 2 == 0 || i == n - 1 : kind == 1 ? j % 2 == 0 || i == 0 : kind == 2 ? (i * i + j * j) % 5 != 1 : kind == 3 ? (i * 13 + j * 7) % 3 != 0 : kind == 4 ? i % 2 == 0 || (i % 4 == 1 ? j == m - 1 : j == 0) : kind == 5 ? (j >= i && j < m - i && (i % 2 == 0 || j % 2 == 0)) : kind == 6 ? std::min({ j, m - 1 - j, i }) % 2 == 0 : (i ^ j) & 1; row |= (int)b << j; } rows.push_back(row);
            auto res = grid_connectivity::transition(st, row); st = res.next_state; forgot += res.forget_comp_num; int R = rows.size(); std::vector<int> id(R * m, -1); int k = 0; std::function<void(int, int)> dfs = [&](int x, int y) { if (x < 0 || y < 0 || x >= R || y >= m || !(rows[x] >> y & 1) || id[x * m + y] >= 0) return; id[x * m + y] = k; dfs(x + 1, y); dfs(x - 1, y); dfs(x, y + 1); dfs(x, y - 1); }; for (int x = 0; x < R; ++x) for (int y = 0; y < m; ++y) if ((rows[x] >> y & 1) && id[x * m + y] < 0) { dfs(x, y); ++k; }
            std::map<int, int> nm; std::vector<int> want(m, -1); for (int y = 0; y < m; ++y) { int v = id[(R - 1) * m + y]; if (v >= 0) { if (!nm.count(v)) { int t = nm.size(); nm[v] = t; } want[y] = nm[v]; } } MC_CHECK(st == want, "frontier labels"); MC_EQ(res.frontier_comp_num, (int)nm.size(), "frontier components"); MC_EQ(forgot, k - (int)nm.size(), "finished components"); mc::step(); } }
}
MC_MAIN
