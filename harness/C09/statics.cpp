#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
#include "library/datastructure/slope_trick.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/rmq_pm1_with_index.hpp"
#include "free.hpp"
using namespace suisen; using std::string; using VI = std::vector<int>;
// interval hull: idempotent, non-commutative on the order of the ends: the product of a range is exactly its end points
struct Hull { int l, r; bool operator==(const Hull& o) const { return l == o.l && r == o.r; } };
static std::ostream& operator<<(std::ostream& o, const Hull& h) { return o << "[" << h.l << "," << h.r << "]"; }
static bool bad = false;
static Hull hop(Hull a, Hull b) { if (a.l < 0 || b.l < 0) { bad |= !(a.l < 0 && b.l < 0 ? true : true); return a.l < 0 ? b : a; } if (b.l < a.l || b.r < a.r || b.l > a.r + 1) bad = true; return { a.l, b.r }; }   // bad: operands swapped or with a gap
static Hull he() { return { -1, -1 }; }
static int imin(int a, int b) { return std::min(a, b); } static int ie() { return INT_MAX; }
MC_GROUP(sparse_table) {
    mc::bound("n<=70(140): every range, free idempotent product (positions, order and gaps visible); all arrays over 3 values to n=6; n=0 and default constructed");
    for (int n = 0; n <= mc::T(70, 140); ++n) { MC_CASE(n); std::vector<Hull> a; for (int i = 0; i < n; ++i) a.push_back({ i, i }); SparseTable<Hull, hop, he> s(a), t{ std::vector<Hull>(a) }; bad = false;
        for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { Hull w = l == r ? he() : Hull{ l, r - 1 }; MC_EQ(s(l, r), w, "(" << l << "," << r << ")"); MC_EQ(t.prod(l, r), w, "prod"); } MC_CHECK(!bad, "operands adjacent or overlapping, in order"); }
    SparseTable<Hull, hop, he> d; MC_EQ(d(0, 0), he(), "default constructed, empty range"); d = SparseTable<Hull, hop, he>(std::vector<Hull>{ { 0, 0 } }); MC_EQ(d(0, 1), (Hull{ 0, 0 }), "assigned");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 6); VI a(n); for (int& x : a) x = c.choose(3); SparseTable<int, imin, ie> s(a); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { int w = ie(); for (int i = l; i < r; ++i) w = std::min(w, a[i]); MC_EQ(s(l, r), w, "min"); } });
}
template <bool MN> static void rmq(const VI& a, const RMQpm1<MN>& q, const RMQpm1WithIndex<MN>& qi, int l, int r) {
    int w = MN ? INT_MAX : INT_MIN; for (int i = l; i < r; ++i) w = MN ? std::min(w, a[i]) : std::max(w, a[i]); MC_EQ(q(l, r), w, "rmq(" << l << "," << r << ")"); auto p = qi(l, r); MC_EQ(p.first, w, "rmq with index, value(" << l << "," << r << ")"); if (l < r) MC_CHECK(l <= p.second && p.second < r && a[p.second] == w, "index " << p.second << " in range and attains the value");
}
template <bool MN> static void rmq_all() {
    mc::bound("every +-1 walk of length <=11(14), all ranges; every 16-step block pattern class (6-bit head x tail, repeated) across block borders to length 70, all ranges");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::T(10, 13)); VI a(n); a[0] = c.range(-1, 1) * 1000000; for (int i = 1; i < n; ++i) a[i] = a[i - 1] + (c.flag() ? 1 : -1); RMQpm1<MN> q(a); RMQpm1WithIndex<MN> qi(a); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) rmq<MN>(a, q, qi, l, r); });
    for (int n : { 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 70 }) for (int pat = 0; pat < 64; ++pat) { MC_CASE(n, pat); VI a(n); a[0] = pat - 30; for (int i = 1; i < n; ++i) a[i] = a[i - 1] + ((pat >> (i * i / 3 + i) % 6 & 1) ? 1 : -1); RMQpm1<MN> q(a); RMQpm1WithIndex<MN> qi(a); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) rmq<MN>(a, q, qi, l, r); }
    // all 2^15 step patterns inside one block and in the tail block, with the queries that read the whole table
    for (int m = 0; m < (mc::thorough() ? 1 << 15 : 1 << 15); m += mc::thorough() ? 1 : 3) { if (m % 64 == 0) MC_CASE(m); VI a(33); a[0] = 0; for (int i = 1; i < 33; ++i) a[i] = a[i - 1] + ((m >> (i - 1) % 15 & 1) ? 1 : -1); RMQpm1<MN> q(a); RMQpm1WithIndex<MN> qi(a); for (auto p : { std::pair<int, int>{ 0, 16 }, { 1, 16 }, { 16, 32 }, { 3, 29 }, { 0, 33 }, { 17, 31 }, { 5, 9 } }) rmq<MN>(a, q, qi, p.first, p.second); }
    RMQpm1<MN> z{ VI() }; MC_EQ(z(0, 0), MN ? INT_MAX : INT_MIN, "empty"); RMQpm1WithIndex<MN> zi{ VI() }; MC_EQ(zi(0, 0).second, -1, "empty");
}
MC_GROUP(rmq_pm1_min) { rmq_all<true>(); }
MC_GROUP(rmq_pm1_max) { rmq_all<false>(); }
template <class B, class C> static void cart(C comp) {
    mc::bound("every sequence over 4 values to length 6(7), ladders to 60");
    auto chk = [&](const VI& a) {
        int n = a.size(); B b(a); CartesianTree t = b.build(), u = B::build(a); MC_EQ((std::vector<std::array<int, 2>>&)t, (std::vector<std::array<int, 2>>&)u, "static build"); MC_EQ(t.root, u.root, "root"); MC_EQ((int)t.size(), n, "size");
        if (!n) { MC_EQ(t.root, CartesianTree::absent, "no root"); MC_EQ(t.ranges().size(), size_t(0), "no ranges"); return; }
        VI par(n, -2), in; std::vector<std::pair<int, int>> rg(n); std::function<void(int, int, int, int)> rec = [&](int v, int p, int l, int r) { if (v == CartesianTree::absent) { MC_EQ(l, r, "missing child only for an empty part"); return; } MC_CHECK(l <= v && v < r, "node " << v << " in its interval"); par[v] = p; if (p >= 0) MC_CHECK(!comp(a[v], a[p]), "heap order: child " << v << " not before parent " << p); rg[v] = { l, r }; rec(t[v][0], v, l, v); rec(t[v][1], v, v + 1, r); }; rec(t.root, -1, 0, n);
        for (int i = 0; i < n; ++i) { MC_EQ(b.parent(i), par[i], "parent " << i); MC_EQ(b[i], par[i], "[] " << i); } MC_EQ(t.ranges(), rg, "ranges"); };
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(6, 7)); VI a(n); for (int& x : a) x = c.choose(4); chk(a); });
    for (int n = 0; n <= 60; ++n) for (int p = 1; p < 12; ++p) { MC_CASE(n, p); VI a(n); for (int i = 0; i < n; ++i) a[i] = (i * p * 7 + i / p) % 31; chk(a); }
    CartesianTree d; MC_EQ(d.ranges().size(), size_t(0), "default constructed"); MC_EQ(d.root, CartesianTree::absent, "default root");
}
MC_GROUP(cartesian) { cart<MinCartesianTreeBuilder>(std::less<>()); cart<MaxCartesianTreeBuilder>(std::greater<>()); }
// ---------------------------------------------------------------- sliding window
template <class C> static void window(const char* nm, bool mx, bool left) {
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, 5); VI a(n); for (int& x : a) x = c.choose(3); sliding_window_minimum<int, C> w(n, [&](int i) { return a[i]; }); int l = 0, r = 0;
        while (l < n) { int nl = l, nr = r; int how = c.choose(2); if (how == 0) { if (r == n) return; ++nr; w.proc_right(); } else { if (l == r) { if (r == n) return; nl = c.range(l, n), nr = c.range(nl, n); w.proc(nl, nr); if (nl == l && nr == r) return; } else ++nl, w.proc_left(); }
            l = nl, r = nr; MC_LOG("window " << l << "," << r); MC_EQ(w.get_left(), l, "left"); MC_EQ(w.get_right(), r, "right"); MC_EQ(w.get_window_size(), r - l, "size");
            if (l < r) { int k = l; for (int i = l + 1; i < r; ++i) if (mx ? (a[i] > a[k] || (!left && a[i] == a[k])) : (a[i] < a[k] || (!left && a[i] == a[k]))) k = i; MC_EQ(w.arg_query(), k, nm << " arg"); MC_EQ(w.query(), a[k], nm << " value"); } }
    });
}
MC_GROUP(sliding_window) {
    mc::bound("every array over 3 values to length 5, every schedule of window moves, 4 tie modes");
    window<prioritizing_mode::left_most_min<int>>("left min", false, true); window<prioritizing_mode::right_most_min<int>>("right min", false, false); window<prioritizing_mode::left_most_max<int>>("left max", true, true); window<prioritizing_mode::right_most_max<int>>("right max", true, false);
    sliding_window_minimum<int> w(9, [](int i) { return (i * 5) % 9; }); for (int l = 0; l < 9; ++l) { w.proc_right(std::min(9, l + 4)); w.proc_left(l); int k = l; for (int i = l; i < std::min(9, l + 4); ++i) if ((i * 5) % 9 < (k * 5) % 9) k = i; MC_EQ(w.arg_query(), k, "default mode"); }
}
// ---------------------------------------------------------------- slope trick
struct PL { static constexpr int L = 60; std::vector<long long> f = std::vector<long long>(2 * L + 1, 0);
    long long at(int x) const { if (x < -L) return f[0] + (f[0] - f[1]) * (-L - x); if (x > L) return f[2 * L] + (f[2 * L] - f[2 * L - 1]) * (x - L); return f[x + L]; } };
template <class T> static void slope() {
    mc::explore([&](mc::Chooser& c) {
        SlopeTrick<T> s; PL p; int D = mc::depth(sizeof(T) == 8 ? 4 : 3, 5);
        for (int d = 0; d < D; ++d) {
            int k = c.choose(9); PL q; auto each = [&](auto g) { for (int x = -PL::L; x <= PL::L; ++x) q.f[x + PL::L] = g(x); };
            if (k == 0) { int a = c.range(-2, 2); MC_LOG("add_right " << a); s.add_right(a); each([&](int x) { return p.at(x) + std::max(0, x - a); }); }
            else if (k == 1) { int a = c.range(-2, 2); MC_LOG("add_left " << a); s.add_left(a); each([&](int x) { return p.at(x) + std::max(0, a - x); }); }
            else if (k == 2) { int a = c.range(-1, 1) * 2; MC_LOG("add_abs " << a); s.add_abs(a); each([&](int x) { return p.at(x) + std::abs(x - a); }); }
            else if (k == 3) { MC_LOG("cumulative_min_left"); s.cumulative_min_left(); long long m = LLONG_MAX; each([&](int x) { m = std::min(m, p.at(x)); if (x == -PL::L && p.at(-PL::L - 1) < m) m = LLONG_MIN / 4; return m; }); if (q.f[0] < -1e15) return; }
            else if (k == 4) { MC_LOG("cumulative_min_right"); s.cumulative_min_right(); long long m = LLONG_MAX; for (int x = PL::L; x >= -PL::L; --x) { m = std::min(m, p.at(x)); q.f[x + PL::L] = m; } }
            else if (k == 5) { int a = c.range(0, 2); MC_LOG("<<= " << a); s <<= a; each([&](int x) { return p.at(x + a); }); }
            else if (k == 6) { int a = c.range(-1, 1); MC_LOG("translate " << a); if (a == 1 && d % 2) s >>= a; else s.translate(a); each([&](int x) { return p.at(x - a); }); }
            else if (k == 7) { int a = c.range(-1, 1), b = c.range(a, 2); MC_LOG("window " << a << " " << b); s.sliding_window_minimum(a, b); each([&](int x) { long long m = LLONG_MAX; for (int y = x - b; y <= x - a; ++y) m = std::min(m, p.at(y)); return m; }); }
            else { MC_LOG("add_const"); s.add_const(-3); each([&](int x) { return p.at(x) - 3; }); }
            p = q; long long m = *std::min_element(p.f.begin(), p.f.end()); MC_EQ((long long)s.min(), m, "min"); auto [lo, hi] = s.argmin_range(); int a = 0, b = 2 * PL::L; while (p.f[a] != m) ++a; while (p.f[b] != m) --b;
            if (a == 0) MC_CHECK((long long)lo < -1000000, "argmin unbounded to the left, got " << (long long)lo); else MC_EQ((long long)lo, (long long)a - PL::L, "argmin left"); if (b == 2 * PL::L) MC_CHECK((long long)hi > 1000000, "argmin unbounded to the right"); else MC_EQ((long long)hi, (long long)b - PL::L, "argmin right");
        }
        auto [neg, base, pos] = s.lines(); auto fin = [](std::vector<T> v) { std::vector<long long> r; for (auto x : v) if (x > -1000000 && x < 1000000) r.push_back((long long)x); return r; }; auto ng = fin(neg), ps = fin(pos); MC_EQ((int)ng.size() + 1, (int)neg.size(), "one sentinel"); MC_EQ((int)ps.size() + 1, (int)pos.size(), "one sentinel"); MC_CHECK(std::is_sorted(neg.begin(), neg.end()) && std::is_sorted(pos.begin(), pos.end()), "sorted");
        for (int x = -PL::L + 25; x <= PL::L - 25; ++x) { long long v = (long long)base; for (auto e : ng) v += std::max(0LL, e - x); for (auto e : ps) v += std::max(0LL, x - e); MC_EQ(v, p.at(x), "lines() at " << x); } mc::outcome(mc::hash_range(p.f));
    });
}
MC_GROUP(slope_trick_ll) { mc::bound("every history of 9 operation kinds with small arguments to depth 4(5), compared pointwise"); slope<long long>(); }
MC_GROUP(slope_trick_int) { mc::bound("the histories of slope_trick_ll with int costs"); slope<int>(); }
MC_PERIODIC(slope_trick_ll, 20, 8, false) MC_PERIODIC(slope_trick_int, 20, 8, false)
#include "library/datastructure/sliding_window_minimum.hpp"
MC_GROUP(long_windows) {
    mc::bound("sliding_window_minimum over 200 elements (periodic with values 0..6 and the same with a single low value at every position): windows of widths 1, 2, 17, 64, 150 moved over the whole sequence");
    for (int p = -1; p < 200; ++p) for (int w : { 1, 2, 17, 64, 150 }) { if (p >= 0 && w != 17 && w != 64) continue; MC_CASE(p, w); std::vector<int> a(200); for (int i = 0; i < 200; ++i) a[i] = i * 5 % 7; if (p >= 0) a[p] = -1; suisen::sliding_window_minimum<int> s(200, [&](int i) { return a[i]; }); for (int l = 0; l + w <= 200; ++l) { s.proc(l, l + w); int b = a[l]; for (int i = l; i < l + w; ++i) b = std::min(b, a[i]); MC_EQ(s.query(), b, "minimum at " << l); } mc::step(); }
}
MC_MAIN
