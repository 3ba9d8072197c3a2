#include "mc.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/datastructure/util/priority_sum.hpp"
#include "library/datastructure/permutation_tree.hpp"
using namespace suisen; using namespace std;
// ---- RangeSet: model is a sorted list of disjoint closed segments (as offsets from base)
typedef vector<pair<int, int>> Segs;
static Segs norm(Segs s) { sort(s.begin(), s.end()); return s; }
static void m_insert(Segs& s, int l, int r, bool adj) {
    Segs o; int a = adj ? 1 : 0;
    for (bool ch = true; ch;) { ch = false; o.clear(); for (auto [x, y] : s) if (x <= r + a && l <= y + a) { if (x < l) l = x, ch = true; if (y > r) r = y, ch = true; } else o.push_back({ x, y }); if (ch) continue; }
    o.push_back({ l, r }); s = norm(o);
}
static void m_erase(Segs& s, int l, int r) { Segs o; for (auto [x, y] : s) { if (y < l || x > r) { o.push_back({ x, y }); continue; } if (x < l) o.push_back({ x, l - 1 }); if (y > r) o.push_back({ r + 1, y }); } s = norm(o); }
static int total(const Segs& s) { int t = 0; for (auto [x, y] : s) t += y - x + 1; return t; }
template <class T, bool ADJ> void rs_tour(T base, int W, T top_sentinel_ok) {
    vector<pair<int, int>> rg; for (int l = 0; l < W; ++l) for (int r = l; r < W; ++r) rg.push_back({ l, r }); int R = rg.size();
    RangeSet<T, ADJ> s; Segs cur; (void)top_sentinel_ok;
    mc::tour(Segs{}, 2 * R, [](const Segs& m) { return m; }, [&](Segs& m, int o) { auto [l, r] = rg[o % R]; o < R ? m_insert(m, l, r, ADJ) : m_erase(m, l, r); return true; },
        [&](int o, const Segs& m) {
            auto [l, r] = rg[o % R]; string ctx = string(o < R ? "insert " : "erase ") + to_string(l) + ".." + to_string(r) + " before " + mc::show(cur) + " base=" + mc::show(base);
            T got = o < R ? (l == r ? s.insert(base + l) : s.insert(base + l, base + r)) : (l == r ? s.erase(base + l) : s.erase(base + l, base + r));
            MC_EQ(got, T(o < R ? total(m) - total(cur) : total(cur) - total(m)), ctx); cur = m;
            MC_EQ(s.size(), T(total(m)), ctx); MC_EQ(s.number_of_elements(), T(total(m)), ctx); MC_EQ(s.number_of_ranges(), (int)m.size(), ctx);
            Segs g; for (auto [x, y] : s) g.push_back({ int(x - base), int(y - base) }); MC_EQ(g, m, ctx);
            for (int x = 0; x < W; ++x) { int at = -1; for (int i = 0; i < (int)m.size(); ++i) if (m[i].first <= x && x <= m[i].second) at = i; MC_EQ(s.contains(base + x), at >= 0, ctx);
                auto it = s.find_range(base + x); MC_EQ(it != s.end(), at >= 0, ctx); if (at >= 0) MC_EQ(int(it->first - base), m[at].first, ctx);
                for (int y = 0; y < W; ++y) MC_EQ(s.in_the_same_range(base + x, base + y), at >= 0 && m[at].first <= y && y <= m[at].second, ctx);
                if constexpr (ADJ) { if (!(at >= 0 && base + m[at].second == numeric_limits<T>::max())) MC_EQ(s.minimum_excluded(base + x), T(at < 0 ? base + x : base + m[at].second + 1), ctx); if (!(at >= 0 && base + m[at].first == numeric_limits<T>::min())) MC_EQ(s.maximum_excluded(base + x), T(at < 0 ? base + x : base + m[at].first - 1), ctx); }
            }
            T sz = s.size(); MC_EQ(s.insert(base + 1, base), T(0), ctx); MC_EQ(s.erase(base + 1, base), T(0), ctx); MC_EQ(s.size(), sz, ctx);
        });
}
MC_GROUP(range_set) {
    int W = mc::T(7, 9); mc::bound("RangeSet (merging and non-merging): every (set of ranges over W points, insert/erase of every interval) edge on one live object, W=7 (thorough 9), at offsets 0, negative, and touching the minimum / maximum of the integer type; all observers after each step");
    rs_tour<int, true>(0, W, 0); rs_tour<int, true>(-3, 6, 0); rs_tour<int, true>(numeric_limits<int>::max() - 5, 6, 0); rs_tour<int, true>(numeric_limits<int>::min(), 6, 0); rs_tour<long long, true>((long long)4e18, 6, 0);
    rs_tour<int, false>(0, mc::T(5, 6), 0); rs_tour<long long, false>(-2, 5, 0); rs_tour<int, false>(numeric_limits<int>::max() - 4, 5, 0);
}
template <class PS, bool SMALL> void ps_explore(int depth, int K0, vector<int> vals) {
    mc::explore([&](mc::Chooser& c) {
        int k = c.range(0, K0); PS p(k); multiset<int> m; string h = "k=" + to_string(k);
        for (int d = 0, dd = mc::depth(depth); d < dd; ++d) {
            int nv = vals.size(); vector<int> ops; for (int i = 0; i < nv; ++i) { if ((int)m.size() < mc::sz(6)) ops.push_back(i); if (m.count(vals[i])) ops.push_back(nv + i); } ops.push_back(2 * nv); if (k > 0) ops.push_back(2 * nv + 1);
            int o = c.pick(ops);
            if (o < nv) { p.insert(vals[o]); m.insert(vals[o]); h += " +" + to_string(vals[o]); } else if (o < 2 * nv) { p.erase(vals[o - nv]); m.erase(m.find(vals[o - nv])); h += " -" + to_string(vals[o - nv]); } else if (o == 2 * nv) { p.incr_k(); ++k; h += " k++"; } else { p.decr_k(); --k; h += " k--"; }
            mc::step(); long long w = 0; int t = 0; if (SMALL) { for (auto it = m.begin(); it != m.end() && t < k; ++it, ++t) w += *it; } else for (auto it = m.rbegin(); it != m.rend() && t < k; ++it, ++t) w += *it;
            MC_EQ((long long)p.get_sum(), w, h); MC_EQ(p.size(), (int)m.size(), h); MC_EQ(p.get_k(), k, h);
        }
        MC_LOG(h); mc::outcome(p.get_sum());
    });
}
MC_GROUP(priority_sum) {
    mc::bound("Maximum-/MinimumPrioritySum: all histories of insert/erase/incr_k/decr_k of length <= 6 (thorough 8) over 3 values from any initial k <= 2, plus transition tours over all multisets of multiplicity <= 2 and k <= 5; sum of the first k elements in priority order after every step");
    ps_explore<MaximumPrioritySum<long long>, true>(mc::T(6, 8), 2, { 1, 10, 100 }); ps_explore<MinimumPrioritySum<int>, false>(mc::T(6, 7), 2, { 1, 10, -100 });
    auto tour = [&](auto p, bool small, vector<int> vals) {
        int nv = vals.size(); typedef vector<int> M;
        mc::tour(M(nv + 1, 0), 2 * nv + 8, [](const M& m) { return m; }, [&](M& m, int o) { if (o < nv) { if (m[o] >= 2) return false; ++m[o]; return true; } if (o < 2 * nv) { if (!m[o - nv]) return false; --m[o - nv]; return true; } o -= 2 * nv; if (o < 6) { m[nv] = o; return true; } m[nv] += o == 6 ? 1 : -1; return 0 <= m[nv] && m[nv] <= 5; },
            [&](int o, const M& m) { if (o < nv) p.insert(vals[o]); else if (o < 2 * nv) p.erase(vals[o - nv]); else if (o < 2 * nv + 6) p.set_k(o - 2 * nv); else o == 2 * nv + 6 ? p.incr_k() : p.decr_k();
                multiset<int> s; for (int i = 0; i < nv; ++i) for (int j = 0; j < m[i]; ++j) s.insert(vals[i]); vector<int> v(s.begin(), s.end()); if (!small) reverse(v.begin(), v.end()); long long w = 0; for (int i = 0; i < (int)v.size() && i < m[nv]; ++i) w += v[i];
                MC_EQ((long long)p.get_sum(), w, "multiset " + mc::show(v) + " k=" + to_string(m[nv])); MC_EQ(p.size(), (int)v.size(), ""); });
    };
    tour(MaximumPrioritySum<long long>(), true, { 1, 10, 100, 1000 }); tour(MinimumPrioritySum<long long>(), false, { 1, 10, 100, 1000 }); tour(MinimumPrioritySum<int>(), false, { -5, 0, 7 });
}
// ---- PermutationTree: brute-force strong intervals
static void check_tree(const vector<int>& p) {
    int n = p.size(); string ctx = "p=" + mc::show(p); vector<pair<int, int>> common, strong;
    for (int l = 0; l < n; ++l) { int lo = p[l], hi = p[l]; for (int r = l; r < n; ++r) { lo = min(lo, p[r]); hi = max(hi, p[r]); if (hi - lo == r - l) common.push_back({ l, r + 1 }); } }
    for (auto a : common) { bool ok = true; for (auto b : common) if ((a.first < b.first && b.first < a.second && a.second < b.second) || (b.first < a.first && a.first < b.second && b.second < a.second)) ok = false; if (ok) strong.push_back(a); }
    set<pair<int, int>> ss(strong.begin(), strong.end()), seen, cs(common.begin(), common.end());
    PermutationTree t(p);
    auto rec = [&](auto&& rec, const PermutationTree& u) -> void {
        auto r = u.get_index_range(); MC_CHECK(ss.count(r), ctx + " node is not a strong interval " + mc::show(r)); MC_CHECK(seen.insert(r).second, ctx + " duplicate node");
        MC_EQ(u.length(), r.second - r.first, ctx); MC_EQ(u.begin_index(), r.first, ctx); MC_EQ(u.end_index(), r.second, ctx); MC_EQ(u.min_index(), r.first, ctx); MC_EQ(u.max_index(), r.second - 1, ctx); MC_EQ(u.get_index_range_closed(), make_pair(r.first, r.second - 1), ctx);
        int lo = *min_element(p.begin() + r.first, p.begin() + r.second), hi = *max_element(p.begin() + r.first, p.begin() + r.second);
        MC_EQ(u.get_value_range(), make_pair(lo, hi + 1), ctx); MC_EQ(u.get_value_range_closed(), make_pair(lo, hi), ctx); MC_EQ(u.begin_value(), lo, ctx); MC_EQ(u.end_value(), hi + 1, ctx); MC_EQ(u.min_value(), lo, ctx); MC_EQ(u.max_value(), hi, ctx);
        if (u.length() == 1) { MC_EQ((int)u.size(), 0, ctx); return; }
        MC_CHECK(u.size() >= 2, ctx); int at = r.first; for (auto& ch : u) { MC_EQ(ch.begin_index(), at, ctx + " children tile the node"); at = ch.end_index(); rec(rec, ch); } MC_EQ(at, r.second, ctx);
        // join node iff unions of consecutive children are common intervals
        bool join = cs.count({ u[0].begin_index(), u[1].end_index() }) > 0; MC_EQ(u.is_join_node(), join, ctx + " join " + mc::show(r));
    };
    rec(rec, t); MC_EQ(t.get_index_range(), make_pair(0, n), ctx); MC_EQ(seen.size(), ss.size(), ctx + " all strong intervals present");
    mc::outcome(seen.size());
}
MC_GROUP(permutation_tree) {
    int N = mc::T(7, 9); mc::bound("PermutationTree: all permutations of size 1..7 (thorough 9) against brute-force strong intervals: nodes, ranges, children order, join/prime flags; structured permutations (simple, inflated, separable) up to 60");
    for (int n = 1; n <= N; ++n) { vector<int> p(n); iota(p.begin(), p.end(), 0); long long id = 0; do { MC_CASE(n, id); ++id; check_tree(p); } while (next_permutation(p.begin(), p.end())); }
    // inflations of every permutation of size 4 by every choice of small blocks
    vector<vector<int>> blocks{ { 0 }, { 0, 1 }, { 1, 0 }, { 1, 3, 0, 2 }, { 0, 1, 2 }, { 2, 0, 1 } };
    mc::explore([&](mc::Chooser& c) { int m = 4; vector<int> q{ 0, 1, 2, 3 }; int id = c.choose(24); for (int i = 0; i < id; ++i) next_permutation(q.begin(), q.end()); vector<vector<int>> b(m); for (auto& x : b) x = c.pick(blocks); vector<int> off(m, 0); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) if (q[j] < q[i]) off[i] += b[j].size(); vector<int> p; for (int i = 0; i < m; ++i) for (int x : b[i]) p.push_back(off[i] + x); mc::step(); check_tree(p); });
    for (int n = 1; n <= 60; ++n) { vector<int> a(n), b(n), z; iota(a.begin(), a.end(), 0); b = a; reverse(b.begin(), b.end()); MC_CASE(n); check_tree(a); check_tree(b); for (int i = 0; i < n / 2; ++i) z.push_back(n / 2 + i), z.push_back(i); if (n & 1) z.push_back(n - 1); check_tree(z); vector<int> w; for (int i = 0; i < n; ++i) w.push_back(i); for (int i = 0; i + 3 < n; i += 3) swap(w[i], w[i + 3]); check_tree(w); vector<int> y; for (int i = 1; i < n; i += 2) y.push_back(i); for (int i = (n - 1) / 2 * 2; i >= 0; i -= 2) y.push_back(i); check_tree(y); }
    { PermutationTree t; MC_EQ(t.length(), 0, "default"); MC_EQ((int)t.size(), 0, "default"); ostringstream os; os << PermutationTree(vector<int>{ 1, 3, 0, 2, 4 }); MC_EQ(os.str(), string("[   ]\n{  }|\n||||\x20\n"), ""); }
}
MC_GROUP(medium_sizes) {
    mc::bound("RangeSet over 400 points with up to 130 live ranges, in three schedules; priority sums of up to 400 elements with magnitudes whose sums exceed 2^31; permutation trees of 70..140 points in six families");
    for (int kind = 0; kind < 3; ++kind) { MC_CASE(kind); RangeSet<long long, true> s; RangeSet<int, false> t; vector<int> in(402, 0); vector<pair<int, int>> live; for (int i = 0; i < 600; ++i) { int l = kind == 0 ? (i * 37) % 400 : kind == 1 ? (i * 3) % 400 : (i * i) % 400, r = min(399, l + (kind == 1 ? i % 2 : i % 17)); bool er = kind == 0 ? i % 3 == 2 : kind == 1 ? i >= 300 : i % 5 == 4; int ch = 0; for (int x = l; x <= r; ++x) ch += er ? in[x] : !in[x], in[x] = !er; MC_EQ(er ? s.erase(l, r) : s.insert(l, r), (long long)ch, "elements changed"); er ? t.erase(l, r) : t.insert(l, r); if (i % 7 == 0) { Segs w; for (int x = 0; x < 400; ++x) if (in[x]) { if (!w.empty() && w.back().second == x - 1) w.back().second = x; else w.push_back({ x, x }); } Segs g; for (auto [x, y] : s) g.push_back({ (int)x, (int)y }); MC_EQ(g, w, "ranges"); MC_EQ(s.number_of_ranges(), (int)w.size(), "number of ranges"); vector<int> u(402); for (auto [x, y] : t) for (int z = x; z <= y; ++z) { MC_EQ(u[z], 0, "disjoint"); u[z] = 1; } MC_CHECK(u == in, "non-merging set covers the same points"); for (int x = 0; x < 400; ++x) { MC_EQ(s.contains(x), (bool)in[x], "contains"); MC_EQ(t.contains(x), (bool)in[x], "contains"); int e = x; while (in[e]) ++e; MC_EQ(s.minimum_excluded(x), (long long)e, "mex"); } } mc::step(); } }
    for (int kind = 0; kind < 3; ++kind) { MC_CASE(10 + kind); MaximumPrioritySum<long long> a; MinimumPrioritySum<long long> b; multiset<long long> m; vector<long long> order; int k = 0; for (int i = 0; i < 900; ++i) { long long v = kind == 0 ? i * 7919LL % 1009 * 4000000LL : kind == 1 ? -(long long)i * 10000000 : i % 7; if (i % 3 != 2 || m.empty()) { a.insert(v); b.insert(v); m.insert(v); order.push_back(v); } else { size_t j = (i * 31) % order.size(); long long x = order[j]; order.erase(order.begin() + j); a.erase(x); b.erase(x); m.erase(m.find(x)); } if (i % 5 == 0) { k = (i * 13) % 300; a.set_k(k); b.set_k(k); } long long wa = 0, wb = 0; int t = 0; for (auto it = m.begin(); it != m.end() && t < k; ++it, ++t) wa += *it; t = 0; for (auto it = m.rbegin(); it != m.rend() && t < k; ++it, ++t) wb += *it; MC_EQ(a.get_sum(), wa, "sum of the k smallest"); MC_EQ(b.get_sum(), wb, "sum of the k largest"); MC_EQ(a.size(), (int)m.size(), ""); mc::step(); } }
    for (int n : { 70, 100, mc::T(129, 140) }) for (int kind = 0; kind < 6; ++kind) { MC_CASE(20, n, kind); vector<int> p; if (kind == 0) { for (int i = 1; i < n; i += 2) p.push_back(i); for (int i = 0; i < n; i += 2) p.push_back(i); } if (kind == 1) { for (int b = 0; b < n; b += 10) for (int i = min(n, b + 10) - 1; i >= b; --i) p.push_back(i); } if (kind == 2) { vector<pair<int, int>> v; for (int i = 0; i < n; ++i) v.push_back({ i * 7919 % 1009, i }); sort(v.begin(), v.end()); for (auto& x : v) p.push_back(x.second); } if (kind == 3) { int lo = 0, hi = n - 1; while (lo <= hi) { p.push_back(lo++); if (lo <= hi) p.push_back(hi--); } } if (kind == 4) { for (int i = 0; i < n; ++i) p.push_back(i); for (int i = 0; i + 4 < n; i += 5) { int b[4] = { i + 1, i + 3, i, i + 2 }; for (int j = 0; j < 4; ++j) p[i + j] = b[j]; } } if (kind == 5) { for (int i = 0; i < n; ++i) p.push_back((i + n / 3) % n); } check_tree(p); }
}
MC_PERIODIC(priority_sum, 40, 25, false)
MC_MAIN
