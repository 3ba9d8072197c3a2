// mc: flags='-O1'
// Offline query engines: dynamic connectivity (with component sums) on every small history, Mo's algorithm on every small query set.
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <set>
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/offline_dynamic_connectivity_component_sum.hpp"
#include "library/algorithm/mo.hpp"
using namespace suisen; using ll = long long;
struct D { ll sum; std::vector<ll> st; };
static void mrg(D& x, const D& y) { x.st.push_back(x.sum); x.sum = x.sum * 1 + y.sum; }
static void und(D& x) { x.sum = x.st.back(); x.st.pop_back(); }
static ll get(const D& x) { return x.sum; }
static std::vector<int> comps(int n, const std::vector<std::pair<int, int>>& es) { std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i; for (bool ch = true; ch;) { ch = false; for (auto [u, v] : es) { int m = std::min(id[u], id[v]); if (id[u] != m || id[v] != m) { id[u] = id[v] = m; ch = true; } } } return id; }
static void history(mc::Chooser& c, int n, int len, bool loops) {
    OfflineDynamicConnectivity d(n); OfflineDynamicConnectivityComponentSum s; std::vector<std::pair<int, int>> es; std::vector<bool> w1; std::vector<std::pair<int, ll>> w2; std::vector<D> init; for (int i = 0; i < n; ++i) init.push_back({1LL << (4 * i), {}});
    std::vector<std::pair<int, int>> all; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i < j || (loops && i == j) || (loops && i > j && j == 0)) all.push_back({i, j});
    for (int i = 0; i < len; ++i) {
        int k = c.choose((int)all.size() + (int)es.size() + 3);
        if (k < (int)all.size()) { auto [u, v] = all[k]; es.push_back({u, v}); d.add_query(u, v); s.add_query(v, u); MC_LOG("add " << u << "-" << v); }
        else if (k < (int)(all.size() + es.size())) { int j = k - all.size(); auto [u, v] = es[j]; es.erase(es.begin() + j); d.del_query(v, u); s.del_query(u, v); MC_LOG("del " << u << "-" << v); }
        else { int t = k - all.size() - es.size(); auto id = comps(n, es); int u = t == 2 ? n - 1 : t, v = t == 2 ? 0 : n - 1; if (t == 0) { for (int x = 0; x < n; ++x) { ll q = 0; for (int y = 0; y < n; ++y) if (id[x] == id[y]) q += init[y].sum; s.component_sum_query(x); w2.push_back({1, q}); } MC_LOG("sums"); } else { d.connectivity_query(u, v); s.connectivity_query(u, v); w1.push_back(id[u] == id[v]); w2.push_back({0, id[u] == id[v]}); MC_LOG("same " << u << " " << v); } }
        mc::step();
    }
    auto chk = [&] { MC_CHECK(d.answer() == w1, "connectivity answers"); auto r = s.answer<D, mrg, und, ll, get>(init); MC_EQ(r.size(), w2.size(), "number of answers"); for (size_t i = 0; i < r.size(); ++i) { MC_EQ((int)r[i].index(), w2[i].first, "answer kind"); ll g = r[i].index() ? std::get<1>(r[i]) : (ll)std::get<0>(r[i]); MC_EQ(g, w2[i].second, "answer"); } }; chk(); chk();
}
MC_GROUP(dc_small) { mc::bound("every history of length <=5 (6) of add/delete edge and queries on 3 vertices, and <=4 (5) with self-loops and reversed parallel edges; answered twice"); mc::explore([&](mc::Chooser& c) { if (c.flag()) history(c, 3, mc::T(5, 6), false); else history(c, 2, mc::T(4, 5), true); }); }
MC_GROUP(dc_mid) { mc::bound("4 vertices, histories of length 4 (5); plus long structured histories: 1..11 query blocks with every window [s,e) of an edge present"); mc::explore([&](mc::Chooser& c) { history(c, 4, mc::T(4, 5), false); });
    mc::explore([&](mc::Chooser& c) { int q = c.range(1, mc::T(9, 13)), n = 4, s = c.choose(q + 1), e = s + c.choose(q + 1 - s), s2 = c.choose(q + 1), e2 = s2 + c.choose(q + 1 - s2); OfflineDynamicConnectivity d(n); OfflineDynamicConnectivityComponentSum S; std::vector<bool> w; std::vector<ll> w2; std::vector<D> init; for (int i = 0; i < n; ++i) init.push_back({1LL << (4 * i), {}}); std::vector<std::pair<int, int>> base{{1, 2}}; d.add_query(1, 2); S.add_query(1, 2); for (int i = 0; i <= q; ++i) { if (i == s) d.add_query(0, 1), S.add_query(0, 1); if (i == s2) d.add_query(2, 3), S.add_query(2, 3); if (i == e) d.del_query(0, 1), S.del_query(0, 1); if (i == e2 && i != q) d.del_query(2, 3), S.del_query(2, 3); if (i == q) break; bool a = s <= i && i < e, b = s2 <= i && (i < e2 || e2 == q); auto es = base; if (a) es.push_back({0, 1}); if (b) es.push_back({2, 3}); auto id = comps(n, es); d.connectivity_query(0, 3); w.push_back(id[0] == id[3]); ll t = 0; for (int y = 0; y < n; ++y) if (id[y] == id[2]) t += init[y].sum; S.component_sum_query(2); w2.push_back(t); } MC_CHECK(d.answer() == w, "windows"); auto r = S.answer<D, mrg, und, ll, get>(init); for (int i = 0; i < q; ++i) MC_EQ(std::get<1>(r[i]), w2[i], "window sums"); mc::step(); }); }
template <class F> static void mo_check(int n, const std::vector<std::pair<int, int>>& qs, F&&) {
    Mo mo(n, qs); std::deque<int> cur; int L = 0, R = 0; int evals = 0;
    auto res = mo.solve([&] { auto [l, r] = mo.get_range(); MC_CHECK(l == L && r == R && mo.get_left() == L && mo.get_right() == R, "range seen by eval"); MC_CHECK(qs[mo.get_query_id()] == std::make_pair(L, R), "query id"); ++evals; std::vector<int> v(cur.begin(), cur.end()); return v; },
        [&](int i) { MC_EQ(i, L - 1, "add_l index"); MC_EQ(mo.get_left(), i, "left during add_l"); cur.push_front(i); --L; }, [&](int i) { MC_EQ(i, L, "del_l index"); MC_EQ(mo.get_left(), i, "left during del_l"); MC_CHECK(!cur.empty() && cur.front() == i, "del_l of an element present"); cur.pop_front(); ++L; },
        [&](int i) { MC_EQ(i, R, "add_r index"); MC_EQ(mo.get_right(), i, "right during add_r"); cur.push_back(i); ++R; }, [&](int i) { MC_EQ(i, R - 1, "del_r index"); MC_EQ(mo.get_right(), i, "right during del_r"); MC_CHECK(!cur.empty() && cur.back() == i, "del_r of an element present"); cur.pop_back(); --R; });
    MC_EQ(evals, (int)qs.size(), "one eval per query"); for (size_t i = 0; i < qs.size(); ++i) { std::vector<int> w; for (int k = qs[i].first; k < qs[i].second; ++k) w.push_back(k); MC_CHECK(res[i] == w, "answer of query " + std::to_string(i)); }
    std::vector<int> cnt(n); long long s = 0; auto r2 = mo.solve([&] { return s; }, [&](int i) { MC_EQ(++cnt[i], 1, "add once"); s += 1LL + (ll)i * i; }, [&](int i) { MC_EQ(--cnt[i], 0, "del present"); s -= 1LL + (ll)i * i; }); for (size_t i = 0; i < qs.size(); ++i) { ll w = 0; for (int k = qs[i].first; k < qs[i].second; ++k) w += 1LL + (ll)k * k; MC_EQ(r2[i], w, "sum"); };
    mc::step();
}
MC_GROUP(mo) { mc::bound("every sequence of <=3 (4) queries over n<=4 incl. empty ranges; all ranges of n<=20 in three orders: adds/deletes are contiguous and never leave [0,n), answers in query order"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4), k = c.range(0, mc::T(n == 4 ? 3 : 3, 4)); std::vector<std::pair<int, int>> all, qs; for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) all.push_back({l, r}); for (int i = 0; i < k; ++i) qs.push_back(c.pick(all)); mo_check(n, qs, 0); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(5, mc::T(14, 20)), o = c.choose(3), st = c.range(1, 3); std::vector<std::pair<int, int>> qs; for (int l = 0; l <= n; l += st) for (int r = l; r <= n; ++r) qs.push_back({l, r}); if (o == 1) std::reverse(qs.begin(), qs.end()); if (o == 2) std::sort(qs.begin(), qs.end(), [&](auto a, auto b) { return std::make_tuple((a.first * 7 + a.second * 5) % 11, a) < std::make_tuple((b.first * 7 + b.second * 5) % 11, b); }); mo_check(n, qs, 0); }); }
MC_GROUP(mo_getters) { mc::bound("Mo: every set of <=3 queries on n <= 4: get_left/get_right/get_range/get_query_id during every callback describe the documented current range"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4), q = c.range(0, 3); std::vector<std::pair<int, int>> qs; for (int i = 0; i < q; ++i) { int l = c.range(0, n), r = c.range(l, n); qs.push_back({ l, r }); } suisen::Mo mo(n, qs); std::multiset<int> cur; 
        auto rng = [&] { auto p = mo.get_range(); MC_CHECK(p.first == mo.get_left() && p.second == mo.get_right(), "get_range"); return p; };
        auto res = mo.solve([&] { auto [l, r] = rng(); MC_CHECK(qs[mo.get_query_id()] == std::make_pair(l, r), "query id at evaluation"); std::multiset<int> w; for (int i = l; i < r; ++i) w.insert(i); MC_CHECK(w == cur, "contents"); return l * 10 + r; },
            [&](int i) { auto [l, r] = rng(); MC_CHECK(l == i, "add_l position"); cur.insert(i); }, [&](int i) { auto [l, r] = rng(); MC_CHECK(l == i, "del_l position"); MC_CHECK(cur.count(i) == 1, "present"); cur.erase(i); }, [&](int i) { auto [l, r] = rng(); MC_CHECK(r == i, "add_r position"); cur.insert(i); }, [&](int i) { auto [l, r] = rng(); MC_CHECK(r == i, "del_r position"); MC_CHECK(cur.count(i) == 1, "present"); cur.erase(i); });
        MC_EQ((int)res.size(), q, "answers"); for (int i = 0; i < q; ++i) MC_EQ(res[i], qs[i].first * 10 + qs[i].second, "answer in query order"); mc::step(); }); }
MC_GROUP(dc_large) { mc::bound("histories of 150..600 events on 5..120 vertices (sliding windows of edges, nested intervals, alternating add/delete of a bridge, edges never deleted), every vertex's component sum and a fan of pairs asked at regular points"); for (int n : { 5, 40, 120 }) for (int len : { 150, mc::T(300, 600) }) for (int kind = 0; kind < 4; ++kind) { MC_CASE(n, len, kind); OfflineDynamicConnectivity d(n); OfflineDynamicConnectivityComponentSum s; std::vector<std::pair<int, int>> es; std::vector<bool> w1; std::vector<ll> w2; std::vector<D> init; for (int i = 0; i < n; ++i) init.push_back({ 1 + (ll)i * i * i, {} }); auto add = [&](int u, int v) { es.push_back({ u, v }); d.add_query(u, v); s.add_query(u, v); }; auto del = [&](int i) { auto [u, v] = es[i]; es.erase(es.begin() + i); d.del_query(v, u); s.del_query(v, u); };
        for (int i = 0; i < len; ++i) { int u = (i * 17 + i / 3) % n, v = (u + 1 + i * i % (n - 1)) % n; if (kind == 0) { add(u, v); if ((int)es.size() > n / 2 + 2) del(0); } if (kind == 1) { if ((i / 40) % 2 == 0 || es.empty()) add(u, v); else del(es.size() - 1); } if (kind == 2) { if (i < n - 1) add(i, i + 1); else if (i % 2) { if ((int)es.size() >= n - 1) del((i * 7) % es.size()); } else if ((int)es.size() < n - 1) add(u, v); } if (kind == 3) add(u, v); if (i % 3 == 0) { auto id = comps(n, es); int a = i % n, b = (i * 5 + 2) % n; d.connectivity_query(a, b); w1.push_back(id[a] == id[b]); ll q = 0; for (int y = 0; y < n; ++y) if (id[y] == id[b]) q += init[y].sum; s.component_sum_query(b); w2.push_back(q); } mc::step(); }
        MC_CHECK(d.answer() == w1, "connectivity answers"); auto r = s.answer<D, mrg, und, ll, get>(init); MC_EQ(r.size(), w2.size(), "number of answers"); for (size_t i = 0; i < r.size(); ++i) MC_EQ(std::get<1>(r[i]), w2[i], "component sum " << i); } }
MC_GROUP(mo_large) { mc::bound("Mo on n up to 700 with up to 900 queries (all lengths, clustered, single points, repeated)"); for (int n : { 130, 300, 700 }) for (int kind = 0; kind < 4; ++kind) { MC_CASE(n, kind); std::vector<std::pair<int, int>> qs; for (int i = 0; i < 900; ++i) { int l = kind == 0 ? (i * 37) % n : kind == 1 ? i % 3 : kind == 2 ? n - 1 - i % 5 : (i * i) % n, r = kind == 0 ? (i * 91 + 13) % n : kind == 1 ? n - i % 7 : kind == 2 ? n : l; if (l > r) std::swap(l, r); qs.push_back({ l, r }); } mo_check(n, qs, 0); } }
MC_MAIN
