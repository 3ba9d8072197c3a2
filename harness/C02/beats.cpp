#include "free.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
using R = suisen::RangeChMinMaxAddRangeSum<long long>;
typedef long long ll;
static void check(R& s, const std::vector<ll>& a) {
    int n = a.size();
    for (int l = 0; l < n; ++l) { std::map<ll, int> cnt; ll sum = 0; for (int r = l + 1; r <= n; ++r) {
        ++cnt[a[r - 1]]; sum += a[r - 1]; auto p = s.prod(l, r);
        MC_EQ(s.sum(l, r), sum, "sum " << l << "," << r); MC_EQ(s.min(l, r), cnt.begin()->first, "min " << l << "," << r); MC_EQ(s.max(l, r), cnt.rbegin()->first, "max " << l << "," << r);
        MC_EQ(p.get_min_num(), (ll)cnt.begin()->second, "min count"); MC_EQ(p.get_max_num(), (ll)cnt.rbegin()->second, "max count");
        if (cnt.size() > 1) { MC_EQ(p.get_second_min(), std::next(cnt.begin())->first, "second min"); MC_EQ(p.get_second_max(), std::next(cnt.rbegin())->first, "second max"); }
    } }
}
static void apply(R& s, std::vector<ll>& a, int k, int l, int r, ll v) {
    if (k == 0) { s.chmin(l, r, v); for (int i = l; i < r; ++i) a[i] = std::min(a[i], v); }
    if (k == 1) { s.chmax(l, r, v); for (int i = l; i < r; ++i) a[i] = std::max(a[i], v); }
    if (k == 2) { s.add(l, r, v); for (int i = l; i < r; ++i) a[i] += v; }
    if (k == 3) { s.update(l, r, v); for (int i = l; i < r; ++i) a[i] = v; }
    MC_LOG((k == 0 ? "chmin" : k == 1 ? "chmax" : k == 2 ? "add" : "update") << " " << l << " " << r << " " << v);
}
static const std::vector<std::vector<ll>>& starts() { static const std::vector<std::vector<ll>> v = { { 0, 0, 0, 0, 0, 0, 0, 0 }, { 0, 1, 2, 3, 4, 5, 6, 7 }, { 3, -1, 3, 1, -1, 5, 2, 3 }, { 5, 0, 5, 0, 5, 0, 5, 0 } }; return v; }
MC_GROUP(histories) {
    mc::bound("n in 1..5(6), 4 initial contents, depth 2 over 4 operations x all ranges x 3 values, all answers after each");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, mc::sz(5, 6)); auto a = c.pick(starts()); a.resize(n); R s(a); MC_LOG("a=" << mc::show(a));
        for (int d = 0; d < mc::depth(2); ++d) { int k = c.choose(4), l = c.range(0, n - 1), r = c.range(l + 1, n); ll v = c.pick({ -1LL, 2LL, 4LL }); apply(s, a, k, l, r, v); }
        check(s, a); mc::outcome(mc::hash_range(a));
    });
}
MC_GROUP(histories_deep) {
    mc::bound("n in {2,3,4}, depth 3(5), ranges from {whole, left part, right part}, operations x 2 values, answers at the end");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(2, mc::sz(4)); auto a = c.pick(starts()); a.resize(n); R s(a); MC_LOG("a=" << mc::show(a));
        for (int d = 0; d < mc::depth(3, 5); ++d) { int k = c.choose(4), w = c.choose(3); int l = w == 2 ? n / 2 : 0, r = w == 1 ? (n + 1) / 2 : n; ll v = k == 3 ? d : c.flag() ? (d % 2 ? 4 : 2) : (d % 2 ? -1 : 1); apply(s, a, k, l, r, v); }
        check(s, a); mc::outcome(mc::hash_range(a));
    });
}
MC_GROUP(sizes) {
    mc::bound("n in 1..20,31..33: for every n a fixed sawtooth, every range, every operation, followed by whole-range chmin/chmax/add");
    for (int n = 1; n <= 33; ++n) { if (n > 20 && n < 31) continue; for (int l = 0; l < n; ++l) for (int r = l + 1; r <= n; r += (n > 12 ? 2 : 1)) for (int k = 0; k < 4; ++k) {
        MC_CASE(n, l, r, k); std::vector<ll> a(n); for (int i = 0; i < n; ++i) a[i] = (i * 7) % 11; R s(a); apply(s, a, k, l, r, 5); apply(s, a, 1, 0, n, 3); apply(s, a, 2, l / 2, n, -4); apply(s, a, 0, 0, r, 4);
        if (n <= 8) check(s, a); else for (int x : { 0, l / 2, l }) for (int y : { r, n }) { ll w = 0, mn = LLONG_MAX, mx = LLONG_MIN; for (int i = x; i < y; ++i) w += a[i], mn = std::min(mn, a[i]), mx = std::max(mx, a[i]); MC_EQ(s.sum(x, y), w, "sum n=" << n); MC_EQ(s.min(x, y), mn, "min"); MC_EQ(s.max(x, y), mx, "max"); }
    } }
}
MC_GROUP(search) {
    mc::bound("n<=6, after two chosen updates, max_right/min_left for every start and every sum bound");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, 6); std::vector<ll> a = { 1, 3, 0, 2, 5, 1 }; a.resize(n); R s(a);
        for (int d = 0; d < 2; ++d) { int k = c.choose(3), l = c.range(0, n - 1), r = c.range(l + 1, n); apply(s, a, k, l, r, 2); }
        for (auto& x : a) if (x < 0) return;
        for (int l = 0; l <= n; ++l) for (ll b = 0; b <= 15; b += 3) {
            auto f = [&](R::DataType x) { return x.get_sum() <= b; };
            int r = l; ll t = 0; while (r < n && t + a[r] <= b) t += a[r++]; MC_EQ(s.max_right(l, f), r, "max_right");
            int q = l; t = 0; while (q > 0 && t + a[q - 1] <= b) t += a[--q]; MC_EQ(s.min_left(l, f), q, "min_left");
        }
    });
}
static bool sum_le6(R::DataType x) { return x.get_sum() <= 6; }
static bool max_le3(R::DataType x) { return x.get_max() <= 3; }
MC_GROUP(search_fixed_predicate) {
    mc::bound("n<=6, after two chosen updates, max_right<pred>/min_left<pred> with two compile-time predicates for every start");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, 6); std::vector<ll> a = { 1, 3, 0, 2, 5, 1 }; a.resize(n); R s(a);
        for (int d = 0; d < 2; ++d) { int k = c.choose(3), l = c.range(0, n - 1), r = c.range(l + 1, n); apply(s, a, k, l, r, 2); }
        for (auto& x : a) if (x < 0) return;
        for (int l = 0; l <= n; ++l) {
            int r = l; ll t = 0; while (r < n && t + a[r] <= 6) t += a[r++]; MC_EQ(s.max_right<sum_le6>(l), r, "max_right<sum>");
            int q = l; t = 0; while (q > 0 && t + a[q - 1] <= 6) t += a[--q]; MC_EQ(s.min_left<sum_le6>(l), q, "min_left<sum>");
            r = l; while (r < n && a[r] <= 3) ++r; MC_EQ(s.max_right<max_le3>(l), r, "max_right<max>");
            q = l; while (q > 0 && a[q - 1] <= 3) --q; MC_EQ(s.min_left<max_le3>(l), q, "min_left<max>");
        }
    });
}
MC_GROUP(first_query) {
    mc::bound("every sum/min/max/prod/search as the first query (on its own copy) after every 2 updates, n<=5, 4 initial contents");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, 5); auto a = c.pick(starts()); a.resize(n); R s0(a);
        for (int d = 0; d < 2; ++d) { int k = c.choose(4), l = c.range(0, n - 1), r = c.range(l + 1, n); ll v = d ? 2 : c.pick({ -1LL, 4LL }); apply(s0, a, k, l, r, v); }
        for (int l = 0; l < n; ++l) { ll sum = 0, mn = LLONG_MAX, mx = LLONG_MIN; for (int r = l + 1; r <= n; ++r) { sum += a[r - 1]; mn = std::min(mn, a[r - 1]); mx = std::max(mx, a[r - 1]); { R s = s0; MC_EQ(s.sum(l, r), sum, "first query sum " << l << "," << r); } { R s = s0; MC_EQ(s.min(l, r), mn, "first query min"); } { R s = s0; MC_EQ(s.max(l, r), mx, "first query max"); } } }
        bool pos = *std::min_element(a.begin(), a.end()) >= 0; if (pos) for (int l = 0; l <= n; ++l) for (ll b = 0; b <= 12; b += 3) { auto f = [&](R::DataType x) { return x.get_sum() <= b; }; int r = l; ll t = 0; while (r < n && t + a[r] <= b) t += a[r++]; { R s = s0; MC_EQ(s.max_right(l, f), r, "first query max_right"); } int q = l; t = 0; while (q > 0 && t + a[q - 1] <= b) t += a[--q]; { R s = s0; MC_EQ(s.min_left(l, f), q, "first query min_left"); } }
        mc::step();
    });
}
MC_PERIODIC(histories, 40, 9, false) MC_PERIODIC(histories_deep, 40, 9, false)
MC_MAIN
