#include "free.hpp"
#define mt19937 mc_mt19937
namespace std { struct mc_mt19937 { typedef unsigned result_type; mc_mt19937(unsigned = 0) {} unsigned operator()() { return mc::rng_hook() ? unsigned(mc::rng_hook()()) : unsigned(mc::det_rand()); } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } }; }
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
using namespace fr;
// T carries both reading directions so that toggle is exact
struct Bi { string f, b; Bi(string f = "", string b = "") : f(f), b(b) {} bool operator==(const Bi& o) const { return f == o.f && b == o.b; } };
static std::ostream& operator<<(std::ostream& os, const Bi& x) { return os << x.f; }
static Bi op(Bi x, Bi y) { return Bi(x.f + y.f, y.b + x.b); } static Bi e() { return Bi(); } static Bi tog(Bi x) { std::swap(x.f, x.b); return x; }
static Bi one(char c) { return Bi(string(1, c), string(1, c)); }
using S = suisen::SortableSegmentTree<Bi, op, e, tog>; using P = std::pair<int, Bi>; using V = std::vector<P>;
static Bi foldv(const V& a, int l, int r) { Bi s; for (int i = l; i < r; ++i) s = op(s, a[i].second); return s; }
static bool quiet_ = false;
static void check(S& s, const V& a) {
    if (quiet_) { MC_EQ(s.size(), (int)a.size(), "size"); return; }
    int n = a.size(); MC_EQ(s.size(), n, "size");
    auto d = s.dump_entries(); for (int i = 0; i < n; ++i) { MC_EQ(d[i].first, a[i].first, "key " << i); MC_EQ(d[i].second, a[i].second, "value " << i); MC_EQ(s.get(i), a[i].second, "get " << i); MC_EQ(Bi(s[i]), a[i].second, "[] " << i); }
    auto k = s.dump_keys(); auto v = s.dump_values(); for (int i = 0; i < n; ++i) { MC_EQ(k[i], a[i].first, "dump_keys"); MC_EQ(v[i], a[i].second, "dump_values"); }
    std::vector<int> rk; s.foreach([&](int key, const Bi&) { rk.push_back(key); }, true); for (int i = 0; i < n; ++i) MC_EQ(rk[i], a[n - 1 - i].first, "reverse foreach");
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) MC_EQ(s.prod(l, r), foldv(a, l, r), "prod(" << l << "," << r << ")");
}
// one chosen query as the first one after the history
static void probe_first(mc::Chooser& c, S& s, const V& a) {
    int m = a.size(), k = c.choose(9); MC_LOG("first query kind " << k);
    if (k == 0 && m) { int i = c.choose(m); MC_EQ(s.get(i), a[i].second, "first query get " << i); } if (k == 1 && m) { int i = c.choose(m); MC_EQ(Bi(s[i]), a[i].second, "first query [] " << i); }
    if (k == 2) { int l = c.range(0, m), r = c.range(l, m); MC_EQ(s.prod(l, r), foldv(a, l, r), "first query prod"); } if (k == 3) { auto v = s.dump_keys(); for (int i = 0; i < m; ++i) MC_EQ(v[i], a[i].first, "first query dump_keys"); } if (k == 4) { auto v = s.dump_values(); for (int i = 0; i < m; ++i) MC_EQ(v[i], a[i].second, "first query dump_values"); }
    if (k == 5) { std::vector<int> rk; s.foreach([&](int key, const Bi&) { rk.push_back(key); }, true); for (int i = 0; i < m; ++i) MC_EQ(rk[i], a[m - 1 - i].first, "first query reverse foreach"); } if (k == 6) { std::vector<int> rk; s.foreach([&](int key, const Bi&) { rk.push_back(key); }); for (int i = 0; i < m; ++i) MC_EQ(rk[i], a[i].first, "first query foreach"); }
    if (k == 7) { int l = c.range(0, m), r = c.range(l, m); auto g = s.max_right(l, [&](const Bi& x) { return (int)x.f.size() <= r - l; }); MC_EQ(g.first, r, "first query max_right"); MC_EQ(g.second, foldv(a, l, r), "first query max_right product"); } if (k == 8) { int l = c.range(0, m), r = c.range(l, m); auto g = s.min_left(r, [&](const Bi& x) { return (int)x.f.size() <= r - l; }); MC_EQ(g.first, l, "first query min_left"); MC_EQ(g.second, foldv(a, l, r), "first query min_left product"); }
}
static void body(mc::Chooser& c, int n, int D, int prio) {
    // priorities are owned by the harness: increasing, decreasing, constant, or scrambled
    unsigned ctr = 1000; mc::rng_hook() = [ctr, prio]() mutable -> mc::u64 { ++ctr; return prio == 0 ? ctr : prio == 1 ? 100000 - ctr : prio == 2 ? 7 : (K(ctr) >> 33); };
    static const int keys[6][8] = { { 1, 2, 3, 4, 5, 6, 7, 8 }, { 8, 7, 6, 5, 4, 3, 2, 1 }, { 3, 1, 4, 2, 8, 5, 7, 6 }, { 5, 1, 6, 2, 7, 3, 8, 4 }, { 2, 8, 1, 7, 3, 6, 4, 5 }, { 4, 3, 1, 2, 7, 8, 6, 5 } };
    int kk = c.choose(n >= 3 ? 4 : 2); V a(n); for (int i = 0; i < n; ++i) a[i] = { keys[kk][i] * 1000, one(letter(i)) };
    S s(a); MC_LOG("n=" << n << " keys#" << kk << " prio=" << prio); int fresh = 0;
    for (int d = 0; d < D; ++d) {
        int m = a.size(), k = c.choose(8);
        if (k <= 1 && m) { int l = c.range(0, m - 1), r = c.range(l + 1, m); k ? s.sort_dsc(l, r) : s.sort_asc(l, r); std::sort(a.begin() + l, a.begin() + r, [&](const P& x, const P& y) { return k ? x.first > y.first : x.first < y.first; }); MC_LOG("sort " << l << " " << r << (k ? " dsc" : " asc")); }
        else if (k == 2 && m) { int i = c.choose(m); Bi v = one(letter(20 + fresh++)); MC_EQ(s.set_value(i, v), a[i].second, "set_value returns old"); a[i].second = v; MC_LOG("set_value " << i); }
        else if (k == 3 && m) { int i = c.choose(m); Bi v = one(letter(20 + fresh)); int key = c.flag() ? 500 + fresh : 9500 + fresh; ++fresh; auto o = s.set_key_value(i, key, v); MC_EQ(o.first, a[i].first, "old key"); MC_EQ(o.second, a[i].second, "old value"); a[i] = { key, v }; MC_LOG("set_key_value " << i << " " << key); }
        else if (k == 4) { int i = c.range(0, m); Bi v = one(letter(20 + fresh)); int key = 4100 + fresh++; if (i == 0) s.push_front(key, v); else if (i == m) s.push_back(key, v); else s.insert(i, key, v); a.insert(a.begin() + i, { key, v }); MC_LOG("insert " << i); }
        else if (k == 5 && m) { int i = c.choose(m); auto o = i == 0 ? s.pop_front() : i == m - 1 ? s.pop_back() : s.erase(i); MC_EQ(o.first, a[i].first, "erased key"); MC_EQ(o.second, a[i].second, "erased value"); a.erase(a.begin() + i); MC_LOG("erase " << i); }
        else if (k == 6) { int i = c.range(0, m); S t = s.split(i); V b(a.begin() + i, a.end()), l(a.begin(), a.begin() + i); check(t, b); check(s, l); bool sw = c.flag(); if (sw) { t.concat(std::move(s)); s = std::move(t); b.insert(b.end(), l.begin(), l.end()); a = b; } else s.concat(std::move(t)); MC_LOG("split/concat " << i << (sw ? " swapped" : "")); }
        else if (k == 7 && m) { int i = c.choose(m); Bi v = one(letter(20 + fresh++)); s[i] = v; a[i].second = v; MC_LOG("[] = " << i); }
        else if (mc::keep_going()) continue; else return;
    }
    if (quiet_) { probe_first(c, s, a); mc::step(); return; }
    check(s, a); int m = a.size();
    for (int l = 0; l <= m; ++l) for (size_t len = 0; len <= 2 * (size_t)m; ++len) {
        auto f = [&](const Bi& x) { return x.f.size() <= len; }; int r = std::min<int>(m, l + len); auto g = s.max_right(l, f); MC_EQ(g.first, r, "max_right l=" << l << " len=" << len); MC_EQ(g.second, foldv(a, l, r), "max_right product");
        int q = std::max<int>(0, l - (int)len); auto h = s.min_left(l, f); MC_EQ(h.first, q, "min_left"); MC_EQ(h.second, foldv(a, q, l), "min_left product");
    }
    for (int l = 0; l <= m; ++l) for (int i = l; i < m; ++i) { char stop = a[i].second.f[0]; auto f = [&](const Bi& x) { return x.f.find(stop) == string::npos; }; int j = l; while (a[j].second.f[0] != stop) ++j; auto g = s.max_right(l, f); MC_EQ(g.first, j, "max_right up to a marker"); MC_EQ(g.second, foldv(a, l, j), "max_right product"); }
    for (int r = 0; r <= m; ++r) for (int i = 0; i < r; ++i) { char stop = a[i].second.f[0]; auto f = [&](const Bi& x) { return x.f.find(stop) == string::npos; }; int j = r - 1; while (a[j].second.f[0] != stop) --j; auto g = s.min_left(r, f); MC_EQ(g.first, j + 1, "min_left down to a marker"); MC_EQ(g.second, foldv(a, j + 1, r), "min_left product"); }
    check(s, a);
    u_int64_t h = 0; for (auto& x : a) h = mc::mix(h, x.first); mc::outcome(h);
}
#define GRP(p) MC_GROUP(prio##p) { mc::bound("n<=4, depth 2; priorities order " #p); mc::explore([&](mc::Chooser& c) { body(c, c.range(0, mc::T(4, 5)), 2, p); }); }
GRP(0) GRP(1) GRP(2) GRP(3)
MC_GROUP(deep) { mc::bound("n=2(3), depth 3, scrambled priorities"); mc::explore([&](mc::Chooser& c) { body(c, mc::T(2, 3), 3, 3); }); }
MC_GROUP(sorts) {
    mc::bound("n=6(7), depth 3 of sorts only, 4 key orders x 4 priority orders");
    mc::explore([&](mc::Chooser& c) {
        int n = mc::T(5, 6), prio = c.choose(4); unsigned ctr = 1000; mc::rng_hook() = [ctr, prio]() mutable -> mc::u64 { ++ctr; return prio == 0 ? ctr : prio == 1 ? 100000 - ctr : prio == 2 ? 7 : (K(ctr) >> 33); };
        V a(n); int kk = c.choose(3); for (int i = 0; i < n; ++i) a[i] = { (kk == 0 ? i * 3 % 7 : kk == 1 ? (n - i) : i * 5 % 7) * 10, one(letter(i)) }; S s(a);
        for (int d = 0; d < 3; ++d) { int l = c.range(0, n - 2), r = c.range(l + 2, n); bool k = c.flag(); k ? s.sort(l, r, S::SortingPolicy::descending) : s.sort(l, r); std::sort(a.begin() + l, a.begin() + r, [&](const P& x, const P& y) { return k ? x.first > y.first : x.first < y.first; }); MC_LOG("sort " << l << " " << r << (k ? " dsc" : " asc")); }
        check(s, a);
    });
}
MC_GROUP(first_query) { mc::bound("every history of 2 operations without any observation in between, n<=2 (3) with 4 priority orders and n=3 (4) with scrambled priorities, then each single query as the first one"); mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::T(3, 4)), p = n == mc::T(3, 4) ? 3 : c.choose(4); quiet_ = true; body(c, n, 2, p); quiet_ = false; }); }
MC_GROUP(periodic_histories) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 25 operations on 6 elements");  auto f = [&](mc::Chooser& c) { body(c, 6, 25, 3); }; mc::periodic(f, true); }
MC_GROUP(build_ladder) {
    mc::bound("SortableSegmentTree built from n entries, n in 1..24, 31..34, 40, 41, 63..66, 100, 127..129, four priority streams: complete observation after the build, after sorting a middle part ascending, an overlapping part descending and everything ascending");
    std::vector<int> ns; for (int n = 1; n <= 24; ++n) ns.push_back(n); for (int n : { 31, 32, 33, 34, 40, 41, 63, 64, 65, 66, 100, 127, 128, 129 }) ns.push_back(n);
    for (int n : ns) for (int prio = 0; prio < (n < 42 ? 4 : 1); ++prio) { MC_CASE(n, prio); unsigned ctr = 1000; mc::rng_hook() = [ctr, prio]() mutable -> mc::u64 { ++ctr; return prio == 0 ? (K(ctr) >> 33) : prio == 1 ? 100000 - ctr : prio == 2 ? 7 : ctr; };
        V a(n); for (int i = 0; i < n; ++i) a[i] = { i * 131 % 257 * 10, one(letter(i % 26)) }; S s(a);
        auto chk = [&] { if (n < 42) { check(s, a); return; } MC_EQ(s.size(), n, "size"); auto d = s.dump_entries(); for (int i = 0; i < n; ++i) { MC_EQ(d[i].first, a[i].first, "key " << i); MC_EQ(s.get(i), a[i].second, "get " << i); } for (int l = 0; l <= n; l += 1 + l % 5) for (int r = l; r <= n; r += 1 + (r + l) % 7) MC_EQ(s.prod(l, r), foldv(a, l, r), "prod(" << l << "," << r << ")"); };
        auto srt = [&](int l, int r, bool dsc) { if (l >= r) return; dsc ? s.sort_dsc(l, r) : s.sort_asc(l, r); std::sort(a.begin() + l, a.begin() + r, [&](const P& x, const P& y) { return dsc ? x.first > y.first : x.first < y.first; }); chk(); };
        chk(); srt(n / 4, n - n / 4, false); srt(n / 2, n, true); srt(0, n / 3, true); srt(0, n, false); mc::step(); }
}
MC_MAIN
