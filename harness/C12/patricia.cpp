#include "mc.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
using namespace suisen; using namespace std;
typedef unsigned long long u64;
template <class PT, class V, class U> void pobserve(const PT& t, const multiset<U>& m, const vector<U>& xs, const vector<U>& bs, const vector<U>& vals) {
    int n = m.size(); string ctx = "S=" + mc::show(m);
    MC_EQ(t.size(), n, ctx); MC_EQ(t.empty(), n == 0, ctx);
    for (U v : vals) { MC_EQ((int)t.count(v), (int)m.count(v), ctx + " count " + mc::show(v)); MC_EQ(t.contains(v), m.count(v) > 0, ctx); }
    for (U x : xs) {
        vector<U> w; for (U v : m) w.push_back(x ^ v); sort(w.begin(), w.end());
        for (int k = 0; k < n; ++k) { auto c = [&]() __attribute__((noinline, cold)) { return ctx + " x=" + mc::show(x) + " k=" + to_string(k); }; MC_EQ(U(t.xor_kth_min(x, k)), w[k], c()); MC_EQ(U(t.xor_kth_max(x, k)), w[n - 1 - k], c()); if (x == 0) { MC_EQ(U(t.kth_min(k)), w[k], c()); MC_EQ(U(t.kth_max(k)), w[n - 1 - k], c()); } }
        if (n) { MC_EQ(U(t.xor_min(x)), w[0], ctx); MC_EQ(U(t.xor_max(x)), w[n - 1], ctx + " xor_max x=" + mc::show(x)); }
        for (U b : bs) {
            auto c = [&]() __attribute__((noinline, cold)) { return ctx + " x=" + mc::show(x) + " bound=" + mc::show(b); };
            int lt = lower_bound(w.begin(), w.end(), b) - w.begin(), le = upper_bound(w.begin(), w.end(), b) - w.begin();
            MC_EQ((int)t.xor_count_lt(x, b), lt, c()); MC_EQ((int)t.xor_count_leq(x, b), le, c()); MC_EQ((int)t.xor_count_gt(x, b), n - le, c()); MC_EQ((int)t.xor_count_geq(x, b), n - lt, c());
            optional<V> a1, a2, a3, a4; if (lt) a1 = V(w[lt - 1]); if (le) a2 = V(w[le - 1]); if (lt < n) a3 = V(w[lt]); if (le < n) a4 = V(w[le]);
            MC_EQ(t.safe_xor_max_lt(x, b), a1, c()); MC_EQ(t.safe_xor_max_leq(x, b), a2, c()); MC_EQ(t.safe_xor_min_geq(x, b), a3, c()); MC_EQ(t.safe_xor_min_gt(x, b), a4, c());
            if (a1) MC_EQ(t.xor_max_lt(x, b), *a1, c()); if (a2) MC_EQ(t.xor_max_leq(x, b), *a2, c()); if (a3) MC_EQ(t.xor_min_geq(x, b), *a3, c()); if (a4) MC_EQ(t.xor_min_gt(x, b), *a4, c());
            if (x == 0) {
                MC_EQ((int)t.count_lt(b), lt, c()); MC_EQ((int)t.count_leq(b), le, c()); MC_EQ((int)t.count_gt(b), n - le, c()); MC_EQ((int)t.count_geq(b), n - lt, c());
                MC_EQ(t.safe_max_lt(b), a1, c()); MC_EQ(t.safe_max_leq(b), a2, c()); MC_EQ(t.safe_min_geq(b), a3, c()); MC_EQ(t.safe_min_gt(b), a4, c());
                if (a1) MC_EQ(t.max_lt(b), *a1, c()); if (a2) MC_EQ(t.max_leq(b), *a2, c()); if (a3) MC_EQ(t.min_geq(b), *a3, c()); if (a4) MC_EQ(t.min_gt(b), *a4, c());
            }
        }
    }
}
template <class U> struct Dom { vector<U> vals, xs, bs; };
template <class U> Dom<U> small_dom(int bits, int nv) {
    Dom<U> d; U M = U((u64(1) << bits) - 1);
    vector<U> all; for (u64 v = 0; v <= M; ++v) all.push_back(U(v));
    static const int pickv[] = { 0, 15, 6, 7, 9, 4, 12, 1 };
    if ((int)all.size() <= nv) d.vals = all; else for (int i = 0; i < nv; ++i) d.vals.push_back(U(pickv[i] & M));
    sort(d.vals.begin(), d.vals.end()); d.vals.erase(unique(d.vals.begin(), d.vals.end()), d.vals.end());
    d.xs = all; d.bs = all; return d;
}
template <class U> Dom<U> wide_dom(int bits) {
    Dom<U> d; U M = bits == numeric_limits<U>::digits ? U(~U(0)) : U((U(1) << bits) - 1); U top = U(U(1) << (bits - 1));
    d.vals = { U(0), M, top, U(top - 1), U(M ^ 1), U(M / 3) };
    d.xs = { U(0), M, top, U(M / 5), U(1) };
    for (U v : d.vals) { d.bs.push_back(v); if (v) d.bs.push_back(U(v - 1)); if (v != M) d.bs.push_back(U(v + 1)); }
    return d;
}
template <class T, unsigned B> void pt_tour(const Dom<make_unsigned_t<T>>& d, int cap) {
    using U = make_unsigned_t<T>; int k = d.vals.size();
    BinaryTriePatricia<T, B> t; multiset<U> cur; int N = 5 * k + 1;
    auto apply = [&](vector<int>& m, int o) { if (o == 5 * k) { fill(m.begin(), m.end(), 0); return true; } int v = o % k; switch (o / k) { case 0: if (m[v] + 1 > cap) return false; m[v] += 1; return true; case 1: if (m[v] + 2 > cap) return false; m[v] += 2; return true; case 2: m[v] = max(0, m[v] - 1); return true; case 3: m[v] = max(0, m[v] - 2); return true; default: if (m[v] == 0) m[v] = 1; return true; } };
    mc::tour(vector<int>(k, 0), N, [](const vector<int>& m) { return m; }, apply, [&](int o, const vector<int>& m) {
        if (o == 5 * k) { t.clear(); cur.clear(); } else {
            U v = d.vals[o % k]; int before = cur.count(v), after = m[o % k]; string ctx = "op " + to_string(o / k) + " v=" + mc::show(v) + " before=" + mc::show(cur);
            switch (o / k) { case 0: t.insert(v); break; case 1: t.insert(v, 2); break; case 2: MC_EQ((int)t.erase(v), before - after, ctx); break; case 3: MC_EQ((int)t.erase(v, 2), before - after, ctx); break; default: MC_EQ(t.insert_if_absent(v), before == 0, ctx); }
            cur.erase(v); for (int i = 0; i < after; ++i) cur.insert(v);
        }
        vector<U> bs = d.bs; if constexpr (B < (unsigned)numeric_limits<U>::digits) bs.push_back(U(U(1) << B)), bs.push_back(U(~U(0)));
        pobserve<decltype(t), T>(t, cur, d.xs, bs, d.vals);
    });
}
MC_GROUP(patricia_small) {
    mc::bound("BinaryTriePatricia, 1-5 bit values (odd and even digit counts): every multiset state and edge incl. insert_if_absent, erase beyond the count, clear; all masks, k, bounds (also bounds above 2^bits)");
    pt_tour<int, 1>(small_dom<unsigned>(1, 2), 4); pt_tour<int, 2>(small_dom<unsigned>(2, 4), 2); pt_tour<unsigned char, 3>(small_dom<unsigned char>(3, mc::T(4, 6)), 2); pt_tour<unsigned, 4>(small_dom<unsigned>(4, mc::T(4, 6)), 2); pt_tour<u64, 5>(small_dom<u64>(5, mc::T(4, 5)), 2);
}
MC_GROUP(patricia_wide) {
    mc::bound("BinaryTriePatricia at 8/30/31/32/33/63/64 bits with extreme values: every set state and edge");
    pt_tour<unsigned char, 8>(wide_dom<unsigned char>(8), 1); pt_tour<int, 30>(wide_dom<unsigned>(30), 1); pt_tour<int, 31>(wide_dom<unsigned>(31), 1); pt_tour<unsigned, 32>(wide_dom<unsigned>(32), 1); pt_tour<long long, 33>(wide_dom<u64>(33), 1); pt_tour<long long, 63>(wide_dom<u64>(63), 1); pt_tour<u64, 64>(wide_dom<u64>(64), 1);
}
MC_GROUP(patricia_subsets) {
    const int B = 4; mc::bound("BinaryTriePatricia and BinaryTrie: every subset of [0,16) (quick: every subset of 8 of them), built in ascending, descending and split order, then emptied in ascending order with all elements checked");
    int step = mc::T(2, 1); int K = 16 / step;
    for (int s = 0; s < (1 << K); ++s) for (int o = 0; o < 2; ++o) {
        MC_CASE(s, o); BinaryTriePatricia<int, B> t; BinaryTrie<int, B> b; set<int> m; vector<int> e; for (int i = 0; i < K; ++i) if (s >> i & 1) e.push_back(i * step + (i & 1 & (step - 1)));
        if (o) reverse(e.begin(), e.end());
        for (int v : e) { MC_CHECK(t.insert_if_absent(v), "fresh"); b.insert(v); m.insert(v); }
        auto look = [&]() { MC_EQ(t.size(), (int)m.size(), "size"); int k = 0; for (int v : m) { MC_EQ(t.kth_min(k), v, "kth"); MC_EQ((int)b.kth_min(k), v, "kth"); ++k; } for (int v = 0; v < 16; ++v) { MC_EQ((int)t.count(v), (int)m.count(v), "count"); MC_EQ((int)t.count_lt(v), (int)distance(m.begin(), m.lower_bound(v)), "count_lt"); MC_EQ(b.count_lt(v), (int)distance(m.begin(), m.lower_bound(v)), "count_lt"); } };
        look(); sort(e.begin(), e.end()); if (__builtin_popcount(s) > 4 && !mc::thorough()) continue;
        for (int v : e) { MC_EQ((int)t.erase(v), 1, "erase"); b.erase(v); m.erase(v); look(); }
    }
}
template <int B> static void zero_counts(mc::Chooser& c) {
    BinaryTriePatricia<unsigned, B> p; BinaryTrie<unsigned, B> t; multiset<unsigned> m; unsigned M = (1u << B) - 1; static const unsigned V[] = { 0, 5, 6, 15 }; int L = mc::T(4, 5);
    for (int s = 0; s < L; ++s) { unsigned v = V[c.choose(4)] & M; int op = c.choose(4);
        if (op == 0) { p.insert(v, 0); MC_EQ(t.insert(v, 0), 0, "insert 0"); MC_LOG("insert " << v << " x0"); }
        else if (op == 1) { p.insert(v, 2); t.insert(v, 2); m.insert(v), m.insert(v); MC_LOG("insert " << v << " x2"); }
        else if (op == 2) { MC_EQ((int)p.erase(v, 0), 0, "erase 0"); MC_EQ(t.erase(v, 0), 0, "erase 0"); MC_LOG("erase " << v << " x0"); }
        else { int h = m.count(v), k = min(h, 1); MC_EQ((int)p.erase(v, 1), k, "erase 1"); MC_EQ(t.erase(v, 1), k, "erase 1"); if (h) m.erase(m.find(v)); MC_LOG("erase " << v << " x1"); }
        int n = m.size(); MC_EQ(p.size(), n, "size"); MC_EQ(t.size(), n, "size"); MC_EQ(p.empty(), n == 0, "empty");
        for (unsigned x = 0; x <= M; x += 3) { vector<unsigned> w; for (unsigned y : m) w.push_back(x ^ y); sort(w.begin(), w.end()); MC_EQ((int)p.count(x), (int)m.count(x), "count"); MC_EQ(t.count(x), (int)m.count(x), "count"); for (int k = 0; k < n; ++k) { MC_EQ((unsigned)p.xor_kth_min(x, k), w[k], "kth"); MC_EQ((unsigned)t.xor_kth_min(x, k), w[k], "kth"); MC_EQ((unsigned)p.xor_kth_max(x, k), w[n - 1 - k], "kth max"); } for (unsigned b = 0; b <= M; b += 5) { int lt = lower_bound(w.begin(), w.end(), b) - w.begin(); MC_EQ((int)p.xor_count_lt(x, b), lt, "count_lt"); MC_EQ(t.xor_count_lt(x, b), lt, "count_lt"); auto g = p.safe_xor_min_geq(x, b); MC_EQ(g.has_value(), lt < n, "min_geq"); if (g) MC_EQ((unsigned)*g, w[lt], "min_geq"); } }
        mc::step(); }
}
MC_GROUP(zero_counts_) { mc::bound("both binary tries: every sequence of <=4 (5) operations insert x0 / insert x2 / erase x0 / erase x1 over 4 values, 3 and 4 bits; all queries after each"); mc::explore([&](mc::Chooser& c) { if (c.flag()) zero_counts<3>(c); else zero_counts<4>(c); }); }
template <class T, unsigned B> static void every_depth_() {
    using U = make_unsigned_t<T>; const U M = B == (unsigned)numeric_limits<U>::digits ? U(~U(0)) : U((U(1) << B) - 1);
    for (int mode = 0; mode < 4; ++mode) { vector<U> vs{ 0 }; for (unsigned i = 0; i < B; ++i) vs.push_back(U((mode & 1 ? M << i : U(1) << i) & M)); if (mode & 2) for (auto& v : vs) v = U(v ^ (M / 3)); sort(vs.begin(), vs.end()); vs.erase(unique(vs.begin(), vs.end()), vs.end());
        BinaryTriePatricia<T, B> t; multiset<U> cur; vector<U> order = vs; if (mode == 1 || mode == 2) reverse(order.begin(), order.end()); int step = 0;
        auto look = [&](bool full) { vector<U> xs{ 0, M }, bs; if (full) for (unsigned i = 0; i < B; i += 3) xs.push_back(U(M >> i)); for (size_t i = step % 7; i < vs.size(); i += full ? 1 : 7) { bs.push_back(vs[i]); if (full) { if (vs[i]) bs.push_back(U(vs[i] - 1)); if (vs[i] != M) bs.push_back(U(vs[i] + 1)); } } MC_CASE(B, mode, step); pobserve<decltype(t), T>(t, cur, xs, bs, vs); mc::step(); };
        for (U v : order) { ++step; MC_CASE(B, mode, step); if (step % 3 == 0) { MC_CHECK(t.insert_if_absent(v) && !t.insert_if_absent(v), "insert_if_absent"); cur.insert(v); } else { t.insert(v, 1 + step % 2); for (int i = 0; i <= step % 2; ++i) cur.insert(v); } look(false); }
        look(true); vector<U> er; for (size_t i = 0; i < order.size(); i += 2) er.push_back(order[i]); for (size_t i = 1; i < order.size(); i += 2) er.push_back(order[i]); for (U v : er) { ++step; MC_CASE(B, mode, step); int k = cur.count(v); MC_EQ((int)t.erase(v, 5), k, "erase"); cur.erase(v); look(false); } }
}
MC_GROUP(every_depth) {
    mc::bound("BinaryTriePatricia with 20, 32, 63 and 64-bit digits holding branches at every depth: the B+1 values 0 and 2^i, the suffix masks, and both XORed with 0101..., inserted one by one and erased one by one, full observation when complete and a rotating seventh of it after every step");
    every_depth_<int, 20>(); every_depth_<uint32_t, 32>(); every_depth_<long long, 63>(); every_depth_<unsigned long long, 64>();
}
MC_MAIN
