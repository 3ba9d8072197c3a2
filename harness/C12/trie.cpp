#include "mc.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
using namespace suisen; using namespace std;
typedef unsigned long long u64;
// all observers of BinaryTrie against a sorted scan of { x ^ v }
template <class BT, class U> void observe(const BT& t, const multiset<U>& m, const vector<U>& xs, const vector<U>& bs, const vector<U>& vals, int bits) {
    int n = m.size(); string ctx = "bits=" + to_string(bits) + " S=" + mc::show(m);
    MC_EQ(t.size(), n, ctx); MC_EQ(t.empty(), n == 0, ctx);
    for (U v : vals) { MC_EQ(t.count(v), (int)m.count(v), ctx + " count " + mc::show(v)); MC_EQ(t.contains(v), m.count(v) > 0, ctx); }
    for (U v : bs) for (int l = 0; l <= bits; ++l) { int c = 0; for (U w : m) c += l == bits || (w >> l) == (v >> l); MC_EQ(t.prefix_count(v, l), c, ctx + " prefix_count " + mc::show(v) + " " + to_string(l)); }
    for (U x : xs) {
        vector<U> w; for (U v : m) w.push_back(x ^ v); sort(w.begin(), w.end());
        for (int k = 0; k < n; ++k) { auto c = [&]() __attribute__((noinline, cold)) { return ctx + " x=" + mc::show(x) + " k=" + to_string(k); }; MC_EQ(t.xor_kth_min(x, k), w[k], c()); MC_EQ(t.xor_kth_max(x, k), w[n - 1 - k], c()); if (x == 0) MC_EQ(t.kth_min(k), w[k], c()); }
        if (n) { MC_EQ(t.xor_min(x), w[0], ctx); MC_EQ(t.xor_max(x), w[n - 1], ctx); if (x == 0) { MC_EQ(t.min(), w[0], ctx); MC_EQ(t.max(), w[n - 1], ctx); } }
        for (U b : bs) {
            auto c = [&]() __attribute__((noinline, cold)) { return ctx + " x=" + mc::show(x) + " bound=" + mc::show(b); };
            auto lo = lower_bound(w.begin(), w.end(), b), hi = upper_bound(w.begin(), w.end(), b); U D = U(77);
            int lt = lo - w.begin(), le = hi - w.begin();
            MC_EQ(t.xor_count_lt(x, b), lt, c()); MC_EQ(t.xor_count_leq(x, b), le, c()); MC_EQ(t.xor_count_gt(x, b), n - le, c()); MC_EQ(t.xor_count_geq(x, b), n - lt, c());
            MC_EQ(t.xor_lower(x, b, D), lt ? w[lt - 1] : D, c()); MC_EQ(t.xor_floor(x, b, D), le ? w[le - 1] : D, c());
            MC_EQ(t.xor_higher(x, b, D), le < n ? w[le] : D, c()); MC_EQ(t.xor_ceil(x, b, D), lt < n ? w[lt] : D, c());
            if (!lt) MC_EQ(t.xor_lower(x, b), U(~U(0)), c());
            if (x == 0) {
                MC_EQ(t.count_lt(b), lt, c()); MC_EQ(t.count_leq(b), le, c()); MC_EQ(t.count_gt(b), n - le, c()); MC_EQ(t.count_geq(b), n - lt, c());
                MC_EQ(t.lower(b, D), lt ? w[lt - 1] : D, c()); MC_EQ(t.floor(b, D), le ? w[le - 1] : D, c()); MC_EQ(t.higher(b, D), le < n ? w[le] : D, c()); MC_EQ(t.ceil(b, D), lt < n ? w[lt] : D, c());
            }
        }
    }
}
template <class U> struct Dom { vector<U> vals, xs, bs; };
template <class U> Dom<U> small_dom(int bits, int nv) {
    Dom<U> d; U M = U((u64(1) << bits) - 1);
    vector<U> all; for (u64 v = 0; v <= M; ++v) all.push_back(U(v));
    static const int pickv[] = { 0, 15, 6, 7, 9, 4, 12, 1 };
    if ((int)all.size() <= nv) d.vals = all; else for (int i = 0; i < nv; ++i) d.vals.push_back(U(pickv[i] & M));
    sort(d.vals.begin(), d.vals.end()); d.vals.erase(unique(d.vals.begin(), d.vals.end()), d.vals.end());
    d.xs = all; d.bs = all; return d;
}
template <class U> Dom<U> wide_dom(int bits) {
    Dom<U> d; U M = bits == numeric_limits<U>::digits ? U(~U(0)) : U((U(1) << bits) - 1); U top = U(U(1) << (bits - 1));
    d.vals = { U(0), M, top, U(top - 1), U(M ^ 1), U(M / 3) };
    d.xs = { U(0), M, top, U(M / 5), U(1) };
    for (U v : d.vals) { d.bs.push_back(v); if (v) d.bs.push_back(U(v - 1)); if (v != M) d.bs.push_back(U(v + 1)); }
    return d;
}
template <class T, int B> void bt_tour(const Dom<make_unsigned_t<T>>& d, int cap) {
    using U = make_unsigned_t<T>; int k = d.vals.size();
    BinaryTrie<T, B> t; multiset<U> cur;
    auto apply = [&](vector<int>& m, int o) { int v = o % k; switch (o / k) { case 0: if (m[v] + 1 > cap) return false; m[v] += 1; return true; case 1: if (m[v] + 2 > cap) return false; m[v] += 2; return true; case 2: m[v] = max(0, m[v] - 1); return true; case 3: m[v] = max(0, m[v] - 2); return true; default: m[v] = 0; return true; } };
    mc::tour(vector<int>(k, 0), 5 * k, [](const vector<int>& m) { return m; }, apply, [&](int o, const vector<int>& m) {
        U v = d.vals[o % k]; int before = cur.count(v), after = m[o % k]; string ctx = "op " + to_string(o / k) + " v=" + mc::show(v) + " before=" + mc::show(cur);
        switch (o / k) { case 0: MC_EQ(t.insert(v), after, ctx); break; case 1: MC_EQ(t.insert(v, 2), after, ctx); break; case 2: MC_EQ(t.erase(v), before - after, ctx); break; case 3: MC_EQ(t.erase(v, 2), before - after, ctx); break; default: MC_EQ(t.erase_all(v), before, ctx); }
        cur.erase(v); for (int i = 0; i < after; ++i) cur.insert(v);
        observe(t, cur, d.xs, d.bs, d.vals, B);
    });
}
MC_GROUP(binary_trie_small) {
    mc::bound("BinaryTrie, 1-4 bit values: one live object walked through every (multiset state with multiplicity <= 2, insert/erase/erase_all of 1 or 2) edge; all xor masks, all k, all bounds, all prefixes after every step");
    bt_tour<int, 1>(small_dom<unsigned>(1, 2), 4); bt_tour<int, 2>(small_dom<unsigned>(2, 4), 3); bt_tour<unsigned char, 3>(small_dom<unsigned char>(3, mc::T(4, 6)), 2); bt_tour<unsigned, 4>(small_dom<unsigned>(4, mc::T(4, 6)), 2);
}
MC_GROUP(binary_trie_wide) {
    mc::bound("BinaryTrie at full width 31/32/63/64 bits with extreme values: every multiset state and edge, multiplicity 1, probes adjacent to every value");
    bt_tour<int, 31>(wide_dom<unsigned>(31), 1); bt_tour<int, 32>(wide_dom<unsigned>(32), 1); bt_tour<long long, 63>(wide_dom<u64>(63), 1); bt_tour<u64, 64>(wide_dom<u64>(64), 1);
}
MC_GROUP(trie_to_string) {
    mc::bound("BinaryTrie::to_string lists exactly the stored values (leaf labels) with their multiplicities, 3- to 64-bit values");
    auto run = [&](auto* bt, auto vals) { using BT = remove_pointer_t<decltype(bt)>; for (int s = 0; s < (1 << vals.size()); ++s) { MC_CASE(s); BT t; vector<string> w, leaves; for (size_t i = 0; i < vals.size(); ++i) if (s >> i & 1) { t.insert(vals[i]); w.push_back(to_string(vals[i])); } if (w.empty()) w.push_back("0"); string g = t.to_string(); for (size_t p = 0; (p = g.find('(', p)) != string::npos; ++p) leaves.push_back(g.substr(p + 1, g.find(')', p) - p - 1)); MC_EQ(leaves, w, g); ostringstream os; os << t; MC_EQ(os.str(), g, ""); } };
    run((BinaryTrie<int, 3>*)nullptr, vector<unsigned>{ 0, 1, 3, 6, 7 });
    run((BinaryTrie<int, 32>*)nullptr, vector<unsigned>{ 0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu });
    run((BinaryTrie<long long, 64>*)nullptr, vector<u64>{ 0, 1ull << 31, 1ull << 32, 1ull << 63, ~0ull });
}
MC_MAIN
