#include "free.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
using namespace fr;
// init(l,r): the default content is the visible string of its positions
static string init(long long l, long long r) { string s; for (; l < r; ++l) s += char('a' + l % 26); return s; }
using A = suisen::SparseSegmentTree<long long, string, cat, eps>;
using B = suisen::SparseSegmentTree<long long, string, cat, eps, init>;
template <class Tree> static void body(mc::Chooser& c, bool withinit) {
    int n = c.range(1, mc::sz(7, 9)), D = mc::depth(3, 4);
    Tree s(n), other(n); std::vector<string> a(n); int next = 0;
    if (withinit) for (int i = 0; i < n; ++i) a[i] = string(1, 'a' + i);
    MC_LOG("n=" << n);
    for (int d = 0; d <= D; ++d) {
        if (d) {
            int i = c.choose(n); string v = string(1, 'A' + next++);
            if (d & 1) s.set(i, v), a[i] = v; else s.apply_fun(i, [&](const string& x) { return x + v; }), a[i] += v;
            MC_LOG((d & 1 ? "set " : "apply_fun ") << i << " " << v);
        }
        for (int i = 0; i < n; ++i) MC_EQ(s.get(i), a[i], "get " << i << " n=" << n);
        for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { MC_EQ(s(l, r), fold(a.begin() + l, a.begin() + r), "(" << l << "," << r << ") n=" << n); MC_EQ(s.prod(l, r), s(l, r), "prod"); }
        MC_EQ(s.prod_all(), fold(a.begin(), a.end()), "prod_all");
    }
    // a second tree of the same type (shared node pool) is unaffected
    MC_EQ(other(0, n), withinit ? init(0, n) : string(), "other tree changed");
    mc::outcome(std::hash<string>()(s.prod_all()));
}
MC_GROUP(default_init) { mc::bound("n<=7(9), depth 3(4)"); mc::explore([&](mc::Chooser& c) { body<A>(c, false); }); }
MC_GROUP(custom_init) { mc::bound("n<=7(9), depth 3(4)"); mc::explore([&](mc::Chooser& c) { body<B>(c, true); }); }
static long long add(long long a, long long b) { return a + b; }
static long long zero() { return 0; }
static long long cnt(long long l, long long r) { return r - l; }
using C = suisen::SparseSegmentTree<long long, long long, add, zero, cnt>;
MC_GROUP(huge_index) {
    mc::bound("n in {1,2,3,10^18, 2^60-1, 2^40}, depth 3 over 8 extreme positions");
    mc::explore([&](mc::Chooser& c) {
        long long n = c.pick({1LL, 2LL, 3LL, 1000000000000000000LL, (1LL << 60) - 1, 1LL << 40});
        std::set<long long> ps; for (long long p : {0LL, 1LL, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n / 3}) if (0 <= p && p < n) ps.insert(p);
        std::vector<long long> P(ps.begin(), ps.end());
        C s(n); std::map<long long, long long> m; for (auto p : P) m[p] = 1;
        for (int d = 0; d < 3; ++d) {
            long long p = c.pick(P), v = 1000 + 7 * d; s.set(p, v); m[p] = v; MC_LOG("n=" << n << " set " << p);
            for (auto q : P) MC_EQ(s.get(q), m[q], "get " << q);
            std::vector<long long> E; for (auto q : P) E.push_back(q), E.push_back(q + 1); E.push_back(0); E.push_back(n);
            std::sort(E.begin(), E.end()); E.erase(std::unique(E.begin(), E.end()), E.end());
            for (auto l : E) for (auto r : E) if (l <= r) { long long w = r - l; for (auto& [k, x] : m) if (l <= k && k < r) w += x - 1; MC_EQ(s.prod(l, r), w, "prod " << l << "," << r << " n=" << n); }
        }
    });
}
MC_PERIODIC(default_init, 20, 11, false) MC_PERIODIC(custom_init, 20, 11, false)
MC_MAIN
