#include "free.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
using namespace fr;
using Seg = suisen::SegmentTree<string, cat, eps>;

static void check_all(Seg& s, const std::vector<string>& a, bool search) {
    int n = a.size();
    const Seg& cs = s;
    MC_EQ(s.all_prod(), fold(a.begin(), a.end()), "all_prod n=" << n);
    for (int i = 0; i < n; ++i) { MC_EQ(string(cs.get(i)), a[i], "get " << i); MC_EQ(string(s[i]), a[i], "[] " << i); }
    for (int l = 0; l <= n; ++l) {
        for (int r = l; r <= n; ++r) {
            string w = fold(a.begin() + l, a.begin() + r);
            MC_EQ(cs(l, r), w, "()(" << l << "," << r << ")");
            if (l == 0) MC_EQ(cs.prefix_prod(r), w, "prefix_prod " << r);
            if (r == n) MC_EQ(cs.suffix_prod(l), w, "suffix_prod " << l);
            MC_EQ(cs.prod(l, r), w, "prod");
        }
        if (!search) continue;
        for (size_t k = 0; k <= (size_t)n + 1; ++k) {
            int want = l; { string w; while (want < n && (w + a[want]).size() <= k) w += a[want++]; }
            string P = fold(a.begin() + l, a.end()), Q = fold(a.begin(), a.begin() + l);   // content-sensitive: accepts only true products
            MC_EQ(cs.max_right(l, [&](const string& x) { return x.size() <= k && isprefix(x, P); }), want, "max_right l=" << l << " k=" << k);
            int wl = l; { string w; while (wl > 0 && (a[wl - 1] + w).size() <= k) w = a[--wl] + w; }
            MC_EQ(cs.min_left(l, [&](const string& x) { return x.size() <= k && issuffix(x, Q); }), wl, "min_left r=" << l << " k=" << k);
        }
    }
}
static bool len2(string s) { return s.size() <= 2; }

// all histories of point sets (every n, every position sequence), all queries after every operation
MC_GROUP(histories) {
    int N = mc::sz(6, 8), D = mc::depth(4, 5);
    mc::bound("n<=" + std::to_string(N) + ", depth " + std::to_string(D) + " sets, all (l,r), all length predicates; free monoid");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, N); int init = c.choose(3);
        std::vector<string> a(n); int next = 0;
        if (init) for (auto& x : a) x = string(1, letter(next++));
        Seg s = init == 0 ? Seg(n) : Seg(a);
        if (init == 2) { Seg t(n); t.build(a); s = t; }
        MC_LOG("n=" << n << " init=" << init);
        check_all(s, a, true);
        if (n == 0) return;
        for (int d = 0; d < D; ++d) {
            int i = c.choose(n), how = d == D - 1 ? c.choose(3) : 0;
            string v = d % 3 == 2 ? string("") : string(1 + d % 2, letter(next++));
            if (how == 0) s.set(i, v), a[i] = v; else if (how == 1) s[i] = v, a[i] = v; else s[i] += v, a[i] += v;
            MC_LOG("set(" << i << "," << v << ") via " << how);
            if (d == D - 1) check_all(s, a, true);
        }
        MC_EQ(s.max_right<len2>(0), s.max_right(0, [](string x) { return x.size() <= 2; }), "max_right<f>");
        MC_EQ(s.min_left<len2>(n), s.min_left(n, [](string x) { return x.size() <= 2; }), "min_left<f>");
        mc::outcome(std::hash<string>()(s.all_prod()));
    });
}
// every size up to 70 and around powers of two: build, then one update at every position, all queries
MC_GROUP(sizes) {
    mc::bound("n in 0..40,63..66,127..130: build + one set at every position, all (l,r)");
    mc::explore([&](mc::Chooser& c) {
        static const std::vector<int> ns = [] { std::vector<int> v; for (int i = 0; i <= 40; ++i) v.push_back(i); for (int i : {63, 64, 65, 66, 127, 128, 129, 130}) v.push_back(i); return v; }();
        int n = c.pick(ns);
        std::vector<string> a(n); for (int i = 0; i < n; ++i) a[i] = string(1, letter(i));
        Seg s(a); check_all(s, a, n <= 20);
        MC_LOG("n=" << n);
        for (int i = 0; i < n; ++i) {
            a[i] = string(1, letter(i + 26)); s.set(i, a[i]);
            if (n <= 20) { check_all(s, a, n <= 12); continue; }
            for (int l = 0; l <= n; l += 1 + (l != i && l != i + 1) * 4) for (int r = std::max(l, i); r <= n; r += (r <= i + 1 ? 1 : 7)) MC_EQ(s(l, r), fold(a.begin() + l, a.begin() + r), "n=" << n << " i=" << i << " (" << l << "," << r << ")");
        }
    });
}
static long long add(long long a, long long b) { return a + b; }
static long long zero() { return 0; }
static long long mn(long long a, long long b) { return std::min(a, b); }
static long long inf() { return LLONG_MAX; }
MC_GROUP(proxy) {
    mc::bound("n=1..6, every pair of compound-assignment operators at every pair of positions");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, 6);
        std::vector<long long> a(n); for (int i = 0; i < n; ++i) a[i] = 100 + 7 * i;
        suisen::SegmentTree<long long, add, zero> s(a); suisen::SegmentTree<long long, mn, inf> t(a);
        for (int d = 0; d < 2; ++d) {
            int i = c.choose(n), k = c.choose(11); long long v = 3 + d;
            auto ap = [&](auto&& x) {
                switch (k) {
                case 0: ++std::move(x); break; case 1: --std::move(x); break; case 2: std::move(x) += v; break; case 3: std::move(x) -= v; break;
                case 4: std::move(x) *= v; break; case 5: std::move(x) /= v; break; case 6: std::move(x) %= v; break; case 7: std::move(x) = v; break;
                case 8: std::move(x) <<= v; break; case 9: std::move(x) >>= v; break; case 10: std::move(x).apply([](long long y) { return y * y + 1; }); break;
                }
            };
            ap(s[i]); ap(t[i]);
            switch (k) {
            case 0: ++a[i]; break; case 1: --a[i]; break; case 2: a[i] += v; break; case 3: a[i] -= v; break; case 4: a[i] *= v; break; case 5: a[i] /= v; break;
            case 6: a[i] %= v; break; case 7: a[i] = v; break; case 8: a[i] <<= v; break; case 9: a[i] >>= v; break; case 10: a[i] = a[i] * a[i] + 1; break;
            }
            MC_LOG("op " << k << " at " << i);
            for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) {
                long long w = 0, m = LLONG_MAX; for (int j = l; j < r; ++j) w += a[j], m = std::min(m, a[j]);
                MC_EQ(s(l, r), w, "sum op " << k); MC_EQ(t(l, r), m, "min op " << k);
            }
        }
        mc::outcome(mc::hash_range(a));
    });
}
MC_PERIODIC(histories, 20, 11, false)
MC_MAIN
