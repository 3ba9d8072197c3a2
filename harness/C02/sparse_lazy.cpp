#include "free.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
using namespace fr;
static Seq init(long long l, long long r) { string s; for (; l < r; ++l) { s += char('a' + l % 26); s += '|'; } return Seq(s); }
static Seq map4(string f, Seq x, long long l, long long r) { if (r - l != cells(x)) mc::fail("mapping called with segment [" + std::to_string(l) + "," + std::to_string(r) + ") on a product of " + std::to_string(cells(x)) + " elements"); return smap(f, x); }
using Tr = suisen::SparseLazySegmentTree<long long, Seq, scat, seps, string, map4, comp, fid, init>;
MC_GROUP(histories) {
    mc::bound("n<=5(6), depth 3 of range apply/point apply/set/apply_fun/prod/apply_all/get; all queries after each");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, mc::sz(5, 6)); Tr s(n), other(n); std::vector<Seq> a(n); for (int i = 0; i < n; ++i) a[i] = init(i, i + 1); MC_LOG("n=" << n);
        for (int d = 0; d < mc::depth(3); ++d) {
            int k = c.choose(6); string f(1, digit(d + 1));
            if (k == 0) { int l = c.range(0, n), r = c.range(l, n); s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); MC_LOG("apply " << l << " " << r); }
            if (k == 1) { int i = c.choose(n); s.apply(i, f); a[i] = smap(f, a[i]); MC_LOG("apply " << i); }
            if (k == 2) { int i = c.choose(n); s.set(i, cell('X')); a[i] = cell('X'); MC_LOG("set " << i); }
            if (k == 3) { int i = c.choose(n); s.apply_fun(i, [&](const Seq& x) { return smap("*", x); }); a[i] = smap("*", a[i]); MC_LOG("fun " << i); }
            if (k == 4) { int l = c.range(0, n), r = c.range(l, n); MC_EQ(s.prod(l, r), foldS(a, l, r), "prod"); }
            if (k == 5) { s.apply_all(f); for (auto& x : a) x = smap(f, x); MC_LOG("all"); }
            for (int i = 0; i < n; ++i) MC_EQ(s.get(i), a[i], "get " << i);
            MC_EQ(s.prod_all(), foldS(a, 0, n), "prod_all");
        }
        for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) MC_EQ(s(l, r), foldS(a, l, r), "prod(" << l << "," << r << ")");
        MC_EQ(other(0, n), init(0, n), "another tree changed");
        mc::outcome(std::hash<string>()(foldS(a, 0, n).s));
    });
}
typedef long long ll;
static ll add(ll a, ll b) { return a + b; } static ll zero() { return 0; } static ll madd(ll f, ll x, ll l, ll r) { return x + f * (r - l); } static ll cadd(ll f, ll g) { return f + g; } static ll cnt(ll l, ll r) { return r - l; }
using H = suisen::SparseLazySegmentTree<ll, ll, add, zero, ll, madd, cadd, zero, cnt>;
MC_GROUP(huge_index) {
    mc::bound("n in {1,2,5,2^40,10^15+7}: all pairs of range adds between 7 extreme borders, all border queries");
    mc::explore([&](mc::Chooser& c) {
        ll n = c.pick({ 1LL, 2LL, 5LL, 1LL << 40, 1000000000000007LL }); std::set<ll> bs; for (ll b : { 0LL, 1LL, n / 3, n / 2, n / 2 + 1, n - 1, n }) if (b >= 0 && b <= n) bs.insert(b);
        std::vector<ll> B(bs.begin(), bs.end()); H s(n); std::vector<std::array<ll, 3>> ops;
        for (int d = 0; d < 2; ++d) { int i = c.choose(B.size()), j = i + c.choose(B.size() - i); ll v = d ? 5 : -3; s.apply(B[i], B[j], v); ops.push_back({ B[i], B[j], v }); MC_LOG("n=" << n << " apply " << B[i] << " " << B[j]);
            for (size_t x = 0; x < B.size(); ++x) { for (size_t y = x; y < B.size(); ++y) { ll w = B[y] - B[x]; for (auto& o : ops) w += std::max(0LL, std::min(o[1], B[y]) - std::max(o[0], B[x])) * o[2]; MC_EQ(s.prod(B[x], B[y]), w, "prod " << B[x] << " " << B[y]); }
                if (B[x] < n) { ll w = 1; for (auto& o : ops) if (o[0] <= B[x] && B[x] < o[1]) w += o[2]; MC_EQ(s.get(B[x]), w, "get"); } } }
    });
}
MC_GROUP(first_query) {
    mc::bound("every history of 3 updates without reads, n<=4(5), then every single get/prod/prod_all/() as the first query");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, mc::T(4, 5)); Tr s(n); std::vector<Seq> a(n); for (int i = 0; i < n; ++i) a[i] = init(i, i + 1); MC_LOG("n=" << n);
        for (int d = 0; d < 3; ++d) { int k = c.choose(5); string f(1, digit(d + 1)); if (d == 2 && k > 1 && !mc::thorough()) return;
            if (k == 0) { int l = c.range(0, n - 1), r = c.range(l + 1, n); s.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = smap(f, a[i]); MC_LOG("apply " << l << " " << r); }
            if (k == 1) { int i = c.choose(n); s.apply(i, f); a[i] = smap(f, a[i]); MC_LOG("apply " << i); }
            if (k == 2) { int i = c.choose(n); s.set(i, cell('X')); a[i] = cell('X'); MC_LOG("set " << i); }
            if (k == 3) { int i = c.choose(n); s.apply_fun(i, [&](const Seq& x) { return smap("*", x); }); a[i] = smap("*", a[i]); MC_LOG("fun " << i); }
            if (k == 4) { s.apply_all(f); for (auto& x : a) x = smap(f, x); MC_LOG("all"); } }
        int q = c.choose(4); if (q == 0) { int i = c.choose(n); MC_EQ(s.get(i), a[i], "first query get " << i); } if (q == 1) MC_EQ(s.prod_all(), foldS(a, 0, n), "first query prod_all"); if (q == 2) { int l = c.range(0, n - 1), r = c.range(l + 1, n); MC_EQ(s.prod(l, r), foldS(a, l, r), "first query prod(" << l << "," << r << ")"); } if (q == 3) { int l = c.range(0, n - 1), r = c.range(l + 1, n); MC_EQ(s(l, r), foldS(a, l, r), "first query ()"); }
        for (int i = n; i-- > 0;) MC_EQ(s.get(i), a[i], "get " << i); mc::step();
    });
}
MC_PERIODIC(histories, 25, 9, true)
MC_MAIN
