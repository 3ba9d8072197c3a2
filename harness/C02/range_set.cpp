#include "free.hpp"
#include "library/range_query/range_set_range_composite.hpp"
using namespace fr;
using R = suisen::RangeSetRangeComposite<string, cat, eps>;
static void check(R& s, const std::vector<string>& a) { int n = a.size(); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) MC_EQ(s.prod(l, r), fold(a.begin() + l, a.begin() + r), "prod(" << l << "," << r << ") n=" << n); }
MC_GROUP(histories) {
    mc::bound("n<=5(6), both constructors, depth 3(4) of all range sets, all products after each; free monoid");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, mc::sz(5, 6)), how = c.choose(2); std::vector<string> a(n, "z"); if (how) for (int i = 0; i < n; ++i) a[i] = string(1, letter(i));
        R s = how ? R(a) : R(n, "z"); check(s, a); if (!n) return; MC_LOG("n=" << n << " how=" << how);
        for (int d = 0; d < mc::depth(3); ++d) { int l = c.range(0, n), r = c.range(l, n); string f(1, digit(d)); s.set(l, r, f); for (int i = l; i < r; ++i) a[i] = f; MC_LOG("set " << l << " " << r); check(s, a); }
        mc::outcome(std::hash<string>()(s.prod(0, n)));
    });
}
MC_GROUP(wide) {
    mc::bound("n in {63..66,127..130}: all borders near multiples of 64, three nested/overlapping sets");
    mc::explore([&](mc::Chooser& c) {
        int n = c.pick({ 63, 64, 65, 66, 127, 128, 129, 130 }); std::vector<int> B; for (int b : { 0, 1, 62, 63, 64, 65, 127, 128, n - 1, n }) if (b >= 0 && b <= n) B.push_back(b); std::sort(B.begin(), B.end()); B.erase(std::unique(B.begin(), B.end()), B.end());
        std::vector<string> a(n, "z"); R s(n, "z");
        for (int d = 0; d < 2; ++d) { int i = c.choose(B.size()), j = i + c.choose(B.size() - i); string f(1, digit(d)); s.set(B[i], B[j], f); for (int k = B[i]; k < B[j]; ++k) a[k] = f; MC_LOG("n=" << n << " set " << B[i] << " " << B[j]); }
        for (int l : B) for (int r : B) if (l <= r) MC_EQ(s.prod(l, r), fold(a.begin() + l, a.begin() + r), "prod " << l << " " << r);
    });
}
MC_PERIODIC(histories, 25, 9, false)
MC_MAIN
