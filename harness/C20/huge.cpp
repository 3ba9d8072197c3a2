// mc: flags='-O1'
// Distance tables of trees whose pair counts leave 32 bits and cross the two-modulus switch.
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <numeric>
#include "library/tree/frequency_table_of_tree_distance.hpp"
using ll = long long;
MC_GROUP(big_distance_tables) {
    mc::bound("stars with 31594..31598, 46341, 65537 and 100001 leaves (around the square root of the first modulus), two stars joined at the centres, brooms, complete binary trees and paths: every entry against the closed form");
    auto run = [&](int n, const std::vector<std::pair<int, int>>& e, const std::vector<ll>& w, const char* what) { auto r = suisen::frequency_table_of_tree_distance(n, e); MC_EQ((int)r.size(), n, "length"); for (int k = 1; k < n; ++k) MC_EQ(r[k], k < (int)w.size() ? w[k] : 0LL, what << " distance " << k); mc::step(); };
    auto C2 = [](ll x) { return x * (x - 1) / 2; };
    for (int L : { 31594, 31595, 31596, 31597, 31598, 46341, 65537, 100001 }) { MC_CASE(0, L); std::vector<std::pair<int, int>> e; for (int i = 1; i <= L; ++i) if (i % 2) e.push_back({ 0, i }); else e.push_back({ i, 0 }); run(L + 1, e, { 0, L, C2(L) }, "star");
        // centre is the last vertex
        std::vector<std::pair<int, int>> f; for (auto [a, b] : e) f.push_back({ L - a, L - b }); run(L + 1, f, { 0, L, C2(L) }, "star at the end"); }
    for (auto [p, q] : std::vector<std::pair<int, int>>{ { 31595, 31595 }, { 40000, 50000 }, { 70000, 3 } }) { MC_CASE(1, p, q); std::vector<std::pair<int, int>> e{ { 0, 1 } }; for (int i = 0; i < p; ++i) e.push_back({ 0, 2 + i }); for (int i = 0; i < q; ++i) e.push_back({ 2 + p + i, 1 }); run(p + q + 2, e, { 0, p + q + 1, C2(p) + C2(q) + p + q, (ll)p * q }, "double star"); }
    for (auto [h, L] : std::vector<std::pair<int, int>>{ { 100, 50000 }, { 3, 70000 } }) { MC_CASE(2, h, L); std::vector<std::pair<int, int>> e; std::vector<ll> w(h + 2); for (int i = 0; i + 1 < h; ++i) e.push_back({ i, i + 1 }); for (int i = 0; i < L; ++i) e.push_back({ h - 1, h + i }); for (int k = 1; k < h; ++k) w[k] += h - k; for (int i = 0; i < h; ++i) w[i + 1] += L; w[2] += C2(L); run(h + L, e, w, "broom"); }
    for (int n : { 2, 1000, 4097, 5000 }) { MC_CASE(3, n); std::vector<std::pair<int, int>> e; for (int i = 0; i + 1 < n; ++i) e.push_back({ i, i + 1 }); std::vector<ll> w(n); for (int k = 1; k < n; ++k) w[k] = n - k; run(n, e, w, "path"); }
    for (int d : { 10, 14, 16 }) { MC_CASE(4, d); int n = (1 << (d + 1)) - 1; std::vector<std::pair<int, int>> e; for (int i = 1; i < n; ++i) e.push_back({ i, (i - 1) / 2 }); std::vector<ll> w(2 * d + 1); for (int t = 0; t <= d; ++t) { int h = d - t; ll c = 1LL << t; for (int a = 1; a <= h; ++a) w[a] += c << a; for (int a = 1; a <= h; ++a) for (int b = 1; b <= h; ++b) w[a + b] += (c << (a - 1)) << (b - 1); } run(n, e, w, "binary tree"); }
}
MC_MAIN
