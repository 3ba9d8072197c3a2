// mc: flags='-O1'
// Substring counts that leave 32 bits: a^p b^q, where rank and count have closed forms.
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <map>
#include "library/string/substring_set.hpp"
#include "library/string/suffix_automaton.hpp"
using ll = long long;
MC_GROUP(big_substring_sets) {
    mc::bound("a^p b^q for (p,q) in {(50000,50000),(46341,46341),(65536,65537),(1,70000),(100000,0)}: size, k-th element and all four counts at every rank of a border ladder, membership, occurrence counts");
    for (auto [p_, q_] : std::vector<std::pair<int, int>>{ { 50000, 50000 }, { 46341, 46341 }, { 65536, 65537 }, { 1, 70000 }, { 100000, 0 } }) { MC_CASE(p_, q_); ll p = p_, q = q_; std::vector<int> s(p, -5); s.insert(s.end(), q, 1000000007); suisen::SubstringSet<int> S(s); ll N = (p + 1) * (q + 1); MC_EQ((ll)S.size(), N, "size");
        auto word = [&](ll i, ll j) { std::vector<int> v(i, -5); v.insert(v.end(), j, 1000000007); return v; }; auto rank = [&](ll i, ll j) { return j == 0 ? i : p + 1 + (p - i) * q + (j - 1); }; auto unrank = [&](ll k) { if (k <= p) return std::make_pair(k, 0LL); k -= p + 1; return std::make_pair(p - k / q, k % q + 1); };
        std::vector<ll> ks; for (ll x = 1; x < 2 * N; x *= 8) for (int d = -1; d <= 1; ++d) { ks.push_back(x + d); ks.push_back(N - 1 - x + d); } for (ll x : { 1LL << 31, 1LL << 32, N / 2, N / 3, p, p + 1 }) for (int d = -1; d <= 1; ++d) ks.push_back(x + d);
        for (ll k : ks) if (k >= 0 && k < N) { auto [i, j] = unrank(k); auto w = word(i, j); auto g = S[k]; MC_CHECK(g == w, "element " << k << " length " << g.size()); MC_CHECK(S.kth_element(k) == w, "kth_element"); MC_EQ((ll)S.count_lt(w), k, "count_lt"); MC_EQ((ll)S.count_leq(w), k + 1, "count_leq"); MC_EQ((ll)S.count_gt(w), N - 1 - k, "count_gt"); MC_EQ((ll)S.count_geq(w), N - k, "count_geq"); MC_CHECK(S.contains(w), "contains"); MC_EQ(rank(i, j), k, "rank"); mc::step(); }
        MC_CHECK(!S.contains(word(p + 1, 0)) && !S.contains(word(0, q + 1)) && !S.contains(word(p + 1, q)), "foreign words"); if (q) MC_EQ((ll)S.count_range(word(1, 0), word(0, q)), rank(0, q) - 1, "count_range");
        suisen::SuffixAutomaton<int> sa(s); auto c = sa.substring_counter(); for (ll i : { 0LL, 1LL, 2LL, p / 2, p }) for (ll j : { 0LL, 1LL, 2LL, q / 2, q }) if (i <= p && j <= q && i + j) { MC_EQ((ll)c.count(word(i, j)), i && j ? 1 : i ? p - i + 1 : q - j + 1, "occurrences of a^" << i << " b^" << j); mc::step(); } }
}
MC_MAIN
