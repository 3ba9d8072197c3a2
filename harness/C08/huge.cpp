// mc: flags='-O1'
// Size ladder across the 10- and 16-bit borders for union-finds, against an offset-labelled oracle with known components.
#include "mc.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
using namespace suisen; static void ad(long long& a, long long b) { a += b; }
template <class U, class M> static void one(U& u, int n, int mod, M mg) { for (int i = 0; i + mod < n; i += 2) mg(i, i + mod); for (int i = n - 1 - mod; i >= 0; --i) if (i % 2) mg(i + mod, i); for (int i = 0; i < n; i += 1 + n / 1500) { MC_EQ(u.size(i), (n - 1 - i % mod) / mod + 1, "size of the residue class of " << i); MC_EQ(u.same(i, i % mod), true, "same class"); MC_EQ(u.same(i, (i + 1) % n), i % mod == ((i + 1) % n) % mod, "neighbour"); MC_CHECK(u.root(i) % mod == i % mod, "root in class"); mc::step(); } }
MC_GROUP(residue_classes) {
    mc::bound("n in {1023,1025,4097,65535,65537,70001}, residue classes modulo 1, 2, 7, 300 merged from both ends: sizes, roots, sums, weights, groups; complete undo of the undoable one");
    for (int n : { 1023, 1025, 4097, 65535, 65537, 70001 }) for (int mod : { 1, 2, 7, 300 }) { MC_CASE(n, mod); UnionFind a(n); one(a, n, mod, [&](int x, int y) { a.merge(x, y); }); auto g = a.groups(); MC_EQ((int)g.size(), std::min(n, mod), "number of groups"); size_t t = 0; for (auto& c : g) { t += c.size(); for (int x : c) MC_CHECK(x % mod == c[0] % mod, "group"); } MC_EQ((int)t, n, "partition"); LinkedUnionFind l(n); one(l, n, mod, [&](int x, int y) { l.merge(x, y); }); for (int i = 0; i < std::min(mod, 9); ++i) { auto c = l.connected_component(i); std::sort(c.begin(), c.end()); for (size_t k = 0; k < c.size(); ++k) MC_EQ(c[k], int(i + k * mod), "component"); MC_EQ((int)c.size(), (n - 1 - i) / mod + 1, "component size"); }
        std::vector<long long> v(n); for (int i = 0; i < n; ++i) v[i] = 1LL * i * i; UnionFindComponentSum<long long, ad> s(v); one(s, n, mod, [&](int x, int y) { s.merge(x, y); }); for (int i = 0; i < std::min(mod, 9); ++i) { long long w = 0; for (int x = i; x < n; x += mod) w += v[x]; MC_EQ(s.sum(i), w, "component sum"); }
        WeightedUnionFind<long long> w(n); one(w, n, mod, [&](int x, int y) { w.merge(x, y, v[y] - v[x]); }); for (int i = 0; i + mod < n; i += 1 + n / 700) { int j = i % mod + (n - 1 - i % mod) / mod * mod; MC_EQ(w.diff(i, j), v[j] - v[i], "weight difference"); MC_EQ(w.diff(j, i), v[i] - v[j], "weight difference"); }
        UndoUnionFind z(n); int k = 0; one(z, n, mod, [&](int x, int y) { k += z.merge(x, y); }); while (k--) z.undo(); for (int i = 0; i < n; i += 1 + n / 900) { MC_EQ(z.size(i), 1, "undone"); MC_EQ(z.root(i), i, "undone"); } }
}
MC_MAIN
