#include "free.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
using namespace suisen; using fr::K; using std::string; typedef unsigned long long u64;
using VI = std::vector<int>; using G = std::vector<VI>;
// reference partition: id[i] = class label
struct Part { VI id; explicit Part(int n) : id(n) { std::iota(id.begin(), id.end(), 0); } bool merge(int x, int y) { int a = id[x], b = id[y]; if (a == b) return false; for (int& v : id) if (v == b) v = a; return true; } bool same(int x, int y) const { return id[x] == id[y]; } VI comp(int x) const { VI r; for (size_t i = 0; i < id.size(); ++i) if (id[i] == id[x]) r.push_back(i); return r; } };
static G canon(G g) { for (auto& v : g) std::sort(v.begin(), v.end()); std::sort(g.begin(), g.end()); return g; }
static G groups(const Part& p) { std::map<int, VI> m; for (size_t i = 0; i < p.id.size(); ++i) m[p.id[i]].push_back(i); G r; for (auto& e : m) r.push_back(e.second); return canon(r); }
template <class U> static void check(U& u, const Part& p, int order = 0) {
    int n = p.id.size();
    for (int q = 0; q < n; ++q) { int i = order ? n - 1 - q : q; int r = u.root(i); MC_CHECK(0 <= r && r < n && p.same(r, i), "root(" << i << ")=" << r << " is in the component"); MC_EQ(u.root(r), r, "root of root"); MC_EQ(u[i], r, "[] equals root"); MC_EQ(u.size(i), (int)p.comp(i).size(), "size(" << i << ")"); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { MC_EQ(u.same(i, j), p.same(i, j), "same(" << i << "," << j << ")"); if (p.same(i, j)) MC_EQ(u.root(i), u.root(j), "one root per component"); }
    auto g = u.groups(); for (auto& v : g) MC_CHECK(!v.empty(), "no empty group"); MC_EQ(canon(g), groups(p), "groups");
}
static void pairs(mc::Chooser& c, int n, int& x, int& y) { x = c.choose(n); y = c.choose(n); }
// merge schedules that build deep trees: binary tournament over 2^k elements using the given member of each block
template <class F> static void tournament(int k, int rep, F merge) { int n = 1 << k; for (int b = 1; b < n; b *= 2) for (int i = 0; i + b < n; i += 2 * b) { int x = rep == 0 ? i : rep == 1 ? i + b - 1 : i + b / 2, y = rep == 0 ? i + b : rep == 1 ? i + 2 * b - 1 : i + b; if (rep == 3) std::swap(x, y); merge(x, y); } }
template <class U> static void basic(const char*) {
    mc::bound("n<=4: every merge sequence to depth 3(4), all pairs incl. repeats; tournaments to n=32(64) with every query order");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::sz(4, 5)), D = mc::depth(c.range(0, n >= 4 ? 3 : 4)); U u(n); Part p(n); for (int d = 0; d < D; ++d) { int x, y; pairs(c, n, x, y); MC_LOG("merge " << x << " " << y); MC_EQ(u.merge(x, y), p.merge(x, y), "merge result"); } check(u, p, D & 1); mc::outcome(mc::hash_range(p.id)); });
    for (int k = 1; k <= mc::T(5, 6); ++k) for (int rep = 0; rep < 4; ++rep) for (int o = 0; o < 2; ++o) { MC_CASE(k, rep, o); int n = 1 << k; U u(n); Part p(n); tournament(k, rep, [&](int x, int y) { MC_EQ(u.merge(x, y), p.merge(x, y), "merge"); }); check(u, p, o); U w(n); Part q(n); for (int i = 0; i + 1 < n; ++i) { int x = o ? n - 1 - i : i, y = o ? n - 2 - i : i + 1; if (rep & 1) std::swap(x, y); MC_EQ(w.merge(x, y), q.merge(x, y), "chain merge"); if (i % 5 == rep) check(w, q, o); } check(w, q); }
}
MC_GROUP(union_find) { basic<UnionFind>(""); UnionFind d; MC_EQ((int)d.groups().size(), 0, "default constructed"); }
MC_GROUP(undo_basic) { basic<UndoUnionFind>(""); UndoUnionFind d; MC_EQ((int)d.groups().size(), 0, "default constructed"); }
MC_GROUP(linked) {
    basic<LinkedUnionFind>("");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::sz(5, 6)); LinkedUnionFind u(n); Part p(n); for (int d = 0; d < mc::depth(3); ++d) { int x, y; pairs(c, n, x, y); u.merge(x, y); p.merge(x, y); } for (int i = 0; i < n; ++i) { VI g = u.connected_component(i); MC_EQ(g[0], i, "component starts with the item"); std::sort(g.begin(), g.end()); MC_EQ(g, p.comp(i), "connected_component(" << i << ")"); } });
    for (int k = 1; k <= 6; ++k) for (int rep = 0; rep < 4; ++rep) { MC_CASE(k, rep); LinkedUnionFind u(1 << k); Part p(1 << k); tournament(k, rep, [&](int x, int y) { u.merge(x, y); p.merge(x, y); for (int i : { x, y }) { VI g = u.connected_component(i); std::sort(g.begin(), g.end()); MC_EQ(g, p.comp(i), "component"); } }); }
}
// ---------------------------------------------------------------- undo
struct Log { std::vector<string> st; Log(string s = "") : st{ s } {} bool operator==(const Log& o) const { return st == o.st; } };
static void mlog(Log& a, const Log& b) { a.st.push_back(a.st.back() + b.st.back()); }
static void ulog(Log& a) { a.st.pop_back(); }
MC_GROUP(undo) {
    mc::bound("n<=3(4), every history of merge/undo/snapshot/rollback to depth 5(6); component sums restored exactly");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, mc::sz(3, 4)); using S = UndoUnionFindComponentSum<Log, mlog, ulog>; UndoUnionFind u(n); std::vector<Log> iv; for (int i = 0; i < n; ++i) iv.push_back(Log(string(1, fr::letter(i)))); S s(iv);
        std::vector<Part> st{ Part(n) };   // stack since the last snapshot
        for (int d = 0; d < mc::depth(5); ++d) {
            int k = c.choose(4);
            if (k == 0) { int x, y; pairs(c, n, x, y); Part q = st.back(); bool m = q.merge(x, y); MC_LOG("merge " << x << " " << y); MC_EQ(u.merge(x, y), m, "merge"); MC_EQ(s.merge(x, y), m, "merge (sum)"); if (m) st.push_back(q); }
            else if (k == 1) { if (st.size() == 1) { if (mc::keep_going()) continue; return; } st.pop_back(); u.undo(); s.undo(); MC_LOG("undo"); }
            else if (k == 2) { Part q = st.back(); st = { q }; u.snapshot(); s.snapshot(); MC_LOG("snapshot"); }
            else { st.resize(1, Part(n)); u.rollback(); s.rollback(); MC_LOG("rollback"); }
        }
        check(u, st.back()); check(s, st.back()); const S& cs = s;
        for (int i = 0; i < n; ++i) { string g = s.sum(i).st.back(), h; std::sort(g.begin(), g.end()); for (int j : st.back().comp(i)) h += fr::letter(j); MC_EQ(g, h, "component sum"); MC_EQ(cs.sum(i).st.back(), s.sum(i).st.back(), "const sum"); if (h.size() == 1) MC_EQ(s.sum(i).st.size(), size_t(1), "undo_data called once per undone merge"); }
        mc::outcome(mc::hash_range(st.back().id));
    });
    for (int k = 1; k <= 6; ++k) for (int rep = 0; rep < 4; ++rep) { MC_CASE(k, rep); int n = 1 << k; UndoUnionFind u(n); std::vector<Part> st{ Part(n) }; tournament(k, rep, [&](int x, int y) { u.merge(x, y); Part q = st.back(); q.merge(x, y); st.push_back(q); }); check(u, st.back()); while (st.size() > 1) { u.undo(); st.pop_back(); if (st.size() % 7 == 1) check(u, st.back()); } }
}
// ---------------------------------------------------------------- sums
static void mset(string& a, string b) { a += b; }
MC_GROUP(component_sum) {
    mc::bound("n<=4(5), every merge sequence of length 3; tournaments");
    using S = UnionFindComponentSum<string, mset>;
    auto ck = [](S& s, const Part& p) { for (size_t i = 0; i < p.id.size(); ++i) { string g = s.sum(i), h; std::sort(g.begin(), g.end()); for (int j : p.comp(i)) h += char('!' + j); MC_EQ(g, h, "component sum"); } };
    auto mk = [](int n) { std::vector<string> v; for (int i = 0; i < n; ++i) v.push_back(string(1, char('!' + i))); return v; };
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::sz(4, 5)); S s(mk(n)); Part p(n); for (int d = 0; d < mc::depth(3); ++d) { int x, y; pairs(c, n, x, y); MC_EQ(s.merge(x, y), p.merge(x, y), "merge"); ck(s, p); } check(s, p); });
    for (int k = 1; k <= 6; ++k) for (int rep = 0; rep < 4; ++rep) { MC_CASE(k, rep); int n = 1 << k; S s(mk(n)); Part p(n); tournament(k, rep, [&](int x, int y) { s.merge(x, y); p.merge(x, y); }); ck(s, p); check(s, p); }
    S f(3, "z"); f.merge(0, 2); MC_EQ(f.sum(2), string("zz"), "fill constructor");
}
// ---------------------------------------------------------------- lazy: the affine group over Z/2^64 (odd multipliers) acting on sums
struct Af { u64 a = 1, b = 0; bool operator==(const Af& o) const { return a == o.a && b == o.b; } };
static std::ostream& operator<<(std::ostream& o, const Af& f) { return o << f.a << "x+" << f.b; }
static u64 inv64(u64 a) { u64 x = a; for (int i = 0; i < 6; ++i) x *= 2 - a * x; return x; }
static void addsum(u64& a, u64 b) { a += b; } static u64 neg(u64 a) { return -a; }
static void amap(Af f, u64& s, int n) { s = f.a * s + f.b * (u64)n; } static Af acomp(Af f, Af g) { return { f.a * g.a, f.a * g.b + f.b }; } static Af aid() { return {}; } static Af ainv(Af f) { u64 i = inv64(f.a); return { i, -i * f.b }; }
static Af aff(int i) { return { K(i) | 1, K(i + 100) }; }
using L = UnionFindLazy<u64, addsum, neg, Af, amap, acomp, aid, ainv>;
static void ckl(L& u, const Part& p, const std::vector<u64>& v) { for (size_t i = 0; i < v.size(); ++i) { MC_EQ(u.get_point(i), v[i], "get_point(" << i << ")"); u64 s = 0; for (int j : p.comp(i)) s += v[j]; MC_EQ(u.get_component(i), s, "get_component(" << i << ")"); VI g = u.connected_component(i); std::sort(g.begin(), g.end()); MC_EQ(g, p.comp(i), "connected_component"); } }
MC_GROUP(lazy) {
    mc::bound("n<=3(4), every history of merge/apply_component/apply_point/set_point/propagate to depth 4; non-commuting affine operators");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, mc::sz(3, 4)); std::vector<u64> v(n); for (int i = 0; i < n; ++i) v[i] = K(500 + i); L u(v); Part p(n);
        for (int d = 0; d < mc::depth(4); ++d) {
            Af f = aff(d); switch (c.choose(5)) {
            case 0: { int x, y; pairs(c, n, x, y); MC_LOG("merge " << x << " " << y); MC_EQ(u.merge(x, y), p.merge(x, y), "merge"); break; }
            case 1: { int x = c.choose(n); MC_LOG("apply_component " << x); u.apply_component(x, f); for (int j : p.comp(x)) amap(f, v[j], 1); break; }
            case 2: { int x = c.choose(n); MC_LOG("apply_point " << x); u.apply_point(x, f); amap(f, v[x], 1); break; }
            case 3: { int x = c.choose(n); MC_LOG("set_point " << x); u.set_point(x, K(900 + d)); v[x] = K(900 + d); break; }
            case 4: { int x = c.choose(n); MC_LOG("propagate " << x); u.propagate(x); for (int j : p.comp(x)) MC_EQ(u.raw_value(j), v[j], "raw_value after propagate"); break; } }
        }
        ckl(u, p, v); check(u, p); u64 h = 1; for (u64 x : v) h = mc::mix(h, x); mc::outcome(h);
    });
    for (int k = 1; k <= 5; ++k) for (int rep = 0; rep < 4; ++rep) { MC_CASE(k, rep); int n = 1 << k, d = 0; std::vector<u64> v(n); for (int i = 0; i < n; ++i) v[i] = K(500 + i); L u(v); Part p(n); tournament(k, rep, [&](int x, int y) { u.apply_component(y, aff(d)); for (int j : p.comp(y)) amap(aff(d), v[j], 1); ++d; u.apply_point(x, aff(d)); amap(aff(d), v[x], 1); ++d; u.merge(x, y); p.merge(x, y); u.apply_component(x, aff(d)); for (int j : p.comp(x)) amap(aff(d), v[j], 1); ++d; ckl(u, p, v); }); }
}
// ---------------------------------------------------------------- weighted, over the non-commutative affine group
using W = WeightedUnionFind<Af, acomp, aid, ainv>;
static void ckw(W& w, const Part& p, const std::vector<Af>& pot, int order) { int n = pot.size(); for (int q = 0; q < n * n; ++q) { int t = order ? n * n - 1 - q : q, i = t / n, j = t % n; MC_EQ(w.same(i, j), p.same(i, j), "same"); if (p.same(i, j)) MC_EQ(w.diff(i, j), acomp(ainv(pot[i]), pot[j]), "diff(" << i << "," << j << ")"); } }
template <class F> static void wm(W& w, Part& p, std::vector<Af>& pot, int x, int y, Af d, F) { MC_EQ(w.merge(x, y, d), !p.same(x, y), "merge"); if (!p.same(x, y)) { Af s = acomp(acomp(pot[x], d), ainv(pot[y])); for (int j : p.comp(y)) pot[j] = acomp(s, pot[j]); p.merge(x, y); } }
MC_GROUP(weighted) {
    mc::bound("n<=4(5), every merge sequence of length 3 (repeats are refused without effect), non-commutative weights; tournaments to 64 with both query orders");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::sz(4, 5)); W w(n); Part p(n); std::vector<Af> pot(n); for (int d = 0; d < mc::depth(3); ++d) { int x, y; pairs(c, n, x, y); MC_LOG("merge " << x << " " << y); wm(w, p, pot, x, y, aff(d), 0); } ckw(w, p, pot, c.choose(2)); check(w, p); });
    for (int k = 1; k <= 6; ++k) for (int rep = 0; rep < 4; ++rep) for (int o = 0; o < 2; ++o) { MC_CASE(k, rep, o); int n = 1 << k, d = 0; W w(n); Part p(n); std::vector<Af> pot(n); tournament(k, rep, [&](int x, int y) { wm(w, p, pot, x, y, aff(d++), 0); }); for (int z = 0; z < 4; ++z) { W t = w; int i = z * (n - 1) / 3; t.root(i); ckw(t, p, pot, o); } check(w, p, o); }
    WeightedUnionFind<long long> s(3); s.merge(0, 1, 5); s.merge(2, 1, 7); MC_EQ(s.diff(0, 2), -2LL, "default group"); WeightedUnionFind<int> z; MC_EQ((int)z.groups().size(), 0, "default constructed");
}
// ---------------------------------------------------------------- merge history
struct HRef { std::vector<Part> at; explicit HRef(int n) : at{ Part(n) } {} };
static void ckh(MergeHistoryForest& f, const HRef& h) {
    int n = h.at[0].id.size(), T = (int)h.at.size() - 1, N = f.node_num(); MC_EQ(f.current_time(), T, "current_time"); MC_EQ(f.leaf_num(), n, "leaf_num");
    for (int v = 0; v < N; ++v) { MC_EQ(f.is_forest_leaf(v), v < n, "is_forest_leaf"); MC_EQ(f.is_forest_root(v), f.forest_parent(v) < 0, "is_forest_root"); if (v >= n) MC_CHECK(f.forest_children(v).size() >= 2, "inner node " << v << " joins at least two components"); else MC_CHECK(f.forest_children(v).empty(), "leaves have no children"); for (int w : f.get_forest()[v]) { MC_EQ(f.forest_parent(w), v, "parent of child"); MC_CHECK(f.created_time(w) < f.created_time(v), "children are older"); } }
    VI roots; for (int v = 0; v < N; ++v) if (f.forest_parent(v) < 0) roots.push_back(v); VI g = f.forest_roots(); std::sort(g.begin(), g.end()); MC_EQ(g, roots, "forest_roots");
    auto lca = [&](int u, int v) { std::set<int> s; for (; u >= 0; u = f.forest_parent(u)) s.insert(u); while (!s.count(v)) v = f.forest_parent(v); return v; };
    for (int t = 0; t <= T + 1; ++t) { const Part& p = h.at[std::min(t, T)]; MC_EQ(canon(f.groups(t)), groups(p), "groups at time " << t); for (int i = 0; i < n; ++i) { VI q = f.group(i, t); std::sort(q.begin(), q.end()); MC_EQ(q, p.comp(i), "group"); for (int j = 0; j < n; ++j) MC_EQ(f.same(i, j, t, lca), p.same(i, j), "same at time " << t); } }
    const Part& p = h.at.back(); MC_EQ(canon(f.groups()), groups(p), "groups now"); for (int i = 0; i < n; ++i) { int r = f.forest_root(i); MC_CHECK(f.is_forest_root(r), "forest_root is a root"); int v = i; while (f.forest_parent(v) >= 0) v = f.forest_parent(v); MC_EQ(r, v, "forest_root"); for (int j = 0; j < n; ++j) MC_EQ(f.same(i, j), p.same(i, j), "same now"); }
}
MC_GROUP(merge_history) {
    mc::bound("n<=4, every history of 3 merges; every two batches of <=3(2+3) simultaneous edges on 4 vertices; every time point queried");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::sz(4)); MergeHistoryForest f(n); HRef h(n); for (int d = 0; d < mc::depth(3); ++d) { int x, y; pairs(c, n, x, y); MC_LOG("merge " << x << " " << y); if (d & 1) f.merge({ x, y }); else f.merge(x, y); Part p = h.at.back(); p.merge(x, y); h.at.push_back(p); } ckh(f, h); });
    mc::explore([&](mc::Chooser& c) { int n = mc::T(4, 5); MergeHistoryForest f(n); HRef h(n); for (int d = 0; d < 2; ++d) { int m = c.range(0, d ? 1 : mc::T(2, 3)); std::vector<std::pair<int, int>> es; Part p = h.at.back(); for (int i = 0; i < m + d; ++i) { int x, y; pairs(c, n, x, y); es.push_back({ x, y }); p.merge(x, y); } MC_LOG("simultaneously " << es.size()); f.merge_simultaneously(es); h.at.push_back(p); } ckh(f, h); });
    for (int k = 1; k <= 4; ++k) for (int rep = 0; rep < 4; ++rep) { MC_CASE(k, rep); int n = 1 << k; MergeHistoryForest f(n); HRef h(n); std::vector<std::pair<int, int>> es; int i = 0; auto flush = [&]() { f.merge_simultaneously(es); Part p = h.at.back(); for (auto& e : es) p.merge(e.first, e.second); h.at.push_back(p); es.clear(); }; tournament(k, rep, [&](int x, int y) { es.push_back({ x, y }); if (++i % 3 == 0) flush(); }); flush(); ckh(f, h); }
}
namespace rawv { using i64 = long long; inline void mrg(i64& a, i64 b) { a += b; } inline i64 neg(i64 a) { return -a; } inline void map(i64 f, i64& s, int n) { s += f * n; } inline i64 comp(i64 f, i64 g) { return f + g; } inline i64 id() { return 0; } inline i64 inv(i64 f) { return -f; } }
MC_GROUP(lazy_raw_values) { mc::bound("UnionFindLazy over the additive group: every sequence of <=4 (5) merge/apply_component/apply_point/set_point/propagate on n=3: get_point, get_component, and raw_value = get_point right after propagate and on fresh objects"); mc::explore([&](mc::Chooser& c) { using U = suisen::UnionFindLazy<long long, rawv::mrg, rawv::neg, long long, rawv::map, rawv::comp, rawv::id, rawv::inv>; std::vector<long long> v{ 1, 10, 100 }; U u(v); const U& cu = u; std::vector<int> id{ 0, 1, 2 }; for (int i = 0; i < 3; ++i) MC_EQ(cu.raw_value(i), v[i], "raw of a fresh object"); int L = c.range(0, mc::T(4, 5)); for (int s = 0; s < L; ++s) { int op = c.choose(5), x = c.choose(3); long long f = (s + 1) * 1000; if (op == 0) { int y = (x + 1) % 3; MC_EQ(u.merge(x, y), id[x] != id[y], "merge"); int a = id[x], b = id[y]; for (int& k : id) if (k == b) k = a; } else if (op == 1) { u.apply_component(x, f); for (int i = 0; i < 3; ++i) if (id[i] == id[x]) v[i] += f; } else if (op == 2) { u.apply_point(x, f); v[x] += f; } else if (op == 3) { u.set_point(x, f); v[x] = f; } else { u.propagate(x); for (int i = 0; i < 3; ++i) if (id[i] == id[x]) { MC_EQ(cu.raw_value(i), v[i], "raw after propagate"); MC_EQ(u.raw_value(i), v[i], "raw after propagate"); } }
            for (int i = 0; i < 3; ++i) { MC_EQ(u.get_point(i), v[i], "get_point"); long long t = 0; for (int j = 0; j < 3; ++j) if (id[j] == id[i]) t += v[j]; MC_EQ(u.get_component(i), t, "get_component"); } mc::step(); } }); }
template <class U> static void medium(int n, int kind) { U u(n); Part p(n); for (int i = 0; i < n; ++i) { int x = kind == 0 ? i : kind == 1 ? (i * 7) % n : kind == 2 ? i / 2 : (i * i) % n, y = kind == 0 ? (i + 1) % n : kind == 1 ? (i * 7 + n / 2) % n : kind == 2 ? i : (i * 3 + 1) % n; MC_EQ(u.merge(x, y), p.merge(x, y), "merge"); if (i % 97 == 0) check(u, p, i & 1); } check(u, p, 0); }
MC_GROUP(medium_sizes) {
    mc::bound("130, 257 and 300 elements, four merge schedules (chain, halves, heap, quadratic), every union-find kind; complete undo; weighted and lazy with non-commuting operators");
    for (int n : { 130, 257, 300 }) for (int kind = 0; kind < 4; ++kind) { MC_CASE(n, kind); medium<UnionFind>(n, kind); medium<UndoUnionFind>(n, kind); medium<LinkedUnionFind>(n, kind); auto at = [&](int i, int& x, int& y) { x = kind == 0 ? i : kind == 1 ? (i * 7) % n : kind == 2 ? i / 2 : (i * i) % n, y = kind == 0 ? (i + 1) % n : kind == 1 ? (i * 7 + n / 2) % n : kind == 2 ? i : (i * 3 + 1) % n; };
        { W w(n); Part p(n); std::vector<Af> pot(n); for (int i = 0; i < n; ++i) { int x, y; at(i, x, y); wm(w, p, pot, x, y, aff(i % 90), 0); } ckw(w, p, pot, kind & 1); }
        { std::vector<u64> v(n); for (int i = 0; i < n; ++i) v[i] = K(500 + i % 300) + i; L u(v); Part p(n); for (int i = 0; i < n; ++i) { int x, y; at(i, x, y); u.merge(x, y); p.merge(x, y); u.apply_component(y, aff(i % 90)); for (int j : p.comp(y)) amap(aff(i % 90), v[j], 1); u.apply_point(x, aff(i % 70)); amap(aff(i % 70), v[x], 1); } ckl(u, p, v); check(u, p); }
        { UndoUnionFind u(n); std::vector<Part> st{ Part(n) }; for (int i = 0; i < n; ++i) { int x, y; at(i, x, y); Part q = st.back(); if (q.merge(x, y)) st.push_back(q); u.merge(x, y); } while (st.size() > 1) { u.undo(); st.pop_back(); if (st.size() % 61 == 1) check(u, st.back()); } }
        if (n == 130) { MergeHistoryForest f(n); HRef h(n); for (int i = 0; i < n; i += 6) { std::vector<std::pair<int, int>> es; Part q = h.at.back(); for (int j = i; j < i + 6 && j < n; ++j) { int x, y; at(j, x, y); es.push_back({ x, y }); q.merge(x, y); } f.merge_simultaneously(es); h.at.push_back(q); } int T = (int)h.at.size() - 1; for (int t = 0; t <= T; t += 3) { MC_EQ(canon(f.groups(t)), groups(h.at[t]), "groups at time " << t); for (int i = 0; i < n; i += 7) { VI g = f.group(i, t); std::sort(g.begin(), g.end()); MC_EQ(g, h.at[t].comp(i), "group"); } } } }
}
MC_PERIODIC(union_find, 14, 9, false) MC_PERIODIC(undo_basic, 14, 9, false) MC_PERIODIC(linked, 14, 9, false) MC_PERIODIC(undo, 30, 6, false) MC_PERIODIC(component_sum, 14, 8, false) MC_PERIODIC(lazy, 30, 7, false) MC_PERIODIC(weighted, 14, 8, false) MC_PERIODIC(merge_history, 14, 8, false)
// sums that a moved-from copy cannot mask: a repeated merge must leave the sum alone
static void madd(u64& a, u64 b) { a += b; }
MC_GROUP(component_sum_numbers) {
    mc::bound("additive sums over Z/2^64, n<=4(5): every merge sequence of length 3 with repeated and self merges, periodic ones to length 14");
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::sz(4, 5)); std::vector<u64> v(n); for (int i = 0; i < n; ++i) v[i] = K(900 + i); UnionFindComponentSum<u64, madd> s(v); Part p(n); for (int d = 0; d < mc::depth(3); ++d) { int x, y; pairs(c, n, x, y); MC_LOG("merge " << x << " " << y); MC_EQ(s.merge(x, y), p.merge(x, y), "merge"); for (int i = 0; i < n; ++i) { u64 w = 0; for (int j : p.comp(i)) w += v[j]; MC_EQ(u64(s.sum(i)), w, "component sum of " << i); } } });
}
MC_PERIODIC(component_sum_numbers, 14, 8, false)
MC_GROUP(history_forest_many) {
    mc::bound("MergeHistoryForest on 100 vertices: six merge orders (chain, reverse chain, star, doubling, stride 7, stride 33), parents, roots and the partition of the leaves after every merge; roots of the untouched forest");
    for (int o = 0; o < 6; ++o) { int n = 100; MergeHistoryForest f(n); std::vector<int> id(n); std::iota(id.begin(), id.end(), 0); std::vector<std::pair<int, int>> es; if (o == 3) { for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) es.emplace_back(i, i + w); } else for (int i = 1; i < n; ++i) { int x = o == 0 ? i - 1 : o == 1 ? n - i : o == 2 ? 0 : o == 4 ? i * 7 % n : i * 33 % n, y = o == 0 ? i : o == 1 ? n - i - 1 : o == 2 ? i : o == 4 ? (i * 7 + 7) % n : (i * 33 + 33) % n; es.emplace_back(x, y); } int k = 0; { auto r = f.forest_roots(); std::sort(r.begin(), r.end()); for (int i = 0; i < n; ++i) MC_CHECK((int)r.size() == n && r[i] == i, "initial roots"); }
        for (auto [x, y] : es) { MC_CASE(o, k); f.merge(x, y); ++k; if (id[x] != id[y]) { int q = id[y]; for (auto& t : id) if (t == q) t = id[x]; } int comps = std::set<int>(id.begin(), id.end()).size(); MC_EQ(f.node_num(), n + (n - comps), "node_num"); std::vector<int> top(n); std::set<int> tops; for (int i = 0; i < n; ++i) { int v = i, g = 0; while (f.forest_parent(v) >= 0 && ++g < 300) v = f.forest_parent(v); top[i] = v; tops.insert(v); MC_EQ(f.forest_root(i), v, "forest_root"); } MC_EQ((int)tops.size(), comps, "components"); for (int i = 1; i < n; ++i) MC_CHECK((top[i] == top[i - 1]) == (id[i] == id[i - 1]) && (top[i] == top[0]) == (id[i] == id[0]), "partition"); auto r = f.forest_roots(); std::sort(r.begin(), r.end()); MC_CHECK(r == std::vector<int>(tops.begin(), tops.end()), "forest_roots"); mc::step(); } }
}
MC_MAIN
