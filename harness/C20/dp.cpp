// Rerooting, static top tree, isomorphism classes, distance frequency
#include "mc.hpp"
#include "trees.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/static_top_tree.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
#include "library/tree/frequency_table_of_tree_distance.hpp"
using namespace suisen; using namespace std; typedef unsigned long long u64; typedef vector<string> MS;
// ---- rerooting: the dp is the free one (sorted multiset of child terms)
static MS merge_ms(const MS& a, const MS& b) { MS r = a; r.insert(r.end(), b.begin(), b.end()); sort(r.begin(), r.end()); return r; }
static string join(const MS& a) { string s; for (auto& x : a) s += x; return s; }
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
static string sub(const trees::G& g, int u, int p, const function<string(int)>& vw, const function<string(int, int)>& ew, bool top) { MS m; for (int v : g[u]) if (v != p) m.push_back("(" + ew(u, v) + ":" + sub(g, v, u, vw, ew, false) + ")"); sort(m.begin(), m.end()); string s = vw(u) + join(m); return top ? "[" + s + "]" : s; }
static void rerooting_case(int n, const trees::E& es, int order) {
    trees::G g = trees::adj(n, es, order); trees::E e = es; if (order & 1) reverse(e.begin(), e.end());
    vector<string> w; for (int i = 0; i < n; ++i) w.push_back(string(1, 'a' + (i * 5 + order) % 26)); auto ew = [](int u, int v) { return to_string(min(u, v) * 10 + max(u, v)); }; auto no = [](int, int) { return string(); }; auto nov = [](int) { return string(); };
    auto op = [](const MS& a, const MS& b) { return merge_ms(a, b); }; auto id = []() { return MS{}; };
    auto hv = [](const string& s) { u64 h = 0; for (char c : s) h = mix(h + c); return h; };
    function<u64(int, int, int)> href = [&](int u, int p, int kind) { u64 s = 0; for (int v : g[u]) if (v != p) s += mix(href(v, u, kind) * 3 + (kind & 1 ? hv(w[v]) : 1) + (kind & 2 ? hv(ew(u, v)) * 7 : 0)); return s; };
    auto uop = [](u64 a, u64 b) { return a + b; }; auto uid = []() { return u64(0); }; auto uinv = [](u64 a) { return -a; };
    { RerootingWeighted<string, string> t; t.reserve(n); for (auto& x : w) t.add_vertex(x); for (auto [u, v] : e) t.add_edge(u, v, ew(u, v)); for (int rep = 0; rep < 2; ++rep) { auto r = t.run_dp(op, id, [](const MS& m, const string& vw, const string& ww) { return MS{ "(" + ww + ":" + vw + join(m) + ")" }; }, [](const MS& m, const string& vw) { return MS{ "[" + vw + join(m) + "]" }; }); for (int u = 0; u < n; ++u) MC_EQ(r[u], (MS{ sub(g, u, -1, [&](int v) { return w[v]; }, ew, true) }), "RerootingWeighted root " << u << " edges " << mc::show(es)); if (rep == 0) { for (auto& x : w) x += "'"; t.set_vertex_weights(w); } } }
    { RerootingVertexWeighted<string> t(w); for (auto [u, v] : e) t.add_edge(u, v); auto r = t.run_dp(op, id, [](const MS& m, const string& vw) { return MS{ "(:" + vw + join(m) + ")" }; }, [](const MS& m, const string& vw) { return MS{ "[" + vw + join(m) + "]" }; }); for (int u = 0; u < n; ++u) MC_EQ(r[u], (MS{ sub(g, u, -1, [&](int v) { return w[v]; }, no, true) }), "RerootingVertexWeighted root " << u); }
    { RerootingEdgeWeighted<string> t(n); for (auto [u, v] : e) t.add_edge(u, v, ew(u, v)); auto r = t.run_dp(op, id, [](const MS& m, const string& ww) { return MS{ "(" + ww + ":" + join(m) + ")" }; }, [](const MS& m) { return MS{ "[" + join(m) + "]" }; }); for (int u = 0; u < n; ++u) MC_EQ(r[u], (MS{ sub(g, u, -1, nov, ew, true) }), "RerootingEdgeWeighted root " << u); }
    { Rerooting t(n); for (auto [u, v] : e) t.add_edge(u, v); auto r = t.run_dp(op, id, [](const MS& m) { return MS{ "(:" + join(m) + ")" }; }, [](const MS& m) { return MS{ "[" + join(m) + "]" }; }); for (int u = 0; u < n; ++u) MC_EQ(r[u], (MS{ sub(g, u, -1, nov, no, true) }), "Rerooting root " << u); }
    { RerootingInvertibleWeighted<string, string> t; t.reserve(n); for (auto& x : w) t.add_vertex(x); for (auto [u, v] : e) t.add_edge(u, v, ew(u, v)); for (int rep = 0; rep < 2; ++rep) { auto r = t.run_dp(uop, uid, uinv, [&](u64 m, const string& vw, const string& ww) { return mix(m * 3 + hv(vw) + hv(ww) * 7); }, [&](u64 m, const string& vw) { return mix(m + 5) ^ hv(vw); }); for (int u = 0; u < n; ++u) MC_EQ(r[u], mix(href(u, -1, 3) + 5) ^ hv(w[u]), "RerootingInvertibleWeighted root " << u << " edges " << mc::show(es)); if (rep == 0) { for (auto& x : w) x += "'"; t.set_vertex_weights(w); } } }
    { RerootingInvertibleVertexWeighted<string> t(w); for (auto [u, v] : e) t.add_edge(u, v); auto r = t.run_dp(uop, uid, uinv, [&](u64 m, const string& vw) { return mix(m * 3 + hv(vw)); }, [&](u64 m, const string& vw) { return mix(m + 5) ^ hv(vw); }); for (int u = 0; u < n; ++u) MC_EQ(r[u], mix(href(u, -1, 1) + 5) ^ hv(w[u]), "RerootingInvertibleVertexWeighted root " << u); }
    { RerootingInvertibleEdgeWeighted<string> t(n); for (auto [u, v] : e) t.add_edge(u, v, ew(u, v)); auto r = t.run_dp(uop, uid, uinv, [&](u64 m, const string& ww) { return mix(m * 3 + 1 + hv(ww) * 7); }, [&](u64 m) { return mix(m + 5); }); for (int u = 0; u < n; ++u) MC_EQ(r[u], mix(href(u, -1, 2) + 5), "RerootingInvertibleEdgeWeighted root " << u); }
    { RerootingInvertible t(n); for (auto [u, v] : e) t.add_edge(u, v); auto r = t.run_dp(uop, uid, uinv, [&](u64 m) { return mix(m * 3 + 1); }, [&](u64 m) { return mix(m + 5); }); for (int u = 0; u < n; ++u) MC_EQ(r[u], mix(href(u, -1, 0) + 5), "RerootingInvertible root " << u); }
}
MC_GROUP(rerooting) { mc::bound("all labelled trees on 1..6 vertices (4 edge orders up to 5; order 0..3 cycling on 6), all parent arrays on 7 vertices: both rerooting classes in all four weight modes; free commutative monoid of canonical terms / injective hashes in Z/2^64; second run after changing vertex weights"); int k = 0; for (int n = 1; n <= 6; ++n) trees::all(n, [&](const trees::E& es) { ++k; for (int o = 0; o < (n <= 4 ? 4 : 1); ++o) { MC_CASE(n, k, o); rerooting_case(n, es, n <= 4 ? o : k % 4); } }); for (int n = 7; n <= mc::T(7, 8); ++n) trees::rec(n, [&](const trees::E& es) { ++k; MC_CASE(n, k); rerooting_case(n, es, k % 4); }); }
// ---- static top tree
static vector<string> label; static trees::Ref* ref0;
struct P { vector<pair<int, MS>> seq; }; struct Sb { MS m; };
static string close(const P& p) { string s; for (size_t i = p.seq.size(); i-- > 0;) { MS m = p.seq[i].second; if (i + 1 < p.seq.size()) m.push_back(s), sort(m.begin(), m.end()); s = "(" + label[p.seq[i].first] + join(m) + ")"; } return s; }
static P f_vertex(int v) { return P{ { { v, MS{} } } }; }
static Sb f_edge(P& p, int r, int par) { if (p.seq.empty() || p.seq[0].first != r) mc::fail("add_edge: root argument is not the top of the path"); if (ref0->par[r] != par) mc::fail("add_edge: wrong parent argument"); return Sb{ MS{ close(p) } }; }
static Sb f_ms(Sb& a, Sb& b) { if (a.m.empty() || b.m.empty()) mc::fail("merge_subtrees with an empty operand"); return Sb{ merge_ms(a.m, b.m) }; }
static P f_root(Sb& s, int v) { for (auto& x : s.m) if (x.empty()) mc::fail("empty"); return P{ { { v, s.m } } }; }
static P f_mp(P& hi, P& lo) { if (hi.seq.empty() || lo.seq.empty() || ref0->par[lo.seq[0].first] != hi.seq.back().first) mc::fail("merge_paths: lower path is not attached to the end of the upper one"); P p = hi; p.seq.insert(p.seq.end(), lo.seq.begin(), lo.seq.end()); return p; }
static void top_case(int n, const trees::E& es, int root, int order) {
    trees::G g = trees::adj(n, es, order); trees::Ref r(g, root, false); ref0 = &r; label.clear(); for (int i = 0; i < n; ++i) label.push_back(to_string(i));
    static_toptree t(g, root); for (int u = 0; u < n; ++u) { MC_EQ(t.parent(u), r.par[u], "parent"); MC_EQ(t.subtree_size(u), r.sz[u], "subtree_size"); }
    function<string(int)> canon = [&](int u) { MS m; for (int v : g[u]) if (v != r.par[u]) m.push_back(canon(v)); sort(m.begin(), m.end()); return "(" + label[u] + join(m) + ")"; };
    auto dp = t.tree_dp<Sb, P, f_vertex, f_edge, f_ms, f_root, f_mp>(); MC_EQ(close(dp.answer()), canon(root), "tree_dp root=" << root << " edges=" << mc::show(es));
    for (int u = 0; u < n; ++u) { label[u] += "'"; MC_EQ(close(dp.update(u)), canon(root), "update " << u); MC_EQ(close(dp()), canon(root), "answer after update " << u); }
}
MC_GROUP(static_top_tree) { mc::bound("all labelled trees on 1..6 vertices x every root (n<=5: 4 adjacency orders), all parent arrays on 7 (thorough 8) x every third root, shapes up to 40 vertices: the result is the canonical term of the whole rooted tree, every callback receives adjacent clusters and the right vertex / parent; every vertex updated in turn"); int k = 0; for (int n = 1; n <= 6; ++n) trees::all(n, [&](const trees::E& es) { ++k; for (int root = 0; root < n; ++root) for (int o = 0; o < (n <= 5 ? 4 : 1); ++o) { MC_CASE(n, k, root, o); top_case(n, es, root, n <= 5 ? o : k % 8); } }); for (int n = 7; n <= mc::T(7, 8); ++n) trees::rec(n, [&](const trees::E& es) { ++k; for (int root = k % 3; root < n; root += 3) { MC_CASE(n, k, root); top_case(n, es, root, k % 8); } }); for (int kind = 0; kind < 4; ++kind) for (int n = 8; n <= 40; n += 8) { MC_CASE(kind, n); trees::E es; for (int v = 1; v < n; ++v) es.push_back({ kind == 0 ? v - 1 : kind == 1 ? 0 : kind == 2 ? max(v - 3, 0) : (v - 1) / 2, v }); top_case(n, es, n / 3, kind); } }
// ---- isomorphism
static string canon(const trees::G& g, int u, int p) { MS m; for (int v : g[u]) if (v != p) m.push_back(canon(g, v, u)); sort(m.begin(), m.end()); return "(" + join(m) + ")"; }
template <class H> static void iso(const vector<trees::G>& gs, bool pairs) {
    RootedTreeClassifier<H> cl; map<string, int> ids; map<int, string> back; auto see = [&](int id, const string& c, const char* what) { auto it = ids.find(c); if (it == ids.end()) { MC_CHECK(!back.count(id), what << ": id " << id << " given to two different shapes " << c << " " << back[id]); ids[c] = id; back[id] = c; } else MC_EQ(id, it->second, what << " shape " << c); };
    for (auto& g : gs) { int n = g.size(); MC_CASE(n); auto rr = cl.classify_rerooting(g); for (int r = 0; r < n; ++r) { trees::Ref ref(g, r, false); auto v = cl.classify_subtrees(g, r); for (int u = 0; u < n; ++u) see(v[u], canon(g, u, ref.par[u]), "classify_subtrees"); see(rr[r], canon(g, r, -1), "classify_rerooting"); MC_EQ(cl.classify(g, r), v[r], "classify"); } }
    if (!pairs) return;
    vector<vector<string>> cs; for (auto& g : gs) { cs.emplace_back(); for (int r = 0; r < int(g.size()); ++r) cs.back().push_back(canon(g, r, -1)); }
    for (size_t i = 0; i < gs.size(); ++i) for (size_t j = 0; j < gs.size(); ++j) { MC_CASE(i, j); bool want = count(cs[j].begin(), cs[j].end(), cs[i][0]) > 0; RootedTreeClassifier<H> fresh; for (int k = 0; k < 2; ++k) { auto r = (k ? cl : fresh).is_isomorphic(gs[i], gs[j]); MC_EQ(r.has_value(), want, "is_isomorphic " << mc::show(gs[i]) << " " << mc::show(gs[j])); if (r) { MC_CHECK(r->first >= 0 && r->first < int(gs[i].size()) && r->second >= 0 && r->second < int(gs[j].size()), "roots in range"); MC_EQ(cs[i][r->first], cs[j][r->second], "roots returned by is_isomorphic do not correspond"); } } MC_EQ(cl.is_isomorphic_rooted(gs[i], 0, gs[j], 0), cs[i][0] == cs[j][0], "is_isomorphic_rooted"); }
}
static vector<trees::G> family(int lo, int hi, int mode) { vector<trees::G> gs; int k = 0; for (int n = lo; n <= hi; ++n) { if (mode == 0) trees::all(n, [&](const trees::E& es) { gs.push_back(trees::adj(n, es, k++ % 4)); }); else { set<string> seen; trees::rec(n, [&](const trees::E& es) { trees::G g = trees::adj(n, es); string c = canon(g, 0, -1); if (seen.insert(c).second) gs.push_back(trees::adj(n, es, k++ % 8)); }); } } return gs; }
MC_GROUP(isomorphism_labelled) { mc::bound("all ordered pairs of labelled trees on 1..4 vertices (thorough 5), naive and Zobrist ids; one classifier shared by all trees and a fresh one per pair"); auto gs = family(1, mc::T(4, 5), 0); iso<IDHandlerNaive>(gs, true); iso<IDHandlerZobrist<>>(gs, true); }
MC_GROUP(isomorphism_shapes) { mc::bound("all ordered pairs of rooted shapes on 1..7 vertices; every root of all shapes on up to 8 (thorough 9) vertices classified, classes equal iff isomorphic"); auto gs = family(1, 7, 1); iso<IDHandlerNaive>(gs, true); iso<IDHandlerZobrist<2>>(gs, true); auto g8 = family(8, mc::T(8, 9), 1); iso<IDHandlerNaive>(g8, false); iso<IDHandlerZobrist<1>>(g8, false); }
// ---- distances
MC_GROUP(distance_table) { mc::bound("all labelled trees on 1..6 vertices, parent arrays on 7..8; stars, double stars and brooms of 31600..63300 vertices on which squared counts exceed the first NTT prime"); auto one = [&](int n, const trees::E& es) { trees::Ref r(trees::adj(n, es), 0); vector<long long> w(n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) ++w[r.d[i][j]]; auto g = frequency_table_of_tree_distance(n, es); MC_EQ(int(g.size()), n, "size"); for (int k = 1; k < n; ++k) MC_EQ(g[k], w[k], "dist " << k << " edges " << mc::show(es)); }; int k = 0; for (int n = 1; n <= 6; ++n) trees::all(n, [&](const trees::E& es) { ++k; MC_CASE(n, k); one(n, es); }); for (int n = 7; n <= 8; ++n) trees::rec(n, [&](const trees::E& es) { ++k; if (n == 8 && !mc::thorough() && k % 3) return; MC_CASE(n, k); one(n, es); });
    for (int kind = 0; kind < 3; ++kind) for (int L : { 31597, 31650 }) { MC_CASE(kind, L); trees::E es; vector<long long> w; long long l = L; if (kind == 0) { for (int i = 1; i <= L; ++i) es.push_back({ 0, i }); w = { 0, l, l * (l - 1) / 2 }; } else if (kind == 1) { es.push_back({ 0, 1 }); for (int i = 0; i < L; ++i) es.push_back({ 0, 2 + i }), es.push_back({ 1, 2 + L + i }); w = { 0, 2 * l + 1, l * (l - 1) + 2 * l, l * l }; } else { for (int i = 0; i < L; ++i) es.push_back({ 0, 3 + i }); es.push_back({ 0, 1 }); es.push_back({ 1, 2 }); w = { 0, l + 2, l * (l - 1) / 2 + l + 1, l }; } int n = es.size() + 1; auto g = frequency_table_of_tree_distance(n, es); w.resize(n); for (int k = 1; k < n; ++k) MC_EQ(g[k], w[k], "large kind " << kind << " L=" << L << " dist " << k); } }
static trees::E shape(int n, int kind) { trees::E es; for (int i = 1; i < n; ++i) { int p = kind == 0 ? i - 1 : kind == 1 ? 0 : kind == 2 ? (i - 1) / 2 : kind == 3 ? (i % 2 ? max(0, i - 2) : i - 1) : kind == 4 ? i - (i & -i) : (i * i) % i == 0 ? (i * 7) % i : i - 1; int a = (i * 17 + 5) % n, b = (p * 17 + 5) % n; es.push_back({ a, b }); } return es; }
MC_GROUP(medium_sizes) {
    mc::bound("paths, stars, binary, caterpillar, binomial and pseudo-arbitrary trees of 65 and 130 vertices with permuted labels: rerooting in all modes, static top tree from three roots");
    for (int n : { 67, 130 }) for (int kind = 0; kind < 6; ++kind) for (int o = 0; o < 2; ++o) { if (n % 17 == 0) continue; MC_CASE(n, kind, o); auto es = shape(n, kind); rerooting_case(n, es, o); for (int r : { 0, n / 2, n - 1 }) top_case(n, es, r, o); mc::step(); }
}
MC_GROUP(isomorphism_larger) {
    mc::bound("paths, stars, binary, caterpillar, binomial and pseudo-arbitrary trees of 12, 24, 45 and 60 vertices under two label permutations: every root classified, is_isomorphic between all pairs");
    vector<trees::G> gs; for (int n : { 12, 24, 45, 60 }) for (int kind = 0; kind < 6; ++kind) { auto es = shape(n, kind); if (n == 12 || n == 45) { gs.push_back(trees::adj(n, es)); for (auto& [u, v] : es) u = n - 1 - u, v = n - 1 - v; gs.push_back(trees::adj(n, es, 1)); } else gs.push_back(trees::adj(n, es, 2)); }
    iso<IDHandlerNaive>(gs, true); iso<IDHandlerZobrist<>>(gs, true);
}
MC_MAIN
