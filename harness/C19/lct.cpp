#include "mc.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
using namespace suisen; using namespace std;
static string cop(string a, string b) { return a + b; } static string ce() { return ""; } static string rv(string s) { reverse(s.begin(), s.end()); return s; }
// an element is one char: 4 * node id + state (0..2); an operator is a map on the 3 states
typedef array<char, 3> F3; static F3 fid() { return { 0, 1, 2 }; } static F3 fcomp(F3 f, F3 g) { return { f[g[0]], f[g[1]], f[g[2]] }; }
static char fap(F3 f, char c) { return char((c & ~3) | f[c & 3]); }
static string fmap(F3 f, string s, int n) { if ((int)s.size() != n) mc::fail("mapping called with size " + to_string(n) + " on a product of " + to_string(s.size()) + " elements"); for (char& c : s) c = fap(f, c); return s; }
typedef LinkCutTree<char> L0; typedef LinkCutTreePathFoldable<string, cop, ce, rv> L1; typedef LinkCutTreePathFoldableLazy<string, cop, ce, F3, fmap, fcomp, fid, rv> L2;
static const F3 FS[3] = { { 1, 2, 0 }, { 0, 0, 2 }, { 1, 0, 2 } };
struct M { // rooted forest
    int n; vector<int> par; vector<char> st; // st: state of each element
    M(int n) : n(n), par(n, -1), st(n, 0) {}
    int root(int v) const { while (par[v] >= 0) v = par[v]; return v; }
    vector<int> up(int v) const { vector<int> r; for (; v >= 0; v = par[v]) r.push_back(v); return r; }
    void evert(int v) { auto u = up(v); for (size_t i = u.size() - 1; i > 0; --i) par[u[i]] = u[i - 1]; par[v] = -1; }
    vector<int> from_root(int v) const { auto u = up(v); reverse(u.begin(), u.end()); return u; }
    int lca(int u, int v) const { auto a = from_root(u), b = from_root(v); if (a[0] != b[0]) return -1; size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; return a[k - 1]; }
    string str(const vector<int>& p) const { string s; for (int v : p) s += char(4 * v + st[v]); return s; }
};
struct Impl { vector<typename L0::node_pointer_type> a; vector<typename L1::node_pointer_type> b; vector<typename L2::node_pointer_type> c; int n; static int cap; static void pool(int k) { L0::init_pool(k); L1::init_pool(k); L2::init_pool(k); }
    Impl(int n) : n(n) { vector<char> v0; vector<string> v1; for (int i = 0; i < n; ++i) { char x = char(4 * i); v0.push_back(x); v1.push_back(string(1, x)); } a = L0::make_nodes(v0); b = L1::make_nodes(v1); c = L2::make_nodes(v1); } };
template <class V, class P> static vector<int> ids(const V& p, const P& nodes) { vector<int> r; for (auto x : p) r.push_back(int(find(nodes.begin(), nodes.end(), x) - nodes.begin())); return r; }
static string ctx; static string hist;
// operations: enumerated as (kind, u, v)
enum { LINK, CUT, CUT1, EVERT, EXPOSE, CONN, LCA, PATH, PFR, PROD, PRODR, SET, APPLY, APPLYR, GET, KINDS };
static bool enabled(const M& m, int k, int u, int v) {
    switch (k) { case LINK: return u != v && m.root(u) != m.root(v); case CUT: return u != v && (m.par[u] == v || m.par[v] == u); case CUT1: return v == 0 && m.par[u] >= 0; case EVERT: case EXPOSE: case PFR: case PRODR: case SET: case APPLYR: case GET: return v == 0; case PROD: case APPLY: return m.root(u) == m.root(v); } return true;
}
static void model(M& m, int k, int u, int v) {
    switch (k) { case LINK: m.evert(u); m.par[u] = v; break; case CUT: m.evert(u); m.par[v] = -1; break; case CUT1: m.par[u] = -1; break; case EVERT: m.evert(u); break; case PATH: m.evert(u); break; case PROD: m.evert(u); break;
        case SET: m.st[u] = (m.st[u] + 1) % 3; break; case APPLY: m.evert(u); for (int x : m.from_root(v)) m.st[x] = FS[(u + v) % 3][(int)m.st[x]]; break; case APPLYR: for (int x : m.from_root(u)) m.st[x] = FS[u % 3][(int)m.st[x]]; break; }
}
// run on the implementations; mm is the model after the operation
static void impl(Impl& t, const M& mm, int k, int u, int v) {
    auto& a = t.a; auto& b = t.b; auto& c = t.c;
    switch (k) {
    case LINK: L0::link(a[u], a[v]); L1::link(b[u], b[v]); L2::link(c[u], c[v]); break; case CUT: L0::cut(a[u], a[v]); L1::cut(b[u], b[v]); L2::cut(c[u], c[v]); break; case CUT1: L0::cut(a[u]); L1::cut(b[u]); L2::cut(c[u]); break;
    case EVERT: L0::evert(a[u]); L1::evert(b[u]); L2::evert(c[u]); break; case EXPOSE: L0::expose(a[u]); L1::expose(b[u]); L2::expose(c[u]); break;
    case CONN: { bool w = mm.root(u) == mm.root(v); MC_EQ(L0::is_connected(a[u], a[v]), w, ctx); MC_EQ(L1::is_connected(b[u], b[v]), w, ctx); MC_EQ(L2::is_connected(c[u], c[v]), w, ctx); break; }
    case LCA: { int w = mm.lca(u, v); auto x = L0::lca(a[u], a[v]); MC_CHECK(x == (w < 0 ? nullptr : a[w]), ctx + " lca"); auto y = L1::lca(b[u], b[v]); MC_CHECK(y == (w < 0 ? nullptr : b[w]), ctx + " lca"); auto z = L2::lca(c[u], c[v]); MC_CHECK(z == (w < 0 ? nullptr : c[w]), ctx + " lca"); break; }
    case PATH: { auto x = L0::path(a[u], a[v]); auto y = L1::path(b[u], b[v]); auto z = L2::path(c[u], c[v]); bool con = mm.root(u) == mm.root(v); MC_EQ(x.has_value(), con, ctx); MC_EQ(y.has_value(), con, ctx); MC_EQ(z.has_value(), con, ctx); if (con) { auto w = mm.from_root(v); MC_EQ(ids(*x, a), w, ctx + " path"); MC_EQ(ids(*y, b), w, ctx + " path"); MC_EQ(ids(*z, c), w, ctx + " path"); } break; }
    case PFR: { auto w = mm.from_root(u); MC_EQ(ids(L0::path_from_root(a[u]), a), w, ctx + " path_from_root"); MC_EQ(ids(L1::path_from_root(b[u]), b), w, ctx + " path_from_root"); MC_EQ(ids(L2::path_from_root(c[u]), c), w, ctx + " path_from_root"); break; }
    case PROD: { L0::evert(a[u]); string w = mm.str(mm.from_root(v)); MC_EQ(L2::prod(c[u], c[v]), w, ctx + " lazy prod"); MC_EQ(L1::prod(b[u], b[v]), w, ctx + " prod"); break; }
    case PRODR: { string w = mm.str(mm.from_root(u)); MC_EQ(L2::prod_from_root(c[u]), w, ctx + " lazy prod_from_root"); MC_EQ(L1::prod_from_root(b[u]), w, ctx + " prod_from_root"); break; }
    case SET: { char x = char(4 * u + mm.st[u]); L0::set(a[u], x); L1::update_value(b[u], [&](string) { return string(1, x); }); L2::set(c[u], string(1, x)); MC_EQ(L0::get(a[u]), x, ctx); MC_EQ(L1::get(b[u]), string(1, x), ctx); MC_EQ(L2::get(c[u]), string(1, x), ctx); break; }
    case APPLY: L0::evert(a[u]); L1::evert(b[u]); L2::apply(c[u], c[v], FS[(u + v) % 3]); for (int x : mm.from_root(v)) L1::set(b[x], string(1, char(4 * x + mm.st[x]))); break;
    case GET: { char x = char(4 * u + mm.st[u]); MC_EQ(L1::get(b[u]), string(1, x), ctx + " get"); MC_EQ(L2::get(c[u]), string(1, x), ctx + " get"); break; }
    case APPLYR: L2::apply_from_root(c[u], FS[u % 3]); for (int x : mm.from_root(u)) L1::set(b[x], string(1, char(4 * x + mm.st[x]))); break;
    }
    mc::step();
}
static void observe(Impl& t, const M& m) { M w = m; for (int u = 0; u < t.n; ++u) { impl(t, w, PFR, u, 0); impl(t, w, PRODR, u, 0); MC_EQ(L2::get(t.c[u]), string(1, char(4 * u + m.st[u])), ctx + " get"); MC_EQ(L1::get(t.b[u]), string(1, char(4 * u + m.st[u])), ctx + " get"); for (int v = 0; v < t.n; ++v) { impl(t, w, CONN, u, v); impl(t, w, LCA, u, v); } } }
static const char* NM[] = { "link", "cut", "cut1", "evert", "expose", "is_connected", "lca", "path", "path_from_root", "prod", "prod_from_root", "set", "apply", "apply_from_root", "get" };
static void one_history(mc::Chooser& c, int n, const vector<pair<int, int>>& init, int D, bool light) {
    Impl::pool(64 + D * 4); Impl t(n); M m(n); hist = ""; for (auto [u, v] : init) { ctx = "init"; model(m, LINK, u, v); impl(t, m, LINK, u, v); } for (int i = 0; i < D; ++i) { vector<array<int, 3>> ops; for (int k = 0; k < KINDS; ++k) { if (light && (k == EXPOSE || k == CONN || k == PATH || k == PFR || k == PRODR || k == SET)) continue; for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) if (enabled(m, k, u, v)) ops.push_back({ k, u, v }); } auto o = ops[c.choose(ops.size())]; hist += string(" ") + NM[o[0]] + "(" + to_string(o[1]) + "," + to_string(o[2]) + ")"; ctx = "n=" + to_string(n) + " init=" + mc::show(init) + hist; model(m, o[0], o[1], o[2]); impl(t, m, o[0], o[1], o[2]); mc::outcome(mc::hash_range(m.par) * 31 + mc::hash_range(m.st)); } ctx += " (final observation)"; observe(t, m); MC_LOG(ctx); 
}
static void histories(int n, const vector<pair<int, int>>& init, int D, bool light) { mc::explore([&](mc::Chooser& c) { one_history(c, n, init, D, light); }); }
MC_GROUP(histories_empty_3) { mc::bound("LinkCutTree, LinkCutTreePathFoldable (strings), LinkCutTreePathFoldableLazy (strings, non-commuting maps) driven in lock-step: every enabled sequence of 3 (thorough 4) operations of all 14 kinds on 3 isolated vertices; model: parent array with explicit rerooting"); histories(3, {}, mc::T(3, 4), false); }
MC_GROUP(histories_path_4) { mc::bound("every sequence of 2 (thorough 3) operations from the path 0-1-2-3 (rooted at 3), star and a 5-vertex caterpillar"); int D = mc::T(2, 3); histories(4, { { 0, 1 }, { 1, 2 }, { 2, 3 } }, D, false); histories(4, { { 1, 0 }, { 2, 0 }, { 3, 0 } }, D, false); histories(5, { { 0, 1 }, { 2, 1 }, { 1, 3 }, { 4, 3 } }, 2, !mc::thorough()); }
MC_GROUP(histories_mutating) { mc::bound("every sequence of 3 mutating operations (link, cut, evert, lca, prod, apply) from a 3-vertex (thorough 4-vertex) path"); if (mc::thorough()) histories(4, { { 0, 1 }, { 1, 2 }, { 2, 3 } }, 3, true); else histories(3, { { 0, 1 }, { 1, 2 } }, 3, true); }
static void tour_n(int n, int mask = (1 << KINDS) - 1) {
    Impl::pool(64); static Impl* t; t = new Impl(n); int nops = KINDS * n * n; ctx = "tour n=" + to_string(n); long long cnt = 0; M cur(n);
    auto dec = [n](int o) { return array<int, 3>{ o / (n * n), o / n % n, o % n }; };
    mc::tour(M(n), nops, [](const M& m) { return m.par; }, [&](M& m, int o) { auto [k, u, v] = dec(o); if (!(mask >> k & 1) || !enabled(m, k, u, v)) return false; model(m, k, u, v); m.st.assign(n, 0); return true; },
        [&](int o, const M& after) { auto [k, u, v] = dec(o); model(cur, k, u, v); MC_CHECK(cur.par == after.par, "model"); ctx = "tour n=" + to_string(n) + " step " + to_string(cnt) + " " + NM[k] + "(" + to_string(u) + "," + to_string(v) + ") forest after " + mc::show(after.par); impl(*t, cur, k, u, v); if (++cnt % 7 == 0) { int x = cnt / 7 % n; impl(*t, cur, PRODR, x, 0); impl(*t, cur, PFR, x, 0); } });
}
MC_GROUP(tour_4) { mc::bound("one live object of each class walked through every (rooted labelled forest on 4 vertices, operation) pair"); tour_n(4); }
MC_GROUP(tour_5) { mc::bound("the same for all 1296 rooted forests on 5 vertices (quick: link, cut, cut-from-parent, lca, apply)"); tour_n(5, mc::T(1 << LINK | 1 << CUT | 1 << CUT1 | 1 << LCA | 1 << APPLY, (1 << KINDS) - 1)); }
MC_GROUP(larger_trees) { mc::bound("heap-shaped, path and star trees of 1..40 vertices in a pool of exactly that capacity: every root path, product and lca"); for (int k = 0; k < 3; ++k) for (int n = 1; n <= 31; n += 1 + n / 4) { MC_CASE(k, n); Impl::pool(n); Impl t(n); M m(n); ctx = "shape " + to_string(k) + " n=" + to_string(n); for (int i = 1; i < n; ++i) { int p = k == 0 ? i / 2 : k == 1 ? i - 1 : 0; model(m, LINK, i, p); impl(t, m, LINK, i, p); } for (int i = 0; i < n; ++i) { impl(t, m, PFR, i, 0); impl(t, m, PRODR, i, 0); for (int j = 0; j < n; ++j) impl(t, m, LCA, i, j); model(m, APPLY, i, (i * 7 + 3) % n); impl(t, m, APPLY, i, (i * 7 + 3) % n); } for (int i = 0; i < n; ++i) { model(m, EVERT, i, 0); impl(t, m, EVERT, i, 0); model(m, PROD, i, n - 1 - i); impl(t, m, PROD, i, n - 1 - i); } } }
// access histories: a fixed tree of 7 vertices (long preferred paths, so splay trees of depth >= 3 with pending reversals and operators), then one full query
static void accesses(int n, const vector<pair<int, int>>& init, int D) {
    mc::explore([&](mc::Chooser& c) { Impl::pool(16); Impl t(n); M m(n); hist = ""; for (auto [u, v] : init) { ctx = "init"; model(m, LINK, u, v); impl(t, m, LINK, u, v); }
        auto run = [&](int k, int u, int v) { hist += string(" ") + NM[k] + "(" + to_string(u) + "," + to_string(v) + ")"; ctx = "n=" + to_string(n) + " init=" + mc::show(init) + hist; model(m, k, u, v); impl(t, m, k, u, v); };
        for (int i = 0; i < D; ++i) { int k = c.choose(3), u = c.choose(n); run(k == 0 ? EVERT : k == 1 ? EXPOSE : APPLYR, u, 0); }
        static const int Q[] = { PATH, PROD, APPLY, LCA, PFR, PRODR, CUT1 }; int k = Q[c.choose(7)], u = c.choose(n), v = k == PFR || k == PRODR || k == CUT1 ? 0 : c.choose(n); if (!enabled(m, k, u, v)) return; run(k, u, v); mc::outcome(mc::hash_range(m.par) * 31 + mc::hash_range(m.st));
        ctx += " (final observation)"; for (int x = 0; x < n; ++x) { int y = (x * 3 + u) % n; impl(t, m, PFR, y, 0); impl(t, m, PRODR, y, 0); } MC_LOG(ctx); });
}
MC_GROUP(accesses_path_7) { mc::bound("path of 7 vertices: every sequence of 2 (thorough 3) evert / expose / apply_from_root calls followed by every path / prod / apply / lca / path_from_root / prod_from_root / cut query and a full read-back"); accesses(7, { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 4 }, { 4, 5 }, { 5, 6 } }, mc::T(2, 3)); }
MC_GROUP(accesses_tree_7) { mc::bound("the same on a 7-vertex tree with a branching centre (depths 0..4)"); accesses(7, { { 1, 0 }, { 2, 1 }, { 3, 2 }, { 4, 3 }, { 5, 2 }, { 6, 5 } }, mc::T(2, 3)); }
MC_GROUP(accesses_path_10) { mc::bound("path of 10 vertices: one (thorough two) access calls and every query"); vector<pair<int, int>> e; for (int i = 1; i < 10; ++i) e.emplace_back(i, i - 1); accesses(10, e, mc::T(1, 2)); }
MC_GROUP(periodic_tree_7) { mc::bound("every periodic choice word (period 1..3 over 7 letters (12); shears 0, 1, 3): 50 operations from a path, star and caterpillar of 7 vertices");  auto f = [&](mc::Chooser& c) { switch (c.choose(3)) { case 0: one_history(c, 7, { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 4 }, { 4, 5 }, { 5, 6 } }, 50, false); break; case 1: one_history(c, 7, { { 1, 0 }, { 2, 0 }, { 3, 0 }, { 4, 0 }, { 5, 0 }, { 6, 0 } }, 50, false); break; default: one_history(c, 7, { { 0, 1 }, { 2, 1 }, { 1, 3 }, { 4, 3 }, { 5, 6 } }, 50, true); } }; mc::periodic(f, true); }
MC_MAIN
