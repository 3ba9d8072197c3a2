// mc: flags='-O1'
// Horn-SAT and 2-SAT on every small formula, against brute force over all assignments.
#include "mc.hpp"
#include <cassert>
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/two_sat.hpp"
using namespace suisen;
struct HC { int mask, rhs; bool val; };
static bool horn_ok(const std::vector<HC>& f, int a) { for (auto& h : f) { if ((a & h.mask) != h.mask) continue; if (h.rhs < 0) return false; if (((a >> h.rhs) & 1) != h.val) return false; } return true; }
static void horn_check(HornSAT& s, const std::vector<HC>& f, int n) {
    bool want = false; for (int a = 0; a < (1 << n); ++a) want |= horn_ok(f, a);
    MC_EQ(s.satisfiable(), want, "satisfiable");
    if (!want) return;
    auto r = s.answer(); MC_EQ((int)r.size(), n, "answer size"); int a = 0; for (int i = 0; i < n; ++i) a |= (int)r[i] << i;
    MC_CHECK(horn_ok(f, a), "answer satisfies every clause"); mc::outcome(a);
}
MC_GROUP(horn) {
    mc::bound("every formula of <=3 (4) Horn clauses over n<=3 variables (every left-hand set, right-hand side positive, negative or 'contradiction'), decided after each added clause");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, 3), k = c.range(0, n == 3 ? 3 : 4); HornSAT s(n); std::vector<HC> f; horn_check(s, f, n);
        for (int i = 0; i < k; ++i) {
            HC h; h.mask = c.choose(1 << n); int r = c.choose(2 * n + 1); h.rhs = r == 2 * n ? -1 : r >> 1; h.val = r & 1; f.push_back(h);
            std::vector<int> l; for (int j = 0; j < n; ++j) if (h.mask >> j & 1) l.push_back(j);
            MC_LOG(h.mask << " -> " << h.rhs << "=" << h.val);
            if (l.empty() && (i & 1)) s.add_clause(h.rhs, h.val); else s.add_clause(l, h.rhs, h.val);
            if (i + 1 == k || (h.mask & 1)) horn_check(s, f, n);
            mc::step();
        }
    });
}
MC_GROUP(horn_chain) {
    mc::bound("implication chains of length <=8 in every clause order (by rotation and reversal), with a negative fact or contradiction at every position; literals repeated on the left");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(2, mc::T(7, 9)); int start = c.flag(), rot = c.choose(n), rev = c.flag(), neg = c.choose(n + 1), kind = c.choose(3), rep = c.range(1, 2);
        HornSAT s(n); std::vector<HC> f; std::vector<std::pair<std::vector<int>, std::pair<int, bool>>> cl;
        for (int i = 0; i + 1 < n; ++i) { std::vector<int> l(rep, i); if (i) l.push_back(i - 1); cl.push_back({l, {i + 1, true}}); }
        if (start) cl.push_back({{}, {0, true}});
        if (neg < n) cl.push_back({kind == 0 ? std::vector<int>{} : std::vector<int>{neg}, {kind == 2 ? -1 : neg, false}});
        std::rotate(cl.begin(), cl.begin() + rot % cl.size(), cl.end()); if (rev) std::reverse(cl.begin(), cl.end());
        for (auto& [l, r] : cl) { HC h; h.mask = 0; for (int i : l) h.mask |= 1 << i; h.rhs = r.first; h.val = r.second; f.push_back(h); s.add_clause(l, r.first, r.second); }
        horn_check(s, f, n); horn_check(s, f, n); mc::step();
    });
}
MC_GROUP(two_sat) {
    mc::bound("every formula of <=3 constraints (implies, set, at_most_one, exactly_one, or-clause) over n<=3 variables, all literals, decided after every constraint");
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(1, mc::T(2, 3)), k = c.range(1, mc::T(3, 3)); TwoSAT s(n); std::vector<bool> alive(1 << n, true);
        for (int i = 0; i < k; ++i) {
            int t = c.choose(5), x = c.choose(n), f = c.flag(), y = t == 1 ? 0 : c.choose(n), g = t == 1 ? 0 : (int)c.flag();
            switch (t) { case 0: s.implies(x, f, y, g); break; case 1: s.set(x, f); break; case 2: s.at_most_one(x, f, y, g); break; case 3: s.exactly_one(x, f, y, g); break; default: s.add_clause(x, f, y, g); }
            for (int a = 0; a < (1 << n); ++a) { bool p = (a >> x & 1) == f, q = (a >> y & 1) == g; if (!(t == 0 ? !p || q : t == 1 ? p : t == 2 ? !(p && q) : t == 3 ? p != q : p || q)) alive[a] = false; }
            bool want = std::count(alive.begin(), alive.end(), true) > 0; MC_LOG(t << " " << x << f << y << g); MC_EQ(s.satisfiable(), want, "satisfiable");
            if (want) { auto r = s.answer(); int a = 0; for (int j = 0; j < n; ++j) a |= (int)r[j] << j; MC_CHECK(alive[a], "assignment satisfies all constraints"); }
            mc::step();
        }
    });
}
// 2-SAT oracle for larger formulas: transitive closure over literals by depth-first search
struct Cl { int x; bool f; int y; bool g; };
static void two_big(int n, const std::vector<Cl>& cl, const char* ctx) { TwoSAT s(n); std::vector<std::vector<int>> e(2 * n); for (auto& c : cl) { s.add_clause(c.x, c.f, c.y, c.g); e[2 * c.x + !c.f].push_back(2 * c.y + c.g); e[2 * c.y + !c.g].push_back(2 * c.x + c.f); }
    auto reach = [&](int a, int b) { std::vector<char> v(2 * n); std::vector<int> st{ a }; v[a] = 1; while (st.size()) { int u = st.back(); st.pop_back(); if (u == b) return true; for (int w : e[u]) if (!v[w]) v[w] = 1, st.push_back(w); } return false; }; bool want = true; for (int i = 0; i < n && want; ++i) if (reach(2 * i, 2 * i + 1) && reach(2 * i + 1, 2 * i)) want = false;
    MC_EQ(s.satisfiable(), want, ctx); if (want) { auto r = s.answer(); MC_EQ((int)r.size(), n, ctx); for (auto& c : cl) MC_CHECK((bool)r[c.x] == c.f || (bool)r[c.y] == c.g, ctx << ": clause " << c.x << "," << c.y << " violated"); } mc::outcome(want); mc::step(); }
MC_GROUP(two_sat_large) {
    mc::bound("2-SAT chains, cycles, cliques and quadratic-residue formulas of 60..700 variables with a contradiction planted at each of 6 places or none; oracle: literal reachability; the answer is checked clause by clause");
    for (int n : { 60, 130, 300, 700 }) for (int kind = 0; kind < 4; ++kind) for (int pl = 0; pl < 7; ++pl) { MC_CASE(n, kind, pl); std::vector<Cl> cl; for (int i = 0; i < n; ++i) { if (kind == 0 && i + 1 < n) cl.push_back({ i, false, i + 1, true }); if (kind == 1) cl.push_back({ i, i % 2 == 0, (i * 7 + 3) % n, i % 3 == 0 }); if (kind == 2) { cl.push_back({ i, (i * i) % 3 == 0, (i * i + 1) % n, (i % 5) < 2 }); cl.push_back({ (i * 3) % n, i % 4 == 1, (i + n / 2) % n, i % 7 < 4 }); } if (kind == 3) for (int j = i + 1; j < n && j < i + 5; ++j) cl.push_back({ i, false, j, false }); } if (pl < 6) { int p = (long long)pl * (n - 1) / 5; if (kind == 0) { cl.push_back({ 0, true, 0, true }); cl.push_back({ p, false, p, false }); } else if (kind == 3) { int q = std::min(p + 4, n - 1); cl.push_back({ p, true, p, true }); cl.push_back({ q, true, q, pl % 2 == 0 }); } else { cl.push_back({ p, true, p, true }); cl.push_back({ (p + 1) % n, false, (p + 1) % n, false }); } } two_big(n, cl, "large 2-SAT"); }
}
MC_GROUP(horn_large) {
    mc::bound("Horn formulas of 60..900 variables: chains, fan-in clauses and grids with contradictions planted at each of 6 places or none; oracle: naive unit propagation");
    for (int n : { 60, 130, 300, 900 }) for (int kind = 0; kind < 3; ++kind) for (int pl = 0; pl < 7; ++pl) { MC_CASE(n, kind, pl); struct H { std::vector<int> l; int r; bool v; }; std::vector<H> f; f.push_back({ {}, 0, true }); for (int i = 1; i < n; ++i) { if (kind == 0) f.push_back({ { i - 1 }, i, true }); if (kind == 1) { std::vector<int> l; for (int j = std::max(0, i - 9); j < i; ++j) l.push_back(j); f.push_back({ l, i, true }); } if (kind == 2) f.push_back({ { i / 2, (i - 1) / 3 }, i, i % 5 != 4 }); } if (pl < 6) { int p = (long long)pl * (n - 1) / 5; f.insert(f.begin() + p, H{ pl % 2 ? std::vector<int>{ p } : std::vector<int>{}, pl % 3 == 2 ? -1 : p, false }); } if (kind == 1) std::reverse(f.begin(), f.end());
        HornSAT s(n); for (auto& h : f) s.add_clause(h.l, h.r, h.v); std::vector<char> t(n); bool ok = true; for (bool ch = true; ch && ok;) { ch = false; for (auto& h : f) { bool all = true; for (int i : h.l) all &= t[i]; if (!all) continue; if (h.r < 0) ok = false; else if (h.v) { if (!t[h.r]) t[h.r] = 1, ch = true; } } } for (auto& h : f) { bool all = true; for (int i : h.l) all &= t[i]; if (all && h.r >= 0 && !h.v && t[h.r]) ok = false; }
        MC_EQ(s.satisfiable(), ok, "large Horn formula"); if (ok) { auto r = s.answer(); for (auto& h : f) { bool all = true; for (int i : h.l) all &= (bool)r[i]; if (all) MC_CHECK(h.r >= 0 && (bool)r[h.r] == h.v, "clause violated"); } } mc::outcome(ok); }
}
MC_GROUP(incremental_mid) {
    mc::bound("Horn and 2-SAT formulas over 4..33 variables grown clause by clause (chains, fans of three premises, facts and denials, residue patterns), decided and answered after every clause against unit propagation and literal reachability");
    for (int n = 4; n <= 33; n += n < 12 ? 1 : 3) for (int kind = 0; kind < 5; ++kind) { MC_CASE(n, kind); struct H { std::vector<int> l; int r; bool v; }; std::vector<H> f; HornSAT s(n); int K = 2 * n + 3; for (int i = 0; i < K; ++i) { H h; int a = (i * 7 + kind) % n, b = (i * i + 3 * kind + 1) % n, d = (i * 5 + 2) % n; if (kind == 0) { if (i < n) h = { i ? std::vector<int>{ i - 1 } : std::vector<int>{}, i, true }; else h = { { a, b }, d, i != K - 2 }; } else if (kind == 1) { if (i < n - 1) h = { { n - 1 - i }, n - 2 - i, true }; else if (i < K - 2) h = { { a, b, d }, a, true }; else if (i == K - 2) h = { {}, n - 1, true }; else h = { { 0, n / 2 }, -1, true }; } else if (kind == 2) h = { i % 4 == 3 ? std::vector<int>{} : std::vector<int>{ a, b, d }, (i * 3 + 1) % n, true }; else if (kind == 3) h = { i % 5 == 4 ? std::vector<int>{} : std::vector<int>{ a, b }, d, i % 7 != 6 }; else h = { i < n / 2 ? std::vector<int>{} : i == K - 1 ? std::vector<int>{ 0, 1, n - 1 } : std::vector<int>{ std::min(n - 1, std::max(0, i - 1 - n / 2)), 0 }, i < n / 2 ? 2 * i : i == K - 1 ? -1 : std::min(n - 1, i - n / 2), true };
            f.push_back(h); s.add_clause(h.l, h.r, h.v); std::vector<char> t(n); bool bad = false; for (bool ch = true; ch;) { ch = false; for (auto& c : f) { bool all = true; for (int x : c.l) all &= (bool)t[x]; if (!all) continue; if (c.r >= 0 && c.v && !t[c.r]) t[c.r] = 1, ch = true; } } for (auto& c : f) { bool all = true; for (int x : c.l) all &= (bool)t[x]; if (all && (c.r < 0 || (!c.v && t[c.r]))) bad = true; } MC_EQ(s.satisfiable(), !bad, "Horn satisfiable n=" << n << " kind " << kind << " after " << i + 1 << " clauses"); if (!bad) { auto r = s.answer(); MC_EQ((int)r.size(), n, "size"); for (auto& c : f) { bool all = true; for (int x : c.l) all &= (bool)r[x]; MC_CHECK(!all || (c.r >= 0 && (bool)r[c.r] == c.v), "Horn answer satisfies every clause"); } } mc::step(); } }
    for (int n = 4; n <= 33; n += n < 12 ? 1 : 3) for (int kind = 0; kind < 4; ++kind) { MC_CASE(n, kind, 2); TwoSAT s(n); std::vector<std::vector<int>> e(2 * n); struct C { int x, f, y, g; }; std::vector<C> cs; for (int i = 0; i < 2 * n + 2; ++i) { C c = kind == 0 ? C{ i % n, i >= n, (i + 1) % n, i < n + 1 } : kind == 1 ? C{ (i * 3) % n, i & 1, (i * i + 1) % n, i / 2 & 1 } : kind == 2 ? C{ i % n, 1, (i * 5 + 2) % n, i % 3 != 0 } : C{ (i * 7 + 1) % n, i % 3 == 0, (i / 2) % n, i % 5 < 3 }; cs.push_back(c); s.add_clause(c.x, c.f, c.y, c.g); e[2 * c.x + !c.f].push_back(2 * c.y + c.g); e[2 * c.y + !c.g].push_back(2 * c.x + c.f); std::vector<std::vector<char>> rc(2 * n, std::vector<char>(2 * n)); for (int a = 0; a < 2 * n; ++a) { std::vector<int> st{ a }; rc[a][a] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v : e[u]) if (!rc[a][v]) rc[a][v] = 1, st.push_back(v); } } bool ok = true; for (int v = 0; v < n; ++v) ok &= !(rc[2 * v][2 * v + 1] && rc[2 * v + 1][2 * v]); MC_EQ(s.satisfiable(), ok, "2-SAT satisfiable n=" << n << " kind " << kind << " after " << i + 1 << " clauses"); if (ok) { auto r = s.answer(); for (auto& d : cs) MC_CHECK((int)r[d.x] == d.f || (int)r[d.y] == d.g, "2-SAT answer"); } mc::step(); } }
}
MC_MAIN
