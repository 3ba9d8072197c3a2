// Rationals, the Stern-Brocot tree, linear Diophantine equations, quotient enumeration
#include "mc.hpp"
#include <set>
#include <map>
#include <sstream>
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "library/number/bezout_equation.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/number/find_denominators.hpp"
#include "library/number/min_of_mod_of_linear.hpp"
using namespace std; typedef long long ll; typedef unsigned long long u64; typedef __int128 i128;
using suisen::Rational; using suisen::sbt_node;
template <class T> static int cmp(T a, T b, T c, T d) { i128 x = (i128)a * d, y = (i128)c * b; return x < y ? -1 : x > y; }
template <class T> static void canon(const Rational<T>& r, i128 n, i128 d, const char* what) { if (d < 0) n = -n, d = -d; MC_CHECK(r.den > 0 && gcd(r.num, r.den) == 1, what << ": not in lowest terms: " << r.num << "/" << r.den); MC_CHECK((i128)r.num * d == (i128)r.den * n, what << ": wrong value " << r.num << "/" << r.den << " for " << (ll)n << "/" << (ll)d); }
template <class T> static void rational_all(int B) {
    for (T a = -B; a <= B; ++a) for (T b = -B; b <= B; ++b) { if (b == 0) continue; MC_CASE((int)a, (int)b); Rational<T> x(a, b); canon<T>(x, a, b, "construct"); MC_EQ(x.signum(), cmp<T>(x.num, x.den, 0, 1), "signum"); canon<T>(-x, -a, b, "unary -"); canon<T>(+x, a, b, "unary +"); canon<T>(x.abs(), abs(x.num), x.den, "abs"); if (a) canon<T>(x.inv(), b, a, "inv"); T f = x.floor(), c = x.ceil(); MC_CHECK((i128)f * x.den <= x.num && x.num < (i128)(f + 1) * x.den, "floor of " << a << "/" << b << " = " << f); MC_CHECK((i128)c * x.den >= x.num && x.num > (i128)(c - 1) * x.den, "ceil of " << a << "/" << b << " = " << c); MC_EQ((int)x, (int)(x.num / x.den), "to int"); MC_EQ((ll)x, (ll)(x.num / x.den), "to long long"); MC_EQ((double)x, (double)x.num / x.den, "to double"); MC_EQ((long double)x, (long double)x.num / x.den, "to long double"); { stringstream s; s << x; MC_EQ(s.str(), to_string(x.num) + "/" + to_string(x.den), "operator<<"); }
        for (T c2 = -B; c2 <= B; ++c2) for (T d = 1; d <= B; ++d) { Rational<T> y(c2, d); canon<T>(x + y, (i128)a * d + (i128)c2 * b, (i128)b * d, "+"); canon<T>(x - y, (i128)a * d - (i128)c2 * b, (i128)b * d, "-"); canon<T>(x * y, (i128)a * c2, (i128)b * d, "*"); if (c2) canon<T>(x / y, (i128)a * d, (i128)b * c2, "/"); int k = cmp<T>(x.num, x.den, y.num, y.den); MC_EQ(Rational<T>::compare(x, y), k, "compare " << a << "/" << b << " with " << c2 << "/" << d); MC_CHECK((x < y) == (k < 0) && (x > y) == (k > 0) && (x <= y) == (k <= 0) && (x >= y) == (k >= 0) && (x == y) == (k == 0) && (x != y) == (k != 0), "comparison operators " << a << "/" << b << " and " << c2 << "/" << d); MC_CHECK(::max(x, y) == (k < 0 ? y : x) && ::min(x, y) == (k < 0 ? x : y), "max/min"); Rational<T> z = x; z += y; z -= y; canon<T>(z, a, b, "+= -="); z *= y; if (c2) z /= y, canon<T>(z, a, b, "*= /="); mc::step(6); } }
}
MC_GROUP(rational_small) { mc::bound("Rational<int>/<long long>: all operand pairs with |num|,|den| <= 7 (thorough 11): canonical form, arithmetic, order, floor/ceil, conversions"); rational_all<int>(mc::T(7, 11)); rational_all<ll>(4); Rational<int> z, one(1); MC_EQ(z.num, 0, "default"); MC_EQ(z.den, 1, "default"); MC_EQ(one.num, 1, "from integer"); }
MC_GROUP(rational_order_large) { mc::bound("comparison of all pairs from neighbouring continued-fraction convergents and values next to the limits of long long (cross products do not fit)"); vector<Rational<ll>> v; for (ll s : { 1LL, -1LL }) { ll a = 1, b = 1; for (int i = 0; i < 88; ++i) { ll c = a + b; a = b, b = c; if (i % 4 == 0 || i > 80) v.emplace_back(s * b, a), v.emplace_back(s * a, b); } for (ll x : { LLONG_MAX, LLONG_MAX - 1, LLONG_MAX / 2, LLONG_MAX / 3 }) for (ll y : { LLONG_MAX, LLONG_MAX - 2, LLONG_MAX / 2, 1LL, 2LL, 3LL, 1000000007LL }) v.emplace_back(s * x, y), v.emplace_back(s * y, x); } v.emplace_back(0); for (size_t i = 0; i < v.size(); ++i) { MC_CASE((int)i); for (auto& y : v) { auto& x = v[i]; int k = cmp<ll>(x.num, x.den, y.num, y.den); MC_EQ(Rational<ll>::compare(x, y), k, "compare " << x.num << "/" << x.den << " with " << y.num << "/" << y.den); mc::step(); } ll f = v[i].floor(), c = v[i].ceil(); MC_CHECK((i128)f * v[i].den <= v[i].num && v[i].num < ((i128)f + 1) * v[i].den, "floor"); MC_CHECK((i128)c * v[i].den >= v[i].num && v[i].num > ((i128)c - 1) * v[i].den, "ceil"); } Rational<ll> inf(1, 0); for (auto& x : v) MC_CHECK(x < inf && inf > x, "1/0 is larger than every finite number"); }
MC_GROUP(rational_sequences) { mc::bound("approximate for every a/b with a,b <= 12 and all numerator/denominator limits <= 9; stern_brocot and farey_sequence of every depth 0..9"); for (int a = -12; a <= 12; ++a) for (int b = 1; b <= 12; ++b) { if (gcd(a, b) != 1) continue; MC_CASE(a, b); for (int N = 1; N <= 9; ++N) for (int D = 1; D <= 9; ++D) { long double x = (long double)a / b; auto [lo, hi] = Rational<int>::approximate(x, N, D); Rational<int> v(a, b); int s = a < 0; auto L = s ? -hi : lo, H = s ? -lo : hi; int A = abs(a); pair<int, int> bl{ 0, 1 }, bh{ 1, 0 }; for (int p = 0; p <= N; ++p) for (int q = 1; q <= D; ++q) { if ((p * b < A * q || p == 0) && p * bl.second > bl.first * q) bl = { p, q }; if (p * b >= A * q && p > 0 && p * bh.second < bh.first * q) bh = { p, q }; } Rational<int> eL(bl.first, bl.second), eH(bh.first, bh.second); MC_CHECK(L == eL && H == eH, "approximate(" << a << "/" << b << ", " << N << ", " << D << ") = [" << lo.num << "/" << lo.den << ", " << hi.num << "/" << hi.den << "]"); mc::step(); } }
    for (int d = 0; d <= 9; ++d) { MC_CASE(d); auto t = Rational<int>::stern_brocot(d); MC_EQ((int)t.size(), 1 << (d + 1), "size"); for (int i = 1; i < (int)t.size(); ++i) { ll ln = 0, ld = 1, rn = 1, rd = 0; int top = 31 - __builtin_clz(i); for (int k = top - 1; k >= 0; --k) { ll mn = ln + rn, mdn = ld + rd; if (i >> k & 1) ln = mn, ld = mdn; else rn = mn, rd = mdn; } MC_CHECK(t[i].num == ln + rn && t[i].den == ld + rd, "stern_brocot node " << i); } auto f = Rational<int>::farey_sequence(d); MC_EQ((int)f.size(), (1 << (d + 1)) + 1, "farey size"); MC_CHECK(f.front().num == 0 && f.back().num == 1 && f.back().den == 1, "farey ends"); for (size_t i = 0; i + 1 < f.size(); ++i) MC_EQ(f[i + 1].num * f[i].den - f[i].num * f[i + 1].den, 1, "farey neighbours, depth " << d << " position " << i); mc::step(); } }
// ---- Stern-Brocot tree nodes; oracle: explicit L/R strings
static pair<ll, ll> val(const string& s) { ll ln = 0, ld = 1, rn = 1, rd = 0; for (char c : s) { ll m = ln + rn, n = ld + rd; if (c == 'R') ln = m, ld = n; else rn = m, rd = n; } return { ln + rn, ld + rd }; }
template <class T> static string str(const sbt_node<T>& n) { string s; for (auto [d, k] : n.path()) s += string((size_t)k, d ? 'R' : 'L'); return s; }
template <class T> static void same(const sbt_node<T>& n, const string& s, const char* what) { MC_EQ(str(n), s, what << ": path"); auto [p, q] = n.get(); auto w = val(s); MC_CHECK((ll)p == w.first && (ll)q == w.second, what << ": value " << p << "/" << q << " for path " << s); MC_EQ((ll)n.depth(), (ll)s.size(), what << ": depth"); for (size_t i = 0; i + 1 < n.path().size(); ++i) MC_CHECK(n.path()[i].first != n.path()[i + 1].first, what << ": path not run-length encoded"); for (auto& e : n.path()) MC_CHECK(e.second > 0, what << ": empty run"); ll ln = 0, ld = 1, rn = 1, rd = 0; for (char c : s) { ll m = ln + rn, d = ld + rd; if (c == 'R') ln = m, ld = d; else rn = m, rd = d; } auto [l, r] = n.range(); MC_CHECK((ll)l.first == ln && (ll)l.second == ld && (ll)r.first == rn && (ll)r.second == rd, what << ": range"); mc::step(); }
static vector<string> nodes(int D) { vector<string> r{ "" }; for (size_t i = 0; i < r.size(); ++i) if ((int)r[i].size() < D) r.push_back(r[i] + 'L'), r.push_back(r[i] + 'R'); return r; }
template <class T> static sbt_node<T> mk(const string& s) { sbt_node<T> n; for (char c : s) n.move_down(c == 'R', 1); return n; }
template <class T> static void sbt_all(int D) {
    using N = sbt_node<T>; auto ns = nodes(D); auto order = [](const string& s, int kind) { string r; for (char c : s) r += c == 'L' ? (kind == 0 ? '0' : kind == 1 ? '1' : '0') : (kind == 0 ? '2' : kind == 1 ? '2' : '1'); if (kind == 0) r += '1'; if (kind == 2) r += '9'; return r; };
    for (auto& s : ns) { MC_LOG("path " << s); auto w = val(s); N a = mk<T>(s); same(a, s, "move_down"); N b((T)w.first, (T)w.second); same(b, s, "from fraction"); same(N(a.path()), s, "from path"); same(N(make_pair((T)w.first, (T)w.second)), s, "from pair"); MC_CHECK(a == b && !(a != b), "equality"); { N c = a; c.move_down_left(2); same(c, s + "LL", "move_down_left"); c = a; c.move_down_right(3); same(c, s + "RRR", "move_down_right"); c.move_down(N::Left, 0); same(c, s + "RRR", "move_down by zero"); }
        for (int k = -1; k <= D + 1; ++k) { N c = a; bool ok = c.move_up(k); MC_EQ(ok, 0 <= k && k <= (int)s.size(), "move_up(" << k << ") from " << s); same(c, ok ? s.substr(0, s.size() - k) : s, "move_up"); }
        for (auto& t : ns) { N e = mk<T>(t); size_t k = 0; while (k < s.size() && k < t.size() && s[k] == t[k]) ++k; same(N::lca(a, e), s.substr(0, k), "lca"); same(a.lca(e), s.substr(0, k), "lca member"); ll d = s.size() + t.size() - 2 * k; MC_EQ((ll)N::dist(a, e), d, "dist"); MC_EQ((ll)a.dist(e), d, "dist member"); MC_EQ(a.is_ancestor_of(e), k == s.size(), "is_ancestor_of " << s << " " << t); MC_EQ(a.is_descendant_of(e), k == t.size(), "is_descendant_of"); auto v = val(t); i128 x = (i128)w.first * v.second, y = (i128)v.first * w.second; MC_CHECK((a < e) == (x < y) && (a > e) == (x > y) && (a <= e) == (x <= y) && (a >= e) == (x >= y) && (a == e) == (s == t), "order " << s << " " << t); auto sg = [](int v) { return v < 0 ? -1 : v > 0; }; MC_EQ(sg(N::compare_in_order(a, e)), sg(order(s, 0).compare(order(t, 0))), "in-order"); MC_EQ(sg(N::compare_pre_order(a, e)), sg(order(s, 1).compare(order(t, 1))), "pre-order"); MC_EQ(sg(N::compare_post_order(a, e)), sg(order(s, 2).compare(order(t, 2))), "post-order"); for (ll j = -1; j <= d + 1; ++j) { N c = a; bool ok = c.move_to(e, (T)j); MC_EQ(ok, 0 <= j && j <= d, "move_to(" << j << ")"); string want = s; if (ok) want = j <= (ll)(s.size() - k) ? s.substr(0, s.size() - j) : t.substr(0, k + (j - (s.size() - k))); same(c, want, "move_to"); } } }
}
MC_GROUP(stern_brocot_nodes) { mc::bound("all pairs of Stern-Brocot nodes of depth <= 5 (thorough 6): constructors, moves of every length, lca, distance, ancestry, the three orders; int and long long"); MC_CASE(0); sbt_all<int>(mc::T(5, 6)); MC_CASE(1); sbt_all<ll>(3); }
MC_GROUP(stern_brocot_auxiliary) { mc::bound("auxiliary_tree of every multiset of up to 3 (thorough 4) nodes of depth <= 3, plus the empty set: node set closed under lca, edges join nearest ancestors, root"); auto ns = nodes(mc::T(3, 3)); mc::explore([&](mc::Chooser& c) { int k = c.choose(mc::T(4, 5)); vector<string> pick; for (int i = 0; i < k; ++i) pick.push_back(ns[c.choose((int)ns.size())]); vector<sbt_node<int>> xs; for (auto& s : pick) xs.push_back(mk<int>(s)); auto t = sbt_node<int>::auxiliary_tree(xs); set<string> want(pick.begin(), pick.end()); for (auto& a : pick) for (auto& b : pick) { size_t q = 0; while (q < a.size() && q < b.size() && a[q] == b[q]) ++q; want.insert(a.substr(0, q)); } MC_EQ(t.size(), (int)want.size(), "number of nodes"); if (want.empty()) return; map<string, int> id; for (int i = 0; i < t.size(); ++i) { MC_CHECK(want.count(str(t.node(i))), "unexpected node"); MC_CHECK(!id.count(str(t.node(i))), "duplicate node"); id[str(t.node(i))] = i; } set<pair<int, int>> E; int top = -1; for (auto& s : want) { string best = "#"; for (auto& u : want) if (u.size() < s.size() && s.compare(0, u.size(), u) == 0 && (best == "#" || u.size() > best.size())) best = u; if (best == "#") top = id[s]; else E.insert({ id[s], id[best] }), E.insert({ id[best], id[s] }); } MC_EQ(t.root(), top, "root"); set<pair<int, int>> G; int cnt = 0; for (int i = 0; i < t.size(); ++i) for (int j : t[i]) G.insert({ i, j }), ++cnt; MC_CHECK(G == E && cnt == (int)E.size(), "edges of the auxiliary tree of " << mc::show(pick)); MC_EQ((int)t.nodes().size(), t.size(), "nodes()"); mc::step(); }); }
MC_GROUP(stern_brocot_large) { mc::bound("fractions next to the limits of int and long long: construction, path, order and lca with their neighbours"); vector<pair<ll, ll>> v; for (ll a : { 1LL, 2LL, LLONG_MAX / 2, LLONG_MAX - 1, 1000000007LL, 7540113804746346429LL }) for (ll b : { 1LL, 3LL, LLONG_MAX / 2, LLONG_MAX - 2, 998244353LL, 4660046610375530309LL }) { ll g = gcd(a, b); if (a / g + 0.0 + b / g < 9.2e18) v.push_back({ a / g, b / g }); } for (auto& p : v) { MC_CASE(p.first, p.second); sbt_node<ll> n(p.first, p.second); MC_CHECK(n.get() == p, "value"); i128 dep = 0; for (auto& e : n.path()) dep += e.second; MC_CHECK(dep == n.depth(), "depth"); sbt_node<ll> m(n.path()); MC_CHECK(m == n, "rebuilt from path"); for (auto& q : v) { sbt_node<ll> o(q.first, q.second); i128 x = (i128)p.first * q.second, y = (i128)q.first * p.second; MC_CHECK((n < o) == (x < y) && (n == o) == (x == y), "order"); auto c = sbt_node<ll>::lca(n, o); MC_CHECK(c.is_ancestor_of(n) && c.is_ancestor_of(o), "lca is a common ancestor"); mc::step(); } auto u = n; MC_CHECK(u.move_up(n.depth()), "move_up"); MC_CHECK(u == sbt_node<ll>(), "move_up to the root"); } }
// ---- a x + b y = z
MC_GROUP(bezout) {
    mc::bound("all a,b in [-6,6], z in [-12,12], x and y windows from a menu applied in every order (also one-sided): solvability, solution counts and extremal solutions against enumeration in the window"); const int B = 6;
    for (int a = -B; a <= B; ++a) for (int b = -B; b <= B; ++b) { MC_CASE(a, b); suisen::BezoutEquation eq(a, b); for (int z = -12; z <= 12; ++z) { auto s0 = eq.solve(z); bool any = a == 0 && b == 0 ? z == 0 : z % gcd(a, b) == 0; MC_EQ(s0.has_solution(), any, a << "x+" << b << "y=" << z << " solvable"); if (any) MC_CHECK(!s0.count(), "infinitely many solutions of " << a << "x+" << b << "y=" << z); else MC_EQ(*s0.count(), 0LL, "count");
        for (auto& X : vector<pair<int, int>>{ { -5, 5 }, { 0, 7 }, { 3, 3 }, { 2, 1 }, { -9, -4 } }) for (auto& Y : vector<pair<int, int>>{ { -5, 5 }, { -3, 0 }, { 4, 9 }, { 1, 0 } }) for (int ord = 0; ord < 3 + 24; ++ord) { auto s = s0; bool r = true; if (ord >= 3) { int pm[4] = { 0, 1, 2, 3 }; for (int t = 3; t < ord; ++t) next_permutation(pm, pm + 4); for (int t : pm) r = r && (t == 0 ? s.set_min_x(X.first) : t == 1 ? s.set_max_x(X.second) : t == 2 ? s.set_min_y(Y.first) : s.set_max_y(Y.second)); } else if (ord == 0) r = s.set_x_range(X.first, X.second) && s.set_y_range(Y.first, Y.second); else if (ord == 1) { r = s.set_max_y(Y.second) && s.set_min_x(X.first) && s.set_min_y(Y.first) && s.set_max_x(X.second); } else { r = s.set_y_range(Y.first - 2, Y.second + 2) && s.set_x_range(X.first, X.second) && s.set_y_range(Y.first, Y.second); } vector<pair<int, int>> sol; for (int x = X.first; x <= X.second; ++x) for (int y = Y.first; y <= Y.second; ++y) if (a * x + b * y == z) sol.push_back({ x, y }); auto ctx = [&] { stringstream t; t << a << "x+" << b << "y=" << z << " x in [" << X.first << "," << X.second << "] y in [" << Y.first << "," << Y.second << "] order " << ord; return t.str(); }; if (!r) MC_CHECK(sol.empty(), "reported unsolvable: " << ctx()); MC_EQ(s.has_solution() && r, !sol.empty(), "has_solution " << ctx()); if (r || ord == 0) if (r) { auto c = s.count(); MC_CHECK(c && *c == (ll)sol.size(), "count " << ctx()); } if (!sol.empty()) { auto chk = [&](pair<ll, ll> p, const char* w) { MC_CHECK(find(sol.begin(), sol.end(), make_pair((int)p.first, (int)p.second)) != sol.end(), w << " is not a solution: " << p.first << "," << p.second << " for " << ctx()); }; auto p1 = s.xmin_solution(), p2 = s.xmax_solution(), p3 = s.ymin_solution(), p4 = s.ymax_solution(); chk(p1, "xmin"); chk(p2, "xmax"); chk(p3, "ymin"); chk(p4, "ymax"); int xm = 99, xM = -99, ym = 99, yM = -99; for (auto& p : sol) xm = min(xm, p.first), xM = max(xM, p.first), ym = min(ym, p.second), yM = max(yM, p.second); MC_CHECK(p1.first == xm && p2.first == xM && p3.second == ym && p4.second == yM, "extremal solutions " << ctx()); } mc::step(); }
        // one-sided
        if (any && a && b) { auto s = s0; if (s.set_min_x(3)) { auto p = s.xmin_solution(); int x = 3; while (((ll)z - (ll)a * x) % b) ++x; MC_EQ(p.first, (ll)x, "least x >= 3 of " << a << "x+" << b << "y=" << z); MC_EQ(a * p.first + b * p.second, (ll)z, "solution"); } else MC_CHECK(false, "x >= 3 must be solvable"); s = s0; MC_CHECK(s.set_max_y(-2), "y <= -2 must be solvable"); auto p = s.ymax_solution(); int y = -2; while (((ll)z - (ll)b * y) % a) --y; MC_EQ(p.second, (ll)y, "greatest y <= -2"); MC_CHECK(!s.count(), "one-sided is infinite"); } } }
    for (ll a : { 1000000007LL, 998244353LL, (1LL << 40) + 3, -999999937LL }) for (ll b : { 1LL << 31, 123456789LL, -1000000009LL, (1LL << 41) - 9 }) for (ll z : { 0LL, 1LL, -1LL, 1000000000000LL, (1LL << 60) + 7 }) { MC_CASE(a, b, z); suisen::BezoutEquation eq(a, b); auto s = eq.solve(z); bool any = z % gcd(a, b) == 0; MC_EQ(s.has_solution(), any, "large"); if (any && s.set_min_x(0)) { auto p = s.xmin_solution(); MC_CHECK(p.first >= 0 && p.first < abs(b / gcd(a, b)), "least non-negative x"); MC_CHECK((i128)a * p.first + (i128)b * p.second == z, "large solution"); } mc::step(); }
}
// ---- quotients
template <class T> static void quot_case(T n) { vector<T> want; { T last = 0; for (T x = n; x >= 1; --x) { T q = n / x; if (q != last) want.push_back(q), last = q; } } MC_EQ((ll)suisen::quotient_num(n), (ll)want.size(), "quotient_num(" << n << ")"); MC_EQ(suisen::enumerate_quotients(n), want, "enumerate_quotients(" << n << ")"); vector<T> each; suisen::foreach_quotients(n, [&](T q) { each.push_back(q); }); MC_EQ(each, want, "foreach_quotients(" << n << ")"); auto rg = suisen::quotient_ranges(n); MC_EQ(rg.size(), want.size(), "quotient_ranges(" << n << ")"); T at = 1; for (auto [l, r, q] : rg) { MC_CHECK(l == at && l <= r && n / l == q && n / r == q && (r == n || n / (r + 1) != q), "quotient_ranges(" << n << ") element " << l << "," << r << "," << q); at = r + 1; } if (n) MC_CHECK(at == n + 1, "quotient_ranges do not reach n"); mc::step(); }
MC_GROUP(quotients) {
    mc::bound("quotient enumeration of every n <= 3000 (thorough 20000) in four integer types and squares/pronic numbers +-1 at larger n; multiple_quotients_ranges for all triples <= 14; top of int");
    for (int n = 0; n <= mc::T(3000, 20000); ++n) { MC_CASE(n); quot_case<int>(n); if (n % 3 == 0) quot_case<ll>(n); if (n % 7 == 0) quot_case<unsigned>(n), quot_case<u64>(n); }
    auto big = [&](auto n) { typedef decltype(n) T; MC_CASE((ll)n); auto rg = suisen::quotient_ranges(n); T at = 1; size_t k = 0; while (at <= n) { MC_CHECK(k < rg.size(), "quotient_ranges too short for " << n); auto [l, r, q] = rg[k++]; T q0 = n / at, r0 = n / q0; MC_CHECK(l == at && r == r0 && q == q0, "quotient_ranges(" << n << ") at " << at); if (r0 == n) break; at = r0 + 1; } MC_EQ(k, rg.size(), "quotient_ranges length"); MC_EQ((u64)suisen::quotient_num(n), (u64)k, "quotient_num"); mc::step(); }; for (ll h : { 100LL, 1000LL, 46340LL, 65535LL, 65536LL, 1000000LL }) for (int d = -1; d <= 1; ++d) { big(h * h + d); big(h * (h + 1) + d); if (h * (h + 1) < INT_MAX) big((int)(h * h + d)), big((int)(h * (h + 1) + d)); } for (int d = 0; d < 3; ++d) { big(INT_MAX - d); big(~0u - d); big((1LL << 40) - d); } if (mc::thorough()) for (int d = -1; d <= 1; ++d) big((1LL << 50) + d), big((1LL << 53) + d);
    for (ll n : { LLONG_MAX, LLONG_MAX - 1, (1LL << 62), (1LL << 62) - 1, 3037000499LL * 3037000499LL, 3037000499LL * 3037000499LL - 1, 3037000499LL * 3037000500LL, 3037000499LL * 3037000500LL - 1 }) { ll h = (ll)sqrtl((long double)n); while (h > n / h) --h; while (h + 1 <= n / (h + 1)) ++h; MC_EQ(suisen::quotient_num(n), 2 * h - (h == n / h), "quotient_num(" << n << ")"); }
    auto multi = [&](auto vs) { typedef typename decltype(vs)::value_type T; auto r = suisen::multiple_quotients_ranges(vs); T mx = *max_element(vs.begin(), vs.end()); T at = 1; size_t k = 0; while (at <= mx) { MC_CHECK(k < r.size(), "multiple_quotients_ranges too short"); auto& [l, rr, q] = r[k++]; MC_EQ((ll)l, (ll)at, "left end"); T e = mx; for (size_t i = 0; i < vs.size(); ++i) { MC_EQ((ll)q[i], (ll)(vs[i] / at), "quotient"); if (vs[i] / at) e = min<T>(e, vs[i] / (vs[i] / at)); } MC_EQ((ll)rr, (ll)e, "right end"); if (e == mx) break; at = e + 1; } MC_EQ(k, r.size(), "number of ranges"); mc::step(); };
    for (int a = 0; a <= 14; ++a) for (int b = 0; b <= 14; ++b) { MC_CASE(5, a, b); multi(vector<int>{ a, b }); multi(array<ll, 2>{ a, b }); multi(vector<int>{ a }); for (int c = 0; c <= 14; ++c) multi(vector<int>{ a, b, c }), multi(array<int, 3>{ a, b, c }); } MC_CASE(6); multi(vector<int>{ INT_MAX, 1000000007 }); multi(vector<int>{ INT_MAX });
}
MC_GROUP(quotients_beyond_double) { mc::bound("foreach_quotients at n = 2^53 + 5 (where quotients no longer fit a double): all 1.9e8 quotients ascending, each a quotient, none missing"); MC_CASE(0); ll n = (1LL << 53) + 5, last = 0, cnt = 0; bool ok = true; suisen::foreach_quotients(n, [&](ll q) { ok = ok && q > last && (cnt & 15 ? true : n / (n / q) == q); last = q; ++cnt; }); MC_CHECK(ok && last == n, "foreach_quotients(2^53+5) is not the ascending list of quotients"); MC_EQ(cnt, (ll)suisen::quotient_num(n), "number of quotients"); mc::step(); }
template <class T> static void den_case(int B) {
    auto fl = [](ll n, ll x) { ll q = n / x; return q - ((n % x != 0) && ((n < 0) != (x < 0))); }; auto ce = [](ll n, ll x) { ll q = n / x; return q + ((n % x != 0) && ((n < 0) == (x < 0))); }; typedef optional<pair<T, T>> R;
    for (T n = -B; n <= B; ++n) for (T q = -B - 1; q <= B + 1; ++q) { MC_CASE((int)n, (int)q, (int)sizeof(T)); for (T lim : { (T)0, (T)1, (T)2, (T)5, (T)(B + 3), (T)0x7fff }) { bool def = lim == (T)0x7fff; ll hi = def ? 2 * B + 5 : (ll)lim; auto brute = [&](bool pos, bool flo) { ll lo = LLONG_MAX, h = LLONG_MIN; for (ll k = 1; k <= hi; ++k) { ll x = pos ? k : -k; if ((flo ? fl(n, x) : ce(n, x)) == (ll)q) lo = min(lo, x), h = max(h, x); } if (lo > h) return R(); if (def && pos && h == hi) h = numeric_limits<T>::max(); if (def && !pos && lo == -hi) lo = numeric_limits<T>::min(); return R(make_pair((T)lo, (T)h)); }; auto eq = [&](R got, R want, const char* w) { MC_CHECK(got == want, w << "(n=" << (ll)n << ", q=" << (ll)q << ", limit " << (def ? -1LL : (ll)lim) << ") = " << (got ? to_string(got->first) + ".." + to_string(got->second) : string("none")) << ", expected " << (want ? to_string(want->first) + ".." + to_string(want->second) : string("none"))); mc::step(); }; using namespace suisen; eq(def ? fld_denominators_positive<T>(n, q) : fld_denominators_positive<T>(n, q, lim), brute(true, true), "fld_denominators_positive"); eq(def ? fld_denominators_negative<T>(n, q) : fld_denominators_negative<T>(n, q, (T)-lim), brute(false, true), "fld_denominators_negative"); eq(def ? cld_denominators_positive<T>(n, q) : cld_denominators_positive<T>(n, q, lim), brute(true, false), "cld_denominators_positive"); eq(def ? cld_denominators_negative<T>(n, q) : cld_denominators_negative<T>(n, q, (T)-lim), brute(false, false), "cld_denominators_negative"); } }
}
MC_GROUP(denominators) { mc::bound("all numerators |n| <= 30 and quotients |q| <= 31, limits 0,1,2,5,33 and the default (unbounded): the exact set of denominators with the given floor / ceiling; int and long long"); den_case<int>(mc::T(30, 80)); den_case<ll>(20); }
MC_GROUP(min_of_mod) { mc::bound("min (ax+b) mod m over 0<=x<n: every n <= 9, m <= 12, a,b in [-3,15]; large parameters with n <= 2000 by enumeration"); for (int n = 1; n <= 9; ++n) for (int m = 1; m <= 12; ++m) { MC_CASE(n, m); for (int a = -3; a <= 15; ++a) for (int b = -3; b <= 15; ++b) { int w = m; for (int x = 0; x < n; ++x) w = min(w, ((a * x + b) % m + m) % m); MC_EQ(suisen::min_of_mod_of_linear(n, m, a, b), w, "min_of_mod_of_linear(" << n << "," << m << "," << a << "," << b << ")"); mc::step(); } } for (int n : { 1, 2, 100, 2000 }) for (int m : { 1000000007, 1 << 30, INT_MAX, INT_MAX - 1, 1500000001 }) for (int a : { 1, 12345, m / 2, m - 1, m / 3 }) for (int b : { 0, 1, m / 2, m - 1 }) { MC_CASE(n, m, a, b); ll w = m; for (ll x = 0; x < n; ++x) w = min(w, (a * x + b) % m); MC_EQ((ll)suisen::min_of_mod_of_linear(n, m, a, b), w, "min_of_mod_of_linear(" << n << "," << m << "," << a << "," << b << ")"); mc::step(); } }
MC_GROUP(bezout_wide) {
    mc::bound("ax+by=z with coefficients up to 10^9 and windows up to +-4*10^17 on either unknown: solvability, exact number of solutions, and all four extreme solutions against residue arithmetic in 128 bits; min_of_mod_of_linear with n up to 100000 and 31-bit parameters by enumeration; Rational to long long");
    auto fl = [](i128 x, i128 y) { i128 q = x / y; return q - ((x % y) && ((x < 0) != (y < 0))); };
    for (ll a : { 1LL, -1LL, 2LL, 3LL, -7LL, 12LL, 1000003LL, -998244353LL, 1000000007LL }) for (ll b : { 1LL, 2LL, -3LL, 5LL, 1000000009LL, -999999937LL, 6LL }) for (ll z : { 0LL, 1LL, -30LL, 1000000000000LL, 123456789123456789LL, -400000000000000007LL }) { suisen::BezoutEquation eq(a, b); ll g = gcd(a, b), cb = std::abs(b / g), ca = std::abs(a / g); auto s0 = eq.solve(z); MC_EQ(s0.has_solution(), z % g == 0, a << "x+" << b << "y=" << z); if (z % g) continue;
        // some solution: x* in [0, cb)
        i128 X = 0; { ll bb = cb, aa = ((a / g) % bb + bb) % bb, zz = ((z / g) % bb + bb) % bb; i128 inv = 0; if (bb > 1) { ll r0 = bb, r1 = aa, t0 = 0, t1 = 1; while (r1) { ll q = r0 / r1; std::swap(r0, r1); r1 -= q * r0; std::swap(t0, t1); t1 -= q * t0; } inv = (t0 % bb + bb) % bb; } X = inv * zz % bb; } i128 Y = ((i128)z - (i128)a * X) / b; MC_CHECK((i128)a * X + (i128)b * Y == z, "oracle"); ll Yr = (ll)((Y % ca + ca) % ca);
        for (auto [L, R] : std::vector<std::pair<ll, ll>>{ { -400000000000000000LL, 400000000000000000LL }, { 0, 5000000000LL }, { -9000000000LL, -3000000000LL }, { 4294967296LL, 4294967300LL }, { -200000000000LL, 100000000000000000LL } }) for (int side = 0; side < 2; ++side) { MC_CASE(a, b, z, L, side); auto s = s0; bool ok = side ? s.set_min_y(L) && s.set_max_y(R) : s.set_min_x(L) && s.set_max_x(R); i128 m = side ? ca : cb, v = side ? (i128)Yr : X; i128 lo = L + (((v - L) % m) + m) % m, hi = R - (((R - v) % m) + m) % m; i128 cnt = lo <= R ? (hi - lo) / m + 1 : 0; MC_EQ(ok, cnt > 0, "window [" << L << "," << R << "]"); if (!ok) { MC_EQ(*s.count(), 0LL, "count"); continue; } MC_EQ(*s.count(), (ll)cnt, "count in [" << L << "," << R << "]");
            // the other unknown must fit 64 bits at both ends
            auto other = [&](i128 t) { return side ? ((i128)z - (i128)b * t) / a : ((i128)z - (i128)a * t) / b; }; i128 big = (i128)1 << 62; if (other(lo) < big && other(lo) > -big && other(hi) < big && other(hi) > -big) { auto p = side ? s.ymin_solution() : s.xmin_solution(); auto q = side ? s.ymax_solution() : s.xmax_solution(); ll p1 = side ? p.second : p.first, p2 = side ? p.first : p.second, q1 = side ? q.second : q.first, q2 = side ? q.first : q.second; MC_EQ(p1, (ll)lo, "least"); MC_EQ(p2, (ll)other(lo), "least: other unknown"); MC_EQ(q1, (ll)hi, "greatest"); MC_EQ(q2, (ll)other(hi), "greatest: other unknown"); } mc::step(); } (void)fl; }
    for (int n : { 70000, 100000 }) for (int m : { 1, 7, 1000003, 2147483647, 1 << 30 }) for (ll a_ : { 0LL, 1LL, 3LL, (ll)m - 1, (ll)m / 2 + 1, 123456789LL }) for (ll b_ : { 0LL, (ll)m - 1, 987654321LL }) { int a = a_ % m, b = b_ % m; MC_CASE(n, m, a, b); ll w = m; for (ll x = 0; x < n; ++x) w = std::min(w, (a * x + b) % m); MC_EQ((ll)suisen::min_of_mod_of_linear(n, m, a, b), w, "min of (" << a << "x+" << b << ") mod " << m); mc::step(); }
    for (ll a : { (1LL << 40) + 7, -(1LL << 50) - 1, 5LL, -7LL }) for (ll d : { 1LL, 2LL, 3LL }) { MC_CASE(a, d); suisen::Rational<ll> r(a, d); MC_EQ((ll)r, (a / std::gcd(a, d)) / (d / std::gcd(a, d)), "Rational to long long"); mc::step(); }
}
MC_GROUP(self_operands) {
    mc::bound("Rational with the object itself on the right (+=, -=, *=, /=) for every numerator -12..12 and denominator 1..12");
    mc::explore([&](mc::Chooser& c) { ll a = c.range(-12, 12), b = c.range(1, 12); using R = Rational<ll>; const R q(a, b); auto eq = [](const R& x, ll n, ll d) { ll g = std::__gcd(n < 0 ? -n : n, d); if (!g) g = 1; return x == R(n / g, d / g); }; R x = q; x += x; MC_CHECK(eq(x, 2 * a, b), "q += q"); x = q; x -= x; MC_CHECK(eq(x, 0, 1), "q -= q"); x = q; x *= x; MC_CHECK(eq(x, a * a, b * b), "q *= q"); if (a) { x = q; x /= x; MC_CHECK(eq(x, 1, 1), "q /= q"); } mc::step(); });
}
MC_MAIN
