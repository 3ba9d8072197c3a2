// mc: flags='-O1'
// Exact integer geometry on small grids, every point set / polygon / query.
#include "mc.hpp"
#include <map>
#include <set>
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
#include "library/geom/segment_intersections.hpp"
using namespace suisen::integral_geometry; using ll = long long; using P = std::pair<ll, ll>;
static ll crs(P a, P b, P c) { return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first); }
static ll d2(P a, P b) { return (a.first - b.first) * (a.first - b.first) + (a.second - b.second) * (a.second - b.second); }
static bool onseg(P a, P b, P p) { return crs(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second); }
static int sg(ll x) { return (x > 0) - (x < 0); }
static bool inter(P a, P b, P c, P d) { if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true; return sg(crs(a, b, c)) * sg(crs(a, b, d)) < 0 && sg(crs(c, d, a)) * sg(crs(c, d, b)) < 0; }
static P grid(mc::Chooser& c, int w, int h) { int v = c.choose(w * h); return {v % w, v / w}; }
static Point tp(P p) { return Point(p.first, p.second); }
static P fp(const Point& p) { return {p.x, p.y}; }
// membership in the convex hull of a point set: triangles / segments / points
static bool in_hull(const std::vector<P>& s, P q) { for (P a : s) if (a == q) return true; for (P a : s) for (P b : s) if (a < b && onseg(a, b, q)) return true; for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) { ll x = crs(s[i], s[j], q), y = crs(s[j], s[k], q), z = crs(s[k], s[i], q); if (crs(s[i], s[j], s[k]) != 0 && ((x >= 0 && y >= 0 && z >= 0) || (x <= 0 && y <= 0 && z <= 0))) return true; } return false; }
MC_GROUP(hull) { mc::bound("every sequence of <=4 points on 3x3 (thorough 5), <=6 (7) distinct-in-order points (subsets) on 3x3, subsets of <=5 of 4x3: hull polygon is the convex hull in ccw order containing all boundary points once; point-in-hull for every query on a larger grid; closest and farthest pairs, both point types");
    auto check = [&](const std::vector<P>& s, int W) { int n = s.size(); auto ids = convex_hull<P>(s); std::vector<P> h; for (int i : ids) { MC_CHECK(i >= 0 && i < n, "index"); h.push_back(s[i]); } if (n == 0) { MC_CHECK(h.empty(), "empty"); return; }
        std::set<P> st(s.begin(), s.end()); std::vector<P> u(st.begin(), st.end()); MC_CHECK(!h.empty(), "hull nonempty"); std::set<P> hs(h.begin(), h.end()), want; for (P q : u) { bool bd = false; if (u.size() <= 2) bd = true; for (P a : u) { if (bd) break; if (a == q) continue; bool l = false, r = false, back = false; for (P b : u) { ll x = crs(q, a, b); l |= x > 0; r |= x < 0; } (void)back; if (!(l && r)) bd = true; } if (bd) want.insert(q); } MC_CHECK(hs == want, "points of the hull boundary"); int m = h.size(); bool flat = true; for (P q : u) flat &= crs(u[0], u.back(), q) == 0; if (!flat || u.size() == s.size()) MC_CHECK(hs.size() == h.size(), "each boundary point once"); if (!flat) { for (int i = 0; i < m; ++i) MC_CHECK(crs(h[i], h[(i + 1) % m], h[(i + 2) % m]) >= 0, "ccw"); ll a2 = 0; for (int i = 0; i < m; ++i) a2 += h[i].first * h[(i + 1) % m].second - h[i].second * h[(i + 1) % m].first; std::vector<P> e; for (P q : u) if (want.count(q)) e.push_back(q); MC_CHECK(a2 > 0, "orientation"); for (int i = 0; i < m; ++i) for (P q : u) MC_CHECK(crs(h[i], h[(i + 1) % m], q) >= 0, "all points left of every edge"); Polygon pg; for (P q : h) pg.push_back(tp(q)); MC_CHECK(is_convex(pg), "is_convex"); bool strict = true; for (int i = 0; i < m; ++i) strict &= crs(h[i], h[(i + 1) % m], h[(i + 2) % m]) > 0; MC_EQ(is_convex<false>(pg), strict, "is_convex strict"); MC_EQ((ll)area_doubled(pg), a2, "area"); ll cnt = 0; for (int x = -1; x <= W; ++x) for (int y = -1; y <= W; ++y) cnt += in_hull(u, {x, y}); MC_EQ((ll)count_lattice_points<P>(h), cnt, "lattice points"); }
        ConvexHullInclusion<P> ci(h); std::vector<std::pair<int, int>> hi(h.begin(), h.end()); ConvexHullInclusion<std::pair<int, int>> cj(hi); std::vector<P> rot = h; std::rotate(rot.begin(), rot.begin() + rot.size() / 2, rot.end()); ConvexHullInclusion<P> cr(rot); for (int x = -1; x <= W; ++x) for (int y = -1; y <= W; ++y) { P q(x, y); bool in = in_hull(u, q), on = false; for (int i = 0; i < m; ++i) on |= onseg(h[i], h[(i + 1) % m], q); Inclusion w = on ? Inclusion::ON : in ? Inclusion::IN : Inclusion::OUT; MC_CHECK(ci(q) == w && ci(x, y) == w && cr(q) == w, "point in hull " + std::to_string(x) + "," + std::to_string(y)); MC_CHECK(cj(std::pair<int, int>(x, y)) == w, "point in hull (int)"); }
        ll best = 0, mn = LLONG_MAX; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) best = std::max(best, d2(s[i], s[j])), mn = std::min(mn, d2(s[i], s[j])); auto [fa, fb] = farthest_pair<P>(s); MC_CHECK(st.count(fa) && st.count(fb), "farthest pair from the set"); MC_EQ(d2(fa, fb), best, "farthest pair"); std::vector<Point> ps; for (P q : s) ps.push_back(tp(q)); auto [ga, gb] = farthest_pair<Point>(ps); MC_EQ(d2(fp(ga), fp(gb)), best, "farthest pair (Point)"); auto [ca, cb] = closest_pair(ps); if (n >= 2) { MC_EQ(d2(fp(ca), fp(cb)), mn, "closest pair"); bool ok = false; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ok |= i != j && s[i] == fp(ca) && s[j] == fp(cb); MC_CHECK(ok, "closest pair from the set"); } else MC_CHECK(fp(ca) == s[0] && fp(cb) == s[0], "single"); mc::step(); mc::outcome(m); };
    mc::explore([&](mc::Chooser& c) { int k = c.choose(3); std::vector<P> s; if (k == 0) { int n = c.range(0, mc::T(4, 5)); for (int i = 0; i < n; ++i) s.push_back(grid(c, 3, 3)); check(s, 3); } else if (k == 1) { int v = 0, n = c.range(5, mc::T(6, 8)); for (int i = 0; i < n && v < 9; ++i) { v += c.choose(9 - v); s.push_back({v % 3, v / 3}); ++v; } if ((int)s.size() < n) return; if (c.flag()) std::reverse(s.begin(), s.end()); check(s, 3); } else { int v = 0, n = c.range(3, mc::T(5, 8)); for (int i = 0; i < n && v < 16; ++i) { v += c.choose(16 - v); s.push_back({v % 4, v / 4}); ++v; } if ((int)s.size() < n) return; check(s, 4); } }); }
MC_GROUP(closest_blocks) { mc::bound("closest_pair across merge blocks: n=9..20 points on parabola-like layouts, one perturbed pair placed at every pair of positions, every axis order"); mc::explore([&](mc::Chooser& c) { int n = c.range(2, mc::T(13, 20)), kind = c.choose(5); std::vector<P> s(n); for (int i = 0; i < n; ++i) s[i] = kind == 0 ? P(10 * i, 7 * i) : kind == 1 ? P(0, 10 * i) : kind == 2 ? P(10 * i, 0) : kind == 3 ? P(i % 3, 10 * i) : P((i * 7 % n) * 3, (i * 5 % n) * 9 + i * 50); int i = c.choose(n), j = c.choose(n); if (i == j) return; s[j] = {s[i].first + c.range(-1, 1), s[i].second + c.range(-1, 2)}; if (c.flag()) std::reverse(s.begin(), s.end()); ll mn = LLONG_MAX, mx = 0; for (int a = 0; a < n; ++a) for (int b = 0; b < a; ++b) mn = std::min(mn, d2(s[a], s[b])), mx = std::max(mx, d2(s[a], s[b])); std::vector<Point> ps; for (P q : s) ps.push_back(tp(q)); auto [x, y] = closest_pair(ps); MC_EQ(d2(fp(x), fp(y)), mn, "closest"); auto [u, v] = farthest_pair<P>(s); MC_EQ(d2(u, v), mx, "farthest"); mc::step(); }); }
MC_GROUP(primitives) { mc::bound("isp, contains(Line/Ray/Segment), parallel/orthogonal/same line, equality and segment intersection for every pair of non-degenerate segments on 3x3 (thorough 4x3) and every query point"); mc::explore([&](mc::Chooser& c) { int w = mc::T(3, 4), h = 3; P a = grid(c, w, h), b = grid(c, w, h); if (a == b) return; Point A = tp(a), B = tp(b); for (int x = -1; x <= w; ++x) for (int y = -1; y <= h; ++y) { P q(x, y); Point Q = tp(q); ll cr = crs(a, b, q), t = (b.first - a.first) * (q.first - a.first) + (b.second - a.second) * (q.second - a.second); int want = cr > 0 ? +1 : cr < 0 ? -1 : t < 0 ? -2 : t > d2(a, b) ? 2 : 0; MC_EQ(isp(A, B, Q), want, "isp"); MC_CHECK((contains(Line(A, B), Q) == Inclusion::ON) == (cr == 0), "line"); MC_CHECK((contains(Ray(A, B), Q) == Inclusion::ON) == (cr == 0 && t >= 0), "ray"); MC_CHECK((contains(Segment(A, B), Q) == Inclusion::ON) == onseg(a, b, q), "segment"); MC_EQ((ll)signed_area_doubled(A, B, Q), cr, "triangle area"); }
        P d = grid(c, w, h), e = grid(c, w, h); if (d == e) return; Point D = tp(d), E = tp(e); MC_EQ(has_common_point(Segment(A, B), Segment(D, E)), inter(a, b, d, e), "segments intersect"); bool par = (b.first - a.first) * (e.second - d.second) == (b.second - a.second) * (e.first - d.first); MC_EQ(is_parallel(Line(A, B), Line(D, E)), par, "parallel"); MC_EQ(is_orthogonal(Line(A, B), Line(D, E)), (b.first - a.first) * (e.first - d.first) + (b.second - a.second) * (e.second - d.second) == 0, "orthogonal"); bool same = crs(a, b, d) == 0 && crs(a, b, e) == 0; MC_EQ(on_the_same_line(Line(A, B), Segment(D, E)), same, "same line"); MC_EQ(Line(A, B) == Line(D, E), same, "line =="); MC_EQ((Segment(A, B) == Segment(D, E)), ((a == d && b == e) || (a == e && b == d)), "segment =="); bool sd = same && a == d && (b.first - a.first) * (e.first - d.first) + (b.second - a.second) * (e.second - d.second) > 0; MC_EQ((Ray(A, B) == Ray(D, E)), sd, "ray =="); mc::step(); }); }
MC_GROUP(polygons) { mc::bound("every simple polygon with 3..4 (thorough 5) vertices on 3x3: containment of every point of the surrounding grid, area, lattice points, convexity, both orientations"); mc::explore([&](mc::Chooser& c) { int n = c.range(3, mc::T(4, 5)); std::vector<P> p; for (int i = 0; i < n; ++i) p.push_back(grid(c, 3, 3)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { if (p[i] == p[j]) return; } for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { P a = p[i], b = p[(i + 1) % n], d = p[j], e = p[(j + 1) % n]; if (b == d) { if (onseg(a, b, e) || onseg(d, e, a)) return; } else if (e == a) { if (onseg(a, b, d) || onseg(d, e, b)) return; } else if (inter(a, b, d, e)) return; } ll a2 = 0; Polygon pg; for (int i = 0; i < n; ++i) a2 += p[i].first * p[(i + 1) % n].second - p[i].second * p[(i + 1) % n].first, pg.push_back(tp(p[i])); MC_EQ((ll)signed_area_doubled(pg), a2, "signed area"); MC_EQ((ll)area_doubled(pg), std::abs(a2), "area"); ll cnt = 0; for (int x = -1; x <= 3; ++x) for (int y = -1; y <= 3; ++y) { P q(x, y); bool on = false; double wn = 0; for (int i = 0; i < n; ++i) { P a = p[i], b = p[(i + 1) % n]; on |= onseg(a, b, q); wn += std::atan2((double)crs(q, a, b), (double)((a.first - q.first) * (b.first - q.first) + (a.second - q.second) * (b.second - q.second))); } bool in = !on && std::abs(wn) > 3; cnt += on || in; MC_CHECK(contains(pg, tp(q)) == (on ? Inclusion::ON : in ? Inclusion::IN : Inclusion::OUT), "point in polygon " + std::to_string(x) + "," + std::to_string(y)); } MC_EQ((ll)count_lattice_points<P>(p), cnt, "lattice points"); if (a2 > 0) { bool cv = true; for (int i = 0; i < n; ++i) cv &= crs(p[i], p[(i + 1) % n], p[(i + 2) % n]) >= 0; MC_EQ(is_convex(pg), cv, "convex"); } mc::step(); }); }
MC_GROUP(argument_sort) { mc::bound("comparator on every pair and triple of {-2..2}^2 incl. the origin: strict weak order agreeing with atan2; sorting every sequence of <=4 points of {-1..1}^2, and 20..40 points dominated by origins"); std::vector<P> g; for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) g.push_back({x, y}); auto at = [](P p) { return std::atan2((long double)p.second, (long double)p.first); }; auto lt = compare_by_atan2<P>; for (P a : g) for (P b : g) { MC_CASE(a.first, a.second, b.first, b.second); if (std::abs(at(a) - at(b)) > 1e-9) MC_EQ(lt(a, b), at(a) < at(b), "order by argument"); else MC_CHECK(!(lt(a, b) && lt(b, a)), "asymmetric"); if (a == b) MC_CHECK(!lt(a, b), "irreflexive"); for (P d : g) { if (lt(a, b) && lt(b, d)) MC_CHECK(lt(a, d), "transitive"); if (!lt(a, b) && !lt(b, a) && !lt(b, d) && !lt(d, b)) MC_CHECK(!lt(a, d) && !lt(d, a), "equivalence transitive"); } mc::step(); }
    auto srt = [&](std::vector<P> v) { auto w = v; sort_points_by_argument(w); for (size_t i = 0; i + 1 < w.size(); ++i) MC_CHECK(at(w[i]) <= at(w[i + 1]) + 1e-9, "sorted"); std::vector<Point> ps; for (P q : v) ps.push_back(tp(q)); sort_points_by_argument(ps); for (size_t i = 0; i + 1 < ps.size(); ++i) MC_CHECK(at(fp(ps[i])) <= at(fp(ps[i + 1])) + 1e-9, "sorted (Point)"); std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); MC_CHECK(v == w, "permutation"); }; mc::explore([&](mc::Chooser& c) { std::vector<P> v(c.range(0, mc::T(4, 5))); for (P& p : v) p = {c.range(-1, 1), c.range(-1, 1)}; srt(v); mc::step(); }); mc::explore([&](mc::Chooser& c) { std::vector<P> v(c.range(17, 40), P(0, 0)); v[c.choose(v.size())] = {c.range(-1, 1), c.range(-1, 1)}; v[0] = {c.range(-1, 1), c.range(-1, 1)}; srt(v); mc::step(); }); }
MC_GROUP(circles) { mc::bound("every pair of circles with centres on 4x3 and radii 0..3 (not identical): number of common tangents, common/cross points, containment of every grid point"); mc::explore([&](mc::Chooser& c) { P a = grid(c, 4, 3), b = grid(c, 4, 3); int r = c.range(0, 3), s = c.range(0, 3); if (a == b && r == s) return; ll d = d2(a, b); int w = d > (r + s) * (r + s) ? 4 : d == (r + s) * (r + s) ? 3 : d > (r - s) * (r - s) ? 2 : d == (r - s) * (r - s) ? 1 : 0; Circle A(tp(a), r), B(tp(b), s); MC_EQ(tangent_num(A, B), w, "tangents"); MC_EQ(has_common_point(A, B), w >= 1 && w <= 3, "common point"); MC_EQ(has_cross_point(A, B), w == 2, "cross"); ll q = d - r * r; MC_CHECK(contains(A, tp(b)) == (q > 0 ? Inclusion::OUT : q < 0 ? Inclusion::IN : Inclusion::ON), "contains"); mc::step(); }); }
MC_GROUP(points) { mc::bound("Point arithmetic (complex product, scalar forms), comparators for every pair in {-1..2}^2"); mc::explore([&](mc::Chooser& c) { ll x = c.range(-1, 2), y = c.range(-1, 2), u = c.range(-1, 2), v = c.range(-1, 2); Point p(x, y), q(u, v); MC_CHECK(fp(p + q) == P(x + u, y + v) && fp(p - q) == P(x - u, y - v) && fp(p * q) == P(x * u - y * v, x * v + y * u) && fp(-p) == P(-x, -y) && fp(p * u) == P(x * u, y * u) && fp(u * p) == P(x * u, y * u) && fp(p + u) == P(x + u, y) && fp(p - u) == P(x - u, y) && fp(u - p) == P(u - x, -y) && fp(u + p) == P(u + x, y) && fp(conj(p)) == P(x, -y), "arith"); Point r = p; r += q; r -= p; MC_CHECK(r == q && !(r != q), "assign"); r *= p; MC_CHECK(r == p * q, "*="); r = p; r += u; r -= v; r *= 3; r /= 3; MC_CHECK(fp(r) == P(x + u - v, y), "scalar assign"); MC_EQ((ll)dot(p, q), x * u + y * v, "dot"); MC_EQ((ll)det(p, q), x * v - y * u, "det"); MC_EQ((ll)square_abs(p), x * x + y * y, "norm"); MC_CHECK(std::abs(suisen::integral_geometry::abs(p) - std::sqrt(x * x + y * y)) < 1e-9, "abs"); P a(x, y), b(u, v), at(y, x), bt(v, u); MC_CHECK(XY_COMPARATOR(p, q) == (a < b) && XY_COMPARATOR_GREATER(p, q) == (a > b) && YX_COMPARATOR(p, q) == (at < bt) && YX_COMPARATOR_GREATER(p, q) == (at > bt), "comparators"); auto [g, h] = p; MC_CHECK(g == x && h == y, "structured binding"); P z = p; MC_CHECK(z == a, "to pair"); r = P(u, v); MC_CHECK(r == q, "from pair"); mc::step(); }); }
MC_GROUP(segment_crossings) { mc::bound("axis-parallel crossings: every <=2 vertical and <=2 horizontal segments (either endpoint order, degenerate included) with coordinates 0..2 (thorough 0..3), incl. no verticals / no horizontals"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 2), m = c.range(0, 2), K = mc::thorough() && n + m <= 3 ? 3 : n + m == 4 ? 1 : 2; std::vector<std::pair<int, std::pair<int, int>>> V(n); std::vector<std::pair<std::pair<int, int>, int>> H(m); for (auto& [x, r] : V) x = c.range(0, K), r = {c.range(0, K), c.range(0, K)}; for (auto& [r, y] : H) r = {c.range(0, K), c.range(0, K)}, y = c.range(0, K); ll w = 0; for (auto [x, r] : V) for (auto [s, y] : H) w += std::min(r.first, r.second) <= y && y <= std::max(r.first, r.second) && std::min(s.first, s.second) <= x && x <= std::max(s.first, s.second); MC_EQ(suisen::geometry::segment_intersections(V, H), w, "count"); mc::step(); mc::outcome(w); }); }
MC_GROUP(point_interface) { mc::bound("every integral point operator, scalar form, compound form, order predicate, accessor and stream round trip for all pairs in -2..2 and scalar in {-2,1,3}; arg, cartesian, sgn, compare");
    mc::explore([&](mc::Chooser& c) { ll x = c.range(-2, 2), y = c.range(-2, 2), u = c.range(-2, 2), v = c.range(-2, 2), k = std::array<int, 3>{-2, 1, 3}[c.choose(3)]; Point p(x, y), q(u, v); auto is = [](const Point& a, ll s, ll t) { return a.x == s && a.y == t; };
        MC_CHECK(is(+p, x, y) && is(-p, -x, -y) && is(p + q, x + u, y + v) && is(p - q, x - u, y - v) && is(p * q, x * u - y * v, x * v + y * u), "binary"); MC_CHECK(is(p + k, x + k, y) && is(p - k, x - k, y) && is(p * k, x * k, y * k) && is(p / k, x / k, y / k) && is(k + p, x + k, y) && is(k - p, k - x, -y) && is(k * p, x * k, y * k), "scalar");
        { Point r = p; Point& s = (r += q); MC_CHECK(is(r, x + u, y + v) && &s == &r, "+="); r = p; r -= q; MC_CHECK(is(r, x - u, y - v), "-="); r = p; r *= q; MC_CHECK(is(r, x * u - y * v, x * v + y * u), "*="); r = p; r *= r; MC_CHECK(is(r, x * x - y * y, 2 * x * y), "p*=p"); r = p; r += k; MC_CHECK(is(r, x + k, y), "+=k"); r = p; r -= k; MC_CHECK(is(r, x - k, y), "-=k"); r = p; r *= k; MC_CHECK(is(r, x * k, y * k), "*=k"); r = p; r /= k; MC_CHECK(is(r, x / k, y / k), "/=k"); r = std::make_pair(u, v); MC_CHECK(is(r, u, v), "= pair"); r.get<0>() = 8; r.get<1>() = 9; MC_CHECK(is(r, 8, 9), "get"); const Point cr = r; MC_CHECK(cr.get<0>() == 8 && cr.get<1>() == 9, "const get"); auto [s0, s1] = p; MC_CHECK(s0 == x && s1 == y, "structured binding"); std::pair<ll, ll> cp = p; MC_CHECK(cp == P(x, y), "to pair"); }
        P a{x, y}, b{u, v}, ar{y, x}, br{v, u}; MC_CHECK((p == q) == (a == b) && (p != q) == (a != b), "=="); MC_CHECK(XY_COMPARATOR(p, q) == (a < b) && XY_COMPARATOR_GREATER(p, q) == (a > b) && YX_COMPARATOR(p, q) == (ar < br) && YX_COMPARATOR_GREATER(p, q) == (ar > br), "orders"); MC_CHECK(is(cartesian(x, y), x, y) && is(conj(p), x, -y), "cartesian, conj"); MC_EQ(sgn(x), (x > 0) - (x < 0), "sgn"); MC_EQ(compare(x, u), (x > u) - (x < u), "compare"); MC_CHECK(std::fabs(arg(p) - std::atan2((double)y, (double)x)) < 1e-12 && std::fabs(suisen::integral_geometry::abs(p) - std::sqrt((double)(x * x + y * y))) < 1e-12, "arg, abs"); MC_EQ(square_abs(p), x * x + y * y, "square_abs"); MC_EQ(dot(p, q), x * u + y * v, "dot"); MC_EQ(det(p, q), x * v - y * u, "det");
        std::stringstream ss; ss << p; MC_CHECK(ss.str() == std::to_string(x) + " " + std::to_string(y), "output"); Point r; ss >> r; MC_CHECK(is(r, x, y), "input"); mc::step(); }); }
MC_MAIN
