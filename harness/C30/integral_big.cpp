// mc: flags='-O1'
// Exact integer geometry with coordinates as large as the products allow; 128-bit oracle.
// (integral_int.cpp compiles the same unit with 32-bit coordinates and 64-bit products.)
#include "mc.hpp"
#include <map>
#include <set>
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
#include "library/geom/segment_intersections.hpp"
using namespace suisen::integral_geometry; using ll = long long; using W = __int128; using C = coordinate_t; using P = std::pair<C, C>;
static W crs(P a, P b, P c) { return W(W(b.first) - a.first) * (W(c.second) - a.second) - W(W(b.second) - a.second) * (W(c.first) - a.first); }
static W dt(P a, P b, P c) { return W(W(b.first) - a.first) * (W(c.first) - a.first) + W(W(b.second) - a.second) * (W(c.second) - a.second); }
static W d2(P a, P b) { return dt(a, b, b); }
static bool onseg(P a, P b, P p) { return crs(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second); }
static int sg(W x) { return (x > 0) - (x < 0); }
static bool inter(P a, P b, P c, P d) { if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true; return sg(crs(a, b, c)) * sg(crs(a, b, d)) < 0 && sg(crs(c, d, a)) * sg(crs(c, d, b)) < 0; }
static Point tp(P p) { return Point(p.first, p.second); }
static P fp(const Point& p) { return { p.x, p.y }; }
static const std::vector<ll> MS = { 20000, 46340, 46341, 65536, 3000000, 700000000, 1000000000 };
static C val(ll M, int k) { return k == 0 ? -M : k == 1 ? -M + 1 : k == 2 ? 0 : k == 3 ? M - 1 : M; }
static P pt(mc::Chooser& c, ll M) { int k = c.choose(25); return { val(M, k % 5), val(M, k / 5) }; }
static P pt9(mc::Chooser& c, ll M) { static const int s[3] = { 0, 2, 4 }; int k = c.choose(9); return { val(M, s[k % 3]) + (k == 4 ? 1 : 0), val(M, s[k / 3]) }; }
MC_GROUP(triples) { mc::bound("isp, containment on line/ray/segment, triangle area for every triple of points with coordinates in {-M,-M+1,0,M-1,M}, 7 magnitudes M up to 10^9");
    mc::explore([&](mc::Chooser& c) { ll M = c.pick(MS); P a = pt(c, M), b = pt(c, M); if (a == b) return; for (int k = 0; k < 25; ++k) { P q{ val(M, k % 5), val(M, k / 5) }; W x = crs(a, b, q), t = dt(a, b, q); int want = x > 0 ? 1 : x < 0 ? -1 : t < 0 ? -2 : t > d2(a, b) ? 2 : 0; Point A = tp(a), B = tp(b), Q = tp(q); MC_LOG(a.first << "," << a.second << " " << b.first << "," << b.second << " " << q.first << "," << q.second);
        MC_EQ(isp(A, B, Q), want, "isp"); MC_CHECK((contains(Line(A, B), Q) == Inclusion::ON) == (x == 0), "line"); MC_CHECK((contains(Ray(A, B), Q) == Inclusion::ON) == (x == 0 && t >= 0), "ray"); MC_CHECK((contains(Segment(A, B), Q) == Inclusion::ON) == onseg(a, b, q), "segment"); MC_CHECK((W)signed_area_doubled(A, B, Q) == x && (W)area_doubled(A, B, Q) == (x < 0 ? -x : x), "triangle area"); MC_CHECK((W)det(B - A, Q - A) == x && (W)dot(B - A, Q - A) == t && (W)square_abs(B - A) == d2(a, b), "products"); } mc::step(); }); }
MC_GROUP(segments) { mc::bound("every pair of segments with ends in {-M,0(1),M}^2, 7 magnitudes: intersection, parallel, orthogonal, same line, equality");
    mc::explore([&](mc::Chooser& c) { ll M = c.pick(MS); P a = pt9(c, M), b = pt9(c, M), d = pt9(c, M), e = pt9(c, M); if (a == b || d == e) return; Point A = tp(a), B = tp(b), D = tp(d), E = tp(e); MC_EQ(has_common_point(Segment(A, B), Segment(D, E)), inter(a, b, d, e), "segments intersect"); W bx = W(b.first) - a.first, by = W(b.second) - a.second, ex = W(e.first) - d.first, ey = W(e.second) - d.second; bool par = bx * ey == by * ex, same = crs(a, b, d) == 0 && crs(a, b, e) == 0; MC_EQ(is_parallel(Line(A, B), Line(D, E)), par, "parallel"); MC_EQ(is_orthogonal(Line(A, B), Line(D, E)), bx * ex + by * ey == 0, "orthogonal"); MC_EQ(on_the_same_line(Line(A, B), Segment(D, E)), same, "same line"); MC_EQ(Line(A, B) == Line(D, E), same, "line =="); MC_EQ((Ray(A, B) == Ray(D, E)), same && a == d && bx * ex + by * ey > 0, "ray =="); mc::step(); }); }
MC_GROUP(polygons) { mc::bound("every simple polygon with 3..4 vertices from {-M,0(1),M}^2, 7 magnitudes: area, convexity, containment of 25 points, lattice points by Pick");
    mc::explore([&](mc::Chooser& c) { ll M = c.pick(MS); int n = c.range(3, 4); std::vector<P> p; for (int i = 0; i < n; ++i) { p.push_back(pt9(c, M)); for (int j = 0; j < i; ++j) if (p[i] == p[j]) return; }
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { P a = p[i], b = p[(i + 1) % n], d = p[j], e = p[(j + 1) % n]; if (b == d) { if (onseg(a, b, e) || onseg(d, e, a)) return; } else if (e == a) { if (onseg(a, b, d) || onseg(d, e, b)) return; } else if (inter(a, b, d, e)) return; }
        W a2 = 0, bd = 0; Polygon pg; bool cv = true; for (int i = 0; i < n; ++i) { P a = p[i], b = p[(i + 1) % n]; a2 += W(a.first) * b.second - W(a.second) * b.first; bd += std::gcd(ll(b.first) - a.first, ll(b.second) - a.second); pg.push_back(tp(a)); cv &= crs(a, b, p[(i + 2) % n]) >= 0; } MC_CHECK((W)signed_area_doubled(pg) == a2 && (W)area_doubled(pg) == (a2 < 0 ? -a2 : a2), "area"); MC_CHECK((W)count_lattice_points<P>(p) == ((a2 < 0 ? -a2 : a2) + bd) / 2 + 1, "lattice points"); if (a2 > 0) MC_EQ(is_convex(pg), cv, "convex");
        for (int k = 0; k < 25; ++k) { P q{ val(M, k % 5), val(M, k / 5) }; bool on = false; long double wn = 0; for (int i = 0; i < n; ++i) { P a = p[i], b = p[(i + 1) % n]; on |= onseg(a, b, q); wn += std::atan2((long double)crs(q, a, b), (long double)dt(q, a, b)); } bool in = !on && std::abs(wn) > 3; MC_CHECK(contains(pg, tp(q)) == (on ? Inclusion::ON : in ? Inclusion::IN : Inclusion::OUT), "point in polygon"); } mc::step(); }); }
MC_GROUP(point_sets) { mc::bound("every sequence of 2..3 points from {-M,-M+1,0,M-1,M}^2 and of 4 from {-M,0(1),M}^2, 7 magnitudes: hull, inclusion in it, closest pair, farthest pair");
    mc::explore([&](mc::Chooser& c) { ll M = c.pick(MS); int n = c.range(2, 4); std::vector<P> s; for (int i = 0; i < n; ++i) s.push_back(n == 4 ? pt9(c, M) : pt(c, M)); W mn = d2(s[0], s[1]), mx = 0; std::vector<Point> ps; for (P q : s) ps.push_back(tp(q)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) mn = std::min(mn, d2(s[i], s[j])), mx = std::max(mx, d2(s[i], s[j]));
        auto [x, y] = closest_pair(ps); MC_CHECK(d2(fp(x), fp(y)) == mn, "closest"); auto [u, v] = farthest_pair<P>(s); MC_CHECK(d2(u, v) == mx, "farthest"); auto [g, h] = farthest_pair<Point>(ps); MC_CHECK(d2(fp(g), fp(h)) == mx, "farthest (Point)");
        auto ids = convex_hull<P>(s); std::vector<P> hl; for (int i : ids) hl.push_back(s[i]); int m = hl.size(); bool flat = true; for (P q : s) for (P r : s) flat &= crs(s[0], q, r) == 0; if (!flat) for (int i = 0; i < m; ++i) for (P q : s) MC_CHECK(crs(hl[i], hl[(i + 1) % m], q) >= 0, "hull"); if (m >= 1) { ConvexHullInclusion<P> ci(hl); for (int k = 0; k < 25; ++k) { P q{ val(M, k % 5), val(M, k / 5) }; bool on = false, in = !flat; for (int i = 0; i < m; ++i) { on |= onseg(hl[i], hl[(i + 1) % m], q); in &= crs(hl[i], hl[(i + 1) % m], q) > 0; } MC_CHECK(ci(q) == (on ? Inclusion::ON : in ? Inclusion::IN : Inclusion::OUT), "inclusion"); } } mc::step(); }); }
MC_GROUP(many_points) { mc::bound("hull, closest and farthest pair of n = 3..12, 17, 33, 64, 65, 100, 200, 300 points: convex position on a parabola / lattice disc / collinear / clustered layouts scaled to 10^9, 4 input orders");
    for (int n : { 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 33, 64, 65, 100, 200, 300 }) for (int kind = 0; kind < 5; ++kind) for (int ord = 0; ord < 4; ++ord) { MC_CASE(n, kind, ord); std::vector<P> s(n); for (int i = 0; i < n; ++i) { ll t = i - n / 2; ll x = kind == 0 ? t * 6000000 : kind == 1 ? ll(std::cos(i * 2.39996) * 9e8 * std::sqrt((i + 1.0) / n)) : kind == 2 ? t * 3000000 : kind == 3 ? (i * 7919 % 997) * 900000 : ll(std::cos(i * 6.283185307 / n) * 9e8), y = kind == 0 ? t * t * 40000 : kind == 1 ? ll(std::sin(i * 2.39996) * 9e8 * std::sqrt((i + 1.0) / n)) : kind == 2 ? -t * 2000000 : kind == 3 ? (i * 104729 % 1009) * 890000 : ll(std::sin(i * 6.283185307 / n) * 9e8); s[i] = { C(x), C(y) }; } if (n > 4) s[n / 3] = { s[n / 2].first + 5, s[n / 2].second - 3 };
        if (ord == 1) std::reverse(s.begin(), s.end()); else if (ord >= 2) { std::vector<P> t(n); int k = ord == 2 ? 7 : 11; while (std::gcd(k, n) != 1) ++k; for (int i = 0; i < n; ++i) t[ll(i) * k % n] = s[i]; s = t; }
        W mn = d2(s[0], s[1]), mx = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) mn = std::min(mn, d2(s[i], s[j])), mx = std::max(mx, d2(s[i], s[j])); std::vector<Point> ps; for (P q : s) ps.push_back(tp(q)); auto [x, y] = closest_pair(ps); MC_CHECK(d2(fp(x), fp(y)) == mn, "closest"); auto [u, v] = farthest_pair<P>(s); MC_CHECK(d2(u, v) == mx, "farthest");
        auto ids = convex_hull<P>(s); int m = ids.size(); std::set<int> is(ids.begin(), ids.end()); MC_EQ((int)is.size(), m, "hull indices distinct"); std::vector<P> hl; for (int i : ids) hl.push_back(s[i]); std::set<P> hs(hl.begin(), hl.end()), all(s.begin(), s.end()); bool flat = true; for (P q : all) flat &= crs(*all.begin(), *all.rbegin(), q) == 0; if (flat) continue; int strict = 0; for (int i = 0; i < m; ++i) { for (P q : s) { W z = crs(hl[i], hl[(i + 1) % m], q); MC_CHECK(z >= 0, "all points left of every hull edge"); if (z == 0 && onseg(hl[i], hl[(i + 1) % m], q)) MC_CHECK(hs.count(q), "boundary point missing from the hull"); } strict += crs(hl[i], hl[(i + 1) % m], hl[(i + 2) % m]) > 0; } MC_CHECK(strict >= 3, "hull is not degenerate");
        ConvexHullInclusion<P> ci(hl); for (P q0 : s) for (int k = 0; k < 5; ++k) { P q{ C(q0.first + (k == 1) - (k == 2)), C(q0.second + (k == 3) - (k == 4)) }; bool on = false, in = true; for (int i = 0; i < m; ++i) { W z = crs(hl[i], hl[(i + 1) % m], q); on |= z == 0 && onseg(hl[i], hl[(i + 1) % m], q); in &= z > 0; } MC_CHECK(ci(q) == (on ? Inclusion::ON : in ? Inclusion::IN : Inclusion::OUT), "inclusion"); } mc::step(); } }
MC_GROUP(argument_order) { mc::bound("argument comparator on every pair from {-M,-M+1,-1,0,1,M-1,M}^2, 7 magnitudes, against exact half-plane and cross-product order; sorting all of them");
    for (ll M : MS) { std::vector<P> g; for (ll x : { -M, -M + 1, -1LL, 0LL, 1LL, M - 1, M }) for (ll y : { -M, -M + 1, -1LL, 0LL, 1LL, M - 1, M }) if (x || y) g.push_back({ C(x), C(y) }); auto cls = [](P p) { return p.second < 0 ? 0 : p.second == 0 && p.first < 0 ? 2 : 1; }; auto less = [&](P a, P b) { if (cls(a) != cls(b)) return cls(a) < cls(b); return W(a.first) * b.second - W(a.second) * b.first > 0; }; for (P a : g) for (P b : g) { MC_CASE(M, a.first, a.second, b.first, b.second); MC_EQ((compare_by_atan2<P>(a, b)), less(a, b), "argument order"); MC_EQ((compare_by_atan2<Point>(tp(a), tp(b))), less(a, b), "argument order (Point)"); } auto h = g; sort_points_by_argument(h); for (size_t i = 0; i + 1 < h.size(); ++i) MC_CHECK(!less(h[i + 1], h[i]), "sorted"); mc::step(); } }
MC_GROUP(circles_) { mc::bound("circles with centres in {-M,0,M}^2 / axis offsets and radii in {0,1,M/2,M-1,M}, 7 magnitudes: common tangents, containment");
    mc::explore([&](mc::Chooser& c) { ll M = c.pick(MS); P a = pt9(c, M), b = pt9(c, M); std::vector<ll> R = { 0, 1, M / 2, M - 1, M }; C r = c.pick(R), s = c.pick(R); if (a == b && r == s) return; W d = d2(a, b), p = W(W(r) + s) * (W(r) + s), q = W(W(r) - s) * (W(r) - s); int w = d > p ? 4 : d == p ? 3 : d > q ? 2 : d == q ? 1 : 0; Circle A(tp(a), r), B(tp(b), s); MC_EQ(tangent_num(A, B), w, "tangents"); MC_EQ(has_common_point(A, B), w >= 1 && w <= 3, "common"); MC_EQ(has_cross_point(A, B), w == 2, "cross"); W z = d - W(r) * r; MC_CHECK(contains(A, tp(b)) == (z > 0 ? Inclusion::OUT : z < 0 ? Inclusion::IN : Inclusion::ON), "contains"); mc::step(); }); }
MC_GROUP(constants_) { mc::bound("ZERO, ONE, I and multiplication by I over {-2..2}^2"); MC_CHECK(ZERO.x == 0 && ZERO.y == 0 && ONE.x == 1 && ONE.y == 0 && suisen::integral_geometry::I.x == 0 && suisen::integral_geometry::I.y == 1, "constants"); mc::explore([&](mc::Chooser& c) { int x = c.range(-2, 2), y = c.range(-2, 2); Point p(x, y); MC_CHECK(p * suisen::integral_geometry::I == Point(-y, x) && p * ONE == p && p * ZERO == ZERO && p + ZERO == p, "ring constants"); mc::step(); }); }
MC_GROUP(many_crossings) { mc::bound("k vertical and k horizontal segments, all crossing, k in {1,100,46341,50000}; coordinates shifted to the ends of int"); for (int k : { 1, 100, 46341, 50000 }) for (ll off : { 0LL, -2147483648LL, 2147483647LL - 50001 }) { MC_CASE(k, off); std::vector<std::pair<int, std::pair<int, int>>> V; std::vector<std::pair<std::pair<int, int>, int>> H; int o = off; for (int i = 0; i < k; ++i) { V.push_back({ o + i, { o, o + k } }); H.push_back({ { o + k, o }, o + i }); } MC_EQ(suisen::geometry::segment_intersections(V, H), ll(k) * k, "count"); } }
MC_MAIN
