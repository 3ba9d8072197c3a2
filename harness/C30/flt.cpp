// mc: flags='-O1'
// Floating point plane geometry on small integer configurations, against exact or independent formulas.
#include "mc.hpp"
#include <set>
#include "library/geom/geometry.hpp"
#include "library/geom/closest_pair.hpp"
#include "library/geom/convex_hull.hpp"
using namespace suisen::geometry; using ll = long long; using ld = long double; using IP = std::pair<ll, ll>;
static ll crs(IP a, IP b, IP c) { return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first); }
static ll dt(IP a, IP b, IP c) { return (b.first - a.first) * (c.first - a.first) + (b.second - a.second) * (c.second - a.second); }
static ll d2(IP a, IP b) { return (a.first - b.first) * (a.first - b.first) + (a.second - b.second) * (a.second - b.second); }
static bool onseg(IP a, IP b, IP p) { return crs(a, b, p) == 0 && dt(a, b, p) >= 0 && dt(b, a, p) >= 0; }
static int sg(ll x) { return (x > 0) - (x < 0); }
static bool inter(IP a, IP b, IP c, IP d) { if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true; return sg(crs(a, b, c)) * sg(crs(a, b, d)) < 0 && sg(crs(c, d, a)) * sg(crs(c, d, b)) < 0; }
static IP grid(mc::Chooser& c, int w, int h) { int v = c.choose(w * h); return {v % w, v / w}; }
static Point tp(IP p) { return Point(p.first, p.second); }
static bool near(ld a, ld b) { return std::abs(a - b) < 1e-6L; }
static bool nearp(const Point& a, ld x, ld y) { return near(a.real(), x) && near(a.imag(), y); }
static ld sqseg(IP a, IP b, IP p) { if (dt(a, b, p) <= 0) return d2(a, p); if (dt(b, a, p) <= 0) return d2(b, p); return (ld)crs(a, b, p) * crs(a, b, p) / d2(a, b); }
MC_GROUP(lines) { mc::bound("every non-degenerate segment on 4x3 and every point of 6x5: isp, projection, reflection, distances to line/ray/segment, containment; every pair of segments on 3x3: intersection set, distance, parallel/orthogonal/equality"); mc::explore([&](mc::Chooser& c) { IP a = grid(c, 4, 3), b = grid(c, 4, 3); if (a == b) return; Point A = tp(a), B = tp(b); for (int x = -1; x <= 4; ++x) for (int y = -1; y <= 3; ++y) { IP q(x, y); Point Q = tp(q); ll cr = crs(a, b, q), t = dt(a, b, q), L = d2(a, b); MC_EQ(isp(A, B, Q), cr > 0 ? +1 : cr < 0 ? -1 : t < 0 ? -2 : t > L ? 2 : 0, "isp"); ld hx = a.first + (ld)t * (b.first - a.first) / L, hy = a.second + (ld)t * (b.second - a.second) / L; MC_CHECK(nearp(projection(Q, Line(A, B)), hx, hy), "projection"); MC_CHECK(nearp(reflection(Q, Line(A, B)), 2 * hx - x, 2 * hy - y), "reflection"); ld dl = (ld)cr * cr / L, dr = t < 0 ? d2(a, q) : dl, ds = sqseg(a, b, q); MC_CHECK(near(square_distance(Q, Line(A, B)), dl) && near(square_distance(Line(A, B), Q), dl), "line distance"); MC_CHECK(near(square_distance(Q, Ray(A, B)), dr) && near(square_distance(Ray(A, B), Q), dr), "ray distance"); MC_CHECK(near(square_distance(Q, Segment(A, B)), ds) && near(square_distance(Segment(A, B), Q), ds), "segment distance"); MC_CHECK(near(distance(Q, Segment(A, B)), std::sqrt(ds)) && near(distance(Segment(A, B), Q), std::sqrt(ds)) && near(distance(Q, Ray(A, B)), std::sqrt(dr)) && near(distance(Ray(A, B), Q), std::sqrt(dr)) && near(distance(Q, Line(A, B)), std::sqrt(dl)) && near(distance(Line(A, B), Q), std::sqrt(dl)), "distance"); MC_CHECK((contains(Line(A, B), Q) == Containment::ON) == (cr == 0) && (contains(Ray(A, B), Q) == Containment::ON) == (cr == 0 && t >= 0) && (contains(Segment(A, B), Q) == Containment::ON) == onseg(a, b, q), "contains"); MC_CHECK(near(signed_area(A, B, Q), cr / 2.0L) && near(area(A, B, Q), std::abs(cr) / 2.0L), "triangle area"); } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int w = mc::T(3, 4); IP a = grid(c, w, 3), b = grid(c, w, 3), d = grid(c, w, 3), e = grid(c, w, 3); if (a == b || d == e) return; Segment s(tp(a), tp(b)), t(tp(d), tp(e)); bool I = inter(a, b, d, e); MC_EQ(has_common_point(s, t), I, "has_common_point"); ld w2 = I ? 0 : std::min({sqseg(a, b, d), sqseg(a, b, e), sqseg(d, e, a), sqseg(d, e, b)}); MC_CHECK(near(square_distance(s, t), w2) && near(distance(s, t), std::sqrt(w2)), "segment distance"); ll den = (b.first - a.first) * (e.second - d.second) - (b.second - a.second) * (e.first - d.first); MC_EQ(is_parallel(s, t), den == 0, "parallel"); MC_EQ(is_orthogonal(s, t), (b.first - a.first) * (e.first - d.first) + (b.second - a.second) * (e.second - d.second) == 0, "orthogonal"); bool same = den == 0 && crs(a, b, d) == 0; MC_EQ(on_the_same_line(s, t), same, "same line"); MC_EQ(equals(Line(s.a, s.b), Line(t.a, t.b)), same, "line equals"); MC_EQ(equals(s, t), (a == d && b == e) || (a == e && b == d), "segment equals"); MC_EQ(equals(Ray(s.a, s.b), Ray(t.a, t.b)), same && a == d && (b.first - a.first) * (e.first - d.first) + (b.second - a.second) * (e.second - d.second) > 0, "ray equals");
        auto r = common_point(s, t); if (!I) MC_CHECK(std::holds_alternative<std::nullptr_t>(r), "no common point"); else if (den != 0) { MC_CHECK(std::holds_alternative<Point>(r), "one common point"); ld k = (ld)((d.first - a.first) * (e.second - d.second) - (d.second - a.second) * (e.first - d.first)) / den; MC_CHECK(nearp(std::get<Point>(r), a.first + k * (b.first - a.first), a.second + k * (b.second - a.second)), "cross point"); } else { std::vector<IP> v{a, b, d, e}; std::sort(v.begin(), v.end()); if (v[1] == v[2]) { MC_CHECK(std::holds_alternative<Point>(r) && nearp(std::get<Point>(r), v[1].first, v[1].second), "touching"); } else { MC_CHECK(std::holds_alternative<Segment>(r), "overlap"); auto [x, y] = std::get<Segment>(r); MC_CHECK(nearp(x, v[1].first, v[1].second) && nearp(y, v[2].first, v[2].second), "overlap ends"); } } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int x = c.range(-2, 2), y = c.range(-2, 2), k = c.range(-2, 2); if (!x && !y) return; Line l((ld)x, (ld)y, (ld)k); MC_CHECK(near(x * l.a.real() + y * l.a.imag() + k, 0) && near(x * l.b.real() + y * l.b.imag() + k, 0) && suisen::geometry::abs(l.a - l.b) > 1e-3, "line from coefficients"); mc::step(); }); }
MC_GROUP(triangles) { mc::bound("every non-degenerate triangle on 4x4 (thorough 5x4): circumcircle, incircle, excircles, orthocentre, centroid"); mc::explore([&](mc::Chooser& c) { int W = mc::T(4, 5); IP p = grid(c, W, 4), q = grid(c, W, 4), r = grid(c, W, 4); if (crs(p, q, r) == 0) return; Point a = tp(p), b = tp(q), d = tp(r); Line bc(b, d), ca(d, a), ab(a, b); auto O = pO(a, b, d); for (auto& z : {a, b, d}) MC_CHECK(near(suisen::geometry::abs(z - O.center), O.radius), "circumcircle"); auto I = pI(a, b, d); for (auto& l : {bc, ca, ab}) MC_CHECK(near(distance(I.center, l), I.radius), "incircle tangent"); auto in = [&](const Point& z) { ld s = crs(p, q, r) > 0 ? 1 : -1; return std::array<int, 3>{det(d - b, z - b) * s > 0 ? 1 : -1, det(a - d, z - d) * s > 0 ? 1 : -1, det(b - a, z - a) * s > 0 ? 1 : -1}; }; MC_CHECK((in(I.center) == std::array<int, 3>{1, 1, 1}), "incentre inside"); auto [x, y, z] = pIabc(a, b, d); int k = 0; for (const Circle& E : {x, y, z}) { for (auto& l : {bc, ca, ab}) MC_CHECK(near(distance(E.center, l), E.radius), "excircle tangent"); std::array<int, 3> w{1, 1, 1}; w[k++] = -1; MC_CHECK(in(E.center) == w, "excentre side"); } auto H = pH(a, b, d); MC_CHECK(near(dot(H - a, d - b), 0) && near(dot(H - b, a - d), 0), "orthocentre"); auto G = pG(a, b, d); MC_CHECK(nearp(G, (p.first + q.first + r.first) / 3.0L, (p.second + q.second + r.second) / 3.0L), "centroid"); mc::step(); }); }
static bool simple(const std::vector<IP>& p) { int n = p.size(); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (p[i] == p[j]) return false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { IP a = p[i], b = p[(i + 1) % n], d = p[j], e = p[(j + 1) % n]; if (b == d) { if (onseg(a, b, e) || onseg(d, e, a)) return false; } else if (e == a) { if (onseg(a, b, d) || onseg(d, e, b)) return false; } else if (inter(a, b, d, e)) return false; } return true; }
static ld a2(const std::vector<IP>& p) { ll s = 0; int n = p.size(); for (int i = 0; i < n; ++i) s += p[i].first * p[(i + 1) % n].second - p[i].second * p[(i + 1) % n].first; return s; }
// length of {y : (x,y) in polygon and |(x,y)-c|<r} for a generic x
static ld slice(const std::vector<IP>& p, ld x, ld lo, ld hi) { std::vector<ld> ys; int n = p.size(); for (int i = 0; i < n; ++i) { IP a = p[i], b = p[(i + 1) % n]; if ((a.first < x) != (b.first < x)) ys.push_back(a.second + (x - a.first) * (b.second - a.second) / (b.first - a.first)); } std::sort(ys.begin(), ys.end()); ld s = 0; for (size_t i = 0; i + 1 < ys.size(); i += 2) s += std::max((ld)0, std::min(hi, ys[i + 1]) - std::max(lo, ys[i])); return s; }
static ld area_pc(const std::vector<IP>& p, IP c, ld r) { std::vector<ld> bp{c.first - r, (ld)c.first, c.first + r}; for (IP q : p) bp.push_back(q.first); std::sort(bp.begin(), bp.end()); ld s = 0; for (size_t k = 0; k + 1 < bp.size(); ++k) { ld lo = std::max(bp[k], c.first - r), hi = std::min(bp[k + 1], c.first + r); if (hi - lo < 1e-9L) continue; int N = 300; for (int i = 0; i < N; ++i) { ld x = lo + (hi - lo) * (i + 0.5L) / N, h = std::sqrt(std::max((ld)0, r * r - (x - c.first) * (x - c.first))); s += slice(p, x, c.second - h, c.second + h) * (hi - lo) / N; } } return s; }
MC_GROUP(polygons) { mc::bound("every simple polygon with 3..4 vertices on 3x3: area, convexity, containment; convex ones: diameter, cut by every line through two grid points (area of both sides, vertices); intersection area with circles at grid centres, radii 0.5..2.5, against slice integration"); mc::explore([&](mc::Chooser& c) { int n = c.range(3, mc::T(4, 5)); std::vector<IP> p; for (int i = 0; i < n; ++i) p.push_back(grid(c, 3, 3)); if (!simple(p)) return; if (n == 5 && p[0] != *std::min_element(p.begin(), p.end())) return; Polygon g; for (IP q : p) g.push_back(tp(q)); ld A = a2(p); MC_CHECK(near(signed_area(g), A / 2) && near(area(g), std::abs(A) / 2), "area"); for (int x = -1; x <= 6; ++x) for (int y = -1; y <= 6; ++y) { std::vector<IP> dbl; for (IP q : p) dbl.push_back({2 * q.first, 2 * q.second}); IP q(x, y); bool on = false; double wn = 0; for (int i = 0; i < n; ++i) { IP a = dbl[i], b = dbl[(i + 1) % n]; on |= onseg(a, b, q); wn += std::atan2((double)crs(q, a, b), (double)dt(q, a, b)); } bool in = !on && std::abs(wn) > 3; MC_CHECK(contains(g, Point(x / 2.0L, y / 2.0L)) == (on ? Containment::ON : in ? Containment::IN : Containment::OUT), "point in polygon"); } mc::step(); if (A < 0) return; bool cv = true; for (int i = 0; i < n; ++i) cv &= crs(p[i], p[(i + 1) % n], p[(i + 2) % n]) >= 0; MC_EQ(is_convex(g), cv, "is_convex"); if (!cv) return; ll mx = 0; for (IP a : p) for (IP b : p) mx = std::max(mx, d2(a, b)); auto [i, j, dd] = convex_diameter(g); MC_CHECK(near(dd, std::sqrt((ld)mx)) && d2(p[i], p[j]) == mx, "diameter");
        for (int u = 0; u < 9; ++u) for (int v = 0; v < 9; ++v) if (u != v) { Line l(Point(u % 3, u / 3), Point(v % 3, v / 3)), m(l.b, l.a); auto L = convex_cut(g, l), M = convex_cut(g, m); MC_CHECK(near((L.size() ? signed_area(L) : 0) + (M.size() ? signed_area(M) : 0), A / 2), "cut areas add up"); for (auto& z : L) { MC_CHECK(det(l.b - l.a, z - l.a) >= -1e-7, "left side"); MC_CHECK(contains(g, z) != Containment::OUT, "inside the polygon"); } for (auto& z : M) MC_CHECK(det(l.b - l.a, z - l.a) <= 1e-7, "right side"); } });
    mc::explore([&](mc::Chooser& c) { int n = c.range(3, mc::T(3, 4)); std::vector<IP> p; for (int i = 0; i < n; ++i) p.push_back(grid(c, 3, 3)); if (!simple(p) || p[0] != *std::min_element(p.begin(), p.end())) return; Polygon g; for (IP q : p) g.push_back(tp(q)); if (a2(p) < 0) return; for (int x = 0; x < 3; ++x) for (int y = -1; y < 3; ++y) for (ld r : {0.5L, 1.0L, std::sqrt(2.0L), 1.5L, 2.5L}) { ld w = area_pc(p, {x, y}, r), got = intersection_area(g, Circle(Point(x, y), r)); MC_CHECK(std::abs(w - got) < 1e-3L, "polygon/circle area c=" + std::to_string(x) + "," + std::to_string(y) + " r=" + std::to_string((double)r) + " got " + std::to_string((double)got) + " want " + std::to_string((double)w)); } mc::step(); }); }
MC_GROUP(circles) { mc::bound("every pair of circles with centres on 4x3 and radii 1..4 (scaled by 1/2 too; not identical): tangent count, intersection points, common tangents, intersection area; tangents from every point; line and segment intersections"); mc::explore([&](mc::Chooser& c) { IP a = grid(c, 4, 3), b = grid(c, 4, 3); int r = c.range(1, 4), s = c.range(1, 4); if (a == b && r == s) return; ld sc = c.flag() ? 0.5L : 1; ll d = d2(a, b); int w = d > (r + s) * (r + s) ? 4 : d == (r + s) * (r + s) ? 3 : d > (r - s) * (r - s) ? 2 : d == (r - s) * (r - s) ? 1 : 0; Circle A(tp(a) * sc, r * sc), B(tp(b) * sc, s * sc); MC_EQ(tangent_num(A, B), w, "tangent_num"); auto ps = common_point(A, B); MC_EQ((int)ps.size(), w == 2 ? 2 : w == 1 || w == 3 ? 1 : 0, "number of intersections"); for (auto& z : ps) MC_CHECK(near(suisen::geometry::abs(z - A.center), A.radius) && near(suisen::geometry::abs(z - B.center), B.radius), "on both circles"); if (ps.size() == 2) MC_CHECK(suisen::geometry::abs(ps[0] - ps[1]) > 1e-4, "distinct"); auto ts = common_tangent(A, B); MC_EQ((int)ts.size(), w, "number of tangents"); for (size_t i = 0; i < ts.size(); ++i) { Point u = ts[i].a, v = ts[i].b; MC_CHECK(near(suisen::geometry::abs(u - A.center), A.radius) && near(suisen::geometry::abs(v - B.center), B.radius), "touch points on the circles"); MC_CHECK(near(dot(v - u, u - A.center), 0) && near(dot(v - u, v - B.center), 0), "tangent direction"); if (near(suisen::geometry::abs(u - v), 0)) MC_CHECK(near(det(u - A.center, u - B.center), 0), "touching point"); for (size_t j = 0; j < i; ++j) MC_CHECK(suisen::geometry::abs(u - ts[j].a) + suisen::geometry::abs(v - ts[j].b) > 1e-4, "distinct tangents"); }
        ld area = 0; { int N = 800; for (int i = 0; i < N; ++i) { ld th = M_PIl * (i + 0.5L) / N, x = A.center.real() - A.radius * std::cos(th), h = A.radius * std::sin(th), y = B.radius * B.radius - (x - B.center.real()) * (x - B.center.real()); if (y <= 0) continue; y = std::sqrt(y); area += std::max((ld)0, std::min(A.center.imag() + h, B.center.imag() + y) - std::max(A.center.imag() - h, B.center.imag() - y)) * h * M_PIl / N; } } MC_CHECK(std::abs(intersection_area(A, B) - area) < 2e-2L * sc, "circle area"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { IP a = grid(c, 4, 4), b = grid(c, 4, 4), o = {1, 2}; int r = c.range(1, 3); Circle C(tp(o), r); ll q = d2(a, o) - r * r; MC_CHECK(contains(C, tp(a)) == (q > 0 ? Containment::OUT : q < 0 ? Containment::IN : Containment::ON), "contains"); auto t = tangent_to_circle(C, tp(a)); MC_EQ((int)t.size(), q < 0 ? 0 : q == 0 ? 1 : 2, "tangents from a point"); for (auto& z : t) MC_CHECK(near(suisen::geometry::abs(z - C.center), r) && near(dot(z - C.center, z - tp(a)), 0), "tangent point"); if (t.size() == 2) MC_CHECK(suisen::geometry::abs(t[0] - t[1]) > 1e-4, "distinct"); if (a == b) return; ll cr = crs(a, b, o), L = d2(a, b); auto ps = common_point(C, Line(tp(a), tp(b))); MC_EQ((int)ps.size(), cr * cr > r * r * L ? 0 : cr * cr == r * r * L ? 1 : 2, "line intersections"); for (auto& z : ps) MC_CHECK(near(suisen::geometry::abs(z - C.center), r) && near(det(tp(b) - tp(a), z - tp(a)), 0), "on line and circle"); if (ps.size() == 2) MC_CHECK(suisen::geometry::abs(ps[0] - ps[1]) > 1e-4, "distinct"); auto sp = common_point(C, Segment(tp(a), tp(b))); int cnt = 0; for (auto& z : ps) { ld k = dot(z - tp(a), tp(b) - tp(a)) / L; cnt += k > -1e-7 && k < 1 + 1e-7; } MC_EQ((int)sp.size(), cnt, "segment intersections"); for (auto& z : sp) MC_CHECK(near(suisen::geometry::abs(z - C.center), r), "on circle"); mc::step(); }); }
MC_GROUP(point_sets) { mc::bound("every sequence of <=4 (5) points on 3x3 and subsets of 5..6 of 4x4: hull (same contract as the integer version) and closest pair; block layouts for n<=12"); auto chk = [&](const std::vector<IP>& s) { int n = s.size(); std::vector<Point> ps; for (IP q : s) ps.push_back(tp(q)); auto ids = convex_hull(ps); std::set<IP> st(s.begin(), s.end()), hs, want; std::vector<IP> u(st.begin(), st.end()), h; for (int i : ids) { MC_CHECK(i >= 0 && i < n, "index"); h.push_back(s[i]); hs.insert(s[i]); } if (n == 0) { MC_CHECK(h.empty(), "empty"); return; } for (IP q : u) { bool bd = u.size() <= 2; for (IP a : u) { if (a == q) continue; bool l = false, r = false; for (IP b : u) { ll x = crs(q, a, b); l |= x > 0; r |= x < 0; } if (!(l && r)) bd = true; } if (bd) want.insert(q); } MC_CHECK(hs == want, "hull points"); int m = h.size(); bool flat = true; for (IP q : u) flat &= crs(u[0], u.back(), q) == 0; if (!flat) { MC_CHECK((int)hs.size() == m, "each once"); for (int i = 0; i < m; ++i) for (IP q : u) MC_CHECK(crs(h[i], h[(i + 1) % m], q) >= 0, "ccw hull"); } Polygon hp; for (IP q : h) hp.push_back(tp(q)); ll mx = 0, mn = LLONG_MAX; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) mx = std::max(mx, d2(s[i], s[j])), mn = std::min(mn, d2(s[i], s[j])); auto [di, dj, dd] = convex_diameter(hp); MC_CHECK(near(dd, std::sqrt((ld)mx)) && d2(h[di], h[dj]) == mx, "diameter of the hull"); auto [x, y] = closest_pair(ps); if (n > 1) MC_CHECK(near(square_abs(x - y), mn), "closest"); mc::step(); };
    mc::explore([&](mc::Chooser& c) { std::vector<IP> s; if (c.flag()) { int n = c.range(0, mc::T(4, 5)); for (int i = 0; i < n; ++i) s.push_back(grid(c, 3, 3)); } else { int v = 0, n = c.range(5, mc::T(5, 8)); for (int i = 0; i < n && v < 16; ++i) { v += c.choose(16 - v); s.push_back({v % 4, v / 4}); ++v; } if ((int)s.size() < n) return; } chk(s); }); mc::explore([&](mc::Chooser& c) { int n = c.range(2, mc::T(11, 20)), kind = c.choose(4); std::vector<IP> s(n); for (int i = 0; i < n; ++i) s[i] = kind == 0 ? IP(10 * i, 7 * i) : kind == 1 ? IP(0, 10 * i) : kind == 2 ? IP(i % 3, 10 * i) : IP((i * 7 % n) * 3, (i * 5 % n) * 9 + i * 50); int i = c.choose(n), j = c.choose(n); if (i == j) return; s[j] = {s[i].first + c.range(-1, 1), s[i].second + c.range(0, 1)}; chk(s); }); }
MC_GROUP(point_interface) { mc::bound("point-scalar arithmetic, conj, cartesian, polar, arg, order predicates and stream round trip for every integer point pair in -2..2 and scalar in {-2,1,3}");
    mc::explore([&](mc::Chooser& c) { ld x = c.range(-2, 2), y = c.range(-2, 2), u = c.range(-2, 2), v = c.range(-2, 2), k = std::array<int, 3>{-2, 1, 3}[c.choose(3)]; Point p(x, y), q(u, v); auto is = [](const Point& a, ld s, ld t) { return std::fabs(getx(a) - s) < 1e-12L && std::fabs(gety(a) - t) < 1e-12L; };
        MC_CHECK(is(p + k, x + k, y) && is(p - k, x - k, y) && is(p * k, x * k, y * k) && is(p / k, x / k, y / k) && is(k + p, x + k, y) && is(k - p, k - x, -y) && is(k * p, k * x, k * y), "point-scalar"); ld n = x * x + y * y; if (n > 0) MC_CHECK(is(k / p, k * x / n, -k * y / n), "scalar/point"); MC_CHECK(is(conj(p), x, -y) && is(cartesian(x, y), x, y), "conj, cartesian"); MC_CHECK(is(polar(std::sqrt(n), arg(p)), x, y), "polar(abs, arg)"); MC_CHECK(std::fabs(square_abs(p) - n) < 1e-12L && std::fabs(abs(p) - std::sqrt(n)) < 1e-12L, "abs"); MC_CHECK(n == 0 || is(cis(arg(p)) * std::sqrt(n), x, y), "cis");
        auto P = std::make_pair(x, y), Q = std::make_pair(u, v), PR = std::make_pair(y, x), QR = std::make_pair(v, u); MC_CHECK(XY_COMPARATOR(p, q) == (P < Q) && XY_COMPARATOR_GREATER(p, q) == (P > Q) && YX_COMPARATOR(p, q) == (PR < QR) && YX_COMPARATOR_GREATER(p, q) == (PR > QR), "orders");
        std::stringstream ss; suisen::geometry::operator<<(ss, p); MC_CHECK(ss.str() == std::to_string((int)x) + " " + std::to_string((int)y), "output"); Point r(9, 9); suisen::geometry::operator>>(ss, r); MC_CHECK(is(r, x, y), "input"); mc::step(); }); }
MC_MAIN
