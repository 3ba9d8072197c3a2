// mc: flags='-O1'
// 3D geometry on small integer configurations; distances by exhaustive boundary/critical-point analysis of the quadratic.
#include "mc.hpp"
#include "library/geom/geometry3d.hpp"
using namespace suisen::geometry3d; using ld = long double; using I3 = std::array<int, 3>;
static I3 pt(mc::Chooser& c, int k) { int v = c.choose(k * k * k); return {v % k, v / k % k, v / k / k}; }
static Point tp(I3 p) { return Point{(ld)p[0], (ld)p[1], (ld)p[2]}; }
static I3 sub(I3 a, I3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static int ip(I3 a, I3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static I3 op(I3 a, I3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static bool near(ld a, ld b) { return std::abs(a - b) < 1e-6L; }
// parameter range kinds: 0 line (-inf,inf), 1 ray [0,inf), 2 segment [0,1]
static bool inr(int k, ld t) { return k == 0 || (t >= -1e-12L && (k == 1 || t <= 1 + 1e-12L)); }
static ld dpt(I3 a, I3 b, int k, I3 p) { I3 u = sub(b, a), v = sub(p, a); ld t = (ld)ip(u, v) / ip(u, u); if (k >= 1 && t < 0) t = 0; if (k == 2 && t > 1) t = 1; ld s = 0; for (int i = 0; i < 3; ++i) { ld w = a[i] + t * u[i] - p[i]; s += w * w; } return std::sqrt(s); }
// min over (x,y) of |a+xu - c-yv|: interior critical point (if non-parallel) or a boundary face
static ld dll(I3 a, I3 b, int k, I3 c, I3 d, int l) { I3 u = sub(b, a), v = sub(d, c), w = sub(a, c); int A = ip(u, u), B = ip(u, v), C = ip(v, v), D = ip(u, w), E = ip(v, w), den = A * C - B * B; ld best = 1e18; if (den != 0) { ld x = (ld)(B * E - C * D) / den, y = (ld)(A * E - B * D) / den; if (inr(k, x) && inr(l, y)) { I3 n = op(u, v); return std::abs((ld)ip(n, w)) / std::sqrt((ld)ip(n, n)); } } else if (k == 0 || l == 0) return k == 0 ? dpt(a, b, 0, c) : dpt(c, d, 0, a); if (k >= 1) best = std::min(best, dpt(c, d, l, a)); if (k == 2) best = std::min(best, dpt(c, d, l, b)); if (l >= 1) best = std::min(best, dpt(a, b, k, c)); if (l == 2) best = std::min(best, dpt(a, b, k, d)); return best; }
MC_GROUP(point_line) { mc::bound("every segment with ends in {0,1,2}x{0,1}^2.. {0..2}^3 (first end in {0,1}^3) and every point of {0..2}^3: projection, distance and incidence for line, ray, segment"); mc::explore([&](mc::Chooser& c) { I3 a = pt(c, 2), b = pt(c, 3), p = pt(c, 3); if (a == b) return; Point A = tp(a), B = tp(b), Q = tp(p); I3 u = sub(b, a); ld t = (ld)ip(u, sub(p, a)) / ip(u, u); Point h = projection(Line(A, B), Q); for (int i = 0; i < 3; ++i) MC_CHECK(near(h[i], a[i] + t * u[i]), "projection"); ld w[3]; for (int k = 0; k < 3; ++k) w[k] = dpt(a, b, k, p); MC_CHECK(near(dist(Line(A, B), Q), w[0]), "line"); MC_CHECK(near(dist(Ray(A, B), Q), w[1]), "ray"); MC_CHECK(near(dist(Segment(A, B), Q), w[2]), "segment"); MC_CHECK(on(Line(A, B), Q) == (w[0] < 1e-6) && on(Ray(A, B), Q) == (w[1] < 1e-6) && on(Segment(A, B), Q) == (w[2] < 1e-6), "incidence"); MC_CHECK(near(dist(A, B), std::sqrt((ld)ip(u, u))), "point distance"); Point x = outer_product(A, B); I3 y = op(a, b); for (int i = 0; i < 3; ++i) MC_CHECK(near(x[i], y[i]), "outer product"); MC_CHECK(near(inner_product(A, B), ip(a, b)), "inner product"); mc::step(); }); }
MC_GROUP(line_line) { mc::bound("every pair of lines/rays/segments: first from the origin to {-1..1}^3, second between two points of {0,1,2}x{0,1}x{-1,0,1}-type grid (thorough {-1..1}^3 pairs): all nine distance overloads incl. const arguments, parallel/orthogonal, cross points of same-kind pairs"); mc::explore([&](mc::Chooser& c) { auto q = [&](int k) { int v = c.choose(k); return I3{v % 3 - 1, v / 3 % 3 - 1, v / 9 - 1}; }; I3 a{0, 0, 0}, b = q(27), p, d; if (mc::thorough()) p = q(27), d = q(27); else p = I3{c.range(-1, 1), c.range(0, 1), c.range(0, 1)}, d = q(27); if (b == a || p == d) return; const Line L(tp(a), tp(b)), M(tp(p), tp(d)); const Ray RL(tp(a), tp(b)), RM(tp(p), tp(d)); const Segment SL(tp(a), tp(b)), SM(tp(p), tp(d)); auto w = [&](int k, int l) { return dll(a, b, k, p, d, l); };
        MC_CHECK(near(dist(L, M), w(0, 0)), "line-line"); MC_CHECK(near(dist(L, RM), w(0, 1)), "line-ray"); MC_CHECK(near(dist(RL, M), w(1, 0)), "ray-line"); MC_CHECK(near(dist(L, SM), w(0, 2)), "line-segment"); MC_CHECK(near(dist(SL, M), w(2, 0)), "segment-line"); MC_CHECK(near(dist(RL, RM), w(1, 1)), "ray-ray"); MC_CHECK(near(dist(RL, SM), w(1, 2)), "ray-segment"); MC_CHECK(near(dist(SL, RM), w(2, 1)), "segment-ray"); MC_CHECK(near(dist(SL, SM), w(2, 2)), "segment-segment"); I3 u = sub(b, a), v = sub(d, p), n = op(u, v); bool par = ip(n, n) == 0; MC_EQ(is_parallel(L, M), par, "parallel"); MC_EQ(is_orthogonal(L, M), ip(u, v) == 0, "orthogonal"); if (!par) { auto x = cross_point(L, M); auto y = cross_point(RL, RM); auto z = cross_point(SL, SM); MC_EQ(bool(x), w(0, 0) < 1e-6, "lines cross"); MC_EQ(bool(y), w(1, 1) < 1e-6, "rays cross"); MC_EQ(bool(z), w(2, 2) < 1e-6, "segments cross"); if (x) MC_CHECK(near(dist(L, *x), 0) && near(dist(M, *x), 0), "cross point"); if (z) MC_CHECK(near(dist(SL, *z), 0) && near(dist(SM, *z), 0), "segment cross point"); if (y) MC_CHECK(near(dist(RL, *y), 0) && near(dist(RM, *y), 0), "ray cross point"); } mc::step(); }); }
MC_GROUP(planes) { mc::bound("planes through every three non-collinear points of {0,1}^3 (and by coefficients) with every point / line / ray / segment of {-1..1}^3-type grids: distance, projection, incidence, cross point; triangle membership"); mc::explore([&](mc::Chooser& c) { I3 x = pt(c, 2), y = pt(c, 2), z = pt(c, 2); I3 n = op(sub(y, x), sub(z, x)); if (ip(n, n) == 0) return; auto q = [&]() { int v = c.choose(27); return I3{v % 3 - 1, v / 3 % 3 - 1, v / 9 - 1}; }; I3 a = q(); const Plane P(tp(x), tp(y), tp(z)); const Plane C(n[0], n[1], n[2], -ip(n, x)); ld N = std::sqrt((ld)ip(n, n)); auto sd = [&](I3 p) { return ip(n, sub(p, x)); }; ld da = std::abs(sd(a)) / N; for (const Plane& R : {P, C}) { MC_CHECK(near(dist(R, tp(a)), da), "point distance"); MC_EQ(on(R, tp(a)), sd(a) == 0, "on plane"); Point h = projection(R, tp(a)); for (int i = 0; i < 3; ++i) MC_CHECK(near(h[i], a[i] - (ld)sd(a) * n[i] / ip(n, n)), "projection"); }
        { std::array<Point, 3> t{tp(x), tp(y), tp(z)}; bool in = sd(a) == 0; I3 e[3] = {x, y, z}; for (int i = 0; i < 3; ++i) in &= ip(n, op(sub(e[(i + 1) % 3], e[i]), sub(a, e[i]))) >= 0; MC_EQ(on_triangle(t, tp(a)), in, "on triangle"); Point g; for (int i = 0; i < 3; ++i) g[i] = (t[0][i] + t[1][i] + 2 * t[2][i]) / 4; MC_CHECK(on_triangle(t, g), "interior point"); for (int i = 0; i < 3; ++i) g[i] = (t[0][i] + t[1][i]) / 2; MC_CHECK(on_triangle(t, g), "edge point"); for (int i = 0; i < 3; ++i) g[i] = 2 * t[0][i] - t[1][i]; MC_CHECK(!on_triangle(t, g), "extension of an edge"); }
        if (!mc::thorough() && x > y) return; I3 b = q(); if (a == b) return; Line L(tp(a), tp(b)); Ray R(tp(a), tp(b)); Segment S(tp(a), tp(b)); int sa = sd(a), sb = sd(b); bool par = sa == sb; ld db = std::abs(sb) / N; MC_EQ(is_parallel(P, L), par, "parallel"); MC_EQ(is_orthogonal(P, L), ip(op(n, sub(b, a)), op(n, sub(b, a))) == 0, "orthogonal"); bool rc = par ? sa == 0 : sa == 0 || (sa > 0) == (sb < sa), scx = (sa <= 0 && sb >= 0) || (sa >= 0 && sb <= 0); MC_CHECK(near(dist(P, L), par ? da : 0), "line distance"); MC_CHECK(near(dist(P, R), rc ? 0 : da), "ray distance"); MC_CHECK(near(dist(P, S), scx ? 0 : std::min(da, db)), "segment distance"); auto cl = cross_point(P, L); auto cr = cross_point(P, R); auto cs = cross_point(P, S); MC_EQ(bool(cl), !par || sa == 0, "line crosses"); MC_EQ(bool(cr), rc, "ray crosses"); MC_EQ(bool(cs), scx, "segment crosses"); if (cl) MC_CHECK(near(dist(P, *cl), 0) && near(dist(L, *cl), 0), "line cross point"); if (cr) MC_CHECK(near(dist(P, *cr), 0) && near(dist(R, *cr), 0), "ray cross point"); if (cs) MC_CHECK(near(dist(P, *cs), 0) && near(dist(S, *cs), 0), "segment cross point"); mc::step(); }); }
MC_GROUP(vector_interface) { mc::bound("3d vector arithmetic, unary operators, products, comparisons and stream round trip for all pairs with coordinates in -1..1; square roots of 0..40 in each precision");
    mc::explore([&](mc::Chooser& c) { I3 a, b; for (auto& x : a) x = c.range(-1, 1); for (auto& x : b) x = c.range(-1, 1); ld k = c.flag() ? 4 : -0.5L; Point p{(ld)a[0], (ld)a[1], (ld)a[2]}, q{(ld)b[0], (ld)b[1], (ld)b[2]}; using namespace suisen::geometry3d; auto is = [](const Point& v, ld x, ld y, ld z) { return std::fabs(v[0] - x) < 1e-12L && std::fabs(v[1] - y) < 1e-12L && std::fabs(v[2] - z) < 1e-12L; };
        MC_CHECK(is(suisen::geometry3d::operator+(p), a[0], a[1], a[2]) && is(suisen::geometry3d::operator-(p), -a[0], -a[1], -a[2]), "unary"); MC_CHECK(is(suisen::geometry3d::operator+(p, q), a[0] + b[0], a[1] + b[1], a[2] + b[2]) && is(suisen::geometry3d::operator-(p, q), a[0] - b[0], a[1] - b[1], a[2] - b[2]), "+ -"); MC_CHECK(is(suisen::geometry3d::operator*(p, k), a[0] * k, a[1] * k, a[2] * k) && is(suisen::geometry3d::operator*(k, p), a[0] * k, a[1] * k, a[2] * k) && is(suisen::geometry3d::operator/(p, k), a[0] / k, a[1] / k, a[2] / k), "scalar"); MC_CHECK(is(suisen::geometry3d::operator*(p, q), a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]), "outer product"); MC_CHECK(std::fabs(inner_product(p, q) - (a[0] * b[0] + a[1] * b[1] + a[2] * b[2])) < 1e-12L, "inner product");
        { Point r = p; suisen::geometry3d::operator*=(r, r); MC_CHECK(is(r, 0, 0, 0), "p*=p"); r = p; suisen::geometry3d::operator+=(r, r); MC_CHECK(is(r, 2 * a[0], 2 * a[1], 2 * a[2]), "p+=p"); } MC_EQ(equals(p, q), a == b, "equals");
        std::stringstream ss; suisen::geometry3d::operator<<(ss, p); MC_CHECK(ss.str() == std::to_string(a[0]) + " " + std::to_string(a[1]) + " " + std::to_string(a[2]), "output"); Point r{}; suisen::geometry3d::operator>>(ss, r); MC_CHECK(is(r, a[0], a[1], a[2]), "input"); mc::step(); });
    for (int i = 0; i <= 40; ++i) { MC_CASE(i); namespace M = suisen::geometry3d::math; MC_CHECK(std::fabs(M::sqrt<ld>(i) * M::sqrt<ld>(i) - i) < 1e-15L * (i + 1), "sqrt long double"); MC_CHECK(std::fabs(M::sqrt<double>(i) - std::sqrt((double)i)) < 1e-14, "sqrt double"); MC_CHECK(std::fabs(M::sqrt<float>(i) - std::sqrt((float)i)) < 1e-5f, "sqrt float"); MC_CHECK(M::sqrt<int>(i) == (int)std::sqrt((double)i + 1e-9), "sqrt int"); mc::step(); } }
MC_MAIN
