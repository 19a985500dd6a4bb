// P35: geometric predicates and constructions
#include "jmh.hpp"
#include <sstream>
#include <iostream>
using jm::Vertex2; using jm::Vertex3;
typedef long double LD;
struct Q3 { LD x, y, z; };
struct Q2 { LD x, y; };
static Q3 operator+(Q3 a, Q3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static Q3 operator-(Q3 a, Q3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static Q3 operator*(LD f, Q3 a) { return {f * a.x, f * a.y, f * a.z}; }
static LD dot(Q3 a, Q3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static Q3 cross(Q3 a, Q3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD len(Q3 a) { return sqrtl(dot(a, a)); }
static Q2 operator+(Q2 a, Q2 b) { return {a.x + b.x, a.y + b.y}; }
static Q2 operator-(Q2 a, Q2 b) { return {a.x - b.x, a.y - b.y}; }
static Q2 operator*(LD f, Q2 a) { return {f * a.x, f * a.y}; }
static LD dot(Q2 a, Q2 b) { return a.x * b.x + a.y * b.y; }
static LD cross(Q2 a, Q2 b) { return a.x * b.y - a.y * b.x; }
static LD len(Q2 a) { return hypotl(a.x, a.y); }
static Q3 R(const Vertex3& v) { return {v.x, v.y, v.z}; }
static Q2 R(const Vertex2& v) { return {v.x, v.y}; }
static std::ostream& operator<<(std::ostream& o, Q3 v) { return o << "(" << (double)v.x << " " << (double)v.y << " " << (double)v.z << ")"; }
static std::ostream& operator<<(std::ostream& o, Q2 v) { return o << "(" << (double)v.x << " " << (double)v.y << ")"; }
template<class T, class U> requires requires(T t) { t.isValid(); } static void near(const T& g, U w, double tol, const char* what) { REQUIRE(g.isValid() && len(R(g) - w) <= tol, << std::setprecision(15) << what << " is " << R(g) << ", expected " << w); }
static void near(double g, LD w, double tol, const char* what) { REQUIRE(std::fabs((double)(g - w)) <= tol, << std::setprecision(15) << what << " is " << g << ", expected " << (double)w); }
template<class T> static void none(const T& g, const char* what) { REQUIRE(!g.isValid(), << what << " is " << R(g) << " though there is none"); }
static double coord(Src& s, int kind) { return kind == 0 ? (double)s.si(-8, 8) : kind == 1 ? s.grid(-20, 20, 4) : s.real(-50, 50); }
static Vertex3 v3(Src& s, int k) { return Vertex3(coord(s, k), coord(s, k), coord(s, k)); }
static Vertex2 v2(Src& s, int k) { return Vertex2(coord(s, k), coord(s, k)); }
static Vertex3 d3(Src& s, int k) { Vertex3 d = v3(s, k); if(s.chance(1, 3)) { if(s.coin()) d.x = 0; else d.z = 0; } if(d.abs() < 0.1) d = Vertex3(0, 0, 1); if(s.chance(1, 5)) d = d.normalized() * s.pick({1.0, 0.1, 0.5}); return d; }
static Vertex2 d2(Src& s, int k) { Vertex2 d = v2(s, k); if(s.chance(1, 3)) { if(s.coin()) d.x = 0; else d.y = 0; } if(d.abs() < 0.1) d = Vertex2(1, 0); if(s.chance(1, 5)) d = d.normalized() * s.pick({1.0, 0.2, 0.5}); return d; }
static const double T = 1e-7;

static void planes(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(2); Vertex3 o = v3(s, k), n = d3(s, k), p = v3(s, k), d = d3(s, k); if(s.chance(1, 4)) p = Vertex3(o.x + n.y, o.y - n.x, o.z); else if(s.chance(1, 4)) p = o + n * coord(s, k); if(s.chance(1, 4)) { Q3 c = cross(R(n), R(d)); d = len(c) > 0.1 ? Vertex3((double)c.x, (double)c.y, (double)c.z) : d; }
	NOTE("plane at " << R(o) << " normal " << R(n) << ", point " << R(p) << " direction " << R(d)); Q3 u = (1 / len(R(n))) * R(n); LD h = dot(R(p) - R(o), u), nd = dot(R(n), R(d)), slope = nd / (len(R(n)) * len(R(d))); double tol = T;
	near(jm::closestPointOnPlane(p, o, n), R(p) - h * u, tol, "closest point on the plane"); near(jm::distancePointToPlane(p, o, n), fabsl(h), tol, "distance to the plane");
	double m = s.pick({0.0, 0.5, 1.0, 7.0}); if(m == 0 ? (fabsl(h) > 1e-4 || fabsl(h) < 1e-9) : fabsl(fabsl(h) - m) > 1e-4) { bool on = fabsl(h) <= m + 1e-6; REQUIRE_EQ(jm::isPointOnPlane(p, o, n, m), on, << "(point within " << m << " of the plane, distance " << (double)fabsl(h) << ")"); if(m == 0) { REQUIRE_EQ(jm::isPointOnPlane(p, o, n), on, << "(point on the plane, distance " << (double)fabsl(h) << ")"); if(on) ctx.label("point on plane"); } }
	if(nd == 0 || fabsl(nd) < 1e-9) { none(jm::intersectionPointLineAndPlane(o, n, p, d, true), "intersection with a parallel plane"); none(jm::intersectionPointLineAndPlane(o, n, p, d, false), "intersection of a segment with a parallel plane"); ctx.label("parallel"); }
	else if(fabsl(slope) > 1e-3 && fabsl(nd) > 1e-4)
	{
		LD t = dot(R(o) - R(p), R(n)) / nd; Q3 x = R(p) + t * R(d); double e = 1e-7 / (double)fabsl(slope); near(jm::intersectionPointLineAndPlane(o, n, p, d, true), x, e, "intersection of line and plane"); Vertex3 g = jm::intersectionPointLineAndPlane(o, n, p, d, false);
		if(t > 1e-4 && t < 1 - 1e-4) near(g, x, e, "intersection of segment and plane"); else if(t < -1e-4 || t > 1 + 1e-4) { if(g.isValid()) near(g, t < 0 ? R(p) : R(p) + R(d), e, "end point closest to the plane"); ctx.label("beside the segment"); }
		ctx.nontrivial();
	}
	none(jm::intersectionPointLineAndPlane(o, Vertex3(0, 0, 0), p, d, true), "intersection with a plane without normal"); none(jm::intersectionPointLineAndPlane(o, n, p, Vertex3(0, 0, 0), true), "intersection with a line without direction");
}
static void pointLine(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(2); Vertex3 a = v3(s, k), d = d3(s, k), b = a + d, p = v3(s, k); if(s.chance(1, 4)) p = a + d * s.pick({0.0, 0.5, 1.0, -1.0, 2.0, 0.25}); NOTE("line from " << R(a) << " to " << R(b) << ", point " << R(p));
	Q3 D = R(b) - R(a); LD t = dot(R(p) - R(a), D) / dot(D, D); Q3 f = R(a) + t * D; LD h = len(R(p) - f); double e = T;
	near(jm::closestPointOnLine(p, a, d), f, e, "closest point on the line"); near(jm::closestPointOnLine(p, a, b, true), f, e, "closest point on the extended segment"); near(jm::distancePointToLine(p, a, d), h, e, "distance to the line"); near(jm::distancePointToLine(p, a, b, true), h, e, "distance to the extended segment");
	LD tc = t < 0 ? 0 : t > 1 ? 1 : t; LD hs = len(R(p) - (R(a) + tc * D)); near(jm::distancePointToLine(p, a, b, false), hs, 2e-4, "distance to the segment"); near(jm::distancePointToLine(p, b, a, false), jm::distancePointToLine(p, a, b, false), 2e-4, "distance to the reversed segment");
	bool clear = fabsl(t) > 1e-4 && fabsl(t - 1) > 1e-4; if(clear) { Vertex3 g = jm::closestPointOnLine(p, a, b, false); if(t > 0 && t < 1) { near(g, f, e, "closest point on the segment"); near(jm::distancePointToLine(p, a, b, false), hs, e, "distance to the segment"); } else { none(g, "closest point inside the segment"); near(jm::distancePointToLine(p, a, b, false), hs, e, "distance to the segment"); ctx.label("beside the segment"); } }
	if(h > 1e-4 || h < 1e-9) { bool on = h < 1e-6; REQUIRE_EQ(jm::isPointOnLine(p, a, d), on, << "(point on the line)"); REQUIRE_EQ(jm::isPointOnLine(p, a, b, true), on, << "(point on the extended segment)"); if(clear || t == 0 || t == 1) REQUIRE_EQ(jm::isPointOnLine(p, a, b, false), on && t >= 0 && t <= 1, << "(point on the segment)"); if(on) ctx.label("point on line"); }
	REQUIRE_EQ(jm::isSamePoint(p, a), len(R(p) - R(a)) < 1e-6, << "(same point)"); REQUIRE(jm::isSamePoint(p, p), << "a point is not the same as itself"); near(jm::distancePointToPoint(p, a), len(R(p) - R(a)), T, "distance of two points"); near(jm::distancePointToPoint(a, p), len(R(p) - R(a)), T, "distance of two points, exchanged");
	Vertex2 q = Vertex2(p), c = Vertex2(a), g = d2(s, k); Q2 G = R(g), F = R(c) + (dot(R(q) - R(c), G) / dot(G, G)) * G; near(jm::closestPointOnLine(q, c, g), F, T, "closest point on the plane line"); near(jm::distancePointToPoint(q, c), len(R(q) - R(c)), T, "distance of two plane points");
	if(h > 1e-3) ctx.nontrivial();
}
static void twoLines(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(2); Vertex3 a = v3(s, k), d = d3(s, k), b = v3(s, k), e = d3(s, k); int mode = (int)s.choice(3); if(mode == 1) { double f = s.pick({1.0, -1.0, 2.0, 0.5}); e = d * f; } else if(mode == 2) { b = a + d * s.pick({0.0, 1.0, -2.0, 0.5}) + e * s.pick({0.0, 1.0, -1.5, 3.0}); }
	NOTE("line at " << R(a) << " along " << R(d) << ", line at " << R(b) << " along " << R(e)); Q3 c = cross(R(d), R(e)); LD sn = len(c) / (len(R(d)) * len(R(e)));
	if(len(c) < 1e-9) { Q3 u = (1 / len(R(d))) * R(d), r = R(b) - R(a); LD h = len(r - dot(r, u) * u); near(jm::distanceLineToLine(a, d, b, e), h, T, "distance of parallel lines"); none(jm::intersectionPoint(a, d, b, e), "intersection of parallel lines"); ctx.label("parallel"); ctx.nontrivial(); return; }
	if(sn < 0.02 || len(c) < 0.05) return; // nearly parallel
	LD h = fabsl(dot(R(b) - R(a), c)) / len(c); double tol = 1e-7 / (double)(sn * sn); near(jm::distanceLineToLine(a, d, b, e), h, tol, "distance of the lines"); near(jm::distanceLineToLine(b, e, a, d), h, tol, "distance of the exchanged lines");
	LD t2 = dot(cross(R(a) - R(b), R(d)), cross(R(e), R(d))) / dot(c, c); Q3 q = R(b) + t2 * R(e); near(jm::closestPointOnLine(a, d, b, e), q, tol * 10, "point on the second line closest to the first");
	if(h > 1e-4) { none(jm::intersectionPoint(a, d, b, e), "intersection of skew lines"); ctx.label("skew"); } else if(h < 1e-10) { near(jm::intersectionPoint(a, d, b, e), q, tol * 10, "intersection"); near(jm::intersectionPoint(b, e, a, d), q, tol * 10, "intersection of the exchanged lines"); ctx.label("intersecting"); } ctx.nontrivial();
}
static void circle3(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(2); Vertex3 c = v3(s, k), n = d3(s, k), p = v3(s, k); double r = s.pick({1.0, 0.5, 3.0, 10.0, 0.01}); int mode = (int)s.choice(3); Q3 u = (1 / len(R(n))) * R(n), ex = fabsl(u.x) < 0.6 ? cross(u, {1, 0, 0}) : cross(u, {0, 1, 0}); ex = (1 / len(ex)) * ex; Q3 ey = cross(u, ex);
	if(mode == 1) p = c + n * s.pick({0.0, 1.0, -2.0, 0.5}); else if(mode == 2) { double t = s.real(-3.2, 3.2), f = s.pick({1.0, 0.5, 2.0}); Q3 q = R(c) + (r * f * cosl(t)) * ex + (r * f * sinl(t)) * ey; p = Vertex3((double)q.x, (double)q.y, (double)q.z); }
	NOTE("circle at " << R(c) << " radius " << r << " normal " << R(n) << ", point " << R(p)); Q3 w = R(p) - R(c); LD up = dot(w, u); Q3 flat = w - up * u; LD f = len(flat); LD h = hypotl(up, f - r);
	Vertex3 g = jm::closestPointOnCircle(p, c, r, n); near(jm::distancePointToCircle(p, c, r, n), h, T, "distance to the circle"); REQUIRE(g.isValid(), << "no closest point on the circle"); near((double)len(R(g) - R(c)), r, T, "distance of the closest point to the centre"); near((double)dot(R(g) - R(c), u), 0, T, "height of the closest point over the plane of the circle"); near((double)len(R(g) - R(p)), h, T, "distance of the closest point"); if(f > 1e-3) near(g, R(c) + (r / f) * flat, T / (double)std::min((LD)1, f), "closest point on the circle"); else ctx.label("axis");
	if(h > 1e-4 || h < 1e-9) REQUIRE_EQ(jm::isPointOnCircle(p, c, r, n), h < 1e-6, << "(point on the circle)"); none(jm::closestPointOnCircle(p, c, 0, n), "closest point on a circle without radius"); ctx.nontrivial();
}
static void circles2(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(2); Vertex2 a = v2(s, k), b = v2(s, k); double r = s.pick({1.0, 2.0, 5.0, 3.5, 0.1, 13.0}), q = s.pick({1.0, 2.0, 5.0, 4.25, 0.3, 12.0}); int mode = (int)s.choice(3); if(mode == 1) { double dx = s.pick({3.0, 4.0, 0.6, 5.0, 8.0}), dy = s.pick({4.0, 3.0, 0.8, 12.0, 15.0}); b = Vertex2(a.x + dx, a.y + dy); double d = std::sqrt((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y)); if(s.coin()) { r = d * s.pick({0.5, 0.25, 0.2, 0.75, 0.1}); q = d - r; } else { q = d * s.pick({0.5, 1.0, 0.3}); r = d + q; } if(s.coin()) std::swap(r, q); } else if(mode == 2 && s.coin()) b = a;
	NOTE("circles at " << R(a) << " radius " << r << " and " << R(b) << " radius " << q); double d = std::sqrt((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y)); Vertex2 x(7, 7), y(7, 7); jm::intersectionPointsOfCircles(a, r, b, q, x, y); double gap = std::max(d - (r + q), std::fabs(r - q) - d);
	if(d == 0 || gap > 1e-6) { none(x, "first intersection"); none(y, "second intersection"); ctx.label("apart"); return; }
	if(gap > 0) return; // touching but for rounding
	double tol = gap > -1e-9 ? 1e-6 : 1e-7; for(const Vertex2& z : {x, y}) { REQUIRE(z.isValid(), << "no intersection of circles with a distance of " << std::setprecision(17) << d); near((double)len(R(z) - R(a)), r, tol, "distance to the first centre"); near((double)len(R(z) - R(b)), q, tol, "distance to the second centre"); }
	if(gap < -1e-6) { LD A = (r * r - q * q + (LD)d * d) / (2 * d), H = sqrtl(r * r - A * A); near((double)len(R(x) - R(y)), 2 * H, 1e-6, "distance of the two intersections"); ctx.label("two points"); Vertex2 x2, y2; jm::intersectionPointsOfCircles(b, q, a, r, x2, y2); REQUIRE((len(R(x) - R(x2)) < 1e-6 && len(R(y) - R(y2)) < 1e-6) || (len(R(x) - R(y2)) < 1e-6 && len(R(y) - R(x2)) < 1e-6), << "other intersections for exchanged circles"); } else ctx.label("touching"); ctx.nontrivial();
}
static void lines2(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(2); Vertex2 a = v2(s, k), d = d2(s, k), b = v2(s, k), e = d2(s, k); int mode = (int)s.choice(3); if(mode == 1) e = d * s.pick({1.0, -1.0, 2.0, 0.5}); else if(mode == 2) { b = a + d * s.pick({0.0, 0.5, 1.0, 2.0, -1.0}); if(s.coin()) b = b - e * s.pick({0.5, 1.0, 0.25}); } if(mode == 1 && s.coin()) b = a + d * s.pick({0.5, 1.0, 3.0});
	Vertex2 a2 = a + d, b2 = b + e; NOTE("line " << R(a) << "-" << R(a2) << ", line " << R(b) << "-" << R(b2)); Q2 D = R(a2) - R(a), E = R(b2) - R(b); LD c = cross(D, E);
	if(fabsl(c) < 1e-9) { none(jm::intersectionPoint(a, d, b, e), "intersection of parallel lines"); REQUIRE(!jm::crosses(a, a2, b, b2), << "parallel lines cross"); none(jm::extensionPointOnLine(a, d, b, b2), "extension to a parallel line"); ctx.label("parallel"); ctx.nontrivial(); return; }
	if(fabsl(c) < 1e-2) return; LD t = cross(R(b) - R(a), E) / c, u = cross(R(b) - R(a), D) / c; Q2 x = R(a) + t * D; double tol = 1e-7 * (1 + 1 / (double)fabsl(c)) * 10;
	near(jm::intersectionPoint(a, d, b, e), x, tol, "intersection"); near(jm::intersectionPoint(b, e, a, d), x, tol, "intersection of the exchanged lines");
	auto in = [](LD v) { return v > 1e-4 && v < 1 - 1e-4; }; auto out = [](LD v) { return v < -1e-4 || v > 1 + 1e-4; };
	if(in(t) && in(u)) { for(int i = 0; i < 8; i++) { Vertex2 p = i & 1 ? a : a2, p2 = i & 1 ? a2 : a, q = i & 2 ? b : b2, q2 = i & 2 ? b2 : b; REQUIRE(i & 4 ? jm::crosses(p, p2, q, q2) : jm::crosses(q, q2, p, p2), << "crossing lines do not cross (order " << i << ")"); } ctx.label("cross"); }
	else if(out(t) || out(u)) { for(int i = 0; i < 8; i++) { Vertex2 p = i & 1 ? a : a2, p2 = i & 1 ? a2 : a, q = i & 2 ? b : b2, q2 = i & 2 ? b2 : b; REQUIRE(!(i & 4 ? jm::crosses(p, p2, q, q2) : jm::crosses(q, q2, p, p2)), << "lines cross that do not (order " << i << ")"); } }
	// ray from a along d against the segment b-b2, including its end points
	Vertex2 g = jm::extensionPointOnLine(a, d, b, b2), g2 = jm::extensionPointOnLine(a, d, b2, b); bool ahead = t * len(D) > 1e-4, behind = t * len(D) < 1e-9, hits = in(u) || fabsl(u) < 1e-9 || fabsl(u - 1) < 1e-9;
	if(ahead && hits) { near(g, x, tol, "extension point"); near(g2, x, tol, "extension point on the reversed line"); ctx.label("extension"); } else if(behind || out(u)) { none(g, "extension point"); none(g2, "extension point on the reversed line"); } ctx.nontrivial();
}
static LD turn(LD a) { a = fmodl(a, 2 * M_PIl); return a < 0 ? a + 2 * M_PIl : a; }
// 1 inside, 0 outside, -1 too close to call; an arc whose ends coincide is the full circle
static int inArc(LD a, double start, double end) { LD len = turn((LD)end - start), off = turn(a - start); if(len < 1e-4 || len > 2 * M_PIl - 1e-4) return 1; LD g = 1e-4; if(off > 2 * M_PIl - g || off < g || fabsl(off - len) < g) return -1; return off < len; }
static double arcAngle(Src& s) { return s.coin() ? M_PI / 180 * (double)s.si(-720, 720) : s.real(-7, 7); }
static void rays(Src& s, Ctx& ctx, bool ellipse)
{
	int k = (int)s.choice(2); Vertex2 c = v2(s, k); double r = s.pick({1.0, 2.0, 5.0, 10.0, 0.5}), ratio = 1, rotA = 0; Vertex2 main(r, 0); if(ellipse) { ratio = s.pick({0.5, 1.0, 0.25, 0.8, 0.9}); rotA = arcAngle(s); main.rotate(rotA); }
	double start = arcAngle(s), end = arcAngle(s); if(s.chance(1, 4)) { start = 0; end = 2 * M_PI; } else if(s.chance(1, 6)) end = start + 2 * M_PI; if(ellipse) { start = M_PI / 2 * (double)s.si(-8, 8); end = M_PI / 2 * (double)s.si(-8, 8); }
	Vertex2 o, d; int mode = (int)s.choice(3); double t = s.real(-3.2, 3.2), f = s.pick({1.0, 0.0, 0.5, 1.5, 3.0, 0.9}); Vertex2 rim((double)(r * cosl(t)), (double)(r * ratio * sinl(t))); rim.rotate(rotA); o = c + rim * f; d = d2(s, k); if(mode == 1) { Vertex2 aim((double)(r * cosl(t * 2)), (double)(r * ratio * sinl(t * 2))); aim.rotate(rotA); d = c + aim - o; if(s.chance(1, 6)) d = -1.0 * d; if(d.abs() < 0.1) d = Vertex2(1, 0); } else if(mode == 2) o = v2(s, k);
	if(d.abs() > 10) d = d.normalized() * 10.0;
	NOTE((ellipse ? "ellipse at " : "arc at ") << R(c) << " axis " << R(main) << " ratio " << ratio << " from " << start << " to " << end << ", ray from " << R(o) << " along " << R(d));
	// in the system of the ellipse, scaled to the unit circle
	LD ca = 1, sa = 0; if(ellipse) { ca = main.x / len(R(main)); sa = main.y / len(R(main)); } LD ra = ellipse ? len(R(main)) : r, rb = ra * ratio; auto loc = [&](Q2 v) { return Q2{(ca * v.x + sa * v.y) / ra, (-sa * v.x + ca * v.y) / rb}; };
	Q2 O = loc(R(o) - R(c)), D = loc(R(d)); LD A = dot(D, D), B = dot(O, D), C = dot(O, O) - 1, disc = B * B - A * C; Vertex2 g = ellipse ? jm::extensionPointOnEllipse(o, d, c, main, ratio, start, end) : jm::extensionPointOnArc(o, d, c, r, start, end); LD rel = disc / (A * A);
	if(rel < -1e-4) { none(g, "extension point of a ray beside the arc"); ctx.label("beside"); return; } if(rel < 1e-4) return; // tangent
	LD sq = sqrtl(disc), t1 = (-B - sq) / A, t2 = (-B + sq) / A; const Vertex2* found = nullptr; double tol = 1e-6 * (1 + 1 / std::sqrt((double)rel));
	for(LD x : {t1, t2}) { if(fabsl(x) < 1e-4) { if(fabsl(x) < 1e-9) { ctx.label("origin on the arc"); continue; } return; } if(x < 0) continue; Q2 at = O + x * D; int in = inArc(atan2l(at.y, at.x), start, end); if(in < 0) return; if(in) { near(g, R(o) + x * R(d), tol, "extension point"); found = &g; break; } }
	if(!found) { none(g, "extension point"); ctx.label("none"); } else { ctx.label(t1 > 0 ? "hit from outside" : "hit from inside"); ctx.nontrivial(); }
}
static void constructions(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(2); Vertex2 a = v2(s, k), b = v2(s, k), c = v2(s, k); if(s.chance(1, 4)) c = a + (b - a) * s.pick({0.0, 1.0, 2.0, -1.0, 0.5}); NOTE("points " << R(a) << R(b) << R(c)); LD area = cross(R(b) - R(a), R(c) - R(a)); Vertex2 m(1, 2); double r = 3; jm::Status st = jm::circleParameterBy3Points(m, r, a, b, c); LD size = std::max(len(R(b) - R(a)), std::max(len(R(c) - R(a)), len(R(c) - R(b))));
	if(area == 0 && k < 2) { REQUIRE(st != jm::Status::eOK, << "circle through points on a straight line"); ctx.label("collinear"); } else if(fabsl(area) > 1e-2 * size && size > 0.1) { REQUIRE(st == jm::Status::eOK, << "no circle through three points"); double tol = 1e-6 * (double)(1 + r * r); for(const Vertex2& p : {a, b, c}) near((double)len(R(p) - R(m)), r, tol / 1e2, "distance of a point to the centre of its circle"); ctx.nontrivial(); }
	// tangents: the centre is at distance r from both and inside the quadrant of the points
	Vertex2 x = v2(s, k), d = d2(s, k), e = d2(s, k); LD sn = cross(R(d), R(e)) / (len(R(d)) * len(R(e))); double t = s.pick({1.0, -1.0, 2.0, 0.5, 0.0, -3.0}), u = s.pick({1.0, -1.0, 2.0, 0.25, 0.0, -3.0}), rad = s.pick({1.0, 2.0, 0.5, 10.0}); Vertex2 p = x + d * t, q = x + e * u, z(5, 5); NOTE(" tangents at " << R(p) << " along " << R(d) << ", at " << R(q) << " along " << R(e) << " radius " << rad); st = jm::circleParameterBy2TangentsRadius(z, rad, p, d, q, e);
	if(fabsl(cross(R(d), R(e))) < 1e-9) REQUIRE(st != jm::Status::eOK, << "circle with two parallel tangents"); else if(fabsl(sn) > 0.05 && fabsl(cross(R(d), R(e))) > 1e-2) { REQUIRE(st == jm::Status::eOK, << "no circle for two tangents"); LD sd = t == 0 ? 1 : t > 0 ? 1 : -1, se = u == 0 ? 1 : u > 0 ? 1 : -1; Q2 D = (sd / len(R(d))) * R(d), E = (se / len(R(e))) * R(e); LD half = atan2l(fabsl(cross(D, E)), dot(D, E)) / 2; Q2 h = D + E; h = (1 / len(h)) * h; near(z, R(x) + (rad / sinl(half)) * h, 1e-4, "centre of the circle between two tangents"); ctx.label("tangents"); }
	// bisectors
	if(fabsl(sn) > 1e-3) { Vertex2 g = jm::angleBisector(d, e); Q2 D = (1 / len(R(d))) * R(d), E = (1 / len(R(e))) * R(e), G = (1 / len(R(g))) * R(g); REQUIRE(g.isValid() && len(R(g)) > 0, << "no bisector"); near((double)dot(G, D), dot(G, E), 1e-9 / (double)fabsl(sn), "cosine towards both sides of the bisector"); REQUIRE(dot(G, D) > 0 && cross(D, G) * cross(G, E) > 0, << "the bisector is not between the directions"); Vertex3 d3v(d.x, d.y, coord(s, k)), e3v(e.x, e.y, coord(s, k)), g3 = jm::angleBisector(d3v, e3v); Q3 D3 = (1 / len(R(d3v))) * R(d3v), E3 = (1 / len(R(e3v))) * R(e3v), G3 = (1 / len(R(g3))) * R(g3); if(len(cross(D3, E3)) > 1e-3) { near((double)dot(G3, D3), dot(G3, E3), 1e-6, "cosine towards both sides of the bisector in space"); near((double)dot(cross(D3, E3), G3), 0, 1e-6, "height of the bisector over the plane of the sides"); REQUIRE(dot(G3, D3) > 0, << "the bisector points backwards"); } }
}
static void run(Src& s, Ctx& ctx)
{
	switch(s.weighted({3, 3, 3, 2, 2, 4, 4, 3, 3})) { case 0: planes(s, ctx); break; case 1: pointLine(s, ctx); break; case 2: twoLines(s, ctx); break; case 3: circle3(s, ctx); break; case 4: circles2(s, ctx); break; case 5: lines2(s, ctx); break; case 6: rays(s, ctx, false); break; case 7: rays(s, ctx, true); break; default: constructions(s, ctx); }
}
const Def& pbt::definition()
{
	static Def d{"P35", "the case has a definite answer: the objects intersect, are parallel by construction, or the point is off the object", 3000000, 200000000, jmInit, run};
	d.assumptions = {"coordinates within about 50, directions between 0.1 and 150 long; between exact coincidence and a guard band around each decision (1e-4, tangents, segment ends, nearly parallel lines) no answer is demanded", "start and end angle of elliptical arcs, relative to the main axis, are multiples of a quarter turn, where ellipse parameter and direction coincide", "points where segments end are neither demanded nor forbidden as crossings", "intersectionPointLineAndPlane without extension may give no point or the end point (its two descriptions differ)"};
	return d;
}
