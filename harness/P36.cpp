// P36: rectangles, points, sizes and extents against plain interval arithmetic
#include "jmh.hpp"
#include <sstream>
#include <iostream>
using jm::Rect; using jm::Point; using jm::Size; using jm::Extents; using jm::Vertex2; using jm::Vertex3;
struct M { double x, y, w, h; bool has(double px, double py) const { return px >= x && px <= x + w && py >= y && py <= y + h; } bool neg() const { return w < 0 || h < 0; } };
static std::ostream& operator<<(std::ostream& o, const M& m) { return o << "<" << m.x << " " << m.y << " " << m.w << " " << m.h << ">"; }
static void same(const Point& p, double x, double y, const char* what) { REQUIRE(p.x() == x && p.y() == y, << what << " is (" << p.x() << " " << p.y() << "), expected (" << x << " " << y << ")"); }
static void same(const Rect& r, const M& m, const char* what)
{
	REQUIRE(r.x() == m.x && r.y() == m.y && r.width() == m.w && r.height() == m.h, << what << " gives <" << r.x() << " " << r.y() << " " << r.width() << " " << r.height() << ">, expected " << m);
	double R = m.x + m.w, B = m.y + m.h, cx = m.x + m.w / 2, cy = m.y + m.h / 2; REQUIRE(r.left() == m.x && r.top() == m.y && r.right() == R && r.bottom() == B, << what << ": edges " << r.left() << " " << r.top() << " " << r.right() << " " << r.bottom() << " of " << m);
	same(r.origin(), m.x, m.y, "origin"); same(r.topLeft(), m.x, m.y, "topLeft"); same(r.topRight(), R, m.y, "topRight"); same(r.bottomLeft(), m.x, B, "bottomLeft"); same(r.bottomRight(), R, B, "bottomRight"); same(r.center(), cx, cy, "center"); same(r.topCenter(), cx, m.y, "topCenter"); same(r.bottomCenter(), cx, B, "bottomCenter"); same(r.leftCenter(), m.x, cy, "leftCenter"); same(r.rightCenter(), R, cy, "rightCenter");
	REQUIRE(r.size().width() == m.w && r.size().height() == m.h, << what << ": size"); REQUIRE_EQ(r.isEmpty(), m.w == 0 || m.h == 0, << "(empty " << m << ")");
}
static double num(Src& s, int k) { return k == 0 ? (double)s.si(-4, 4) : s.grid(-40, 40, 8); }
static double ext(Src& s, int k, bool neg) { double d = k == 0 ? (double)s.i(0, 5) : s.grid(0, 40, 8); return neg && s.chance(1, 3) ? -d : d; }
static Rect make(Src& s, M& m, int k, bool neg) { m = {num(s, k), num(s, k), ext(s, k, neg), ext(s, k, neg)}; switch(s.choice(3)) { case 0: return Rect(m.x, m.y, m.w, m.h); case 1: return Rect(Point(m.x, m.y), Size(m.w, m.h)); case 2: return Rect(m.x, m.y, Size(m.w, m.h)); default: { Rect r; same(r, M{0, 0, 0, 0}, "a new rectangle"); r.setX(m.x); r.setHeight(m.h); r.setY(m.y); r.setWidth(m.w); return r; } } }
static void pair(Src& s, Ctx& ctx, const Rect& a, const M& m, int k)
{
	M n; Rect b = make(s, n, k, false); if(m.neg()) return; NOTE(" other " << n); bool meet = false; std::vector<double> xs{m.x, m.x + m.w, n.x, n.x + n.w}, ys{m.y, m.y + m.h, n.y, n.y + n.h}; for(double x : xs) for(double y : ys) if(m.has(x, y) && n.has(x, y)) meet = true; // if two boxes meet, a corner of the intersection is in both
	REQUIRE_EQ(a.intersects(b), meet, << "(intersects " << m << " and " << n << ")"); REQUIRE_EQ(b.intersects(a), meet, << "(intersects, exchanged)"); if(meet) ctx.label("meet"); else ctx.label("apart");
	Rect i = a.intersection(b), j = b.intersection(a), e = a; e.intersect(b); M w{std::max(m.x, n.x), std::max(m.y, n.y), 0, 0}; w.w = std::min(m.x + m.w, n.x + n.w) - w.x; w.h = std::min(m.y + m.h, n.y + n.h) - w.y; if(meet) { same(i, w, "intersection"); same(j, w, "intersection of the exchanged rectangles"); same(e, w, "intersect"); } else REQUIRE(i.isEmpty() && j.isEmpty(), << "the intersection of separate rectangles is not empty");
	Rect u = a, v = b; u.unionWith(b); v.unionWith(a); M un{std::min(m.x, n.x), std::min(m.y, n.y), 0, 0}; un.w = std::max(m.x + m.w, n.x + n.w) - un.x; un.h = std::max(m.y + m.h, n.y + n.h) - un.y; same(u, un, "union"); same(v, un, "union of the exchanged rectangles");
	for(int t = 0; t < 6; t++) { double x = t < 4 ? xs[s.choice(3)] + s.pick({0.0, 0.125, -0.125}) : num(s, k), y = t < 4 ? ys[s.choice(3)] + s.pick({0.0, 0.125, -0.125}) : num(s, k); bool in = m.has(x, y), in2 = n.has(x, y); REQUIRE_EQ(a.contains(x, y), in, << "(" << m << " contains " << x << " " << y << ")"); REQUIRE_EQ(a.contains(Point(x, y)), in, << "(contains a Point)"); REQUIRE_EQ(a.contains(Vertex2(x, y)), in, << "(contains a Vertex2)"); if(meet) REQUIRE_EQ(i.contains(x, y), in && in2, << "(the intersection contains " << x << " " << y << ")"); else REQUIRE(!e.contains(x, y), << "a point is in the intersection of separate rectangles"); if(in || in2) REQUIRE(u.contains(x, y), << "the union lacks a point"); }
	same(a, m, "asking"); same(b, n, "asking (other)");
}
static void rects(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(1); M m; Rect r = make(s, m, k, true); NOTE("rect " << m); same(r, m, "construction"); int n = (int)s.i(0, 12);
	for(int i = 0; i < n; i++)
	{
		double a = num(s, k), b = num(s, k); const char* what = ""; auto shL = [&](double d) { m.x += d; m.w -= d; }; auto shT = [&](double d) { m.y += d; m.h -= d; };
		switch(s.choice(24))
		{
			case 0: what = "setX"; r.setX(a); m.x = a; break; case 1: what = "setY"; r.setY(a); m.y = a; break; case 2: what = "setWidth"; r.setWidth(a); m.w = a; break; case 3: what = "setHeight"; r.setHeight(a); m.h = a; break;
			case 4: what = "setSize"; if(s.coin()) r.setSize(Size(a, b)); else r.setSize(a, b); m.w = a; m.h = b; break; case 5: what = "setOrigin"; if(s.coin()) r.setOrigin(Point(a, b)); else r.setOrigin(a, b); m.x = a; m.y = b; break;
			case 6: what = "moveLeft"; r.moveLeft(a); shL(a); break; case 7: what = "moveRight"; r.moveRight(a); m.w += a; break; case 8: what = "moveBottom"; r.moveBottom(a); m.h += a; break;
			case 9: what = "setTop"; r.setTop(a); shT(a - m.y); break; case 10: what = "setBottom"; r.setBottom(a); m.h = a - m.y; break; case 11: what = "setLeft"; r.setLeft(a); shL(a - m.x); break; case 12: what = "setRight"; r.setRight(a); m.w = a - m.x; break;
			case 13: what = "moveHorizontal"; r.moveHorizontal(a); m.x += a; break; case 14: what = "moveVertical"; r.moveVertical(a); m.y += a; break; case 15: what = "move"; r.move(Point(a, b)); m.x += a; m.y += b; break;
			case 16: { what = "alignTopLeft"; M o; Rect q = make(s, o, k, false); r.alignTopLeft(q); m.x = o.x; m.y = o.y; break; } case 17: { what = "alignBottomLeft"; M o; Rect q = make(s, o, k, false); r.alignBottomLeft(q); m.x = o.x; m.y = o.y + o.h - m.h; break; }
			case 18: what = "shiftTop"; r.shiftTop(a); shT(a); break; case 19: what = "shiftLeft"; r.shiftLeft(a); shL(a); break; case 20: what = "shiftRight"; r.shiftRight(a); m.w += a; break; case 21: what = "shiftBottom"; r.shiftBottom(a); m.h += a; break;
			case 22: what = "normalize"; r.normalize(); if(m.w < 0) { m.x += m.w; m.w = -m.w; } if(m.h < 0) { m.y += m.h; m.h = -m.h; } break;
			case 23: { M o; Rect q = make(s, o, k, false); if(m.neg()) continue; what = "unionWith"; r.unionWith(q); double R = std::max(m.x + m.w, o.x + o.w), B = std::max(m.y + m.h, o.y + o.h); m.x = std::min(m.x, o.x); m.y = std::min(m.y, o.y); m.w = R - m.x; m.h = B - m.y; NOTE(" with " << o); break; }
			default: { M o; Rect q = make(s, o, k, false); if(m.neg() || !r.intersects(q)) continue; what = "intersect"; r.intersect(q); double R = std::min(m.x + m.w, o.x + o.w), B = std::min(m.y + m.h, o.y + o.h); m.x = std::max(m.x, o.x); m.y = std::max(m.y, o.y); m.w = R - m.x; m.h = B - m.y; NOTE(" with " << o); }
		}
		NOTE(" " << what << "(" << a << "," << b << ")"); same(r, m, what); ctx.label(what);
	}
	if(s.coin() && m.neg()) { r.normalize(); if(m.w < 0) { m.x += m.w; m.w = -m.w; } if(m.h < 0) { m.y += m.h; m.h = -m.h; } same(r, m, "normalize"); } pair(s, ctx, r, m, k); if(n > 0) ctx.nontrivial();
}
static void pointsAndSizes(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(1); double a = num(s, k), b = num(s, k), c = num(s, k), d = num(s, k), f = s.pick({2.0, -1.0, 0.5, 0.0}); NOTE("(" << a << " " << b << ") (" << c << " " << d << ") f=" << f); Point p(a, b), q(c, d), t; same(t, 0, 0, "a new point"); same(p + q, a + c, b + d, "sum"); same(p - q, a - c, b - d, "difference"); same(f * p, f * a, f * b, "multiple"); same(p * f, f * a, f * b, "multiple");
	t = p; t += q; same(t, a + c, b + d, "+="); t = p; t -= q; same(t, a - c, b - d, "-="); same(p.cWiseMin(q), std::min(a, c), std::min(b, d), "cWiseMin"); same(p.cWiseMax(q), std::max(a, c), std::max(b, d), "cWiseMax"); t.setX(d); t.setY(a); same(t, d, a, "setters"); t.rX() += 1; t.rY() -= 2; same(t, d + 1, a - 2, "references");
	Size z(a, b), y(c, d), x(p), o; auto is = [](const Size& v, double w, double h, const char* what) { REQUIRE(v.width() == w && v.height() == h, << what << " is " << v.width() << "x" << v.height() << ", expected " << w << "x" << h); }; is(o, 0, 0, "a new size"); is(x, a, b, "size of a point"); is(z - y, a - c, b - d, "difference"); is(f * z, f * a, f * b, "multiple"); is(z.cWiseMin(y), std::min(a, c), std::min(b, d), "cWiseMin of sizes"); is(z.cWiseMax(y), std::max(a, c), std::max(b, d), "cWiseMax of sizes"); REQUIRE_EQ(z == y, a == c && b == d, << "(equal sizes)"); REQUIRE_EQ(z != y, !(a == c && b == d), << "(different sizes)"); o.setWidth(b); o.setHeight(c); is(o, b, c, "setters of a size"); o.rWidth() += 1; o.rHeight() += 2; is(o, b + 1, c + 2, "references of a size"); ctx.nontrivial();
}
static void extents(Src& s, Ctx& ctx)
{
	struct E { double lo[3] = {1e90, 1e90, 1e90}, hi[3] = {-1e90, -1e90, -1e90}; bool any = false, z = false; }; Extents e[3]; E m[3]; int n = (int)s.i(0, 14), k = (int)s.choice(1), unions = 0; bool flat = s.chance(1, 3);
	auto check = [&](int i, const char* what) { REQUIRE_EQ(e[i].isValid(), m[i].any, << "(" << what << ": valid)"); if(!m[i].any) return; const Vertex3& lo = e[i].minPoint(); const Vertex3& hi = e[i].maxPoint(); Vertex3 d = e[i].delta(); double L[3] = {lo.x, lo.y, lo.z}, H[3] = {hi.x, hi.y, hi.z}, D[3] = {d.x, d.y, d.z}; for(int c = 0; c < (m[i].z ? 3 : 2); c++) REQUIRE(L[c] == m[i].lo[c] && H[c] == m[i].hi[c] && D[c] == H[c] - L[c], << what << ": extents " << i << " range from " << L[c] << " to " << H[c] << " in direction " << c << " with a width of " << D[c] << ", expected " << m[i].lo[c] << " to " << m[i].hi[c]); };
	auto add = [&](int i, int c, double v) { m[i].lo[c] = std::min(m[i].lo[c], v); m[i].hi[c] = std::max(m[i].hi[c], v); };
	for(int t = 0; t < n; t++)
	{
		int i = (int)s.choice(2), j = (int)s.choice(2); double x = num(s, k), y = num(s, k), z = num(s, k); if(s.chance(1, 20)) x *= 1e12;
		switch(s.choice(flat ? 2 : 4))
		{
			case 0: case 1: NOTE("e" << i << "+(" << x << " " << y << ") "); e[i].add(Vertex2(x, y)); add(i, 0, x); add(i, 1, y); m[i].any = true; break;
			case 2: NOTE("e" << i << "+e" << j << " "); e[i].add(e[j]); unions++; if(m[j].any) { E o = m[j]; for(int c = 0; c < (o.z ? 3 : 2); c++) { add(i, c, o.lo[c]); add(i, c, o.hi[c]); } m[i].any = true; m[i].z |= o.z; } check(j, "added extents"); break;
			default: NOTE("e" << i << "+(" << x << " " << y << " " << z << ") "); e[i].add(Vertex3(x, y, z)); add(i, 0, x); add(i, 1, y); add(i, 2, z); m[i].any = m[i].z = true;
		}
		check(i, "adding");
	}
	for(int i = 0; i < 3; i++) check(i, "afterwards"); if(unions && n > 2) ctx.nontrivial();
}
static void run(Src& s, Ctx& ctx) { switch(s.weighted({5, 1, 3})) { case 0: rects(s, ctx); break; case 1: pointsAndSizes(s, ctx); break; default: extents(s, ctx); } }
const Def& pbt::definition()
{
	static Def d{"P36", "the case changes a rectangle, or unites extents after several additions, or combines points and sizes", 4000000, 300000000, jmInit, run};
	d.assumptions = {"coordinates are multiples of 1/8 within 40 (and 4e13 for extents), so that arithmetic is exact", "intersections and unions are asked for rectangles without negative width or height; the z range of extents is only asked for if a 3d point is contained"};
	return d;
}
