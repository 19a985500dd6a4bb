// P37: NURBS curves against de Boor's algorithm in homogeneous coordinates
#include "jmh.hpp"
#include <sstream>
#include <iostream>
using jm::Nurbs; using jm::Vertex3;
typedef long double LD;
struct H { LD x, y, z, w; };
static H mix(H a, H b, LD f) { return {a.x + f * (b.x - a.x), a.y + f * (b.y - a.y), a.z + f * (b.z - a.z), a.w + f * (b.w - a.w)}; }
static H deBoor(int p, const std::vector<Vertex3>& c, const std::vector<double>& k, const std::vector<double>& w, LD t)
{
	size_t n = c.size(), s = (size_t)p; while(s + 1 < n && t >= k[s + 1]) s++; std::vector<H> d; for(int j = 0; j <= p; j++) { size_t i = s - (size_t)p + (size_t)j; d.push_back({w[i] * c[i].x, w[i] * c[i].y, w[i] * c[i].z, w[i]}); }
	for(int r = 1; r <= p; r++) for(int j = p; j >= r; j--) { size_t i = s - (size_t)p + (size_t)j; LD lo = k[i], hi = k[i + 1 + (size_t)(p - r)]; d[(size_t)j] = mix(d[(size_t)j - 1], d[(size_t)j], hi > lo ? (t - lo) / (hi - lo) : 0); }
	H e = d[(size_t)p]; e.x /= e.w; e.y /= e.w; e.z /= e.w; return e;
}
static double coord(Src& s) { return s.coin() ? (double)s.si(-10, 10) : s.grid(-100, 100, 8); }
static void run(Src& s, Ctx& ctx)
{
	int p = (int)s.i(1, 5); size_t n = (size_t)s.i(p + 1, p + 7); if(s.choice(3999) == 2345) { p = (int)s.i(1, 2); n = (size_t)s.i(35, 80); ctx.label("many control points"); } std::vector<Vertex3> c; bool rational = s.chance(2, 3); std::vector<double> w, k; double zs = s.coin();
	for(size_t i = 0; i < n; i++) { c.push_back(Vertex3(coord(s), coord(s), zs * coord(s))); w.push_back(rational ? s.pick({1.0, 2.0, 0.5, 0.125, 5.0, 0.70710678118654752}) : 1.0); if(i > 0 && s.chance(1, 10)) c[i] = c[i - 1]; }
	for(int i = 0; i <= p; i++) k.push_back(0); double at = 0, unit = s.pick({1.0, 0.25, 0.03125, 10.0}); int mult = 0; size_t inner = n - (size_t)p - 1;
	for(size_t i = 0; i < inner; i++) { if(i == 0 || mult >= p || !s.chance(1, 3)) { at += unit * (double)s.i(1, 4); mult = 0; } mult++; k.push_back(at); } at += unit * (double)s.i(1, 4); for(int i = 0; i <= p; i++) k.push_back(at);
	std::ostringstream o; for(size_t i = 0; i < n; i++) o << " (" << c[i].x << " " << c[i].y << " " << c[i].z << ")*" << w[i]; o << " knots"; for(double d : k) o << " " << d; NOTE("degree " << p << o.str());
	std::vector<Vertex3> cc = c; std::vector<double> kk = k, ww = w; Nurbs* curve = new Nurbs((uint32)p, cc.data(), (uint32)n, kk.data(), (uint32)kk.size(), ww.data(), (uint32)ww.size()); struct Rel { Nurbs* n; ~Rel() { n->release(); } } rel{curve};
	switch(s.choice(5)) // a copy is a curve of its own
	{
		case 1: { Nurbs* c = new Nurbs(*curve); curve->release(); curve = c; rel.n = c; ctx.label("copied"); break; }
		case 2: { Vertex3 v[2]; double kn[4] = {0, 0, 1, 1}, wt[2] = {1, 1}; Nurbs* c = s.coin() ? new Nurbs() : new Nurbs(1, v, 2, kn, 4, wt, 2); *c = *curve; if(s.coin()) { Nurbs& self = *c; *c = self; } curve->release(); curve = c; rel.n = c; ctx.label("copied"); break; }
		default: break;
	}
	for(auto& v : cc) v = Vertex3(NAN, NAN, NAN); for(double& d : kk) d = NAN; for(double& d : ww) d = NAN; // the curve owns copies
	REQUIRE_EQ((size_t)curve->controlPointCount(), n, << "(control points)"); REQUIRE_EQ((size_t)curve->knotCount(), k.size(), << "(knots)"); for(size_t i = 0; i < k.size(); i++) REQUIRE_EQ(curve->knot((uint32)i), k[i], << "(knot " << i << ")"); REQUIRE_EQ(curve->start(), 0.0, << "(start)"); REQUIRE_EQ(curve->end(), at, << "(end)");
	double dx = s.real(-1, 1), dy = s.real(-1, 1), dz = s.real(-1, 1), size = 1; for(auto& v : c) size = std::max(size, v.abs());
	auto check = [&](double t) { Vertex3 g = curve->point(t); H e = deBoor(p, c, k, w, t); REQUIRE(g.isValid() && std::fabs((double)(g.x - e.x)) + std::fabs((double)(g.y - e.y)) + std::fabs((double)(g.z - e.z)) <= 1e-9 * size, << std::setprecision(15) << "point at " << t << " of " << at << " is (" << g.x << " " << g.y << " " << g.z << "), expected (" << (double)e.x << " " << (double)e.y << " " << (double)e.z << ")");
		double lo = 1e300, hi = -1e300, v = g.x * dx + g.y * dy + g.z * dz; for(auto& q : c) { double d = q.x * dx + q.y * dy + q.z * dz; lo = std::min(lo, d); hi = std::max(hi, d); } REQUIRE(v >= lo - 1e-9 * size && v <= hi + 1e-9 * size, << "the point at " << t << " is outside the hull of the control points"); };
	check(0); check(at); Vertex3 a = curve->point(curve->start()), b = curve->point(curve->end()); REQUIRE((a - c[0]).abs() <= 1e-9 * size, << "the curve does not start in the first control point"); REQUIRE(b.isValid() && (b - c[n - 1]).abs() <= 1e-9 * size, << "the curve does not end in the last control point");
	int q = (int)s.i(1, 4); for(int i = 0; i < q; i++) { double t; switch(s.choice(3)) { case 0: t = k[(size_t)s.i(0, (int64)k.size() - 1)]; break; case 1: t = std::nextafter(k[(size_t)s.i(0, (int64)k.size() - 1)], s.coin() ? at : 0); break; case 2: t = at * s.pick({0.5, 0.25, 0.75, 0.125}); break; default: t = s.real(0, 1) * at; } if(t < 0) t = 0; if(t > at) t = at; check(t); }
	ctx.label(rational ? "rational" : "plain"); if(inner > 0 && n > 3) ctx.nontrivial();
}
const Def& pbt::definition()
{
	static Def d{"P37", "the curve has inner knots and at least four control points", 400000, 30000000, jmInit, run};
	d.assumptions = {"clamped knot vectors starting at 0 (start() is documented to be 0), different knots at least 0.03 apart, as many weights as control points, all positive"};
	return d;
}
