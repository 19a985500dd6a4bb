// P34: rotations, direction-to-direction matrices, 4x4 transforms, object and world coordinate systems
#include "jmh.hpp"
#include <sstream>
#include <iostream>
using jm::Matrix; using jm::Vertex2; using jm::Vertex3;
typedef long double LD;
struct V { LD x, y, z; };
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V operator*(LD f, V a) { return {f * a.x, f * a.y, f * a.z}; }
static LD dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD len(V a) { return sqrtl(dot(a, a)); }
static V unit(V a) { return (1 / len(a)) * a; }
static V ref(const Vertex3& v) { return {v.x, v.y, v.z}; }
static Vertex3 lib(V v) { return Vertex3((double)v.x, (double)v.y, (double)v.z); }
static V rot(V v, V k, LD a) { return cosl(a) * v + sinl(a) * cross(k, v) + (dot(k, v) * (1 - cosl(a))) * k; } // Rodrigues, k of length 1
static std::ostream& operator<<(std::ostream& o, V v) { return o << "(" << (double)v.x << " " << (double)v.y << " " << (double)v.z << ")"; }
static void near(const Vertex3& g, V w, double tol, const char* what) { REQUIRE(len(ref(g) - w) <= tol, << std::setprecision(17) << what << " is " << ref(g) << ", expected " << w << ", off by " << (double)len(ref(g) - w)); }
static void near(const Vertex2& g, LD x, LD y, double tol, const char* what) { REQUIRE(hypotl(g.x - x, g.y - y) <= tol, << std::setprecision(17) << what << " is (" << g.x << " " << g.y << "), expected (" << (double)x << " " << (double)y << ")"); }
static double coord(Src& s, int kind) { return kind == 0 ? (double)s.si(-6, 6) : kind == 1 ? s.grid(-50, 50, 8) : s.real(-1000, 1000); }
static Vertex3 vec(Src& s) { int k = (int)s.choice(2); double x = coord(s, k), y = coord(s, k), z = coord(s, k); if(s.chance(1, 4)) { int c = (int)s.choice(2); if(c == 0) x = 0; else if(c == 1) y = 0; else z = 0; } if(s.chance(1, 8)) { double f = s.pick({1e-3, 1e3, 0.01}); x *= f; y *= f; z *= f; } return Vertex3(x, y, z); }
static Vertex3 dir(Src& s) { Vertex3 v = vec(s); if(v.abs() < 1e-4) v = Vertex3(0, 0, 1); return v; }
static double angle(Src& s) { switch(s.choice(3)) { case 0: return M_PI / 4 * (double)s.si(-16, 16); case 1: return M_PI / 180 * (double)s.si(-720, 720); case 2: return s.real(-7, 7); default: return s.pick({1e-3, -1e-3, 1e-5, M_PI - 1e-5, -M_PI + 1e-5, 100.0, -100.0}); } }
static LD wrap(LD a) { return remainderl(a, 2 * M_PIl); }

static void plane(Src& s, Ctx& ctx)
{
	int k = (int)s.choice(2); Vertex2 v(coord(s, k), coord(s, k)), w(coord(s, k), coord(s, k)); double a = angle(s), f = s.pick({2.0, -3.0, 0.25, 1.5}); double L = v.abs();
	NOTE("v=(" << v.x << " " << v.y << ") w=(" << w.x << " " << w.y << ") angle=" << a);
	REQUIRE(std::fabs(L - (double)hypotl(v.x, v.y)) <= 1e-12 * (1 + L), << "length " << L);
	double tol = 1e-12 * (1 + L); Vertex2 r = v.rotated(a), q = v; near(v.rotated(a), v.x * cosl(a) - v.y * sinl(a), v.x * sinl(a) + v.y * cosl(a), tol, "rotated vector"); Vertex2& back = q.rotate(a); REQUIRE(&back == &q, << "rotate returns another object"); near(q, r.x, r.y, tol, "vector rotated in place");
	REQUIRE(std::fabs(r.abs() - L) <= tol, << "rotation changes the length from " << L << " to " << r.abs()); near(r.rotated(-a), v.x, v.y, tol, "vector rotated forth and back"); near(v.rotated(2 * M_PI), v.x, v.y, tol, "vector after a full turn");
	LD c = (LD)v.x * w.y - (LD)v.y * w.x, d = (LD)v.x * w.x + (LD)v.y * w.y; double sc = 1e-12 * (1 + v.abs() * w.abs());
	REQUIRE(std::fabs((double)(v.crossProduct(w) - c)) <= sc && std::fabs((double)(v.dotProduct(w) - d)) <= sc, << "cross product " << v.crossProduct(w) << " or dot product " << v.dotProduct(w) << ", expected " << (double)c << " and " << (double)d);
	if(fabsl(c) > 1e-5 || k < 2) { REQUIRE_EQ(v.isCollinear(w), fabsl(c) < 1e-6, << "(collinear)"); REQUIRE_EQ(v.isRightTo(w), c > 0, << "(right of)"); REQUIRE_EQ(v.isLeftTo(w), c < 0, << "(left of)"); REQUIRE_EQ(w.isRightTo(v), c < 0, << "(right of, exchanged)"); }
	if(fabsl(d) > 1e-5 || k < 2) REQUIRE_EQ(v.isOrthogonal(w), fabsl(d) < 1e-6, << "(orthogonal)");
	if(L > 1e-3)
	{
		Vertex2 n = v.normalized(), m = v; near(n, v.x / L, v.y / L, 1e-12, "unit vector"); Vertex2& b = m.normalize(); REQUIRE(&b == &m, << "normalize returns another object"); near(m, n.x, n.y, 0, "vector normalised in place");
		double g = v.angleTo(r); REQUIRE(std::fabs((double)wrap(g - a)) <= 2e-7, << "angle to the vector rotated by " << a << " is " << g); REQUIRE(std::fabs(g) <= M_PI + 1e-9, << "angle " << g << " beyond half a turn");
		double p = v.angleTo(v * std::fabs(f)), o = v.angleTo(v * -std::fabs(f)); REQUIRE(std::fabs(p) <= 2e-7, << "angle to a parallel vector is " << p); REQUIRE(std::fabs(std::fabs(o) - M_PI) <= 2e-7, << "angle to the opposite vector is " << o);
		if(w.abs() > 1e-3) { LD e = atan2l(c, d); double g1 = v.angleTo(w), g2 = w.angleTo(v); REQUIRE(std::fabs((double)wrap(g1 - e)) <= 2e-7, << "angle " << g1 << ", expected " << (double)e); REQUIRE(std::fabs((double)wrap(g1 + g2)) <= 4e-7, << "angles " << g1 << " and " << g2 << " of exchanged vectors"); double g3 = (v * std::fabs(f)).angleTo(w); REQUIRE(std::fabs((double)wrap(g3 - g1)) <= 4e-7, << "angle depends on the length"); }
	}
	else if(L == 0) { near(v.normalized(), 0, 0, 0, "normalised null vector"); }
	near(v + w, v.x + w.x, v.y + w.y, 0, "sum"); near(v - w, v.x - w.x, v.y - w.y, 0, "difference"); near(f * v, f * v.x, f * v.y, 0, "multiple"); near(v * f, f * v.x, f * v.y, 0, "multiple"); near(v / f, v.x / f, v.y / f, tol, "quotient"); near(v.scale(w), v.x * w.x, v.y * w.y, 0, "scaled vector");
	Vertex2 t = v; t += w; near(t, v.x + w.x, v.y + w.y, 0, "v+=w"); t = v; t -= w; near(t, v.x - w.x, v.y - w.y, 0, "v-=w"); if(k < 2) { REQUIRE_EQ(v == w, v.x == w.x && v.y == w.y, << "(equal)"); REQUIRE_EQ(v != w, !(v.x == w.x && v.y == w.y), << "(different)"); }
	// linear equations: A*v + B*w = target
	if(fabsl(c) > 0.1) { double A = coord(s, k), B = coord(s, k); NOTE(" A=" << A << " B=" << B); Vertex2 x = jm::solveLinearSystem(v, w, A * v + B * w); double e = 1e-13 * (1 + v.abs()) * (1 + w.abs()) * (1 + v.abs() + w.abs()) * (1 + std::fabs(A) + std::fabs(B)) * (1 + 1 / (double)fabsl(c)) * 100 + 1e-9; if(e < 1e-2) near(x, A, B, e, "solution of the linear equations"); }
	REQUIRE(v.isValid() && !Vertex2(std::nan(""), v.y).isValid() && !Vertex2(v.x, std::nan("")).isValid(), << "isValid"); if(L > 1e-3 && a != 0 && w.abs() > 1e-3) ctx.nontrivial();
}
static Matrix copyOf(const Matrix& m) { return m; }
static void rotationMatrix(const Matrix& r, const char* what, double tol)
{
	REQUIRE(r.m == 3 && r.n == 3, << what << " is not 3x3"); V c[3]; for(int i = 0; i < 3; i++) c[i] = {r.get(0, i), r.get(1, i), r.get(2, i)};
	for(int i = 0; i < 3; i++) for(int j = 0; j <= i; j++) REQUIRE(fabsl(dot(c[i], c[j]) - (i == j)) <= tol, << what << ": columns " << j << " and " << i << " have the product " << (double)dot(c[i], c[j]));
	REQUIRE(fabsl(dot(cross(c[0], c[1]), c[2]) - 1) <= tol, << what << " has the determinant " << (double)dot(cross(c[0], c[1]), c[2]));
}
static void space(Src& s, Ctx& ctx)
{
	Vertex3 v = vec(s), w = vec(s), ax = dir(s), t; double a = angle(s); NOTE("v=" << ref(v) << " w=" << ref(w) << " axis=" << ref(ax) << " angle=" << a); double L = v.abs(), M = w.abs(), tol = 1e-11 * (1 + L); V X{1, 0, 0}, Y{0, 1, 0}, Z{0, 0, 1};
	REQUIRE(std::fabs(L - (double)len(ref(v))) <= tol, << "length " << L);
	t = v; t.rotateX(a); near(t, rot(ref(v), X, a), tol, "rotation about X"); t = v; t.rotateY(a); near(t, rot(ref(v), Y, a), tol, "rotation about Y"); t = v; t.rotateZ(a); near(t, rot(ref(v), Z, a), tol, "rotation about Z"); near(v.rotatedZ(a), ref(t), 0, "rotatedZ");
	t = v; t.rotate(a, ax); near(t, rot(ref(v), unit(ref(ax)), a), 10 * tol, "rotation about an axis"); REQUIRE(std::fabs(t.abs() - L) <= 10 * tol, << "rotation changes the length"); t.rotate(-a, ax); near(t, ref(v), 20 * tol, "rotation forth and back"); t.rotate(2 * M_PI, ax); near(t, ref(v), 30 * tol, "full turn");
	Vertex3 u = ax.normalized(), on = u * 3.0; REQUIRE(std::fabs(u.abs() - 1) < 1e-12, << "unit vector of length " << u.abs()); near(u, unit(ref(ax)), 1e-12, "unit vector"); t = ax; Vertex3& b = t.normalize(); REQUIRE(&b == &t, << "normalize returns another object"); near(t, ref(u), 0, "vector normalised in place"); on.rotate(a, u); near(on, 3.0L * ref(u), 1e-11, "point on the axis");
	rotationMatrix(Matrix::generate3x3RotationMatrix(a, u), "rotation matrix", 1e-11); rotationMatrix(Matrix::generate3x3RotationXMatrix(a), "rotation matrix about X", 1e-12); rotationMatrix(Matrix::generate3x3RotationYMatrix(a), "rotation matrix about Y", 1e-12); rotationMatrix(Matrix::generate3x3RotationZMatrix(a), "rotation matrix about Z", 1e-12); near(Matrix::generate3x3RotationMatrix(a, u) * v, rot(ref(v), unit(ref(ax)), a), 10 * tol, "rotation matrix times vector");
	// products and angles
	V c = cross(ref(v), ref(w)); LD d = dot(ref(v), ref(w)); double sc = 1e-12 * (1 + L * M); near(v.crossProduct(w), c, sc, "cross product"); REQUIRE(std::fabs((double)(v.dotProduct(w) - d)) <= sc, << "dot product " << v.dotProduct(w) << ", expected " << (double)d);
	if(L > 1e-3 && M > 1e-3) { LD e = atan2l(len(c), d); double g = v.angleTo(w), h = w.angleTo(v); REQUIRE(std::fabs((double)(g - e)) <= 2e-7, << "angle " << g << ", expected " << (double)e); REQUIRE(std::fabs(g - h) <= 2e-7, << "angles " << g << " and " << h << " of exchanged vectors"); Vertex3 v2 = v, w2 = w; v2.rotate(a, ax); w2.rotate(a, ax); REQUIRE(std::fabs(v2.angleTo(w2) - g) <= 4e-7, << "rotation changes the angle"); double p = v.angleTo(v * 3.0), o = v.angleTo(v * -2.0); REQUIRE(std::fabs(p) <= 2e-7 && std::fabs(o - M_PI) <= 2e-7, << "angle to a parallel or opposite vector is " << p << " or " << o); }
	if(len(c) > 1e-5 || len(c) == 0) REQUIRE_EQ(v.isCollinear(w), len(c) < 1e-6, << "(collinear)"); if(fabsl(d) > 1e-5 || d == 0) REQUIRE_EQ(v.isOrthogonal(w), fabsl(d) < 1e-6, << "(orthogonal)");
	LD det = dot(c, ref(ax)); if(fabsl(det) > 1e-4 || (det == 0 && L < 100 && M < 100 && ax.abs() < 100)) REQUIRE_EQ(jm::isLinearIndependent(v, w, ax), fabsl(det) > 1e-6, << "(linear independence, determinant " << (double)det << ")");
	// arithmetic
	double f = s.pick({2.0, -3.0, 0.25, 1.5}); near(v + w, ref(v) + ref(w), 1e-12 * (1 + L + M), "sum"); near(v - w, ref(v) - ref(w), 1e-12 * (1 + L + M), "difference"); near(f * v, f * ref(v), tol, "multiple"); near(v * f, f * ref(v), tol, "multiple"); near(v / f, (1.0L / f) * ref(v), tol, "quotient"); near(v.scale(w), V{(LD)v.x * w.x, (LD)v.y * w.y, (LD)v.z * w.z}, sc, "scaled vector"); t = v; t += w; near(t, ref(v + w), 0, "v+=w"); t = v; t -= w; near(t, ref(v - w), 0, "v-=w");
	REQUIRE_EQ(v.biggest(), std::max(v.x, std::max(v.y, v.z)), << "(biggest component)"); REQUIRE_EQ(v.isNull(), std::fabs(v.x) < 1e-6 && std::fabs(v.y) < 1e-6 && std::fabs(v.z) < 1e-6, << "(isNull)"); REQUIRE(v == v && !(v != v) && v.isValid(), << "a vector differs from itself"); Vertex3 far = v; double step = s.pick({0.01, -0.01, 1.0}); switch(s.choice(2)) { case 0: far.x += step; break; case 1: far.y += step; break; default: far.z += step; } REQUIRE(v != far && !(v == far), << "equal though a component differs by " << step);
	if(L > 0 && M > 0 && std::fabs(std::sin(a)) > 1e-9) ctx.nontrivial();
}
static void between(Src& s, Ctx& ctx)
{
	Vertex3 u = dir(s), v = dir(s); const char* how = "any"; double eps = s.pick({0.0, 1e-3, 1e-5, 1e-7, 1e-9, 1e-12, 1e-15}); int mode = (int)s.choice(3);
	if(mode == 1 || mode == 2) { V o = cross(unit(ref(u)), unit(ref(v))); if(len(o) < 1e-3) o = cross(unit(ref(u)), {0.6, 0, 0.8}); if(len(o) < 1e-3) o = cross(unit(ref(u)), {0, 1, 0}); V x = unit(ref(u)) + eps * unit(o); v = lib((LD)((mode == 1 ? 1 : -1) * s.pick({1.0, 2.0, 0.125, 3.7})) * x); how = mode == 1 ? "nearly equal" : "nearly opposite"; if(eps == 0) v = u * (mode == 1 ? s.pick({1.0, 2.0, 0.3}) : s.pick({-1.0, -2.0, -0.3})); }
	else if(mode == 3) { double f = s.pick({1e-3, 1e-4, 1e3, 1e6}); u = u.normalized() * f; v = v.normalized() * s.pick({1e-3, 1e-4, 1.0, 1e3}); how = "short or long"; }
	NOTE("from " << ref(u) << " to " << ref(v) << " (" << how << ", eps " << eps << ")"); ctx.label(how);
	Matrix r = Matrix::generate3x3RotationMatrix(u, v); rotationMatrix(r, "matrix between two directions", 1e-7); V uu = unit(ref(u)), vv = unit(ref(v)); near(r * lib(uu), vv, 1e-7, "the rotated start direction");
	V c = cross(uu, vv); if(len(c) > 1e-3) { near(r * lib(c), c, 1e-7, "the common perpendicular"); Matrix o = Matrix::generate3x3RotationMatrix(v, u); near(o * (r * lib({1, 2, 3})), {1, 2, 3}, 1e-6, "there and back"); }
	else if(dot(uu, vv) > 0) near(r * lib({1, 2, 3}), {1, 2, 3}, 1e-2, "vector turned between nearly equal directions");
	ctx.nontrivial();
}
struct Step { int kind; V p, d; LD f; Matrix m; };
static V apply(const Step& t, V v)
{
	switch(t.kind)
	{
		case 0: return v; case 1: return v + t.d; case 2: return {v.x * t.d.x, v.y * t.d.y, v.z * t.d.z}; case 3: return t.p + t.f * (v - t.p);
		case 4: return v - (2 * dot(v - t.p, t.d)) * t.d; case 5: return rot(v, {0, 0, 1}, t.f); case 6: return t.p + rot(v - t.p, t.d, t.f);
		default: { V ox = fabsl(t.d.x) < 1.0L / 64 && fabsl(t.d.y) < 1.0L / 64 ? cross({0, 1, 0}, t.d) : cross({0, 0, 1}, t.d); ox = unit(ox); V oy = unit(cross(t.d, ox)); return v.x * ox + v.y * oy + v.z * t.d; }
	}
}
static const char* const names[] = {"identity", "moving", "scaling", "scaling about a point", "mirroring", "rotation about Z", "rotation about an axis", "object coordinates"};
static Vertex3 extrusion(Src& s) { Vertex3 e; if(s.chance(1, 3)) { double q = 1.0 / 64; e = Vertex3(s.pick({0.0, q, -q, q / 2, std::nextafter(q, 0), std::nextafter(q, 1), 0.015, 0.016}), s.pick({0.0, q, -q, -q / 2, std::nextafter(q, 0), 0.02}), 0); e.z = std::sqrt(1 - e.x * e.x - e.y * e.y); if(s.coin()) e.z = -e.z; return e; } return dir(s).normalized(); }
static Step step(Src& s, bool invertible)
{
	Step t; t.kind = (int)s.choice(7); t.p = ref(vec(s)); t.d = {0, 0, 1}; t.f = 0; if(s.chance(1, 8)) t.m = Matrix(s.i(1, 3), s.i(1, 5)); else if(s.coin()) { t.m = Matrix(4, 4); for(int i = 0; i < 16; i++) t.m.set(i / 4, i % 4, 7); }
	switch(t.kind)
	{
		case 0: t.m.initIdentity(); break; case 1: t.d = ref(vec(s)); t.m.initMoving(lib(t.d)); break; case 2: { auto f = [&] { return s.pick({1.0, 2.0, -1.0, 0.5, 3.0, -0.25, invertible ? 4.0 : 0.0}); }; t.d.x = f(); t.d.y = f(); t.d.z = f(); t.m.initScaling(lib(t.d)); break; }
		case 3: t.f = s.pick({1.0, 2.0, -1.0, 0.5, 3.0, -0.25}); t.m.initScaling(lib(t.p), (double)t.f); break; case 4: t.d = ref(dir(s).normalized()); t.m.initMirroring(lib(t.p), lib(t.d)); break;
		case 5: t.f = angle(s); t.m.initRotationZ((double)t.f); break; case 6: t.f = angle(s); t.d = ref(dir(s).normalized()); t.m.initRotation(lib(t.p), lib(t.d), (double)t.f); break; default: t.d = ref(extrusion(s)); t.m.initWcs(lib(t.d));
	}
	return t;
}
static void chain(Src& s, Ctx& ctx)
{
	int n = (int)s.i(1, 4); V v = ref(vec(s)), w = v; NOTE("v=" << v); bool inv = s.coin(); Matrix all; all.initIdentity(); double grow = 1 + (double)len(v); double scale = 1; std::vector<Step> st;
	for(int i = 0; i < n; i++)
	{
		Step t = step(s, inv); NOTE(" " << names[t.kind] << " p=" << t.p << " d=" << t.d << " f=" << (double)t.f); REQUIRE(t.m.m == 4 && t.m.n == 4, << names[t.kind] << ": not a 4x4 matrix"); V before = w; w = apply(t, w); grow = std::max(grow, 1 + (double)len(w)) + (double)len(t.p); scale *= 4; near(t.m.trans(lib(before)), w, 1e-11 * grow, names[t.kind]); all = t.m * all; st.push_back(t); ctx.label(names[t.kind]);
	}
	double tol = 1e-10 * grow * scale; near(all.trans(lib(v)), w, tol, "composition of the transforms"); for(int j = 0; j < 4; j++) REQUIRE(std::fabs(all.get(3, j) - (j == 3)) <= 0, << "last row of the composition");
	// lengths along the X axis and angles about the Z axis
	double x = coord(s, 1); V z{0, 0, 0}, e{x, 0, 0}; for(auto& t : st) { z = apply(t, z); e = apply(t, e); } double g = all.trans(x); REQUIRE(std::fabs((double)(g - len(e - z))) <= tol * 10 + 1e-10 * (double)len(z) * 100, << "length " << x << " becomes " << g << ", expected " << (double)len(e - z));
	double a = angle(s); V d{cosl(a), sinl(a), 0}, o{0, 0, 0}; for(auto& t : st) { d = apply(t, d); o = apply(t, o); } d = d - o; double flat = (double)hypotl(d.x, d.y); if(flat > 0.01 && std::fabs((double)d.z) < 1e-9 && len(o) < 1e5) { double h = all.transAngle(a); REQUIRE(std::fabs((double)wrap(h - atan2l(d.y, d.x))) <= 1e-6, << "angle " << a << " becomes " << h << ", expected " << (double)atan2l(d.y, d.x)); ctx.label("angle"); }
	bool regular = true; for(auto& t : st) if(t.kind == 2 && (t.d.x == 0 || t.d.y == 0 || t.d.z == 0)) regular = false;
	Matrix back = copyOf(all); jm::Status is = back.inverse(); if(regular && grow < 1e5) { REQUIRE(is == jm::Status::eOK, << "the composition cannot be inverted"); near(back.trans(all.trans(lib(v))), v, tol * 1000, "transform and its inverse"); } else if(!regular && n == 1) REQUIRE(is != jm::Status::eOK, << "a scaling by zero was inverted");
	if(n > 1) ctx.nontrivial();
}
static void objects(Src& s, Ctx& ctx)
{
	Vertex3 v = vec(s), e = extrusion(s); NOTE("v=" << ref(v) << " extrusion=" << ref(e)); double tol = 1e-10 * (1 + v.abs()); Step t; t.kind = 7; t.d = ref(e); V w = apply(t, ref(v));
	near(jm::ocsToWcs(v, e), w, tol, "world coordinates"); Vertex3 o = jm::wcsToOcs(v, e); REQUIRE(std::fabs(o.abs() - v.abs()) <= tol, << "object coordinates have another length"); REQUIRE(std::fabs((double)(o.z - dot(ref(v), t.d))) <= tol, << "elevation " << o.z << ", expected " << (double)dot(ref(v), t.d)); near(jm::ocsToWcs(o, e), ref(v), tol, "to object coordinates and back"); near(jm::wcsToOcs(lib(w), e), ref(v), tol, "to world coordinates and back");
	rotationMatrix(jm::ocsMatrix(e), "object coordinate system", 1e-12); rotationMatrix(jm::wcsMatrix(e), "world coordinate system", 1e-10); near(jm::ocsMatrix(e) * v, ref(o), 1e-12 * (1 + v.abs()), "ocsMatrix"); near(jm::wcsMatrix(e) * v, w, tol, "wcsMatrix"); if(v.abs() > 0) ctx.nontrivial();
}
static void run(Src& s, Ctx& ctx)
{
	switch(s.weighted({3, 3, 3, 4, 2})) { case 0: plane(s, ctx); break; case 1: space(s, ctx); break; case 2: between(s, ctx); break; case 3: chain(s, ctx); break; default: objects(s, ctx); }
}
const Def& pbt::definition()
{
	static Def d{"P34", "the case rotates a non-null vector by a non-trivial angle, turns one direction into another, or composes at least two transforms", 3000000, 200000000, jmInit, run};
	d.assumptions = {"vectors used as directions are at least 1e-4 long (documented: shorter ones are not normalised), extrusions, mirror normals and axes of initRotation have length 1 as documented", "components within 1e6; comparisons allow rounding, angles 2e-7 as acos cannot do better near 0 and half a turn", "transAngle is compared where the transformed direction stays in the XY plane"};
	return d;
}
