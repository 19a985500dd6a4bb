// P33: matrices and vectors of any dimension
#include "jmh.hpp"
#include <sstream>
#include <iostream>
using jm::Matrix; using jm::Vector;
typedef long double LD;
struct Mx { int64 m, n; std::vector<double> v; double& at(int64 r, int64 c) { return v[(size_t)(r * n + c)]; } double at(int64 r, int64 c) const { return v[(size_t)(r * n + c)]; } };
static std::ostream& operator<<(std::ostream& o, const Mx& x) { o << x.m << "x" << x.n << "["; for(int64 r = 0; r < x.m; r++) { for(int64 c = 0; c < x.n; c++) o << (c ? " " : "") << x.at(r, c); o << (r + 1 < x.m ? "; " : ""); } return o << "]"; }
static double entry(Src& s, int kind) { return kind == 0 ? (double)s.si(-5, 5) : kind == 1 ? s.grid(-100, 100, 8) : s.real(-10, 10); }
static Mx gen(Src& s, int64 m, int64 n, int kind) { Mx x{m, n, {}}; x.v.resize((size_t)(m * n)); bool sparse = s.chance(1, 4); for(double& d : x.v) d = sparse && s.coin() ? 0.0 : entry(s, kind); return x; }
static Matrix make(Src& s, const Mx& x)
{
	if(x.m == 3 && x.n == 3 && s.coin())
	{
		jm::Vertex3 a, b, c; bool row = s.coin();
		auto ve = [&](int64 k) { return row ? jm::Vertex3(x.at(k, 0), x.at(k, 1), x.at(k, 2)) : jm::Vertex3(x.at(0, k), x.at(1, k), x.at(2, k)); };
		return Matrix(ve(0), ve(1), ve(2), row);
	}
	if(x.m == 1 && x.n == 1 && s.coin()) return Matrix(x.v[0]);
	Matrix r(x.m, x.n); for(double d : std::vector<double>(r.ref(), r.ref() + x.m * x.n)) REQUIRE(d == 0, << "a new matrix is not zero");
	bool add = s.coin(); for(int64 i = 0; i < x.m; i++) for(int64 j = 0; j < x.n; j++) if(add && (x.at(i, j) - 1) + 1 == x.at(i, j)) { r.set(i, j, x.at(i, j) - 1); r.add(i, j, 1); } else r.set(i, j, x.at(i, j));
	return r;
}
static void same(const Matrix& a, const Mx& w, const char* what, double tol = 0)
{
	REQUIRE(a.m == w.m && a.n == w.n, << what << " has shape " << a.m << "x" << a.n << " instead of " << w.m << "x" << w.n);
	for(int64 i = 0; i < w.m; i++) for(int64 j = 0; j < w.n; j++)
	{
		REQUIRE(std::fabs(a.get(i, j) - w.at(i, j)) <= tol, << what << ": element (" << i << "," << j << ") is " << a.get(i, j) << ", expected " << w.at(i, j));
		REQUIRE(a.ref()[i + j * w.m] == a.get(i, j), << what << ": storage by columns");
	}
}
static LD det(const Mx& x) // by permutations
{
	std::vector<int64> p; for(int64 i = 0; i < x.n; i++) p.push_back(i); LD d = 0;
	do { LD t = 1; for(int64 i = 0; i < x.m; i++) t *= x.at(i, p[(size_t)i]); int inv = 0; for(size_t i = 0; i < p.size(); i++) for(size_t j = i + 1; j < p.size(); j++) inv += p[i] > p[j]; d += inv & 1 ? -t : t; } while(std::next_permutation(p.begin(), p.end()));
	return d;
}
static double maxAbs(const Mx& x) { double m = 0; for(double d : x.v) m = std::max(m, std::fabs(d)); return m; }
static void algebra(Src& s, Ctx& ctx)
{
	int kind = (int)s.choice(2); int64 m = s.i(1, 6), n = s.i(1, 6), q = s.i(1, 6); if(s.chance(1, 3)) n = m; if(s.choice(1999) == 1234) { int64* d[3] = {&m, &n, &q}; size_t k = s.choice(3); for(size_t i = 0; i < 3; i++) if(k == 3 || k == i) *d[i] = s.i(30, 70); ctx.label("large"); }
	Mx a = gen(s, m, n, kind), b = gen(s, n, q, kind), c = gen(s, m, n, kind); NOTE("A=" << a << " B=" << b << " C=" << c << " ");
	Matrix A = make(s, a), B = make(s, b), C = make(s, c); same(A, a, "A"); same(B, b, "B"); double eps = kind == 0 ? 0 : 1e-12 * (1 + maxAbs(a)) * (1 + maxAbs(b));
	Mx w{m, q, std::vector<double>((size_t)(m * q))}; for(int64 i = 0; i < m; i++) for(int64 j = 0; j < q; j++) { LD t = 0; for(int64 k = 0; k < n; k++) t += (LD)a.at(i, k) * b.at(k, j); w.at(i, j) = (double)t; }
	same(A * B, w, "A*B", eps);
	w = a; for(size_t i = 0; i < w.v.size(); i++) w.v[i] = a.v[i] + c.v[i]; same(A + C, w, "A+C"); for(size_t i = 0; i < w.v.size(); i++) w.v[i] = a.v[i] - c.v[i]; same(A - C, w, "A-C");
	double f = entry(s, kind), g = s.pick({2.0, -3.0, 0.5, 1.0}); for(size_t i = 0; i < w.v.size(); i++) w.v[i] = f * a.v[i]; same(f * A, w, "f*A"); same(A * f, w, "A*f"); for(size_t i = 0; i < w.v.size(); i++) w.v[i] = a.v[i] / g; same(A / g, w, "A/g", 1e-14 * (1 + maxAbs(a)));
	Matrix T = A; T.transpose(); Mx t{n, m, std::vector<double>((size_t)(m * n))}; for(int64 i = 0; i < m; i++) for(int64 j = 0; j < n; j++) t.at(j, i) = a.at(i, j); same(T, t, "transposed A"); same(A, a, "A after transposing a copy"); T.transpose(); same(T, a, "A transposed twice");
	// norms and others
	double n1 = 0, ni = 0, tr = 0; uint32 nz = 0; for(int64 j = 0; j < n; j++) { double x = 0; for(int64 i = 0; i < m; i++) x += std::fabs(a.at(i, j)); n1 = std::max(n1, x); } for(int64 i = 0; i < m; i++) { double x = 0; for(int64 j = 0; j < n; j++) { x += std::fabs(a.at(i, j)); nz += a.at(i, j) != 0; } ni = std::max(ni, x); } for(int64 i = 0; i < std::min(m, n); i++) tr += a.at(i, i);
	REQUIRE(std::fabs(A.norm(jm::MatrixNorm::kNorm1) - n1) <= 1e-12 * (1 + n1), << "column sum norm " << A.norm(jm::MatrixNorm::kNorm1) << ", expected " << n1); REQUIRE(std::fabs(A.norm(jm::MatrixNorm::kNormInf) - ni) <= 1e-12 * (1 + ni), << "row sum norm " << A.norm(jm::MatrixNorm::kNormInf) << ", expected " << ni);
	REQUIRE(std::fabs(A.trace() - tr) <= 1e-12 * (1 + std::fabs(tr)), << "trace " << A.trace() << ", expected " << tr); REQUIRE_EQ(A.nonZeroElementCount(), nz, << "(non-zero elements)");
	// matrix and vector
	Vector x(n), y; std::vector<double> xv; for(int64 i = 0; i < n; i++) { REQUIRE(x.data[i] == 0, << "a new vector is not zero"); xv.push_back(entry(s, kind)); x.data[i] = xv.back(); }
	y = A * x; REQUIRE_EQ(y.m, m, << "(rows of A*x)"); for(int64 i = 0; i < m; i++) { LD e = 0; for(int64 k = 0; k < n; k++) e += (LD)a.at(i, k) * xv[(size_t)k]; REQUIRE(std::fabs((double)(y.data[i] - e)) <= eps + 1e-10 * (kind != 0), << "A*x element " << i << " is " << y.data[i] << ", expected " << (double)e); }
	// wrong shapes
	int64 wm = s.i(1, 6), wn = s.i(1, 6); Mx d = gen(s, wm, wn, kind); Matrix D = make(s, d); NOTE("D=" << d << " ");
	bool addOk = wm == m && wn == n, mulOk = n == wm;
	REQUIRE_EQ(throwsJm([&] { Matrix r = A + D; }), !addOk, << "exception for the sum of " << m << "x" << n << " and " << wm << "x" << wn); REQUIRE_EQ(throwsJm([&] { Matrix r = A - D; }), !addOk, << "exception for the difference of " << m << "x" << n << " and " << wm << "x" << wn);
	REQUIRE_EQ(throwsJm([&] { Matrix r = A * D; }), !mulOk, << "exception for the product of " << m << "x" << n << " and " << wm << "x" << wn);
	Vector z(wm); REQUIRE_EQ(throwsJm([&] { Vector r = A * z; }), !mulOk, << "exception for the product of " << m << "x" << n << " and a vector of " << wm);
	jm::Vertex3 vx(entry(s, kind), entry(s, kind), entry(s, kind)), rv; bool is3 = m == 3 && n == 3; REQUIRE_EQ(throwsJm([&] { rv = A * vx; }), !is3, << "exception for the product of " << m << "x" << n << " and a vertex");
	if(is3) { double e[3]; for(int64 i = 0; i < 3; i++) e[i] = a.at(i, 0) * vx.x + a.at(i, 1) * vx.y + a.at(i, 2) * vx.z; REQUIRE(std::fabs(rv.x - e[0]) + std::fabs(rv.y - e[1]) + std::fabs(rv.z - e[2]) <= eps + 1e-9 * (kind != 0), << "product with a vertex"); }
	same(A, a, "A afterwards"); if(m != n || n != q) ctx.nontrivial();
}
static void inverses(Src& s, Ctx& ctx)
{
	int64 n = s.chance(1, 8) ? s.i(5, 6) : s.i(1, 4), m = s.chance(1, 8) ? s.i(1, 6) : n; int kind = (int)s.choice(2);
	Mx a = gen(s, m, n, kind);
	if(m == n && n > 1 && s.chance(1, 4)) { int64 r = s.i(0, n - 1), q = s.i(0, n - 1); double f = (double)s.si(-2, 2); if(r == q) f = 0; for(int64 j = 0; j < n; j++) a.at(r, j) = r == q ? 0 : f * a.at(q, j); }
	NOTE("A=" << a); Matrix A = make(s, a), I = A; double got = 12345; jm::Status st = A.det(got), si; bool ok = m == n && n <= 4;
	REQUIRE_EQ(st == jm::Status::eOK, ok, << "determinant of " << m << "x" << n << " succeeds"); same(A, a, "A after det()");
	si = I.inverse();
	if(!ok) { REQUIRE(si != jm::Status::eOK, << "inverse of " << m << "x" << n << " succeeds"); same(I, a, "A after a refused inversion"); return; }
	LD d = det(a); double M = maxAbs(a), scale = 24 * std::pow(M, (double)n) + 1e-300;
	REQUIRE(std::fabs((double)(got - d)) <= (kind == 0 ? 0.0 : 1e-13 * scale), << "determinant " << got << ", expected " << (double)d);
	if(kind == 0 && d == 0) { REQUIRE(si != jm::Status::eOK, << "a singular matrix was inverted"); same(I, a, "A after a refused inversion"); ctx.label("singular"); return; }
	if(std::fabs((double)d) < 1e-6 * scale) return; // too close to singular for a numeric comparison
	REQUIRE(si == jm::Status::eOK, << "a regular matrix was not inverted"); Mx id{n, n, std::vector<double>((size_t)(n * n))}; for(int64 i = 0; i < n; i++) id.at(i, i) = 1;
	same(A * I, id, "A*A^-1", 1e-6); same(I * A, id, "A^-1*A", 1e-6); double di, mi = 0; I.det(di); for(int64 k = 0; k < n * n; k++) mi = std::max(mi, std::fabs(I.ref()[k]));
	// the cofactors of the inverse may cancel: a bound of the rounding errors decides whether to compare
	double tol = 100 * std::fabs((double)d) * std::pow(mi, (double)n) * 1e-14 * (1 + scale / std::fabs((double)d));
	if(tol < 1e-6)
	{
		REQUIRE(std::fabs(di * (double)d - 1) < 1e-5, << "determinant of the inverse");
		Matrix back = I; REQUIRE(back.inverse() == jm::Status::eOK, << "the inverse was not inverted"); same(back, a, "the inverse of the inverse", 1e-5 * (1 + M));
		ctx.label("well conditioned inverse");
	}
	if(n > 1) ctx.nontrivial();
}
// eigenvalues of a symmetric matrix by Jacobi rotations
static std::vector<LD> jacobi(const Mx& a)
{
	int64 n = a.n; std::vector<std::vector<LD>> w((size_t)n, std::vector<LD>((size_t)n)); for(int64 i = 0; i < n; i++) for(int64 j = 0; j < n; j++) w[(size_t)i][(size_t)j] = a.at(i, j);
	for(int sweep = 0; sweep < 60; sweep++) for(size_t p = 0; p < (size_t)n; p++) for(size_t q = p + 1; q < (size_t)n; q++)
	{
		if(w[p][q] == 0) continue; LD th = (w[q][q] - w[p][p]) / (2 * w[p][q]), t = (th < 0 ? -1 : 1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), z = t * c;
		for(size_t k = 0; k < (size_t)n; k++) { LD x = w[k][p], y = w[k][q]; w[k][p] = c * x - z * y; w[k][q] = z * x + c * y; }
		for(size_t k = 0; k < (size_t)n; k++) { LD x = w[p][k], y = w[q][k]; w[p][k] = c * x - z * y; w[q][k] = z * x + c * y; }
		w[p][q] = w[q][p] = 0;
	}
	std::vector<LD> e; for(size_t i = 0; i < (size_t)n; i++) e.push_back(w[i][i]); std::sort(e.begin(), e.end()); return e;
}
static void eigen(Src& s, Ctx& ctx)
{
	int64 n = s.i(1, 4), m = s.chance(1, 8) ? s.i(1, 4) : n; int kind = (int)s.choice(2); Mx a = gen(s, m, n, kind);
	if(m == n) for(int64 i = 0; i < n; i++) for(int64 j = 0; j < i; j++) a.at(i, j) = a.at(j, i);
	if(m == n && s.chance(1, 4)) { for(int64 i = 0; i < n; i++) for(int64 j = 0; j < n; j++) if(i == j && s.coin()) a.at(i, i) = a.at(0, 0) + (s.coin() ? 1e-9 : 0); double f = s.pick({1e-9, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-12, 1e-160}); for(int64 i = 0; i < n; i++) for(int64 j = 0; j < n; j++) if(i != j) a.at(i, j) *= f; }
	NOTE("A=" << a); Matrix A = make(s, a); if(m != n || n > 3) { REQUIRE(throwsJm([&] { Vector v = A.eigen(); }), << "eigenvalues of " << m << "x" << n); return; }
	Vector v = A.eigen(); REQUIRE_EQ(v.m, n, << "(eigenvalues)"); double M = 1 + maxAbs(a), sum = 0, sq = 0, fro = 0, tr = 0; for(int64 i = 0; i < n; i++) { REQUIRE(std::isfinite(v.data[i]), << "eigenvalue " << v.data[i]); sum += v.data[i]; sq += v.data[i] * v.data[i]; tr += a.at(i, i); } for(double d : a.v) fro += d * d;
	REQUIRE(std::fabs(sum - tr) <= 1e-9 * M, << "the sum of the eigenvalues is " << sum << ", the trace " << tr); REQUIRE(std::fabs(sq - fro) <= 1e-7 * M * M, << "the squared eigenvalues do not match the matrix");
	for(int64 k = 0; k < n; k++) { Mx b = a; for(int64 i = 0; i < n; i++) b.at(i, i) -= v.data[k]; REQUIRE(std::fabs((double)det(b)) <= 1e-6 * M * M * M, << v.data[k] << " is not an eigenvalue, det(A-xI)=" << (double)det(b)); }
	// in any order; the gap of two nearly equal values is the root of a rounded number
	std::vector<LD> want = jacobi(a); std::vector<double> got(v.data, v.data + n); std::sort(got.begin(), got.end()); double gap = (double)(want.back() - want.front()), tol = 1e-12 * M + 1e-6 * gap + 1e-7 * std::sqrt(M * gap);
	for(int64 k = 0; k < n; k++) REQUIRE(std::fabs((double)(got[(size_t)k] - want[(size_t)k])) <= tol, << "eigenvalue " << k << " is " << got[(size_t)k] << " instead of " << (double)want[(size_t)k]);
	same(A, a, "A after eigen()"); if(n > 1) ctx.nontrivial();
}
static void history(Src& s, Ctx& ctx) // copies, insertion, diagonal, assignment over several matrices
{
	std::vector<Matrix> M; std::vector<Mx> W; for(int i = 0; i < 3; i++) { int64 hm = s.i(1, 4), hn = s.i(1, 4); if(s.choice(1199) == 789) (s.coin() ? hm : hn) = s.i(35, 60); W.push_back(gen(s, hm, hn, 0)); M.push_back(make(s, W.back())); NOTE("M" << i << "=" << W.back() << " "); }
	size_t steps = 1 + s.len(20);
	for(size_t k = 0; k < steps; k++)
	{
		size_t i = s.choice(2), j = s.choice(2); Matrix& A = M[i]; Mx& a = W[i];
		switch(s.choice(9))
		{
			case 0: NOTE("M" << i << "=M" << j << "; "); A = M[j]; a = Mx(W[j]); break;
			case 1: { NOTE("M" << i << "=copy of &M" << j << "; "); Matrix c(&M[j]); A = c; a = Mx(W[j]); c.zeros(); break; }
			case 2: { if(i == j) break; NOTE("M" << i << ".insert(M" << j << "); "); A.insert(M[j]); for(int64 r = 0; r < std::min(a.m, W[j].m); r++) for(int64 c = 0; c < std::min(a.n, W[j].n); c++) a.at(r, c) = W[j].at(r, c); break; }
			case 3: { if(i == j) break; int64 r0 = s.i(0, 4), c0 = s.i(0, 4); NOTE("M" << i << ".insert(M" << j << "," << r0 << "," << c0 << "); "); A.insert(M[j], r0, c0); for(int64 r = 0; r < W[j].m && r + r0 < a.m; r++) for(int64 c = 0; c < W[j].n && c + c0 < a.n; c++) a.at(r + r0, c + c0) = W[j].at(r, c); break; }
			case 4: { double d = (double)s.si(-9, 9); NOTE("M" << i << ".diag(" << d << "); "); A.diag(d); for(int64 q = 0; q < std::min(a.m, a.n); q++) a.at(q, q) = d; break; }
			case 5: NOTE("M" << i << ".zeros(); "); A.zeros(); std::fill(a.v.begin(), a.v.end(), 0.0); break;
			case 6: { NOTE("M" << i << ".transpose(); "); A.transpose(); Mx t{a.n, a.m, std::vector<double>(a.v.size())}; for(int64 r = 0; r < a.m; r++) for(int64 c = 0; c < a.n; c++) t.at(c, r) = a.at(r, c); a = t; break; }
			case 7: { int64 r = s.i(0, a.m - 1), c = s.i(0, a.n - 1); double d = (double)s.si(-9, 9); NOTE("M" << i << "(" << r << "," << c << ")+=" << d << "; "); A.add(r, c, d); a.at(r, c) += d; break; }
			case 8: { NOTE("M" << i << " made identity; "); A.initIdentity(); a = Mx{4, 4, std::vector<double>(16)}; for(int64 q = 0; q < 4; q++) a.at(q, q) = 1; break; }
			default: { Matrix e; Matrix f(e); REQUIRE(f.m == 0 && f.n == 0, << "copy of an empty matrix"); f = A; same(f, a, "assigned to an empty matrix"); f = e; REQUIRE(f.m == 0 && f.n == 0, << "assigned an empty matrix"); A = *&A; }
		}
		for(size_t q = 0; q < 3; q++) same(M[q], W[q], "a matrix of the history");
	}
	if(steps > 3) ctx.nontrivial();
}
static void vectors(Src& s, Ctx& ctx)
{
	int64 n = s.i(0, 7); if(size_t q = longLen(s, 70000, 10)) { n = (int64)q; ctx.label("long vectors"); } int64 m = s.chance(1, 4) ? s.i(0, 7) : n; int kind = (int)s.choice(2); std::vector<double> a, b; for(int64 i = 0; i < n; i++) a.push_back(entry(s, kind)); for(int64 i = 0; i < m; i++) b.push_back(entry(s, kind));
	NOTE("vectors of " << n << " and " << m); Vector x(n), y(m); for(int64 i = 0; i < n; i++) x.data[i] = a[(size_t)i]; for(int64 i = 0; i < m; i++) y.data[i] = b[(size_t)i];
	Vector sum, dif; double dot = 0; bool t1 = throwsJm([&] { sum = x + y; }), t2 = throwsJm([&] { dif = x - y; }), t3 = throwsJm([&] { dot = x.dotProduct(y); });
	REQUIRE(t1 == (n != m) && t2 == (n != m) && t3 == (n != m), << "exceptions for dimensions " << n << " and " << m << ": " << t1 << t2 << t3);
	LD q = 0, d = 0; for(int64 i = 0; i < n; i++) q += (LD)a[(size_t)i] * a[(size_t)i];
	if(n == m) { REQUIRE(sum.m == n && dif.m == n, << "dimension of the sum"); for(int64 i = 0; i < n; i++) { REQUIRE(sum.data[i] == a[(size_t)i] + b[(size_t)i] && dif.data[i] == a[(size_t)i] - b[(size_t)i], << "element " << i << " of the sum or difference"); d += (LD)a[(size_t)i] * b[(size_t)i]; } REQUIRE(std::fabs((double)(dot - d)) <= 1e-10 * (1 + (double)n / 8), << "scalar product " << dot << ", expected " << (double)d); }
	double len = std::sqrt((double)q); REQUIRE(std::fabs(x.abs() - len) <= 1e-12 * (1 + len), << "length " << x.abs() << ", expected " << len);
	double f = entry(s, kind); Vector p = f * x; REQUIRE_EQ(p.m, n, << "(dimension of f*x)"); for(int64 i = 0; i < n; i++) REQUIRE(p.data[i] == f * a[(size_t)i], << "element " << i << " of f*x");
	Vector c(x), e; e = x; e = *&e; if(len > 1e-6) { c.normalize(); REQUIRE(std::fabs(c.abs() - 1) < 1e-12, << "normalized length " << c.abs()); for(int64 i = 0; i < n; i++) REQUIRE(std::fabs(c.data[i] * len - a[(size_t)i]) <= 1e-12 * (1 + len), << "direction of the normalized vector"); }
	c.ones(); for(int64 i = 0; i < n; i++) REQUIRE(c.data[i] == 1, << "ones()"); c.zeros(); for(int64 i = 0; i < n; i++) REQUIRE(c.data[i] == 0, << "zeros()");
	for(int64 i = 0; i < n; i++) REQUIRE(x.data[i] == a[(size_t)i] && e.data[i] == a[(size_t)i], << "a copy shares its elements"); e = y; REQUIRE_EQ(e.m, m, << "(assigned dimension)"); for(int64 i = 0; i < m; i++) REQUIRE(e.data[i] == b[(size_t)i], << "assigned element");
	if(n > 1) ctx.nontrivial();
}
static void run(Src& s, Ctx& ctx)
{
	switch(s.weighted({4, 4, 2, 2, 2})) { case 0: ctx.label("sums, products, transposes"); algebra(s, ctx); break; case 1: ctx.label("determinants, inverses"); inverses(s, ctx); break; case 2: ctx.label("eigenvalues"); eigen(s, ctx); break; case 3: ctx.label("histories"); history(s, ctx); break; default: ctx.label("vectors"); vectors(s, ctx); }
}
const Def& pbt::definition()
{
	static Def d{"P33", "non-square operands, regular matrices of at least 2x2, histories of more than three steps", 700000, 30000000, jmInit, run};
	d.assumptions = {"determinants and inverses up to 4x4, eigenvalues of symmetric matrices up to 3x3 (the documented limits)", "reference products in long double; integer entries are compared exactly"};
	return d;
}
