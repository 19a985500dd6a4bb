// P32: tolerant comparisons and numeric helpers
#include "jmh.hpp"
#include <cfloat>
static const double R = 1e-6;
static double genD(Src& s)
{
	switch(s.weighted({4, 3, 2, 2, 1, 1}))
	{
		case 0: return s.grid(-1000, 1000, 8);
		case 1: return s.real(-1e6, 1e6);
		case 2: return std::ldexp((double)s.si(-1000000, 1000000), (int)s.si(-60, 60));
		case 3: { double sgn = s.coin() ? -1 : 1; return sgn * std::pow(10.0, (double)s.si(-12, 17)); }
		case 4: return s.pick({0.0, -0.0, 0.5, -0.5, 0.49999999999999994, -0.49999999999999994, 4503599627370497.0, 9007199254740993.0, DBL_MIN, DBL_MAX, -DBL_MAX, 5e-324, 2.5, 1e300});
		default: { uint64_t b = s.any64(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; }
	}
}
static void relations(Src& s, Ctx& ctx)
{
	double a = genD(s), b; double mag = 1;
	switch(s.weighted({3, 3, 2, 1}))
	{
		case 0: b = a + R * (double)s.si(-16, 16) / 8; break; // around the tolerance
		case 1: { b = a + (s.coin() ? R : -R); int k = (int)s.choice(3); for(int i = 0; i < k; i++) b = std::nextafter(b, s.coin() ? 1e300 : -1e300); break; }
		case 2: b = genD(s); break;
		default: b = a;
	}
	char buf[100]; snprintf(buf, 100, "%.17g and %.17g", a, b); NOTE(buf); mag = std::max(std::fabs(a), std::fabs(b));
	bool lt = jm::isLess(a, b), eq = jm::isEqual(a, b), gt = jm::isGreater(a, b);
	REQUIRE(lt + eq + gt == 1, << buf << ": less " << lt << " equal " << eq << " greater " << gt);
	REQUIRE_EQ(jm::isLessEqual(a, b), lt || eq, << "isLessEqual, " << buf); REQUIRE_EQ(jm::isGreaterEqual(a, b), gt || eq, << "isGreaterEqual, " << buf); REQUIRE_EQ(jm::isNotEqual(a, b), !eq, << "isNotEqual, " << buf);
	REQUIRE_EQ(jm::isLess(b, a), gt, << "mirrored isLess, " << buf); REQUIRE_EQ(jm::isEqual(b, a), eq, << "mirrored isEqual, " << buf); REQUIRE_EQ(jm::isLessEqual(b, a), gt || eq, << "mirrored isLessEqual, " << buf);
	// outside a rounding band around the tolerance the answer follows the exact difference
	long double d = (long double)b - (long double)a, band = (long double)mag * 4e-16L + 1e-20L;
	if(d < (long double)R - band && d > -(long double)R + band) REQUIRE(eq, << buf << " differ by less than the tolerance");
	if(d > (long double)R + band) REQUIRE(lt, << buf << ": less"); if(d < -(long double)R - band) REQUIRE(gt, << buf << ": greater");
	REQUIRE(!jm::isNaN(a), << "isNaN(" << a << ")"); REQUIRE(jm::isNaN(std::nan("")), << "isNaN(NaN)");
	if(std::fabs((double)d) < 3 * R || mag > 1e9) ctx.nontrivial();
}
static void helpers(Src& s, Ctx& ctx)
{
	double a = genD(s), b = genD(s); char buf[100]; snprintf(buf, 100, "%.17g, %.17g", a, b); NOTE(buf);
	REQUIRE_EQ((int)jm::sign(a), (a > 0) - (a < 0), << "sign of " << buf);
	if(std::fabs(a) < 1e300)
	{
		REQUIRE(std::fabs(jm::degToRad(a) - a * M_PI / 180) <= 1e-14 * std::fabs(a) + 1e-300, << "degToRad of " << buf); REQUIRE(std::fabs(jm::radToDeg(a) - a * 180 / M_PI) <= 1e-12 * std::fabs(a) + 1e-300, << "radToDeg of " << buf);
		REQUIRE(std::fabs(jm::radToDeg(jm::degToRad(a)) - a) <= 1e-14 * std::fabs(a) + 1e-300, << "degrees to radians and back, " << buf);
	}
	if(std::fabs(a) < 9e18)
	{
		long double f = std::floor((long double)std::fabs(a)), fr = (long double)std::fabs(a) - f; int64 w = (int64)f + (fr >= 0.5L ? 1 : 0); if(a < 0) w = -w;
		REQUIRE_EQ((int64)jm::round(a), w, << "round of " << buf);
	}
	int digits = (int)s.si(-4, 12); double f = std::pow(10.0, digits);
	if(std::fabs(a) < 1e200)
	{
		double r = jm::roundFrac(a, (int64)digits), ulp = std::fabs(a) * 1e-15 + 1e-300; NOTE("digits " << digits);
		REQUIRE(std::fabs(r - a) <= 0.5 / f * (1 + 1e-9) + ulp, << "roundFrac(" << buf << ", " << digits << ") = " << r);
		long double k = (long double)r * (long double)f, near = std::round(k); REQUIRE(std::fabs(k - near) <= std::fabs(k) * 1e-15L, << "roundFrac(" << buf << ", " << digits << ") = " << r << " has more decimal places");
		REQUIRE(jm::roundFrac(r, (int64)digits) == r || std::fabs(jm::roundFrac(r, (int64)digits) - r) <= ulp, << "rounding twice, " << buf);
		if(std::fabs(a) < 1e30) { float fa = (float)a, fr2 = jm::roundFrac(fa, (int32)digits); REQUIRE(std::fabs((double)fr2 - fa) <= 0.5 / f * (1 + 1e-6) + std::fabs(fa) * 2e-7, << "roundFrac(float " << fa << ", " << digits << ") = " << fr2); }
	}
	// interpolation
	if(std::fabs(a) < 1e100 && std::fabs(b) < 1e100)
	{
		double p = s.chance(1, 3) ? s.pick({0.0, 1.0, 0.5}) : s.real(0, 1), m = std::max(std::fabs(a), std::fabs(b)), e = a + p * (b - a);
		REQUIRE(std::fabs(jm::interpolate(a, b, p) - e) <= 1e-15 * 4 * m + 1e-300, << "interpolate " << buf << " at " << p); REQUIRE_EQ(jm::interpolate(a, b, 0.0), a, << "interpolate at 0"); REQUIRE_EQ(jm::interpolate(a, a, p), a, << "interpolate between equal values");
		REQUIRE(std::fabs(jm::interpolate(a, b, 1.0) - b) <= 1e-15 * 4 * m + 1e-300, << "interpolate " << buf << " at 1");
		double lo = s.grid(-100, 100, 4), hi = lo + 0.25 + s.grid(0, 100, 4), pos = lo + p * (hi - lo); double q = (pos - lo) / (hi - lo);
		REQUIRE(std::fabs(jm::interpolate(a, b, lo, hi, pos) - (a + q * (b - a))) <= 1e-13 * m + 1e-300, << "interpolate " << buf << " at " << pos << " of " << lo << ".." << hi);
		float fa = (float)std::fmod(a, 1e30), fb = (float)std::fmod(b, 1e30), fp = (float)p; REQUIRE(std::fabs(jm::interpolate(fa, fb, fp) - ((double)fa + (double)fp * ((double)fb - fa))) <= 1e-6 * (std::fabs(fa) + std::fabs(fb)) + 1e-40, << "interpolate(float) " << buf << " at " << p);
	}
	double x = a, y = b; jm::swap(x, y); REQUIRE(memcmp(&x, &b, 8) == 0 && memcmp(&y, &a, 8) == 0, << "swap of " << buf);
	ctx.nontrivial();
}
template<class T> static void swaps(Src& s, Ctx& ctx, const char* name)
{
	T a = (T)s.any64(), b = s.chance(1, 4) ? a : (T)s.any64(), x = a, y = b; NOTE("swap " << name << " " << +a << " " << +b); jm::swap(x, y);
	REQUIRE(x == b && y == a, << "swap of " << name << " " << +a << ", " << +b << " gives " << +x << ", " << +y);
	jm::swap(x, x); REQUIRE_EQ(+x, +b, << "swap of " << name << " with itself");
}
static void integers(Src& s, Ctx& ctx)
{
	switch(s.choice(3)) { case 0: swaps<int32>(s, ctx, "int32"); break; case 1: swaps<uint32>(s, ctx, "uint32"); break; case 2: swaps<uint16>(s, ctx, "uint16"); break; default: swaps<uint8>(s, ctx, "uint8"); }
	double dx = genD(s), dy = dx; jm::swap(dx, dx); REQUIRE(memcmp(&dx, &dy, 8) == 0, << "swap of a double with itself");
	int64 a = (int64)s.any64(), b = (int64)s.any64(); if(s.coin()) a = s.si(-100, 100); if(s.coin()) b = s.si(-20, 20); NOTE("integers " << a << " and " << b);
	if(b != 0)
	{
		__int128 q = (__int128)a / b, r = (__int128)a % b; if(r != 0 && ((r < 0) != (b < 0))) { q--; r += b; }
		REQUIRE_EQ(jm::modFloor(a, b), (int64)r, << "modFloor(" << a << ", " << b << ")"); if(!(a == INT64_MIN && b == -1)) REQUIRE_EQ(jm::divFloor(a, b), (int64)q, << "divFloor(" << a << ", " << b << ")");
	}
	int32 p = (int32)s.any64(); bool pw = p > 0 && __builtin_popcount((unsigned)p) == 1; REQUIRE_EQ(jm::powerOf2(p), pw, << "powerOf2(" << p << ")"); int sh = (int)s.choice(30); REQUIRE(jm::powerOf2(1 << sh), << "powerOf2(" << (1 << sh) << ")");
	uint32 u = 1 + (uint32)(s.any64() % 0x80000000u), c = 1; while(c < u) c <<= 1; REQUIRE_EQ(jm::ceilPowerOf2(u), c, << "ceilPowerOf2(" << u << ")"); REQUIRE_EQ(jm::ceilPowerOf2(1u << sh), 1u << sh, << "ceilPowerOf2 of a power of two");
	int32 lo = (int32)s.any64(), hi = (int32)s.any64(); if(s.coin()) { lo = (int32)s.si(-10, 10); hi = lo + (int32)s.choice(5); } if(lo > hi) std::swap(lo, hi);
	unsigned seed = (unsigned)s.choice(0xFFFFFF); srand(seed); NOTE("random numbers in " << lo << ".." << hi << " from " << seed);
	std::set<int32> seen; for(int i = 0; i < 20; i++) { int32 z = jm::random(lo, hi); REQUIRE(z >= lo && z <= hi, << "random number " << z << " not in " << lo << ".." << hi); seen.insert(z); }
	if((int64)hi - lo > 1000) REQUIRE(seen.size() > 3, << "twenty random numbers in " << lo << ".." << hi << " are all the same");
	for(int i = 0; i < 5; i++) { double d = jm::random(); REQUIRE(d >= 0 && d <= 1, << "random number " << d); }
	bool anyTrue = false, anyFalse = false; for(int i = 0; i < 60; i++) { anyTrue |= jm::probability(0.0); anyFalse |= !jm::probability(1.0); } REQUIRE(!anyTrue, << "an event with probability 0 happened"); REQUIRE(!anyFalse, << "an event with probability 1 did not happen");
	REQUIRE_EQ(jm::doubleMaschineEpsilon(), std::ldexp(1.0, -53), << "machine epsilon"); REQUIRE_EQ(jm::floatMaschineEpsilon(), std::ldexp(1.0f, -24), << "machine epsilon (float)");
	ctx.nontrivial();
}
static void run(Src& s, Ctx& ctx)
{
	switch(s.weighted({6, 3, 3})) { case 0: ctx.label("relations"); relations(s, ctx); break; case 1: ctx.label("helpers"); helpers(s, ctx); break; default: ctx.label("integers"); integers(s, ctx); }
}
const Def& pbt::definition()
{
	static Def d{"P32", "pairs of numbers near the tolerance or large ones, helper calls", 5000000, 80000000, jmInit, run};
	d.assumptions = {"finite doubles; ceilPowerOf2 for 1 to 2^31, divFloor for non-zero divisors and a quotient of 64 bits"};
	return d;
}
