// P31: colours
#include "jmh.hpp"
using jm::Color; using jm::ColorMode;
struct M { ColorMode mode; int c[4]; int a; }; // the model: components as given
static uint8 comp(Src& s) { return (uint8)(s.chance(1, 3) ? s.pick({0, 255, 1, 254, 127, 128}) : s.byte()); }
static M genM(Src& s, int mode = -1)
{
	M m; m.mode = (ColorMode)(mode >= 0 ? mode : (int)s.choice(2)); for(int& c : m.c) c = comp(s); m.a = s.coin() ? 255 : comp(s);
	if(m.mode == ColorMode::kRgb && s.chance(1, 5)) { m.c[1] = m.c[0]; if(s.coin()) m.c[2] = m.c[0]; }
	return m;
}
static Color make(const M& m)
{
	switch(m.mode) { case ColorMode::kGrey: return Color::fromGrey((uint8)m.c[0], (uint8)m.a); case ColorMode::kRgb: return Color::fromRgb((uint8)m.c[0], (uint8)m.c[1], (uint8)m.c[2], (uint8)m.a); default: return Color::fromCmyk((uint8)m.c[0], (uint8)m.c[1], (uint8)m.c[2], (uint8)m.c[3], (uint8)m.a); }
}
static int n(ColorMode m) { return m == ColorMode::kGrey ? 1 : m == ColorMode::kRgb ? 3 : 4; }
static std::ostream& operator<<(std::ostream& o, const M& m) { o << (m.mode == ColorMode::kGrey ? "grey(" : m.mode == ColorMode::kRgb ? "rgb(" : "cmyk("); for(int i = 0; i < n(m.mode); i++) o << (i ? "," : "") << m.c[i]; return o << " alpha " << m.a << ")"; }
static M read(const Color& c)
{
	M m{c.mode(), {0, 0, 0, 0}, c.alpha()};
	switch(m.mode) { case ColorMode::kGrey: m.c[0] = c.grey(); break; case ColorMode::kRgb: m.c[0] = c.red(); m.c[1] = c.green(); m.c[2] = c.blue(); break; default: m.c[0] = c.cyan(); m.c[1] = c.magenta(); m.c[2] = c.yellow(); m.c[3] = c.key(); }
	return m;
}
static bool same(const M& a, const M& b) { if(a.mode != b.mode || a.a != b.a) return false; for(int i = 0; i < n(a.mode); i++) if(a.c[i] != b.c[i]) return false; return true; }
static void near(const M& got, const M& want, int tol, const char* what)
{
	REQUIRE(got.mode == want.mode, << what << ": mode of " << got); REQUIRE_EQ(got.a, want.a, << what << " (alpha)");
	for(int i = 0; i < n(want.mode); i++) REQUIRE(std::abs(got.c[i] - want.c[i]) <= tol, << what << ": " << got << " instead of " << want);
}
static M rgbOf(const M& m)
{
	M r{ColorMode::kRgb, {0, 0, 0, 0}, m.a};
	for(int i = 0; i < 3; i++) r.c[i] = m.mode == ColorMode::kRgb ? m.c[i] : m.mode == ColorMode::kGrey ? m.c[0] : 255 - std::min(255, m.c[i] + m.c[3]);
	return r;
}
static void convert(Src& s, Ctx& ctx)
{
	M m = genM(s); NOTE("colour " << m); Color c = make(m); REQUIRE(same(read(c), m), << "the colour " << m << " reads as " << read(c));
	M rgb = rgbOf(m); Color r = c; const Color& back = r.toRgb(); near(read(r), rgb, 0, "as RGB"); REQUIRE(&back == &r, << "toRgb returns another colour"); REQUIRE(same(read(c), m), << "converting a copy changed the colour");
	Color g = c; g.toGreyScale();
	double y = 0.2126 * rgb.c[0] + 0.7152 * rgb.c[1] + 0.0722 * rgb.c[2];
	if(m.mode == ColorMode::kGrey) near(read(g), m, 0, "as grey");
	else
	{
		M gm = read(g); REQUIRE(gm.mode == ColorMode::kGrey, << "toGreyScale gives " << gm); REQUIRE_EQ(gm.a, m.a, << "toGreyScale (alpha)");
		REQUIRE(std::abs(gm.c[0] - y) <= 1.0, << m << " becomes " << gm << ", the formula gives " << y);
		if(rgb.c[0] == 255 && rgb.c[1] == 255 && rgb.c[2] == 255) REQUIRE(g.isWhite(), << "white becomes " << gm);
	}
	Color k = c; k.toCmyk(); M km = read(k);
	if(m.mode == ColorMode::kGrey) near(km, M{ColorMode::kCmyk, {0, 0, 0, 255 - m.c[0]}, m.a}, 0, "grey as CMYK");
	else if(m.mode == ColorMode::kCmyk) near(km, m, 0, "CMYK as CMYK");
	else
	{
		int mx = std::max({m.c[0], m.c[1], m.c[2]}); M w{ColorMode::kCmyk, {0, 0, 0, 255 - mx}, m.a};
		REQUIRE(km.mode == ColorMode::kCmyk, << "toCmyk gives " << km); REQUIRE_EQ(km.a, m.a, << "toCmyk (alpha)"); REQUIRE(std::abs(km.c[3] - w.c[3]) <= 1, << "black of " << m << " is " << km);
		for(int i = 0; i < 3; i++) { double e = mx == 0 ? 0 : 255.0 * (mx - m.c[i]) / mx; REQUIRE(std::abs(km.c[i] - e) <= 1.0, << m << " becomes " << km << ", component " << i << " should be " << e); }
		if(m.c[0] == m.c[1] && m.c[1] == m.c[2]) { Color q = k; q.toRgb(); near(read(q), m, 1, "neutral colour to CMYK and back"); }
	}
	if(m.mode == ColorMode::kGrey) { k.toRgb(); k.toGreyScale(); near(read(k), m, 0, "grey to CMYK, RGB and back"); r.toGreyScale(); near(read(r), m, 0, "grey to RGB and back"); }
	bool white = m.mode == ColorMode::kGrey ? m.c[0] == 255 : m.mode == ColorMode::kRgb ? m.c[0] + m.c[1] + m.c[2] == 765 : m.c[0] + m.c[1] + m.c[2] + m.c[3] == 0;
	REQUIRE_EQ(c.isWhite(), white, << "isWhite of " << m);
	// HSV
	float h = -1, sa = -1, v = -1; c.hsvModel(h, sa, v); int mx = std::max({rgb.c[0], rgb.c[1], rgb.c[2]}), mn = std::min({rgb.c[0], rgb.c[1], rgb.c[2]});
	double eh = 0, es = mx ? (mx - mn) / (double)mx : 0, ev = mx / 255.0, dlt = mx - mn;
	if(mx != mn) { if(mx == rgb.c[0]) eh = 60 * (rgb.c[1] - rgb.c[2]) / dlt; else if(mx == rgb.c[1]) eh = 120 + 60 * (rgb.c[2] - rgb.c[0]) / dlt; else eh = 240 + 60 * (rgb.c[0] - rgb.c[1]) / dlt; if(eh < 0) eh += 360; }
	REQUIRE(std::abs(h - eh) < 1e-3 && std::abs(sa - es) < 1e-5 && std::abs(v - ev) < 1e-5, << "HSV of " << m << ": " << h << "," << sa << "," << v << " expected " << eh << "," << es << "," << ev);
	Color f = Color::FromHsv(h, sa, v, (float)m.a / 255.0f); M fm = read(f); REQUIRE(std::abs(fm.a - m.a) <= 1, << "alpha " << m.a << " from HSV is " << fm.a); fm.a = rgb.a; near(fm, rgb, 1, "RGB to HSV and back");
	if(m.mode != ColorMode::kGrey && mx != mn) ctx.nontrivial();
}
static void hsv(Src& s, Ctx& ctx)
{
	double h = s.chance(1, 3) ? 60.0 * (double)s.choice(6) : s.real(0, 360), sa = s.chance(1, 4) ? (double)s.choice(1) : s.real(0, 1), v = s.chance(1, 4) ? (double)s.choice(1) : s.real(0, 1);
	float hf = (float)h; if(hf > 360.0f) hf = 360.0f;
	NOTE("hsv " << hf << " " << sa << " " << v); Color c = Color::FromHsv(hf, (float)sa, (float)v); M m = read(c);
	auto fch = [&](double k) { k = std::fmod(k + (double)hf / 60.0, 6.0); return 255.0 * ((float)v - (float)v * (float)sa * std::max(0.0, std::min({k, 4.0 - k, 1.0}))); };
	double e[3] = {fch(5), fch(3), fch(1)}; REQUIRE(m.mode == ColorMode::kRgb && m.a == 255, << "FromHsv gives " << m);
	for(int i = 0; i < 3; i++) REQUIRE(std::abs(m.c[i] - e[i]) <= 1.001, << "FromHsv(" << hf << "," << sa << "," << v << ") is " << m << ", component " << i << " should be " << e[i]);
	ctx.nontrivial();
}
static void equality(Src& s, Ctx& ctx)
{
	M a = genM(s), b = s.coin() ? a : genM(s);
	if(s.coin()) { size_t i = s.choice(4); if(i == 4) b.a = comp(s); else b.c[i] = comp(s); } if(s.chance(1, 6)) b.mode = (ColorMode)s.choice(2);
	NOTE(a << " and " << b); Color x = make(a), y = make(b); bool eq = same(a, b);
	REQUIRE_EQ(x == y, eq, << a << " == " << b); REQUIRE_EQ(y == x, eq, << b << " == " << a); REQUIRE_EQ(x != y, !eq, << a << " != " << b);
	Color z; z = y; REQUIRE(z == y && same(read(z), b), << "assigned " << b << " reads " << read(z)); z = *&z; REQUIRE(same(read(z), b), << "self assignment");
	if(a.mode == b.mode)
	{
		M d = read(x - y), p = read(x + y);
		REQUIRE(d.mode == a.mode && p.mode == a.mode, << "mode of the sum"); REQUIRE_EQ(p.a, (a.a + b.a) & 255, << "alpha of the sum"); REQUIRE_EQ(d.a, (a.a - b.a) & 255, << "alpha of the difference");
		for(int i = 0; i < n(a.mode); i++) { REQUIRE_EQ(p.c[i], (a.c[i] + b.c[i]) & 255, << "component " << i << " of " << a << " + " << b); REQUIRE_EQ(d.c[i], (a.c[i] - b.c[i]) & 255, << "component " << i << " of " << a << " - " << b); }
		REQUIRE(same(read((x + y) - y), a), << "(a+b)-b for " << a << " and " << b);
	}
	// setters change one component
	size_t which = s.choice(5); uint8 v = comp(s); M w = b; NOTE("set " << which << " to " << (int)v);
	if(which == 5) { z.setAlpha(v); w.a = v; }
	else if(which == 4 || b.mode == ColorMode::kGrey) { if(b.mode == ColorMode::kGrey) { z.setGrey(v); w.c[0] = v; } else { z.setMode(b.mode); } }
	else if(b.mode == ColorMode::kRgb) { switch(which % 3) { case 0: z.setRed(v); break; case 1: z.setGreen(v); break; default: z.setBlue(v); } w.c[which % 3] = v; }
	else { switch(which) { case 0: z.setCyan(v); break; case 1: z.setMagenta(v); break; case 2: z.setYellow(v); break; default: z.setKey(v); } w.c[which] = v; }
	REQUIRE(same(read(z), w), << "after setting a component: " << read(z) << " instead of " << w);
	ctx.nontrivial();
}
static void blending(Src& s, Ctx& ctx)
{
	M a = genM(s), b = genM(s); bool opaque = s.coin(); if(opaque) a.a = b.a = 255; uint8 al = comp(s);
	NOTE("background " << a << " foreground " << b << " opacity " << (int)al); Color x = make(a), y = make(b); M ra = rgbOf(a), rb = rgbOf(b);
	M m = read(jm::blend(x, y, al)); REQUIRE(m.mode == ColorMode::kRgb, << "blend gives " << m);
	REQUIRE(same(read(x), a) && same(read(y), b), << "blend changed its operands");
	if(a.a == 255 && b.a == 255)
	{
		REQUIRE_EQ(m.a, 255, << "alpha of opaque colours");
		for(int i = 0; i < 3; i++)
		{
			double e = (al * rb.c[i] + (255 - al) * ra.c[i]) / 255.0; REQUIRE(std::abs(m.c[i] - e) <= 1.0, << "component " << i << ": " << m.c[i] << ", expected " << e);
			REQUIRE(m.c[i] >= std::min(ra.c[i], rb.c[i]) && m.c[i] <= std::max(ra.c[i], rb.c[i]), << "component " << i << " is not between the operands: " << m.c[i]);
			if(al == 0) REQUIRE_EQ(m.c[i], ra.c[i], << "opacity 0"); if(al == 255) REQUIRE_EQ(m.c[i], rb.c[i], << "opacity 255");
		}
	}
	else
	{
		double fa = rb.a / 255.0, ba = ra.a / 255.0, ea = fa + (1 - fa) * ba; REQUIRE(std::abs(m.a - 255 * ea) <= 1.0, << "alpha " << m.a << ", expected " << 255 * ea);
		if(ea > 0) for(int i = 0; i < 3; i++)
		{
			double e = (fa * rb.c[i] + (1 - fa) * ba * ra.c[i]) / ea; REQUIRE(std::abs(m.c[i] - e) <= 1.01, << "component " << i << ": " << m.c[i] << ", expected " << e);
		}
		if(b.a == 255) REQUIRE_EQ(m.a, 255, << "opaque foreground");
	}
	float p = (float)(s.chance(1, 3) ? s.pick({0.0, 1.0, 0.5}) : s.real(0, 1)); M ip = read(jm::interpolate(x, y, p)); NOTE("interpolate " << p);
	REQUIRE(ip.mode == ColorMode::kRgb, << "interpolate gives " << ip); ra.c[3] = ra.a; rb.c[3] = rb.a; ip.c[3] = ip.a;
	for(int i = 0; i < 4; i++)
	{
		double e = ra.c[i] + (rb.c[i] - ra.c[i]) * (double)p; REQUIRE(std::abs(ip.c[i] - e) <= 1.001 && ip.c[i] >= std::min(ra.c[i], rb.c[i]) && ip.c[i] <= std::max(ra.c[i], rb.c[i]), << "component " << i << ": " << ip.c[i] << " expected " << e);
		if(p == 0) REQUIRE_EQ(ip.c[i], ra.c[i], << "at 0"); if(p == 1) REQUIRE_EQ(ip.c[i], rb.c[i], << "at 1");
	}
	ctx.nontrivial();
}
static void run(Src& s, Ctx& ctx)
{
	switch(s.weighted({5, 2, 3, 4})) { case 0: ctx.label("conversions"); convert(s, ctx); break; case 1: ctx.label("HSV"); hsv(s, ctx); break; case 2: ctx.label("equality, sums, setters"); equality(s, ctx); break; default: ctx.label("blending"); blending(s, ctx); }
}
static bool cmykRound(std::string& w)
{
	int bad = 0; Color worst; for(int r = 0; r < 256; r += 15) for(int g = 0; g < 256; g += 15) for(int b = 0; b < 256; b += 15) { Color c = Color::fromRgb((uint8)r, (uint8)g, (uint8)b), d = c; d.toCmyk(); d.toRgb(); if(std::abs(d.red() - r) > 1 || std::abs(d.green() - g) > 1 || std::abs(d.blue() - b) > 1) bad++; }
	Color d = Color::fromRgb(200, 100, 50); d.toCmyk(); d.toRgb(); std::ostringstream o; o << bad << " of 5832 RGB colours do not return from CMYK, rgb(200,100,50) becomes " << read(d); w = o.str(); return bad > 0;
}
const Def& pbt::definition()
{
	static Def d{"P31", "colours that are not neutral grey, in all modes", 8000000, 200000000, jmInit, run};
	d.assumptions = {"the hue is given in degrees, as hsvModel returns it", "the opacity given to blend counts for opaque colours only; for others the colours' own alpha values are used"};
	d.probes = {{"rgb-cmyk-rgb", cmykRound}};
	return d;
}
