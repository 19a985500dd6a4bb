// P03: numbers and text
#include "jmh.hpp"
using jm::String; using jm::Char; using jm::Integer;

static std::string hexRef(uint64_t v) { char t[32]; snprintf(t, sizeof t, "%llX", (unsigned long long)v); return t; }
static std::string roman(int64_t n)
{
	static const char* r[] = {"M", "CM", "D", "CD", "C", "XC", "L", "XL", "X", "IX", "V", "IV", "I"}; static const int v[] = {1000, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1};
	std::string o; for(int i = 0; i < 13; i++) while(n >= v[i]) { o += r[i]; n -= v[i]; } return o;
}
static std::string alphabet(int64_t n) { std::string o; while(n > 0) { n--; o.insert(o.begin(), (char)('A' + n % 26)); n /= 26; } return o; }
static bool dig(char16_t c) { return c >= '0' && c <= '9'; }

static std::u16string pad(const std::u16string& v, int64_t w, char16_t f)
{
	std::u16string r = v; int64_t n = (w < 0 ? -w : w) - (int64_t)v.size();
	if(n > 0) { if(w > 0) r.insert((size_t)0, (size_t)n, f); else r.append((size_t)n, f); }
	return r;
}
// substitutes the placeholder with the lowest number (first of them)
static std::u16string argRef(const std::u16string& t, const std::u16string& v)
{
	long best = -1; size_t end = 0; int low = 100;
	for(size_t i = 0; i + 1 < t.size(); i++) if(t[i] == '%' && dig(t[i + 1]))
	{
		int n = t[i + 1] - '0'; size_t e = i + 2; if(e < t.size() && dig(t[e])) { n = n * 10 + (t[e] - '0'); e++; }
		if(n < low) { low = n; best = (long)i; end = e; }
	}
	if(best < 0) return t;
	return t.substr(0, (size_t)best) + v + t.substr(end);
}
static double anyDouble(Src& s)
{
	switch(s.choice(5))
	{
		case 0: return (double)s.si(-1000, 1000);
		case 1: return (double)s.si(-100000000, 100000000) / s.pick<double>({2, 4, 8, 10, 100, 1000, 1e6});
		case 2: return (double)s.si(-999999, 999999) * std::pow(10.0, (double)s.i(-20, 20));
		case 3: { uint64_t b = s.choice(~0ull); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; }
		case 4: return s.pick<double>({0.0, -0.0, 1e-6, -1e-6, 1e-7, -1e-7, 0.5, -0.5, 0.05, 0.005, 0.9999, 0.99999, -0.99999, 9.9999, 99.995, 1e15, -1e15, 123456.789, 0.1, 0.2, 0.3});
		default: return s.real(-5, 5);
	}
}

static void run(Src& s, Ctx& ctx)
{
	int kind = (int)s.choice(8);
	switch(kind)
	{
		case 0: case 1:
		{
			int64_t v = s.anyInt64(); std::string r = std::to_string(v); NOTE("integer " << r << "\n");
			REQUIRE_EQ(A(String::valueOf((int64)v)), r);
			REQUIRE_EQ(A(String::valueOf((uint64)v)), std::to_string((uint64_t)v));
			REQUIRE_EQ(A(String::valueOf((int32)v)), std::to_string((int32_t)v));
			REQUIRE_EQ(A(String::valueOf((uint32)v)), std::to_string((uint32_t)v));
			REQUIRE_EQ((int64_t)JA(r).toInt(), v);
			REQUIRE_EQ((int64_t)String::valueOf((int64)v).toInt(), v);
			REQUIRE_EQ((int)Integer::digits(v), (int)r.size());
			String h = Integer::toHexString(v); REQUIRE_EQ(A(h), hexRef((uint64_t)v)); REQUIRE_EQ((int64_t)Integer::fromHex(h), v);
			std::string low = hexRef((uint64_t)v); for(auto& c : low) if(s.coin()) c = (char)tolower(c); REQUIRE_EQ((int64_t)Integer::fromHex(JA(low)), v);
			uint32 b = (uint32)s.choice(low.size() - 1), n = (uint32)s.choice(low.size() - b); REQUIRE_EQ((uint64_t)Integer::fromHex(JA(low), b, n), n ? strtoull(low.substr(b, n).c_str(), nullptr, 16) : 0ull, << low << " from " << b << " size " << n);
			if(s.chance(1, 4))
			{
				// numbers added to a text
				std::u16string b = genText(s, 8); String base = J(b); int64 v64 = v; int8 c8 = (int8)(' ' + s.choice(90)); const char* cs = "c-text";
				REQUIRE(U16(base + v64) == b + W(r) && U16(v64 + base) == W(r) + b, << "text + integer " << r); REQUIRE(U16(base + c8) == b + std::u16string(1, (char16_t)c8) && U16(c8 + base) == std::u16string(1, (char16_t)c8) + b, << "text + character");
				REQUIRE(U16(base + cs) == b + u"c-text" && U16(cs + base) == u"c-text" + b, << "text + C string"); REQUIRE(U16(base) == b, << "an operand was changed");
				String o = base; o << (int64)v << (uint64)v << (int32)v << (uint32)v << (char)c8 << Char(u'\u00e4'); std::u16string w = b + W(r + std::to_string((uint64_t)v) + std::to_string((int32_t)v) + std::to_string((uint32_t)v)) + (char16_t)c8 + u"\u00e4"; REQUIRE(U16(o) == w, << quote16(U16(o)) << " was appended, expected " << quote16(w));
				ctx.label("numbers appended");
			}
			if(v <= -10 || v >= 10) ctx.nontrivial(); if(v < 0) ctx.label("negative integer"); ctx.key(hash64(1, (uint64_t)v));
			break;
		}
		case 2:
		{
			int64_t n = s.coin() ? (int64_t)s.choice(4100) : (int64_t)s.choice(20000); NOTE("roman, alphabet " << n << "\n");
			REQUIRE_EQ(A(Integer::toRomanString(n)), roman(n));
			int64_t m = s.coin() ? n : (int64_t)(s.any64() >> 1); REQUIRE_EQ(A(Integer::toLatinAlphabetString(m)), alphabet(m), << "number " << m);
			if(n > 3) ctx.nontrivial(); ctx.key(hash64(2, (uint64_t)n ^ (uint64_t)m << 20)); ctx.label("roman/alphabet"); break;
		}
		case 3: case 4:
		{
			double d = anyDouble(s); char t[64]; snprintf(t, sizeof t, "%.10g", d); NOTE("double " << t << "\n");
			REQUIRE_EQ(A(String::valueOf(d)), std::string(t));
			char f[64]; snprintf(f, sizeof f, "%.17g", d);
			if(d == 0 || std::fabs(d) > 1e-300) { double back = JA(f).toDouble(); REQUIRE(back == d, << f << " is read as " << back); std::string c = f; for(auto& q : c) if(q == '.') q = ','; double b2 = jm::ConvertToDouble(JA(c)); REQUIRE(b2 == d, << c << " is read as " << b2); REQUIRE(jm::ConvertToDouble(JA(f)) == d); }
			{ std::u16string b = u"d="; String base = J(b), o = base; o << d; double e = d; REQUIRE(U16(o) == b + W(t) && U16(base + e) == b + W(t) && U16(e + base) == W(t) + b, << "text and double " << t); }
			uint64_t bits; memcpy(&bits, &d, 8); ctx.nontrivial(); ctx.key(hash64(3, bits)); ctx.label("double"); break;
		}
		case 5: case 6:
		{
			double d = s.chance(1, 2) ? anyDouble(s) : (double)s.si(-10000000, 10000000) / s.pick<double>({10, 100, 1000, 10000, 100000, 1e7, 1e9});
			int64 p = s.chance(1, 4) ? s.i(0, 25) : s.i(1, 9); bool wide = s.chance(1, 4); if(s.chance(1, 30)) d = s.pick({HUGE_VAL, -HUGE_VAL, std::nan("")});
			if(!std::isfinite(d)) { std::string r = A(String::valueOf(d, p, s.coin())); REQUIRE(r == (std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf"), << "infinite or undefined: " << r); ctx.label("not finite"); break; }
			if(!wide && !(std::fabs(d) < 1e9)) d = std::fmod(d, 1e9); bool trunc = s.coin(); NOTE("valueOf(" << d << ", " << p << ", " << trunc << ")\n");
			std::string r = A(String::valueOf(d, p, trunc)); NOTE(r << "\n");
			size_t comma = r.find(','); std::string in = comma == std::string::npos ? r : r.substr(0, comma), fr = comma == std::string::npos ? "" : r.substr(comma + 1);
			if(!trunc) REQUIRE((int64)fr.size() == p, << r << " has not " << p << " digits");
			else REQUIRE((int64)fr.size() <= p && (p == 0 || fr.empty() ? comma == std::string::npos : fr.back() != '0'), << r);
			for(char c : fr) REQUIRE(c >= '0' && c <= '9', << r);
			size_t q = in.size() && in[0] == '-' ? 1 : 0; REQUIRE(in.size() > q, << r); for(size_t i = q; i < in.size(); i++) REQUIRE(in[i] >= '0' && in[i] <= '9', << r);
			REQUIRE(in.size() == q + 1 || in[q] != '0', << r);
			long double v = strtold((in + "." + fr + "0").c_str(), nullptr), tol = 0.5L * std::pow(10.0L, -(long double)p), err = p > 12 || std::fabs(d) >= 1e15 ? 0 : 1e-12L * std::pow(10.0L, -(long double)std::max<int64>(0, p - 9)); // the digits are those of the number, the last one is rounded
			REQUIRE(std::fabs(v - (long double)d) <= tol * (1 + 1e-6L) + err + std::fabs((long double)d) * 1e-18L, << r << " is not " << d << " rounded to " << p << " digits");
			uint64_t bits; memcpy(&bits, &d, 8); ctx.nontrivial(); ctx.key(hash64(4, bits ^ (uint64_t)p << 3 ^ (uint64_t)trunc)); ctx.label("rounded double"); break;
		}
		case 7: case 8:
		{
			// template with up to 4 placeholders
			std::u16string t; size_t n = s.len(14);
			for(size_t i = 0; i < n; i++) switch(s.weighted({6, 5, 2})) { case 0: t += genChar(s); break; case 1: t += W("%" + std::to_string(s.coin() ? s.u(1, 4) : s.u(0, 120))); break; default: t += u'%'; if(s.chance(1, 3)) t += W("0" + std::to_string(s.choice(9))); }
			int64 w = s.coin() ? 0 : s.si(-12, 12); char16_t f = s.pick<char16_t>({u' ', u'0', u'.', u'\u00e4'}); String js = J(t); std::u16string v; String r; NOTE("template " << quote16(t) << " width " << w << "\n");
			switch(s.choice(6))
			{
				case 0: { int64_t x = s.anyInt64(); v = W(std::to_string(x)); r = js.arg((int64)x, w, Char(f)); break; }
				case 1: { uint64_t x = s.any64(); v = W(std::to_string(x)); r = js.arg((uint64)x, w, Char(f)); break; }
				case 2: { int32_t x = (int32_t)s.any64(); v = W(std::to_string(x)); r = js.arg((int32)x, w, Char(f)); break; }
				case 3: { uint32_t x = (uint32_t)s.any64(); v = W(std::to_string(x)); r = js.arg((uint32)x, w, Char(f)); break; }
				case 4: { v = genText(s, 8); r = js.arg(J(v), w, Char(f)); break; }
				case 5: { char16_t c = genChar(s); v = std::u16string(1, c); r = js.arg(Char(c), w, Char(f)); break; }
				default: { double d = (double)s.si(-100000, 100000) / 64.0; int64 p = s.i(-1, 6); if(p == 0) p = 2; v = U16(String::valueOf(d, p < 0 ? 10 : p, p < 0)); r = js.arg(d, w, p, Char(f)); break; }
			}
			std::u16string e = argRef(t, pad(v, w, f));
			REQUIRE(U16(r) == e, << "template " << quote16(t) << " with " << quote16(v) << " width " << w << " gives " << quote16(U16(r)) << ", expected " << quote16(e));
			REQUIRE(U16(js) == t, << "arg changed its template");
			if(e != t) ctx.nontrivial(); ctx.label("arg"); if(e == t) ctx.label("arg without placeholder"); if(w) ctx.label("arg with width"); break;
		}
	}
	if(s.chance(1, 10))
	{
		// what is no integer is refused
		std::u16string t = genText(s, 8); bool num = true; for(size_t i = 0; i < t.size(); i++) num = num && (dig(t[i]) || (i == 0 && t[i] == '-'));
		if(!num) { REQUIRE(throwsJm([&]() { (void)J(t).toInt(); }), << quote16(t) << " is accepted as a number"); ctx.label("refused text"); }
		// numbers beyond 64 bits are refused, too, and those just inside are not
		{
			std::string d; switch(s.choice(2)) { case 0: d = s.pick({"9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775810", "9223372036854775799", "10000000000000000000", "18446744073709551615", "18446744073709551616", "922337203685477580", "99999999999999999999"}); break; case 1: { size_t n = 17 + s.choice(8); for(size_t i = 0; i < n; i++) d += (char)('0' + s.choice(9)); break; } default: d = "922337203685477" + std::to_string(1000 + s.choice(8999)); }
			size_t zeros = s.choice(3); std::string digits = d.substr(std::min(d.find_first_not_of('0'), d.size() - 1)), x = std::string(zeros, '0') + d; bool neg = s.coin(); if(neg) x = "-" + x;
			std::string most = neg ? "9223372036854775808" : "9223372036854775807"; bool fits = digits.size() < most.size() || (digits.size() == most.size() && digits <= most); int64 got = 0; bool refused = throwsJm([&] { got = JA(x).toInt(); });
			NOTE("integer " << x << "\n"); REQUIRE_EQ(refused, !fits, << x << (refused ? " is refused" : " is accepted as a 64 bit number")); if(fits) REQUIRE_EQ((long long)got, strtoll(x.c_str(), nullptr, 10)); else ctx.label("beyond 64 bits");
		}
		std::u16string b = s.pick<const char16_t*>({u"true", u"false", u"TRUE", u"True", u"tru", u"1", u""}); std::string l; for(char16_t c : b) l += (char)tolower(c);
		REQUIRE_EQ(J(b).toBool(), l == "true"); REQUIRE_EQ(A(String::valueOf(true)), std::string("true")); REQUIRE_EQ(A(String::valueOf(false)), std::string("false"));
	}
}
const Def& pbt::definition()
{
	static Def d{"P03", "64-bit integers at all magnitudes and borders in decimal and hexadecimal, Roman and alphabetic numerals; doubles of all magnitudes with 10 and 17 digits and rounded to 0..25 places; templates with several placeholders, widths and fill characters. Non-trivial: integers of at least two digits, any double, templates where a placeholder is replaced; distinct by value.", 2000000, 40000000, jmInit, run};
	d.assumptions = {"Ties may round either way."};
	return d;
}
