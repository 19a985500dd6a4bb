// P08: character encodings against the published ones
#include "jmh.hpp"
#include "codepages.hpp"
#include "core/Charset.h"
using namespace jm;
typedef std::u16string T;
static std::string bytesOf(const ByteArray& b) { std::string o((const char*)(b.isNull() ? "" : b.constData()), (size_t)b.size()); REQUIRE(b.isNull() || b.constData()[b.size()] == 0, << "no terminator"); return o; }
static T textOf(const CharArray& a) { T o; for(int64 i = 0; i < a.length; i++) o += (char16_t)a.buffer[i].unicode(); return o; }
static CharArray arrayOf(const T& t) { CharArray a((int64)t.size()); for(size_t i = 0; i < t.size(); i++) a.buffer[i] = Char((uint16)t[i]); return a; }
static bool bom16(const T& t, bool be)
{
	if(t.empty()) return false; std::string b; for(size_t i = 0; i < t.size() && i < 2; i++) { b += (char)(be ? t[i] >> 8 : t[i] & 255); b += (char)(be ? t[i] & 255 : t[i] >> 8); }
	return b.substr(0, 2) == "\xFE\xFF" || b.substr(0, 2) == "\xFF\xFE" || b.substr(0, 3) == "\xEF\xBB\xBF";
}
static const char* NAMES[] = {"UTF-8", "Windows-1252", "MacRoman", "UTF-16LE", "UTF-16BE", "RAW", "ASCII"};
// text representable in encoding e, without NUL and byte order marks
static T textFor(Src& s, int e)
{
	T t; size_t n = s.len(24), longer = longLen(s, 10010);
	for(size_t i = 0; i < n; i++)
	{
		char16_t c; int k = (int)s.choice(3);
		if(e == 1) c = k ? CP1252[s.choice(255)] : CP1252[128 + s.choice(127)]; else if(e == 2) c = k ? MACROMAN[s.choice(255)] : MACROMAN[128 + s.choice(127)]; else if(e >= 5) c = (char16_t)s.choice(e == 5 ? 255 : 127);
		else c = k == 0 ? genChar(s) : k == 1 ? (char16_t)(s.choice(255) << 8) : k == 2 ? (char16_t)s.pick<int>({0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xffff, 0xfffe, 0xfeff, 0xd7ff, 0xe000, 0xff, 0x100, 0xbfef, 0xbbef}) : (char16_t)s.choice(0xffff);
		if(c == 0 || c == 0xFFFF && e == 1) c = u'a'; if(c >= 0xD800 && c <= 0xDFFF) c = 0x20AC; if((e == 0 || e == 3 || e == 4) && s.chance(1, 12)) t += genPair(s); else t += c;
	}
	if(longer && !t.empty()) { T q = t; t.resize(longer); for(size_t i = 0; i < longer; i++) t[i] = q[i % q.size()]; }
	if(e == 0 && !t.empty() && t[0] == 0xFEFF) t[0] = u'b'; if((e == 3 || e == 4) && bom16(t, e == 4)) t[0] = u'b';
	return t;
}
static std::string reference(const T& t, int e)
{
	if(e == 0) return utf8Ref(t); std::string o;
	for(char16_t c : t)
	{
		if(e == 3 || e == 4) { o += (char)(e == 4 ? c >> 8 : c & 255); o += (char)(e == 4 ? c & 255 : c >> 8); continue; }
		if(e >= 5) { o += (char)c; continue; }
		const uint16_t* p = e == 1 ? CP1252 : MACROMAN; int b = -1; for(int i = 0; i < 256; i++) if(p[i] == c) { b = i; break; } o += (char)b;
	}
	return o;
}
static void roundTrip(Src& s, Ctx& ctx)
{
	int e = (int)s.choice(6); T t = textFor(s, e); std::string ref = reference(t, e); Charset* c = Charset::forName(NAMES[e]); REQUIRE(c != nullptr, << "no charset " << NAMES[e]); REQUIRE_EQ(A(c->name()), std::string(NAMES[e])); REQUIRE(c->hasName(NAMES[e]));
	NOTE(NAMES[e] << " " << quote16(t) << "\n");
	std::string got = bytesOf(c->encode(arrayOf(t))); REQUIRE(got == ref, << NAMES[e] << " encodes " << quote16(t) << " as " << hex(got.data(), got.size()) << " instead of " << hex(ref.data(), ref.size()));
	std::string got2 = bytesOf(J(t).toCString(c)); REQUIRE(got2 == ref, << "String::toCString " << hex(got2.data(), got2.size()));
	std::string z = ref + std::string(e == 3 || e == 4 ? 2 : 1, '\0'); std::unique_ptr<char[]> exact(new char[z.size()]); memcpy(exact.get(), z.data(), z.size());
	T back = textOf(c->decode(exact.get())); REQUIRE(back == t, << NAMES[e] << " decodes " << hex(ref.data(), ref.size()) << " as " << quote16(back) << " instead of " << quote16(t));
	REQUIRE(U16(String(exact.get(), c)) == t, << "String(cstring, charset)"); REQUIRE(U16(String(exact.get(), (int64)ref.size(), c)) == t, << "String(buffer, size, charset)"); REQUIRE(U16(String(ByteArray((const uint8*)ref.data(), (int64)ref.size()), c)) == t, << "String(ByteArray, charset)");
	if(e == 0) { REQUIRE(U16(String(exact.get())) == t && U16(String(exact.get(), (int64)ref.size())) == t && U16(String(ByteArray((const uint8*)ref.data(), (int64)ref.size()))) == t, << "default decoding"); REQUIRE(bytesOf(J(t).toCString()) == ref); REQUIRE(Charset::getDefault() == c); }
	std::string bom = e == 0 ? "\xEF\xBB\xBF" : e == 3 ? "\xFF\xFE" : e == 4 ? "\xFE\xFF" : ""; if(!bom.empty()) { std::string w = bom + ref; REQUIRE(U16(String(w.data(), (int64)w.size(), c)) == t, << "with a byte order mark"); REQUIRE_EQ(A(Charset::guess(w.data(), (int64)w.size())), std::string(NAMES[e])); }
	if(s.chance(1, 8))
	{
		// arrays of characters are copied; texts in streams
		CharArray a = arrayOf(t), k(a), as, other = arrayOf(u"other"); as = a; other = a; REQUIRE(textOf(k) == t && textOf(as) == t && textOf(other) == t, << "copy of a character array"); for(int64 i = 0; i < a.length; i++) a.buffer[i] = Char('#'); REQUIRE(textOf(k) == t && textOf(as) == t && textOf(other) == t, << "a copy shares its characters"); other = *&other; REQUIRE(textOf(other) == t);
		if(ref.find('\0') == ref.npos) { std::ostringstream o; String::setConsoleCharset(c); o << J(t); String::setConsoleCharset(Charset::forName("Windows-1252")); REQUIRE(o.str() == ref, << "text written to a stream as " << NAMES[e] << ": " << hex(o.str().data(), o.str().size())); }
		if(e == 0 && ref.size() < 250 && ref.find('\n') == ref.npos) { std::istringstream i(ref + "\nnext"); String x("old"); i >> x; REQUIRE(U16(x) == t, << "line read from a stream: " << quote16(U16(x))); i >> x; REQUIRE_EQ(A(x), std::string("next")); }
		// text without mark in two bytes per character
		T g; size_t n = 1 + s.choice(20); for(size_t i = 0; i < n; i++) g += (char16_t)s.i(32, 126); if(s.chance(1, 8)) { T q = g; while(g.size() < 3000) g += q; } bool be = s.coin(); std::string gb = reference(g, be ? 4 : 3); REQUIRE_EQ(A(Charset::guess(gb.data(), (int64)gb.size())), std::string(be ? "UTF-16BE" : "UTF-16LE"), << "guess of " << gb.size() << " bytes");
		ctx.label("arrays, streams, guesses");
	}
	if(t.size() > 1) ctx.nontrivial(); ctx.label(NAMES[e]);
}
static void single(Src& s, Ctx& ctx) // every byte of the one-byte encodings, every character of the others
{
	int e = (int)s.choice(6); Charset* c = Charset::forName(NAMES[e]);
	if(e == 1 || e == 2 || e >= 5)
	{
		char b[2] = {(char)(1 + s.choice(254)), 0}; unsigned u = (uint8_t)b[0]; T t = textOf(c->decode(b)); REQUIRE_EQ(t.size(), (size_t)1); unsigned want = e == 1 ? CP1252[u] : e == 2 ? MACROMAN[u] : u; if(e == 6 && u > 127) want = 0xFFFF;
		if(want != 0xFFFF) { REQUIRE_EQ((unsigned)t[0], want, << NAMES[e] << " byte " << u); std::string r = bytesOf(c->encode(arrayOf(t))); REQUIRE(r == std::string(b, 1), << NAMES[e] << " character " << want << " is encoded as " << hex(r.data(), r.size())); }
	}
	else { char16_t ch = (char16_t)(1 + s.choice(0xfffe)); if(ch >= 0xD800 && ch <= 0xDFFF) return; T t(1, ch); t = u"x" + t; std::string r = bytesOf(c->encode(arrayOf(t))); REQUIRE(r == reference(t, e), << NAMES[e] << " character " << (unsigned)ch); REQUIRE(U16(String(r.data(), (int64)r.size(), c)) == t, << NAMES[e] << " character " << (unsigned)ch << " decoded"); }
	ctx.nontrivial(); ctx.label("single character");
}
static void garbage(Src& s, Ctx& ctx)
{
	std::string b; size_t n = s.len(30); for(size_t i = 0; i < n; i++) switch(s.choice(4)) { case 0: b += (char)('a' + s.choice(2)); break; case 1: b += (char)s.pick<int>({0xC3, 0xE2, 0xF0, 0xC0, 0xEF, 0xF8, 0xFF, 0xFE, 0xFD}); break; case 2: b += (char)(0x80 + s.choice(0x3f)); break; case 3: b += utf8Ref(T(1, genChar(s))); break; default: b += (char)s.byte(); }
	if(size_t n2 = longLen(s, 10000)) if(!b.empty()) { std::string q = b; b.resize(n2); for(size_t i = 0; i < n2; i++) b[i] = q[i % q.size()]; if(s.coin()) b += q; }
	int e = (int)s.choice(6); Charset* c = Charset::forName(NAMES[e]); T t; std::string z = b.substr(0, b.find('\0')) + '\0';
	try
	{
		// at the very end of the memory block
		if(e != 3 && e != 4)
		{
			std::unique_ptr<char[]> p(new char[z.size()]); memcpy(p.get(), z.data(), z.size()); t = textOf(c->decode(p.get())); REQUIRE(t.size() < z.size(), << t.size() << " characters of " << z.size() - 1 << " bytes");
			if(e == 0 && z[0] != (char)0xFF && z[0] != (char)0xFE && z[0] != (char)0xEF) // ASCII characters survive whatever is between them
			{ std::string a1, a2; for(char q : z) if(q > 0) a1 += q; for(char16_t q : t) if(q < 0x80 && q > 0) a2 += (char)q; if(b.find('\xC0') == b.npos && b.find('\xC1') == b.npos && b.find('\xE0') == b.npos && b.find('\xF0') == b.npos && z.find_first_of("\xF1\xF2\xF3\xF4\xF5\xF6\xF7") == z.npos) REQUIRE(a1 == a2, << "ASCII part of " << quote(z) << " is " << quote(a2)); }
		}
		else { ByteArray ba((const uint8*)b.data(), (int64)b.size()); String x(ba, c); REQUIRE((size_t)x.size() <= b.size() / 2 + 1); }
		std::unique_ptr<char[]> q(new char[b.size()]); memcpy(q.get(), b.data(), b.size()); String y(q.get(), (int64)b.size(), c); String w(q.get(), (int64)b.size()); (void)y; (void)w;
	}
	catch(jm::Exception&) { ctx.label("rejected"); }
	{ std::unique_ptr<char[]> q(new char[b.size()]); memcpy(q.get(), b.data(), b.size()); std::string g = A(Charset::guess(q.get(), (int64)b.size())); bool high = false, zero = false; for(char x : b) { high |= x < 0; zero |= x == 0; } if(!high && !zero) REQUIRE_EQ(g, std::string("ASCII")); bool mark = b.size() > 1 && (b.substr(0, 2) == "\xFE\xFF" || b.substr(0, 2) == "\xFF\xFE"); std::string bb = "\xEF\xBB\xBF" + b; REQUIRE_EQ(A(Charset::guess(bb.data(), (int64)bb.size())), std::string("UTF-8"), << "guess of a marked text"); if(high && !zero && !mark) REQUIRE_EQ(g, std::string("UTF-8"), << "guess of " << quote(b)); REQUIRE(Charset::forName(JA(g)) != nullptr); }
	if(n > 1) ctx.nontrivial(); ctx.label("arbitrary bytes");
}
static void url(Src& s, Ctx& ctx)
{
	T t = textFor(s, 0); if(t.size() > 1400) t.resize(1400); if(s.chance(1, 3)) t += u"%41+ é%"; String e = URLEncode(J(t)); T u = U16(e); for(char16_t c : u) REQUIRE(c < 128 && c != ' ', << "URLEncode of " << quote16(t) << " gives " << quote16(u));
	T d = U16(URLDecode(e)); REQUIRE(d == t, << "URLDecode of " << quote16(u) << " gives " << quote16(d) << " instead of " << quote16(t));
	T p; for(unsigned char c : utf8Ref(t)) { char b[4]; snprintf(b, 4, "%%%02X", c); if(s.chance(1, 4)) for(char* q = b; *q; q++) *q = (char)tolower(*q); if(c < 128 && c != '%' && c != '+' && s.coin()) p += c == ' ' ? u'+' : (char16_t)c; else p += W(b); } d = U16(URLDecode(J(p))); REQUIRE(d == t, << "URLDecode of " << quote16(p) << " gives " << quote16(d) << " instead of " << quote16(t));
	T g; size_t n = s.len(8); for(size_t i = 0; i < n; i++) g += s.coin() ? u'%' : genChar(s); (void)throwsJm([&] { URLDecode(J(g)); }); // any text
	if(t.size() > 1) ctx.nontrivial(); ctx.label("URL encoding");
}
static void run(Src& s, Ctx& ctx) { switch(s.weighted({5, 2, 4, 2, 1})) { case 0: roundTrip(s, ctx); break; case 1: single(s, ctx); break; case 2: garbage(s, ctx); break; case 3: url(s, ctx); break;
	default: { String alt[3] = {String("latin1"), String("l1"), J(genText(s, 4))}; uint8 n = (uint8)s.choice(3); Charset c(String("X-TEST"), alt, n, new RawDecoder()); REQUIRE(c.hasName("X-TEST")); for(uint8 i = 0; i < 3; i++) if(i < n) REQUIRE(c.hasName(alt[i])); else if(i < 2) REQUIRE(!c.hasName(alt[i])); REQUIRE(Charset::forName("no such charset") == nullptr); } } }
const Def& pbt::definition()
{
	static Def d{"P08", "texts representable in each registered encoding (all one-byte tables, all 16-bit characters, border code points), encoded and decoded by every entry point and compared with the published tables; arbitrary and truncated byte strings at the end of a memory block; URL encoding. Non-trivial: more than one character or byte, or a single character test; distinct by choice sequence.", 2500000, 40000000, jmInit, run};
	d.assumptions = {"Texts contain no NUL and no leading byte order mark; undefined code points of Windows-1252 and invalid sequences have no specified result. Characters beyond U+FFFF are two 16-bit characters, as in UTF-16."};
	return d;
}
