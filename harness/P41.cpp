// P41: characters
#include "jmh.hpp"
using jm::Char;
static bool upperL1(unsigned c) { return (c >= 'A' && c <= 'Z') || (c >= 0xC0 && c <= 0xDE && c != 0xD7); }
static bool lowerL1(unsigned c) { return (c >= 'a' && c <= 'z') || (c >= 0xDF && c <= 0xFF && c != 0xF7); }
static unsigned lowerOf(unsigned c) { return upperL1(c) ? c + 32 : c; }
static unsigned upperOf(unsigned c) { return lowerL1(c) && c != 0xDF && c != 0xFF ? c - 32 : c; }
static bool blank(unsigned c) { return c == ' ' || c == '\r' || c == '\n' || c == '\t' || c == '\b' || c == '\f'; }

static void run(Src& s, Ctx& ctx)
{
	unsigned c; switch(s.choice(3)) { case 0: c = (unsigned)s.choice(0x7F); break; case 1: c = 0x80 + (unsigned)s.choice(0x17F); break; default: c = (unsigned)s.choice(0xFFFF); }
	unsigned e = s.chance(1, 2) ? (unsigned)s.choice(0xFFFF) : c + (unsigned)s.choice(2) - 1; e &= 0xFFFF; if(s.chance(1, 4)) e = c ^ 32;
	NOTE("U+" << std::hex << c << " and U+" << e << std::dec << "\n");
	Char x((uint16)c), y((uint16)e);
	if(c < 0x180) ctx.label("Latin"); 
	ctx.nontrivial();
	REQUIRE(x.unicode() == c, << "code");
	REQUIRE((uint16)Char().unicode() == 0, << "default character");
	// classes
	REQUIRE(x.isUpperCase() == upperL1(c), << "upper case");
	REQUIRE(x.isLowerCase() == lowerL1(c), << "lower case");
	REQUIRE(x.isLetter() == (upperL1(c) || lowerL1(c)), << "letter");
	REQUIRE(x.isDigit() == (c >= '0' && c <= '9'), << "digit");
	REQUIRE(x.digitValue() == (c >= '0' && c <= '9' ? (int)(c - '0') : -1), << "digit value " << x.digitValue());
	REQUIRE(x.isWhitespace() == blank(c), << "white space");
	// case
	Char lo = x.toLowerCase(), up = x.toUpperCase();
	REQUIRE(lo.unicode() == lowerOf(c), << "lower case is U+" << std::hex << lo.unicode());
	REQUIRE(up.unicode() == upperOf(c), << "upper case is U+" << std::hex << up.unicode());
	REQUIRE(lo.toLowerCase() == lo && up.toUpperCase() == up, << "changing the case twice");
	REQUIRE(lo.isLetter() == x.isLetter() && up.isLetter() == x.isLetter(), << "changing the case changed the letter");
	REQUIRE(!lo.isUpperCase(), << "lower case is upper case");
	if(x.isUpperCase()) REQUIRE(lo.toUpperCase() == x && lo.isLowerCase(), << "upper case of the lower case");
	if(x.isLowerCase() && up != x) REQUIRE(up.toLowerCase() == x && up.isUpperCase(), << "lower case of the upper case");
	// order
	REQUIRE((x == y) == (c == e) && (x != y) == (c != e) && (x < y) == (c < e) && (x <= y) == (c <= e) && (x > y) == (c > e) && (x >= y) == (c >= e), << "comparison");
	// the same in texts
	std::u16string t; size_t n = s.choice(6); for(size_t i = 0; i < n; i++) t += (char16_t)(s.coin() ? c : genChar(s)); t += (char16_t)c;
	std::u16string lt, ut; for(char16_t q : t) { lt += (char16_t)lowerOf(q); ut += (char16_t)upperOf(q); }
	jm::String js = J(t);
	REQUIRE(U16(js.toLowerCase()) == lt, << "text in lower case");
	REQUIRE(U16(js.toUpperCase()) == ut, << "text in upper case");
	REQUIRE(U16(js) == t, << "the text changed");
	REQUIRE(js.equalsIgnoreCase(J(lt)) && J(lt).equalsIgnoreCase(js), << "equality without case");
	if(e != c)
	{
		std::u16string o = t; o.back() = (char16_t)e; bool same = lowerOf(e) == lowerOf(c);
		REQUIRE(js.equalsIgnoreCase(J(o)) == same, << "equality without case of U+" << std::hex << c << " and U+" << e);
	}
}

static bool everyChar(std::string& what)
{
	for(unsigned c = 0; c < 65536; c++)
	{
		Char x((uint16)c);
		if(x.toLowerCase().unicode() != lowerOf(c) || x.toUpperCase().unicode() != upperOf(c) || x.isUpperCase() != upperL1(c) || x.isLowerCase() != lowerL1(c) || x.isLetter() != (upperL1(c) || lowerL1(c)) || x.isWhitespace() != blank(c) || x.isDigit() != (c >= '0' && c <= '9') || x.digitValue() != (c >= '0' && c <= '9' ? (int)(c - '0') : -1))
		{ char b[80]; snprintf(b, sizeof b, "character U+%04X is classified or changed wrongly", c); what = b; return true; }
	}
	return false;
}

const Def& pbt::definition()
{
	static Def d{"P41", "every case: a character (all of them are also enumerated), another one and a text with it", 400000, 4000000, jmInit, run};
	d.assumptions = {"the library's letters are those of ASCII and Latin-1; every other character is no letter and has no case"};
	d.probes = {{"every-character", everyChar}};
	return d;
}
