// An independent strict XML reader, and a parser handler that records the events.
#pragma once
#include "jmh.hpp"
namespace xmlr
{
using U = std::u16string;
using Attrs = std::vector<std::pair<U, U>>;
struct Ev { char kind; U name, text; Attrs attrs; }; // s start, e end, t text, p instruction, k skipped entity
inline std::string show(const Ev& e)
{
	std::string o(1, e.kind); o += " " + (e.name.empty() ? std::string() : quote16(e.name)) + (e.kind == 't' || e.kind == 'p' ? quote16(e.text) : std::string()); for(auto& a : e.attrs) o += " " + quote16(a.first) + "=" + quote16(a.second); return o;
}
struct Bad { std::string what; };
inline bool ws(char16_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
inline bool nameStart(char16_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == ':' || (c >= 0xC0 && c != 0xD7 && c != 0xF7 && c != 0x37E && c < 0x2000) || (c >= 0x3001 && c < 0xD800) || (c >= 0xF900 && c < 0xFDD0); }
inline bool nameChar(char16_t c) { return nameStart(c) || c == '-' || c == '.' || (c >= '0' && c <= '9') || c == 0xB7; }
inline U utf8Strict(const std::string& b)
{
	U o; for(size_t i = 0; i < b.size();)
	{
		unsigned char c = (unsigned char)b[i]; size_t n = c < 0x80 ? 1 : c < 0xC2 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF5 ? 4 : 0; if(!n || i + n > b.size()) throw Bad{"bytes are no UTF-8 at " + std::to_string(i)};
		uint32_t v = n == 1 ? c : n == 2 ? c & 31u : n == 3 ? c & 15u : c & 7u; for(size_t j = 1; j < n; j++) { if(((unsigned char)b[i + j] & 0xC0) != 0x80) throw Bad{"bytes are no UTF-8 at " + std::to_string(i)}; v = v << 6 | ((unsigned char)b[i + j] & 63u); }
		if((n == 3 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) || (n == 4 && (v < 0x10000 || v > 0x10FFFF))) throw Bad{"bytes are no UTF-8 at " + std::to_string(i)};
		if(n == 4) { o += (char16_t)(0xD800 + ((v - 0x10000) >> 10)); o += (char16_t)(0xDC00 + ((v - 0x10000) & 0x3FF)); } else o += (char16_t)v;
		i += n;
	}
	return o;
}
// Strict reader of complete documents; comments and declarations are skipped, text outside the root must be white space and is not reported.
class Reader
{
	const U& d; size_t p = 0; std::vector<Ev> ev; std::vector<U> open; bool rootSeen = false; U text;
	[[noreturn]] void bad(const char* w) { throw Bad{std::string(w) + " at character " + std::to_string(p)}; }
	bool at(const char16_t* s) { U t(s); return d.compare(p, t.size(), t) == 0; }
	char16_t cur() { if(p >= d.size()) bad("unexpected end"); return d[p]; }
	void skipWs() { while(p < d.size() && ws(d[p])) p++; }
	U name() { U o; if(!nameStart(cur())) bad("name expected"); while(p < d.size() && nameChar(d[p])) o += d[p++]; return o; }
	void flush() { if(text.empty()) return; if(open.empty()) { for(char16_t c : text) if(!ws(c)) bad("text outside the root element"); } else { if(!ev.empty() && ev.back().kind == 't') ev.back().text += text; else ev.push_back({'t', {}, text, {}}); } text.clear(); }
	void reference(U& o)
	{
		size_t e = d.find(u';', p); if(e == U::npos) bad("reference without end"); U n = d.substr(p + 1, e - p - 1); p = e + 1;
		if(n == u"lt") o += '<'; else if(n == u"gt") o += '>'; else if(n == u"amp") o += '&'; else if(n == u"quot") o += '"'; else if(n == u"apos") o += '\'';
		else if(n.size() > 1 && n[0] == '#') { bool h = n[1] == 'x'; unsigned long v = 0; for(size_t i = h ? 2 : 1; i < n.size(); i++) { char16_t c = n[i]; int dg = c >= '0' && c <= '9' ? c - '0' : h && c >= 'a' && c <= 'f' ? c - 'a' + 10 : h && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if(dg < 0) bad("bad reference"); v = v * (h ? 16 : 10) + (unsigned long)dg; } if(v > 0x10FFFF) bad("bad reference"); if(v > 0xFFFF) { o += (char16_t)(0xD800 + ((v - 0x10000) >> 10)); o += (char16_t)(0xDC00 + ((v - 0x10000) & 0x3FF)); } else o += (char16_t)v; }
		else bad("unknown entity");
	}
	public:
	explicit Reader(const U& doc) : d(doc) {}
	std::vector<Ev> run()
	{
		while(p < d.size())
		{
			if(d[p] == '&') { reference(text); continue; }
			if(d[p] != '<') { if(d[p] < 32 && !ws(d[p])) bad("illegal character"); if(at(u"]]>")) bad("']]>' in text"); text += d[p++]; continue; }
			if(at(u"<!--")) { size_t e = d.find(u"-->", p + 4); if(e == U::npos) bad("comment without end"); p = e + 3; continue; }
			if(at(u"<![CDATA[")) { size_t e = d.find(u"]]>", p); if(e == U::npos || open.empty()) bad("bad CDATA"); text += d.substr(p + 9, e - p - 9); p = e + 3; continue; }
			flush();
			if(at(u"<?")) { size_t st = p, e = d.find(u"?>", p); if(e == U::npos) bad("instruction without end"); p += 2; U n = name(); skipWs(); if(n == u"xml") { if(st != 0) bad("declaration not at the beginning"); } else ev.push_back({'p', n, d.substr(p, e - p), {}}); p = e + 2; continue; }
			if(at(u"</")) { p += 2; U n = name(); skipWs(); if(cur() != '>') bad("'>' expected"); p++; if(open.empty() || open.back() != n) bad("end tag does not match"); open.pop_back(); ev.push_back({'e', n, {}, {}}); continue; }
			if(open.empty() && rootSeen) bad("second root element");
			rootSeen = true; p++; Ev e{'s', name(), {}, {}};
			while(true)
			{
				bool sp = ws(cur()); skipWs(); if(cur() == '>') { p++; ev.push_back(e); open.push_back(e.name); break; }
				if(at(u"/>")) { p += 2; ev.push_back(e); ev.push_back({'e', e.name, {}, {}}); break; }
				if(!sp) bad("white space expected"); U n = name(), v; for(auto& a : e.attrs) if(a.first == n) bad("attribute twice"); skipWs(); if(cur() != '=') bad("'=' expected"); p++; skipWs(); char16_t q = cur(); if(q != '"' && q != '\'') bad("quote expected"); p++;
				while(cur() != q) { if(d[p] == '<') bad("'<' in attribute"); if(d[p] == '&') reference(v); else v += d[p++]; } p++; e.attrs.push_back({n, v});
			}
		}
		flush(); if(!open.empty() || !rootSeen) bad("document not complete"); return ev;
	}
};
struct Recorder : jm::SAXParser
{
	std::vector<Ev> ev; int depth = 0, starts = 0, ends = 0; bool strict = true; U outside;
	void text(const jm::String& s) { U t = U16(s); if(strict) REQUIRE(!t.empty(), << "a text event without text"); if(depth <= 0) { outside += t; return; } if(!ev.empty() && ev.back().kind == 't') ev.back().text += t; else ev.push_back({'t', {}, t, {}}); }
	void check() { REQUIRE(starts == 1 && ends == 0, << "an event outside of startDocument and endDocument"); }
	void startDocument() override { REQUIRE(starts == 0 && ev.empty(), << "startDocument is not the first and only one"); starts++; }
	void endDocument() override { check(); ends++; }
	void characters(const jm::String& s) override { check(); text(s); }
	void ignorableWhiteSpaces(const jm::String& s) override { check(); for(char16_t c : U16(s)) REQUIRE(ws(c) || c == '\b' || c == '\f', << "ignorable white space contains " << quote16(U16(s))); text(s); }
	void processingInstruction(const jm::String& t, const jm::String& d) override { check(); ev.push_back({'p', U16(t), U16(d), {}}); }
	void skippedEntity(const jm::String& n) override { check(); ev.push_back({'k', U16(n), {}, {}}); }
	void names(const jm::String& uri, const jm::String& local, const jm::String& q) { U n = U16(q); size_t c = n.rfind(u':'); REQUIRE(U16(local) == (c == U::npos ? n : n.substr(c + 1)), << "local name " << quote16(U16(local)) << " of " << quote16(n)); REQUIRE(uri.isEmpty()); }
	// every way to the value of an attribute, and its conversions
	void access(const jm::SAXAttributes& at, uint32 i)
	{
		jm::String q = at.qualifiedName(i), v = at.value(i); U val = U16(v);
		REQUIRE(at.uri(i).isEmpty() && at.type(i) == "CDATA" && at.type(q) == "CDATA" && at.type(jm::kEmptyString, q) == "CDATA", << "type or namespace of an attribute");
		REQUIRE_EQ(at.indexOf(jm::kEmptyString, q), (int32)i); REQUIRE(U16(at.value(jm::kEmptyString, q)) == val, << "value by namespace and name"); REQUIRE(at.value(jm::kEmptyString, "no such attribute").isEmpty());
		if(U16(q).find(u':') == U::npos) REQUIRE(U16(at.localName(i)) == U16(q), << "local name of an attribute");
		U low; for(char16_t c : val) low += c >= 'A' && c <= 'Z' ? (char16_t)(c + 32) : c; REQUIRE_EQ(at.valueAsBool(q), low == u"true", << "truth value of " << quote16(val));
		std::string a; bool ascii = true; for(char16_t c : val) { ascii = ascii && c > 32 && c < 127; a += (char)c; }
		size_t d = !a.empty() && a[0] == '-'; bool integer = ascii && a.size() > d && a.size() < 19 && a.find_first_not_of("0123456789", d) == std::string::npos;
		if(integer) REQUIRE_EQ(at.valueAsInt(q), strtoll(a.c_str(), nullptr, 10), << "integer value of " << a);
		char* end = nullptr; bool number = ascii && !a.empty() && a.find_first_not_of("0123456789.-+e") == std::string::npos && a[0] != '+';
		double x = number ? strtod(a.c_str(), &end) : 0; if(number && !*end && std::isfinite(x) && (x == 0 || std::fabs(x) > 1e-300)) { REQUIRE(at.valueAsDouble(q) == x, << "number value of " << a << " is " << at.valueAsDouble(q)); REQUIRE(at.valueAsFloat(q) == (float)x, << "float value of " << a); }
	}
	void startElement(const jm::String& uri, const jm::String& local, const jm::String& q, const jm::SAXAttributes& at) override
	{
		check(); names(uri, local, q); depth++; Ev e{'s', U16(q), {}, {}}; jm::SAXAttributes copy(at); jm::SAXAttributes assigned; assigned.addAttribute(jm::kEmptyString, "old", "old", "old"); assigned = at;
		for(uint32 i = 0; i < at.count(); i++)
		{
			e.attrs.push_back({U16(at.qualifiedName(i)), U16(at.value(i))});
			if(strict) access(at, i);
			if(strict) { REQUIRE_EQ(at.indexOf(at.qualifiedName(i)), (int32)i); REQUIRE(at.hasValue(at.qualifiedName(i))); REQUIRE(U16(at.value(at.qualifiedName(i))) == e.attrs.back().second); }
			REQUIRE(U16(copy.value(i)) == e.attrs.back().second && U16(copy.qualifiedName(i)) == e.attrs.back().first); REQUIRE(U16(assigned.value(i)) == e.attrs.back().second && U16(assigned.qualifiedName(i)) == e.attrs.back().first);
		}
		REQUIRE(copy.count() == at.count() && assigned.count() == at.count());
		if(strict) { REQUIRE_EQ(at.indexOf("no such attribute"), -1); REQUIRE(!at.hasValue("no such attribute")); REQUIRE(at.value("no such attribute").isEmpty()); }
		ev.push_back(e);
	}
	void endElement(const jm::String& uri, const jm::String& local, const jm::String& q) override { check(); names(uri, local, q); depth--; ev.push_back({'e', U16(q), {}, {}}); }
};
inline U genName(Src& s)
{
	if(s.chance(2, 3)) return s.pick<U>({u"a", u"b", u"A", u"item", u"Item", u"ns:item", u"x-1", u"A.b", u"_", u"größe", u"名前"});
	if(size_t k = longLen(s, 1400)) return u"n" + stretch(U(s.coin() ? u"name" : u"é"), k);
	U o; size_t n = 1 + s.choice(4); for(size_t i = 0; i < n; i++) { char16_t c = genChar(s); if(c == ':' || !(i ? nameChar(c) : nameStart(c))) c = (char16_t)('c' + s.choice(3)); o += c; } return o;
}
inline U genXmlText(Src& s, size_t max = 8)
{
	static const std::vector<U> frag{u"&", u"<", u">", u"\"", u"'", u"&amp;", u"&lt;", u"]]>", u"<b>", u"/>", u"<!--", u"-->", u" ", u"  \n\t", u"\n   ", u"x", u"text", u"ä", u"/", u"=", u"&#65;", u"?>", u";"};
	U o; size_t n = s.len(max); for(size_t i = 0; i < n; i++) { if(s.chance(1, 2)) o += s.pick(frag); else if(s.choice(30) == 19) o += genPair(s); else { char16_t c = genChar(s); if((c < 32 && !ws(c)) || c >= 0xFFFE || c == 0xFEFF) c = 'y'; o += c; } }
	if(size_t k = longLen(s, 80000)) { o = stretch(o, k); if(!o.empty() && isPair(o.back(), 0xDC00)) o.back() = u'e'; for(size_t i = 0; i + 1 < o.size(); i++) if(isPair(o[i], 0xDC00) && !isPair(o[i], o[i + 1])) o[i] = u'e'; }
	return o;
}
inline void compare(const std::vector<Ev>& got, const std::vector<Ev>& want, const char* who)
{
	for(size_t i = 0; i < got.size() || i < want.size(); i++)
	{
		REQUIRE(i < want.size(), << who << ": event " << i << " is one too many: " << show(got[i])); REQUIRE(i < got.size(), << who << ": event " << i << " is missing: " << show(want[i]));
		REQUIRE(got[i].kind == want[i].kind && got[i].name == want[i].name && got[i].text == want[i].text && got[i].attrs == want[i].attrs, << who << ": event " << i << " is " << show(got[i]) << " instead of " << show(want[i]));
	}
}
}
