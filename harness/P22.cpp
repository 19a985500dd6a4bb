// P22: XML writer, read back by the SAX parser and by a strict reader
#include "xml_ref.hpp"
#include "fsguard.hpp"
using namespace xmlr;
struct Out : jm::Stream
{
	std::string data; bool on = false; int opens = 0, closes = 0; size_t limit = SIZE_MAX;
	int64 size() const override { return (int64)data.size(); }
	jm::Status open(jm::FileMode m) override { REQUIRE(m == jm::FileMode::kWrite, << "the writer must open its stream for writing"); opens++; on = true; return jm::Status::eOK; }
	bool isOpen() override { return on; }
	void close() override { closes++; on = false; }
	int64 read(uint8*, int64) override { fail("the writer reads"); }
	int64 readFully(jm::ByteArray&, int64) override { fail("the writer reads"); }
	void seek(int64) override { fail("the writer seeks"); }
	void move(int64) override { fail("the writer seeks"); }
	int64 position() override { return (int64)data.size(); }
	using jm::Stream::write;
	int64 write(const uint8* b, int64 n) override { REQUIRE(on, << "a write to the closed stream"); data.append((const char*)b, (size_t)n); return n; }
};
struct Node { char kind; U name; Attrs attrs; U text; bool tolerant = false; }; // s, e, t
static std::string b64(const std::string& b)
{
	static const char* c = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
	for(size_t i = 0; i < b.size(); i += 3) { uint32_t v = 0; size_t n = std::min<size_t>(3, b.size() - i); for(size_t j = 0; j < 3; j++) v = v << 8 | (j < n ? (unsigned char)b[i + j] : 0u); for(size_t j = 0; j < 4; j++) o += j <= n ? c[v >> (18 - 6 * j) & 63] : '='; } return o;
}
// text chunks are compared exactly, or up to the white space of an indentation where that is asked for
static void match(const std::vector<Ev>& got, const std::vector<Node>& want, const char* who)
{
	size_t i = 0; auto indentOnly = [](const U& t) { if(t.empty() || t[0] != '\n') return false; for(size_t k = 1; k < t.size(); k++) if(t[k] != ' ') return false; return true; };
	for(const Node& w : want)
	{
		if(w.kind == 't')
		{
			U t; if(i < got.size() && got[i].kind == 't') t = got[i++].text;
			REQUIRE(t == w.text || (w.tolerant && t.size() > w.text.size() && t.compare(0, w.text.size(), w.text) == 0 && indentOnly(t.substr(w.text.size()))), << who << ": text is " << quote16(t) << " instead of " << quote16(w.text)); continue;
		}
		REQUIRE(i < got.size(), << who << ": the events end before " << w.kind << " " << quote16(w.name)); const Ev& g = got[i++];
		REQUIRE(g.kind == w.kind && g.name == w.name && g.attrs == w.attrs, << who << ": event " << show(g) << " instead of " << show(Ev{w.kind, w.name, {}, w.attrs}));
	}
	REQUIRE(i == got.size(), << who << ": further events from " << show(got[i]));
}
static void run(Src& s, Ctx& ctx)
{
	Out out; bool preopened = s.chance(1, 4); if(preopened) out.on = true; jm::XMLWriter w(&out); std::vector<Node> ev; struct Open { size_t start; bool content, chars, indent; }; std::vector<Open> open; bool done = false;
	w.startDocument(); U pend; size_t ops = 2 + s.choice(28), elements = 0, special = 0; bool indented = false;
	auto flush = [&] { if(open.empty()) return; Open& o = open.back(); ev.push_back({'t', {}, {}, pend, o.indent || !o.chars}); pend.clear(); };
	auto endEl = [&] { flush(); NOTE("end\n"); w.endElement(); ev.push_back({'e', ev[open.back().start].name, {}, {}}); open.pop_back(); if(open.empty()) done = true; };
	auto start = [&](const U& n) { flush(); if(!open.empty()) open.back().content = true; NOTE("start " << quote16(n) << "\n"); jm::String jn = J(n); w.startElement(jn); ev.push_back({'s', n, {}, {}}); open.push_back({ev.size() - 1, false, false, false}); elements++; };
	for(size_t k = 0; k < ops && !done; k++)
	{
		if(size_t deep = open.empty() ? 0 : longLen(s, 300)) { for(size_t i = 0; i < deep; i++) start(i % 3 ? u"nested" : u"n"); ctx.label("deeply nested"); }
		if(open.empty()) { if(s.chance(1, 8)) { NOTE("startIndent\n"); w.startIndent(); indented = true; } }
		size_t op = open.empty() ? 0 : s.weighted({6, 8, 6, 2, 2, 2, 6, 2});
		switch(op)
		{
			case 0: start(genName(s)); break;
			case 1:
			{
				Node& e = ev[open.back().start]; U n = genName(s), v; bool dup = false; for(auto& a : e.attrs) if(a.first == n) dup = true; if(dup) break; if(open.back().content) { if(s.chance(1, 6)) w.writeAttribute(J(n), jm::String("late")); break; }
				switch(s.weighted({8, 1, 1, 1, 1, 1, 1}))
				{
					case 0: v = genXmlText(s); w.writeAttribute(J(n), J(v)); break;
					case 1: { int32 x = (int32)s.any64(); w.writeAttribute(J(n), x); v = W(std::to_string(x)); break; }
					case 2: { uint32 x = (uint32)s.any64(); w.writeAttribute(J(n), x); v = W(std::to_string(x)); break; }
					case 3: { int64 x = (int64)s.any64(); w.writeAttribute(J(n), x); v = W(std::to_string((long long)x)); break; }
					case 4: { uint64 x = (uint64)s.any64(); w.writeAttribute(J(n), x); v = W(std::to_string((unsigned long long)x)); break; }
					case 5: { double x = s.coin() ? s.grid(-1000, 1000, 64) : std::ldexp((double)s.si(-999999, 999999), (int)s.si(-40, 40)); w.writeAttribute(J(n), x); std::ostringstream o; o.precision(10); o << x; v = W(o.str()); break; }
					default: { float x = (float)s.grid(-100, 100, 8); w.writeAttribute(J(n), x); std::ostringstream o; o.precision(10); o << x; v = W(o.str()); break; }
				}
				NOTE("attribute " << quote16(n) << " = " << quote16(v) << "\n"); for(char16_t c : v) if(c == '&' || c == '<' || c == '"' || c == '\'') special++; e.attrs.push_back({n, v}); break;
			}
			case 2: { U t = genXmlText(s); NOTE("text " << quote16(t) << "\n"); jm::String jt = J(t); w.writeCData(jt); REQUIRE(U16(jt) == t); pend += t; open.back().content = open.back().chars = true; for(char16_t c : t) if(c == '&' || c == '<' || c == '>') special++; break; }
			case 3:
			{
				U t = genXmlText(s), raw; int style = (int)s.choice(1); if(style == 0 && t.find(u"]]>") == U::npos) raw = u"<![CDATA[" + t + u"]]>"; else for(char16_t c : t) { if(c == '&') raw += u"&amp;"; else if(c == '<') raw += u"&#60;"; else if(c == '>') raw += u"&#x3E;"; else raw += c; }
				NOTE("markup " << quote16(raw) << "\n"); w.writeCData(J(raw), false); pend += t; open.back().content = open.back().chars = true; break;
			}
			case 4: { std::string b; size_t n = s.len(20); for(size_t i = 0; i < n; i++) b += (char)s.byte(); NOTE("base64 of " << n << " bytes\n"); w.WriteBase64((uint8*)b.data(), (int64)n); pend += W(b64(b)); open.back().content = open.back().chars = true; break; }
			case 5: { NOTE("startIndent\n"); w.startIndent(); open.back().content = open.back().indent = true; indented = true; break; }
			case 7: { if(!indented) break; NOTE("endIndent\n"); w.endIndent(); open.back().content = true; break; }
			default: if(open.size() > 1 || s.chance(1, 4)) endEl(); break;
		}
	}
	if(!elements) { NOTE("start r\n"); w.startElement("r"); ev.push_back({'s', u"r", {}, {}}); open.push_back({ev.size() - 1, false, false, false}); }
	while(!open.empty()) endEl();
	w.endDocument(); REQUIRE_EQ(out.opens, preopened ? 0 : 1); REQUIRE_EQ(out.closes, 1); NOTE("document: " << quote(out.data) << "\n");
	U doc; std::vector<Ev> ref; try { doc = utf8Strict(out.data); REQUIRE(doc.compare(0, 5, u"<?xml") == 0, << "the document has no declaration"); ref = Reader(doc).run(); } catch(Bad& b) { fail("the document is not well-formed: " + b.what + "\n" + out.data); }
	match(ref, ev, "strict reader");
	Recorder r; r.parse(J(doc)); REQUIRE_EQ(r.ends, 1); match(r.ev, ev, "SAXParser"); for(char16_t c : r.outside) REQUIRE(ws(c), << "text outside the root element: " << quote16(r.outside));
	if(s.chance(1, 8))
	{
		std::string p = scratchDir() + "/doc.xml"; writeFileRaw(p, out.data); jm::File f(JA(p)); Recorder q; q.parse(f); match(q.ev, ev, "SAXParser from file"); ctx.label("from file");
	}
	if(elements > 1 && special) ctx.nontrivial();
	if(indented) ctx.label("indented");
}
const Def& pbt::definition()
{
	static Def d{"P22", "documents written by up to 30 calls of the XML writer (nested elements, attributes of all overloads, texts full of reserved characters, white space and non-Latin characters, raw markup, base64 data, indentation at any place, attributes that come too late) into a recording stream; the bytes are read by a strict independent reader, by the SAX parser and from a file, and must give the written elements, attributes and texts; only where indentation was asked for may a line break with blanks precede a tag. Non-trivial: two elements and a reserved character; distinct by choices.", 300000, 8000000, jmInit, run};
	d.assumptions = {"names are XML names, texts contain characters XML allows (not U+FEFF)", "white space in attribute values is not normalised by the library's own parser", "numbers as attributes have ten significant digits"};
	return d;
}
