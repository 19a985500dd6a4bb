// P23: the SAX parser on generated, damaged and arbitrary documents
#include "xml_ref.hpp"
#include "fsguard.hpp"
using namespace xmlr;
struct Gen
{
	Src& s; U doc; std::vector<Ev> ev; size_t elements = 0, markup = 0, refs = 0; int depth = 0;
	U space(size_t min) { static const std::vector<U> v{u" ", u"\n", u"\t", u"  ", u" \r\n "}; U o; if(min || s.chance(1, 4)) o = s.chance(3, 4) ? U(u" ") : s.pick(v); return o; }
	void text(const U& t) { if(t.empty()) return; if(!ev.empty() && ev.back().kind == 't') ev.back().text += t; else ev.push_back({'t', {}, t, {}}); }
	U reference(uint32_t c, bool attr)
	{
		refs++; int k = (int)s.choice(2); char b[32];
		if(k == 0) switch(c) { case '<': return u"&lt;"; case '>': return u"&gt;"; case '&': return u"&amp;"; case '"': return u"&quot;"; case '\'': return u"&apos;"; case 0x2264: if(!attr) break; break; default: break; }
		snprintf(b, sizeof b, k == 1 ? "&#x%X;" : s.coin() ? "&#%d;" : "&#0%d;", (int)c); return W(b);
	}
	// a character beyond U+FFFF: as it is or as a reference
	bool pair(const U& v, size_t& i, U& o, bool attr) { if(i + 1 >= v.size() || !isPair(v[i], v[i + 1])) return false; if(s.coin()) { o += reference(0x10000u + ((uint32_t)(v[i] - 0xD800) << 10) + (uint32_t)(v[i + 1] - 0xDC00), attr); astral = true; } else o += v.substr(i, 2); i++; return true; }
	bool astral = false;
	U attrText(const U& v, char16_t q) { U o; for(size_t i = 0; i < v.size(); i++) { char16_t c = v[i]; if(pair(v, i, o, true)) continue; if(c == '<' || c == '&' || c == q || c == '\n' || c == '\r' || c == '\t' || s.chance(1, 24)) o += reference(c, true); else o += c; } return o; }
	void comment() { U c = genXmlText(s, 5), o; for(char16_t x : c) { if(x == '-') x = '+'; o += x; } doc += u"<!--" + o + u"-->"; markup++; }
	void instruction() { U t = genName(s), d; for(auto& c : t) if(c == ':') c = '_'; if(t == u"xml") t = u"xm"; d = genXmlText(s, 4); size_t p; while((p = d.find(u"?>")) != U::npos) d.erase(p, 1); while(!d.empty() && ws(d[0])) d.erase(0, 1); while(!d.empty() && d.back() == '?') d.pop_back(); doc += u"<?" + t + (d.empty() ? U() : space(1) + d) + u"?>"; ev.push_back({'p', t, d, {}}); markup++; }
	void misc() { while(s.chance(1, 4)) { switch(s.choice(2)) { case 0: doc += space(1); break; case 1: comment(); break; default: instruction(); } } }
	U number()
	{
		char b[60]; double x = s.real(-1, 1) * std::pow(10.0, (double)s.si(-12, 18));
		switch(s.choice(5)) { case 0: return s.pick<U>({u"true", u"false", u"TRUE", u"True", u"1", u"yes", u"tru", u"-", u"0", u"-0", u"007"}); case 1: snprintf(b, sizeof b, "%lld", (long long)s.any64() / 10); break; case 2: snprintf(b, sizeof b, "%d", (int)s.si(-100, 100)); break; case 3: snprintf(b, sizeof b, "%.17g", x); break; case 4: snprintf(b, sizeof b, "%.3f", x); break; default: snprintf(b, sizeof b, "%g", x); }
		return W(b);
	}
	void element()
	{
		elements++; depth++; Ev e{'s', genName(s), {}, {}}; doc += u"<" + e.name; size_t n = s.len(4);
		if(size_t many = longLen(s, 1400)) { for(size_t i = 0; i < many; i++) { U a = W("many" + std::to_string(i)), v = W(std::to_string(i * i)); doc += u" " + a + u"='" + v + u"'"; e.attrs.push_back({a, v}); } lots = true; }
		for(size_t i = 0; i < n; i++)
		{
			U a = genName(s), v = s.chance(1, 5) ? number() : genXmlText(s, 5); bool dup = false; for(auto& x : e.attrs) if(x.first == a) dup = true; if(dup) continue; char16_t q = s.coin() ? u'\'' : u'"';
			doc += space(1) + a + space(0) + u"=" + space(0) + q + attrText(v, q) + q; e.attrs.push_back({a, v});
		}
		doc += space(0); ev.push_back(e);
		if(s.chance(1, 4)) { doc += u"/>"; }
		else
		{
			if(size_t deep = depth < 6 ? longLen(s, 300, 2) : 0) { nest = deep; lots = true; }
			if(nest) { nest--; doc += u">"; element(); doc += u"</" + e.name + space(0) + u">"; depth--; ev.push_back({'e', e.name, {}, {}}); return; }
			doc += u">"; size_t c = depth > 5 ? s.choice(1) : s.len(5);
			for(size_t i = 0; i < c; i++) switch(s.weighted({6, 5, 2, 1, 2, 1}))
			{
				case 0: element(); break;
				case 1: { U t = genXmlText(s, 6), o; for(size_t j = 0; j < t.size(); j++) { char16_t x = t[j]; if(pair(t, j, o, false)) continue; if(x == '<' || x == '&' || x == '>' || s.chance(1, 30)) { if(x == '>' && s.coin() && (o.empty() || o.back() != ']')) o += x; else o += reference(x, false); } else o += x; } doc += o; text(t); break; }
				case 2: { U t = genXmlText(s, 6); size_t p; while((p = t.find(u"]]>")) != U::npos) t.erase(p, 1); doc += u"<![CDATA[" + t + u"]]>"; text(t); markup++; break; }
				case 3: instruction(); break;
				case 4: comment(); break;
				default: doc += s.pick<U>({u"&le;", u"&geq;", u"&leq;", u"&ge;", u"&nbsp;", u"&foo;"}); { U last = doc.substr(doc.rfind(u'&')); if(last == u"&le;" || last == u"&leq;") text(u"\u2264"); else if(last == u"&ge;" || last == u"&geq;") text(u"\u2265"); else ev.push_back({'k', last.substr(1, last.size() - 2), {}, {}}); htmlEntity = true; } break;
			}
			doc += u"</" + e.name + space(0) + u">";
		}
		depth--; ev.push_back({'e', e.name, {}, {}});
	}
	bool htmlEntity = false, lots = false; size_t nest = 0;
	void document()
	{
		if(s.chance(2, 3)) doc += s.pick<U>({u"<?xml version=\"1.0\" encoding=\"UTF-8\"?>", u"<?xml version='1.0'?>", u"<?xml version=\"1.0\" standalone='yes' ?>\n"});
		misc(); if(s.chance(1, 5)) { doc += s.pick<U>({u"<!DOCTYPE r>", u"<!DOCTYPE r SYSTEM \"a>b.dtd\">", u"<!DOCTYPE r [<!ELEMENT r (a|b)*><!-- don't <x> --><!ENTITY e 'x>y'>]>", u"<!DOCTYPE r PUBLIC '-//X//DTD \"q\"' \"u\" [ <!ATTLIST a b CDATA \"<\"> ] >"}); doctype = true; markup++; misc(); }
		element(); misc();
	}
	bool doctype = false;
};
static void run(Src& s, Ctx& ctx)
{
	bool valid = s.chance(3, 5); Gen g{s, {}, {}};
	if(valid || s.chance(5, 6)) g.document(); else { size_t n = s.len(60); for(size_t i = 0; i < n; i++) g.doc += s.pick<char16_t>({u'<', u'>', u'/', u'&', u';', u'"', u'\'', u'=', u'!', u'-', u'[', u']', u'?', u' ', u'a', u'b', u'#', u'x', u'1', 0, 0xFFFF}); }
	if(valid)
	{
		NOTE("document " << quote16(g.doc) << "\n");
		if(!g.doctype && !g.htmlEntity) { std::vector<Ev> ref; try { ref = Reader(g.doc).run(); } catch(Bad& b) { fail("GENERATOR: " + b.what); } compare(ref, g.ev, "strict reader (generator check)"); }
		jm::String src = J(g.doc); Recorder r; bool file = s.chance(1, 8);
		if(file) { std::string p = scratchDir() + "/doc.xml"; writeFileRaw(p, utf8Ref(g.doc)); jm::File f(JA(p)); r.parse(f); ctx.label("from file"); } else r.parse(src);
		REQUIRE(U16(src) == g.doc); REQUIRE_EQ(r.starts, 1); REQUIRE_EQ(r.ends, 1); compare(r.ev, g.ev, "SAXParser"); for(char16_t c : r.outside) REQUIRE(ws(c), << "text outside the root element: " << quote16(r.outside));
		if(g.astral) ctx.label("reference to a character beyond U+FFFF"); if(g.lots) ctx.label("many attributes or deep nesting"); if(g.elements > 1 && (g.markup || g.refs)) ctx.nontrivial(); ctx.label("well-formed"); return;
	}
	U d = g.doc; size_t n = s.choice(3);
	for(size_t i = 0; i < n && !d.empty(); i++)
	{
		size_t p = s.choice(d.size() - 1);
		switch(s.choice(4)) { case 0: d.resize(p); break; case 1: d.erase(p, 1 + s.choice(3)); break; case 2: d.insert(p, 1, s.pick<char16_t>({u'<', u'>', u'&', u'"', u'\'', u'/', u' ', u'!', u'?', 0, u'a'})); break; case 3: d[p] = s.pick<char16_t>({u'<', u'>', u'&', u'"', u';', u'/', u' ', u'-', 0xD800, u'='}); break; default: d.insert(p, d.substr(s.choice(d.size() - 1), s.choice(20))); }
	}
	NOTE("damaged " << quote16(d) << "\n"); Recorder r; r.strict = false;
	try { r.parse(J(d)); REQUIRE_EQ(r.ends, 1); } catch(jm::Exception&) { ctx.label("rejected"); } catch(jm::Exception*) { ctx.label("rejected"); }
	size_t total = r.outside.size(); for(auto& e : r.ev) { total += e.text.size(); for(auto& a : e.attrs) total += a.second.size(); } REQUIRE(total <= d.size(), << "the events have more text than the document");
	ctx.label("damaged"); if(d.size() > 8) ctx.nontrivial();
}
const Def& pbt::definition()
{
	static Def d{"P23", "three fifths well-formed documents (declaration, document type with internal subset, comments, instructions, nested elements, attributes in both quotes, predefined entities, character references in three notations, also to characters beyond U+FFFF, the parser's own and unknown entities, CDATA sections, all kinds of white space; from text or file), whose events must be exactly the generated ones (the generator is checked by a strict reader); the others are truncated, mutated or arbitrary character strings under AddressSanitizer, which must be parsed or rejected by an exception with no more text than the document has. Non-trivial: two elements with markup or a reference, or a damaged document of more than 8 characters; distinct by choices.", 300000, 10000000, jmInit, run};
	d.assumptions = {"white space in attribute values is not normalised (literal line breaks and tabs are not generated there)", "text may be delivered in several characters and ignorableWhiteSpaces events", "an unknown entity in text is reported as skippedEntity"};
	return d;
}
