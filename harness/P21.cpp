// P21: preferences
#include "fsguard.hpp"
using U = std::u16string;
using Map = std::map<U, U>;
static bool odd(char16_t c) { return c <= 0x20 || (c >= 0x7F && c <= 0xA0) || c == 0x1680 || c == 0x180E || (c >= 0x2000 && c <= 0x200F) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x2060 || c == 0x3000 || c == 0xFEFF || c >= 0xFFFE; }
static U genKey(Src& s)
{
	if(s.chance(3, 4)) return s.pick<U>({u"a", u"b", u"A", u"window.width", u"Aa", u"BB", u"path", u"k\\n", u"#x", u"ä", u"a b"});
	U o; size_t n = 1 + s.choice(6); for(size_t i = 0; i < n; i++) { char16_t c = genChar(s); if(c == '=' || c == '\n' || c == '\r' || c == 0 || odd(c)) c = 'q'; o += c; if(s.choice(30) == 19) o += genPair(s); } return o;
}
static bool isHigh(char16_t c) { return c >= 0xD800 && c < 0xDC00; }
static bool isLow(char16_t c) { return c >= 0xDC00 && c < 0xE000; }
static U genVal(Src& s)
{
	static const std::vector<U> frag{u"\\", u"\\\\", u"\\n", u"\\t", u"\\r", u"\t", u"\n", u"\r", u"\r\n", u"=", u"n", u"t", u"true", u"C:\\new\\table", u"x", u" ", u"ä", u"12", u"#"};
	U o; size_t n = s.len(7); for(size_t i = 0; i < n; i++) { if(s.chance(2, 3)) o += s.pick(frag); else { char16_t c = genChar(s); o += c ? c : u'0'; if(s.choice(30) == 19) o += genPair(s); } }
	for(auto& c : o) if(c >= 0xFFFE || c == 0xFEFF) c = 'y';
	auto bad = [](char16_t c) { return odd(c) && c != '\t' && c != '\n' && c != '\r'; };
	if(size_t k = longLen(s, 80000)) { o = stretch(o, k); if(isHigh(o.back())) o.back() = u'e'; for(size_t i = 0; i + 1 < o.size(); i++) if(isHigh(o[i]) && !isLow(o[i + 1])) o[i] = u'e'; if(isLow(o[0])) o[0] = u'e'; }
	while(!o.empty() && bad(o.back())) o.pop_back();
	while(!o.empty() && bad(o.front())) o.erase(0, 1);
	return o;
}
static U unesc(const U& v) { U o; for(size_t i = 0; i < v.size(); i++) { if(v[i] == '\\' && i + 1 < v.size()) { char16_t d = v[i + 1]; if(d == 'n' || d == 't' || d == 'r' || d == '\\') { o += d == 'n' ? '\n' : d == 't' ? '\t' : d == 'r' ? '\r' : '\\'; i++; continue; } } o += v[i]; } return o; }
static U esc(const U& v) { U o; for(char16_t c : v) { if(c == '\\') o += u"\\\\"; else if(c == '\t') o += u"\\t"; else if(c == '\n') o += u"\\n"; else if(c == '\r') o += u"\\r"; else o += c; } return o; }
static U fromUtf8(const std::string& b)
{
	U o; for(size_t i = 0; i < b.size();) { unsigned char c = (unsigned char)b[i]; if(c < 0x80) { o += c; i++; } else if(c < 0xE0 && i + 1 < b.size()) { o += (char16_t)(((c & 31) << 6) | (b[i + 1] & 63)); i += 2; } else if(c >= 0xF0 && i + 3 < b.size()) { uint32_t v = ((c & 7u) << 18 | (b[i + 1] & 63u) << 12 | (b[i + 2] & 63u) << 6 | (b[i + 3] & 63u)) - 0x10000; o += (char16_t)(0xD800 + (v >> 10)); o += (char16_t)(0xDC00 + (v & 0x3FF)); i += 4; } else if(i + 2 < b.size()) { o += (char16_t)(((c & 15) << 12) | ((b[i + 1] & 63) << 6) | (b[i + 2] & 63)); i += 3; } else break; } return o;
}
static Map parseFile(const std::string& raw)
{
	Map m; U t = fromUtf8(raw), line;
	auto flush = [&] { size_t p = line.find(u'='); if(p != U::npos && p > 0) { U k = line.substr(0, p); REQUIRE(!m.count(k), << "the file names the key " << quote16(k) << " twice"); m[k] = unesc(line.substr(p + 1)); } else REQUIRE(line.empty(), << "the file has the line " << quote16(line)); line.clear(); };
	for(char16_t c : t) if(c == '\n' || c == '\r') flush(); else line += c; flush(); return m;
}
struct P { jm::Preferences p; Map m; std::map<U, int64_t> ints; std::map<U, double> dbls; };
static void drop(P& a, const U& k) { a.ints.erase(k); a.dbls.erase(k); }
static void checkOne(P& a, const U& k, const U& def)
{
	auto it = a.m.find(k); jm::String jk = J(k);
	REQUIRE_EQ(a.p.hasValue(jk), it != a.m.end(), << "(hasValue of " << quote16(k) << ")");
	U got = U16(a.p.value(jk)), want = it == a.m.end() ? U() : it->second;
	REQUIRE(got == want, << "value of " << quote16(k) << " is " << quote16(got) << " instead of " << quote16(want));
	if(it == a.m.end())
	{
		REQUIRE(U16(a.p.value(jk, J(def))) == def, << "default text of an unset key"); REQUIRE_EQ(a.p.valueInt(jk, 4711), (int64)4711); REQUIRE_EQ(a.p.valueDouble(jk, 2.5), 2.5); REQUIRE_EQ(a.p.valueBool(jk, true), true); REQUIRE_EQ(a.p.valueBool(jk, false), false);
	}
	else if(!want.empty())
	{
		REQUIRE(U16(a.p.value(jk, J(def))) == want, << "value with default of " << quote16(k));
		REQUIRE_EQ(a.p.valueBool(jk, true), want == u"true"); REQUIRE_EQ(a.p.valueBool(jk, false), want == u"true");
		auto i = a.ints.find(k); if(i != a.ints.end()) REQUIRE_EQ(a.p.valueInt(jk, 5), (int64)i->second);
		auto d = a.dbls.find(k); if(d != a.dbls.end()) REQUIRE_EQ(a.p.valueDouble(jk, 5), d->second);
		bool noNumber = true; for(char16_t c : want) if(!(c >= 'g' && c <= 'h') && !(c >= 'o' && c <= 'w')) noNumber = false;
		if(noNumber) { REQUIRE_EQ(a.p.valueInt(jk, 77), (int64)77); }
	}
}
static void checkAll(P& a)
{
	REQUIRE_EQ((size_t)a.p.size(), a.m.size()); for(auto& e : a.m) checkOne(a, e.first, u"default");
}
static void run(Src& s, Ctx& ctx)
{
	std::string dir = scratchDir(); clearDir(dir);
	std::vector<std::unique_ptr<P>> ps; for(int i = 0; i < 2; i++) ps.push_back(std::make_unique<P>());
	std::vector<std::string> files{dir + "/a.properties", dir + "/b", dir + "/sub/c.properties"}; std::map<std::string, Map> onDisk;
	size_t n = 1 + s.choice(22), saves = 0, loads = 0, sets = 0;
	for(size_t step = 0; step < n; step++)
	{
		P& a = *ps[s.choice(1)]; U k = genKey(s); jm::String jk = J(k);
		switch(s.weighted({8, 3, 3, 2, 1, 2, 5, 5, 2, 1, 1, 1}))
		{
			case 0: { U v = genVal(s); NOTE("set " << quote16(k) << " = " << quote16(v) << "\n"); jm::String jv = J(v); a.p.setValue(jk, jv); REQUIRE(U16(jv) == v); drop(a, k); a.m[k] = v; sets++; break; }
			case 1: { int64_t v = s.coin() ? (int64_t)s.any64() : s.si(-1000, 1000); NOTE("set " << quote16(k) << " = int " << v << "\n"); a.p.setValue(jk, (int64)v); drop(a, k); a.m[k] = W(std::to_string(v)); a.ints[k] = v; sets++; break; }
			case 2:
			{
				double v = s.coin() ? (double)s.si(-100000, 100000) / 64.0 : std::ldexp((double)s.si(-1000000, 1000000), (int)s.si(-60, 60)); char b[64]; snprintf(b, 64, "%.10g", v); double r = strtod(b, nullptr);
				NOTE("set " << quote16(k) << " = double " << v << "\n"); a.p.setValue(jk, v); drop(a, k); U t = U16(a.p.value(jk)); REQUIRE_EQ(a.p.valueDouble(jk, 3.25), r); a.m[k] = t; a.dbls[k] = r; sets++; break;
			}
			case 3: { bool v = s.coin(); NOTE("set " << quote16(k) << " = bool " << v << "\n"); a.p.setValue(jk, v); drop(a, k); a.m[k] = v ? u"true" : u"false"; sets++; break; }
			case 4: { static const std::vector<const char*> lits{"literal", "false", "0", "a\\b", "x\ty"}; const char* v = s.pick(lits); NOTE("set " << quote16(k) << " = literal " << quote(v) << "\n"); a.p.setValue(jk, v); drop(a, k); a.m[k] = W(v); sets++; break; }
			case 5: checkOne(a, k, genVal(s)); break;
			case 6:
			{
				std::string f = s.pick(files); NOTE("save to " << f << "\n"); guarded([&] { a.p.save(jm::File(JA(f))); }); saves++;
				Map w = parseFile(readFileRaw(f)); REQUIRE(w.size() == a.m.size(), << "the file has " << w.size() << " entries instead of " << a.m.size());
				for(auto& e : a.m) { auto i = w.find(e.first); REQUIRE(i != w.end(), << "the file lacks the key " << quote16(e.first)); REQUIRE(i->second == e.second, << "the file has " << quote16(i->second) << " for " << quote16(e.first) << " instead of " << quote16(e.second)); }
				onDisk[f] = a.m; break;
			}
			case 7:
			{
				std::string f = s.pick(files); if(!onDisk.count(f) && onDisk.size() && s.coin()) f = onDisk.begin()->first; if(onDisk.count(f)) loads++; NOTE("load from " << f << "\n");
				std::string before = readFileRaw(f); guarded([&] { a.p.load(jm::File(JA(f))); }); REQUIRE(readFileRaw(f) == before);
				if(onDisk.count(f)) for(auto& e : onDisk[f]) { drop(a, e.first); a.m[e.first] = e.second; } break;
			}
			case 8: // a file by another writer
			{
				std::string f = files[s.choice(1)]; Map m; std::string raw; const char* nl = s.pick<const char*>({"\n", "\r\n", "\r"}); size_t c = s.len(5);
				for(size_t i = 0; i < c; i++)
				{
					if(s.chance(1, 4)) { raw += s.pick<const char*>({"", "# comment", "no value here", "=x", "   "}); raw += nl; }
					U kk = genKey(s), v = genVal(s); raw += s.pick<const char*>({"", " ", "\t"}) + utf8Ref(kk) + s.pick<const char*>({"", " ", "  "}) + "=" + s.pick<const char*>({"", " ", "\t "}) + utf8Ref(esc(v)) + s.pick<const char*>({"", " ", "  "}); if(i + 1 < c || s.coin()) raw += nl; m[kk] = v;
				}
				NOTE("write " << quote(raw) << " to " << f << "\n"); writeFileRaw(f, raw); onDisk[f] = m; break;
			}
			case 9: { if(a.m.empty()) break; auto it = a.m.begin(); std::advance(it, (long)s.choice(a.m.size() - 1)); U kk = it->first; NOTE("remove " << quote16(kk) << "\n"); jm::String* old = (jm::String*)a.p.remove(J(kk)); REQUIRE(old != nullptr && U16(*old) == it->second); delete old; drop(a, kk); a.m.erase(it); break; }
			case 10: // a copy has values of its own
			{
				size_t i = s.choice(1), j = s.choice(1); NOTE("copy " << i << " to " << j << "\n"); ctx.label("copied");
				if(s.coin()) { ps[j]->p = ps[i]->p; P t; t.m = ps[i]->m; t.ints = ps[i]->ints; t.dbls = ps[i]->dbls; ps[j]->m = t.m; ps[j]->ints = t.ints; ps[j]->dbls = t.dbls; }
				else ps[j].reset(new P(*ps[i]));
				break;
			}
			default: { size_t i = s.choice(1); NOTE("new preferences " << i << "\n"); ps[i] = std::make_unique<P>(); break; }
		}
		for(auto& p : ps) checkAll(*p);
	}
	for(auto& f : onDisk) { P q; guarded([&] { q.p.load(jm::File(JA(f.first))); }); q.m = f.second; checkAll(q); }
	if(sets > 1 && (saves || loads)) ctx.nontrivial();
	if(saves) ctx.label("saved"); if(loads) ctx.label("loaded");
}
const Def& pbt::definition()
{
	static Def d{"P21", "histories of up to 22 operations on two preferences objects and three files: sets of texts (backslashes, tabs, line breaks, literal escapes, any characters of the basic plane), literals, integers, doubles and truth values, removals, saves over existing, missing and longer files and into a missing directory, loads of these and of files by another writer; after every step all keys are compared with a map, every saved file is parsed independently, and each file is loaded into fresh preferences at the end. Non-trivial: two sets and a save or load; distinct by choices.", 200000, 5000000, jmInit, run};
	d.assumptions = {"keys contain no '=', no line break and, like values, no white space at their ends other than escaped tabs and line breaks in values", "an entry whose value is the empty text may count as unset for the default", "doubles are kept with ten significant digits"};
	return d;
}
