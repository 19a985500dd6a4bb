// Histories of string operations against a std::u16string model (P01); with hashes == true also
// the hash code of every string is asked for at any time and compared with a fresh string's (P02).
#pragma once
#include "jmh.hpp"
namespace strhist
{
using jm::String; using jm::Char;
typedef std::u16string M;
static const int N = 4;

static std::u16string wide(const String& s)
{
	uint16* w = s.toWString(); M r; int64 n = s.size();
	for(int64 i = 0; i < n; i++) r += (char16_t)w[i];
	REQUIRE(w[n] == 0, << "toWString is not terminated");
	delete[] w; return r;
}
struct State
{
	String* s[N]; M m[N];
	State() { for(auto& p : s) p = new String(); }
	~State() { for(auto p : s) delete p; }
};
static void check(State& st, const char* op)
{
	for(int i = 0; i < N; i++)
	{
		M w = wide(*st.s[i]);
		REQUIRE(w == st.m[i], << "after " << op << ": string " << i << " is " << quote16(w) << ", expected " << quote16(st.m[i]));
	}
}
static M lower(const M& m) { M r; for(char16_t c : m) r += (char16_t)Char(c).toLowerCase().unicode(); return r; }
static M upper(const M& m) { M r; for(char16_t c : m) r += (char16_t)Char(c).toUpperCase().unicode(); return r; }
static bool tooLong(size_t a, size_t b) { return a + b > 600 && (std::max(a, b) <= 600 || a + b > 20000); }
static int64 pos(size_t p) { return p == M::npos ? -1 : (int64)p; }

inline void run(Src& s, Ctx& ctx, bool hashes)
{
	State st;
	auto hashOf = [&](int i, const char* op) { String fresh = J(st.m[i]); int64 h = fresh.hashCode(); REQUIRE_EQ(st.s[i]->constHashCode(), h, << "constHashCode after " << op << " of " << quote16(st.m[i])); REQUIRE_EQ(st.s[i]->hashCode(), h, << "hashCode after " << op << " of " << quote16(st.m[i])); REQUIRE(*st.s[i] == fresh && fresh == *st.s[i] && st.s[i]->compareTo(fresh) == 0); };
	int steps = 1 + (int)s.len(40); int edits = 0; bool self = false; int oob = 0;
	for(int k = 0; k < steps; k++)
	{
		int a = (int)s.choice(N - 1), b = (int)s.choice(N - 1);
		String& x = *st.s[a]; M& m = st.m[a]; String& y = *st.s[b]; M& n = st.m[b];
		int64 L = (int64)m.size();
		auto index = [&](int64 hi) -> int64 { return s.chance(1, 12) ? s.pick<int64>({-1, -5, L + 1, L + 17, INT64_MIN, INT64_MAX, INT32_MAX}) : (int64)s.choice((uint64_t)std::max<int64>(hi, 0)); };
		char16_t c = (char16_t)0;
		int op = (int)s.choice(33);
		NOTE("op " << op << " a=" << a << " b=" << b << " " << quote16(m) << "\n");
		const char* name = "";
		auto outside = [&](auto f) // must throw or leave everything as it is
		{
			oob++; M before = m;
			if(!throwsJm(f)) REQUIRE(wide(x) == before, << "an index outside changed the string to " << quote16(wide(x)));
		};
		switch(op)
		{
			case 0: case 1: { name = "construct"; M t = genLong(s, 70, 10010); delete st.s[a]; if(s.coin()) st.s[a] = new String((const uint16*)t.data(), (int64)t.size()); else { std::string u = utf8Ref(t); size_t z = u.find('\0'); if(z != std::string::npos) { t = t.substr(0, t.find(u'\0')); } switch(s.choice(2)) { case 0: st.s[a] = new String(u.c_str()); break; case 1: u = utf8Ref(t); st.s[a] = new String(u.data(), (int64)u.size()); break; default: st.s[a] = new String(jm::ByteArray((const int8*)u.c_str(), (int64)utf8Ref(t).size())); } } m = t; break; }
			case 2: { name = "copy"; if(a != b) { delete st.s[a]; st.s[a] = new String(y); m = n; } break; }
			case 3: { name = "assign"; x = y; m = n; self |= a == b; break; }
			case 4: { name = "append string"; if(tooLong(m.size(), n.size())) break; M t = n; if(s.coin()) x.append(y); else x += y; m += t; self |= a == b; edits++; break; }
			case 5: { name = "append char"; c = genChar(s); if(s.coin()) x.append(Char(c)); else x << Char(c); m += c; edits++; break; }
			case 6: { name = "append number"; int64 v = s.anyInt64(); switch(s.choice(5)) {
				case 0: x << v; m += W(std::to_string(v)); break;
				case 1: x << (uint64)v; m += W(std::to_string((uint64)v)); break;
				case 2: x << (int32)v; m += W(std::to_string((int32)v)); break;
				case 3: x << (uint32)v; m += W(std::to_string((uint32)v)); break;
				case 4: { char ch = (char)(32 + ((uint64)v % 95)); x << ch; m += (char16_t)ch; break; }
				default: { int64 w = v; String t = x + w; REQUIRE(wide(t) == m + W(std::to_string(w)), << "operator+ with a number"); String t2 = w + x; REQUIRE(wide(t2) == W(std::to_string(w)) + m, << "number + string"); } } edits++; break; }
			case 7: { name = "plus"; String t = x + y; REQUIRE(wide(t) == m + n, << "a+b is " << quote16(wide(t))); if(t.size() < 400) { M r = m + n; *st.s[(a + 1) % N] = t; st.m[(a + 1) % N] = r; } break; }
			case 8: { name = "insert char"; c = genChar(s); int64 i = index(L); if(i < 0 || i > L) outside([&]() { x.insert(i, Char(c)); }); else { x.insert(i, Char(c)); m.insert((size_t)i, 1, c); edits++; } break; }
			case 9: { name = "insert string"; if(tooLong(m.size(), n.size())) break; int64 i = index(L); if(i < 0 || i > L) outside([&]() { x.insert(i, y); }); else { M t = n; x.insert(i, y); m.insert((size_t)i, t); self |= a == b; edits++; } break; }
			case 10: { name = "deleteCharAt"; int64 i = index(L - 1); if(i < 0 || i >= L) outside([&]() { x.deleteCharAt(i); }); else { x.deleteCharAt(i); m.erase((size_t)i, 1); edits++; } break; }
			case 11: { name = "deleteCharRangeAt"; int64 i = index(L); if(i < 0 || i > L) { int64 n2 = (int64)s.choice(5); outside([&]() { x.deleteCharRangeAt(i, n2); }); } else { int64 len = (int64)s.choice((uint64_t)(L - i)); if(s.chance(1, 10)) { len = s.chance(1, 4) ? s.pick<int64>({INT64_MAX, INT64_MAX - i, INT64_MAX - std::max<int64>(i - 1, 0), (int64)1 << 32, ((int64)1 << 32) + L - i, ((int64)1 << 31)}) : L - i + 1 + (int64)s.choice(20); oob++; if(throwsJm([&]() { x.deleteCharRangeAt(i, len); })) break; m.erase((size_t)i); break; } x.deleteCharRangeAt(i, len); m.erase((size_t)i, (size_t)len); edits++; } break; }
			case 12: { name = "setCharAt"; c = genChar(s); int64 i = index(L - 1); if(i < 0 || i >= L) outside([&]() { x.setCharAt(i, Char(c)); }); else { x.setCharAt(i, Char(c)); m[(size_t)i] = c; edits++; } break; }
			case 13: { name = "replace char"; char16_t o = L && s.chance(2, 3) ? m[s.choice((uint64_t)L - 1)] : genChar(s); c = genChar(s); String t = x.replace(Char(o), Char(c)); M r = m; for(auto& q : r) if(q == o) q = c; REQUIRE(wide(t) == r, << "replace " << (int)o << " by " << (int)c << " gives " << quote16(wide(t))); if(s.coin()) { x = t; m = r; } edits++; break; }
			case 14: case 15: { name = "replace string"; M o; if(L && s.chance(3, 4)) { size_t i = s.choice((uint64_t)L - 1); o = m.substr(i, 1 + (s.chance(1, 6) ? s.choice((uint64_t)L - 1) : s.choice(2))); } else o = genText(s, 3); M w = genText(s, 5); if(o.empty() && !s.chance(1, 3)) break;
				String t = x.replace(J(o), J(w)); if(o.empty()) { REQUIRE(t.size() >= 0); break; }
				M r; size_t p = 0; for(;;) { size_t q = m.find(o, p); if(q == M::npos) { r += m.substr(p); break; } r += m.substr(p, q - p) + w; p = q + o.size(); }
				REQUIRE(wide(t) == r, << "replace " << quote16(o) << " by " << quote16(w) << " in " << quote16(m) << " gives " << quote16(wide(t)) << ", expected " << quote16(r)); if(r.size() < 600 && s.coin()) { x = t; m = r; edits++; } break; }
			case 16: { name = "substring"; int64 i = (int64)s.choice((uint64_t)L); int64 j = (int64)s.u((uint64_t)i, (uint64_t)L); String t = x.substring(i, j); M r = m.substr((size_t)i, (size_t)(j - i)); REQUIRE(wide(t) == r, << "substring(" << i << "," << j << ") is " << quote16(wide(t))); String t2 = x.substring(i); REQUIRE(wide(t2) == m.substr((size_t)i), << "substring(" << i << ") is " << quote16(wide(t2))); if(s.coin()) { y = t; n = r; } break; }
			case 17: { name = "substring outside"; int64 i = s.pick<int64>({-3, 0, L, L + 1, L + 40}), j = s.pick<int64>({-1, 0, L, L + 1, L + 40, INT64_MAX}); oob++; String t; if(!throwsJm([&]() { t = x.substring(i, j); })) { int64 p = std::max<int64>(i, 0), q = std::min(j, L); M r = p < q ? m.substr((size_t)p, (size_t)(q - p)) : M(); REQUIRE(wide(t) == r, << "substring(" << i << "," << j << ") is " << quote16(wide(t))); } break; }
			case 18: { name = "trim"; size_t p = 0, q = m.size(); while(p < q && Char(m[p]).isWhitespace()) p++; while(q > p && Char(m[q - 1]).isWhitespace()) q--; String t = x.trim(); M r = m.substr(p, q - p); REQUIRE(wide(t) == r, << "trim gives " << quote16(wide(t))); if(s.coin()) { x = t; m = r; } break; }
			case 19: { name = "toLowerCase"; String t = x.toLowerCase(); REQUIRE(wide(t) == lower(m), << quote16(wide(t))); if(s.coin()) { x = t; m = lower(m); } break; }
			case 20: { name = "toUpperCase"; String t = x.toUpperCase(); REQUIRE(wide(t) == upper(m), << quote16(wide(t))); if(s.coin()) { x = t; m = upper(m); } break; }
			case 21: { name = "reverse"; String t = x.reverse(); M r(m.rbegin(), m.rend()); REQUIRE(wide(t) == r, << quote16(wide(t))); if(s.coin()) { x = t; m = r; } break; }
			case 22: { name = "clear"; if(s.chance(1, 2)) x.clear(); else x.zero(); m.clear(); break; }
			case 23: { name = "checkCapacity"; x.checkCapacity((int64)s.choice(100)); break; }
			case 24: case 25: { name = "indexOf char"; c = L && s.coin() ? m[s.choice((uint64_t)L - 1)] : genChar(s); REQUIRE_EQ(x.indexOf(Char(c)), pos(m.find(c)), << quote16(m)); int64 f = (int64)s.choice((uint64_t)L + 2) - 1; REQUIRE_EQ(x.indexOf(Char(c), f), pos(m.find(c, (size_t)std::max<int64>(f, 0))), << "from " << f); REQUIRE_EQ(x.lastIndexOf(Char(c)), pos(m.rfind(c)), << quote16(m)); if(L) { f = (int64)s.choice((uint64_t)L - 1); REQUIRE_EQ(x.lastIndexOf(Char(c), f), pos(m.rfind(c, (size_t)f)), << "from " << f); }
				int64 cnt = 0; for(char16_t q : m) cnt += q == c; REQUIRE_EQ(x.count(Char(c)), cnt); break; }
			case 26: case 27: { name = "indexOf string"; M o; if(L && s.chance(3, 4)) { size_t i = s.choice((uint64_t)L - 1); o = m.substr(i, 1 + (s.chance(1, 4) ? s.choice((uint64_t)L - 1) : s.choice(4))); if(s.chance(1, 3)) o += genChar(s); if(s.chance(1, 8)) o[o.size() - 1 - s.choice(std::min<size_t>(o.size() - 1, 2))] = genChar(s); } else o = genText(s, 3); if(o.empty()) break; String js = J(o);
				REQUIRE_EQ(x.indexOf(js), pos(m.find(o)), << quote16(o) << " in " << quote16(m)); int64 f = (int64)s.choice((uint64_t)L + 2) - 1; REQUIRE_EQ(x.indexOf(js, f), pos(m.find(o, (size_t)std::max<int64>(f, 0))), << quote16(o) << " in " << quote16(m) << " from " << f); REQUIRE_EQ(x.lastIndexOf(js), pos(m.rfind(o)), << quote16(o) << " in " << quote16(m)); if(L) { f = (int64)s.choice((uint64_t)L - 1); REQUIRE_EQ(x.lastIndexOf(js, f), pos(m.rfind(o, (size_t)f)), << quote16(o) << " in " << quote16(m) << " from " << f); } break; }
			case 28: { name = "charAt"; int64 i = index(L - 1); if(i < 0 || i >= L) { oob++; REQUIRE(throwsJm([&]() { volatile int q = x.charAt(i).unicode(); (void)q; }), << "charAt(" << i << ") of " << L); } else REQUIRE_EQ((int)x.charAt(i).unicode(), (int)m[(size_t)i]); break; }
			case 29: { name = "bytes"; jm::ByteArray u = x.toCString(jm::Charset::forName("UTF-8")); std::string r = utf8Ref(m); bool sur = false; for(char16_t q : m) sur |= q == 0; if(!sur) REQUIRE(std::string(u.constData(), (size_t)u.size()) == r, << hex(u.constData(), (size_t)u.size())); break; }
			case 30: { name = "hash"; (void)x.hashCode(); break; } // fills a cache
			case 31: { name = "moved copies"; String t(x); t.append(Char(u'!')); String t2 = x; t2.clear(); String t3; t3 = x; if(t3.size()) t3.setCharAt(0, Char(u'#')); break; }
			case 32: { name = "self append in expression"; if(L > 200) break; x = x + x; m = m + m; self = true; edits++; break; }
			case 33: { name = "isEmpty"; REQUIRE_EQ(x.isEmpty(), m.empty()); REQUIRE_EQ((int64)x.size(), L); break; }
		}
		check(st, name);
		if(hashes && s.coin()) hashOf(a, name);
	}
	if(hashes) for(int i = 0; i < N; i++) hashOf(i, "all");
	if(edits >= 2) ctx.nontrivial();
	if(self) ctx.label("own argument"); if(oob) ctx.label("index outside"); if(edits > 5) ctx.label("more than 5 edits");
	size_t mx = 0; for(auto& q : st.m) mx = std::max(mx, q.size()); if(mx > 32) ctx.label("longer than 32");
	if(mx > 128) ctx.label("longer than 128");
}
}
