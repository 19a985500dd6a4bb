// P02: equality, order, hash codes
#include "string_history.hpp"
using jm::String; using jm::Char;
typedef std::u16string M;
static M lower(const M& m) { M r; for(char16_t c : m) r += (char16_t)Char(c).toLowerCase().unicode(); return r; }
static int sgn(int64_t v) { return v < 0 ? -1 : v > 0; }

// A string with the given content reached by a random history, asking for the hash code in between
static String* reach(Src& s, const M& m, const M& other)
{
	auto touch = [&](String& x) { if(s.coin()) (void)x.hashCode(); };
	String* x = nullptr; size_t L = m.size();
	switch(s.choice(13))
	{
		case 0: x = new String(J(m)); break;
		case 1: { x = new String(); for(char16_t c : m) { touch(*x); x->append(Char(c)); } break; }
		case 2: { x = new String(J(other)); touch(*x); *x = J(m); break; }
		case 3: { String t = J(m); (void)t.hashCode(); x = new String(J(other)); touch(*x); *x = t; break; }
		case 4: { x = new String(J(other + m)); touch(*x); x->deleteCharRangeAt(0, (int64)other.size()); break; }
		case 5: { x = new String(J(m + other)); touch(*x); x->deleteCharRangeAt((int64)L, (int64)other.size()); break; }
		case 6: { M r(m.rbegin(), m.rend()); String t = J(r); touch(t); x = new String(t.reverse()); break; }
		case 7: { String t = J(other + m + other); touch(t); x = new String(t.substring((int64)other.size(), (int64)(other.size() + L))); break; }
		case 8: { M t = m; size_t i = L ? s.choice(L - 1) : 0; x = new String(J(L ? (t.erase(i, 1)) : t)); touch(*x); if(L) x->insert((int64)i, Char(m[i])); break; }
		case 9: { M t = m; for(auto& c : t) c = u'x'; x = new String(J(t)); for(size_t i = 0; i < L; i++) { touch(*x); x->setCharAt((int64)i, Char(m[i])); } break; }
		case 10: { M t = m; char16_t z = 0xE123; while(t.find(z) != M::npos) z++; for(auto& c : t) if(L && c == m[0]) c = z; String u = J(t); touch(u); x = new String(L ? u.replace(Char(z), Char(m[0])) : u); break; }
		case 11: { size_t i = L ? s.choice(L) : 0; String a = J(m.substr(0, i)), b = J(m.substr(i)); touch(a); touch(b); if(s.coin()) { x = new String(a); *x += b; } else x = new String(a + b); break; }
		case 12: { x = new String(J(other)); touch(*x); x->clear(); touch(*x); x->append(J(m)); break; }
		default: { String t = J(m); M lo = lower(m); String l = t.toLowerCase(); touch(t); String l2 = t.toLowerCase(); (void)l2.hashCode(); REQUIRE(U16(l) == lo); REQUIRE(l.hashCode() == l2.hashCode(), << "lower case of " << quote16(m)); x = new String(t); break; }
	}
	touch(*x);
	REQUIRE(U16(*x) == m, << "harness: " << quote16(U16(*x)) << " instead of " << quote16(m));
	return x;
}

// two texts beyond the sizes of 16 bit counters, which differ at one place at the most
static void huge(Src& s, Ctx& ctx)
{
	size_t n = s.pick<size_t>({65533, 65536, 70000, 131070}) + s.choice(5); M unit = genText(s, 5) + u"k", a(n, u' '); for(size_t i = 0; i < n; i++) a[i] = unit[i % unit.size()];
	M b = a; size_t at = s.coin() ? n - 1 - s.choice(5) : s.choice(n - 1); int how = (int)s.choice(3);
	if(how == 1) b[at] = genChar(s); if(how == 2) b.erase(at, 1 + s.choice(3)); if(how == 3) b.resize(s.coin() || n < 65536 ? 65536 : n - 65536 + s.choice(3), u'k');
	NOTE(n << " characters made of " << quote16(unit) << ", the other text " << (how == 0 ? "equal" : how == 1 ? "with another character" : how == 2 ? "without one or more characters" : "of another length") << " at " << at << "\n");
	String p = J(a), q = J(b); if(s.coin()) (void)p.hashCode(); if(s.coin()) (void)q.hashCode(); bool eq = a == b; int c = sgn(a.compare(b));
	REQUIRE_EQ(p == q, eq); REQUIRE_EQ(p != q, !eq); REQUIRE_EQ(p.equals(q), eq); REQUIRE_EQ(q.equals((const jm::Object*)&p), eq); REQUIRE_EQ(sgn(p.compareTo(q)), c); REQUIRE_EQ(p < q, c < 0); REQUIRE_EQ(q < p, c > 0);
	REQUIRE_EQ(p.equalsIgnoreCase(q), lower(a) == lower(b)); if(eq) REQUIRE_EQ(p.hashCode(), q.hashCode()); REQUIRE_EQ(p.constHashCode(), J(a).hashCode());
	REQUIRE_EQ(p.startsWith(q), a.size() >= b.size() && a.compare(0, b.size(), b) == 0); REQUIRE_EQ(p.endsWith(q), a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0);
	size_t from = s.choice(2) ? n - 1 - s.choice(9) : s.choice(n - 1); M part = a.substr(from); if(s.coin()) part[s.coin() ? part.size() - 1 : s.choice(part.size() - 1)] = genChar(s);
	REQUIRE_EQ(p.atIs((int64)from, J(part)), a.compare(from, M::npos, part) == 0, << "at " << from); REQUIRE_EQ(p.atIsIgnoreCase((int64)from, J(part)), lower(a.substr(from)) == lower(part), << "at " << from); REQUIRE_EQ(p.endsWith(J(part)), a.compare(from, M::npos, part) == 0);
	ctx.label("huge texts"); ctx.nontrivial(); ctx.key(hash64(n, at) ^ hashBytes(unit.data(), unit.size() * 2));
}
static void run(Src& s, Ctx& ctx)
{
	if(s.chance(1, 4)) { ctx.label("history"); strhist::run(s, ctx, true); return; }
	if(s.choice(5999) == 3456) { huge(s, ctx); return; }
	// three related texts
	M t[3]; t[0] = genLong(s, 40, 1400);
	for(int i = 1; i < 3; i++)
	{
		t[i] = t[s.choice((uint64_t)i - 1)];
		switch(s.choice(7))
		{
			case 0: break; // equal
			case 1: { M u; for(char16_t c : t[i]) u += (char16_t)(s.coin() ? Char(c).toUpperCase() : Char(c).toLowerCase()).unicode(); t[i] = u; break; }
			case 2: t[i] += genText(s, 4); break;
			case 3: if(t[i].size()) t[i].erase(s.choice(t[i].size() - 1)); break;
			case 4: if(t[i].size()) t[i][s.choice(t[i].size() - 1)] = genChar(s); break;
			case 5: t[i] = genText(s, 4) + t[i]; break;
			case 6: if(t[i].size() > 1) std::swap(t[i][0], t[i][t[i].size() - 1]); break;
			default: t[i] = genText(s, 30); break;
		}
	}
	M other = genText(s, 6);
	std::unique_ptr<String> x[3], y[3];
	for(int i = 0; i < 3; i++) { x[i].reset(reach(s, t[i], other)); y[i].reset(reach(s, t[i], other)); NOTE(quote16(t[i]) << "\n"); }
	for(int i = 0; i < 3; i++)
	{
		int64 h = x[i]->hashCode();
		REQUIRE(x[i]->hashCode() == h, << "second call of hashCode");
		REQUIRE(x[i]->constHashCode() == h, << "constHashCode");
		REQUIRE(y[i]->constHashCode() == h, << "equal strings " << quote16(t[i]) << " have hash codes " << h << " and " << y[i]->constHashCode());
		REQUIRE(y[i]->hashCode() == h);
		REQUIRE(y[i]->hashCode() == h); REQUIRE(y[i]->constHashCode() == h);
		REQUIRE(*x[i] == *y[i] && !(*x[i] != *y[i]) && x[i]->equals(*y[i]) && x[i]->equals((const jm::Object*)y[i].get()));
		jm::Object o; REQUIRE(!x[i]->equals(&o) && !x[i]->equals((const jm::Object*)nullptr));
		for(int j = 0; j < 3; j++)
		{
			const M& a = t[i]; const M& b = t[j]; String& p = *x[i]; String& q = *y[j];
			bool eq = a == b; int c = sgn(a.compare(b));
			REQUIRE_EQ(p == q, eq, << quote16(a) << " and " << quote16(b)); REQUIRE_EQ(p != q, !eq); REQUIRE_EQ(p.equals(q), eq); REQUIRE_EQ(p.equals((const jm::Object*)&q), eq);
			REQUIRE_EQ(sgn(p.compareTo(q)), c, << quote16(a) << " compared with " << quote16(b));
			REQUIRE_EQ(p < q, c < 0);
			REQUIRE_EQ(p.equalsIgnoreCase(q), lower(a) == lower(b), << quote16(a) << " and " << quote16(b));
			REQUIRE_EQ(sgn(p.compareFancyTo(q)), -sgn(q.compareFancyTo(p)), << quote16(a) << " and " << quote16(b));
			if(eq) REQUIRE_EQ(p.compareFancyTo(q), 0);
			REQUIRE_EQ(p.startsWith(q), a.size() >= b.size() && a.compare(0, b.size(), b) == 0, << quote16(a) << " starts with " << quote16(b));
			REQUIRE_EQ(p.endsWith(q), a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0, << quote16(a) << " ends with " << quote16(b));
			if(i != j && c != 0 && a.size() && b.size() && a[0] == b[0]) ctx.label("common prefix");
		}
		// at a position
		const M& a = t[i]; M part; int64 at;
		if(a.size() && s.coin()) { size_t b = s.choice(a.size() - 1); part = a.substr(b, s.chance(1, 4) ? s.choice(a.size() - b) : s.choice(5)); at = (int64)b; if(s.chance(1, 4) && part.size()) { M u; for(char16_t c : part) u += (char16_t)Char(c).toUpperCase().unicode(); part = u; } if(s.chance(1, 4)) part += genChar(s); if(part.size() && s.chance(1, 6)) part[part.size() - 1 - s.choice(std::min<size_t>(part.size() - 1, 2))] = genChar(s); }
		else { part = genText(s, 3); at = s.si(-3, (int64)a.size() + 3); }
		bool in = at >= 0 && (size_t)at + part.size() <= a.size();
		REQUIRE_EQ(x[i]->atIs(at, J(part)), in && a.compare((size_t)at, part.size(), part) == 0, << quote16(part) << " at " << at << " of " << quote16(a));
		REQUIRE_EQ(x[i]->atIsIgnoreCase(at, J(part)), in && lower(a.substr((size_t)at, part.size())) == lower(part), << quote16(part) << " at " << at << " of " << quote16(a));
	}
	// numbers inside of texts are ordered by value
	{
		M p = genText(s, 6), q = genText(s, 6); while(p.size() && p.back() >= '0' && p.back() <= '9') p.pop_back(); if(p.size() && Char(p.back()).isDigit()) p.clear(); if(q.size() && Char(q[0]).isDigit()) q.clear();
		auto number = [&]() -> uint64_t { switch(s.choice(3)) { case 0: case 1: return s.choice(120); case 2: return s.choice(0xfffffffeull); default: return s.choice(9000000000000000000ull); } }; uint64_t n1 = number(), n2 = s.chance(3, 4) ? number() : s.pick<uint64_t>({n1 * 10 % 4000000000000ull, n1 ^ 1, n1 % 4294967296ull, n1 % 4000000000000000000ull + 4294967296ull});
		String a = J(p + W(std::to_string(n1)) + q), b = J(p + W(std::to_string(n2)) + q);
		REQUIRE_EQ(sgn(a.compareFancyTo(b)), n1 < n2 ? -1 : n1 > n2, << A(a) << " and " << A(b));
	}
	bool same = t[0] == t[1] || t[1] == t[2] || t[0] == t[2]; if(same) ctx.label("equal texts");
	if(t[0].size() > 1) ctx.nontrivial(); ctx.key(hashBytes(t[0].data(), t[0].size() * 2, hashBytes(t[1].data(), t[1].size() * 2, hashBytes(t[2].data(), t[2].size() * 2))));
}
const Def& pbt::definition()
{
	static Def d{"P02", "a quarter: histories of up to 41 editing operations over 4 strings, with hash codes asked for at any time and compared with those of fresh strings of the same text; otherwise triples of related texts (equal, case-changed, prefix, one character changed...), each reached twice through one of 14 edit histories with hash code queries in between; all pairwise comparisons, hash codes, prefix/suffix/at tests against std::u16string. Non-trivial: two edits, or first text longer than one character; distinct by the three texts.", 1200000, 30000000, jmInit, run};
	return d;
}
