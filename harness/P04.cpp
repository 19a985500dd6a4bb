// P04: StringList and StringTokenizer
#include "jmh.hpp"
using jm::String; using jm::Char; using jm::StringList; using jm::StringTokenizer;
typedef std::u16string M;
typedef std::vector<M> V;
static V wide(const StringList& l) { V v; for(int64 i = 0; i < l.size(); i++) v.push_back(U16(l.get(i))); return v; }
static std::string show(const V& v) { std::string o = "["; for(auto& m : v) o += quote16(m) + ","; return o + "]"; }
static V pieces(const M& t, const M& d, bool ret)
{
	V v; M cur; for(char16_t c : t) { if(d.find(c) != M::npos) { if(!cur.empty()) v.push_back(cur); cur.clear(); if(ret) v.push_back(M(1, c)); } else cur += c; } if(!cur.empty()) v.push_back(cur); return v;
}
static const int N = 3;
static void listHistory(Src& s, Ctx& ctx)
{
	std::unique_ptr<StringList> l[N]; V m[N]; for(auto& p : l) p.reset(new StringList());
	int steps = 1 + (int)s.len(40), edits = 0; bool own = false; size_t mx = 0;
	for(int k = 0; k < steps; k++)
	{
		int a = (int)s.choice(N - 1), b = (int)s.choice(N - 1); int64 L = (int64)m[a].size(); const char* name = "";
		auto text = [&]() { if(L && s.chance(1, 3)) return m[a][s.choice((uint64_t)L - 1)]; M t; size_t n = s.choice(3); for(size_t i = 0; i < n; i++) t += (char16_t)('a' + s.choice(2)); if(s.chance(1, 10)) t = genText(s, 20); return t; };
		int op = (int)s.choice(15); NOTE("op " << op << " a=" << a << " " << show(m[a]) << "\n");
		switch(op)
		{
			case 0: case 1: { name = "append"; M t = text(); if(s.coin()) l[a]->append(J(t)); else *l[a] << J(t); m[a].push_back(t); edits++; break; }
			case 2: { name = "append own"; if(!L) break; size_t i = s.choice((uint64_t)L - 1); M t = m[a][i]; switch(s.choice(2)) { case 0: l[a]->append((*l[a])[(int64)i]); break; case 1: l[a]->append(l[a]->get((int64)i)); break; default: *l[a] << *(l[a]->begin() + i); } m[a].push_back(t); own = true; edits++; break; }
			case 3: { name = "remove"; M t = text(); l[a]->remove(J(t)); m[a].erase(std::remove(m[a].begin(), m[a].end(), t), m[a].end()); edits++; break; }
			case 4: { name = "remove own"; if(!L) break; size_t i = s.choice((uint64_t)L - 1); M t = m[a][i]; l[a]->remove(l[a]->get((int64)i)); m[a].erase(std::remove(m[a].begin(), m[a].end(), t), m[a].end()); own = true; edits++; break; }
			case 5: { name = "set"; int64 i = s.chance(1, 8) ? s.pick<int64>({-1, L, L + 8, INT64_MAX, INT64_MIN}) : L ? (int64)s.choice((uint64_t)L - 1) : 0; M t = text(); if(i < 0 || i >= L) { REQUIRE(throwsJm([&]() { if(s.coin()) l[a]->set(i, J(t)); else (*l[a])[i] = J(t); }), << "index " << i << " of " << L); break; } if(s.coin()) l[a]->set(i, J(t)); else (*l[a])[i] = J(t); m[a][(size_t)i] = t; edits++; break; }
			case 6: { name = "get"; int64 i = s.chance(1, 4) ? s.pick<int64>({-1, L, L + 8, INT64_MAX}) : L ? (int64)s.choice((uint64_t)L - 1) : 0; if(i < 0 || i >= L) REQUIRE(throwsJm([&]() { (void)l[a]->get(i); }), << "index " << i << " of " << L); else REQUIRE(U16(l[a]->get(i)) == m[a][(size_t)i]); break; }
			case 7: { name = "sort"; l[a]->sort(); std::sort(m[a].begin(), m[a].end()); edits++; break; }
			case 8: { name = "copy"; if(a == b) { *l[a] = *l[b]; break; } if(s.coin()) *l[a] = *l[b]; else l[a].reset(new StringList(*l[b])); m[a] = m[b]; break; }
			case 9: { name = "clear"; if(s.chance(1, 2)) { l[a]->clear(); m[a].clear(); } break; }
			case 10: { name = "reserve"; l[a]->reserve((int64)s.choice(30)); break; }
			case 11: { name = "construct"; int64 n = (int64)longLen(s, 1400, 3); if(n == 0) n = (int64)s.choice(12); if(s.coin()) { l[a].reset(new StringList(n)); m[a].assign((size_t)n, M()); } else { M t = text(); l[a].reset(new StringList(J(t))); m[a] = V{t}; } break; }
			case 12: { name = "contains"; M t = text(); REQUIRE_EQ(l[a]->contains(J(t)), std::find(m[a].begin(), m[a].end(), t) != m[a].end(), << quote16(t) << " in " << show(m[a])); break; }
			case 13: { name = "join"; char16_t d = s.pick<char16_t>({u',', u';', u'a', u'\u00e4'}); M r; for(size_t i = 0; i < m[a].size(); i++) { if(i) r += d; r += m[a][i]; } REQUIRE(U16(l[a]->join(Char(d))) == r, << "join gives " << quote16(U16(l[a]->join(Char(d)))) << ", expected " << quote16(r)); break; }
			case 15: { name = "append many"; size_t n = longLen(s, 400, 4); for(size_t i = 0; i < n; i++) { M t = W(std::to_string((i * 7919 + 3) % 10007)); l[a]->append(J(t)); m[a].push_back(t); } if(n) { edits++; ctx.label("many elements"); } break; }
			case 14: { name = "range"; V v; for(auto& x : *l[a]) v.push_back(U16(x)); REQUIRE(v == m[a], << show(v)); break; }
		}
		for(int i = 0; i < N; i++) { if(m[i].size() > 100 && i != a) continue; V v = wide(*l[i]); REQUIRE(v == m[i], << "after " << name << ": list " << i << " is " << show(v) << ", expected " << show(m[i])); mx = std::max(mx, v.size()); }
	}
	if(edits > 1) ctx.nontrivial(); if(own) ctx.label("own element as argument"); if(mx > 8) ctx.label("list grew"); ctx.label("list history");
}
static void tokens(Src& s, Ctx& ctx)
{
	M d; size_t nd = s.choice(3); for(size_t i = 0; i < nd; i++) d += s.pick<char16_t>({u',', u' ', u';', u'a', u'\u00e4', u'\u20ac'});
	M t; size_t n = longLen(s, 20000, 8); if(n == 0) n = s.len(60); size_t rest = n > 200 ? n - 60 : 0; n -= rest; for(size_t i = 0; i < n; i++) t += !d.empty() && s.chance(1, 3) ? d[s.choice(d.size() - 1)] : genChar(s);
	if(rest) { M q = t; while(t.size() < n + rest) t += q; t.resize(n + rest); ctx.label("long text"); }
	bool ret = s.coin(); V exp = pieces(t, d, ret); NOTE("tokens of " << quote16(t) << " at " << quote16(d) << " ret " << ret << "\n");
	StringTokenizer st(J(t), J(d), ret); V got;
	for(size_t i = 0; i < exp.size() + 2; i++)
	{
		bool ask = i > 200 ? i % 3 : s.chance(3, 4); if(ask) { int k = i > 200 ? 1 : 1 + (int)s.choice(2); while(k--) REQUIRE_EQ(st.hasNext(), i < exp.size(), << "before token " << i << " of " << show(exp)); }
		if(i >= exp.size()) { REQUIRE(throwsJm([&]() { (void)st.next(); }), << "a token after the last one"); continue; }
		M x = U16(st.next()); REQUIRE(x == exp[i], << "token " << i << " is " << quote16(x) << ", expected " << show(exp));
	}
	if(!d.empty())
	{
		char16_t c = d[0]; String js = J(t); StringList l = js.split(Char(c)); V e = pieces(t, M(1, c), false); REQUIRE(wide(l) == e, << "split gives " << show(wide(l)) << ", expected " << show(e));
		// joining and splitting
		String j = l.join(Char(c)); REQUIRE(wide(j.split(Char(c))) == e, << "split of the join " << quote16(U16(j)));
		if(ret) { M all; for(auto& x : exp) all += x; REQUIRE(all == t); }
	}
	if(exp.size() > 1) ctx.nontrivial(); ctx.label("tokens"); if(!t.empty() && !d.empty() && (d.find(t[0]) != M::npos)) ctx.label("leading delimiter");
}
static void run(Src& s, Ctx& ctx) { if(s.coin()) tokens(s, ctx); else listHistory(s, ctx); }
const Def& pbt::definition()
{
	static Def d{"P04", "histories of 1..41 operations over 3 string lists (including elements of the list itself as arguments) against std::vector, and texts tokenized at random delimiter sets with hasNext called any number of times. Non-trivial: at least two edits, or at least two tokens; distinct by choice sequence.", 150000, 4000000, jmInit, run};
	return d;
}
