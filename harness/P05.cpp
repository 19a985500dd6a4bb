// P05: Hashtable against std::map
#include "jmh.hpp"
using jm::String; using jm::Char; using jm::Hashtable;
typedef std::u16string M;
static std::string show(const M& m) { return quote16(m); }

static M genKey(Src& s, const std::map<M, void*>& m)
{
	if(!m.empty() && s.chance(1, 2)) { auto it = m.begin(); std::advance(it, (long)s.choice(m.size() - 1)); return it->first; }
	switch(s.choice(4))
	{
		case 0: { M k; size_t n = 1 + s.choice(4); for(size_t i = 0; i < n; i++) k += s.coin() ? u"Aa" : u"BB"; return k; } // equal hash codes
		case 1: return W("k" + std::to_string(s.choice(60)));
		case 2: { M k; size_t n = s.choice(2); for(size_t i = 0; i < n; i++) k += (char16_t)('a' + s.choice(3)); return k; }
		case 3: return genText(s, 30);
		default: { M k; size_t n = 6 + s.choice(20); for(size_t i = 0; i < n; i++) k += (char16_t)(0x4000 + s.choice(0x8fff)); return k; } // hash codes of all signs
	}
}
// the key as a String, produced in different ways
static String key(Src& s, const M& k)
{
	switch(s.choice(4))
	{
		case 0: return J(k);
		case 1: { String x = J(k); (void)x.hashCode(); return x; }
		case 2: { String x = J(u"zz" + k); (void)x.hashCode(); x.deleteCharRangeAt(0, 2); return x; }
		case 3: { String x = J(u"other"); (void)x.hashCode(); x = J(k); return x; }
		default: { String x; for(char16_t c : k) x << Char(c); return x; }
	}
}
static void run(Src& s, Ctx& ctx)
{
	static char pool[64]; Hashtable* h = new Hashtable(); std::map<M, void*> m; size_t mx = 0; int edits = 0; bool coll = false;
	size_t steps = 1 + s.len(60);
	for(size_t i = 0; i < steps; i++)
	{
		int op = (int)s.weighted({12, 8, 8, 3, 1, 2, 1, 3, 1}); M k = genKey(s, m); void* v = &pool[s.choice(63)]; auto it = m.find(k); void* cur = it == m.end() ? nullptr : it->second;
		NOTE("op " << op << " " << show(k) << "\n");
		switch(op)
		{
			case 0: { void* o = h->put(key(s, k), v); REQUIRE(o == cur, << "put returned " << o << " instead of " << cur << " for " << show(k)); if(cur) coll = true; m[k] = v; edits++; break; }
			case 1: { void* o = h->remove(key(s, k)); REQUIRE(o == cur, << "remove returned " << o << " instead of " << cur << " for " << show(k)); m.erase(k); edits++; break; }
			case 2: { void* o = h->get(key(s, k)); REQUIRE(o == cur, << "get returned " << o << " instead of " << cur << " for " << show(k)); REQUIRE_EQ(h->containsKey(key(s, k)), cur != nullptr, << show(k)); break; }
			case 3: // iteration
			{
				std::map<M, void*> seen; std::vector<M> order; jm::Iterator* it2 = h->keys(); std::unique_ptr<jm::Iterator> own(it2);
				for(size_t g = 0; g <= m.size() + 1; g++)
				{
					if(s.coin()) { bool more = it2->hasNext(); REQUIRE_EQ(more, g < m.size(), << "hasNext at key " << g); if(s.coin()) REQUIRE_EQ(it2->hasNext(), more); }
					String* x = (String*)it2->next(); if(g >= m.size()) { REQUIRE(x == nullptr, << "a key after the last one"); continue; }
					REQUIRE(x != nullptr, << "only " << g << " of " << m.size() << " keys"); M q = U16(*x); REQUIRE(m.count(q) && !seen.count(q), << "key " << show(q) << " is wrong or repeated"); seen[q] = nullptr; order.push_back(q);
				}
				std::unique_ptr<jm::Iterator> vi(h->values()); std::multiset<void*> a, b; for(auto& e : m) a.insert(e.second);
				for(size_t g = 0; g < m.size(); g++) { REQUIRE(vi->hasNext()); void* x = (void*)vi->next(); b.insert(x); } REQUIRE(!vi->hasNext()); REQUIRE(a == b, << "the values differ"); break;
			}
			case 4: { if(s.chance(1, 3)) { h->clear(); m.clear(); edits++; } break; }
			case 5: { size_t n = longLen(s, 20000); if(n == 0) n = s.choice(40); std::string p(1, (char)('a' + s.choice(3))); for(size_t q = 0; q < n; q++) { M kk = W(p + std::to_string(q)); void* o = h->put(J(kk), &pool[q % 64]); void* was = m.count(kk) ? m[kk] : nullptr; REQUIRE(o == was, << "put of " << show(kk)); m[kk] = &pool[q % 64]; } edits += (int)n; break; }
			case 6: { std::vector<M> ks; for(auto& e : m) if(s.coin()) ks.push_back(e.first); for(auto& kk : ks) { void* o = h->remove(J(kk)); REQUIRE(o == m[kk], << "remove of " << show(kk)); m.erase(kk); } break; }
			case 7: { bool in = false; for(auto& e : m) in |= e.second == v; REQUIRE_EQ(h->containsValue(v), in); break; }
			case 8: // copies share nothing with the original
			{
				Hashtable* c; NOTE("copy\n");
				if(s.coin()) c = new Hashtable(*h); else { c = new Hashtable(); size_t n = s.choice(20); for(size_t q = 0; q < n; q++) c->put(J(W("o" + std::to_string(q))), &pool[0]); *c = *h; if(s.coin()) { Hashtable& self = *c; *c = self; } }
				Hashtable* gone = h; Hashtable* stay = c; if(s.coin()) std::swap(gone, stay);
				if(s.coin()) gone->put(key(s, k), &pool[63]); else if(s.coin()) gone->remove(key(s, k)); else gone->clear();
				delete gone; h = stay; ctx.label("copied");
				for(auto& e : m) REQUIRE(h->get(J(e.first)) == e.second, << "after copying get of " << show(e.first) << " is wrong"); break;
			}
		}
		REQUIRE_EQ((size_t)h->size(), m.size()); REQUIRE_EQ(h->isEmpty(), m.empty()); mx = std::max(mx, m.size()); if(mx > 1000 && i > 6) break;
	}
	for(auto& e : m) REQUIRE(h->get(J(e.first)) == e.second, << "at the end get of " << show(e.first) << " is wrong");
	delete h;
	if(edits > 2) ctx.nontrivial(); if(mx > 5) ctx.label("grew once"); if(mx > 11) ctx.label("grew twice"); if(mx > 40) ctx.label("more than 40 entries"); if(mx > 300) ctx.label("more than 300 entries"); if(coll) ctx.label("overwrite");
}
const Def& pbt::definition()
{
	static Def d{"P05", "histories of 1..61 operations on a hash table against std::map, keys with equal hash codes (Aa/BB words), negative hash codes and reached by edits, bulk insertions for growth, iteration. Non-trivial: more than two changes; distinct by choice sequence.", 900000, 15000000, jmInit, run};
	d.assumptions = {"Values are non-null pointers; the table does not own them. Iterators are not used across modifications."};
	return d;
}
