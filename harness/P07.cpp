// P07: Array<T>, Array<T*>, FloatArray and Stack against std::vector
#include "jmh.hpp"
#include "core/Array.h"
#include "core/Stack.h"
using namespace jm;
// counts its living instances; ordered by v only, so that equal elements can be told apart
struct Num: public Object, public Comparable<Num>
{
	static inline int alive = 0; int v = -1, tag = -1; Num() { alive++; } Num(int a, int b): v(a), tag(b) { alive++; } Num(const Num& o): Object(), Comparable<Num>(), v(o.v), tag(o.tag) { alive++; } ~Num() override { alive--; }
	Num& operator=(const Num& o) { v = o.v; tag = o.tag; return *this; } int32 compareTo(const Num& o) const override { return v < o.v ? -1 : v > o.v ? 1 : 0; } bool equals(const Num& o) const { return v == o.v; }
	bool operator==(const Num& o) const { return v == o.v && tag == o.tag; }
};
typedef std::pair<int, int> E;
static bool less(const E& a, const E& b) { return a.first < b.first; }
template<class F> static bool outOfBounds(F f) { try { f(); } catch(jm::Exception& e) { return true; } return false; }
template<class Arr, class Get, class Size> static void compare(Arr& a, const std::vector<E>& m, Get get, Size size)
{
	REQUIRE_EQ((size_t)size(a), m.size()); for(size_t i = 0; i < m.size(); i++) { E e = get(a, i); REQUIRE(e == m[i], << "element " << i << " is " << e.first << "/" << e.second << " instead of " << m[i].first << "/" << m[i].second); }
}
static std::vector<E> sorted(std::vector<E> v) { std::stable_sort(v.begin(), v.end(), less); return v; }
static E genE(Src& s, int& tag) { return E(s.coin() ? (int)s.choice(3) : (int)s.si(-1000, 1000), tag++); }

static void arrays(Src& s, Ctx& ctx)
{
	int tag = 0, a0 = Num::alive; bool grown = false, sorts = false; size_t steps = 1 + s.len(30);
	{
		const int K = 3; typedef Array<Num> AN; AN* a[K]; std::vector<E> m[K];
		auto fill = [&](AN& x, std::vector<E>& v) { for(size_t i = 0; i < v.size(); i++) { v[i] = genE(s, tag); x.set((int64)i, Num(v[i].first, v[i].second)); } };
		for(int k = 0; k < K; k++) { size_t n = longLen(s, 400); if(n == 0) n = s.len(24); if(n == 0 && s.coin()) a[k] = new AN(); else a[k] = new AN((int64)n); m[k].resize(n); REQUIRE_EQ((size_t)a[k]->size(), n); fill(*a[k], m[k]); grown |= n > 5; }
		for(size_t st = 0; st < steps; st++)
		{
			size_t k = s.choice(K - 1), j = s.choice(K - 1); size_t n = m[k].size();
			switch(s.choice(7))
			{
				case 0: if(n) { size_t i = s.choice(n - 1); m[k][i] = genE(s, tag); a[k]->set((int64)i, Num(m[k][i].first, m[k][i].second)); } break;
				case 1: if(n) { size_t i = s.choice(n - 1); E e = genE(s, tag); m[k][i] = e; (*a[k])[(int64)i] = Num(e.first, e.second); } break;
				case 2: *a[k] = *a[j]; m[k] = m[j]; break;
				case 3: { AN* c = new AN(*a[j]); delete a[k]; a[k] = c; m[k] = m[j]; break; }
				case 4: a[k]->sort(); m[k] = sorted(m[k]); sorts |= n > 2; break;
				case 5: { size_t q = longLen(s, 400); if(q == 0) q = s.len(24); delete a[k]; a[k] = new AN((int64)q); m[k].resize(q); fill(*a[k], m[k]); break; }
				case 6: { int64 i = s.coin() ? (int64)n + (int64)s.choice(3) : s.coin() ? -1 - (int64)s.choice(3) : (int64)s.any64(); if(i >= 0 && i < (int64)n) break; REQUIRE(outOfBounds([&] { a[k]->get(i); }) && outOfBounds([&] { a[k]->set(i, Num(1, 1)); }) && outOfBounds([&] { (*a[k])[i]; }), << "no exception for position " << i << " of " << n); break; }
				case 7: { const AN& c = *a[k]; AN t(c); if(n) t.set(0, Num(7, 7)); break; } // changing a copy
			}
			int live = 0; for(int q = 0; q < K; q++) { compare(*a[q], m[q], [](AN& x, size_t i) { Num v = x.get((int64)i); Num& r = x[(int64)i]; REQUIRE(v == r); return E(v.v, v.tag); }, [](AN& x) { return x.size(); }); live += (int)m[q].size(); }
			REQUIRE_EQ(Num::alive - a0, live, << "living elements");
		}
		for(auto x : a) delete x;
	}
	REQUIRE_EQ(Num::alive, a0, << "elements left over");
	{ // pointers and numbers
		std::vector<std::unique_ptr<Num>> pool; const int K = 2; typedef Array<Num*> AP; AP a[K]; std::vector<E> m[K]; FloatArray f[K]; std::vector<float> fm[K];
		auto mk = [&](E e) { pool.emplace_back(new Num(e.first, e.second)); return pool.back().get(); };
		for(int k = 0; k < K; k++)
		{
			size_t n = longLen(s, 400); if(n == 0) n = s.len(16); AP x((uint32)n); m[k].resize(n); for(size_t i = 0; i < n; i++) { m[k][i] = genE(s, tag); if(s.coin()) x.set((uint32)i, mk(m[k][i])); else x[(uint32)i] = mk(m[k][i]); } a[k] = x;
			n = longLen(s, 400); if(n == 0) n = s.len(16); FloatArray y((uint32)n); fm[k].resize(n); for(size_t i = 0; i < n; i++) { fm[k][i] = s.coin() ? (float)s.si(-3, 3) : (float)s.real(-1e9, 1e9); if(s.coin()) y.Set((uint32)i, fm[k][i]); else y[(uint32)i] = fm[k][i]; } f[k] = y;
		}
		FloatArray lit = {3.f, -1.f, 2.5f}; REQUIRE(lit.Length() == 3 && lit.Get(0) == 3.f && lit.Get(1) == -1.f && lit.Get(2) == 2.5f);
		size_t st2 = s.len(10);
		for(size_t st = 0; st < st2; st++)
		{
			size_t k = s.choice(K - 1), j = s.choice(K - 1); size_t n = m[k].size();
			switch(s.choice(6))
			{
				case 0: if(n) { size_t i = s.choice(n - 1); m[k][i] = genE(s, tag); a[k].set((uint32)i, mk(m[k][i])); } break;
				case 1: a[k] = a[j]; m[k] = m[j]; break;
				case 2: a[k].sort(); m[k] = sorted(m[k]); sorts |= n > 2; break;
				case 3: { uint32 i = (uint32)(n + s.choice(3)); if(s.coin()) i = 0xffffffffu - i; if(i >= n) REQUIRE(outOfBounds([&] { a[k].get(i); }) && outOfBounds([&] { a[k].set(i, nullptr); }) && outOfBounds([&] { a[k][i]; })); break; }
				case 4: f[k] = f[j]; fm[k] = fm[j]; break;
				case 5: f[k].Sort(); std::sort(fm[k].begin(), fm[k].end()); break;
				case 6: { FloatArray c(f[j]); f[k] = c; fm[k] = fm[j]; AP d(a[j]); a[k] = d; m[k] = m[j]; break; }
			}
			for(int q = 0; q < K; q++)
			{
				compare(a[q], m[q], [](AP& x, size_t i) { Num* v = x.get((uint32)i); REQUIRE(v == x[(uint32)i]); return E(v->v, v->tag); }, [](AP& x) { return x.size(); });
				REQUIRE_EQ((size_t)f[q].Length(), fm[q].size()); for(size_t i = 0; i < fm[q].size(); i++) REQUIRE(f[q].Get((uint32)i) == fm[q][i] && f[q][(uint32)i] == fm[q][i], << "number " << i);
			}
		}
	}
	REQUIRE_EQ(Num::alive, a0, << "elements left over");
	if(steps > 2 && grown) ctx.nontrivial(); ctx.label("arrays"); if(sorts) ctx.label("sorted more than two elements");
}
static void texts(Src& s, Ctx& ctx)
{
	size_t n = longLen(s, 110); if(n == 0) n = s.len(20); Array<String> a((int64)n); std::vector<std::u16string> m(n); for(size_t i = 0; i < n; i++) { m[i] = genText(s, 4); a.set((int64)i, J(m[i])); }
	Array<String> b(a); a.sort(); std::vector<std::u16string> o = m; std::stable_sort(m.begin(), m.end());
	for(size_t i = 0; i < n; i++) { REQUIRE(U16(a[(int64)i]) == m[i], << "sorted element " << i << " is " << quote16(U16(a[(int64)i])) << " instead of " << quote16(m[i])); REQUIRE(U16(b.get((int64)i)) == o[i], << "the copy changed"); }
	if(n > 2) ctx.nontrivial(); ctx.label("texts");
}
static void stacks(Src& s, Ctx& ctx)
{
	int a0 = Num::alive, tag = 0; size_t steps = 1 + s.len(60), mx = 0; bool rev = false;
	{
		Stack<Num> st, other; std::vector<E> m, mo;
		for(size_t q = 0; q < steps; q++)
		{
			auto is = [&](const Num& n, size_t back) { REQUIRE(m.size() >= back && n.v == m[m.size() - back].first && n.tag == m[m.size() - back].second, << "element " << back << " from the top is " << n.v << "/" << n.tag); };
			switch(s.weighted({10, 6, 3, 1, 1, 1, 1}))
			{
				case 0: { size_t n = longLen(s, 1400); do { E e = n ? E(tag % 7, tag) : genE(s, tag); if(n) tag++; st.push(Num(e.first, e.second)); m.push_back(e); } while(n-- > 1 && n < 10000); break; }
				case 1: if(!m.empty()) { Num n = st.pop(); is(n, 1); m.pop_back(); } else if(s.chance(1, 6)) { size_t k = s.choice(2); REQUIRE(outOfBounds([&] { if(k == 0) st.pop(); else if(k == 1) st.top(); else st.topRef(); }), << "an element of an empty stack"); } break;
				case 2: st.reverse(); std::reverse(m.begin(), m.end()); rev |= m.size() > 2; break;
				case 3: if(s.coin()) { st.clear(); m.clear(); } break;
				case 4: if(!m.empty()) { E e = genE(s, tag); if(s.coin()) st.top() = Num(e.first, e.second); else *st.topRef() = Num(e.first, e.second); m.back() = e; } break;
				case 5: if(s.coin()) { other = st; mo = m; } else { st = other; m = mo; } if(s.chance(1, 3)) { st = *&st; } break;
				case 6: { Stack<Num> c(st); std::vector<E> mc = m; std::swap(m, mc); REQUIRE_EQ((size_t)c.size(), m.size()); if(s.coin()) c.push(Num(1, 1)), c.pop(); while(c.hasElements()) { Num n = c.pop(); is(n, 1); m.pop_back(); } m = mc; break; }
			}
			REQUIRE_EQ((size_t)st.size(), m.size()); REQUIRE_EQ(st.hasElements(), !m.empty()); mx = std::max(mx, m.size());
			if(m.size() > 0) { is(st.top(), 1); is(*st.topRef(), 1); } if(m.size() > 1) is(st.top2(), 2); else if(s.chance(1, 12)) REQUIRE(outOfBounds([&] { st.top2(); })); if(m.size() > 2) is(st.top3(), 3); else if(s.chance(1, 12)) REQUIRE(outOfBounds([&] { st.top3(); }));
			REQUIRE_EQ(Num::alive - a0, (int)(m.size() + mo.size()), << "living elements");
		}
		REQUIRE_EQ((size_t)other.size(), mo.size()); while(!mo.empty()) { Num n = other.pop(); REQUIRE(n.tag == mo.back().second, << "the other stack changed"); mo.pop_back(); }
		if(s.coin()) while(!m.empty()) { Num n = st.pop(); REQUIRE(n.tag == m.back().second); m.pop_back(); }
	}
	REQUIRE_EQ(Num::alive, a0, << "elements left over"); if(mx > 3) ctx.nontrivial(); ctx.label("stacks"); if(rev) ctx.label("reversed");
}
static void run(Src& s, Ctx& ctx) { switch(s.weighted({5, 1, 4})) { case 0: arrays(s, ctx); break; case 1: texts(s, ctx); break; default: stacks(s, ctx); } }
const Def& pbt::definition()
{
	static Def d{"P07", "histories over three value arrays, two pointer arrays and two number arrays (element access, copying, assignment also to itself, sorting, positions outside), string arrays that are sorted, and histories over a stack, each against std::vector with elements that count their living instances. Non-trivial: arrays of more than five elements and three operations, three texts, or a stack of more than three elements; distinct by choice sequence.", 800000, 15000000, jmInit, run};
	d.assumptions = {"Pointer arrays do not own what they point to."};
	return d;
}
