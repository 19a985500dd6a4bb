// P09: ByteArray against std::string
#include "jmh.hpp"
using namespace jm;
struct M { std::string v; size_t cap = 0; bool null = true; };
static void verify(const ByteArray& a, const M& m)
{
	REQUIRE_EQ((size_t)a.size(), m.v.size()); REQUIRE_EQ(a.isNull(), m.null, << "isNull, size " << m.v.size()); REQUIRE_EQ(a.isEmpty(), m.v.empty());
	if(m.null) { REQUIRE(a.constData() == nullptr); return; }
	const char* d = a.constData(); REQUIRE(d != nullptr); REQUIRE(memcmp(d, m.v.data(), m.v.size()) == 0, << "bytes " << hex(d, m.v.size()) << " instead of " << hex(m.v.data(), m.v.size()));
	REQUIRE(d[m.v.size()] == 0, << "no terminator behind " << m.v.size() << " bytes"); // sanitizer: also that it may be read
	REQUIRE((const char*)const_cast<ByteArray&>(a).data() == d);
}
static void run(Src& s, Ctx& ctx)
{
	const size_t K = 3; ByteArray* a[K]; M m[K]; for(auto& x : a) x = new ByteArray(); size_t steps = 1 + s.len(40); int changes = 0; bool grew = false, copies = false; size_t mx = 0;
	auto set = [&](size_t k, ByteArray* n, const std::string& v) { delete a[k]; a[k] = n; m[k].v = v; m[k].cap = v.size(); m[k].null = false; changes++; };
	for(size_t st = 0; st < steps; st++)
	{
		size_t k = s.choice(K - 1), j = s.choice(K - 1); ByteArray& A = *a[k]; std::string& v = m[k].v; int op = (int)s.weighted({2, 2, 1, 1, 4, 3, 2, 2, 2, 5, 4, 3});
		NOTE("op " << op << " on " << k << "," << j << "\n");
		switch(op)
		{
			case 0: { std::string b = genBytes(s, 40); if(size_t n = longLen(s, 70000)) { std::string q = b + "x"; while(b.size() < n) b += q; b.resize(n); } int64 n = (int64)b.size(); if(s.coin()) set(k, new ByteArray((const uint8*)b.data(), n), b); else set(k, new ByteArray((const int8*)b.data(), n), b); break; }
			case 1: { std::string b = genBytes(s, 20); b = b.substr(0, b.find('\0')); if(s.coin()) set(k, new ByteArray((const int8*)b.c_str()), b); else set(k, new ByteArray((const uint8*)b.c_str(), -1), b); break; }
			case 2: { size_t n = s.len(40); uint8 c = s.byte(); set(k, new ByteArray((int64)n, c), std::string(n, (char)c)); break; }
			case 3: { if(s.coin()) { set(k, new ByteArray({1, 2, 255, 0, 7}), std::string("\1\2\xff\0\7", 5)); } else { delete a[k]; a[k] = s.coin() ? new ByteArray() : new ByteArray((const uint8*)nullptr, 5); m[k] = M(); } break; }
			case 4: { ByteArray* c = new ByteArray(*a[j]); M t = m[j]; delete a[k]; a[k] = c; m[k] = t; copies = true; break; }
			case 5: A = *a[j]; { M t = m[j]; m[k] = t; } copies = true; break;
			case 6: { uint8 c = s.byte(); A.fill(c); for(auto& x : v) x = (char)c; changes++; break; }
			case 7: A.sort(); std::sort(v.begin(), v.end(), [](char x, char y) { return (uint8_t)x < (uint8_t)y; }); changes++; break;
			case 8: { uint8 x = v.empty() || s.coin() ? s.byte() : (uint8)v[s.choice(v.size() - 1)], y = s.byte(); A.replace(x, y); for(auto& c : v) if((uint8)c == x) c = (char)y; changes++; break; }
			case 9: if(!v.empty()) { size_t i = s.choice(v.size() - 1); uint8 c = s.byte(); switch(s.choice(2)) { case 0: A.set((int64)i, c); break; case 1: A[(int64)i] = c; break; default: A.data()[i] = (int8)c; } v[i] = (char)c; const ByteArray& C = A; REQUIRE(A.get((int64)i) == c && C[(int64)i] == c && A[(int64)i] == c); changes++; } break;
			case 10:
			{
				size_t n = s.len(60), old = v.size(); A.resize((int64)n); bool within = !m[k].null && n <= m[k].cap; v.resize(n, '\0'); m[k].null = false; if(!within) { m[k].cap = n; grew = true; }
				else for(size_t i = old; i < n; i++) v[i] = A.constData()[i]; // bytes returned within the raw size are not specified
				changes++; break;
			}
			case 11:
			{
				if(j == k || m[j].null || m[k].null) break; size_t t = s.choice(v.size()), o = s.choice(m[j].v.size()), n = s.chance(1, 8) ? s.choice(m[j].v.size() + 3) : s.choice(20); NOTE("replace at " << t << " from " << o << " count " << n << "\n"); A.replace((int64)t, (int64)o, *a[j], (int64)n);
				for(size_t i = 0; i < n && t + i < v.size() && o + i < m[j].v.size(); i++) v[t + i] = m[j].v[o + i]; changes++; break;
			}
		}
		for(size_t q = 0; q < K; q++) { verify(*a[q], m[q]); mx = std::max(mx, m[q].v.size()); for(size_t r = 0; r < K; r++) REQUIRE_EQ(*a[q] == *a[r], m[q].v == m[r].v, << "equality"); }
	}
	for(auto x : a) delete x;
	if(changes > 2 && mx > 2) ctx.nontrivial(); if(grew) ctx.label("grown"); if(copies) ctx.label("copies"); if(mx > 20) ctx.label("more than 20 bytes");
}
const Def& pbt::definition()
{
	static Def d{"P09", "histories of 1..41 operations over three byte arrays (all constructors, copy, assignment, resize, fill, sort, replace, element access) against byte strings, with content, terminator, null state and equality checked after each. Non-trivial: more than two changes and more than two bytes; distinct by choice sequence.", 3000000, 40000000, jmInit, run};
	d.assumptions = {"Element positions and offsets are inside of the array (unchecked by design). Bytes that reappear when an array is enlarged within its earlier size are not specified.", "A range is not copied from an array onto itself."};
	return d;
}
