// Generators of byte strings with redundancy and of valid deflate streams (RFC 1951), either
// made by zlib in all its modes or assembled bit by bit from random blocks and Huffman codes.
#pragma once
#include "jmh.hpp"
#include <zlib.h>

struct Xs { uint64_t s; uint64_t next() { return splitmix(s); } uint64_t below(uint64_t n) { return next() % n; } };

// mixture of noise, runs, texts of few letters and repetitions of earlier parts
inline std::string genData(Src& s, size_t maxSize)
{
	std::string d;
	size_t segs = s.choice(6);
	for(size_t k = 0; k < segs && d.size() < maxSize; k++)
	{
		size_t n;
		switch(s.weighted({6, 4, 2, 1})) { case 0: n = s.choice(20); break; case 1: n = s.choice(400); break; case 2: n = s.choice(5000); break; default: n = s.choice(maxSize); }
		if(n > maxSize - d.size()) n = maxSize - d.size();
		int kind = (int)s.choice(4);
		Xs x{s.choice(0xFFFFFFFF)};
		switch(kind)
		{
			case 0: d.append(n, (char)x.next()); break;
			case 1: for(size_t i = 0; i < n; i++) d += (char)x.next(); break;
			case 2: { size_t m = 1 + x.below(7); for(size_t i = 0; i < n; i++) d += (char)('a' + x.below(m)); break; }
			case 3: if(!d.empty()) { size_t dist = 1 + x.below(d.size()); for(size_t i = 0; i < n; i++) d += d[d.size() - dist]; } break;
			case 4: { int m = 1 + (int)x.below(7); for(size_t i = 0; i < n; i++) { uint8_t v = 0; for(int b = 0; b < m; b++) v |= (uint8_t)(1 << x.below(8)); d += (char)v; } break; }
		}
	}
	return d;
}

struct ExactBuf
{
	uint8_t* p; size_t n;
	explicit ExactBuf(const std::string& s) : p(new uint8_t[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
	~ExactBuf() { delete[] p; }
	ExactBuf(const ExactBuf&) = delete;
};

// reference decompressor; false if the stream is invalid or incomplete
inline bool zInflate(const std::string& in, bool raw, std::string& out, size_t* used = nullptr)
{
	z_stream z; memset(&z, 0, sizeof z);
	if(inflateInit2(&z, raw ? -15 : 15) != Z_OK) return false;
	z.next_in = (Bytef*)in.data(); z.avail_in = (uInt)in.size();
	char buf[16384]; int r = Z_OK; out.clear();
	while(r == Z_OK)
	{
		z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
		r = ::inflate(&z, Z_NO_FLUSH);
		out.append(buf, sizeof buf - z.avail_out);
		if(r == Z_OK && z.avail_in == 0 && z.avail_out != 0) break;
		if(out.size() > (64u << 20)) break;
	}
	if(used) *used = in.size() - z.avail_in;
	inflateEnd(&z);
	return r == Z_STREAM_END;
}

// a stream made by zlib
inline std::string zStream(Src& s, const std::string& data, bool raw, std::string& how)
{
	int level = (int)s.choice(9), strategy = (int)s.choice(4), wbits = 15 - (int)s.choice(6), mem = 1 + (int)s.choice(8);
	z_stream z; memset(&z, 0, sizeof z);
	if(deflateInit2(&z, level, Z_DEFLATED, raw ? -wbits : wbits, mem, strategy) != Z_OK) throw Discard();
	std::string o; char buf[4096];
	size_t pos = 0; std::ostringstream h; h << "zlib level " << level << " strategy " << strategy << " windowBits " << wbits << " memLevel " << mem << " flushes";
	bool flushes = s.chance(1, 2);
	while(true)
	{
		int fl = Z_FINISH; size_t n = data.size() - pos;
		if(flushes && n > 0) { n = 1 + s.choice(n - 1); if(pos + n < data.size() || s.coin()) fl = s.pick({Z_NO_FLUSH, Z_PARTIAL_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_BLOCK}); }
		h << ' ' << n << ':' << fl;
		z.next_in = (Bytef*)data.data() + pos; z.avail_in = (uInt)n; pos += n;
		int r;
		do
		{
			z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
			r = ::deflate(&z, fl);
			o.append(buf, sizeof buf - z.avail_out);
		} while(z.avail_out == 0);
		if(fl == Z_FINISH && r == Z_STREAM_END) break;
		if(flushes && pos < data.size() && s.chance(1, 4)) flushes = false;
	}
	deflateEnd(&z);
	how = h.str();
	return o;
}

struct BitWriter
{
	std::string o; int bit = 0;
	void put1(int b) { if(bit == 0) o += '\0'; if(b) o.back() = (char)(o.back() | (1 << bit)); bit = (bit + 1) & 7; }
	void put(uint32_t v, int n) { for(int i = 0; i < n; i++) put1((v >> i) & 1); }
	void huff(uint32_t c, int n) { for(int i = n - 1; i >= 0; i--) put1((c >> i) & 1); }
	void align() { bit = 0; }
};

namespace dfl
{
static const int LBASE[29] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258};
static const int LEXTRA[29] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
static const int DBASE[30] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577};
static const int DEXTRA[30] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};

struct Tok { int lit; int lenSym, lenExtra, distSym, distExtra; }; // lit<0: match

// random complete prefix code for n>=2 symbols of at most maxLen bits: the lengths
inline std::vector<int> randomLengths(Xs& x, size_t n, int maxLen, int bias)
{
	std::vector<int> leaf{0};
	while(leaf.size() < n)
	{
		size_t i; int tries = 0;
		if(bias == 2) { i = std::min_element(leaf.begin(), leaf.end()) - leaf.begin(); leaf[i]++; leaf.push_back(leaf[i]); continue; }
		do { i = bias == 0 ? leaf.size() - 1 - x.below(std::min<size_t>(leaf.size(), 3)) : x.below(leaf.size()); } while(leaf[i] >= maxLen && ++tries < 200);
		if(leaf[i] >= maxLen) { i = std::min_element(leaf.begin(), leaf.end()) - leaf.begin(); }
		leaf[i]++; leaf.push_back(leaf[i]);
	}
	for(size_t i = leaf.size(); i > 1; i--) std::swap(leaf[i - 1], leaf[x.below(i)]);
	return leaf;
}
inline std::vector<uint32_t> canonical(const std::vector<int>& len)
{
	int cnt[17] = {}; uint32_t next[17] = {}; std::vector<uint32_t> c(len.size());
	for(int l : len) if(l) cnt[l]++;
	uint32_t code = 0; for(int b = 1; b <= 16; b++) { code = (code + (uint32_t)cnt[b - 1]) << 1; next[b] = code; }
	for(size_t i = 0; i < len.size(); i++) if(len[i]) c[i] = next[len[i]]++;
	return c;
}

// Random blocks; `out` is what the stream means. Raw deflate.
inline std::string assemble(Src& s, std::string& out, std::ostringstream& how, std::set<std::string>& features)
{
	BitWriter w; out.clear();
	size_t blocks = 1 + s.choice(4);
	for(size_t b = 0; b < blocks; b++)
	{
		w.put1(b + 1 == blocks);
		int type = (int)s.weighted({3, 3, 6}) ;
		w.put((uint32_t)type, 2);
		if(type == 0)
		{
			size_t n; switch(s.weighted({2, 6, 1, 1})) { case 0: n = 0; break; case 1: n = s.choice(300); break; case 2: n = s.choice(65535); break; default: n = 65535; }
			Xs x{s.choice(0xFFFFFFFF)};
			w.align(); w.o += (char)n; w.o += (char)(n >> 8); w.o += (char)~n; w.o += (char)(~n >> 8);
			for(size_t i = 0; i < n; i++) { char c = (char)x.next(); w.o += c; out += c; }
			how << "stored " << n << "; "; features.insert("stored");
			continue;
		}
		// tokens
		std::vector<Tok> toks; size_t nt = s.len(40);
		how << (type == 1 ? "fixed" : "dynamic") << " [";
		for(size_t t = 0; t < nt; t++)
		{
			size_t kind = out.empty() ? 0 : s.weighted({5, 5, 1});
			if(kind == 0) { int c = (int)s.choice(255); toks.push_back({c, 0, 0, 0, 0}); out += (char)c; how << c << ' '; }
			else
			{
				size_t rep = kind == 2 ? 1 + s.choice(200) : 1; // many long matches, to get beyond 32 KB
				for(size_t r = 0; r < rep; r++)
				{
					Tok k; k.lit = -1;
					k.lenSym = kind == 2 ? 28 : (int)s.choice(28);
					k.lenExtra = LEXTRA[k.lenSym] ? (int)s.choice((1u << LEXTRA[k.lenSym]) - 1) : 0;
					if(k.lenSym == 27 && k.lenExtra == 31) k.lenExtra = 30; // 258 has its own symbol
					size_t lim = std::min<size_t>(out.size(), 32768);
					size_t dist = s.chance(1, 4) ? lim - s.choice(std::min<size_t>(lim - 1, 3)) : r ? 1 + (lim * 7919 + r * 104729) % lim : 1 + s.choice(lim - 1);
					int ds = 29; while(DBASE[ds] > (int)dist) ds--;
					k.distSym = ds; k.distExtra = (int)dist - DBASE[ds];
					int len = LBASE[k.lenSym] + k.lenExtra;
					toks.push_back(k);
					for(int i = 0; i < len; i++) out += out[out.size() - dist];
					if(!r) how << '(' << len << ',' << dist << (rep > 1 ? ")*" : ")") << ' ';
					if(dist > 16384) features.insert("far");
					if((int)dist < len) features.insert("overlap");
				}
			}
		}
		how << "]; ";
		if(out.size() > 32768) features.insert("over32K");
		std::vector<int> ll(288, 0), dl(30, 0);
		if(type == 1)
		{
			for(int i = 0; i < 288; i++) ll[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
			dl.assign(32, 5); features.insert("fixed");
		}
		else
		{
			Xs x{s.choice(0xFFFFFFFF)};
			auto assign = [&](std::vector<int>& target, std::set<int> used, size_t limit, int maxLen)
			{
				size_t extra = s.weighted({3, 3, 1, 1}); size_t more = extra == 0 ? 0 : extra == 1 ? x.below(6) : extra == 2 ? x.below(limit) : limit * 8;
				for(size_t i = 0; i < more; i++) used.insert((int)x.below(limit));
				if(used.empty()) return;
				std::vector<int> l = used.size() == 1 ? std::vector<int>{1} : randomLengths(x, used.size(), maxLen, (int)s.choice(2));
				size_t i = 0; for(int u : used) target[u] = l[i++];
			};
			std::set<int> lu{256}, du; for(auto& k : toks) { if(k.lit >= 0) lu.insert(k.lit); else { lu.insert(257 + k.lenSym); du.insert(k.distSym); } }
			ll.assign(286, 0);
			assign(ll, lu, 286, 15); assign(dl, du, 30, 15);
			int ml = *std::max_element(ll.begin(), ll.end()); if(ml == 15) features.insert("15bit");
			if(du.empty() && *std::max_element(dl.begin(), dl.end()) == 0) features.insert("nodist");
			size_t hlit = 286; while(hlit > 257 && ll[hlit - 1] == 0) hlit--; if(hlit < 286) hlit += s.chance(1, 3) ? s.choice(286 - hlit) : 0;
			size_t hdist = 30; while(hdist > 1 && dl[hdist - 1] == 0) hdist--; if(hdist < 30) hdist += s.chance(1, 3) ? s.choice(30 - hdist) : 0;
			std::vector<int> all(ll.begin(), ll.begin() + hlit); all.insert(all.end(), dl.begin(), dl.begin() + hdist);
			// run length coding with random choices
			struct C { int sym, extra, bits; }; std::vector<C> cs; int rle = (int)s.choice(2); // 0 always, 1 mixed, 2 never
			for(size_t i = 0; i < all.size();)
			{
				size_t run = 1; while(i + run < all.size() && all[i + run] == all[i]) run++;
				bool use = rle == 0 || (rle == 1 && x.below(2));
				if(use && all[i] == 0 && run >= 11 && x.below(8)) { size_t n = std::min<size_t>(run, 138); if(rle == 1) n = 11 + x.below(n - 10); if(i < hlit && i + n > hlit) features.insert("cross"); cs.push_back({18, (int)n - 11, 7}); i += n; }
				else if(use && all[i] == 0 && run >= 3) { size_t n = std::min<size_t>(run, 10); if(rle == 1) n = 3 + x.below(n - 2); if(i < hlit && i + n > hlit) features.insert("cross"); cs.push_back({17, (int)n - 3, 3}); i += n; }
				else if(use && i > 0 && all[i - 1] == all[i] && run >= 3) { size_t n = std::min<size_t>(run, 6); if(rle == 1) n = 3 + x.below(n - 2); if(i < hlit && i + n > hlit) features.insert("cross16"); cs.push_back({16, (int)n - 3, 2}); i += n; }
				else { cs.push_back({all[i], 0, 0}); i++; }
			}
			std::vector<int> cl(19, 0); std::set<int> cu; for(auto& c : cs) cu.insert(c.sym);
			while(cu.size() < 2) cu.insert((int)x.below(19)); // the code of the lengths has to be complete
			if(s.chance(1, 3)) for(int i = 0; i < 5; i++) cu.insert((int)x.below(19));
			{ auto l = randomLengths(x, cu.size(), 7, (int)s.choice(2)); size_t i = 0; for(int u : cu) cl[u] = l[i++]; }
			static const int ORDER[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
			size_t hclen = 19; while(hclen > 4 && cl[ORDER[hclen - 1]] == 0) hclen--; if(hclen < 19) hclen += s.chance(1, 4) ? s.choice(19 - hclen) : 0;
			w.put((uint32_t)hlit - 257, 5); w.put((uint32_t)hdist - 1, 5); w.put((uint32_t)hclen - 4, 4);
			for(size_t i = 0; i < hclen; i++) w.put((uint32_t)cl[ORDER[i]], 3);
			auto cc = canonical(cl); for(auto& c : cs) { w.huff(cc[c.sym], cl[c.sym]); w.put((uint32_t)c.extra, c.bits); }
			features.insert("dynamic");
			if(du.size() == 1 && std::count_if(dl.begin(), dl.end(), [](int v) { return v > 0; }) == 1) features.insert("singledist");
		}
		auto lc = canonical(ll), dc = canonical(dl);
		for(auto& k : toks)
		{
			if(k.lit >= 0) { w.huff(lc[k.lit], ll[k.lit]); continue; }
			int sym = 257 + k.lenSym;
			w.huff(lc[sym], ll[sym]); w.put((uint32_t)k.lenExtra, LEXTRA[k.lenSym]);
			w.huff(dc[k.distSym], dl[k.distSym]); w.put((uint32_t)k.distExtra, DEXTRA[k.distSym]);
		}
		w.huff(lc[256], ll[256]);
	}
	return w.o;
}
inline std::string zlibWrap(const std::string& raw, const std::string& out, Src& s)
{
	std::string h; h += (char)0x78; int flevel = (int)s.choice(3); int f = flevel << 6; f += (31 - (0x7800 + f) % 31) % 31; h += (char)f;
	uLong a = adler32(0, nullptr, 0); a = adler32(a, (const Bytef*)out.data(), (uInt)out.size());
	return h + raw + std::string{(char)(a >> 24), (char)(a >> 16), (char)(a >> 8), (char)a};
}
}

// the library's decompressor; true if it returned
inline bool jmInflate(const std::string& in, bool raw, bool reset, std::string& out, jm::Inflater** keep = nullptr)
{
	ExactBuf b(in); uint8* p = nullptr; int64 n = -1; bool ok = true;
	jm::Inflater* inf = raw ? new jm::Inflater(true) : new jm::Inflater();
	if(reset) inf->Reset();
	inf->SetInput(b.p, (int64)in.size());
	try { inf->Inflate(p, n); } catch(jm::Exception&) { ok = false; } catch(jm::Exception*) { ok = false; }
	if(ok)
	{
		REQUIRE(n >= 0 && (n == 0 || p != nullptr), << "Inflate gives length " << n);
		out.assign((const char*)p, (size_t)n); delete[] p;
		REQUIRE_EQ(inf->GetTotalOut(), n, << "(GetTotalOut)");
		REQUIRE(inf->Finished(), << "not finished after the last block");
	}
	if(keep) *keep = inf; else delete inf;
	return ok;
}
inline std::string diffAt(const std::string& got, const std::string& want)
{
	size_t i = 0; while(i < got.size() && i < want.size() && got[i] == want[i]) i++;
	std::ostringstream o; o << "got " << got.size() << " bytes, expected " << want.size() << ", first difference at " << i << " (";
	if(i < got.size()) o << (int)(uint8_t)got[i]; else o << "end"; o << " instead of "; if(i < want.size()) o << (int)(uint8_t)want[i]; else o << "end"; o << ")";
	return o.str();
}
