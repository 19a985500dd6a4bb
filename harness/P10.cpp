// P10: Base64
#include "jmh.hpp"

static const char* ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string refEncode(const std::string& d)
{
	std::string o; size_t i = 0;
	for(; i + 2 < d.size(); i += 3)
	{
		uint32_t v = (uint32_t)(uint8_t)d[i] << 16 | (uint32_t)(uint8_t)d[i + 1] << 8 | (uint8_t)d[i + 2];
		o += ALPHA[v >> 18]; o += ALPHA[(v >> 12) & 63]; o += ALPHA[(v >> 6) & 63]; o += ALPHA[v & 63];
	}
	size_t r = d.size() - i;
	if(r == 1) { uint32_t v = (uint32_t)(uint8_t)d[i] << 16; o += ALPHA[v >> 18]; o += ALPHA[(v >> 12) & 63]; o += "=="; }
	if(r == 2) { uint32_t v = (uint32_t)(uint8_t)d[i] << 16 | (uint32_t)(uint8_t)d[i + 1] << 8; o += ALPHA[v >> 18]; o += ALPHA[(v >> 12) & 63]; o += ALPHA[(v >> 6) & 63]; o += '='; }
	return o;
}
// exact-size heap copy, so that reading beyond it is seen
struct Exact { uint8_t* p; explicit Exact(const std::string& s) : p(new uint8_t[s.size()]) { memcpy(p, s.data(), s.size()); } ~Exact() { delete[] p; } };

static void run(Src& s, Ctx& ctx)
{
	if(s.choice(4) != 0)
	{
		std::string d;
		switch(s.choice(3))
		{
			case 0: d = genBytes(s, 60); break;
			case 1: d = genBytes(s, 3000); break;
			case 2: if(size_t h = hugeLen(s, 600)) { d = stretch(genBytes(s, 40), h + s.choice(20) * 65536); ctx.label("huge"); break; } [[fallthrough]];
			default: { size_t n = s.choice(9); for(size_t i = 0; i < n; i++) d += (char)s.byte(); }
		}
		NOTE("encode " << d.size() << " bytes " << hex(d.data(), d.size()) << "\n");
		Exact in(d); int64 len = (int64)d.size();
		uint8* e = jm::Base64::encode(in.p, len);
		REQUIRE(e != nullptr);
		std::string enc((char*)e, (size_t)len), ref = refEncode(d);
		REQUIRE(enc == ref, << "encode gives " << quote(enc) << ", RFC 4648 " << quote(ref));
		delete[] e;
		Exact in2(enc); uint32 l2 = (uint32)enc.size();
		uint8* b = jm::Base64::decode(in2.p, l2);
		std::string back((char*)b, (size_t)l2);
		REQUIRE(back == d, << "decode(encode(x)) = " << hex(back.data(), back.size()));
		delete[] b;
		ctx.label(d.size() % 3 == 0 ? "pad0" : d.size() % 3 == 1 ? "pad2" : "pad1");
		if(d.size() > 2) ctx.nontrivial();
		ctx.key(hashBytes(d.data(), d.size()));
		return;
	}
	// arbitrary text, also malformed: no memory outside the buffers is touched, and the output
	// is never longer than 3 bytes per started group of four
	std::string t; size_t n = s.len(80); int kind = (int)s.choice(2);
	for(size_t i = 0; i < n; i++) t += kind == 0 ? ALPHA[s.choice(63)] : kind == 1 ? (s.chance(1, 5) ? '=' : ALPHA[s.choice(63)]) : (char)s.byte();
	NOTE("decode " << quote(t) << "\n");
	Exact in(t); uint32 l = (uint32)t.size();
	std::string saved; uint8* b = nullptr; bool threw = throwsJm([&]() { b = jm::Base64::decode(in.p, l); });
	if(!threw)
	{
		REQUIRE(l <= (t.size() + 3) / 4 * 3, << "claims " << l << " bytes");
		uint8_t x = 0; for(uint32 i = 0; b && i < l; i++) x ^= b[i];
		volatile uint8_t sink = x; (void)sink; if(b) saved.assign((const char*)b, l); delete[] b;
	}
	// the letters before the first character outside of the alphabet are decoded, and nothing else
	size_t valid = 0; while(valid < t.size() && strchr(ALPHA, t[valid]) && t[valid]) valid++;
	if(!threw && valid < t.size())
	{
		std::string want; for(size_t i = 0; i + 1 < valid; i++) { size_t k = i % 4; if(k == 3) continue; int p = (int)(strchr(ALPHA, t[i]) - ALPHA), q = (int)(strchr(ALPHA, t[i + 1]) - ALPHA); want += (char)((p << (2 + 2 * k)) | (q >> (4 - 2 * k))); }
		REQUIRE_EQ((size_t)l, want.size(), << "bytes decoded of " << quote(t)); REQUIRE(l == 0 || memcmp(saved.data(), want.data(), l) == 0, << "decode of " << quote(t) << " gives " << hex(saved.data(), saved.size()) << " instead of " << hex(want.data(), want.size()));
		ctx.label("ended by another character");
	}
	ctx.label(t.size() % 4 ? "malformed-length" : "arbitrary");
	if(!t.empty()) ctx.nontrivial();
	ctx.key(hashBytes(t.data(), t.size(), 99));
}
const Def& pbt::definition()
{
	static Def d{"P10", "byte strings of 0..3000 bytes encoded, compared with an RFC 4648 reference and decoded again; every fifth case decodes arbitrary (also malformed) text in an exactly sized buffer under AddressSanitizer. Non-trivial: more than two bytes (encode) or a non-empty text (decode); distinct by content.", 5000000, 60000000, jmInit, run};
	return d;
}
