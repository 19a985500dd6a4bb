// P11: CRC-16 (reflected polynomial 0xA001)
#include "jmh.hpp"
static uint16_t ref(uint16_t c, const std::string& d)
{
	for(char ch : d) { c ^= (uint8_t)ch; for(int b = 0; b < 8; b++) c = c & 1 ? (uint16_t)((c >> 1) ^ 0xA001) : (uint16_t)(c >> 1); }
	return c;
}
static uint16_t lib(uint16_t c, const std::string& d)
{
	uint8_t* p = new uint8_t[d.size()]; memcpy(p, d.data(), d.size());
	uint16_t r = jm::CRC::crc8(c, p, (uint32)d.size());
	REQUIRE(memcmp(p, d.data(), d.size()) == 0, << "the buffer was changed");
	delete[] p; return r;
}
static void run(Src& s, Ctx& ctx)
{
	uint16_t init = s.coin() ? (uint16_t)s.choice(65535) : s.pick({(uint16_t)0, (uint16_t)0xFFFF, (uint16_t)0x1D0F});
	std::string d = s.chance(1, 20) ? genBytes(s, 20000) : genBytes(s, 60);
	if(size_t h = hugeLen(s, 4000)) { d = stretch(d, h); d[s.choice(h - 1)] = (char)s.byte(); ctx.label("huge"); }
	NOTE("start " << init << ", " << d.size() << " bytes " << hex(d.data(), d.size()) << "\n");
	uint16_t want = ref(init, d);
	REQUIRE_EQ(lib(init, d), want, << "(CRC of the whole)");
	uint16_t c = init; size_t pos = 0, parts = 0;
	while(pos < d.size() && parts < 12) { size_t n = parts == 11 ? d.size() - pos : s.choice(d.size() - pos); c = lib(c, d.substr(pos, n)); pos += n; parts++; }
	if(pos < d.size()) c = lib(c, d.substr(pos));
	REQUIRE_EQ(c, want, << "(CRC in " << parts << " pieces)");
	// check value of CRC-16/ARC with start 0
	if(d.empty()) REQUIRE_EQ(lib(0, "123456789"), (uint16_t)0xBB3D);
	// a message followed by its checksum (low byte first) has checksum zero
	std::string m = d + std::string{(char)want, (char)(want >> 8)};
	REQUIRE_EQ(lib(init, m), (uint16_t)0, << "(message with its checksum)");
	ctx.label(d.empty() ? "empty" : parts > 2 ? "several-pieces" : "few-pieces");
	if(d.size() > 1 && parts > 1) ctx.nontrivial();
	ctx.key(hashBytes(d.data(), d.size(), init));
}
const Def& pbt::definition()
{
	static Def d{"P11", "start values and buffers of 0..60 (sometimes up to 20000) bytes; the CRC is compared with a bitwise reference, computed again over up to 12 pieces (also empty ones), and must be zero over message and checksum. Non-trivial: at least two bytes in at least two pieces; distinct by content and start value.", 1000000, 30000000, jmInit, run};
	return d;
}
