// P18: byte-order helpers
#include "jmh.hpp"
enum T { BE16, BE24, BE32, BE64, LE16, LEU16, LE24, LE32, LE64, LED, LEF, NT };
static const int WIDTH[NT] = {2, 3, 4, 8, 2, 2, 3, 4, 8, 8, 4};
static const char* NAME[NT] = {"BEInt16", "BEInt24", "BEInt32", "BEInt64", "LEInt16", "LEUInt16", "LEInt24", "LEInt32", "LEInt64", "LEDouble", "LEFloat"};
struct V { T t; uint64_t bits; };
static std::string ref(const V& v)
{
	std::string o; int w = WIDTH[v.t]; bool be = v.t <= BE64;
	for(int i = 0; i < w; i++) { int sh = 8 * (be ? w - 1 - i : i); o += (char)(v.bits >> sh); }
	return o;
}
static double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static float asF(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static int put(uint8_t* b, uint32_t off, const V& v)
{
	switch(v.t)
	{
		case BE16: return jm::serializeBEInt16(b, off, (int16)v.bits); case BE24: return jm::serializeBEInt24(b, off, (int32)v.bits);
		case BE32: return jm::serializeBEInt32(b, off, (int32)v.bits); case BE64: return jm::serializeBEInt64(b, off, (int64)v.bits);
		case LE16: return jm::serializeLEInt16(b, off, (int16)v.bits); case LEU16: return jm::serializeLEUInt16(b, off, (uint16)v.bits);
		case LE24: return jm::serializeLEInt24(b, off, (int32)v.bits); case LE32: return jm::serializeLEInt32(b, off, (int32)v.bits);
		case LE64: return jm::serializeLEInt64(b, off, (int64)v.bits); case LED: return jm::serializeLEDouble(b, off, asD(v.bits));
		default: return jm::serializeLEFloat(b, off, asF(v.bits));
	}
}
// every function that reads the type must give the value
static void get(uint8_t* b, uint32_t off, const jm::ByteArray& a, const V& v)
{
	switch(v.t)
	{
		case BE16:
			REQUIRE_EQ(jm::deserializeBEInt16(b, off), (int16)v.bits); REQUIRE_EQ(jm::deserializeBEUInt16(b, off), (uint16)v.bits); REQUIRE_EQ(jm::deserializeBEInt16(a, (int64)off), (int16)v.bits, << "(byte array)"); break;
		case BE32:
			REQUIRE_EQ(jm::deserializeBEUInt32(b, (int64)off), (uint32)v.bits); REQUIRE_EQ(jm::deserializeBEUInt32(a, (int64)off), (uint32)v.bits, << "(byte array)"); REQUIRE_EQ(jm::deserializeBEInt32(a, (int64)off), (int32)v.bits, << "(byte array)"); break;
		case BE64:
			REQUIRE_EQ(jm::deserializeBEInt64(b, off), (int64)v.bits); REQUIRE_EQ(jm::deserializeBEInt64(a, (int64)off), (int64)v.bits, << "(byte array)"); break;
		case LE16: case LEU16:
			REQUIRE_EQ(jm::deserializeLEInt16(b, off), (int16)v.bits); REQUIRE_EQ(jm::deserializeLEUInt16((const uint8*)b, off), (uint16)v.bits);
			REQUIRE_EQ(jm::deserializeLEInt16(a, (int64)off), (int16)v.bits, << "(byte array)"); REQUIRE_EQ(jm::deserializeLEUInt16(a, off), (uint16)v.bits, << "(byte array)"); break;
		case LE32:
			REQUIRE_EQ(jm::deserializeLEInt32(b, off), (int32)v.bits); REQUIRE_EQ(jm::deserializeLEUInt32(b, off), (uint32)v.bits);
			REQUIRE_EQ(jm::deserializeLEInt32(a, (int64)off), (int32)v.bits, << "(byte array)"); REQUIRE_EQ(jm::deserializeLEUInt32(a, (int64)off), (uint32)v.bits, << "(byte array)"); break;
		case LE64:
			REQUIRE_EQ(jm::deserializeLEInt64(b, off), (int64)v.bits); REQUIRE_EQ(jm::deserializeLEInt64(a, (int64)off), (int64)v.bits, << "(byte array)"); break;
		case LED:
		{
			double x = jm::deserializeLEDouble(b, off), y = jm::deserializeLEDouble(a, (int64)off); uint64_t p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8);
			REQUIRE_EQ(p, v.bits, << "(bits of the double)"); REQUIRE_EQ(q, v.bits, << "(bits of the double from the byte array)"); break;
		}
		case LEF: { float x = jm::deserializeLEFloat(b, off); uint32_t p; memcpy(&p, &x, 4); REQUIRE_EQ(p, (uint32_t)v.bits, << "(bits of the float)"); break; }
		default: break;
	}
}
static void run(Src& s, Ctx& ctx)
{
	std::vector<V> vals; size_t n = 1 + s.len(16); size_t gap = s.choice(5), total = gap; bool special = false;
	for(size_t i = 0; i < n; i++)
	{
		V v; v.t = (T)s.choice(NT - 1);
		if(v.t == LED) { double d; switch(s.choice(4)) { case 0: d = s.real(-1000, 1000); break; case 1: d = s.pick({0.0, -0.0, HUGE_VAL, -HUGE_VAL, 5e-324, 1.7976931348623157e308, 1.0}); special = true; break; case 2: { uint64_t b = 0x7FF0000000000001ull | (s.any64() & 0x800FFFFFFFFFFFFFull); memcpy(&d, &b, 8); special = true; break; } default: { uint64_t b = s.any64(); memcpy(&d, &b, 8); } } memcpy(&v.bits, &d, 8); }
		else if(v.t == LEF) { v.bits = s.coin() ? s.choice(0xFFFFFFFF) : s.pick<uint64_t>({0, 0x80000000, 0x7F800000, 0xFF800000, 1, 0x7F7FFFFF, 0x3F800000}); // a signalling NaN is quieted when it is passed by value on some machines
			if((v.bits & 0x7F800000) == 0x7F800000 && (v.bits & 0x7FFFFF)) v.bits |= 0x400000; }
		else v.bits = s.any64();
		vals.push_back(v); total += WIDTH[v.t];
	}
	size_t tail = s.choice(4); total += tail;
	uint8_t* b = new uint8_t[total]; uint64_t seed = s.choice(255); for(size_t i = 0; i < total; i++) b[i] = (uint8_t)splitmix(seed);
	std::string want((char*)b, total);
	// written in any order
	std::vector<size_t> order, offs; size_t off = gap; for(size_t i = 0; i < n; i++) { order.push_back(i); offs.push_back(off); off += WIDTH[vals[i].t]; }
	for(size_t i = n; i > 1; i--) std::swap(order[i - 1], order[i - 1 - s.choice(i - 1)]);
	for(size_t i : order)
	{
		NOTE(NAME[vals[i].t] << " " << (int64_t)vals[i].bits << " at " << offs[i] << "\n");
		int w = put(b, (uint32_t)offs[i], vals[i]);
		REQUIRE_EQ(w, WIDTH[vals[i].t], << "(bytes reported)");
		std::string r = ref(vals[i]); for(size_t k = 0; k < r.size(); k++) want[offs[i] + k] = r[k];
		REQUIRE(memcmp(b, want.data(), total) == 0, << NAME[vals[i].t] << " of " << (int64_t)vals[i].bits << " wrote " << hex(b, total) << " instead of " << hex(want.data(), total));
	}
	// through a stream and back
	uint8_t* mem = new uint8_t[total]; jm::MemoryStream st(mem, (int64)total, true); REQUIRE_EQ((size_t)st.write(b, (int64)total), total); st.seek(0);
	jm::ByteArray a((int64)total, 0); REQUIRE_EQ((size_t)st.readFully(a, (int64)total), total);
	for(size_t i = 0; i < n; i++) get(b, (uint32_t)offs[i], a, vals[i]);
	REQUIRE(memcmp(b, want.data(), total) == 0, << "reading changed the bytes");
	delete[] b;
	ctx.label(special ? "special-floats" : "plain"); for(auto& v : vals) ctx.label(NAME[v.t]);
	if(n > 1) ctx.nontrivial();
}
const Def& pbt::definition()
{
	static Def d{"P18", "sequences of 1 to 17 integers (16, 24, 32, 64 bit, both byte orders) and floating point numbers (also infinities, signed zeros, subnormals, NaN payloads) written in any order at adjacent unaligned offsets of an exactly sized buffer: the bytes must be those of the byte order, all others unchanged, and every reading function gives the value, from the buffer and from a byte array read through a memory stream. Non-trivial: at least two values; distinct by choices.", 4000000, 100000000, jmInit, run};
	d.assumptions = {"signalling NaNs of single precision are not used (passing them by value may quieten them)"};
	return d;
}
