// P17: memory streams
#include "jmh.hpp"
struct Model { std::vector<uint8_t> d; int64_t pos = 0, top = 0; };
static void run(Src& s, Ctx& ctx)
{
	size_t n = s.chance(1, 20) ? s.choice(5000) : s.choice(40); bool own = s.coin();
	Model m;
	uint64_t seed = s.choice(255); for(size_t i = 0; i < n; i++) m.d.push_back((uint8_t)splitmix(seed));
	uint8_t* arr = new uint8_t[n]; memcpy(arr, m.d.data(), n);
	jm::MemoryStream* st = own ? new jm::MemoryStream(arr, (int64)n, true) : s.coin() ? new jm::MemoryStream(arr, (int64)n, false) : new jm::MemoryStream(arr, (int64)n);
	static_assert(std::is_base_of_v<jm::Stream, jm::MemoryStream>);
	jm::Stream* base = st;
	NOTE("array of " << n << " bytes" << "\n");
	size_t ops = s.len(40), changes = 0, edge = 0;
	auto fits = [&](int64_t len) { return std::min<int64_t>(len, (int64_t)n - m.pos); };
	auto draw = [&]() { return (int64_t)(s.chance(1, 4) ? s.choice(n + 10) : s.choice(12)); };
	for(size_t k = 0; k < ops; k++)
	{
		switch(s.choice(10))
		{
			case 0: case 1: { int64_t len = draw(), w = fits(len); uint8_t* b = new uint8_t[len + 1]; memset(b, 0x5A, len + 1);
				NOTE("read " << len << "\n"); int64_t r = st->read(b, len); REQUIRE_EQ(r, w, << "(bytes read at " << m.pos << ")");
				REQUIRE(memcmp(b, m.d.data() + m.pos, (size_t)w) == 0, << "read other bytes"); for(int64_t i = w; i <= len; i++) REQUIRE_EQ((int)b[i], 0x5A, << "(byte behind the data read)");
				if(w < len) edge++; m.pos += w; delete[] b; break; }
			case 2: case 3: { int64_t len = draw(), w = fits(len); uint8_t* b = new uint8_t[len]; for(int64_t i = 0; i < len; i++) b[i] = (uint8_t)splitmix(seed);
				NOTE("write " << len << " bytes\n"); int64_t r = s.coin() ? st->write(b, len) : base->write((const int8*)b, len); REQUIRE_EQ(r, w, << "(bytes written at " << m.pos << ")");
				memcpy(m.d.data() + m.pos, b, (size_t)w); m.pos += w; m.top = std::max(m.top, m.pos); if(w) changes++; if(w < len) edge++; delete[] b; break; }
			case 4: { int64_t p = s.si(-3, (int64_t)n + 4); NOTE("seek " << p << "\n"); bool threw = throwsJm([&] { st->seek(p); });
				int64_t q = st->position();
				if(p >= 0 && p <= (int64_t)n) { REQUIRE(!threw); REQUIRE_EQ(q, p, << "(position after seek)"); }
				else { edge++; REQUIRE(q >= 0 && q <= (int64_t)n, << "position " << q << " outside"); }
				m.pos = q; break; }
			case 5: { int64_t o = s.si(-(int64_t)n - 2, (int64_t)n + 2), p = m.pos + o; NOTE("move " << o << "\n"); bool threw = throwsJm([&] { st->move(o); });
				int64_t q = st->position();
				if(p >= 0 && p <= (int64_t)n) { REQUIRE(!threw); REQUIRE_EQ(q, p, << "(position after move)"); }
				else { edge++; REQUIRE(q >= 0 && q <= (int64_t)n, << "position " << q << " outside"); }
				m.pos = q; break; }
			case 6: { size_t bn = s.choice(12); int64_t len = s.coin() ? (int64_t)bn : (int64_t)s.choice(bn); jm::ByteArray b((int64)bn, 0x5A); int64_t w = fits(len);
				NOTE("readFully " << len << " of " << bn << "\n"); int64_t r = len == (int64_t)bn && s.coin() ? base->readFully(b) : st->readFully(b, len);
				REQUIRE_EQ(r, w, << "(bytes read fully)"); for(int64_t i = 0; i < (int64_t)bn; i++) REQUIRE_EQ((int)(uint8_t)b.constData()[i], i < w ? (int)m.d[m.pos + i] : 0x5A, << "(byte " << i << ")");
				m.pos += w; break; }
			case 7: { std::u16string t = genText(s, 8); std::string u = utf8Ref(t); int64_t w = fits((int64_t)u.size()); NOTE("write text " << quote16(t) << "\n");
				int64_t r = base->write(J(t)); REQUIRE_EQ(r, w, << "(bytes of text written)"); memcpy(m.d.data() + m.pos, u.data(), (size_t)w); m.pos += w; m.top = std::max(m.top, m.pos); if(w) changes++; break; }
			case 8: NOTE("open\n"); REQUIRE(st->open(s.pick({jm::FileMode::kRead, jm::FileMode::kReadWrite, jm::FileMode::kWrite})) == jm::Status::eOK); m.pos = 0; m.top = 0; break;
			case 9: NOTE("close\n"); st->close(); m.pos = 0; break;
			case 10: REQUIRE(st->isOpen()); REQUIRE(st->buffer() == arr, << "buffer() is another array"); break;
		}
		REQUIRE_EQ((int64_t)st->position(), m.pos, << "(position)"); REQUIRE_EQ((int64_t)st->size(), (int64_t)n, << "(size)");
		REQUIRE_EQ((int64_t)st->mWritelength, m.top, << "(mWritelength)");
		REQUIRE(memcmp(arr, m.d.data(), n) == 0, << "content differs");
	}
	// whose array it is decides who frees it (AddressSanitizer sees both a second time and a use after it)
	delete st;
	if(!own) { REQUIRE(memcmp(arr, m.d.data(), n) == 0, << "the array of the caller changed with the end of the stream"); delete[] arr; }
	ctx.label(edge ? "beyond-the-end" : "inside"); ctx.label(changes ? "writes" : "reads-only");
	if(changes && ops > 4) ctx.nontrivial();
}
const Def& pbt::definition()
{
	static Def d{"P17", "up to 40 operations (read, readFully, write of bytes and texts, seek and move inside and beyond the borders, open, close) on a memory stream over an exactly sized array of 0..5000 bytes, compared after each one with a byte sequence with cursor; AddressSanitizer watches the array. Non-trivial: at least five operations with a write; distinct by choices.", 3000000, 60000000, jmInit, run};
	d.assumptions = {"seek and move to a position outside the array may be ignored, limited or rejected, but leave the cursor inside"};
	return d;
}
