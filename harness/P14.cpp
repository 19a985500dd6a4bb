// P14: corrupt compressed data
#include "deflate_gen.hpp"
// matches reach before the beginning
static std::string withDictionary(Src& s)
{
	std::string dict = genData(s, 3000) + "some words", data; size_t n = 1 + s.choice(30); for(size_t i = 0; i < n; i++) { size_t at = s.choice(dict.size() - 1); data += dict.substr(at, 3 + s.choice(60)); if(s.coin()) data += (char)s.byte(); }
	z_stream z{}; deflateInit2(&z, 9, Z_DEFLATED, -15, 9, s.coin() ? Z_FIXED : Z_DEFAULT_STRATEGY); deflateSetDictionary(&z, (const Bytef*)dict.data(), (uInt)dict.size()); std::string o(data.size() + 200, 0); z.next_in = (Bytef*)data.data(); z.avail_in = (uInt)data.size(); z.next_out = (Bytef*)o.data(); z.avail_out = (uInt)o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
static void run(Src& s, Ctx& ctx)
{
	bool raw = s.chance(2, 3); std::string in, want; std::ostringstream how; std::set<std::string> f;
	switch(s.weighted({6, 3, 2, 1}))
	{
		case 0: in = dfl::assemble(s, want, how, f); if(!raw) in = dfl::zlibWrap(in, want, s); break;
		case 1: { want = genData(s, 4000); std::string h; in = zStream(s, want, raw, h); how << h; break; }
		case 3: raw = true; in = withDictionary(s); how << "with dictionary"; break;
		default: { size_t n = s.len(120); for(size_t i = 0; i < n; i++) in += (char)s.byte(); if(!raw && s.coin()) in = std::string("\x78\x9c") + in; else if(raw && !in.empty() && s.coin()) in[0] = (char)((in[0] & 0xF8) | s.choice(7)); how << "random"; break; }
	}
	size_t muts = s.choice(4);
	for(size_t m = 0; m < muts && !in.empty(); m++)
	{
		size_t head = s.coin() ? std::min<size_t>(in.size(), 80) : in.size();
		size_t at = s.choice(head - 1);
		switch(s.choice(5))
		{
			case 0: in[at] = (char)(in[at] ^ (1 << s.choice(7))); how << " flip@" << at; break;
			case 1: in.resize(at); how << " cut@" << at; break;
			case 2: in[at] = (char)s.byte(); how << " set@" << at; break;
			case 3: in.erase(at, 1 + s.choice(4)); how << " erase@" << at; break;
			case 4: in.insert(at, 1 + s.choice(2), (char)s.byte()); how << " insert@" << at; break;
			case 5: { size_t n = 1 + s.choice(20); if(n > in.size() - at) n = in.size() - at; in.insert(at, in.substr(at, n)); how << " dup@" << at; break; }
		}
	}
	NOTE((raw ? "raw " : "zlib ") << how.str() << "\n" << in.size() << " bytes: " << hex(in.data(), in.size(), 300) << "\n");
	std::string out; jm::Inflater* inf = nullptr; bool ok = jmInflate(in, raw, s.coin(), out, &inf); std::unique_ptr<jm::Inflater> own(inf);
	if(ok)
	{
		// 258 bytes need at least two bits
		REQUIRE(out.size() <= 1032 * in.size() + 258, << out.size() << " bytes from " << in.size());
	}
	std::string z; bool zok = zInflate(in, raw, z);
	// what is valid nevertheless has its defined meaning
	if(zok) REQUIRE(ok, << "zlib accepts the stream, the library does not");
	if(zok) REQUIRE(out == z, << "valid stream, but " << diffAt(out, z));
	// without bytes for the announced content nothing is invented
	if(ok && !zok) ctx.label("only-library"); 
	ctx.label(ok ? "expanded" : "rejected");
	// the same object gets other data, without being reset
	if(s.chance(1, 4))
	{
		std::string first, more = in; bool fresh = s.coin();
		if(fresh) { size_t n = s.len(300); first = std::string("\x01", 1) + (char)n + (char)(n >> 8) + (char)~n + (char)(~n >> 8); for(size_t i = 0; i < n; i++) first += (char)s.byte(); own.reset(new jm::Inflater(true)); }
		if(s.chance(2, 3)) more = withDictionary(s); NOTE("then " << hex(more.data(), more.size(), 300) << "\n");
		for(int k = fresh ? 0 : 1; k < 2; k++)
		{
			ExactBuf b(k ? more : first); uint8* p = nullptr; int64 n = -1; own->SetInput(b.p, (int64)b.n);
			try { own->Inflate(p, n); REQUIRE(n >= 0 && (n == 0 || p != nullptr)); REQUIRE((size_t)n <= 1032 * b.n + 258, << n << " bytes from " << b.n); delete[] p; } catch(jm::Exception&) { } catch(jm::Exception*) { }
		}
		ctx.label("second input");
	}
	if(muts > 0 && in.size() > 4) ctx.nontrivial();
	ctx.key(hashBytes(in.data(), in.size(), raw));
}
const Def& pbt::definition()
{
	static Def d{"P14", "streams assembled as for P13, streams of zlib (also with a preset dictionary, so that matches reach before the beginning) and random bytes, with up to four corruptions (bit flips, bytes set, removed, inserted or repeated, truncation; half of them within the first 80 bytes with the block headers); the input lies in an exactly sized buffer under AddressSanitizer. The library must throw its exception or return not more than 1032 bytes per input byte; what zlib accepts must be expanded equally. A quarter of the objects gets a second input without being reset. Non-trivial: at least one corruption of more than four bytes; distinct by input.", 250000, 6000000, jmInit, run};
	d.assumptions = {"memory errors are those AddressSanitizer and the bounds sanitizer see", "a case ends by the 20 s CPU limit if it does not terminate"};
	return d;
}
