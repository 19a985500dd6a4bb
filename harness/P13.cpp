// P13: expanding every valid deflate stream
#include "deflate_gen.hpp"
static void run(Src& s, Ctx& ctx)
{
	bool raw = s.coin(); std::string stream, want; std::set<std::string> f;
	if(s.chance(2, 5))
	{
		want = genData(s, s.chance(1, 10) ? 150000 : 5000); std::string how;
		stream = zStream(s, want, raw, how);
		NOTE(want.size() << " bytes by " << how << "\n"); f.insert("zlib"); if(want.size() > 32768) f.insert("over32K");
	}
	else
	{
		std::ostringstream how; stream = dfl::assemble(s, want, how, f);
		if(!raw) stream = dfl::zlibWrap(stream, want, s);
		NOTE(how.str() << "\n"); f.insert("assembled");
	}
	std::string z;
	REQUIRE(zInflate(stream, raw, z) && z == want, << "INTERNAL: zlib does not agree with the generator");
	size_t junk = s.chance(1, 4) ? s.choice(9) : 0; std::string in = stream; for(size_t i = 0; i < junk; i++) in += (char)s.byte();
	NOTE((raw ? "raw " : "zlib ") << in.size() << " bytes: " << hex(in.data(), in.size(), 200) << "\n");
	std::string out; jm::Inflater* inf = nullptr;
	bool ok = jmInflate(in, raw, s.coin(), out, &inf);
	REQUIRE(ok, << "a valid stream of " << want.size() << " bytes is rejected");
	REQUIRE(out == want, << diffAt(out, want));
	int64 rest = inf->GetRemaining(), tin = inf->GetTotalIn();
	REQUIRE(rest >= (int64)junk && rest <= (int64)(junk + (raw ? 1 : 5)), << "GetRemaining gives " << rest << " with " << junk << " bytes behind the stream");
	REQUIRE_EQ(tin, (int64)in.size() - rest, << "(GetTotalIn)");
	delete inf;
	for(auto& x : f) ctx.label(x.c_str());
	if(want.size() > 3) ctx.nontrivial();
	ctx.key(hashBytes(stream.data(), stream.size()));
}
const Def& pbt::definition()
{
	static Def d{"P13", "streams of up to 4 stored, fixed and dynamic blocks assembled bit by bit (random complete Huffman codes up to 15 bits, random use of the repeat codes also across both alphabets, none or a single distance code, matches of every length symbol and distances up to 32768, output beyond 32 KB), and streams of zlib in all levels, strategies, windows, memory levels and flush patterns; raw or in a zlib wrapper, with bytes behind the stream. zlib confirms each generated stream. Non-trivial: expands to more than three bytes; distinct by stream.", 60000, 2500000, jmInit, run};
	d.assumptions = {"zlib's inflate confirms that the generated stream is valid and what it means"};
	return d;
}
