// P12: compressing and restoring
#include "deflate_gen.hpp"
static void run(Src& s, Ctx& ctx)
{
	jm::Deflater def; bool fresh = true; int64 tin = 0, tout = 0; size_t rounds = 1 + s.choice(2);
	jm::Inflater inf; 
	def.reset();
	for(size_t r = 0; r < rounds; r++)
	{
		std::string d = s.chance(1, 4) ? genBytes(s, 30) : genData(s, s.chance(1, 12) ? 300000 : 6000);
		NOTE("round " << r << ": " << d.size() << " bytes " << hex(d.data(), d.size()) << "\n");
		if(!fresh && s.chance(1, 3)) { def.reset(); tin = tout = 0; NOTE("reset\n"); }
		ExactBuf in(d); uint8* out = nullptr; int64 n = -1;
		def.setInput(in.p, (int64)d.size());
		def.deflate(out, n);
		REQUIRE(memcmp(in.p, d.data(), d.size()) == 0, << "the input was changed");
		REQUIRE(out != nullptr && n > 0, << "no output: length " << n);
		std::string c((char*)out, (size_t)n); delete[] out;
		tin += (int64)d.size(); tout += n;
		REQUIRE_EQ(def.totalInSize(), tin); REQUIRE_EQ(def.totalOutSize(), tout);
		std::string z; size_t used = 0;
		bool ok = zInflate(c, false, z, &used);
		REQUIRE(ok, << "zlib does not accept the compressed data of " << d.size() << " bytes (" << c.size() << " bytes)");
		REQUIRE(z == d, << "zlib restores something else: " << diffAt(z, d));
		REQUIRE_EQ(used, c.size(), << "(bytes behind the stream)");
		// the own decompressor, fresh or used again
		std::string back;
		if(s.coin()) REQUIRE(jmInflate(c, false, s.coin(), back), << "the library does not accept its compressed data");
		else
		{
			ExactBuf ci(c); uint8* p = nullptr; int64 m = -1; if(r > 0 || s.coin()) inf.Reset(); else NOTE("without Reset\n");
			inf.SetInput(ci.p, (int64)c.size()); bool threw = throwsJm([&] { inf.Inflate(p, m); });
			REQUIRE(!threw, << "the library does not accept its compressed data (reused object)");
			back.assign((char*)p, (size_t)m); delete[] p;
			REQUIRE(inf.Finished() && inf.GetTotalOut() == m);
		}
		REQUIRE(back == d, << "restored data differ: " << diffAt(back, d));
		ctx.label(d.empty() ? "empty" : c.size() >= d.size() ? "incompressible" : d.size() > 32768 ? "large" : "compressible");
		if(d.size() > 2) ctx.nontrivial();
		ctx.key(hashBytes(d.data(), d.size()));
		fresh = false;
	}
}
const Def& pbt::definition()
{
	static Def d{"P12", "one to three byte strings of 0 to 300 KB (noise, runs, few letters, repetitions at any distance) compressed by one Deflater; the output is given to zlib, which must accept it as one complete stream and restore the data, and to the library's Inflater (fresh, reset or used again). Non-trivial: more than two bytes; distinct by content.", 15000, 600000, jmInit, run};
	d.assumptions = {"zlib's inflate is the reference decompressor"};
	return d;
}
