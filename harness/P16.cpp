// P16: archives of other writers, and damaged ones
#include "zip_ref.hpp"
static void run(Src& s, Ctx& ctx)
{
	// another writer
	size_t n = s.len(6); std::vector<ZMember> mem; std::string z, how; std::set<std::string> f;
	std::string lead = s.chance(1, 4) ? genBytes(s, 200) : ""; z = lead; if(!lead.empty()) f.insert("leading-data");
	struct Rec { ZMember m; uint32_t off, comp; int method, flags; std::string extra, comment; }; std::vector<Rec> recs;
	for(size_t k = 0; k < n; k++)
	{
		Rec r; r.m.name = genName(s); r.m.data = s.chance(1, 15) ? genData(s, 60000) : s.coin() ? genData(s, 600) : genBytes(s, 40);
		if(s.chance(1, 6)) { std::string gap = genBytes(s, 30); if(!gap.empty()) f.insert("gap"); z += gap; }
		r.method = s.coin() ? 8 : 0; r.flags = (s.chance(1, 3) ? 8 : 0) | (s.coin() ? 0x800 : 0); std::string c = r.m.data;
		if(r.method == 8) { std::string h; c = zStream(s, r.m.data, true, h); f.insert("deflated"); } else f.insert("stored");
		r.comp = (uint32_t)c.size(); r.off = (uint32_t)z.size(); std::string nm = utf8Ref(r.m.name), le1 = s.chance(1, 3) ? genBytes(s, 30) : ""; r.extra = s.chance(1, 3) ? genBytes(s, 30) : ""; r.comment = s.chance(1, 4) ? utf8Ref(genText(s, 20)) : "";
		bool dd = r.flags & 8; uint32_t crc = crcOf(r.m.data);
		ple(z, 0x04034b50, 4); ple(z, 20, 2); ple(z, (uint64_t)r.flags, 2); ple(z, (uint64_t)r.method, 2); ple(z, s.choice(65535), 2); ple(z, s.choice(65535), 2);
		ple(z, dd ? 0 : crc, 4); ple(z, dd ? 0 : r.comp, 4); ple(z, dd ? 0 : r.m.data.size(), 4); ple(z, nm.size(), 2); ple(z, le1.size(), 2); z += nm + le1 + c;
		if(dd) { f.insert("data-descriptor"); ple(z, 0x08074b50, 4); ple(z, crc, 4); ple(z, r.comp, 4); ple(z, r.m.data.size(), 4); }
		if(!le1.empty() || !r.extra.empty()) f.insert("extra");
		NOTE(quote16(r.m.name) << " " << r.m.data.size() << " bytes, method " << r.method << " flags " << r.flags << " at " << r.off << "\n");
		recs.push_back(r);
	}
	if(recs.size() > 1 && s.chance(1, 3)) { for(size_t i = recs.size(); i > 1; i--) std::swap(recs[i - 1], recs[s.choice(i - 1)]); f.insert("directory-reordered"); }
	size_t co = z.size();
	for(auto& r : recs)
	{
		std::string nm = utf8Ref(r.m.name); ple(z, 0x02014b50, 4); ple(z, s.pick<uint64_t>({20, 0x031E, 0x0A14}), 2); ple(z, 20, 2); ple(z, (uint64_t)r.flags, 2); ple(z, (uint64_t)r.method, 2); ple(z, s.choice(65535), 2); ple(z, s.choice(65535), 2);
		ple(z, crcOf(r.m.data), 4); ple(z, r.comp, 4); ple(z, r.m.data.size(), 4); ple(z, nm.size(), 2); ple(z, r.extra.size(), 2); ple(z, r.comment.size(), 2); ple(z, 0, 2); ple(z, s.choice(1), 2); ple(z, s.choice(0xFFFFFFFF), 4); ple(z, r.off, 4);
		z += nm + r.extra + r.comment; mem.push_back(r.m);
	}
	size_t ce = z.size(); std::u16string comment = s.chance(1, 3) ? genText(s, 60) : u""; std::string uc = utf8Ref(comment);
	ple(z, 0x06054b50, 4); ple(z, 0, 2); ple(z, 0, 2); ple(z, recs.size(), 2); ple(z, recs.size(), 2); ple(z, ce - co, 4); ple(z, co, 4); ple(z, uc.size(), 2); z += uc;
	if(!uc.empty()) { f.insert("archive-comment"); if(recs.empty()) f.insert("empty-with-comment"); }
	for(size_t i = ce + 1; i + 4 <= z.size(); i++) if(le(z, i, 4) == 0x06054b50) throw Discard();

	size_t muts = s.coin() ? 0 : 1 + s.choice(3);
	for(size_t m = 0; m < muts && !z.empty(); m++)
	{
		// where: directory end, directory, a local header, anywhere
		size_t at; switch(s.choice(3)) { case 0: at = std::min(ce, z.size() - 1) + s.choice(std::min<size_t>(21, z.size() - 1 - std::min(ce, z.size() - 1))); break; case 1: { size_t a = std::min(co, z.size() - 1); at = a + s.choice(z.size() - 1 - a); break; } case 2: { size_t a = recs.empty() ? 0 : std::min<size_t>(s.pick(recs).off, z.size() - 1); at = a + s.choice(std::min<size_t>(40, z.size() - 1 - a)); break; } default: at = s.choice(z.size() - 1); }
		switch(s.choice(6))
		{
			case 0: z[at] = (char)(z[at] ^ (1 << s.choice(7))); NOTE("flip at " << at << "\n"); break;
			case 1: z[at] = (char)s.byte(); NOTE("set at " << at << "\n"); break;
			case 2: { uint64_t v = s.pick<uint64_t>({0, 1, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, z.size(), z.size() - 1, 0xFFFFFFFF - z.size()}); int w = s.coin() ? 4 : 2; for(int i = 0; i < w && at + i < z.size(); i++) z[at + i] = (char)(v >> (8 * i)); NOTE("value " << v << " at " << at << "\n"); break; }
			case 3: z.resize(at); NOTE("cut at " << at << "\n"); break;
			case 4: z.erase(0, at); NOTE("head of " << at << " bytes removed\n"); break;
			case 5: { std::string d = genBytes(s, 10); z.insert(at, d); NOTE("insert " << d.size() << " bytes at " << at << "\n"); break; }
			case 6: { size_t k = 1 + s.choice(10); if(k > z.size() - at) k = z.size() - at; z.erase(at, k); NOTE("erase " << k << " at " << at << "\n"); break; }
		}
	}
	NOTE(z.size() << " bytes: " << hex(z.data(), z.size(), 400) << "\n");
	bool viaFile = s.chance(1, 4); std::string path = scratchDir() + "/foreign.zip"; if(viaFile) writeFileRaw(path, z);
	ExactBuf b(z); jm::MemoryStream ms(b.p, (int64)z.size()); jm::File file(JA(path));
	jm::ZipFile* zf = new jm::ZipFile(viaFile ? (jm::Stream*)&file : &ms);
	if(muts == 0)
	{
		zf->open(); requireReading(*zf, mem, s, ctx); REQUIRE(U16(zf->comment()) == comment, << "comment is " << quote16(U16(zf->comment())) << " instead of " << quote16(comment));
		for(auto& x : f) ctx.label(x.c_str()); if(mem.size() > 0) ctx.nontrivial(); ctx.label("intact");
	}
	else
	{
		bool opened = !throwsJm([&] { zf->open(); });
		ctx.label(opened ? "damaged-opened" : "damaged-rejected");
		if(opened)
		{
			jm::LinkedListIterator it = zf->entryIterator(); size_t cnt = 0;
			while(it.hasNext() && cnt < 70000)
			{
				jm::ZipEntry* e = static_cast<jm::ZipEntry*>(it.next()); cnt++; REQUIRE(zf->entry(e->name()) != nullptr); jm::Stream* st = nullptr;
				bool threw = throwsJm([&] { st = zf->stream(e); });
				if(threw) { ctx.label("member-rejected"); continue; }
				REQUIRE(st != nullptr);
				REQUIRE_EQ((uint64_t)st->size(), (uint64_t)e->uncompressedSize(), << "(stream size and declared size)");
				std::string d = drain(st, s); REQUIRE(d.size() == e->uncompressedSize(), << "the stream gives " << d.size() << " of " << e->uncompressedSize() << " bytes"); uint32_t sum = crcOf(d); volatile uint32_t sink = sum; (void)sink; ctx.label("member-read");
				delete st;
			}
			REQUIRE_EQ(cnt, (size_t)zf->entryCount());
		}
		if(z.size() > 22) ctx.nontrivial();
	}
	REQUIRE(memcmp(b.p, z.data(), z.size()) == 0, << "reading changed the archive");
	zf->close(); delete zf; ctx.label(viaFile ? "file" : "memory");
}
const Def& pbt::definition()
{
	static Def d{"P16", "archives of up to 7 members by an independent writer (stored and deflated by zlib in any mode, data descriptors, extra fields that differ between headers, comments, gaps, leading data with right offsets, reordered directory, UTF-8 names) must be listed and extracted exactly; half of the cases are damaged at one to four places (fields of the records, truncation, removed or inserted bytes), in an exactly sized buffer under AddressSanitizer: rejected, or every member rejected or giving exactly its declared size. Non-trivial: at least one member, or a damaged archive of more than 22 bytes; distinct by choices.", 160000, 6000000, jmInit, run};
	d.assumptions = {"comments do not contain the signature of the directory end", "a case ends by the 20 s CPU limit if it does not terminate"};
	return d;
}
