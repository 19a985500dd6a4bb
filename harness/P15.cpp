// P15: writing ZIP archives and reading them back
#include "zip_ref.hpp"
// an archive of many members
static void manyMembers(Src& s, Ctx& ctx, const std::string& path)
{
	size_t many = s.coin() ? s.pick({(size_t)120, (size_t)127, (size_t)128, (size_t)249, (size_t)255, (size_t)256}) : s.choice(700); NOTE("an archive of " << many << " members\n"); uint64_t sd = s.choice(1000);
	std::vector<ZMember> want; std::vector<jm::ZipEntry*> entries; jm::File* f = new jm::File(JA(path)); jm::ZipOutputFile* z = new jm::ZipOutputFile(f); guarded([&] { z->open(); });
	for(size_t k = 0; k < many; k++)
	{
		ZMember m; m.name = u"n" + U16(JA(std::to_string(splitmix(sd) % 100000))) + u"." + U16(JA(std::to_string(k))); m.data = std::string(splitmix(sd) % 40, (char)('a' + k % 26)); jm::ZipEntry* e = new jm::ZipEntry(J(m.name)); entries.push_back(e);
		guarded([&] { z->putNextEntry(e); }); ExactBuf b(m.data); guarded([&] { z->write(b.p, 0, (int64)m.data.size()); }); guarded([&] { z->closeEntry(); }); want.push_back(m);
	}
	guarded([&] { z->close(); }); delete z; delete f;
	requireArchive(readFileRaw(path), want);
	jm::File f2(JA(path)); { jm::ZipFile r(&f2); r.open(); requireReading(r, want, s, ctx); r.close(); }
	for(auto* e : entries) e->release();
	ctx.label("many-members");
}
// the files of a folder and their contents
static std::map<std::string, std::string> folder(const std::string& d)
{
	std::map<std::string, std::string> m; DIR* dp = opendir(d.c_str()); while(auto e = readdir(dp)) if(e->d_name[0] != '.') m[e->d_name] = readFileRaw(d + "/" + e->d_name); closedir(dp); return m;
}
// one archive on its way; several of them are written at the same time
struct Writer
{
	std::string path; jm::File* f = nullptr; jm::ZipOutputFile* z = nullptr; jm::ZipEntry* e = nullptr; ZMember m; std::vector<ZMember> want; size_t members = 0, writes = 0; bool done = false;
	void step(Src& s, Ctx& ctx, const std::string& src, std::vector<jm::ZipEntry*>& entries)
	{
		if(!z) { want.clear(); f = new jm::File(JA(path)); z = new jm::ZipOutputFile(f); guarded([&] { z->open(); }); members = s.len(6); return; }
		if(!e)
		{
			if(want.size() == members) { guarded([&] { z->close(); }); REQUIRE(!f->isOpen()); delete z; delete f; z = nullptr; f = nullptr; done = true; return; }
			m = ZMember(); m.name = genName(s); e = new jm::ZipEntry(J(m.name)); entries.push_back(e); if(s.chance(1, 4)) e->setUncompressedSize((uint32)s.choice(1000));
			guarded([&] { z->putNextEntry(e); });
			if(s.chance(1, 4))
			{
				m.data = genData(s, 3000); writeFileRaw(src, m.data); jm::File sf(JA(src)); NOTE("member " << quote16(m.name) << " of " << path.back() << " from file of " << m.data.size() << " bytes\n");
				guarded([&] { z->writeAndClose(&sf); });
				REQUIRE(!sf.isOpen(), << "the file is still open"); REQUIRE(readFileRaw(src) == m.data, << "the source file was changed"); ctx.label("from-file"); finished();
			}
			else { writes = s.choice(3); NOTE("member " << quote16(m.name) << " of " << path.back() << " in " << writes << " writes\n"); }
			return;
		}
		if(writes > 0)
		{
			writes--; std::string d = s.chance(1, 15) ? genData(s, 100000) : genBytes(s, 60); size_t off = s.choice(d.size()), len = s.coin() ? d.size() - off : s.choice(d.size() - off);
			NOTE("write " << len << " bytes to " << path.back() << "\n"); ExactBuf b(d); guarded([&] { z->write(b.p, (int64)off, (int64)len); }); m.data += d.substr(off, len); return;
		}
		guarded([&] { z->closeEntry(); }); finished();
	}
	void finished() { REQUIRE_EQ(e->uncompressedSize(), (uint32)m.data.size(), << "(size of the entry after writing)"); want.push_back(m); e = nullptr; }
};
static void run(Src& s, Ctx& ctx)
{
	std::string dir = scratchDir() + "/zip"; mkdir(dir.c_str(), 0700); clearDir(dir);
	std::string path = dir + "/out.zip", src = dir + (s.chance(1, 8) ? "/jmzipdata.tmp" : "/src.bin"); std::map<std::string, std::string> keep; keep["other.dat"] = "keep";
	bool existed = s.coin(), stale = s.chance(1, 3);
	if(existed) { size_t n = s.choice(3000); NOTE("target exists with " << n << " bytes\n"); std::string junk; uint64_t sd = n; for(size_t i = 0; i < n; i++) junk += (char)splitmix(sd); writeFileRaw(path, junk); }
	if(stale) { size_t n = 1 + s.choice(2); for(size_t i = 0; i < n; i++) keep[s.pick({"jmzipdata.tmp", "jmzipdata1.tmp", "jmzipdata.tmp.tmp", "out.zip.tmp", "tmp"})] = std::string(s.choice(500), 'S'); }
	writeFileRaw(src, "source"); for(auto& k : keep) writeFileRaw(dir + "/" + k.first, k.second);
	std::vector<jm::ZipEntry*> entries; std::vector<Writer> ws(s.chance(1, 3) ? 2 + s.choice(1) : 1); for(size_t i = 0; i < ws.size(); i++) ws[i].path = i ? path + std::to_string(i) : path;
	size_t rounds = 1 + (s.chance(1, 4) ? 1 : 0);
	for(size_t r = 0; r < rounds; r++)
	{
		for(auto& w : ws) w.done = false;
		for(size_t cur = 0;;) { size_t open = 0; for(auto& w : ws) open += !w.done; if(!open) break; if(ws.size() > 1) cur = s.choice(ws.size() - 1); while(ws[cur].done) cur = (cur + 1) % ws.size(); ws[cur].step(s, ctx, src, entries); }
		for(auto& w : ws) requireArchive(readFileRaw(w.path), w.want);
	}
	std::vector<ZMember>& want = ws[0].want;
	// the folder holds what it held before and the archives
	for(auto& w : ws) keep[w.path.substr(dir.size() + 1)] = readFileRaw(w.path);
	std::string sn = src.substr(dir.size() + 1); auto now = folder(dir); if(!keep.count(sn)) now.erase(sn);
	for(auto& k : keep) if(k.first != sn) REQUIRE(now.count(k.first) && now[k.first] == k.second, << "the file " << k.first << " of the folder was changed or removed");
	for(auto& k : now) REQUIRE(keep.count(k.first), << "the file " << k.first << " was left in the folder");
	if(ws.size() > 1) ctx.label("several-archives");
	// read back, from the file or from memory
	if(s.coin()) { jm::File f2(JA(path)); jm::ZipFile z(&f2); z.open(); requireReading(z, want, s, ctx); REQUIRE(U16(z.comment()).empty()); z.close(); REQUIRE(!f2.isOpen()); }
	else { std::string d = readFileRaw(path); ExactBuf b(d); jm::MemoryStream ms(b.p, (int64)d.size()); jm::ZipFile z(&ms); z.open(); requireReading(z, want, s, ctx); z.close(); REQUIRE(memcmp(b.p, d.data(), d.size()) == 0, << "reading changed the archive"); }
	for(auto* e : entries) e->release();
	ctx.label(want.empty() ? "no-members" : want.size() > 1 ? "several-members" : "one-member"); ctx.label(existed ? "over-existing" : "new-file"); if(stale) ctx.label("stale-temporary");
	if(want.size() > 1) ctx.nontrivial();
	static int count = 0; // in some cases only, and whenever a case is repeated; the last part, so that the others do not depend on it
	if(s.chance(1, 6) && count++ % 200 == 0) manyMembers(s, ctx, path);
}
const Def& pbt::definition()
{
	static Def d{"P15", "archives of up to 7, rarely up to 700 members (random names also non-ASCII, with separators and twice the same; contents of 0..300 KB in several writes or from a file) written to a new or existing target, also twice, up to three archives of one folder at the same time in turns, with other files in the folder (stale temporary files, a member's source with that name), which stay as they are; a strict reader checks every field and byte of the archive, the library reads it back from file or memory (order, sizes, directories, look-up of right and slightly wrong names, contents in any order). Non-trivial: at least two members; distinct by choices.", 110000, 4000000, jmInit, run};
	d.assumptions = {"member names do not contain the zero character", "files are only changed inside a scratch directory (the calls are guarded)"};
	return d;
}
