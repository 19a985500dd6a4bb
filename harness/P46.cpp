// P46: failing and changing file systems
#include "xml_ref.hpp"
#include "zip_ref.hpp"
#include <sstream>
#include <functional>
using jm::FileMode; using jm::Status;

// ---- the faults: every stream of the code under test goes through these functions
struct Plan
{
	int64 wbudget = -1, rbudget = -1; bool wonce = false, ronce = false, closeFails = false, hit = false; int openFailAt = -1, openErrno = 0, opens = 0; size_t pieces = 0;
	int dirErrno = 0, readdirFailAt = -1, readdirs = 0; std::map<int, std::function<void()>> between;
};
static Plan gPlan; static int gLive; // open streams and directories
static ssize_t ckRead(void* c, char* b, size_t n)
{
	if(gPlan.rbudget == 0) { gPlan.hit = true; if(gPlan.ronce) gPlan.rbudget = -1; errno = EIO; return -1; }
	if(gPlan.rbudget > 0 && (int64)n > gPlan.rbudget) n = (size_t)gPlan.rbudget;
	if(gPlan.pieces && n > gPlan.pieces) n = gPlan.pieces;
	ssize_t r = ::read((int)(intptr_t)c - 1, b, n); if(r > 0 && gPlan.rbudget > 0) gPlan.rbudget -= r; return r;
}
static ssize_t ckWrite(void* c, const char* b, size_t n) // an incomplete write is an error of the stream
{
	size_t k = n; if(gPlan.wbudget >= 0 && (int64)n > gPlan.wbudget) { k = (size_t)gPlan.wbudget; gPlan.hit = true; }
	if(k == 0) { if(gPlan.wonce) gPlan.wbudget = -1; errno = ENOSPC; return 0; }
	ssize_t r = ::write((int)(intptr_t)c - 1, b, k); if(r > 0 && gPlan.wbudget > 0) gPlan.wbudget -= r; if(k < n && gPlan.wonce) gPlan.wbudget = -1; return r < 0 ? 0 : r;
}
static int ckSeek(void* c, off64_t* p, int w) { off64_t r = lseek((int)(intptr_t)c - 1, *p, w); if(r < 0) return -1; *p = r; return 0; }
static int ckClose(void* c) { gLive--; ::close((int)(intptr_t)c - 1); if(gPlan.closeFails) { gPlan.hit = true; errno = EIO; return -1; } return 0; }
static FILE* openFaulty(const char* p, const char* m)
{
	if(gPlan.opens++ == gPlan.openFailAt) { gPlan.hit = true; errno = gPlan.openErrno; return nullptr; }
	bool plus = strchr(m, '+') != nullptr; int fl = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : m[0] == 'w' ? (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC : (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
	int fd = ::open(p, fl | O_CLOEXEC, 0644); if(fd < 0) return nullptr;
	gLive++; return fopencookie((void*)(intptr_t)(fd + 1), m, {ckRead, ckWrite, ckSeek, ckClose});
}
extern "C" DIR* opendir(const char* p) { static auto f = realFn<DIR*(*)(const char*)>("opendir"); if(fsGuard() && gPlan.dirErrno) { gPlan.hit = true; errno = gPlan.dirErrno; return nullptr; } DIR* d = f(p); if(d && fsGuard()) gLive++; return d; }
extern "C" int closedir(DIR* d) { static auto f = realFn<int(*)(DIR*)>("closedir"); if(fsGuard()) gLive--; return f(d); }
static void noneOpen(const char* what) { REQUIRE_EQ(gLive, 0, << "(files or directories still open after " << what << ")"); }
extern "C" struct dirent* readdir(DIR* d)
{
	static auto f = realFn<struct dirent*(*)(DIR*)>("readdir"); if(!fsGuard()) return f(d);
	int k = gPlan.readdirs++; auto i = gPlan.between.find(k); if(i != gPlan.between.end()) { gPlan.hit = true; int e = errno; i->second(); errno = e; }
	if(k == gPlan.readdirFailAt) { gPlan.hit = true; errno = EIO; return nullptr; }
	return f(d);
}
// the log: it may fail itself
struct Log : std::streambuf
{
	std::string text; int err = 0;
	int overflow(int c) override { if(c != EOF) text += (char)c; if(err) errno = err; return c == EOF ? 0 : c; }
	std::streamsize xsputn(const char* b, std::streamsize n) override { text.append(b, (size_t)n); if(err) errno = err; return n; }
	int sync() override { if(err) errno = err; return 0; }
};
// a part of a case, with the faults on. True, if it ended by an exception.
struct Session
{
	Log log; std::string what;
	bool operator()(const std::function<void()>& f)
	{
		auto* o = std::cout.rdbuf(&log); auto* e = std::cerr.rdbuf(&log); struct Back { std::streambuf *o, *e; ~Back() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); fsOpenHook() = nullptr; } } back{o, e};
		fsOpenHook() = openFaulty; GuardOn g;
		try { f(); return false; } catch(jm::Exception& x) { what = A(x.errorMessage()); } catch(jm::Exception* x) { what = A(x->errorMessage()); }
		return true;
	}
};
static std::string gDir;
static std::string word(Src& s) { std::string o; size_t n = 1 + s.choice(11); for(size_t i = 0; i < n; i++) o += (char)s.pick<int>({'a', 'b', 'c', 'x', 'Y', '7', '_', '-'}); return o; }
static std::string bulk(Src& s, size_t max) { size_t n = s.chance(1, 3) ? s.choice(max) : s.choice(60); char b = (char)s.byte(); std::string o(n, 0); for(size_t i = 0; i < n; i++) o[i] = (char)(b + i * 7); return o; }
static void faults(Ctx& ctx, Src& s, bool w, bool r, size_t total)
{
	gPlan = Plan(); if(s.chance(1, 10)) return;
	if(w && s.chance(2, 3)) { gPlan.wbudget = s.chance(1, 3) ? (int64)s.choice(40) : s.chance(1, 4) ? 4096 * (int64)s.choice(3) : (int64)s.choice(total + 1); gPlan.wonce = s.chance(1, 3); NOTE("writing fails after " << gPlan.wbudget << " bytes" << (gPlan.wonce ? ", once" : "") << "\n"); }
	if(r && s.chance(2, 3)) { gPlan.rbudget = s.chance(1, 3) ? (int64)s.choice(40) : (int64)s.choice(total + 1); gPlan.ronce = s.chance(1, 3); NOTE("reading fails after " << gPlan.rbudget << " bytes" << (gPlan.ronce ? ", once" : "") << "\n"); }
	if(r && s.chance(1, 4)) { gPlan.pieces = 1 + s.choice(s.coin() ? 20 : 3000); NOTE("at most " << gPlan.pieces << " bytes are read at once\n"); }
	if(w && s.chance(1, 8)) { gPlan.closeFails = true; NOTE("closing fails\n"); }
	if(s.chance(1, 6)) { gPlan.openFailAt = (int)s.choice(3); gPlan.openErrno = s.pick({EACCES, ENOENT, EMFILE, ENOSPC, EIO, ENOTDIR, ETIMEDOUT, EROFS}); NOTE("open no. " << gPlan.openFailAt << " fails with errno " << gPlan.openErrno << "\n"); }
}
// after a failure: the object works again as soon as the file system does
static void usable(jm::File& f, const std::string& path)
{
	gPlan = Plan(); Session run;
	bool bad = run([&] { REQUIRE(!f.isOpen(), << "open after close()"); f.close(); REQUIRE(f.open(FileMode::kWrite) == Status::eOK && f.isOpen(), << "cannot be opened again"); REQUIRE_EQ(f.write((const uint8*)"again", 5), 5); f.close(); REQUIRE(!f.isOpen()); });
	REQUIRE(!bad, << "the file cannot be used after the failure: " << run.what); REQUIRE(readFileRaw(path) == "again", << "the file cannot be written after the failure");
}
static void writing(Src& s, Ctx& ctx)
{
	std::string path = gDir + "/data", model; bool rw = s.coin(); if(rw) { model = bulk(s, 9000); writeFileRaw(path, model); }
	jm::File f(JA(path)); faults(ctx, s, true, false, 12000); gPlan.openFailAt = -1; bool reported = false; Session run; NOTE((rw ? "rb+ of " : "wb of ") << model.size() << " bytes\n");
	size_t n = 1 + s.choice(7); size_t pos = 0;
	bool thrown = run([&] { REQUIRE(f.open(rw ? FileMode::kReadWrite : FileMode::kWrite) == Status::eOK); });
	REQUIRE(!thrown && f.isOpen(), << "open: " << run.what);
	for(size_t i = 0; i < n && !thrown; i++)
	{
		if(s.chance(1, 4)) { pos = s.choice(model.size()); NOTE("seek " << pos << "\n"); thrown = run([&] { f.seek((int64)pos); }); continue; }
		std::string d = bulk(s, 9000); NOTE("write " << d.size() << "\n"); int64 r = -1; thrown = run([&] { r = f.write((const uint8*)d.data(), (int64)d.size()); }); if(thrown) break;
		REQUIRE(r >= 0 && r <= (int64)d.size(), << "write returned " << r << " for " << d.size() << " bytes"); if(r < (int64)d.size()) { reported = true; if(s.coin()) break; }
		if(pos + d.size() > model.size()) model.resize(pos + d.size()); model.replace(pos, d.size(), d); pos += d.size();
	}
	bool closed = !run([&] { f.close(); }); if(thrown || !closed) reported = true;
	REQUIRE(gPlan.hit || !reported, << "an error is reported, but nothing failed: " << run.what);
	if(!reported) REQUIRE(readFileRaw(path) == model, << "the file system failed, nothing was reported, but the file is not what was written");
	if(gPlan.hit) ctx.nontrivial(); ctx.label(!gPlan.hit ? "write: no fault met" : "write: reported");
	if(!rw || s.coin()) usable(f, path);
}
static void reading(Src& s, Ctx& ctx)
{
	std::string path = gDir + "/data", d = bulk(s, 9000); writeFileRaw(path, d); jm::File f(JA(path)); faults(ctx, s, false, true, d.size()); gPlan.openFailAt = -1; Session run; size_t pos = 0; bool thrown = run([&] { REQUIRE(f.open(FileMode::kRead) == Status::eOK); }); REQUIRE(!thrown);
	size_t n = 1 + s.choice(5); bool shortRead = false;
	for(size_t i = 0; i < n && !thrown && !shortRead; i++)
	{
		if(s.chance(1, 4)) { pos = s.choice(d.size()); NOTE("seek " << pos << "\n"); thrown = run([&] { f.seek((int64)pos); }); continue; }
		int64 len = s.coin() ? (int64)s.choice(60) : (int64)s.choice(10000), r = -1; std::string b((size_t)len + 1, '#'); bool fully = s.coin(); NOTE((fully ? "readFully " : "read ") << len << "\n");
		jm::ByteArray a(len, 0); thrown = run([&] { r = fully ? f.readFully(a, len) : f.read((uint8*)b.data(), len); }); if(thrown) break; if(fully) for(int64 k = 0; k < len; k++) b[(size_t)k] = (char)a.get(k);
		int64 full = std::min<int64>(len, (int64)(d.size() - pos)); REQUIRE(r >= 0 && r <= full, << r << " bytes read, " << full << " are there"); REQUIRE(r == full || gPlan.hit, << "only " << r << " of " << full << " bytes were read, but nothing failed");
		REQUIRE(b.compare(0, (size_t)r, d, pos, (size_t)r) == 0, << "wrong bytes were read at " << pos); REQUIRE(b[(size_t)len] == '#'); pos += (size_t)r; shortRead = r < full;
	}
	REQUIRE(!thrown || gPlan.hit, << "an error is reported, but nothing failed: " << run.what);
	run([&] { f.close(); }); if(gPlan.hit) ctx.nontrivial(); ctx.label(gPlan.hit ? "read: short count" : "read: no fault met"); usable(f, path);
}
static void preferences(Src& s, Ctx& ctx)
{
	std::string path = gDir + "/prefs"; std::map<std::string, std::string> m; size_t n = s.choice(8); for(size_t i = 0; i < n; i++) m[word(s)] = s.chance(1, 5) ? std::string(1 + s.choice(6000), 'v') : word(s);
	jm::Preferences p; size_t total = 0; for(auto& e : m) { p.setValue(JA(e.first), JA(e.second)); total += e.first.size() + e.second.size() + 2; } if(s.coin()) writeFileRaw(path, "old=content\n");
	auto all = [&](jm::Preferences& q, const char* w) { REQUIRE_EQ((size_t)q.size(), m.size(), << "(number of values, " << w << ")"); for(auto& e : m) REQUIRE_EQ(A(q.value(JA(e.first))), e.second, << "(value of " << e.first << ", " << w << ")"); };
	faults(ctx, s, true, false, total); Session run; bool reported = run([&] { p.save(jm::File(JA(path))); }) || !run.log.text.empty(); NOTE("save: " << run.log.text.substr(0, 300) << "\n");
	REQUIRE(gPlan.hit || !reported, << "an error is reported, but nothing failed: " << run.what << run.log.text); if(gPlan.hit) ctx.nontrivial(); ctx.label(!gPlan.hit ? "save: no fault met" : reported ? "save: reported" : "save: fault without loss");
	noneOpen("saving preferences"); gPlan = Plan(); all(p, "after saving");
	if(!reported) { Session r2; jm::Preferences q; REQUIRE(!r2([&] { q.load(jm::File(JA(path))); }), << r2.what); all(q, "saved while the file system failed, and nothing was reported"); }
	{ Session r2; jm::Preferences q; REQUIRE(!r2([&] { p.save(jm::File(JA(path))); q.load(jm::File(JA(path))); }) && r2.log.text.empty(), << "saving after the failure: " << r2.what << r2.log.text); all(q, "saved again"); }
	faults(ctx, s, false, true, total); { Session r3; jm::Preferences q; q.setValue("kept", "1"); m["kept"] = "1"; bool bad = r3([&] { q.load(jm::File(JA(path))); }) || !r3.log.text.empty(); REQUIRE(gPlan.hit || !bad, << "an error is reported, but nothing failed: " << r3.what); if(!bad) all(q, "loaded while the file system failed, and nothing was reported"); ctx.label(!gPlan.hit ? "load: no fault met" : bad ? "load: reported" : "load: fault without loss"); if(gPlan.hit) ctx.nontrivial(); }
	noneOpen("loading preferences"); gPlan = Plan();
}
static void xml(Src& s, Ctx& ctx)
{
	std::string path = gDir + "/doc.xml", want; size_t n = 1 + s.choice(8); struct E { int k; std::string a, b; }; std::vector<E> ops; for(size_t i = 0; i < n; i++) ops.push_back({(int)s.choice(3), "n" + word(s), s.chance(1, 4) ? std::string(1 + s.choice(6000), 't') : word(s)});
	auto doc = [&](jm::Stream* o, bool& ok)
	{
		jm::XMLWriter w(o); ok = w.startDocument(); REQUIRE(!ok || o->isOpen(), << "startDocument() returned true, but the file could not be opened"); if(!ok) return; jm::String root("root"); w.startElement(root); size_t depth = 0, k = 0;
		for(auto& e : ops) { jm::String name = JA(e.a); k++; switch(e.k) { case 0: w.startElement(name); depth++; w.writeAttribute(jm::String("v"), JA(e.b)); break; case 1: w.startElement(name); w.writeCData(JA(e.b)); w.endElement(); break; case 2: w.startElement(name); { std::string copy = e.b; w.WriteBase64((uint8*)copy.data(), (int64)copy.size()); } w.endElement(); break; default: if(depth) { w.endElement(); depth--; } } }
		while(depth--) w.endElement(); w.endElement(); ok = w.endDocument();
	};
	bool ok = false; { gPlan = Plan(); Session r; jm::File f(JA(path)); REQUIRE(!r([&] { doc(&f, ok); }) && ok, << r.what); want = readFileRaw(path); REQUIRE(want.size() > 10); if(s.coin()) ::unlink(path.c_str()); }
	faults(ctx, s, true, false, want.size()); Session run; jm::File f(JA(path)); bool reported = run([&] { doc(&f, ok); }) || !ok || !run.log.text.empty();
	REQUIRE(gPlan.hit || !reported, << "an error is reported, but nothing failed: " << run.what << run.log.text); if(gPlan.hit) ctx.nontrivial(); ctx.label(!gPlan.hit ? "xml: no fault met" : reported ? "xml: reported" : "xml: fault without loss");
	if(!reported) REQUIRE(readFileRaw(path) == want, << "the file system failed, nothing was reported, but the document is incomplete");
	{ Session r2; r2([&] { f.close(); }); } usable(f, path);
	// reading
	writeFileRaw(path, want); faults(ctx, s, false, true, want.size()); xmlr::Recorder all, q; all.parse(JA(want)); Session r3; bool bad = r3([&] { jm::File g(JA(path)); q.parse(g); }) || !r3.log.text.empty(); REQUIRE(gPlan.hit || !bad, << "an error is reported, but nothing failed: " << r3.what);
	if(!bad) { REQUIRE_EQ(q.ev.size(), all.ev.size(), << "(events; reading failed and nothing was reported)"); for(size_t i = 0; i < q.ev.size(); i++) REQUIRE(q.ev[i].kind == all.ev[i].kind && q.ev[i].name == all.ev[i].name && q.ev[i].attrs == all.ev[i].attrs && q.ev[i].text == all.ev[i].text, << "event " << i << "; reading failed and nothing was reported"); }
	noneOpen("parsing a file"); if(gPlan.hit) ctx.nontrivial(); ctx.label(!gPlan.hit ? "parse: no fault met" : bad ? "parse: reported" : "parse: fault without loss"); gPlan = Plan();
}
static void archive(Src& s, Ctx& ctx)
{
	std::string path = gDir + "/a.zip", src = gDir + "/src"; std::vector<ZMember> mem; size_t n = 1 + s.choice(3), total = 22; std::vector<int> how;
	for(size_t i = 0; i < n; i++) { ZMember m; m.name = W(word(s) + std::to_string(i)); m.data = bulk(s, 9000); how.push_back((int)s.choice(2)); total += m.data.size() + 80; mem.push_back(m); }
	faults(ctx, s, true, s.chance(1, 3), total * 2); if(gPlan.openFailAt >= 0) gPlan.openFailAt = (int)s.choice(6); Session run; bool missing = false, existed = s.coin(); if(existed) writeFileRaw(path, "old"); std::vector<jm::ZipEntry*> es; jm::File f(JA(path)); jm::ZipOutputFile* z = new jm::ZipOutputFile(&f);
	bool reported = run([&] { z->open(); }), thrown = reported;
	for(size_t i = 0; i < n && !thrown; i++)
	{
		jm::ZipEntry* e = new jm::ZipEntry(J(mem[i].name)); es.push_back(e); bool gone = how[i] == 1 && s.chance(1, 12); if(how[i] == 1) { if(gone) ::unlink(src.c_str()); else { bool keep = fsGuard(); fsGuard() = false; writeFileRaw(src, mem[i].data); fsGuard() = keep; } }
		if(gone) { missing = true; NOTE("the source is missing\n"); }
		thrown = run([&] { z->putNextEntry(e); if(how[i] == 1) { jm::File sf(JA(src)); struct C { jm::File& f; ~C() { try { f.close(); } catch(...) { } } } c{sf}; z->writeAndClose(&sf); } else { std::string d = mem[i].data; size_t h = d.size() / 2; z->write((uint8*)d.data(), 0, (int64)h); z->write((uint8*)d.data(), (int64)h, (int64)(d.size() - h)); z->closeEntry(); } });
	}
	if(!thrown) thrown = run([&] { z->close(); }); reported = thrown || !run.log.text.empty();
	REQUIRE(gPlan.hit || missing || !reported, << "an error is reported, but nothing failed: " << run.what << run.log.text); if(gPlan.hit || missing) ctx.nontrivial(); ctx.label(!gPlan.hit && !missing ? "zip: no fault met" : reported ? "zip: reported" : "zip: fault without loss");
	if(!reported) { REQUIRE(!missing, << "a missing file was put into an archive, and nothing was reported"); requireArchive(readFileRaw(path), mem); }
	{ Session r2; r2([&] { f.close(); }); } delete z; usable(f, path); for(auto* e : es) e->release(); noneOpen("writing an archive"); for(const char* k : {"", "1", "2", "3"}) REQUIRE(::access((gDir + "/jmzipdata" + k + ".tmp").c_str(), F_OK) != 0, << "a temporary file is left over");
	// reading: stored and deflated members
	std::string a, dir; for(auto& m : mem) { bool def = s.coin(); std::string c = m.data, nm = utf8Ref(m.name); if(def) { std::string h; c = zStream(s, m.data, true, h); } uint32_t off = (uint32_t)a.size(); ple(a, 0x04034b50, 4); ple(a, 20, 2); ple(a, 0, 2); ple(a, def ? 8 : 0, 2); ple(a, 0, 4); ple(a, crcOf(m.data), 4); ple(a, c.size(), 4); ple(a, m.data.size(), 4); ple(a, nm.size(), 2); ple(a, 0, 2); a += nm + c;
		ple(dir, 0x02014b50, 4); ple(dir, 20, 2); ple(dir, 20, 2); ple(dir, 0, 2); ple(dir, def ? 8 : 0, 2); ple(dir, 0, 4); ple(dir, crcOf(m.data), 4); ple(dir, c.size(), 4); ple(dir, m.data.size(), 4); ple(dir, nm.size(), 2); ple(dir, 0, 2); ple(dir, 0, 2); ple(dir, 0, 2); ple(dir, 0, 2); ple(dir, 0, 4); ple(dir, off, 4); dir += nm; }
	uint32_t co = (uint32_t)a.size(); a += dir; ple(a, 0x06054b50, 4); ple(a, 0, 4); ple(a, n, 2); ple(a, n, 2); ple(a, dir.size(), 4); std::u16string comment = s.coin() ? u"" : W(word(s)); ple(a, co, 4); ple(a, comment.size(), 2); a += utf8Ref(comment); for(size_t i = 0; i + 26 + comment.size() <= a.size(); i++) if(le(a, i, 4) == 0x06054b50) throw Discard();
	writeFileRaw(path, a); faults(ctx, s, false, true, a.size() * 2); Session r3; jm::File g(JA(path)); jm::ZipFile* zf = new jm::ZipFile(&g); bool bad = r3([&] { zf->open(); });
	if(!bad) REQUIRE(U16(zf->comment()) == comment, << "comment of the archive; reading failed and nothing was reported");
	if(!bad) REQUIRE_EQ((size_t)zf->entryCount(), n, << "(entries; reading failed and nothing was reported)");
	for(size_t i = 0; i < n && !bad; i++)
	{
		std::string d; bool cut = false; jm::Stream* st = nullptr;
		bool b = r3([&] { jm::ZipEntry* e = zf->entry(J(mem[i].name)); REQUIRE(e != nullptr, << "member " << i << " is missing; reading failed and nothing was reported"); st = zf->stream(e); REQUIRE(st != nullptr); d = drain(st, s); cut = d.size() < (size_t)e->uncompressedSize(); });
		delete st; if(b || cut) { bad = true; continue; } REQUIRE(d == mem[i].data, << "wrong data of member " << i << "; reading failed and nothing was reported");
	}
	REQUIRE(gPlan.hit || !bad, << "an error is reported, but nothing failed: " << r3.what); if(gPlan.hit) ctx.nontrivial(); ctx.label(!gPlan.hit ? "unzip: no fault met" : bad ? "unzip: reported" : "unzip: fault without loss"); r3([&] { zf->close(); }); delete zf; usable(g, path);
}
static void translation(Src& s, Ctx& ctx)
{
	auto l4 = [](uint32_t v) { std::string o; ple(o, v, 4); return o; }; std::map<std::string, std::string> m; size_t n = 1 + s.choice(5); for(size_t i = 0; i < n; i++) m[word(s)] = s.chance(1, 4) ? std::string(1 + s.choice(5000), 't') : word(s);
	std::string t1, t2, body; uint32_t at = (uint32_t)(28 + 16 * m.size()); for(auto& e : m) { t1 += l4((uint32_t)e.first.size()) + l4(at); body += e.first + '\0'; at += (uint32_t)e.first.size() + 1; } for(auto& e : m) { t2 += l4((uint32_t)e.second.size()) + l4(at); body += e.second + '\0'; at += (uint32_t)e.second.size() + 1; }
	std::string d = l4(0x950412de) + l4(0) + l4((uint32_t)m.size()) + l4(28) + l4((uint32_t)(28 + 8 * m.size())) + l4(0) + l4(28) + t1 + t2 + body, path = gDir + "/x.mo"; writeFileRaw(path, d);
	faults(ctx, s, false, true, d.size()); Session run; jm::File f(JA(path)); jm::I18nBundle b(jm::String("de")); bool reported = run([&] { b.appendMo(&f); }) || !run.log.text.empty(); REQUIRE(gPlan.hit || !reported, << "an error is reported, but nothing failed: " << run.what << run.log.text);
	noneOpen("reading translations"); if(!reported) for(auto& e : m) REQUIRE_EQ(A(b.translate(JA(e.first))), e.second, << "(reading failed and nothing was reported)");
	if(gPlan.hit) ctx.nontrivial(); ctx.label(!gPlan.hit ? "translation: no fault met" : reported ? "translation: reported" : "translation: fault without loss"); { Session r2; r2([&] { f.close(); }); } usable(f, path);
}
static void opening(Src& s, Ctx& ctx)
{
	std::string path = gDir + "/o"; int what = (int)s.choice(3); gPlan = Plan(); FileMode mode = s.pick({FileMode::kRead, FileMode::kWrite, FileMode::kReadWrite}); int e = 0;
	if(what == 0) { path = gDir + "/missing/o"; e = ENOENT; } else if(what == 1) { writeFileRaw(gDir + "/plain", "x"); path = gDir + "/plain/o"; e = ENOTDIR; } else if(what == 2) { ::mkdir(path.c_str(), 0755); e = mode == FileMode::kRead ? 0 : EISDIR; } else { writeFileRaw(path, "x"); gPlan.openFailAt = 0; e = gPlan.openErrno = s.pick({EACCES, ENOENT, ETIMEDOUT, ENOTDIR, EMFILE, ENFILE, EROFS, EIO, ENOMEM, ELOOP}); }
	Session run; if(s.chance(2, 3)) run.log.err = s.pick({EACCES, ENOENT, ETIMEDOUT, ENOTDIR, ENOSPC, EBADF, EPIPE}); NOTE("open " << path << " mode " << (int)mode << " errno " << e << ", log sets errno " << run.log.err << "\n");
	jm::File f(JA(path)); Status st = Status::eOK; bool thrown = run([&] { st = f.open(mode); }); Status want = e == 0 ? Status::eOK : e == EACCES ? Status::eNotAllowed : e == ENOENT ? Status::eNotFound : e == ETIMEDOUT ? Status::eTimeout : e == ENOTDIR ? Status::eNoDirectory : Status::eOK;
	if(e == 0 || want != Status::eOK) { REQUIRE(!thrown, << "open() threw \"" << run.what << "\" instead of returning the status"); REQUIRE(st == want, << "open() returned status " << (int)st << " instead of " << (int)want); }
	else REQUIRE(thrown, << "open() failed with errno " << e << " without a report");
	REQUIRE(f.isOpen() == (e == 0), << "isOpen() is wrong after open()"); if(e == 0) run([&] { f.close(); });
	// an operation on a file that is not open
	size_t n = 1 + s.choice(4); uint8 buf[8]; jm::ByteArray ba(8, 0);
	for(size_t i = 0; i < n; i++)
	{
		int64 r = 0; int k = (int)s.choice(6); bool t = run([&] { switch(k) { case 0: r = f.read(buf, 8); break; case 1: r = f.write((const uint8*)"12345678", 8); break; case 2: r = f.readFully(ba, 8); break; case 3: f.seek(0); break; case 4: f.move(0); break; case 5: f.position(); break; default: f.close(); } });
		if(k < 3) REQUIRE(t || r <= 0, << "operation " << k << " on a file that is not open transferred " << r << " bytes"); if(k == 6) REQUIRE(!t, << "closing a file that is not open: " << run.what); REQUIRE(!f.isOpen());
	}
	if(e) ctx.nontrivial(); ctx.label(e ? "open: refused" : "open: directory"); gPlan = Plan();
}
static void listing(Src& s, Ctx& ctx)
{
	std::string dir = gDir + "/list"; ::mkdir(dir.c_str(), 0755); clearDir(dir); std::set<std::string> all, ever{".", ".."}, stay; size_t n = s.choice(9); for(size_t i = 0; i < n; i++) { std::string w = "f" + word(s); all.insert(w); writeFileRaw(dir + "/" + w, "x"); } stay = ever = all; ever.insert("."); ever.insert(".."); stay.insert("."); stay.insert("..");
	gPlan = Plan(); int kind = (int)s.choice(5); if(kind == 0) gPlan.dirErrno = s.pick({EMFILE, EACCES, ENFILE}); else if(kind == 1) gPlan.readdirFailAt = (int)s.choice(all.size() + 3);
	else { size_t k = s.choice(3); for(size_t i = 0; i < k; i++) { int when = (int)s.choice(2 * all.size() + 8); std::vector<std::string> add, del; size_t m = 1 + s.choice(2); for(size_t j = 0; j < m; j++) if(s.coin() || all.empty()) { add.push_back("g" + word(s)); ever.insert(add.back()); } else { auto it = all.begin(); std::advance(it, (long)s.choice(all.size() - 1)); del.push_back(*it); stay.erase(*it); }
		NOTE("at readdir no. " << when << ": " << add.size() << " new, " << del.size() << " removed\n"); gPlan.between[when] = [=] { for(auto& a : add) { int fd = ::open((dir + "/" + a).c_str(), O_CREAT | O_WRONLY, 0644); if(fd >= 0) ::close(fd); } for(auto& d : del) ::unlink((dir + "/" + d).c_str()); }; } }
	Session run; jm::File f(JA(dir)); jm::Array<jm::File>* l = nullptr; bool thrown = run([&] { l = f.listFiles(); }); std::unique_ptr<jm::Array<jm::File>> own(l); bool fault = (kind == 0 || kind == 1) && gPlan.hit;
	if(kind > 1) REQUIRE(!thrown, << "the directory changed while it was listed: " << run.what);
	if(!fault) REQUIRE(!thrown && l != nullptr, << run.what);
	if(fault) REQUIRE(thrown || l == nullptr, << "reading the directory failed, and nothing was reported");
	if(!thrown && l) { std::multiset<std::string> got; for(int64 i = 0; i < (int64)l->size(); i++) { jm::File e = (*l)[i]; REQUIRE(!e.isNull(), << "entry " << i << " of the list has no path"); REQUIRE_EQ(A(e.parent()), dir, << "(directory of the entry)"); got.insert(A(e.name())); } for(auto& g : got) REQUIRE(ever.count(g), << g << " is listed, but never existed"); for(auto& w : stay) if(w[0] != '.' || got.count(w)) REQUIRE_EQ(got.count(w), (size_t)1, << "(times that " << w << " is listed)"); }
	if(gPlan.hit) ctx.nontrivial(); ctx.label(!gPlan.hit ? "list: undisturbed" : fault ? "list: failed" : "list: directory changed"); gPlan = Plan();
}
static void run(Src& s, Ctx& ctx)
{
	gDir = scratchDir() + "/p46"; ::mkdir(gDir.c_str(), 0755); clearDir(gDir); gPlan = Plan(); gLive = 0;
	switch(s.choice(8)) { case 0: writing(s, ctx); break; case 1: reading(s, ctx); break; case 2: preferences(s, ctx); break; case 3: xml(s, ctx); break; case 4: archive(s, ctx); break; case 5: translation(s, ctx); break; case 6: opening(s, ctx); break; case 7: listing(s, ctx); break; default: writing(s, ctx); }
	noneOpen("all of it"); REQUIRE(fsEscape().empty(), << "the operation addressed " << quote(fsEscape()));
}
static void init() { jmInit(); jm::System::logEnableDate(false); }
const Def& pbt::definition()
{
	static Def d{"P46", "an injected fault or a change of the directory is met", 60000, 3000000, init, run};
	d.assumptions = {"faults are injected below the C streams (writing, reading, closing, opening, reading a directory)", "Preferences and SAXParser treat a missing file as an empty one"};
	return d;
}
