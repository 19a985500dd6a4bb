// P20: file operations against a model file system
#include "fsguard.hpp"
struct Node { char kind; std::string data, target; std::vector<std::u16string> tags; }; // d f l p
using Tree = std::map<std::string, Node>; // canonical path below the root -> node; the root is ""
static bool gTags;
struct Res { int err = 0; std::string path; }; // err 0: parent exists, the node itself may be missing
struct Fs
{
	Tree t; std::string root;
	static std::string parentOf(const std::string& p) { size_t i = p.rfind('/'); return i == std::string::npos ? "" : p.substr(0, i); }
	Res walk(const std::string& p, bool follow, int depth = 0) const // p below the root, comps separated by /
	{
		if(depth > 30) return {ELOOP, ""};
		std::string cur; size_t pos = 0;
		if(p.empty()) return {0, ""};
		while(true)
		{
			size_t e = p.find('/', pos); bool last = e == std::string::npos; std::string c = p.substr(pos, last ? std::string::npos : e - pos);
			std::string next = cur.empty() ? c : cur + "/" + c; auto it = t.find(next);
			if(it != t.end() && it->second.kind == 'l' && (!last || follow)) { Res r = walk(it->second.target, true, depth + 1); if(r.err) return r; next = r.path; it = next.empty() ? t.end() : t.find(next); if(next.empty() ) { if(last) return {0, ""}; cur = ""; pos = e + 1; continue; } }
			if(last) return {0, next};
			if(it == t.end()) return {ENOENT, ""};
			if(it->second.kind != 'd') return {ENOTDIR, ""};
			cur = next; pos = e + 1;
		}
	}
	const Node* node(const std::string& canon) const { auto it = t.find(canon); return it == t.end() ? nullptr : &it->second; }
	Node* node(const std::string& canon) { auto it = t.find(canon); return it == t.end() ? nullptr : &it->second; }
	bool hasChildren(const std::string& d) const { auto it = t.lower_bound(d + "/"); return it != t.end() && it->first.compare(0, d.size() + 1, d + "/") == 0; }
};
static void compareReal(const Fs& fs, const std::string& rel, size_t& seen)
{
	std::string abs = fs.root + (rel.empty() ? "" : "/" + rel); DIR* d = opendir(abs.c_str()); REQUIRE(d != nullptr, << "directory " << rel << " is gone");
	std::vector<std::string> names; while(auto* e = readdir(d)) { std::string n = e->d_name; if(n != "." && n != "..") names.push_back(n); } closedir(d);
	for(auto& n : names)
	{
		std::string r = rel.empty() ? n : rel + "/" + n, p = abs + "/" + n; struct stat st; if(lstat(p.c_str(), &st)) continue; const Node* m = fs.node(r);
		REQUIRE(m != nullptr, << quote(r) << " exists, but should not"); seen++;
		char k = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISLNK(st.st_mode) ? 'l' : S_ISFIFO(st.st_mode) ? 'p' : '?';
		REQUIRE(k == m->kind, << quote(r) << " is of kind " << k << " instead of " << m->kind);
		if(k == 'f') { std::string c = readFileRaw(p); REQUIRE(c == m->data, << quote(r) << " contains " << hex(c.data(), c.size()) << " instead of " << hex(m->data.data(), m->data.size())); }
		if(k == 'd') compareReal(fs, r, seen);
	}
}
static const char* NAMES[] = {"a", "b", "c.txt", "d", ".h", "\xC3\xA4 b", "e", "\xF0\x9F\x98\x80"};
static const char16_t* UNAMES[] = {u"a", u"b", u"c.txt", u"d", u".h", u"\u00E4 b", u"e", u"\xD83D\xDE00"};
struct P { std::string rel; std::u16string text; };
static P genP(Src& s, const Fs& fs)
{
	P p; size_t n = 1 + s.weighted({5, 4, 2}); std::u16string root = W(fs.root); p.text = root;
	// preferably an existing one
	if(!fs.t.empty() && s.chance(1, 2))
	{
		auto it = fs.t.begin(); std::advance(it, s.choice(fs.t.size() - 1)); p.rel = it->first;
		std::string c; size_t pos = 0; while(true) { size_t e = p.rel.find('/', pos); c = p.rel.substr(pos, e == std::string::npos ? e : e - pos); size_t k = 0; while(k < 8 && c != NAMES[k]) k++; p.text += u'/'; if(k < 8) p.text += UNAMES[k]; else p.text += W(c); if(e == std::string::npos) break; pos = e + 1; }
	}
	else for(size_t i = 0; i < n; i++) { size_t k = s.choice(7); p.rel += (i ? "/" : "") + std::string(NAMES[k]); p.text += u'/'; if(s.chance(1, 10)) p.text += u'/'; p.text += UNAMES[k]; }
	if(s.chance(1, 12)) p.text += u'/'; // the path is normalised
	return p;
}
static bool lt(const std::u16string& a, const std::u16string& b) { return a < b; }
static std::u16string normP(const std::u16string& p) { std::u16string o; for(char16_t c : p) { if(c == '/' && !o.empty() && o.back() == '/') continue; o += c; } if(o.size() > 1 && o.back() == '/') o.pop_back(); return o; }
static void run(Src& s, Ctx& ctx)
{
	Fs fs; fs.root = scratchDir() + "/fs"; ::mkdir(fs.root.c_str(), 0700); clearDir(fs.root);
	size_t ops = s.len(40), done = 0, changes = 0, failures = 0;
	for(size_t k = 0; k < ops; k++)
	{
		P p = genP(s, fs); jm::File f = s.coin() ? jm::File(J(p.text)) : jm::File(jm::File(JA(fs.root)), J(p.text.substr(fs.root.size())));
		Res nf = fs.walk(p.rel, false), fo = fs.walk(p.rel, true); Node* own = nf.err ? nullptr : fs.node(nf.path); bool foRoot = !fo.err && fo.path.empty(); Node* tgt = fo.err ? nullptr : fs.node(fo.path);
		bool parentOk = !nf.err && (Fs::parentOf(nf.path).empty() || (fs.node(Fs::parentOf(nf.path)) && fs.node(Fs::parentOf(nf.path))->kind == 'd'));
		bool foParentOk = !fo.err && (Fs::parentOf(fo.path).empty() || (fs.node(Fs::parentOf(fo.path)) && fs.node(Fs::parentOf(fo.path))->kind == 'd'));
		done++;
		switch(s.weighted({4, 4, 4, 5, 10, 4, 4, 2, 3, 2}))
		{
			case 0: { bool exists = tgt || foRoot; bool want = !exists && !fo.err && foParentOk; NOTE("createNewFile " << p.rel << "\n"); bool r = guarded([&] { return f.createNewFile(); }); REQUIRE_EQ(r, want, << "(createNewFile of " << quote(p.rel) << ")"); if(want) { fs.t[fo.path] = {'f', "", "", {}}; changes++; } else failures++; REQUIRE(!f.isOpen()); break; }
			case 1: { bool want = parentOk && !own; NOTE("makeDirectory " << p.rel << "\n"); bool r = guarded([&] { return f.makeDirectory(); }); REQUIRE_EQ(r, want, << "(makeDirectory of " << quote(p.rel) << ")"); if(want) { fs.t[nf.path] = {'d', "", "", {}}; changes++; } else failures++; break; }
			case 2: { bool want = own && !(own->kind == 'd' && fs.hasChildren(nf.path)); NOTE("remove " << p.rel << "\n"); bool r = guarded([&] { return f.remove(); }); REQUIRE_EQ(r, want, << "(remove of " << quote(p.rel) << ")"); if(want) { fs.t.erase(nf.path); changes++; } else failures++; break; }
			case 3: // rename
			{
				P q = genP(s, fs); Res d = fs.walk(q.rel, false); Node* dn = d.err ? nullptr : fs.node(d.path);
				bool dParent = !d.err && (Fs::parentOf(d.path).empty() || (fs.node(Fs::parentOf(d.path)) && fs.node(Fs::parentOf(d.path))->kind == 'd'));
				bool want = own && dParent, same = want && d.path == nf.path;
				if(want && !same)
				{
					if(own->kind == 'd' && d.path.compare(0, nf.path.size() + 1, nf.path + "/") == 0) want = false;
					else if(dn && own->kind == 'd' && (dn->kind != 'd' || fs.hasChildren(d.path))) want = false;
					else if(dn && own->kind != 'd' && dn->kind == 'd') want = false;
				}
				// a non-directory may be addressed with a separator at its end only in normal form
				NOTE("rename " << p.rel << " to " << quote16(q.text) << "\n");
				bool nonNormal = !q.text.empty() && q.text.back() == '/';
				if(nonNormal && own && own->kind != 'd') { done--; break; } // rename(2) decides about "file/"
				std::u16string before = U16(f.absolutePath());
				bool r = guarded([&] { return f.renameTo(J(q.text)); }); REQUIRE_EQ(r, want, << "(renameTo of " << quote(p.rel) << " to " << quote(q.rel) << ")");
				if(want)
				{
					REQUIRE(U16(f.absolutePath()) == normP(q.text), << "path after renameTo is " << quote16(U16(f.absolutePath())));
					if(!same)
					{
						fs.t.erase(d.path); Tree moved; for(auto it = fs.t.begin(); it != fs.t.end();) { if(it->first == nf.path || it->first.compare(0, nf.path.size() + 1, nf.path + "/") == 0) { moved[d.path + it->first.substr(nf.path.size())] = it->second; it = fs.t.erase(it); } else ++it; }
						fs.t.insert(moved.begin(), moved.end()); changes++;
					}
				}
				else { failures++; REQUIRE(U16(f.absolutePath()) == before, << "a failed renameTo changed the path"); }
				break;
			}
			case 4: // open, read, write, close
			{
				jm::FileMode mode = s.pick({jm::FileMode::kWrite, jm::FileMode::kReadWrite, jm::FileMode::kRead}); const char* mn = mode == jm::FileMode::kRead ? "read" : mode == jm::FileMode::kWrite ? "write" : "read/write";
				if(tgt && tgt->kind == 'p') { done--; break; } // would wait for the other end
				if((tgt && tgt->kind == 'd') || foRoot) { if(mode == jm::FileMode::kRead) { done--; break; } NOTE("open directory " << p.rel << " for " << mn << "\n"); jm::Status st = jm::Status::eOK; bool threw = throwsJm([&] { st = guarded([&] { return f.open(mode); }); }); REQUIRE(threw || st != jm::Status::eOK, << "a directory is opened for " << mn); REQUIRE(!f.isOpen()); failures++; break; }
				bool can = !fo.err && foParentOk && (tgt || mode == jm::FileMode::kWrite);
				int err = fo.err ? fo.err : !foParentOk ? (fs.node(Fs::parentOf(fo.path)) ? ENOTDIR : ENOENT) : ENOENT;
				NOTE("open " << p.rel << " for " << mn << "\n");
				jm::Status st = jm::Status::eError; bool threw = throwsJm([&] { st = guarded([&] { return f.open(mode); }); });
				if(!can)
				{
					failures++; REQUIRE(!f.isOpen(), << "isOpen after a failed open");
					if(err == ENOENT) REQUIRE(!threw && st == jm::Status::eNotFound, << "open of a missing file: status " << (int)st << (threw ? ", exception" : ""));
					else if(err == ENOTDIR) REQUIRE(!threw && st == jm::Status::eNoDirectory, << "open below a file: status " << (int)st << (threw ? ", exception" : ""));
					else REQUIRE(threw || st != jm::Status::eOK);
					break;
				}
				REQUIRE(!threw && st == jm::Status::eOK, << "open for " << mn << " failed with status " << (int)st); REQUIRE(f.isOpen());
				if(!tgt) fs.t[fo.path] = {'f', "", "", {}}; Node& n = fs.t[fo.path]; if(mode == jm::FileMode::kWrite) n.data.clear(); changes++;
				int64_t pos = 0; int last = 0; // 1 read 2 write: a seek is needed in between
				size_t io = s.len(8);
				for(size_t i = 0; i < io; i++)
				{
					REQUIRE_EQ((int64_t)f.position(), pos, << "(position)");
					switch(s.choice(5))
					{
						case 0: case 1:
						{
							if(last == 1 && mode == jm::FileMode::kReadWrite) { f.seek(pos); }
							if(mode == jm::FileMode::kRead) { uint8_t b = 1; REQUIRE_EQ((int64_t)f.write(&b, 1), (int64_t)0, << "(write to a file opened for reading)"); throwsJm([&] { f.close(); }); REQUIRE(!f.isOpen()); REQUIRE(guarded([&] { return f.open(mode); }) == jm::Status::eOK); pos = 0; last = 0; break; }
							std::string d; int64_t r;
							if(s.chance(1, 4)) { std::u16string t = genText(s, 10); d = utf8Ref(t); NOTE("  write text " << quote16(t) << "\n"); r = f.jm::Stream::write(J(t)); }
							else { d = s.chance(1, 15) ? std::string(s.choice(9000), (char)s.byte()) : genBytes(s, 30); NOTE("  write " << d.size() << " bytes\n"); r = f.write((const uint8*)d.data(), (int64)d.size()); }
							REQUIRE_EQ(r, (int64_t)d.size(), << "(bytes written)");
							if(!d.empty()) { if((int64_t)n.data.size() < pos) n.data.resize((size_t)pos, '\0'); if(n.data.size() < (size_t)pos + d.size()) n.data.resize((size_t)pos + d.size()); n.data.replace((size_t)pos, d.size(), d); pos += (int64_t)d.size(); last = 2; }
							break;
						}
						case 2: case 3:
						{
							if(mode == jm::FileMode::kWrite) break;
							if(last == 2) f.seek(pos);
							size_t len = s.chance(1, 10) ? s.choice(12000) : s.choice(40); int64_t w = std::max<int64_t>(0, std::min<int64_t>((int64_t)len, (int64_t)n.data.size() - pos)), r; std::string got(len, '\x5A');
							NOTE("  read " << len << "\n");
							if(s.coin()) { r = f.read((uint8*)got.data(), (int64)len); } else { jm::ByteArray a((int64)len, 0x5A); r = s.coin() ? f.readFully(a, (int64)len) : f.jm::Stream::readFully(a); got.assign((const char*)a.constData(), len); }
							REQUIRE_EQ(r, w, << "(bytes read at " << pos << " of " << n.data.size() << ")"); if(w) REQUIRE(n.data.compare((size_t)pos, (size_t)w, got, 0, (size_t)w) == 0, << "other bytes read");
							for(size_t x = (size_t)w; x < len; x++) REQUIRE(got[x] == '\x5A', << "byte behind the data was changed");
							pos += w; last = 1; break;
						}
						case 4: { int64_t to = (int64_t)s.choice(n.data.size() + 5); NOTE("  seek " << to << "\n"); f.seek(to); pos = to; last = 0; break; }
						case 5: { int64_t o = s.si(-pos - 2, (int64_t)n.data.size() + 5); NOTE("  move " << o << "\n"); bool t2 = throwsJm([&] { f.move(o); }); REQUIRE_EQ(t2, pos + o < 0, << "(move in front of the file)"); if(!t2) { pos += o; last = 0; } else { f.seek(pos); last = 0; } break; }
					}
				}
				f.close(); REQUIRE(!f.isOpen()); REQUIRE_EQ((size_t)f.size(), n.data.size(), << "(size after closing)");
				break;
			}
			case 5: // queries
			{
				NOTE("query " << p.rel << "\n"); char kd = own ? own->kind : '-';
				REQUIRE_EQ(f.exists(), tgt != nullptr || foRoot, << "(exists of " << quote(p.rel) << ")"); REQUIRE_EQ(f.isDirectory(), kd == 'd', << "(isDirectory of " << quote(p.rel) << ")"); REQUIRE_EQ(f.isFile(), kd == 'f', << "(isFile of " << quote(p.rel) << ")");
				REQUIRE_EQ(f.isLink(), kd == 'l', << "(isLink of " << quote(p.rel) << ")"); REQUIRE_EQ(f.isPipe(), kd == 'p', << "(isPipe of " << quote(p.rel) << ")");
				if(!tgt && !foRoot) { REQUIRE_EQ((int64_t)f.size(), (int64_t)0, << "(size of a missing file)"); REQUIRE(!f.canRead() && !f.canWrite() && !f.canExecute(), << "access to a missing file"); failures++; }
				else if(tgt && tgt->kind == 'f') REQUIRE_EQ((size_t)f.size(), tgt->data.size(), << "(size of " << quote(p.rel) << ")");
				if(tgt && tgt->kind == 'f') { std::string real = fs.root + "/" + fo.path; chmod(real.c_str(), 0600); REQUIRE(f.canRead() && f.canWrite() && !f.canExecute(), << "access rights"); chmod(real.c_str(), 0700); REQUIRE(f.canExecute(), << "canExecute"); chmod(real.c_str(), 0600); }
				if(own) { int64_t ms = (int64_t)s.choice(4000000000000ull) ; struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = ms / 1000; ts[0].tv_nsec = 0; ts[1].tv_nsec = (ms % 1000) * 1000000 + (long)s.choice(999999); std::string real = fs.root + "/" + nf.path; if(utimensat(AT_FDCWD, real.c_str(), ts, AT_SYMLINK_NOFOLLOW) == 0) REQUIRE_EQ((int64_t)f.lastModified().time(), ms, << "(lastModified)"); }
				{ P q = genP(s, fs); jm::File g(J(q.text)); Res gr = fs.walk(q.rel, false); bool gd = !gr.err && fs.node(gr.path) && fs.node(gr.path)->kind == 'd'; bool fd = kd == 'd'; std::u16string a = normP(p.text), b = normP(q.text); int want = fd != gd ? (fd ? -1 : 1) : lt(a, b) ? -1 : lt(b, a) ? 1 : 0; int r = f.compareTo(g); REQUIRE_EQ(r < 0 ? -1 : r > 0 ? 1 : 0, want, << "(compareTo)"); }
				break;
			}
			case 6: // list
			{
				bool top = s.chance(1, 3); std::string rel = top ? "" : nf.path; jm::File d = top ? jm::File(JA(fs.root)) : f; if(top || (own && own->kind == 'd')) if(size_t many = longLen(s, 1100, 40)) { NOTE(many << " files are made in " << rel << "\n"); for(size_t i = 0; i < many; i++) { std::string nm = (rel.empty() ? "" : rel + "/") + "file" + std::to_string(i); std::ofstream(fs.root + "/" + nm) << i; if(!fs.t.count(nm)) fs.t[nm] = {'f', "", "", {}}; fs.t[nm].data = std::to_string(i); } ctx.label("many files"); } NOTE("list " << (top ? "the root" : p.rel) << "\n");
				jm::Array<jm::File>* l = d.listFiles();
				if(!top && !(own && own->kind == 'd')) { REQUIRE(l == nullptr, << "a list of " << quote(p.rel) << ", which is no directory"); failures++; break; }
				REQUIRE(l != nullptr); std::multiset<std::string> want, got; for(auto& e : fs.t) if(Fs::parentOf(e.first) == rel) want.insert(rel.empty() ? e.first : e.first.substr(rel.size() + 1));
				for(int64 i = 0; i < (int64)l->size(); i++) { jm::File e = l->get(i); std::string nm = utf8Ref(U16(e.name())); if(nm == "." || nm == "..") continue; got.insert(nm); REQUIRE(U16(e.parent()) == U16(d.absolutePath()), << "parent of a listed file is " << quote16(U16(e.parent()))); REQUIRE(!e.isOpen()); }
				REQUIRE(got == want, << "the list of " << (top ? "the root" : quote(p.rel)) << " has " << got.size() << " instead of " << want.size() << " files"); delete l; ctx.label("list"); break;
			}
			case 7: // links and pipes are made from outside
			{
				if(!parentOk || own) { done--; break; } std::string real = fs.root + "/" + nf.path;
				if(s.chance(1, 4)) { NOTE("mkfifo " << p.rel << "\n"); if(mkfifo(real.c_str(), 0600) == 0) fs.t[nf.path] = {'p', "", "", {}}; }
				else { P q = genP(s, fs); NOTE("symlink " << p.rel << " to " << q.rel << "\n"); if(symlink((fs.root + "/" + q.rel).c_str(), real.c_str()) == 0) { fs.t[nf.path] = {'l', "", q.rel, {}}; ctx.label("link"); } }
				break;
			}
			case 8: // tags
			{
				if(!gTags || !tgt || (tgt->kind != 'f' && tgt->kind != 'd')) { done--; break; }
				std::u16string tag; size_t tl = 1 + (s.chance(1, 10) ? s.choice(1500) : s.choice(5)); for(size_t i = 0; i < tl; i++) { char16_t c = tl > 10 ? (char16_t)('a' + i % 26) : genChar(s); tag += c == ',' ? u'x' : c; if(s.choice(40) == 19) tag += genPair(s); } if(!tgt->tags.empty() && s.coin()) tag = s.pick(tgt->tags);
				auto& v = tgt->tags; auto at = std::find(v.begin(), v.end(), tag); bool add = s.weighted({2, 1}) == 0; NOTE((add ? "addTag " : "removeTag ") << quote16(tag) << " of " << p.rel << "\n");
				jm::Status st = guarded([&] { return add ? f.addTag(J(tag)) : f.removeTag(J(tag)); });
				if(st == jm::Status::eOK) { if(add && at == v.end()) v.push_back(tag); if(!add && at != v.end()) v.erase(at); changes++; } else { ctx.label("tags-refused"); size_t len = 0; for(auto& x : v) len += utf8Ref(x).size() + 1; REQUIRE(len > 1500, << "the tags are not stored: status " << (int)st); }
				jm::StringList l = f.getTags(); std::multiset<std::u16string> want(v.begin(), v.end()), got; for(int64 i = 0; i < (int64)l.size(); i++) got.insert(U16(l[i])); REQUIRE(got == want, << "getTags gives " << got.size() << " tags instead of " << want.size()); ctx.label("tags"); break;
			}
			case 9: { size_t seen = 0; compareReal(fs, "", seen); REQUIRE_EQ(seen, fs.t.size(), << "(files that exist)"); break; }
		}
	}
	size_t seen = 0; compareReal(fs, "", seen); REQUIRE_EQ(seen, fs.t.size(), << "(files that exist at the end)");
	if(changes) ctx.label("changes"); if(failures) ctx.label("failing-operations");
	if(changes > 2 && done > 5) ctx.nontrivial();
}
static void init()
{
	jmInit(); std::string p = scratchDir() + "/xa"; writeFileRaw(p, ""); gTags = ::setxattr(p.c_str(), "user.xdg.tags", "a", 1, 0) == 0; unlink(p.c_str());
}
const Def& pbt::definition()
{
	static Def d{"P20", "up to 40 operations (create, make directory, remove, rename, open in all modes with reads, writes, seeks and moves, queries, list, tags) on a tree of up to three levels with directories, files, links (also dangling and to directories) and pipes, in a scratch directory; results, contents, kinds, sizes, times and listings are compared with a model file system, the real tree is compared at random times and at the end. All calls that change files are stand-ins that refuse paths outside the scratch directory. Non-trivial: more than five operations with at least three changes; distinct by choices.", 40000, 1500000, init, run};
	d.assumptions = {"POSIX semantics of rename(2), open(2) and symbolic links are the model", "reading and writing alternate only with a seek in between (C standard)", "the check runs as root or as the owner, so access rights are those of the owner", "tags are only checked where the file system stores user attributes"};
	return d;
}
