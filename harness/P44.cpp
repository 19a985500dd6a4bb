// P44: memory and files are given back
#include "zip_ref.hpp"
#include "history.hpp"
#include "core/Property.h"
#include "core/Document.h"
#include "core/Thread.h"
#include <dirent.h>
#include <iostream>
#include <sys/stat.h>
using namespace jm;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace
{
struct Mute { std::ostringstream o; std::streambuf *a, *b; Mute() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(o.rdbuf()); } ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
int openFiles() { int n = 0; DIR* d = opendir("/proc/self/fd"); if(!d) return 0; while(readdir(d)) n++; closedir(d); return n; }
String txt(Src& s, size_t max = 12) { return J(genText(s, max)); }
std::string gPath;
// Every part runs a history of operations; everything it creates is given back by the documented means at its end.
void strings(Src& s)
{
	std::vector<String> v(3); size_t n = 1 + s.len(20); StringList l;
	for(size_t i = 0; i < n; i++)
	{
		String& a = v[s.choice(2)]; String& b = v[s.choice(2)];
		switch(s.choice(32))
		{
			case 0: a = txt(s, 40); break;
			case 1: a = b; break;
			case 2: a.append(b); if(a.size() > 2000) a.clear(); break;
			case 3: a += txt(s); break;
			case 4: a = a.replace(txt(s, 2), b); if(a.size() > 2000) a.clear(); break;
			case 5: a = a.toUpperCase().toLowerCase().trim().reverse(); break;
			case 6: l = a.split(Char(' ')); break;
			case 7: l.append(a); break;
			case 8: { StringList k(l); k << b; k.sort(); a = k.join(Char(',')); if(a.size() > 2000) a.clear(); break; }
			case 9: l.remove(a); break;
			case 10: l.clear(); break;
			case 11: { StringTokenizer t(a, txt(s, 2), s.coin()); while(t.hasNext()) b = t.next(); break; }
			case 12: { ByteArray c = a.toCString(); b = String(c); String e(c.constData()); break; }
			case 13: { uint16* w = a.toWString(); delete[] w; break; }
			case 14: a = String::valueOf(s.anyInt64()); b = String::valueOf(s.real(-1e9, 1e9)); break;
			case 15: a = String("%1 and %2").arg(b).arg((int64)s.choice(100), 5); break;
			case 16: a = URLEncode(b); if(a.size() > 2000) a.clear(); break;
			case 17: a = URLDecode(b); break;
			case 18: { Charset* c = Charset::forName(s.pick({"UTF-8", "UTF-16BE", "UTF-16LE", "Windows-1252", "MacRoman"})); if(c == nullptr) break; ByteArray d = a.toCString(c); String e(d, c); break; }
			case 19: a.insert(s.choice(a.size() + 2), b); if(a.size() > 2000) a.clear(); break;
			case 20: a.deleteCharRangeAt(s.si(0, 5), s.choice(4)); break;
			case 21: a.setCharAt(s.choice(9), Char('x')); break;
			case 22: a = a.substring(s.choice(9), s.choice(9)); break;
			case 23: (void)a.toInt(); break;
			case 24: (void)a.toDouble(); break;
			case 25: (void)l.get(s.choice(4)); break;
			case 26: l.set(s.choice(4), a); break;
			case 27: { std::stringstream o; o << a; o >> b; break; }
			case 28: { StringList k(s.choice(9)); l = k; break; }
			case 29: { CharArray c((int64)s.choice(9)), d(c); c = d; d = CharArray(); break; }
			case 30: { String* h = new String(a); h->retain()->autorelease(); h->release(); break; }
			case 31: // bytes of any encoding, some of which announce another one
			{
				std::string y = std::string(s.pick({"", "\xfe\xff", "\xff\xfe", "\xef\xbb\xbf"})) + genBytes(s, 9); Charset* c = s.coin() ? nullptr : Charset::forName(s.pick({"UTF-8", "UTF-16", "UTF-16BE", "Windows-1252", "RAW"}));
				throwsJm([&] { switch(s.choice(2)) { case 0: a = c ? String(y.data(), (int64)y.size(), c) : String(y.data(), (int64)y.size()); break; case 1: { ByteArray d((int64)y.size(), 0); for(size_t q = 0; q < y.size(); q++) d[(int64)q] = y[q]; a = c ? String(d, c) : String(d); break; } default: y += std::string(3, 0); a = c ? String(y.c_str(), c) : String(y.c_str()); } });
				break;
			}
			default: a.zero(); b.clear();
		}
	}
}
struct Cmp : Object, Comparable<Cmp> { int k; explicit Cmp(int i = 0): k(i) {} int32 compareTo(const Cmp& o) const override { return k - o.k; } };
void containers(Src& s)
{
	int what = (int)s.choice(3); size_t n = 1 + s.len(60);
	if(what == 0)
	{
		Hashtable t; static String val[4];
		for(size_t i = 0; i < n; i++) switch(s.choice(7))
		{
			case 0: case 1: case 2: t.put(txt(s, 2), &val[s.choice(3)]); break;
			case 3: t.remove(txt(s, 2)); break;
			case 4: { Iterator* it = s.coin() ? t.keys() : t.values(); size_t m = s.choice(5); while(it->hasNext() && m--) it->next(); delete it; break; }
			case 5: (void)t.get(txt(s, 2)); break;
			case 6: if(s.coin()) t.containsValue(&val[0]); else { Hashtable u(t); if(s.coin()) u.put(txt(s, 2), &val[1]); if(s.coin()) t = u; else { u = t; u.remove(txt(s, 1)); } } break;
			default: if(s.chance(1, 4)) t.clear();
		}
	}
	else if(what == 1)
	{
		Object owner; LinkedList* l = new LinkedList(&owner); std::vector<Object*> in; bool withUm = s.coin(); UndoManager* um = withUm ? new UndoManager() : nullptr;
		for(size_t i = 0; i < n; i++) switch(s.choice(8))
		{
			case 0: case 1: case 2: { Object* o = new Object(); in.push_back(o); l->add(o, um); break; }
			case 3: if(in.size()) { Object* o = new Object(); l->addBefore(in[s.choice(in.size() - 1)], o, um); in.push_back(o); } break;
			case 4: if(in.size()) l->remove(in[s.choice(in.size() - 1)], um); break;
			case 5: if(in.size()) l->swapData(in[s.choice(in.size() - 1)], in[s.choice(in.size() - 1)], um); break;
			case 6: { LinkedListIterator it = l->iterator(), j(it); j = it; while(j.hasNext()) j.next(); LinkedList k(*l); if(in.size()) k.remove(in[s.choice(in.size() - 1)], (UndoManager*)nullptr); if(s.coin()) k = *l; if(!withUm && s.coin()) *l = k; break; }
			case 7: if(um) { um->close(); if(s.coin()) um->undo(); else um->redo(); } break;
			default: if(s.chance(1, 4)) l->clear(um);
		}
		if(um) { l->clear(um); um->close(); um->clearStacks(); um->release(); }
		l->release(); for(auto o : in) o->release();
	}
	else if(what == 2)
	{
		Array<String> a((int64)s.choice(9)), b; Array<Cmp> c((int64)s.choice(9)); Cmp cmps[4] = {Cmp(3), Cmp(1), Cmp(2), Cmp(1)}; Array<Cmp*> pa((uint32)4), pb(pa); for(uint32 q = 0; q < 4; q++) pa.set(q, &cmps[q]); FloatArray f(3), g;
		for(size_t i = 0; i < n; i++) switch(s.choice(6))
		{
			case 0: a.set((int64)s.choice(9), txt(s)); break;
			case 1: b = a; break;
			case 2: a = Array<String>((int64)s.choice(9)); break;
			case 3: a.sort(); break;
			case 4: if(s.coin()) { pa.sort(); pb = pa; Array<Cmp*> e((uint32)s.choice(5)); } else c.sort(); break;
			case 5: { Array<String> d(b); (void)d.get((int64)s.choice(3)); break; }
			default: g = f; f = FloatArray((uint32)s.choice(5));
		}
	}
	else
	{
		Stack<String> t;
		for(size_t i = 0; i < n; i++) switch(s.choice(6))
		{
			case 0: case 1: case 2: t.push(txt(s)); break;
			case 3: if(t.hasElements()) t.pop(); break;
			case 4: t.reverse(); break;
			case 5: (void)t.top2(); break;
			default: if(s.chance(1, 4)) t.clear(); else (void)t.top3();
		}
	}
}
void bytes(Src& s)
{
	std::vector<ByteArray> v(2); size_t n = 1 + s.len(15); uint8_t* m = new uint8_t[64](); std::unique_ptr<MemoryStream> ms(new MemoryStream(m, 64, true)); ByteArray buf(16, 0);
	for(size_t i = 0; i < n; i++)
	{
		ByteArray& a = v[s.choice(1)]; ByteArray& b = v[s.choice(1)];
		switch(s.choice(13))
		{
			case 0: { std::string d = genBytes(s, 50); a = ByteArray((const uint8*)d.data(), (int64)d.size()); break; }
			case 1: a = b; break;
			case 2: a = ByteArray((int64)s.choice(20), s.byte()); break;
			case 3: a.resize((int64)s.choice(100)); break;
			case 4: a.sort(); a.fill(3); break;
			case 5: { int64 n = std::min(a.size(), b.size()); if(n) { int64 l = (int64)s.choice((size_t)n); a.replace(a.size() - n, b.size() - n, b, l); } break; }
			case 6: if(a.size()) (void)a.get((int64)s.choice((size_t)a.size() - 1)); break;
			case 7: { int64 len = a.size(); if(len == 0) break; uint8* e = Base64::encode((const uint8*)a.constData(), len); uint32 l2 = (uint32)len; uint8* d = nullptr; try { d = Base64::decode(e, l2); } catch(...) { delete[] e; throw; } delete[] d; delete[] e; break; }
			case 8: { std::string d = genBytes(s, 20); ExactBuf x(d); uint32 l = (uint32)d.size(); uint8* r = Base64::decode(x.p, l); delete[] r; break; }
			case 9: ms->seek(s.choice(70)); ms->write((const uint8*)"abcdefgh", s.choice(8)); break;
			case 10: ms->readFully(buf, (int64)s.choice(16)); break;
			case 11: if(s.chance(1, 4)) { uint8_t* q = new uint8_t[8](); ms.reset(new MemoryStream(q, 8, true)); } break;
			case 12: { uint8_t q[8] = {}; MemoryStream w(q, 8); w.write((const uint8*)"ab", 2); break; }
			default: a = ByteArray({1, 2, 3}); b = ByteArray(a);
		}
	}
}
void packing(Src& s)
{
	std::string d = genData(s, s.chance(1, 8) ? 70000 : 2000), z; std::string how; int kind = (int)s.choice(3);
	if(kind == 0) { Deflater def; size_t r = 1 + s.choice(2); for(size_t i = 0; i < r; i++) { ExactBuf in(d); uint8* out = nullptr; int64 n = 0; def.setInput(in.p, (int64)d.size()); def.deflate(out, n); z.assign((char*)out, (size_t)n); delete[] out; if(s.coin()) def.reset(); } }
	else { std::ostringstream o; std::set<std::string> f; if(kind == 1) z = zStream(s, d, false, how); else { std::string want; z = dfl::zlibWrap(dfl::assemble(s, want, o, f), want, s); } }
	size_t cuts = s.choice(2); for(size_t i = 0; i < cuts && z.size(); i++) { size_t at = s.choice(z.size() - 1); if(s.coin()) z.resize(at); else z[at] = (char)s.byte(); }
	Inflater* inf = new Inflater(); size_t rounds = 1 + s.choice(2);
	for(size_t i = 0; i < rounds; i++)
	{
		ExactBuf in(z); uint8* p = nullptr; int64 n = 0; inf->SetInput(in.p, (int64)z.size());
		if(!throwsJm([&] { inf->Inflate(p, n); })) delete[] p;
		if(s.coin()) inf->Reset();
	}
	inf->release();
}
void archives(Src& s)
{
	std::string path = gPath + "/a.zip", src = gPath + "/member"; size_t n = s.choice(3);
	{
		File f(JA(path)); ZipOutputFile z(&f); z.open(); std::vector<ZipEntry*> e;
		for(size_t i = 0; i < n; i++)
		{
			e.push_back(new ZipEntry(J(genName(s)))); z.putNextEntry(e.back()); std::string d = genData(s, 300);
			if(s.chance(1, 3)) { writeFileRaw(src, d); File sf(JA(src)); z.writeAndClose(&sf); }
			else { ExactBuf b(d); size_t w = s.choice(2); for(size_t k = 0; k < w; k++) z.write(b.p, 0, (int64)d.size()); z.closeEntry(); }
		}
		z.close(); for(auto x : e) x->release();
	}
	std::string d = readFileRaw(path); size_t cuts = s.choice(3);
	for(size_t i = 0; i < cuts && d.size(); i++) { size_t at = s.choice(d.size() - 1); switch(s.choice(2)) { case 0: d.resize(at); break; case 1: d[at] = (char)s.byte(); break; default: d.insert(at, genBytes(s, 5)); } }
	bool file = s.coin(); if(file) writeFileRaw(path, d);
	ExactBuf b(d); MemoryStream ms(b.p, (int64)d.size()); File f(JA(path)); ZipFile* z = new ZipFile(file ? (Stream*)&f : &ms); bool closes = s.coin();
	if(!throwsJm([&] { z->open(); }))
	{
		LinkedListIterator it = z->entryIterator(); size_t k = 0;
		while(it.hasNext() && k++ < 20) { ZipEntry* e = static_cast<ZipEntry*>(it.next()); Stream* st = nullptr; throwsJm([&] { st = z->stream(e); }); if(st) { uint8_t buf[10]; st->read(buf, 10); delete st; } }
		if(s.coin()) { z->close(); throwsJm([&] { z->open(); }); }
	}
	if(closes) z->close(); z->release(); if(f.isOpen()) f.close();
}
void files(Src& s)
{
	std::string dir = gPath + "/d"; mkdir(dir.c_str(), 0700); std::vector<std::string> names = {dir + "/a", dir + "/b.txt", dir + "/sub/c", dir + "/sub"}; size_t n = 1 + s.len(15); std::unique_ptr<File> f(new File(JA(names[0]))); GuardOn g;
	for(size_t i = 0; i < n; i++) throwsJm([&]
	{
		switch(s.choice(14))
		{
			case 0: f->close(); f.reset(new File(JA(s.pick(names)))); break;
			case 1: f->close(); f->open(s.pick({FileMode::kRead, FileMode::kWrite, FileMode::kReadWrite})); break;
			case 2: f->close(); break;
			case 3: if(f->isOpen()) f->write((const uint8*)"hello", 5); break;
			case 4: if(f->isOpen()) { ByteArray b(20, 0); f->readFully(b, 20); break; }
			case 5: { Array<File>* a = File(JA(dir)).listFiles(); delete a; break; }
			case 6: { File c(*f); File e; e = c; e = *f; File h = *f; if(s.coin()) { f->close(); } else { *f = e; } break; }
			case 7: f->close(); *f = File(JA(s.pick(names))); break;
			case 8: File(JA(s.pick(names))).makeDirectory(); break;
			case 9: { f->addTag(txt(s, 3)); StringList t = f->getTags(); f->removeTag(txt(s, 3)); break; }
			case 10: f->name(); f->parent(); f->extension(); f->path(); f->exists(); f->size(); f->lastModified(); break;
			case 11: f->renameTo(JA(s.pick(names))); break;
			case 12: f->remove(); break;
			case 13: f->createNewFile(); break;
			default: if(f->isOpen()) { f->seek(2); f->move(1); f->position(); }
		}
	});
	f->close(); f.reset(); clearDir(dir); rmdir(dir.c_str());
}
void settings(Src& s)
{
	std::string path = gPath + "/p.properties"; Preferences* p = new Preferences(); size_t n = s.len(12); File f(JA(path)); struct Give { Preferences*& p; ~Give() { p->release(); } } give{p};
	for(size_t i = 0; i < n; i++) switch(s.choice(8))
	{
		case 0: p->setValue(txt(s, 3), txt(s, 9)); break;
		case 1: p->setValue(txt(s, 2), s.anyInt64()); break;
		case 2: p->setValue(txt(s, 2), s.real(-9, 9)); break;
		case 3: p->setValue(txt(s, 2), s.coin()); break;
		case 4: p->save(f); break;
		case 5: { std::string d = s.coin() ? genBytes(s, 60) : utf8Ref(genText(s, 60)); for(auto& c : d) if(s.chance(1, 6)) c = s.pick({'=', '\n', '\\', '#', ':'}); writeFileRaw(path, d); break; }
		case 6: p->load(f); break;
		case 7: p->value(txt(s, 2)); p->valueInt(txt(s, 1), 3); p->valueDouble(txt(s, 1), 3); p->valueBool(txt(s, 1), true); break;
		default: switch(s.choice(2)) { case 0: p->clear(); break; case 1: p->release(); p = new Preferences(); break; default: Preferences q(*p), r; r.setValue(txt(s, 2), true); r = q; *p = r; }
	}
	unlink(path.c_str());
}
struct Sax : SAXParser { int n = 0; SAXAttributes keep; void startElement(const String&, const String&, const String&, const SAXAttributes& a) override { n++; keep = a; SAXAttributes b(a); } };
void xml(Src& s)
{
	std::string path = gPath + "/x.xml"; size_t n = s.len(12); std::string doc;
	{
		File f(JA(path)); XMLWriter w(&f); w.startDocument(); int depth = 0;
		for(size_t i = 0; i < n; i++) switch(s.choice(5))
		{
			case 0: case 1: w.startElement(String::valueOf((int64)s.choice(9))); depth++; break;
			case 2: if(depth) w.writeAttribute("a", txt(s)); break;
			case 3: if(depth) w.writeCData(txt(s)); break;
			case 4: if(depth) { ByteArray b((int64)s.choice(9), 7); w.WriteBase64((uint8*)b.data(), b.size()); } break;
			default: if(depth && (depth > 1 || i + 1 == n)) { w.endElement(); depth--; }
		}
		if(s.coin()) while(depth-- > 0) w.endElement();
		w.endDocument(); f.close();
	}
	doc = readFileRaw(path); size_t cuts = s.choice(3);
	for(size_t i = 0; i < cuts && doc.size(); i++) { size_t at = s.choice(doc.size() - 1); switch(s.choice(2)) { case 0: doc.resize(at); break; case 1: doc[at] = s.pick({'<', '>', '&', '"', '/', '!', ' ', 'a'}); break; default: doc.insert(at, s.pick({"<!-- x -->", "<![CDATA[y]]>", "<?p i?>", "&amp;", "&#x41;", "<a b='c'>", "</a>"})); } }
	Sax p; if(s.coin()) { writeFileRaw(path, doc); File f(JA(path)); throwsJm([&] { p.parse(f); }); } else throwsJm([&] { p.parse(String(doc.data(), (int64)doc.size())); });
	unlink(path.c_str());
}
struct Doc : Document { bool saveDocument() override { return true; } bool loadDocument() override { return true; } Status initNewDocument(Preferences*) override { return Status::eOK; } };
struct Part : Object {};
struct Obj : EditableObject
{
	int64 i = 0; String t; double d = 0; Date date; Color col; Vertex3 v; Part* part = nullptr; uint8* buf = nullptr; explicit Obj(Document* o): EditableObject(o) {}
	~Obj() override { if(part) part->release(); }
};
void documents(Src& s)
{
	Doc* doc = new Doc(); Obj* o = new Obj(doc); size_t n = 1 + s.len(40); int level = 0;
	for(size_t k = 0; k < n; k++)
	{
		UndoManager* u = doc->undoManager();
		switch(s.choice(12))
		{
			case 0: o->setMember(&o->i, (int64)s.choice(5)); break;
			case 1: o->setMember(&o->t, txt(s, 9)); break;
			case 2: o->setMember(&o->v, Vertex3((double)s.choice(3), 1, 2)); break;
			case 3: if(u) u->registerChange(o, &o->date); o->date = Date((int64)s.choice(100000)); break;
			case 4: if(u) u->registerChange(o, &o->col); o->col = Color::fromRgb(s.byte(), 2, 3); break;
			case 5: if(u) { u->registerChange(o, (Object**)&o->part); if(o->part) { u->registerRelease(o->part); o->part->release(); o->part = nullptr; } if(s.coin()) { o->part = new Part(); u->registerRetain(o->part); } } break;
			case 6: if(!level) doc->closeUndoStep(); break;
			case 7: if(u && !level) u->undo(); break;
			case 8: if(u && !level) u->redo(); break;
			case 9: if(u) { if(level && s.coin()) { if(s.chance(1, 3)) u->registerTransactionStatus(Status::eInvalidInput); o->closeTransaction(); level--; } else { o->openTransaction(); level++; } } break;
			case 10: if(!level) doc->setUndoManager(s.coin()); break;
			case 11: doc->setFile(File(JA(s.pick({"/a/b", "c"})))); doc->regenerate(); break;
			default: if(u && !level) { switch(s.choice(2)) { case 0: u->clearUndoStack(); break; case 1: u->clearRedoStack(); break; default: u->clearStacks(); } }
		}
	}
	if(!s.chance(1, 6)) while(level-- > 0) o->closeTransaction(); // otherwise the manager goes with the open transaction
	if(doc->undoManager()) { doc->undoManager()->close(); doc->undoManager()->clearStacks(); }
	o->release(); doc->release();
}
void properties(Src& s)
{
	size_t n = 1 + s.len(10); Property p("x"), q; Variant a, b;
	for(size_t i = 0; i < n; i++) switch(s.choice(7))
	{
		case 0: p.setStringValue(txt(s)); break;
		case 1: p.setType(s.pick({PropertyType::kString, PropertyType::kInteger, PropertyType::kDouble, PropertyType::kBoolean})); break;
		case 2: q = p; break;
		case 3: q.setValue(p); break;
		case 4: p.setIcon(txt(s)); break;
		case 5: p.setUnitValue(s.real(0, 9), "mm"); break;
		case 6: { Property r(q); p = r; break; }
		default: a = b; (void)(p == q);
	}
}
struct Elem : Object { int c; explicit Elem(int i): c(i) {} bool equals(const Object* o) const override { auto e = dynamic_cast<const Elem*>(o); return e && e->c == c; } };
void differences(Src& s)
{
	Mute m; std::vector<Elem*> e; DiffDistance dd; size_t r = 1 + s.choice(1);
	for(size_t k = 0; k < r; k++) { if(k) dd.clear(); for(int side = 0; side < 2; side++) { size_t n = s.len(12); for(size_t i = 0; i < n; i++) { e.push_back(new Elem((int)s.choice(3))); if(side) dd.addV(e.back()); else dd.addU(e.back()); } } if(s.chance(1, 5)) continue; DiffBacktrace* b = dd.solve(); if(s.coin()) b->print(); delete b; }
	dd.clear(); for(auto x : e) x->release();
}
void numbers(Src& s)
{
	size_t n = 1 + s.len(15); Matrix m((int64)1 + (int64)s.choice(3), (int64)1 + (int64)s.choice(3)); Matrix k; Vector v(3), w(3); m.zeros();
	for(size_t i = 0; i < n; i++) switch(s.choice(12))
	{
		case 0: if(m.m && m.n) m.set((int64)s.choice((size_t)m.m - 1), (int64)s.choice((size_t)m.n - 1), s.grid(-9, 9, 2)); break;
		case 1: k = m; break;
		case 2: m = Matrix((int64)1 + (int64)s.choice(3), (int64)1 + (int64)s.choice(3)); m.zeros(); break;
		case 3: m.transpose(); break;
		case 4: m.inverse(); break;
		case 5: { double d = 0; m.det(d); break; }
		case 6: { Matrix e(3, 3); e.zeros(); for(int i = 0; i < 3; i++) for(int j = 0; j <= i; j++) { double x = s.grid(-3, 3, 1); e.set(i, j, x); e.set(j, i, x); } v = e.eigen(); w = v; break; }
		case 7: if(m.n == k.m) k = m * k; else { k = Matrix(m.n, 2); k.zeros(); } break;
		case 8: if(m.m == k.m && m.n == k.n) { k = m + k; k = k - m; } else k = m; break;
		case 9: m.insert(k); m.zeros(); break;
		case 10: { Vector x(v); w = x; x = v + w; w = 2.0 * v; (void)v.dotProduct(w); break; }
		case 11: { uint32 p = 1 + (uint32)s.choice(2), c = p + 1 + (uint32)s.choice(3); std::vector<Vertex3> pt(c, Vertex3(1, 2, 3)); std::vector<double> kn; for(uint32 j = 0; j < c + p + 1; j++) kn.push_back(j <= p ? 0 : j >= c ? c : j); std::vector<double> we(c, 1.0); Nurbs* u = new Nurbs(p, pt.data(), c, kn.data(), (uint32)kn.size(), we.data(), c); u->point(0.5); { Nurbs w(*u); Nurbs x; x = w; if(s.coin()) x = *u; if(s.coin()) *u = x; } u->release(); break; }
		default: switch(s.choice(3)) { case 0: m.initIdentity(); break; case 1: m.initRotation(Vertex3(0, 0, 0), Vertex3(0, 0, 1), 1); break; case 2: m.initMoving(Vertex3(1, 2, 3)); break; default: m.initScaling(Vertex3(1, 2, 3)); }
	}
}
void dates(Src& s)
{
	Date d((int64)s.si(-100000000000ll, 4000000000000ll)); Date e(d); e = d; d.toString(); DateFormatter f(txt(s, 8)); f.format(d); DateFormatter g(s.pick({"yyyy-MM-dd", "'x", "dd.MM.yy HH:mm:ss", "EEEE MMMM"})); g.format(e); Date now; (void)now.year();
}
struct Task : Thread { int n = 0; Mutex* m; bool autop; explicit Task(Mutex* x, bool a): m(x), autop(a) {} void run() override { for(int i = 0; i < 3; i++) { m->lock(); n++; m->unlock(); if(autop) (new String("x"))->autorelease(); } } };
void threads(Src& s)
{
	Mutex* m = new Mutex(); std::vector<Task*> t; size_t n = 1 + s.choice(2);
	for(size_t i = 0; i < n; i++) { t.push_back(new Task(m, s.coin())); if(s.coin()) t.back()->setName(txt(s, 4)); if(s.chance(5, 6)) t.back()->start(); }
	for(auto x : t) x->interrupt();
	for(auto x : t) x->release(); delete m;
	AutoreleasePool* p = new AutoreleasePool(); if(s.coin()) p->drain(); p->release();
}
struct TC : Test { bool f; explicit TC(bool x): f(x) { setName("n"); } void doTest() override { testEquals((int64)1, (int64)1, "no"); if(f) throw Exception("x"); } };
void miscellaneous(Src& s)
{
	switch(s.choice(4))
	{
		case 3: { Mute m; Resource a("none"), b("none2"), c(a); if(s.coin()) b = a; if(s.coin()) c = b; c = c; Resource d = I18nBundle::transFileByBundleId(txt(s, 3), "de-DE"); (void)d.exists(); (void)b.open(FileMode::kRead); break; }
		case 0: { I18nBundle* b = new I18nBundle("de"); std::string f = genBytes(s, 60); if(s.coin()) { f = std::string("\xde\x12\x04\x95\0\0\0\0\1\0\0\0\x1c\0\0\0\x24\0\0\0\0\0\0\0\0\0\0\0\1\0\0\0\x2c\0\0\0\1\0\0\0\x2e\0\0\0a\0b\0", 48); size_t cuts = s.choice(2); for(size_t i = 0; i < cuts; i++) f[s.choice(f.size() - 1)] = (char)s.byte(); }
			ExactBuf e(f); MemoryStream m(e.p, (int64)f.size()); throwsJm([&] { b->appendMo(&m); if(s.coin()) b->appendMo(&m); }); b->translate("a"); b->release(); break; }
		case 1: { Mute m; const char* a[] = {"t"}; TestVector* v = new TestVector(1, a); size_t n = s.choice(3); for(size_t i = 0; i < n; i++) v->addTest(new TC(s.chance(1, 3))); if(s.coin()) v->execute(); delete v; break; }
		case 2: { Mute m; for(int i = 0; i < 3; i++) System::log(txt(s), s.pick({LogLevel::kDebug, LogLevel::kInformation, LogLevel::kWarning, LogLevel::kError})); break; }
		default: { Exception* e = new Exception(txt(s)); Exception f(*e); e->errorMessage(); f = *e; e->release(); try { throw Exception(txt(s)); } catch(Exception& x) { Exception y(x); } }
	}
}
struct Area { const char* name; void (*f)(Src&); };
const Area AREAS[] = {{"strings", strings}, {"containers", containers}, {"bytes", bytes}, {"packing", packing}, {"archives", archives}, {"files", files}, {"settings", settings}, {"xml", xml}, {"documents", documents}, {"properties", properties}, {"differences", differences}, {"numbers", numbers}, {"dates", dates}, {"threads", threads}, {"miscellaneous", miscellaneous}};
std::string gWhat;
bool perform(const Area& a, Src& s)
{
	bool threw = false;
	try { a.f(s); } catch(Exception& e) { threw = true; gWhat = A(e.errorMessage()); } catch(Exception* e) { threw = true; e->release(); }
	System::autoreleasePool()->drain(); return threw;
}
}
static void run(Src& s, Ctx& ctx)
{
	gPath = scratchDir(); const Area& a = AREAS[s.choice(sizeof AREAS / sizeof *AREAS - 1)];
	size_t from = *s.recLen; bool threw = perform(a, s); std::vector<Choice> tape(s.rec + from, s.rec + *s.recLen), rec(tape.size() + 16);
	NOTE(a.name << ": " << tape.size() << " decisions" << (threw ? std::string(", ended by an exception: ") + gWhat : "") << "\n");
	if(s.exhausted()) return;
	// the same history again: what it keeps is kept for each repetition
	int64_t grown[4] = {}; int files0 = openFiles(), files1 = 0;
	for(int k = 0; k < 4; k++)
	{
		Src r; size_t at = 0; r.mode = Src::REPLAY; r.script = tape.data(); r.scriptLen = tape.size(); r.rec = rec.data(); r.recLen = &at;
		size_t before = __sanitizer_get_current_allocated_bytes(); perform(a, r); grown[k] = (int64_t)(__sanitizer_get_current_allocated_bytes() - before);
		if(grown[k] <= 0) break;
	}
	files1 = openFiles();
	REQUIRE(!(grown[0] > 0 && grown[1] > 0 && grown[2] > 0 && grown[3] > 0), << a.name << ": each repetition of the history keeps " << grown[3] << " bytes");
	REQUIRE(files1 <= files0, << a.name << ": " << files1 - files0 << " files are left open");
	ctx.label(a.name); if(threw) ctx.label("ended by an exception"); if(tape.size() > 3) ctx.nontrivial();
}
const Def& pbt::definition()
{
	static Def d{"P44", "a history of operations on one of 15 parts of the library is run, then repeated with the same decisions, and the bytes on the heap are compared. Non-trivial: more than three decisions.", 150000, 5000000, jmInit, run};
	d.assumptions = {"objects are given back by the documented means (release, delete of returned buffers, clearStacks of an undo manager)", "only growth that repeats in four repetitions counts", "files are only changed inside a scratch directory"};
	return d;
}
