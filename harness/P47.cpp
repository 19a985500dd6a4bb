// P47: different objects in different threads
// BUILD: tsan
#include "zip_ref.hpp"
#include "history.hpp"
#include "core/Property.h"
#include "core/Document.h"
#include "core/DiffBacktrace.h"
#include "core/DiffDistance.h"
#include <thread>
#include <atomic>
#include <mutex>
#include <iostream>
#include <sys/stat.h>
using namespace jm;
namespace
{
// where the log goes: it yields, so that messages which are not written as a whole are mixed
struct Sink : std::streambuf
{
	std::mutex m; std::string text; std::atomic<unsigned> n{0};
	int overflow(int c) override { { std::lock_guard<std::mutex> l(m); if(c != EOF) text += (char)c; n++; } if(n % 3 == 0) std::this_thread::yield(); return c == EOF ? 0 : c; }
	std::streamsize xsputn(const char* b, std::streamsize k) override { { std::lock_guard<std::mutex> l(m); text.append(b, (size_t)k); n++; } if(n % 3 == 0) std::this_thread::yield(); return k; }
};
struct Out // what a part returned
{
	std::string t;
	Out& operator<<(const String& s) { std::u16string u = U16(s); t.append((const char*)u.data(), u.size() * 2); t += '|'; return *this; }
	Out& operator<<(const std::string& s) { t += s; t += '|'; return *this; }
	Out& operator<<(const char* s) { return *this << std::string(s); }
	Out& operator<<(const ByteArray& b) { for(int64 i = 0; i < b.size(); i++) t += (char)b.get(i); t += '|'; return *this; }
	Out& operator<<(double d) { t.append((const char*)&d, 8); return *this; }
	Out& operator<<(int64 i) { t.append((const char*)&i, 8); return *this; }
	Out& operator<<(int i) { return *this << (int64)i; }
	Out& operator<<(size_t i) { return *this << (int64)i; }
	Out& operator<<(bool b) { t += b ? 'T' : 'F'; return *this; }
};
struct Where { std::string own, common; int slot; };
String txt(Src& s, size_t max = 10) { return J(genText(s, max)); }
void strings(Src& s, Out& o, const Where&)
{
	String a = txt(s, 30), b = txt(s, 6); size_t n = 1 + s.choice(9);
	for(size_t i = 0; i < n; i++)
	{
		switch(s.choice(13))
		{
			case 0: a = a.toUpperCase(); break;
			case 1: a = a.toLowerCase().trim(); break;
			case 2: a = a.reverse() + b; break;
			case 3: a = a.replace(txt(s, 2), b); break;
			case 4: a = String("%1 is %2").arg(b).arg((int64)s.choice(1000), 6, Char('_')); break;
			case 5: { StringList l = a.split(Char(' ')); l.append(b); l.sort(); a = l.join(Char(',')); break; }
			case 6: o << a.hashCode(); break;
			case 7: { StringTokenizer t(a, b, s.coin()); while(t.hasNext()) o << t.next(); break; }
			case 8: a = URLDecode(URLEncode(b)); break;
			case 9: o << a.toBool() << a.toDouble() << a.compareFancyTo(b) << a.compareTo(b); break;
			case 10: a.insert((int64)s.choice((size_t)a.size()), b); break;
			case 11: { int64 r = 1 + (int64)s.choice(4999); a << Integer::toRomanString(r); break; }
			case 12: a = kEmptyString + b; o << kEmptyString.size(); break;
			default: a = Tr(b) + Tr("File"); break;
		}
		if(a.size() > 500) a.clear();
		o << a;
	}
}
void charsets(Src& s, Out& o, const Where&)
{
	size_t n = 1 + s.choice(5);
	for(size_t i = 0; i < n; i++)
	{
		const char* names[] = {"UTF-8", "UTF-16", "UTF-16BE", "UTF-16LE", "Windows-1252", "MacRoman", "RAW"}; Charset* c = s.chance(1, 4) ? Charset::getDefault() : Charset::forName(names[s.choice(6)]); if(c == nullptr) { o << "none"; continue; }
		String a = txt(s, 30); ByteArray e; std::string raw = genBytes(s, 20); raw += std::string(3, 0);
		o << throwsJm([&] { e = a.toCString(c); o << e << String(e, c); }) << throwsJm([&] { o << String(raw.c_str(), c); }) << c->name();
	}
}
void containers(Src& s, Out& o, const Where&)
{
	Hashtable t; String val[4]; LinkedList* l = new LinkedList(nullptr); std::vector<Object*> in; Stack<String> st; Array<String> ar((int64)(1 + s.choice(9))); size_t n = 1 + s.choice(30);
	for(size_t i = 0; i < n; i++) switch(s.choice(9))
	{
		case 0: case 1: t.put(txt(s, 2), &val[s.choice(3)]); break;
		case 2: o << (t.get(txt(s, 2)) != nullptr); break;
		case 3: t.remove(txt(s, 2)); break;
		case 4: { Object* x = new Object(); in.push_back(x); l->add(x, nullptr); break; }
		case 5: if(in.size()) l->remove(in[s.choice(in.size() - 1)], nullptr); break;
		case 6: st.push(txt(s)); break;
		case 7: if(st.hasElements()) o << st.pop(); break;
		case 8: ar.set((uint32)s.choice((size_t)ar.size() - 1), txt(s, 5)); break;
		default: ar.sort();
	}
	Iterator* it = t.keys(); size_t keys = 0; while(it->hasNext()) { it->next(); keys++; } delete it; o << keys << (size_t)l->size() << (size_t)st.size(); for(uint32 i = 0; i < ar.size(); i++) o << ar.get(i);
	l->clear(nullptr); l->release(); for(auto x : in) x->release();
}
void bytes(Src& s, Out& o, const Where&)
{
	std::string d = genBytes(s, 200); ExactBuf b(d); int64 len = (int64)d.size();
	if(len) { int64 el = len; uint8* e = Base64::encode(b.p, el); std::string es((char*)e, (size_t)el); o << es; uint32 l2 = (uint32)el; uint8* r = nullptr; try { r = Base64::decode(e, l2); o << std::string((char*)r, l2); } catch(...) { delete[] e; throw; } delete[] r; delete[] e; }
	{ uint8 q[16] = {}; serializeLEInt64(q, 0, (int64)s.anyInt64()); o << deserializeLEInt64(q, 0) << deserializeLEInt32(q, 2); serializeLEDouble(q, 8, s.real(-9, 9)); o << deserializeLEDouble(q, 8); }
	ByteArray a((int64)s.choice(50), 7); a.resize((int64)s.choice(90)); a.sort(); o << a;
	{ uint8_t m[64] = {}; MemoryStream ms(m, 64); ms.write(b.p, std::min<int64>(len, 64)); ms.seek(3); ByteArray r(20, 0); o << ms.readFully(r, 20) << r << ms.position(); }
}
void packing(Src& s, Out& o, const Where&)
{
	std::string d = genData(s, 3000), z; std::string how; bool raw = s.coin(); z = zStream(s, d, raw, how); if(s.chance(1, 4) && z.size()) z[s.choice(z.size() - 1)] ^= 4;
	Inflater* inf = new Inflater(raw); { ExactBuf in(z); uint8* p = nullptr; int64 n = 0; inf->SetInput(in.p, (int64)z.size()); bool bad = throwsJm([&] { inf->Inflate(p, n); }); o << bad; if(!bad) { o << std::string((char*)p, (size_t)n); delete[] p; } } inf->release();
}
void archives(Src& s, Out& o, const Where& w)
{
	// different archives of the same folder
	std::string path = w.common + "/a" + std::to_string(w.slot) + ".zip"; size_t n = s.choice(3); std::vector<ZMember> want;
	{
		File f(JA(path)); ZipOutputFile z(&f); z.open(); std::vector<ZipEntry*> e;
		for(size_t i = 0; i < n; i++) { ZMember m; m.name = genName(s); m.data = genData(s, 400); e.push_back(new ZipEntry(J(m.name))); z.putNextEntry(e.back()); ExactBuf b(m.data); size_t h = m.data.size() / 2; z.write(b.p, 0, (int64)h); std::this_thread::yield(); z.write(b.p, (int64)h, (int64)(m.data.size() - h)); z.closeEntry(); want.push_back(m); }
		z.close(); for(auto x : e) x->release();
	}
	o << readFileRaw(path);
	File f(JA(path)); ZipFile* z = new ZipFile(&f); z->open(); o << (size_t)z->entryCount(); LinkedListIterator it = z->entryIterator(); while(it.hasNext()) { ZipEntry* e = static_cast<ZipEntry*>(it.next()); Stream* st = z->stream(e); ByteArray d((int64)e->uncompressedSize(), 0); st->readFully(d, d.size()); o << e->name() << d; delete st; } z->close(); z->release();
	unlink(path.c_str());
}
void files(Src& s, Out& o, const Where& w)
{
	std::string names[] = {w.own + "/a", w.own + "/b.txt", w.own + "/sub/c", w.own + "/sub"}; File f(JA(names[0])); size_t n = 1 + s.choice(10); uint8 buf[20];
	for(size_t i = 0; i < n; i++) o << throwsJm([&]
	{
		switch(s.choice(9))
		{
			case 0: f.close(); f = File(JA(s.pick({names[0], names[1], names[2], names[3]}))); break;
			case 1: f.close(); o << (int)f.open(s.pick({FileMode::kRead, FileMode::kWrite, FileMode::kReadWrite})); break;
			case 2: if(f.isOpen()) o << f.write((const uint8*)"hello world", (int64)s.choice(11)); break;
			case 3: if(f.isOpen()) { f.seek(0); int64 k = f.read(buf, 20); o << std::string((char*)buf, (size_t)std::max<int64>(k, 0)); } break;
			case 4: { Array<File>* a = File(JA(w.own)).listFiles(); std::multiset<std::string> l; if(a) for(uint32 k = 0; k < a->size(); k++) l.insert(A(a->get(k).name())); delete a; for(auto& x : l) o << x; break; }
			case 5: o << File(JA(names[3])).makeDirectory(); break;
			case 6: f.close(); o << f.remove(); break;
			case 7: o << f.name() << f.extension() << f.exists() << f.size() << f.isDirectory(); break;
			case 8: { File g(f); g = f; o << g.name(); break; }
			default: f.close(); o << f.renameTo(JA(names[1])); break;
		}
	});
	o << throwsJm([&] { f.close(); }); clearDir(w.own);
}
void settings(Src& s, Out& o, const Where& w)
{
	Preferences* p = new Preferences(); File f(JA(w.own + "/p")); size_t n = 1 + s.choice(8);
	for(size_t i = 0; i < n; i++) switch(s.choice(6))
	{
		case 0: case 1: p->setValue(txt(s, 2), txt(s, 8)); break;
		case 2: p->setValue(txt(s, 2), s.anyInt64()); break;
		case 3: p->save(f); break;
		case 4: p->clear(); p->load(f); break;
		case 5: o << p->value(txt(s, 2)); break;
		default: o << (size_t)p->size();
	}
	p->save(f); o << readFileRaw(w.own + "/p"); p->release(); unlink((w.own + "/p").c_str());
}
struct Sax : SAXParser { Out& o; explicit Sax(Out& x): o(x) {} void startElement(const String& a, const String& b, const String& c, const SAXAttributes& at) override { o << a << b << c << (size_t)at.count(); } void endElement(const String& a, const String&, const String&) override { o << "/" << a; } void characters(const String& t) override { o << t; } };
void xml(Src& s, Out& o, const Where& w)
{
	std::string path = w.own + "/x.xml"; size_t n = s.choice(9);
	{
		File f(JA(path)); XMLWriter x(&f); x.startDocument(); String root("root"); x.startElement(root); int depth = 1;
		for(size_t i = 0; i < n; i++) switch(s.choice(3))
		{
			case 0: { String e = String("e") + String::valueOf((int64)s.choice(9)); x.startElement(e); depth++; x.writeAttribute(String("v"), txt(s, 6)); break; }
			case 1: x.writeCData(txt(s, 6)); break;
			case 2: { ByteArray b((int64)s.choice(20), 7); x.WriteBase64((uint8*)b.data(), b.size()); break; }
			default: if(depth > 1) { x.endElement(); depth--; }
		}
		while(depth-- > 0) x.endElement();
		x.endDocument(); f.close();
	}
	std::string d = readFileRaw(path); o << d; if(s.chance(1, 3) && d.size()) d[s.choice(d.size() - 1)] = s.pick({'<', '&', '>', ' '}); Sax p(o); o << throwsJm([&] { p.parse(String(d.data(), (int64)d.size())); }); unlink(path.c_str());
}
struct Doc : Document { bool saveDocument() override { return true; } bool loadDocument() override { return true; } Status initNewDocument(Preferences*) override { return Status::eOK; } };
struct Obj : EditableObject { int64 i = 0; String t; Vertex3 v; explicit Obj(Document* o): EditableObject(o) {} };
void documents(Src& s, Out& o, const Where&)
{
	Doc* doc = new Doc(); Obj* x = new Obj(doc); size_t n = 1 + s.choice(20); UndoManager* u = doc->undoManager();
	for(size_t k = 0; k < n; k++)
	{
		switch(s.choice(6)) { case 0: o << (int)x->setMember(&x->i, (int64)s.choice(5)); break; case 1: o << (int)x->setMember(&x->t, txt(s, 6)); break; case 2: o << (int)x->setMember(&x->v, Vertex3((double)s.choice(3), 1, 2)); break; case 3: doc->closeUndoStep(); break; case 4: doc->closeUndoStep(); o << u->undo(); break; case 5: o << u->redo(); break; default: { x->openTransaction(); x->setMember(&x->i, (int64)s.choice(9)); if(s.coin()) u->registerTransactionStatus(Status::eInvalidInput); o << (int)x->closeTransaction(); } }
		o << x->i << x->t << x->v.x;
	}
	u->close(); u->clearStacks(); x->release(); doc->release();
}
void numbers(Src& s, Out& o, const Where&)
{
	o << String::valueOf(s.anyInt64()) << String::valueOf(s.real(-1e9, 1e9)) << String::valueOf(s.real(-1e3, 1e3), 3, s.coin());
	Matrix m(3, 3); m.zeros(); for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) m.set(i, j, s.grid(-9, 9, 2)); double det = 0; m.det(det); o << det; if(std::fabs(det) > 0.1) { m.inverse(); o << m.get(1, 1) << m.get(0, 2); }
	Matrix e(3, 3); e.zeros(); for(int i = 0; i < 3; i++) for(int j = 0; j <= i; j++) { double x = s.grid(-3, 3, 1); e.set(i, j, x); e.set(j, i, x); } Vector v = e.eigen(); o << v.abs();
	std::vector<Vertex3> pt; for(int i = 0; i < 4; i++) pt.push_back(Vertex3(s.grid(-5, 5, 1), s.grid(-5, 5, 1), 0)); double kn[] = {0, 0, 0, 0, 1, 1, 1, 1}, we[] = {1, 1, 2, 1}; Nurbs* u = new Nurbs(3, pt.data(), 4, kn, 8, we, 4); Vertex3 q = u->point(s.real(0, 1)); o << q.x << q.y; u->release();
	Color c = Color::fromRgb(s.byte(), s.byte(), s.byte()); { float h, q1, q2; c.hsvModel(h, q1, q2); o << (int)c.red() << (double)h << (double)q1; } c.toCmyk(); o << (int)c.key(); Rect a(1, 2, s.grid(0, 9, 1), s.grid(0, 9, 1)), b(3, 3, 4, 4); o << a.intersects(b);
}
void dates(Src& s, Out& o, const Where&)
{
	Date d((int64)s.si(-100000000000ll, 4000000000000ll)); o << d.toString() << (int64)d.year() << (int64)d.dayOfYear(); DateFormatter f(s.pick({"yyyy-MM-dd", "dd.MM.yy HH:mm:ss", "EEEE MMMM d", "D w 'x'"})); o << f.format(d); Date now; o << (now.year() > 2000);
}
void exceptions(Src& s, Out& o, const Where&)
{
	size_t n = 1 + s.choice(4); for(size_t i = 0; i < n; i++) { String t = txt(s); try { if(s.coin()) throw Exception(t); (void)t.charAt(t.size() + 1); } catch(Exception& e) { Exception c(e); o << c.errorMessage() << e.errorMessage(); } }
}
void logging(Src& s, Out& o, const Where& w)
{
	size_t n = 1 + s.choice(5); for(size_t i = 0; i < n; i++) { System::log(JA("<" + std::to_string(w.slot) + "." + std::to_string(i) + ">"), s.pick({LogLevel::kInformation, LogLevel::kWarning, LogLevel::kError})); if(s.coin()) { String e = System::lastErrorMessage(); (void)e.size(); } } o << n;
}
void translations(Src& s, Out& o, const Where&)
{
	I18nBundle b(s.coin() ? String("de") : String("en")); size_t n = s.choice(4); std::vector<std::string> a, t; std::string d, text; auto le = [](uint32_t v) { std::string r; for(int i = 0; i < 4; i++) r += (char)(v >> 8 * i); return r; };
	for(size_t i = 0; i < n; i++) { a.push_back("m" + std::to_string(s.choice(9))); t.push_back(genBytes(s, 9)); }
	uint32_t at = 28 + 16 * (uint32_t)n; d = le(0x950412de) + le(0) + le((uint32_t)n) + le(28) + le(28 + 8 * (uint32_t)n) + le(0) + le(0);
	for(auto* l : {&a, &t}) for(auto& x : *l) { d += le((uint32_t)x.size()) + le(at); text += x + '\0'; at += (uint32_t)x.size() + 1; }
	d += text; ExactBuf m(d); MemoryStream ms(m.p, (int64)d.size()); b.appendMo(&ms); for(size_t i = 0; i < 9; i++) o << b.translate(String("m") + String::valueOf((int64)i));
}
struct Elem : Object { int64 id; explicit Elem(int64 i): id(i) {} bool equals(const Object* x) const override { auto* e = dynamic_cast<const Elem*>(x); return e && e->id == id; } String displayName() const override { return String::valueOf(id); } };
void comparing(Src& s, Out& o, const Where&)
{
	std::vector<Elem*> e; DiffDistance dd; for(int side = 0; side < 2; side++) { size_t n = s.len(9); for(size_t i = 0; i < n; i++) { e.push_back(new Elem((int64)s.choice(3))); if(side) dd.addV(e.back()); else dd.addU(e.back()); } }
	DiffBacktrace* b = dd.solve(); o << (size_t)(b != nullptr); delete b; for(auto* x : e) x->release();
}
struct Area { const char* name; void (*f)(Src&, Out&, const Where&); };
const Area AREAS[] = {{"strings", strings}, {"character sets", charsets}, {"containers", containers}, {"bytes", bytes}, {"packing", packing}, {"archives", archives}, {"files", files}, {"settings", settings}, {"xml", xml}, {"documents", documents}, {"numbers", numbers}, {"dates", dates}, {"exceptions", exceptions}, {"logging", logging}, {"translations", translations}, {"comparing", comparing}};
const size_t NAREA = sizeof AREAS / sizeof *AREAS;
std::string perform(const Area& a, Src& s, const Where& w)
{
	Out o; try { a.f(s, o, w); } catch(Exception& e) { o << "exception" << e.errorMessage(); } catch(Exception* e) { o << "exception" << e->errorMessage(); e->release(); }
	return o.t;
}
Sink gSink;
}
static void run(Src& s, Ctx& ctx)
{
	GuardOn guard; fsEscape().clear(); std::string base = scratchDir() + "/p47"; mkdir(base.c_str(), 0700); mkdir((base + "/common").c_str(), 0700);
	std::streambuf *oc = std::cout.rdbuf(&gSink), *oe = std::cerr.rdbuf(&gSink); struct Back { std::streambuf *a, *b; ~Back() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } } back{oc, oe}; gSink.text.clear();
	size_t n = 2 + s.choice(2), first = s.choice(NAREA - 1); bool same = s.coin(); struct Job { size_t area; Where w; std::vector<Choice> tape; std::string want; std::vector<std::string> got; }; std::vector<Job> jobs(n); size_t reps = 1 + s.choice(2);
	for(size_t i = 0; i < n; i++)
	{
		Job& j = jobs[i]; j.area = i == 0 || same ? first : s.choice(NAREA - 1); j.w = {base + "/t" + std::to_string(i), base + "/common", (int)i}; mkdir(j.w.own.c_str(), 0700); clearDir(j.w.own);
		size_t from = *s.recLen; j.want = perform(AREAS[j.area], s, j.w); j.tape.assign(s.rec + from, s.rec + *s.recLen); NOTE("thread " << i << ": " << AREAS[j.area].name << ", " << j.tape.size() << " decisions\n");
	}
	if(s.chance(1, 6)) // a name which all of them want to create
	{
		size_t rounds = 1 + s.choice(5); std::vector<size_t> won(rounds, 0); std::vector<std::thread> th; std::atomic<size_t> at{0}; std::mutex m; NOTE("each thread creates the same " << rounds << " files\n");
		for(size_t i = 0; i < n; i++) th.emplace_back([&, i] { for(size_t r = 0; r < rounds; r++) { std::string p = base + "/common/new" + std::to_string(r); File f(JA(p)); at++; while(at < n * (r + 1)) std::this_thread::yield(); if(f.createNewFile()) { std::lock_guard<std::mutex> l(m); won[r]++; if(f.open(FileMode::kWrite) == Status::eOK) { f.write((const uint8*)"mine", 4); f.close(); } } } });
		for(auto& t : th) t.join();
		for(size_t r = 0; r < rounds; r++) { REQUIRE_EQ(won[r], (size_t)1, << "(threads that created the file " << r << ")"); REQUIRE(readFileRaw(base + "/common/new" + std::to_string(r)) == "mine", << "the content of the new file"); } ctx.label("the same new file");
	}
	clearDir(base + "/common"); std::string alone = gSink.text; gSink.text.clear();
	std::atomic<size_t> ready{0}; std::vector<std::thread> th;
	for(auto& j : jobs) th.emplace_back([&, reps]
	{
		std::vector<Choice> rec(j.tape.size() + 16); ready++; while(ready < n) std::this_thread::yield();
		for(size_t k = 0; k < reps; k++) { Src r; size_t at = 0; r.mode = Src::REPLAY; r.script = j.tape.data(); r.scriptLen = j.tape.size(); r.rec = rec.data(); r.recLen = &at; j.got.push_back(perform(AREAS[j.area], r, j.w)); }
	});
	for(auto& t : th) t.join();
	for(size_t i = 0; i < n; i++) for(auto& g : jobs[i].got) REQUIRE(g == jobs[i].want, << AREAS[jobs[i].area].name << " in thread " << i << ": another result than alone, " << diffAt(g, jobs[i].want));
	REQUIRE(fsEscape().empty(), << "the operations addressed " << quote(fsEscape()) << ", which is none of the named files");
	// the log: the same messages, each on a line of its own
	auto lines = [](const std::string& t) { std::multiset<std::string> l; size_t a = 0; while(a < t.size()) { size_t e = t.find('\n', a); if(e == std::string::npos) e = t.size(); l.insert(t.substr(a, e - a)); a = e + 1; } return l; };
	std::multiset<std::string> la = lines(alone), lt = lines(gSink.text), want; for(size_t k = 0; k < reps; k++) want.insert(la.begin(), la.end());
	bool progress = false; for(auto& j : jobs) progress = progress || AREAS[j.area].f == comparing; // prints its progress, not through the log
	if(!progress) REQUIRE(want == lt, << "the log has " << lt.size() << " lines instead of " << want.size() << " or others: " << quote(gSink.text.substr(0, 400)) << "\n alone: " << quote(alone.substr(0, 400)));
	for(auto& j : jobs) ctx.label(AREAS[j.area].name);
	size_t big = 0; for(auto& j : jobs) big += j.tape.size() > 3; if(big > 1) ctx.nontrivial();
}
static void init() { jmInit(); System::logEnableDate(false); }
const Def& pbt::definition()
{
	static Def d{"P47", "2..4 threads each run a generated history on objects of their own, from 16 parts of the library (the same part in half of the cases), 1..3 times; results and log lines are those of the same histories run alone, each log message is on a line of its own, of several threads that create a file of one name one succeeds and its content stays, and ThreadSanitizer sees no data race. Non-trivial: at least two histories of more than three decisions.", 40000, 1500000, init, run};
	d.schedules = true;
	d.assumptions = {"threads use different objects, files and archives (archives in one folder)", "the autorelease pool, the global preferences and the default translation are not changed by several threads", "no fork, chdir or change of the locale meanwhile"};
	return d;
}
