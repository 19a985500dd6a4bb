// A strict reader and a versatile writer of ZIP archives, independent of the library.
#pragma once
#include "deflate_gen.hpp"
#include "fsguard.hpp"
struct ZMember { std::u16string name; std::string data; uint32_t offset = 0; };
inline uint32_t le(const std::string& d, size_t at, int n) { uint32_t v = 0; for(int i = 0; i < n; i++) v |= (uint32_t)(uint8_t)d.at(at + i) << (8 * i); return v; }
inline void ple(std::string& d, uint64_t v, int n) { for(int i = 0; i < n; i++) d += (char)(v >> (8 * i)); }
inline uint32_t crcOf(const std::string& d) { return (uint32_t)crc32(crc32(0, nullptr, 0), (const Bytef*)d.data(), (uInt)d.size()); }
// the archive must consist of exactly these stored members, the directory and its end
inline void requireArchive(const std::string& z, const std::vector<ZMember>& want)
{
	REQUIRE(z.size() >= 22, << "archive of " << z.size() << " bytes");
	size_t e = z.size() - 22;
	REQUIRE(le(z, e, 4) == 0x06054b50, << "no end of directory record at the end of the file");
	REQUIRE(le(z, e + 4, 2) == 0 && le(z, e + 6, 2) == 0 && le(z, e + 20, 2) == 0, << "end of directory: disks or comment");
	REQUIRE_EQ(le(z, e + 8, 2), (uint32_t)want.size(), << "(records on this disk)"); REQUIRE_EQ(le(z, e + 10, 2), (uint32_t)want.size(), << "(records)");
	size_t cs = le(z, e + 12, 4), co = le(z, e + 16, 4); REQUIRE(co + cs == e, << "directory at " << co << " of " << cs << " bytes, its end record is at " << e);
	size_t pos = 0, d = co;
	for(auto& m : want)
	{
		std::string nm = utf8Ref(m.name); uint32_t crc = crcOf(m.data);
		REQUIRE(d + 46 <= e && le(z, d, 4) == 0x02014b50, << "directory entry of " << quote(nm));
		REQUIRE_EQ(le(z, d + 16, 4), crc, << "(CRC in the directory of " << quote(nm) << ")");
		REQUIRE(le(z, d + 10, 2) == 0, << "compression method " << le(z, d + 10, 2)); REQUIRE(le(z, d + 8, 2) == 0, << "flags in the directory are " << le(z, d + 8, 2));
		REQUIRE_EQ(le(z, d + 20, 4), (uint32_t)m.data.size(), << "(compressed size in the directory of " << quote(nm) << ")"); REQUIRE_EQ(le(z, d + 24, 4), (uint32_t)m.data.size(), << "(size in the directory of " << quote(nm) << ")");
		REQUIRE_EQ(le(z, d + 28, 2), (uint32_t)nm.size(), << "(name length in the directory)"); REQUIRE(le(z, d + 30, 2) == 0 && le(z, d + 32, 2) == 0 && le(z, d + 34, 2) == 0, << "extra, comment or disk of a directory entry");
		REQUIRE(z.compare(d + 46, nm.size(), nm) == 0, << "name in the directory is not " << quote(nm));
		size_t o = le(z, d + 42, 4); REQUIRE_EQ(o, pos, << "(offset of " << quote(nm) << ")"); d += 46 + nm.size();
		REQUIRE(o + 30 + nm.size() + m.data.size() <= co && le(z, o, 4) == 0x04034b50, << "local header of " << quote(nm));
		REQUIRE(le(z, o + 6, 2) == 0 && le(z, o + 8, 2) == 0, << "flags or method of the local header"); REQUIRE_EQ(le(z, o + 14, 4), crc, << "(CRC in the local header of " << quote(nm) << ")");
		REQUIRE_EQ(le(z, o + 18, 4), (uint32_t)m.data.size(), << "(compressed size in the local header)"); REQUIRE_EQ(le(z, o + 22, 4), (uint32_t)m.data.size(), << "(size in the local header)");
		REQUIRE_EQ(le(z, o + 26, 2), (uint32_t)nm.size()); REQUIRE_EQ(le(z, o + 28, 2), 0u);
		REQUIRE(z.compare(o + 30, nm.size(), nm) == 0, << "name in the local header is not " << quote(nm));
		REQUIRE(z.compare(o + 30 + nm.size(), m.data.size(), m.data) == 0, << "data of " << quote(nm) << " differ");
		pos = o + 30 + nm.size() + m.data.size();
	}
	REQUIRE_EQ(pos, co, << "(bytes between the last member and the directory)"); REQUIRE_EQ(d, e, << "(bytes behind the last directory entry)");
}
inline std::string drain(jm::Stream* st, Src& s)
{
	std::string o; int64 n = st->size(); uint8_t buf[4096]; (void)n;
	if(s.coin()) { jm::ByteArray a(st->size(), 0); int64 r = st->readFully(a); o.assign((const char*)a.constData(), (size_t)r); return o; }
	while(true) { int64 r = st->read(buf, 1 + (int64)s.choice(4094)); if(r <= 0) break; o.append((char*)buf, (size_t)r); }
	return o;
}
// reads the archive with the library and compares everything it says
inline void requireReading(jm::ZipFile& z, const std::vector<ZMember>& want, Src& s, Ctx& ctx)
{
	REQUIRE_EQ(z.entryCount(), (uint32)want.size(), << "(entryCount)");
	jm::LinkedListIterator it = z.entryIterator(); std::vector<jm::ZipEntry*> es;
	while(it.hasNext()) { es.push_back(static_cast<jm::ZipEntry*>(it.next())); REQUIRE(es.size() <= want.size(), << "more entries are iterated than counted"); }
	REQUIRE_EQ(es.size(), want.size(), << "(entries iterated)");
	std::vector<size_t> order; for(size_t i = 0; i < want.size(); i++) order.push_back(i);
	for(size_t i = 0; i < want.size(); i++)
	{
		REQUIRE(U16(es[i]->name()) == want[i].name, << "entry " << i << " is named " << quote16(U16(es[i]->name())) << " instead of " << quote16(want[i].name));
		REQUIRE_EQ(es[i]->uncompressedSize(), (uint32)want[i].data.size(), << "(size of entry " << i << ")");
		REQUIRE_EQ(es[i]->isDirectory(), !want[i].name.empty() && want[i].name.back() == '/', << "(isDirectory of " << quote16(want[i].name) << ")");
		size_t first = 0; while(want[first].name != want[i].name) first++;
		REQUIRE(z.entry(J(want[i].name)) == es[first], << "entry(" << quote16(want[i].name) << ") is another one");
		// names that differ a little
		std::u16string n = want[i].name; switch(s.choice(4)) { case 0: n += u'x'; break; case 1: if(!n.empty()) n.pop_back(); break; case 2: for(auto& c : n) c = c >= 'a' && c <= 'z' ? (char16_t)(c - 32) : c; break; case 3: n = u"/" + n; break; default: n += u'/'; }
		size_t k = 0; while(k < want.size() && want[k].name != n) k++;
		REQUIRE(z.entry(J(n)) == (k < want.size() ? es[k] : nullptr), << "entry(" << quote16(n) << ") finds " << (k < want.size() ? "another member" : "a member which does not exist"));
	}
	for(size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[i - 1 - s.choice(i - 1)]);
	for(size_t i : order)
	{
		jm::Stream* st = z.stream(es[i]); REQUIRE(st != nullptr, << "no stream of entry " << i);
		REQUIRE_EQ((size_t)st->size(), want[i].data.size(), << "(size of the stream of entry " << i << ")");
		std::string d = drain(st, s); REQUIRE(d == want[i].data, << "content of " << quote16(want[i].name) << ": " << diffAt(d, want[i].data));
		delete st;
	}
	REQUIRE(z.stream(nullptr) == nullptr, << "a stream without an entry"); (void)ctx;
}
inline std::u16string genName(Src& s)
{
	std::u16string o; size_t n = 1 + s.len(12);
	switch(s.choice(3)) { case 0: o = s.pick<std::u16string>({u"a", u"b.txt", u"dir/", u"dir/a", u"A", u"META-INF/manifest.xml"}); return o; default: break; }
	for(size_t i = 0; i < n; i++) { char16_t c = s.chance(1, 8) ? u'/' : genChar(s); o += c; }
	if(s.chance(1, 10)) o += u'/';
	return o;
}
