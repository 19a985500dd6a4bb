// P19: path operations
#include "jmh.hpp"
#include <sys/stat.h>
using U = std::u16string;
static U norm(const U& p) { U o; for(char16_t c : p) { if(c == '/' && !o.empty() && o.back() == '/') continue; o += c; } if(o.size() > 1 && o.back() == '/') o.pop_back(); return o; }
static std::vector<U> comps(const U& p) { std::vector<U> v; U c; for(char16_t x : p) { if(x == '/') { if(!c.empty()) v.push_back(c); c.clear(); } else c += x; } if(!c.empty()) v.push_back(c); return v; }
static U genComp(Src& s)
{
	switch(s.choice(5))
	{
		case 0: return s.pick<U>({u"a", u"b", u"tmp", u"doc.txt", u"x.tar.gz", u"."});
		case 1: return s.pick<U>({u".", u"..", u".hidden", u"a.", u"..x", u".a.b", u"noext", u"ä.öü", u"名前.txt", u" ", u"a b"});
		default: { U o; size_t n = 1 + s.choice(5); for(size_t i = 0; i < n; i++) { char16_t c = s.chance(1, 4) ? u'.' : genChar(s); o += c == '/' ? u'.' : c; if(s.choice(30) == 19) o += genPair(s); } return o; }
	}
}
static U genPath(Src& s)
{
	U o; size_t n = s.len(6); if(s.coin()) o.append(1 + (s.chance(1, 4) ? s.choice(2) : 0), u'/');
	for(size_t i = 0; i < n; i++) { o += genComp(s); if(i + 1 < n || s.chance(1, 3)) o.append(1 + (s.chance(1, 4) ? s.choice(2) : 0), u'/'); }
	if(size_t k = longLen(s, 1400, 5)) { U q = o + u"x/"; while(o.size() < k) o += q.substr(o.empty() ? 0 : q[0] == u'/' && o.back() == u'/'); }
	return o;
}
static void checkParts(const jm::File& f, const U& path, const char* what)
{
	std::vector<U> c = comps(path); bool abs = !path.empty() && path[0] == '/';
	U name = c.empty() ? U() : c.back(), parent, ext;
	if(c.size() > 1) { parent = path.substr(0, path.size() - name.size() - 1); } else if(c.size() == 1 && abs) parent = u"/";
	size_t dot = name.rfind(u'.'); if(dot != U::npos) ext = name.substr(dot + 1);
	REQUIRE(U16(f.absolutePath()) == path, << what << ": absolutePath is " << quote16(U16(f.absolutePath())) << " instead of " << quote16(path));
	REQUIRE(U16(f.path()) == path, << what << ": path is " << quote16(U16(f.path())));
	REQUIRE(U16(f.name()) == name, << what << ": name is " << quote16(U16(f.name())) << " instead of " << quote16(name));
	REQUIRE(U16(f.parent()) == parent, << what << ": parent is " << quote16(U16(f.parent())) << " instead of " << quote16(parent));
	REQUIRE(U16(f.extension()) == ext, << what << ": extension is " << quote16(U16(f.extension())) << " instead of " << quote16(ext));
	REQUIRE_EQ(f.isHidden(), !name.empty() && name[0] == '.', << what << " (isHidden)");
	REQUIRE_EQ(f.isAbsolute(), abs, << what << " (isAbsolute)");
	REQUIRE_EQ(f.isNull(), path.empty(), << what << " (isNull)");
	for(size_t i = 1; i < path.size(); i++) REQUIRE(!(path[i] == '/' && path[i - 1] == '/'));
}
static bool isDir(const U& p) { struct stat st; return !p.empty() && lstat(utf8Ref(p).c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
static void run(Src& s, Ctx& ctx)
{
	U p = genPath(s), n = norm(p); NOTE("path " << quote16(p) << "\n");
	jm::String given = J(p); jm::File f(given); REQUIRE(U16(given) == p, << "the given path was changed");
	checkParts(f, n, "File(path)");
	{ jm::File c(f); checkParts(c, n, "copy"); jm::File e; REQUIRE(e.isNull()); e = f; checkParts(e, n, "assigned"); e = e; checkParts(e, n, "assigned to itself"); REQUIRE_EQ(f.compareTo(c), 0); }
	// normalising again changes nothing
	checkParts(jm::File(J(n)), n, "File(normalised)");
	// parent and name are the path
	if(n.find(u'/') != U::npos && n != u"/") { jm::File back(f.parent(), f.name()); checkParts(back, n, "File(parent, name)"); jm::File back2(jm::File(f.parent()), f.name()); checkParts(back2, n, "File(File(parent), name)"); ctx.label("composed"); }
	// child
	U q = genPath(s); NOTE("child " << quote16(q) << "\n");
	if(q.empty())
	{
		REQUIRE(throwsJm([&] { jm::File x(J(p), J(q)); }), << "an empty child is accepted"); REQUIRE(throwsJm([&] { jm::File x(f, J(q)); }), << "an empty child is accepted");
	}
	else
	{
		U all = norm(p + u"/" + q); if(p.empty() && all.empty()) all = u"/";
		jm::File c1(J(p), J(q)), c2(f, J(q)); checkParts(c1, all, "File(parent, child)"); checkParts(c2, all, "File(File, child)");
		REQUIRE_EQ(c1.compareTo(c2), 0);
	}
	checkParts(f, n, "parent afterwards");
	// order
	U r = s.coin() ? genPath(s) : p; if(s.chance(1, 4) && !r.empty()) r.pop_back(); jm::File g(J(r)); U m = norm(r); NOTE("other " << quote16(r) << "\n");
	int a = f.compareTo(g), b = g.compareTo(f); a = a < 0 ? -1 : a > 0; b = b < 0 ? -1 : b > 0;
	REQUIRE_EQ(a, -b, << "(compareTo of both directions)"); REQUIRE_EQ(a == 0, n == m, << "(compareTo is zero)");
	bool d1 = isDir(n), d2 = isDir(m); int w = d1 != d2 ? (d1 ? -1 : 1) : n < m ? -1 : n > m ? 1 : 0;
	REQUIRE_EQ(a, w, << "(compareTo)");
	ctx.label(n.empty() ? "empty" : n[0] == '/' ? "absolute" : "relative"); if(p != n) ctx.label("not-normalised");
	if(comps(n).size() > 1) ctx.nontrivial();
	ctx.key(hashBytes(p.data(), p.size() * 2)); ctx.key(hashBytes(q.data(), q.size() * 2));
}
const Def& pbt::definition()
{
	static Def d{"P19", "absolute and relative paths of up to 6 components (dots, dot-dots, several and empty extensions, blanks, non-Latin characters) with repeated and trailing separators; normal form, name, parent, extension, hidden and absolute test, copies, composition with a second path in both forms and order compared with the parts of the path. Non-trivial: at least two components; distinct by both paths.", 400000, 12000000, jmInit, run};
	d.assumptions = {"POSIX paths; the zero character is not used", "directories sort before other files, as compareTo does"};
	return d;
}
