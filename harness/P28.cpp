// P28: differences of two sequences. The script is observed through print(), whose lines name the
// operation and the element (Object::displayName, Object::printDiffInfo for the replacement).
#include "jmh.hpp"
#include <iostream>
#include <sstream>
#include <functional>
#include "core/DiffInfo.h"
struct Elem : jm::Object
{
	int cls, id, side;
	Elem(int c, int i, int sd) : cls(c), id(i), side(sd) {}
	bool equals(const jm::Object* o) const override { auto e = dynamic_cast<const Elem*>(o); return e && e->cls == cls; }
	jm::String displayName() const override { return JA((side ? "v" : "u") + std::to_string(id)); }
	void printDiffInfo(jm::DiffOperation, jm::Object* o) const override { std::cout << "with " << dynamic_cast<Elem*>(o)->displayName() << std::endl; }
};
struct Other : Elem { using Elem::Elem; };
struct Capture { std::ostringstream o; std::streambuf* old; Capture() { old = std::cout.rdbuf(o.rdbuf()); } ~Capture() { std::cout.rdbuf(old); } };
typedef std::vector<std::unique_ptr<Elem>> Seq;
static std::string asciiText(Src& s) { std::string o; size_t n = s.len(6); while(n--) o += s.pick({'a', 'A', 'b', 'Z', 'z', ' ', '0', '-', '>'}); return o; }
static std::vector<int> genU(Src& s, int alpha, size_t max) { std::vector<int> o; size_t n = s.len(max); for(size_t i = 0; i < n; i++) o.push_back((int)s.choice(alpha)); return o; }
static std::string show(const std::vector<int>& v) { std::string o; for(int x : v) o += (char)('a' + x % 26); return o; }
static int64 lev(const std::vector<int>& a, const std::vector<int>& b)
{
	std::vector<int64> p(b.size() + 1), q(b.size() + 1);
	for(size_t j = 0; j <= b.size(); j++) p[j] = (int64)j;
	for(size_t i = 1; i <= a.size(); i++)
	{
		q[0] = (int64)i;
		for(size_t j = 1; j <= b.size(); j++) q[j] = std::min({p[j] + 1, q[j - 1] + 1, p[j - 1] + (a[i - 1] != b[j - 1])});
		p.swap(q);
	}
	return p[b.size()];
}
// The value lines below a modification
static std::string captured(const std::function<void()>& f) { Capture c; f(); return c.o.str(); }
template<class T> static std::string dec(T v) { return std::to_string(v); }
static void values(Src& s, Ctx& ctx)
{
	jm::DiffOperation op = s.pick({jm::DiffOperation::kDiffAdd, jm::DiffOperation::kDiffDelete, jm::DiffOperation::kDiffModified, jm::DiffOperation::kDiffEqual, jm::DiffOperation::kDiffStart});
	bool one = op == jm::DiffOperation::kDiffAdd || op == jm::DiffOperation::kDiffDelete, mod = op == jm::DiffOperation::kDiffModified; std::string name = "l" + std::to_string(s.choice(99)), got, want, head = "  " + name + ": ", a, b; jm::String label = JA(name); bool diff = false;
	auto number = [](std::ostringstream& o, double d) { o << d; };
	switch(s.choice(7))
	{
		case 0: { int32 x = (int32)s.anyInt64(), y = s.coin() ? x : (int32)s.anyInt64(); got = captured([&] { jm::DiffInfo::print(op, x, y, label); }); a = dec(x); b = dec(y); diff = x != y; b += " delta: " + dec((int64)y - x); break; }
		case 1: { uint32 x = (uint32)s.any64(), y = s.coin() ? x : (uint32)s.any64(); got = captured([&] { jm::DiffInfo::print(op, x, y, label); }); a = dec(x); b = dec(y); diff = x != y; b += " delta: " + dec((int64)y - (int64)x); break; }
		case 2: { int64 x = s.anyInt64(), y = s.coin() ? x : s.anyInt64(); got = captured([&] { jm::DiffInfo::print(op, x, y, label); }); a = dec(x); b = dec(y); diff = x != y; b += std::string(" delta: ") + (y < x ? "-" : "") + dec(y < x ? (uint64)x - (uint64)y : (uint64)y - (uint64)x); break; }
		case 3: { uint64 x = s.any64(), y = s.coin() ? x : s.any64(); got = captured([&] { jm::DiffInfo::print(op, x, y, label); }); a = dec(x); b = dec(y); diff = x != y; b += std::string(" delta: ") + (y < x ? "-" : "") + dec(y < x ? x - y : y - x); break; }
		case 4: { double x = s.grid(-50, 50, 8), y = s.coin() ? x : s.grid(-50, 50, 8); got = captured([&] { jm::DiffInfo::print(op, x, y, label); }); std::ostringstream p, q; number(p, x); q << y << " delta: " << y - x; a = p.str(); b = q.str(); diff = x != y; break; }
		case 5: case 6: { bool ic = s.coin(); std::string x = asciiText(s), y = s.coin() ? x : asciiText(s); if(s.coin()) for(auto& c : y) if(s.coin() && isalpha(c)) c ^= 32;
			got = captured([&] { if(ic) jm::DiffInfo::printIgnoreCase(op, JA(x), JA(y), label); else jm::DiffInfo::print(op, JA(x), JA(y), label); });
			auto low = [](std::string t) { for(auto& c : t) c = (char)tolower(c); return t; }; a = x; b = y; diff = ic ? low(x) != low(y) : x != y; break; }
		default: { double c[6]; for(int i = 0; i < 6; i++) c[i] = i < 3 || s.chance(1, 3) ? s.grid(-9, 9, 4) : c[i - 3]; bool three = s.coin(); std::ostringstream p, q;
			if(three) { got = captured([&] { jm::DiffInfo::print(op, jm::Vertex3(c[0], c[1], c[2]), jm::Vertex3(c[3], c[4], c[5]), label); }); p << "[" << c[0] << " " << c[1] << " " << c[2] << "]"; q << "[" << c[3] << " " << c[4] << " " << c[5] << "]"; diff = c[0] != c[3] || c[1] != c[4] || c[2] != c[5]; }
			else { got = captured([&] { jm::DiffInfo::print(op, jm::Vertex2(c[0], c[1]), jm::Vertex2(c[3], c[4]), label); }); p << "[" << c[0] << " " << c[1] << "]"; q << "[" << c[3] << " " << c[4] << "]"; diff = c[0] != c[3] || c[1] != c[4]; }
			a = p.str(); b = q.str(); break; }
	}
	if(one) want = head + a + "\n"; else if(mod && diff) want = head + a + " -> " + b + "\n";
	NOTE("value line, operation " << (int)op << ": " << a << " | " << b);
	REQUIRE_EQ(got, want, << "(value line)");
	ctx.label(diff ? "values that differ" : "equal values"); if(mod && diff) ctx.nontrivial();
}
// Sequences with many equal elements
static void longSequence(Src& s, Ctx& ctx)
{
	static int count = 0; // long enough for any recursion to show, but not in every case
	size_t n = s.choice(200000); n += ++count <= 8 ? 200000 : 100; if(count > 8) n %= 3000; int edits = (int)s.choice(2); Elem x(1, 1, 0), y(2, 2, 1); jm::DiffDistance dd; std::vector<jm::Object*> v(n, &x);
	NOTE(n << " elements, " << edits << " added at the end");
	for(size_t i = 0; i < n; i++) dd.addU(&x);
	for(int k = 0; k < edits; k++) v.push_back(&y);
	for(auto o : v) dd.addV(o);
	jm::DiffBacktrace* b; { Capture c; b = dd.solve(); }
	REQUIRE_EQ(dd.distance(), (int64)edits, << "(distance)");
	std::string got = captured([&] { b->print(); }), want; for(int k = 0; k < edits; k++) want += "A v2\n";
	jm::DiffBacktrace* c = s.coin() ? new jm::DiffBacktrace(*b) : nullptr; delete b;
	if(c) { REQUIRE_EQ(captured([&] { c->print(); }), got, << "(script of the copy)"); delete c; }
	REQUIRE_EQ(got, want, << "(script)"); ctx.nontrivial(); ctx.label("long sequence");
}
static void run(Src& s, Ctx& ctx)
{
	if(s.chance(1, 12)) { values(s, ctx); return; }
	if(s.chance(1, 20000)) { longSequence(s, ctx); return; }
	jm::DiffDistance dd; int rounds = s.chance(20, 100) ? 2 : 1;
	for(int r = 0; r < rounds; r++)
	{
		int alpha = (int)s.pick({0, 1, 2, 3, 6, 25}); size_t max = s.chance(5, 100) ? 80 : 14;
		std::vector<int> a = genU(s, alpha, max), b;
		switch(s.weighted({4, 5, 2, 1}))
		{
			case 0: b = genU(s, alpha, max); break;
			case 1: { b = a; size_t e = 1 + s.len(5); for(size_t k = 0; k < e; k++) // few edits: the lazy evaluation stays near one diagonal
				{
					size_t at = s.choice(b.size()); int c = (int)s.choice(alpha + 1);
					switch(s.choice(2)) { case 0: b.insert(b.begin() + (long)at, c); break; case 1: if(at < b.size()) b[at] = c; break; default: if(at < b.size()) b.erase(b.begin() + (long)at); }
				}
				if(s.coin()) std::swap(a, b); break; }
			case 2: { size_t f = s.choice(a.size()), t = f + s.choice(a.size() - f); b.assign(a.begin() + (long)f, a.begin() + (long)t); if(s.coin()) std::swap(a, b); break; }
			default: b = a;
		}
		bool mixed = s.chance(25, 100);
		NOTE("u=" << show(a) << " v=" << show(b) << (mixed ? " (elements of two types)" : ""));
		Seq u, v; auto mk = [&](int c, int i, int side) { return std::unique_ptr<Elem>(mixed && (c & 1) ? new Other(c, i, side) : new Elem(c, i, side)); };
		for(size_t i = 0; i < a.size(); i++) u.push_back(mk(a[i], (int)i, 0));
		for(size_t i = 0; i < b.size(); i++) v.push_back(mk(b[i], (int)i, 1));
		if(r) { dd.clear(); REQUIRE_EQ(dd.distance(), (int64)0, << "after clear()"); }
		if(s.coin()) { for(auto& e : u) dd.addU(e.get()); for(auto& e : v) dd.addV(e.get()); }
		else for(size_t i = 0; i < std::max(u.size(), v.size()); i++) { if(i < v.size()) dd.addV(v[i].get()); if(i < u.size()) dd.addU(u[i].get()); }
		std::string text; std::unique_ptr<jm::DiffBacktrace> bt; jm::DiffOperation first;
		{
			Capture c; bt.reset(dd.solve()); first = bt->operation();
			c.o.str(""); bt->print(); text = c.o.str();
		}
		if(s.chance(1, 4)) { std::unique_ptr<jm::DiffBacktrace> cp(new jm::DiffBacktrace(*bt)); if(s.coin()) bt.swap(cp); cp.reset(); REQUIRE_EQ(captured([&] { bt->print(); }), text, << "(script after copying and deleting one of the two)"); ctx.label("script copied"); }
		int64 want = lev(a, b);
		REQUIRE_EQ(dd.distance(), want, << "(the Levenshtein distance)");
		REQUIRE(first == jm::DiffOperation::kDiffStart, << "the script does not begin with the start entry");
		NOTE("script: " << text);
		// read the script
		struct Op { char kind; std::string x, y; }; std::vector<Op> ops; std::istringstream in(text); std::string line;
		while(std::getline(in, line))
		{
			REQUIRE(line.size() > 2, << "unexpected line \"" << line << "\"");
			if(line.compare(0, 5, "with ") == 0) { REQUIRE(!ops.empty() && ops.back().kind == 'M' && ops.back().y.empty(), << "replacement without a modification"); ops.back().y = line.substr(5); continue; }
			Op o{line[0], line.substr(2), ""};
			if(o.kind == 'R') { size_t at = o.x.find(" -> "); REQUIRE(at != std::string::npos && o.x.back() == ':', << "unexpected line \"" << line << "\""); o.y = o.x.substr(at + 4, o.x.size() - at - 5); o.x = o.x.substr(0, at); }
			REQUIRE(strchr("ADMR", o.kind), << "unexpected line \"" << line << "\"");
			ops.push_back(o);
		}
		REQUIRE_EQ((int64)ops.size(), want, << "(operations of the script)");
		// Walk both sequences: elements not mentioned must be equal in pairs; every operation takes the next
		// element of the sequence it belongs to. What has been built at the end is the second sequence.
		size_t i = 0, j = 0;
		auto num = [&](const std::string& nm, char side) { REQUIRE(nm.size() > 1 && nm[0] == side, << "operation on \"" << nm << "\", an element of the sequence " << (side == 'u' ? "first" : "second") << " was expected"); return (size_t)std::stoul(nm.substr(1)); };
		auto equalRun = [&](size_t ni, size_t nj) {
			REQUIRE(ni >= i && nj >= j && ni - i == nj - j, << "the script goes from (" << i << "," << j << ") to (" << ni << "," << nj << ") without an operation");
			for(; i < ni; i++, j++) REQUIRE(a[i] == b[j], << "u" << i << " and v" << j << " differ but are kept");
		};
		for(auto& o : ops)
		{
			if(o.kind == 'A') { size_t nj = num(o.x, 'v'); equalRun(i + (nj - j), nj); j++; }
			else if(o.kind == 'D') { size_t ni = num(o.x, 'u'); equalRun(ni, j + (ni - i)); i++; }
			else
			{
				size_t ni = num(o.x, 'u'), nj = num(o.y, 'v'); equalRun(ni, nj);
				REQUIRE(a[i] != b[j], << "equal elements are reported as changed");
				REQUIRE((o.kind == 'R') == (typeid(*u[i]) != typeid(*v[j])), << "kind of change of u" << i);
				i++; j++;
			}
		}
		equalRun(a.size(), b.size());
		if(want >= 2 && want < (int64)std::max(a.size(), b.size())) ctx.nontrivial();
		ctx.label(a.size() > b.size() ? "first longer" : a.size() < b.size() ? "second longer" : "same length");
	}
}
const Def& pbt::definition()
{
	static Def d{"P28", "distance of at least two and smaller than the longer sequence", 400000, 8000000, jmInit, run};
	d.assumptions = {"element equality is an equivalence (the checks use elements with a class and a position)", "the script is read from print(), the only public access to its elements"};
	return d;
}
