// P40: translations
#include "jmh.hpp"
typedef std::u16string M;
static std::string le(uint32_t v) { std::string o; for(int i = 0; i < 4; i++) o += (char)(v >> (8 * i)); return o; }
static uint32_t rd(const std::string& b, size_t p) { uint32_t v = 0; for(int i = 0; i < 4; i++) v |= (uint32_t)(uint8_t)b[p + (size_t)i] << (8 * i); return v; }

static M genText(Src& s, bool allowEmpty)
{
	M m; size_t n = s.chance(1, 8) ? 20 + s.choice(200) : (allowEmpty ? 0 : 1) + s.choice(8);
	if(s.chance(1, 3)) { static const char* words[] = {"File", "Open", "File not found: %1", "%1 of %2", "ERROR: ", "a", "b", "Datei", "Error"}; return W(words[s.choice(8)]); }
	for(size_t i = 0; i < n; i++) { char16_t c = genChar(s); if(c == 0 || (c >= 0xD800 && c <= 0xDFFF)) c = 'x'; m += c; if(s.choice(40) == 19) m += genPair(s); }
	return m;
}

struct Pair { std::string o, t; };
// A catalogue with its parts in any order
static std::string build(Src& s, const std::vector<Pair>& p, Ctx& ctx)
{
	size_t n = p.size(); std::string out(28, '\0'); size_t hdr = s.coin() ? 28 : 20; out.resize(hdr);
	int gap = (int)s.choice(3); auto pad = [&]() { for(int i = 0; i < gap; i++) out += (char)0xEE; };
	size_t to = 0, tt = 0; std::vector<uint32_t> oo(n), ot(n);
	auto texts = [&](bool trans) { std::vector<size_t> idx(n); for(size_t i = 0; i < n; i++) idx[i] = i; for(size_t i = n; i > 1; i--) std::swap(idx[i - 1], idx[s.choice(i - 1)]); bool nul = s.chance(3, 4);
		for(size_t i : idx) { (trans ? ot : oo)[i] = (uint32_t)out.size(); out += trans ? p[i].t : p[i].o; if(nul) out += '\0'; } };
	auto table = [&](bool trans) { (trans ? tt : to) = out.size(); out.append(8 * n, '\0'); };
	int order = (int)s.choice(3);
	auto fill = [&]() { for(size_t i = 0; i < n; i++) { out.replace(to + 8 * i, 8, le((uint32_t)p[i].o.size()) + le(oo[i])); out.replace(tt + 8 * i, 8, le((uint32_t)p[i].t.size()) + le(ot[i])); } };
	if(order == 0) { table(false); pad(); table(true); pad(); texts(false); pad(); texts(true); }
	else if(order == 1) { texts(true); pad(); texts(false); pad(); table(true); pad(); table(false); }
	else if(order == 2) { table(true); pad(); texts(true); pad(); table(false); pad(); texts(false); }
	else { pad(); texts(false); texts(true); table(false); table(true); }
	fill();
	out.replace(0, 20, le(0x950412de) + le(0) + le((uint32_t)n) + le((uint32_t)to) + le((uint32_t)tt));
	if(hdr == 28) out.replace(20, 8, le(s.coin() ? 0 : 7) + le((uint32_t)out.size()));
	return out;
}
// What a file of any content means. False: it is damaged or of another kind, so that nothing changes.
static bool parse(const std::string& b, std::vector<Pair>& out)
{
	if(b.size() < 20 || rd(b, 0) != 0x950412de || rd(b, 4) != 0) return false;
	uint64_t n = rd(b, 8), to = rd(b, 12), tt = rd(b, 16);
	if(to + 8 * n > b.size() || tt + 8 * n > b.size()) return false;
	for(uint64_t i = 0; i < n; i++)
	{
		uint64_t ol = rd(b, to + 8 * i), o = rd(b, to + 8 * i + 4), tl = rd(b, tt + 8 * i), t = rd(b, tt + 8 * i + 4);
		if(o + ol > b.size() || t + tl > b.size()) return false;
		out.push_back({b.substr(o, ol), b.substr(t, tl)});
	}
	return true;
}
static M lib(const std::string& bytes) { return U16(jm::String(bytes.data(), (int64)bytes.size())); }

struct Faulty : jm::MemoryStream
{
	int mode; int64 n;
	Faulty(uint8_t* b, int64 len, int m) : jm::MemoryStream(b, len), mode(m), n(len) {}
	jm::Status open(jm::FileMode f) override { if(mode == 0) return jm::Status::eError; return jm::MemoryStream::open(f); }
	int64 readFully(jm::ByteArray& b, int64 len) override { int64 got = jm::MemoryStream::readFully(b, len); return mode == 1 ? got - 1 : mode == 2 ? 0 : mode == 3 ? -1 : got; }
	int64 read(uint8* b, int64 len) override { int64 got = jm::MemoryStream::read(b, len); return mode == 1 ? got - 1 : mode == 2 ? 0 : mode == 3 ? -1 : got; }
	int64 size() const override { return mode == 4 ? 0 : n; }
};

static void run(Src& s, Ctx& ctx)
{
	std::unique_ptr<jm::I18nBundle> b(new jm::I18nBundle(s.coin() ? "de-DE" : "en"));
	std::map<M, M> model; std::vector<M> asked; size_t cats = 1 + s.choice(2), good = 0, entries = 0;
	for(size_t c = 0; c < cats; c++)
	{
		std::vector<Pair> p; std::vector<std::pair<M, M>> clean; size_t n = s.chance(1, 12) ? 40 + s.choice(200) : s.choice(7);
		if(s.chance(1, 3)) { p.push_back({"", "Content-Type: text/plain; charset=UTF-8\n"}); clean.push_back({M(), W("Content-Type: text/plain; charset=UTF-8\n")}); }
		for(size_t i = 0; i < n; i++)
		{
			M o = asked.size() && s.chance(1, 4) ? asked[s.choice(asked.size() - 1)] : genText(s, false), t = s.chance(1, 10) ? M() : genText(s, true);
			if(s.chance(1, 8)) { M ctxt = genText(s, false); o = ctxt + (char16_t)4 + o; }
			std::string ob = utf8Ref(o), tb = utf8Ref(t);
			if(s.chance(1, 8)) { ob += '\0' + utf8Ref(genText(s, true)); tb += '\0' + utf8Ref(genText(s, true)); ctx.label("plural forms"); }
			p.push_back({ob, tb}); clean.push_back({o, t}); asked.push_back(o);
		}
		std::string f = build(s, p, ctx); bool damaged = s.chance(2, 5); bool isGood = true; std::vector<Pair> got;
		if(damaged)
		{
			int k = (int)s.choice(5); std::string d = f;
			auto put = [&](size_t at, uint32_t v) { if(at + 4 <= d.size()) d.replace(at, 4, le(v)); };
			auto value = [&]() -> uint32_t { switch(s.choice(5)) { case 0: return (uint32_t)s.choice(40); case 1: return (uint32_t)(d.size() - s.choice(std::min<size_t>(12, d.size()))); case 2: return 0xFFFFFFFFu - (uint32_t)s.choice(40); case 3: return 0x7FFFFFFFu + (uint32_t)s.choice(2); case 4: return 0x20000000u + (uint32_t)s.choice(8); default: return (uint32_t)s.any64(); } };
			size_t times = 1 + s.choice(2);
			switch(k)
			{
				case 0: d.resize(s.choice(d.size())); break;
				case 1: for(size_t i = 0; i < times; i++) put(4 * s.choice(4), value()); break;
				case 2: { size_t t = rd(f, s.coin() ? 12 : 16); if(p.size()) for(size_t i = 0; i < times; i++) put(t + 4 * s.choice(2 * p.size() - 1), value()); break; }
				case 3: for(size_t i = 0; i < times; i++) d[s.choice(d.size() - 1)] ^= (char)(1 << s.choice(7)); break;
				case 4: { std::string h; for(int i = 0; i < 5; i++) for(int j = 3; j >= 0; j--) h += d[(size_t)(4 * i + j)]; d.replace(0, 20, h); break; } // the other byte order
				default: d = std::string(s.choice(60), (char)s.choice(255)); break;
			}
			static const char* kinds[] = {"truncated", "header changed", "table changed", "bits flipped", "other byte order", "something else"};
			NOTE("catalogue of " << p.size() << " messages, " << kinds[k] << ", " << d.size() << " bytes\n");
			f = d; isGood = parse(f, got); ctx.label(isGood ? "damage without effect on the structure" : "damaged catalogue");
			if(isGood) for(auto& q : got) { M o = lib(q.o); model[o] = lib(q.t); asked.push_back(o); }
		}
		else NOTE("catalogue of " << p.size() << " messages, " << f.size() << " bytes\n");
		uint8_t* mem = new uint8_t[f.size()]; memcpy(mem, f.data(), f.size()); int how = damaged ? (int)s.choice(1) : (int)s.choice(6);
		if(how == 1)
		{
			std::string path = scratchDir() + "/cat.mo"; FILE* o = fopen(path.c_str(), "wb"); fwrite(f.data(), 1, f.size(), o); fclose(o);
			jm::File file = jm::File(JA(path)); b->appendMo(&file); unlink(path.c_str()); ctx.label("file");
		}
		else if(how == 2) { Faulty st(mem, (int64)f.size(), (int)s.choice(4)); NOTE("stream fails, mode " << st.mode << "\n"); b->appendMo(&st); isGood = false; ctx.label("failing stream"); }
		else { jm::MemoryStream st(mem, (int64)f.size()); b->appendMo(&st); }
		delete[] mem;
		if(!damaged && isGood) for(auto& q : clean) { model[q.first] = q.second; entries++; }
		if(isGood) good++;
		// every message, variations of them and other texts
		auto ask = [&](const M& k, const char* what)
		{
			auto it = model.find(k); M want = it == model.end() || it->second.empty() ? k : it->second, have = U16(b->translate(J(k)));
			REQUIRE(have == want, << what << " " << quote16(k) << " gives " << quote16(have) << " instead of " << quote16(want));
			REQUIRE(b->hasValue(J(k)) == (it != model.end()), << what << " " << quote16(k) << (it != model.end() ? " is missing" : " is contained"));
		};
		for(auto& q : model) ask(q.first, "message");
		REQUIRE(b->size() == (int64)model.size(), << "the bundle has " << b->size() << " entries instead of " << model.size());
		for(int i = 0; i < 4; i++)
		{
			M k = genText(s, true); if(asked.size() && s.coin()) { k = asked[s.choice(asked.size() - 1)]; if(k.size() && s.coin()) k.pop_back(); else k += (char16_t)' '; }
			ask(k, "text");
		}
	}
	if(entries >= 2 || good < cats) ctx.nontrivial();
	if(cats > 1 && good > 1) ctx.label("several catalogues");
	M k = genText(s, true); REQUIRE(U16(Tr(J(k))) == k, << "without a catalogue " << quote16(k) << " is translated");
}

const Def& pbt::definition()
{
	static Def d{"P40", "at least two messages read, or a damaged catalogue or failing stream", 100000, 2500000, jmInit, run};
	d.assumptions = {"messages end at the first NUL: of plural forms the singular is found", "little-endian catalogues of revision 0; every other kind is rejected", "an empty translation means the message is not translated"};
	return d;
}
