// P45: places, resources and language of an application
#define FS_REDIRECT
#include "fsguard.hpp"
#include <sstream>
#include <functional>
#include <clocale>
#include <sys/wait.h>
#include <sys/file.h>
using jm::System;

// ---- locales: one is compiled, the others are links to it (their content does not matter)
static std::string gLocales;
static const char* kLocales[] = {"de_DE.UTF-8", "de_AT.UTF-8", "de.UTF-8", "fr_FR.UTF-8", "pt_BR.UTF-8", "eo"};
static void initLocales()
{
	jmInit();
	char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if(n <= 0) return; self[n] = 0;
	std::string dir = self; dir = dir.substr(0, dir.rfind('/')) + "/../locales"; ::mkdir(dir.c_str(), 0755);
	int fd = open((dir + "/lock").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644); if(fd < 0) return;
	flock(fd, LOCK_EX);
	if(access((dir + "/done").c_str(), F_OK) != 0)
	{
		std::string c = "localedef -i de_DE -f UTF-8 '" + dir + "/de_DE.UTF-8' >/dev/null 2>&1 && cd '" + dir + "'";
		for(auto l : kLocales) if(std::string(l) != kLocales[0]) c += std::string(" && ln -sfn de_DE.UTF-8 ") + l;
		c += " && : > done"; if(system(c.c_str())) {}
	}
	if(access((dir + "/done").c_str(), F_OK) == 0) gLocales = dir;
	close(fd);
}
static std::string le(uint32_t v) { std::string o; for(int i = 0; i < 4; i++) o += (char)(v >> (8 * i)); return o; }
static std::string mo(const std::string& o, const std::string& t) { return le(0x950412de) + le(0) + le(1) + le(20) + le(28) + le((uint32_t)o.size()) + le(36) + le((uint32_t)t.size()) + le((uint32_t)(36 + o.size() + 1)) + o + '\0' + t + '\0'; }
static double strtodC(const std::string& t) { std::istringstream i(t); i.imbue(std::locale::classic()); double d = -1e300; i >> d; return d; }
static void makeDirs(const std::string& p) { for(size_t i = 1; i <= p.size(); i++) if(i == p.size() || p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0755); }

// What one process of the application sees. Empty, or what is wrong.
static std::string inProcess(const std::function<void()>& f)
{
	int fd[2]; if(pipe(fd)) return "harness: pipe";
	fflush(stdout); std::cout.flush(); pid_t pid = fork();
	if(pid == 0)
	{
		close(fd[0]); std::string bad;
		try { std::stringstream sink; std::cout.rdbuf(sink.rdbuf()); std::cerr.rdbuf(sink.rdbuf()); f(); }
		catch(Failure& e) { bad = "F" + e.msg; }
		catch(...) { bad = "F" + describeJm(); }
		if(bad.empty()) bad = "OK";
		if(write(fd[1], bad.data(), bad.size())) {}
		_exit(0);
	}
	close(fd[1]); std::string r; char b[4096]; ssize_t k; while((k = read(fd[0], b, sizeof b)) > 0) r.append(b, (size_t)k); close(fd[0]);
	int st; waitpid(pid, &st, 0);
	if(r == "OK") return "";
	if(r.empty()) return "the process ended with status " + std::to_string(st);
	return r.substr(1);
}
// candidates of a translation file, in the order in which they are asked
static std::vector<std::string> candidates(const std::string& file, std::string lang)
{
	for(auto& c : lang) if(c == '-') c = '_';
	size_t u = lang.find('_'); std::string shortL = u != std::string::npos && u > 0 ? lang.substr(0, u) : lang;
	return {file + "." + lang + ".mo", lang + ".mo", file + "." + shortL + ".mo", shortL + ".mo"};
}
static std::string component(Src& s) { std::string o; size_t n = 1 + s.choice(7); for(size_t i = 0; i < n; i++) o += s.pick({'a', 'b', 'x', 'Z', '0', '-', '_', ' ', '.', '+'}); if(o.find_first_not_of('.') == std::string::npos) o += 'q'; return o; }

static void run(Src& s, Ctx& ctx)
{
	std::string root = scratchDir() + "/p45"; ::mkdir(root.c_str(), 0755); clearDir(root);
	std::string home = root + "/home", share = root + "/share", cwd = root + "/" + component(s); makeDirs(home); makeDirs(share); makeDirs(cwd);
	std::string exec; size_t depth = s.choice(3); for(size_t i = 0; i < depth; i++) exec += "/" + component(s); if(s.choice(20) == 13) { size_t len = s.coin() ? 1015 + s.choice(20) : s.choice(3800); while(exec.size() < len) exec += "/" + std::string(s.choice(200), 'd') + component(s); ctx.label("long path of the executable"); } std::string execDir = exec.empty() ? "/" : exec, name = component(s); exec += "/" + name;
	// the environment
	std::map<std::string, std::string> env; for(auto v : {"LC_ALL", "LC_MESSAGES", "LANG", "LC_NUMERIC", "LC_TIME"})
		if(s.chance(2, 5)) env[v] = s.chance(1, 12) ? "" : s.chance(1, 25) ? "xx_YY.UTF-8" : s.chance(1, 6) ? s.pick<std::string>({"C", "POSIX", "C.UTF-8"}) : kLocales[s.choice(5)];
	auto get = [&](const char* v) { auto i = env.find(v); return i == env.end() ? std::string() : i->second; };
	auto category = [&](const char* c) { std::string r = get("LC_ALL"); if(r.empty()) r = get(c); if(r.empty()) r = get("LANG"); if(r.empty()) r = "C"; return r; };
	bool missing = false; for(auto c : {"LC_MESSAGES", "LC_NUMERIC", "LC_TIME", "LC_CTYPE"}) if(category(c) == "xx_YY.UTF-8" || (gLocales.empty() && category(c) != "C" && category(c) != "POSIX" && category(c) != "C.UTF-8")) missing = true; // then the locale stays "C"
	std::string locale = missing ? "C" : category("LC_MESSAGES"); if(locale == "POSIX") locale = "C"; std::string lang = locale.substr(0, locale.find('.'));
	bool userSet = s.coin(); std::string user = component(s), bundle = s.pick<std::string>({"", "de.test.app", "app"});
	NOTE("executable " << exec << ", bundle \"" << bundle << "\""); for(auto& e : env) NOTE(", " << e.first << "=" << e.second); NOTE("\n");
	// translations
	std::string file = s.pick<std::string>({"", "app", "de.test.app", "x"}), asked = s.pick<std::string>({"", "de_DE", "de-DE", "de", "fr_FR", "pt-BR", "eo", "de_AT", "_DE", "zh-Hans-CN", "ca_ES_valencia", "sr_RS-latin"});
	std::set<std::string> pool; for(auto& l : {lang, asked.empty() ? lang : asked, std::string("en"), std::string("de_DE")}) for(auto& f : {file, std::string(), std::string("other")}) { for(auto& c : candidates(f, l)) pool.insert(c); std::string t = l; for(auto& c : t) if(c == '-') c = '_'; size_t u = t.rfind('_'); if(u != std::string::npos && u > 0) for(auto& c : candidates(f, t.substr(0, u))) pool.insert(c); }
	std::map<std::string, std::string> there; makeDirs(share + "/translations"); int density = (int)s.choice(3);
	for(auto& c : pool) if(s.choice(3) < (size_t)density) { there[c] = mo("Hello", "[" + c + "]"); writeFileRaw(share + "/translations/" + c, there[c]); NOTE("file " << c << "\n"); }
	auto winner = [&](const std::string& f, const std::string& l) { for(auto& c : candidates(f, l)) if(there.count(c)) return c; return std::string(); };
	// a resource, and what is read from it
	std::string data = genBytes(s, 300), rname = s.coin() ? "icons/" + component(s) : component(s); if(rname == "translations") rname = "r"; if(rname.size() > 6) makeDirs(share + "/icons"); 
	if(rname.compare(0, 6, "icons/") == 0) makeDirs(share + "/icons");
	writeFileRaw(share + "/" + rname, data); struct Op { int k; int64 a; }; std::vector<Op> ops; size_t n = s.choice(10); for(size_t i = 0; i < n; i++) { Op o; o.k = (int)s.choice(4); o.a = s.chance(1, 6) ? (int64)s.choice(400) : (int64)s.choice(40); ops.push_back(o); }
	double num = s.grid(-4000, 4000, 8); bool gone = s.chance(1, 8); if(gone) ctx.label("current directory removed");
	std::string bad = inProcess([&]
	{
		for(auto v : {"LC_ALL", "LC_MESSAGES", "LANG", "LC_NUMERIC", "LC_TIME", "LC_CTYPE", "LANGUAGE"}) unsetenv(v);
		for(auto& e : env) setenv(e.first.c_str(), e.second.c_str(), 1);
		setenv("LOCPATH", gLocales.c_str(), 1); setenv("HOME", home.c_str(), 1); if(userSet) setenv("USER", user.c_str(), 1); else unsetenv("USER");
		setlocale(LC_ALL, "C"); REQUIRE(chdir(cwd.c_str()) == 0, << "harness: chdir"); fsExec() = exec; fsMapFrom() = "/usr/share/" + name; fsMapTo() = share;
		GuardOn g;
		System::init(JA(bundle));
		REQUIRE_EQ(A(System::language()), lang, << "(language)");
		REQUIRE_EQ(A(System::bundleId()), bundle, << "(bundle id)");
		REQUIRE_EQ(A(System::userId()), userSet ? user : std::string(), << "(user)");
		REQUIRE_EQ(A(jm::ExecPath()), exec, << "(ExecPath)"); REQUIRE_EQ(A(jm::ExecName()), name, << "(ExecName)"); REQUIRE_EQ(A(jm::ExecDir()), execDir, << "(ExecDir)");
		REQUIRE_EQ(A(jm::ResourceDir(JA(bundle)).absolutePath()), "/usr/share/" + name, << "(ResourceDir)");
		REQUIRE_EQ(A(jm::UserDir().absolutePath()), home, << "(UserDir)"); REQUIRE_EQ(A(jm::PropertyDir().absolutePath()), home + "/." + name, << "(PropertyDir)"); REQUIRE_EQ(A(jm::currentDir().absolutePath()), cwd, << "(currentDir)");
		// the default translation
		std::string w = bundle.empty() ? "" : winner("", lang);
		REQUIRE_EQ(A(Tr("Hello")), w.empty() ? std::string("Hello") : "[" + w + "]", << "(translation of Hello)"); REQUIRE_EQ(A(Tr("Bye")), std::string("Bye"), << "(text without translation)");
		REQUIRE_EQ(jm::I18nBundle::getDefault()->size(), (int64)!w.empty(), << "(number of translations)");
		// any translation
		{
			jm::Resource r = jm::I18nBundle::transFileByBundleId(JA(file), JA(asked)); w = winner(file, asked.empty() ? lang : asked);
			REQUIRE(r.exists() == !w.empty(), << "translation file for \"" << file << "\" and language \"" << asked << "\": " << (w.empty() ? "none exists, but one is reported" : w + " exists, but is not reported"));
			if(!w.empty())
			{
				jm::I18nBundle b(JA(asked)); b.appendMo(&r); std::string got = A(b.translate("Hello"));
				REQUIRE_EQ(got, "[" + w + "]", << "(translation file for \"" << file << "\" and language \"" << asked << "\")");
			}
		}
		// the resource
		{
			jm::Resource none(JA(rname + ".none")); REQUIRE(!none.exists() && none.size() <= 0, << "a missing resource exists"); REQUIRE(none.open(jm::FileMode::kRead) != jm::Status::eOK && !none.isOpen(), << "a missing resource was opened");
			jm::Resource r(JA(rname)), c(r), d(JA("other")); d = c; d = d; if(userSet) { jm::Resource tmp(JA("z")); tmp = r; }
			REQUIRE(r.exists() && c.exists() && d.exists(), << "resource " << rname << " does not exist"); REQUIRE_EQ(r.size(), (int64)data.size(), << "(size)"); REQUIRE_EQ(d.size(), (int64)data.size(), << "(size of the copy)");
			REQUIRE(!r.isOpen(), << "open before open()"); REQUIRE(r.open(jm::FileMode::kRead) == jm::Status::eOK && r.isOpen(), << "resource cannot be opened");
			int64 pos = 0, len = (int64)data.size();
			for(auto& o : ops)
			{
				jm::Resource& x = o.a % 3 == 0 ? d : r; // copies share the stream
				if(o.k == 0) { std::string b((size_t)o.a + 1, '#'); int64 got = x.read((uint8*)b.data(), o.a), want = std::max<int64>(0, std::min(o.a, len - pos)); REQUIRE_EQ(got, want, << "(read " << o.a << " bytes at " << pos << ")"); if(want > 0) REQUIRE(b.compare(0, (size_t)want, data, (size_t)pos, (size_t)want) == 0, << "wrong bytes at " << pos); REQUIRE(b[(size_t)std::max<int64>(want, 0)] == '#', << "read beyond the asked length"); pos += want; }
				else if(o.k == 1) { x.seek(o.a); pos = o.a; }
				else if(o.k == 2) { int64 m = o.a - 20; if(pos + m < 0) continue; x.move(m); pos += m; }
				else if(o.k == 3) { jm::ByteArray b(o.a, 0); int64 got = x.readFully(b, o.a), want = std::max<int64>(0, std::min(o.a, len - pos)); REQUIRE_EQ(got, want, << "(readFully " << o.a << " bytes at " << pos << ")"); for(int64 i = 0; i < want; i++) REQUIRE((char)b.get(i) == data[(size_t)(pos + i)], << "wrong byte at " << pos + i); pos += want; }
				REQUIRE_EQ(x.position(), pos, << "(position)");
			}
			d.close(); REQUIRE(!d.isOpen() && !r.isOpen(), << "open after close()");
		}
		// numbers look the same in every language
		std::ostringstream ns; ns.precision(17); ns << num; REQUIRE(JA(ns.str()).toDouble() == num, << ns.str() << " is read as " << JA(ns.str()).toDouble());
		jm::String t = jm::String::valueOf(num); REQUIRE(t.indexOf(jm::Char(',')) < 0 && strtodC(A(t)) == num, << "the number " << ns.str() << " is written as " << A(t));
		REQUIRE(fsEscape().empty(), << "the application changed " << fsEscape());
		if(gone) // the directory the application works in has been removed
		{
			REQUIRE(rmdir(cwd.c_str()) == 0, << "harness: rmdir"); jm::File f = jm::currentDir(), t = jm::TempDir();
			REQUIRE(f.isNull() && f.absolutePath().isEmpty() && t.isNull(), << "the removed current directory is \"" << A(f.absolutePath()) << "\"");
		}
		else REQUIRE_EQ(A(jm::TempDir().absolutePath()), cwd, << "(TempDir)");
		System::quit();
	});
	REQUIRE(bad.empty(), << bad);
	if(there.size() && !bundle.empty()) ctx.nontrivial();
	ctx.label(lang == "C" ? "language C" : lang.find(char(95)) == std::string::npos ? "language without region" : "language with region"); if(missing) ctx.label("locale not installed"); std::string w = winner(file, asked.empty() ? lang : asked); ctx.label(w.empty() ? "no translation file" : w == candidates(file, asked.empty() ? lang : asked)[0] ? "first candidate" : "later candidate");
	if(!bundle.empty() && !winner("", lang).empty()) ctx.label("application is translated"); if(depth == 0) ctx.label("executable in the root directory");
}

const Def& pbt::definition()
{
	static Def d{"P45", "an application with a bundle id and at least one translation file", 12000, 400000, initLocales, run};
	d.assumptions = {"Linux: resources lie below /usr/share/<name of the executable>; the path of the executable and this directory are simulated", "HOME is set", "locales without a modifier (@euro)"};
	return d;
}
