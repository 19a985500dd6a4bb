// P43: sessions of the system, log and exceptions
#include "fsguard.hpp"
#include <sstream>
#include <regex>
#include <sys/wait.h>
#include <link.h>
using jm::System; using jm::LogLevel;
typedef std::map<std::string, std::string> Map;

// What one session does, in a process of its own. The result is empty or tells what is wrong.
struct Act { int kind; std::string key, val; };
static std::string session(const std::string& bundle, const Map& before, const std::vector<Act>& acts, const std::string& home)
{
	int fd[2]; if(pipe(fd)) return "harness: pipe";
	fflush(stdout); std::cout.flush();
	pid_t pid = fork();
	if(pid == 0)
	{
		close(fd[0]); std::string bad;
		try
		{
			setenv("HOME", home.c_str(), 1);
			GuardOn g; std::stringstream sink; std::cout.rdbuf(sink.rdbuf());
			System::init(JA(bundle));
			REQUIRE(A(System::bundleId()) == bundle, << "bundle id is " << A(System::bundleId()));
			REQUIRE(System::preferences() != nullptr, << "no preferences"); jm::Preferences* p = System::preferences(); Map now = before;
			auto compare = [&](const char* when) { REQUIRE(p == System::preferences(), << "other preferences"); REQUIRE(p->size() == (int64)now.size(), << when << ": " << p->size() << " preferences instead of " << now.size()); for(auto& e : now) REQUIRE(A(p->value(JA(e.first))) == e.second, << when << ": preference " << e.first << " is \"" << A(p->value(JA(e.first))) << "\" instead of \"" << e.second << "\""); };
			compare("after init");
			for(auto& a : acts)
			{
				if(a.kind == 0) { p->setValue(JA(a.key), JA(a.val)); now[a.key] = a.val; }
				else if(a.kind == 1) System::savePreferences();
				else if(a.kind == 2) { System::quit(); REQUIRE(System::preferences() == nullptr && System::autoreleasePool() == nullptr, << "preferences or pool after quit"); break; }
				compare("later");
			}
			REQUIRE(fsEscape().empty(), << "the session touched " << fsEscape());
		}
		catch(Failure& f) { bad = "F" + f.msg; }
		catch(...) { bad = "F" + describeJm(); }
		if(bad.empty()) bad = "OK";
		if(write(fd[1], bad.data(), bad.size())) {}
		_exit(0);
	}
	close(fd[1]); std::string r; char b[4096]; ssize_t k; while((k = read(fd[0], b, sizeof b)) > 0) r.append(b, (size_t)k); close(fd[0]);
	int st; waitpid(pid, &st, 0);
	if(r == "OK") return "";
	if(r.empty()) return "the process of the session ended with status " + std::to_string(st);
	return r.substr(1);
}

static void sessions(Src& s, Ctx& ctx)
{
	std::string home = scratchDir() + "/home"; ::mkdir(home.c_str(), 0700); clearDir(home);
	std::map<std::string, Map> saved; size_t n = 2 + s.choice(3), kept = 0, lost = 0;
	for(size_t i = 0; i < n; i++)
	{
		std::string bundle = s.chance(3, 4) ? "de.test.app" : s.pick<std::string>({"other", "de.test.app2"}); Map now = saved[bundle]; const Map before = now; std::vector<Act> acts; size_t k = s.choice(5); bool q = s.chance(2, 3), dirty = false;
		for(size_t j = 0; j < k; j++)
		{
			Act a; a.kind = s.chance(1, 4) ? 1 : 0; a.key = s.pick<std::string>({"a", "b", "window.x", "lang", "c"}); a.val = s.chance(1, 8) ? "" : s.pick<std::string>({"1", "true", "two words", "a=b", "x\\y", "line\nbreak", "tab\tx", "\\n"}); if(s.coin()) a.val += std::to_string(s.choice(99));
			if(a.kind == 0) { now[a.key] = a.val; dirty = true; } else { saved[bundle] = now; dirty = false; kept++; }
			acts.push_back(a);
		}
		if(q) { acts.push_back({2, "", ""}); kept++; } else if(dirty) lost++;
		NOTE("session of " << bundle << " with " << k << " actions" << (q ? ", quit" : ", ends without quit") << "\n");
		std::string r = session(bundle, before, acts, home);
		REQUIRE(r.empty(), << "session " << i << ": " << r);
		if(q) saved[bundle] = now;
	}
	if(kept && n > 1) ctx.nontrivial(); ctx.label("sessions"); if(lost) ctx.label("session ended without quit");
}

static void logging(Src& s, Ctx& ctx)
{
	static const std::regex date("^\\[-?\\d{4,}-\\d\\d-\\d\\dT\\d\\d:\\d\\d:\\d\\d(\\.\\d{3})?Z\\] ");
	const char* labels[] = {"DEBUG: ", "INFO: ", "WARNING: ", "ERROR: "};
	bool withDate = true; int minLabel = 0; std::string lastError; bool known = false; size_t n = 1 + s.choice(15), printed = 0;
	struct Reset { ~Reset() { System::logEnableDate(true); System::logEnableLabel(LogLevel::kDebug); } } reset;
	System::logEnableDate(true); System::logEnableLabel(LogLevel::kDebug);
	for(size_t i = 0; i < n; i++)
	{
		switch(s.weighted({2, 2, 8, 3}))
		{
			case 0: withDate = s.coin(); System::logEnableDate(withDate); break;
			case 1: minLabel = (int)s.choice(3); System::logEnableLabel((LogLevel)minLabel); break;
			case 2:
			{
				int level = (int)s.choice(3); std::string m = "text " + std::to_string(i); if(s.coin()) m += s.pick<std::string>({" %1", " 100%", " ", "\ttab", " \"quoted\"", " [x]"}); if(s.chance(1, 10)) m = "";
				NOTE("log level " << level << " " << quote(m) << (withDate ? "" : ", without date") << ", labels from " << minLabel << "\n");
				std::stringstream out; std::streambuf* old = std::cout.rdbuf(out.rdbuf());
				try { System::log(JA(m), (LogLevel)level); } catch(...) { std::cout.rdbuf(old); throw; }
				std::cout.rdbuf(old); std::string t = out.str();
				if(level == 3) { lastError = m; known = true; }
				if(level == 0) { REQUIRE(t.empty(), << "a debug message is printed"); break; }
				printed++;
				std::smatch mm; bool hasDate = std::regex_search(t, mm, date); REQUIRE(hasDate == withDate, << (withDate ? "no date in " : "date in ") << quote(t)); if(hasDate) t = t.substr((size_t)mm.length(0));
				REQUIRE(t.size() && t.back() == '\n', << "the line does not end"); t.pop_back();
				std::string plain; for(size_t k = 0; k < t.size(); k++) { if(t[k] == 27) { while(k < t.size() && t[k] != 'm') k++; continue; } plain += t[k]; }
				std::string want = (level >= minLabel ? labels[level] : "") + m;
				REQUIRE(plain == want, << "logged " << quote(plain) << " instead of " << quote(want));
				REQUIRE((t.find('\033') != std::string::npos) == (level >= 2), << "colours of level " << level);
				if(level >= 2) REQUIRE(t.size() >= 4 && t.substr(t.size() - 4) == "\033[0m", << "colours are not reset in " << quote(t));
				break;
			}
			default:
			{
				std::string m = "failure " + std::to_string(i) + s.pick<std::string>({"", " %1", " \\"}); NOTE("exception " << quote(m) << "\n");
				std::stringstream out; std::streambuf* old = std::cout.rdbuf(out.rdbuf()); std::string got, again; bool caught = false, base = false;
				struct Restore { std::streambuf* o; ~Restore() { std::cout.rdbuf(o); } } restore{old};
				int how = (int)s.choice(3);
				auto boom = [&]() { if(how == 3) { std::unique_ptr<jm::Exception> tmp(new jm::Exception(JA(m))); jm::Exception c(*tmp); tmp.reset(); throw c; } throw jm::Exception(JA(m)); };
				try { if(how == 1) { try { boom(); } catch(jm::Exception& e) { again = A(e.errorMessage()); throw; } } else boom(); }
				catch(const jm::Exception& e) { caught = true; got = A(e.errorMessage()); if(how == 2) { jm::Exception c(e), d(JA("other")); d = c; got = A(d.errorMessage()); again = A(c.errorMessage()); lastError = "other"; base = true; } jm::String tr = e.GetStrackTrace(); REQUIRE(A(tr).find(m) != std::string::npos, << "stack trace without the message"); }
				REQUIRE(caught, << "not caught"); REQUIRE(got == m, << "the message of the exception is " << quote(got) << " instead of " << quote(m)); if(!again.empty()) REQUIRE(again == m, << "message of the copy");
				if(!base) lastError = m; known = true; break;
			}
		}
		if(known) REQUIRE(A(System::lastErrorMessage()) == lastError, << "the last error is " << quote(A(System::lastErrorMessage())) << " instead of " << quote(lastError));
	}
	if(printed) ctx.nontrivial(); ctx.label("log and exceptions");
}

static void libraries(Src& s, Ctx& ctx)
{
	static std::string path; if(path.empty()) { void* c = dlopen("libc.so.6", RTLD_NOLOAD | RTLD_NOW); struct link_map* l = nullptr; if(c && !dlinfo(c, RTLD_DI_LINKMAP, &l) && l) path = l->l_name; }
	char real[4096]; if(!realpath(path.c_str(), real)) return;
	std::stringstream out; struct Restore { std::streambuf* o; ~Restore() { std::cout.rdbuf(o); } } restore{std::cout.rdbuf(out.rdbuf())};
	bool there = s.coin(); jm::File f(JA(there ? std::string(real) : scratchDir() + "/none.so")); NOTE("library " << (there ? real : "missing") << "\n");
	void* h = System::loadDynamicLibrary(&f);
	REQUIRE((h != nullptr) == there, << "loading the library");
	if(h)
	{
		void* a = System::findSymbol(h, "strlen"); REQUIRE(a != nullptr && ((size_t(*)(const char*))a)("four") == 4, << "symbol");
		REQUIRE(System::findSymbol(h, "no_such_symbol_anywhere") == nullptr, << "missing symbol"); System::unloadDynamicLibrary(h);
	}
	if(const char* u = getenv("USER")) REQUIRE(A(System::userId()) == u, << "user id");
	ctx.nontrivial(); ctx.label("libraries");
}

static void run(Src& s, Ctx& ctx)
{
	switch(s.weighted({2, 10, 1})) { case 0: sessions(s, ctx); break; case 1: logging(s, ctx); break; default: libraries(s, ctx); }
}

const Def& pbt::definition()
{
	static Def d{"P43", "several sessions with saved preferences, printed log messages, or a library", 24000, 400000, jmInit, run};
	d.assumptions = {"each session is a process of its own, with HOME in a scratch directory", "preferences with texts in ASCII (P21 covers others)"};
	return d;
}
