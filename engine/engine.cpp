// See pbt.hpp. This file must not use anything of the library under test.
#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <ftw.h>
#include <time.h>
#include <errno.h>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <set>
#include <fstream>
#include <iostream>

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:quarantine_size_mb=24:malloc_context_size=6:exitcode=99:abort_on_error=0:"
	       "allocator_may_return_null=1:max_malloc_fill_size=1048576:detect_odr_violation=0:"
	       "hard_rss_limit_mb=3500:alloc_dealloc_mismatch=1:handle_segv=1:detect_stack_use_after_return=0:"
	       "allow_user_segv_handler=0:print_legend=0:print_full_thread_history=0";
}
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:history_size=2"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1"; }

// ---------------------------------------------------------------- content of fresh memory
// AddressSanitizer fills allocated memory with 0xbe. Cases are run with other contents, too, so that
// a result that depends on memory nobody set shows.
static int memFill = 190;
#if __has_feature(address_sanitizer)
#define MEMFILL 1
extern "C" void __sanitizer_malloc_hook(const volatile void* p, size_t n) { if(memFill != 190 && p && n <= 16384) memset((void*)p, memFill, n); }
#else
#define MEMFILL 0
#endif

// ---------------------------------------------------------------- coverage feedback
static uint8_t* covStart[64]; static uint8_t* covStop[64]; static int covN = 0;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* stop)
{
	if(start == stop) return;
	for(int i = 0; i < covN; i++) if(covStart[i] == start) return;
	if(covN < 64) { covStart[covN] = start; covStop[covN] = stop; covN++; }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

namespace pbt
{

enum Outcome { O_NONE = 0, O_OK = 1, O_FAIL = 2, O_HANG = 3, O_DISCARD = 4 };
constexpr int NLABEL = 160, NSAMPLE = 3, SAMPLELEN = 3000;

struct Shared
{
	volatile uint64_t caseIndex;
	volatile uint64_t done;
	volatile int outcome;
	volatile int fill;
	volatile size_t recLen;
	volatile size_t msgLen;
	char msg[65536];
	uint64_t evaluations, discards, nontrivial, corpusSize, covered, mutated;
	struct { char name[56]; uint64_t n; } labels[NLABEL];
	int nsamples;
	char samples[NSAMPLE][SAMPLELEN];
	char log[262144]; size_t logLen;
	Choice rec[MAXCHOICES];
};

static Shared* sh = nullptr;    // of this process
static std::string scratchBase; // of the supervisor
static std::string scratchOwn;

const std::string& scratchDir() { return scratchOwn; }

// ---------------------------------------------------------------- Src
uint64_t Src::choice(uint64_t max)
{
	uint64_t v = 0;
	size_t n = *recLen;
	if(n >= MAXCHOICES) { overrun = true; return 0; }
	if(mode == RANDOM || (extend && n >= scriptLen))
	{
		uint64_t r = splitmix(rng);
		if(max == ~0ull) v = r;
		else v = (uint64_t)(((unsigned __int128)r * (max + 1)) >> 64);
	}
	else if(n < scriptLen)
	{
		v = script[n].value;
		if(v > max) v = (max == ~0ull) ? v : v % (max + 1);
	}
	else { overrun = true; v = 0; }
	rec[n].value = v; rec[n].max = max;
	*recLen = n + 1;
	return v;
}

int64_t Src::si(int64_t lo, int64_t hi)
{
	// one choice; 0 -> 0, small values map to small magnitudes: 1 -> 1, 2 -> -1, ...
	uint64_t span = (uint64_t)hi - (uint64_t)lo;
	uint64_t c = choice(span);
	uint64_t p = (uint64_t)hi, m = (uint64_t)(-(lo + 0));
	uint64_t both = std::min(p, m);
	if(c <= 2 * both)
	{
		uint64_t mag = (c + 1) / 2;
		return (c & 1) ? (int64_t)mag : -(int64_t)mag;
	}
	uint64_t mag = c - both;
	return p > m ? (int64_t)mag : -(int64_t)mag;
}

size_t Src::len(size_t max)
{
	if(max == 0) return 0;
	uint64_t k = choice(9);
	if(k <= 2) return choice(std::min<size_t>(max, 3));
	if(k <= 6) return choice(std::min<size_t>(max, 12));
	if(k <= 8) return choice(std::min<size_t>(max, 40));
	return choice(max);
}

uint64_t Src::any64()
{
	switch(choice(5))
	{
		case 0: return choice(16);
		case 1: return choice(300);
		case 2: { uint64_t s = choice(63); uint64_t v = 1ull << s; int64_t d = si(-2, 2); v += (uint64_t)d; return coin() ? (uint64_t)(-(int64_t)v) : v; }
		case 3: { uint64_t s = choice(63); return (s == 63 ? ~0ull : ((1ull << (s + 1)) - 1)) & choice(~0ull); }
		case 4: { static const uint64_t t[] = {0, ~0ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffull, 0x7fffffffull, 0x80000000ull, 0xffffull, 0xffffffff80000000ull, 0xff, 0x80, 0xffffffffffffff80ull}; return t[choice(11)]; }
		default: return choice(~0ull);
	}
}

double Src::real(double lo, double hi)
{
	switch(choice(3))
	{
		case 0: { int64_t a = (int64_t)lo, b = (int64_t)hi; return (double)(a <= 0 && b >= 0 ? si(a, b) : i(a, b)); }
		case 1: { int64_t a = (int64_t)(lo * 8), b = (int64_t)(hi * 8); return (double)(a <= 0 && b >= 0 ? si(a, b) : i(a, b)) / 8.0; }
		default: { double f = (double)choice((1ull << 53) - 1) / (double)(1ull << 53); return lo + f * (hi - lo); }
	}
}

size_t Src::weighted(std::initializer_list<int> w)
{
	uint64_t t = 0; for(int x : w) t += (uint64_t)x;
	uint64_t c = choice(t - 1); size_t k = 0;
	for(int x : w) { if(c < (uint64_t)x) return k; c -= (uint64_t)x; k++; }
	return 0;
}

// ---------------------------------------------------------------- Ctx
void Ctx::count(const char* name, uint64_t n)
{
	for(int i = 0; i < NLABEL; i++)
	{
		if(sh->labels[i].name[0] == 0) { strncpy(sh->labels[i].name, name, sizeof sh->labels[i].name - 1); sh->labels[i].n = n; return; }
		if(strcmp(sh->labels[i].name, name) == 0) { sh->labels[i].n += n; return; }
	}
}
void Ctx::label(const char* name) { count(name, 1); }

void fail(const std::string& msg) { throw Failure{msg}; }

static void setMsg(const std::string& m)
{
	size_t n = std::min(m.size(), sizeof sh->msg - 1);
	memcpy(sh->msg, m.data(), n); sh->msg[n] = 0; sh->msgLen = n;
}

void failAbort(const std::string& msg)
{
	static volatile int once = 0;
	if(__sync_lock_test_and_set(&once, 1)) for(;;) usleep(1000);
	setMsg(msg); sh->outcome = O_FAIL;
	_exit(10);
}

std::string quote(const std::string& b)
{
	std::string o = "\""; char t[8];
	for(unsigned char c : b)
	{
		if(o.size() > 1200) { o += "..."; break; }
		if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if(c >= 32 && c < 127) o += (char)c;
		else { snprintf(t, sizeof t, "\\x%02x", c); o += t; }
	}
	return o + "\"";
}
std::string quote16(const std::u16string& s)
{
	std::string o = "u\""; char t[12];
	for(char16_t c : s)
	{
		if(o.size() > 1200) { o += "..."; break; }
		if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if(c >= 32 && c < 127) o += (char)c;
		else { snprintf(t, sizeof t, "\\u%04x", (unsigned)c); o += t; }
	}
	return o + "\"";
}
std::string hex(const void* p, size_t n, size_t max)
{
	std::string o; char t[4]; const uint8_t* b = (const uint8_t*)p;
	for(size_t i = 0; i < n && i < max; i++) { snprintf(t, sizeof t, "%02x", b[i]); o += t; }
	if(n > max) o += "...(" + std::to_string(n) + " bytes)";
	return o;
}

// ---------------------------------------------------------------- running one case
static std::string describeCurrentException();

static int runOne(Src& src, Ctx& ctx)
{
	const Def& d = definition();
	sh->outcome = O_NONE; sh->msgLen = 0;
	try
	{
		d.run(src, ctx);
		sh->outcome = O_OK;
	}
	catch(Discard&) { sh->outcome = O_DISCARD; }
	catch(Failure& f) { setMsg(f.msg); sh->outcome = O_FAIL; }
	catch(...) { setMsg("unexpected exception: " + describeCurrentException()); sh->outcome = O_FAIL; }
	return sh->outcome;
}

} // namespace pbt
// Harnesses which use the library provide this to name the library's own exceptions.
extern std::string (*pbtDescribeException)();
namespace pbt {

static std::string describeCurrentException()
{
	if(pbtDescribeException) return pbtDescribeException();
	try { throw; } catch(std::exception& e) { return e.what(); } catch(...) { return "unknown type"; }
}

// ---------------------------------------------------------------- CPU watchdog
static volatile uint64_t wdSeen = ~0ull; static volatile int wdTicks = 0; static int wdLimit = 4;
static void onProf(int)
{
	if(wdSeen == sh->caseIndex)
	{
		if(++wdTicks >= wdLimit) { sh->outcome = O_HANG; _exit(77); }
	}
	else { wdSeen = sh->caseIndex; wdTicks = 0; }
}
static void startWatchdog(int cpuSeconds)
{
	wdSeen = ~0ull; wdTicks = 0;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onProf; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
	int step = std::max(1, cpuSeconds / 4); wdLimit = std::max(2, cpuSeconds / step);
	itimerval tv; tv.it_interval.tv_sec = step; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
	setitimer(ITIMER_PROF, &tv, nullptr);
}

static void redirect(const char* file)
{
	fflush(stdout); fflush(stderr); std::cout.flush();
	int fd = open(file, O_WRONLY | O_CREAT | (strcmp(file, "/dev/null") ? O_TRUNC : 0), 0600);
	if(fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

static int rmOne(const char* p, const struct stat*, int, struct FTW*) { remove(p); return 0; }
static void removeTree(const std::string& d)
{
	if(d.rfind("/tmp/pbt-", 0) != 0 && d.rfind("/dev/shm/pbt-", 0) != 0) return;
	nftw(d.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS);
}

// ---------------------------------------------------------------- coverage map
struct Cov
{
	std::vector<uint8_t> virgin;
	size_t total = 0; uint64_t covered = 0;
	Cov() { for(int i = 0; i < covN; i++) total += (size_t)(covStop[i] - covStart[i]); virgin.assign(total, 0); }
	static uint8_t bucket(uint8_t c) { return c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
	void reset() { for(int i = 0; i < covN; i++) memset(covStart[i], 0, (size_t)(covStop[i] - covStart[i])); }
	bool collect()
	{
		bool fresh = false; size_t base = 0;
		for(int i = 0; i < covN; i++)
		{
			uint8_t* p = covStart[i]; size_t n = (size_t)(covStop[i] - covStart[i]); size_t k = 0;
			while(k < n)
			{
				if(k + 8 <= n) { uint64_t w; memcpy(&w, p + k, 8); if(w == 0) { k += 8; continue; } }
				size_t e = std::min(k + 8, n);
				for(; k < e; k++) if(p[k])
				{
					uint8_t b = bucket(p[k]); uint8_t& v = virgin[base + k];
					if(!(v & b)) { if(!v) covered++; v |= b; fresh = true; }
					p[k] = 0;
				}
			}
			base += n;
		}
		return fresh;
	}
};

static std::vector<Choice> mutate(const std::vector<std::vector<Choice>>& corpus, uint64_t& rng)
{
	auto rnd = [&](uint64_t n) { return n ? splitmix(rng) % n : 0; };
	// prefer recent entries
	size_t a = corpus.size() - 1 - (size_t)(rnd(2) ? rnd(corpus.size()) : rnd(std::min<size_t>(corpus.size(), 20)));
	std::vector<Choice> c = corpus[a];
	int k = 1 + (int)rnd(4);
	while(k-- > 0 && !c.empty())
	{
		size_t p = rnd(c.size());
		switch(rnd(8))
		{
			case 0: case 1: c[p].value = c[p].max == ~0ull ? splitmix(rng) : splitmix(rng) % (c[p].max + 1); break;
			case 2: if(c[p].value < c[p].max) c[p].value++; break;
			case 3: if(c[p].value) c[p].value--; break;
			case 4: c[p].value = rnd(2) ? 0 : c[p].max; break;
			case 5: { size_t n = 1 + rnd(8); n = std::min(n, c.size() - p); c.erase(c.begin() + (long)p, c.begin() + (long)(p + n)); break; }
			case 6: { size_t n = 1 + rnd(12); n = std::min(n, c.size() - p); std::vector<Choice> b(c.begin() + (long)p, c.begin() + (long)(p + n)); c.insert(c.begin() + (long)rnd(c.size() + 1), b.begin(), b.end()); break; }
			case 7:
			{
				const auto& o = corpus[rnd(corpus.size())]; if(o.empty()) break;
				size_t q = rnd(o.size()); size_t n = std::min<size_t>(o.size() - q, 1 + rnd(40));
				c.resize(p); c.insert(c.end(), o.begin() + (long)q, o.begin() + (long)(q + n)); break;
			}
		}
	}
	if(c.size() > MAXCHOICES / 2) c.resize(MAXCHOICES / 2);
	return c;
}

// Runs the cases of one worker, deterministic in (seed, worker, workers, until)
static void workerLoop(uint64_t seed, int worker, int workers, uint64_t total, const std::string& hashFile)
{
	const Def& d = definition();
	startWatchdog(d.cpuLimit);
	Cov cov; cov.reset();
	std::vector<std::vector<Choice>> corpus;
	std::unordered_set<uint64_t> keys;
	uint64_t mrng = hash64(hash64(seed, 77), (uint64_t)worker);
	uint64_t idHash = hashBytes(d.id, strlen(d.id));
	for(uint64_t k = (uint64_t)worker; k < total; k += (uint64_t)workers)
	{
		sh->caseIndex = k; sh->recLen = 0;
		Src src; Ctx ctx; src.rec = sh->rec; src.recLen = &sh->recLen;
		src.rng = hash64(hash64(idHash, seed), k);
		std::vector<Choice> script;
		if(!corpus.empty() && (int)(splitmix(mrng) % 100) < d.mutatePercent)
		{
			script = mutate(corpus, mrng);
			src.mode = Src::REPLAY; src.script = script.data(); src.scriptLen = script.size(); src.extend = true;
			sh->mutated++;
		}
		ctx.verbose = (sh->nsamples < NSAMPLE && k >= total / 4);
		static const int fills[] = {190, 0, 190, 255, 190, 0, 190, 1}; sh->fill = fills[hash64(k, 91) & 7];
		memFill = sh->fill; int o = runOne(src, ctx); memFill = 190;
		if(o == O_FAIL) _exit(10);
		bool fresh = cov.collect();
		sh->evaluations++;
		if(o == O_DISCARD) { sh->discards++; continue; }
		if(fresh && *src.recLen < 20000)
		{
			corpus.emplace_back(sh->rec, sh->rec + sh->recLen);
			if(corpus.size() > 3000) corpus.erase(corpus.begin(), corpus.begin() + 1000);
		}
		if(ctx.isNontrivial)
		{
			sh->nontrivial++;
			uint64_t h = ctx.caseKey;
			if(!ctx.hasKey) for(size_t i = 0; i < sh->recLen; i++) h = hash64(h, sh->rec[i].value);
			keys.insert(h);
			if(ctx.verbose)
			{
				std::string l = ctx.log.str(); if(l.size() >= SAMPLELEN) { l.resize(SAMPLELEN - 5); l += "..."; }
				if(!l.empty()) { memcpy(sh->samples[sh->nsamples], l.c_str(), l.size() + 1); sh->nsamples++; }
			}
		}
	}
	sh->corpusSize = corpus.size(); sh->covered = cov.covered;
	if(!hashFile.empty())
	{
		FILE* f = fopen(hashFile.c_str(), "wb");
		for(uint64_t h : keys) fwrite(&h, 8, 1, f);
		fclose(f);
	}
	sh->done = 1;
}

static Shared* newShared()
{
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shared*)p;
}

static double cpuOf(pid_t pid)
{
	char p[64]; snprintf(p, sizeof p, "/proc/%d/stat", (int)pid);
	std::ifstream f(p); std::string s; std::getline(f, s);
	size_t c = s.rfind(')'); if(c == std::string::npos) return 0;
	std::istringstream is(s.substr(c + 2)); std::string t; double u = 0, k = 0;
	for(int i = 0; i < 13 && is >> t; i++) { if(i == 11) u = atof(t.c_str()); if(i == 12) k = atof(t.c_str()); }
	return (u + k) / (double)sysconf(_SC_CLK_TCK);
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

enum Kind { K_OK, K_ASSERT, K_CRASH, K_HANG, K_DEADLOCK };
static const char* kindName[] = {"ok", "assertion", "crash", "does not terminate (CPU limit)", "deadlock"};

static int caseFill = 190; // for the cases to execute
struct Result { Kind kind = K_OK; std::string msg; std::vector<Choice> rec; std::string log; };

// Waits for a single child, watching for a deadlock
static int waitChild(pid_t pid, bool& deadlock, double idleSeconds)
{
	deadlock = false; int st = 0; double last = now(), lastCpu = 0; unsigned us = 200;
	for(;;)
	{
		pid_t r = waitpid(pid, &st, WNOHANG);
		if(r == pid) return st;
		if(now() - last > idleSeconds)
		{
			double c = cpuOf(pid);
			if(c - lastCpu < idleSeconds * 0.02) { deadlock = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); return st; }
			last = now(); lastCpu = c;
		}
		usleep(us); if(us < 5000) us = us * 3 / 2;
	}
}

static Kind classify(int st, bool deadlock, Shared* s)
{
	if(deadlock) return K_DEADLOCK;
	if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return K_OK;
	if(s->outcome == O_FAIL && WIFEXITED(st) && WEXITSTATUS(st) == 10) return K_ASSERT;
	if(WIFEXITED(st) && WEXITSTATUS(st) == 77) return K_HANG;
	return K_CRASH;
}

static std::string crashSummary(const std::string& file)
{
	std::ifstream f(file); std::string l, out; int frames = 0;
	while(std::getline(f, l))
	{
		if(l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("runtime error:") != std::string::npos || l.find("SUMMARY:") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("hard rss limit") != std::string::npos) out += l.substr(0, 300) + "\n";
		else if(l.find("    #") == 0 && frames < 14) { frames++; out += l.substr(0, 200) + "\n"; }
		if(out.size() > 6000) break;
	}
	return out;
}

// Executes a choice sequence in a child process
static Result execute(const std::vector<Choice>& script, Shared* s, bool verbose, int cpuLimit, double idle)
{
	Result r; std::string errFile = scratchBase + "/err";
	s->recLen = 0; s->outcome = O_NONE; s->msgLen = 0; s->logLen = 0; s->caseIndex = 0;
	fflush(stdout);
	pid_t pid = fork();
	if(pid == 0)
	{
		sh = s; scratchOwn = scratchBase + "/x"; mkdir(scratchOwn.c_str(), 0700);
		redirect(verbose ? errFile.c_str() : "/dev/null");
		startWatchdog(cpuLimit);
		Src src; Ctx ctx; src.mode = Src::REPLAY; src.script = script.data(); src.scriptLen = script.size();
		src.rec = s->rec; src.recLen = &s->recLen; ctx.verbose = verbose;
		memFill = caseFill; int o = runOne(src, ctx); memFill = 190;
		if(verbose) { std::string l = ctx.log.str(); size_t n = std::min(l.size(), sizeof s->log - 1); memcpy(s->log, l.data(), n); s->logLen = n; }
		_exit(o == O_FAIL ? 10 : 0);
	}
	bool dead; int st = waitChild(pid, dead, idle);
	r.kind = classify(st, dead, s);
	r.rec.assign(s->rec, s->rec + s->recLen);
	if(r.kind == K_ASSERT) r.msg = std::string(s->msg, s->msgLen);
	if(verbose) { r.log.assign(s->log, s->logLen); if(r.kind == K_CRASH) r.msg = crashSummary(errFile); if(r.kind == K_CRASH && r.msg.empty()) r.msg = "process ended with status " + std::to_string(st); }
	removeTree(scratchBase + "/x");
	return r;
}

static bool simpler(const std::vector<Choice>& a, const std::vector<Choice>& b)
{
	if(a.size() != b.size()) return a.size() < b.size();
	for(size_t i = 0; i < a.size(); i++) if(a[i].value != b[i].value) return a[i].value < b[i].value;
	return false;
}

static Result shrink(Result best, Shared* s, int cpuLimit, double idle, int budget, double seconds)
{
	double t0 = now();
	auto left = [&]() { return budget > 0 && now() - t0 < seconds; };
	auto attempt = [&](const std::vector<Choice>& c) -> bool
	{
		if(!left() || !simpler(c, best.rec)) return false;
		budget--;
		Result r = execute(c, s, false, cpuLimit, idle);
		if(r.kind == best.kind)
		{
			if(simpler(r.rec, c)) { best = r; return true; } // the case drew less than scripted
			r.rec = c.size() <= r.rec.size() ? c : r.rec;
			if(simpler(r.rec, best.rec)) { best = r; return true; }
		}
		return false;
	};
	bool changed = true;
	while(changed && left())
	{
		changed = false;
		// delete blocks
		for(size_t n = std::max<size_t>(1, best.rec.size() / 2); n >= 1 && left(); n = n > 8 ? n / 2 : n - 1)
		{
			for(size_t p = best.rec.size(); p >= n && left();)
			{
				p -= 1; if(p + n > best.rec.size()) { if(p < n) break; continue; }
				std::vector<Choice> c = best.rec; c.erase(c.begin() + (long)p, c.begin() + (long)(p + n));
				if(attempt(c)) { changed = true; if(p > best.rec.size()) p = best.rec.size(); }
				else if(n > 8) { p = p > n / 2 ? p - n / 2 : 0; if(p == 0) break; }
			}
		}
		// zero blocks
		for(size_t n : {(size_t)16, (size_t)4, (size_t)1}) for(size_t p = 0; p < best.rec.size() && left(); p += n)
		{
			std::vector<Choice> c = best.rec; bool any = false;
			for(size_t q = p; q < std::min(p + n, c.size()); q++) if(c[q].value) { c[q].value = 0; any = true; }
			if(any && attempt(c)) changed = true;
		}
		// minimise single values
		for(size_t p = 0; p < best.rec.size() && left(); p++)
		{
			uint64_t hi = best.rec[p].value, lo = 0; if(hi == 0) continue;
			{ std::vector<Choice> c = best.rec; c[p].value = hi - 1; if(!attempt(c)) { if(hi > 2) { c = best.rec; c[p].value = hi / 2; if(!attempt(c)) continue; } else continue; } changed = true; }
			hi = p < best.rec.size() ? best.rec[p].value : 0;
			while(lo + 1 < hi && left())
			{
				uint64_t mid = lo + (hi - lo) / 2; std::vector<Choice> c = best.rec; if(p >= c.size()) break; c[p].value = mid;
				if(attempt(c)) hi = mid; else lo = mid;
			}
		}
		// decrease length-like value while deleting what follows
		for(size_t p = 0; p + 1 < best.rec.size() && left(); p++)
		{
			if(best.rec[p].value == 0) continue;
			for(size_t n = 1; n <= 4 && left(); n++)
			{
				if(p + 1 + n > best.rec.size()) break;
				std::vector<Choice> c = best.rec; c[p].value--; c.erase(c.begin() + (long)p + 1, c.begin() + (long)(p + 1 + n));
				if(attempt(c)) { changed = true; break; }
			}
		}
	}
	return best;
}

static std::string jstr(const std::string& s)
{
	std::string o = "\""; char t[8];
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if(c == '\n') o += "\\n";
		else if(c == '\t') o += "\\t";
		else if(c < 32 || c >= 127) { snprintf(t, sizeof t, "\\u%04x", c); o += t; }
		else o += (char)c;
	}
	return o + "\"";
}

struct Opt { std::string tier = "quick", evidence, replayDir = ".", known, replay; uint64_t seed = 1; uint64_t cases = 0; int workers = 8; };

static int replayMain(const Opt& o)
{
	const Def& d = definition();
	std::ifstream f(o.replay); if(!f) { fprintf(stderr, "cannot read %s\n", o.replay.c_str()); return 2; }
	std::string line; std::vector<Choice> script; bool workerMode = false; uint64_t seed = 0, total = 0; int w = 0, ws = 0;
	while(std::getline(f, line))
	{
		if(line.rfind("choices:", 0) == 0) { std::istringstream is(line.substr(8)); uint64_t v; while(is >> v) script.push_back({v, ~0ull}); }
		if(line.rfind("fill:", 0) == 0) caseFill = atoi(line.c_str() + 5);
		if(line.rfind("worker:", 0) == 0) { std::istringstream is(line.substr(7)); is >> seed >> w >> ws >> total; workerMode = true; }
	}
	Shared* s = newShared();
	if(d.init) d.init();
	if(workerMode)
	{
		pid_t pid = fork();
		if(pid == 0) { sh = s; scratchOwn = scratchBase + "/x"; mkdir(scratchOwn.c_str(), 0700); redirect((scratchBase + "/err").c_str()); workerLoop(seed, w, ws, total, ""); _exit(0); }
		bool dead; int st = waitChild(pid, dead, 60); Kind k = classify(st, dead, s);
		printf("replay of worker %d/%d seed %llu: %s\n%s\n%s\n", w, ws, (unsigned long long)seed, kindName[k], std::string(s->msg, s->msgLen).c_str(), crashSummary(scratchBase + "/err").c_str());
		return k == K_OK ? 0 : 1;
	}
	Result r; for(int i = 0; i < (d.schedules ? 50 : 1); i++) { r = execute(script, s, true, d.cpuLimit, 60); if(r.kind != K_OK) break; }
	printf("%s\n--- result: %s\n%s\n", r.log.c_str(), kindName[r.kind], r.msg.c_str());
	return r.kind == K_OK ? 0 : 1;
}

struct Known { std::string property, key, text; };
static std::vector<Known> readKnown(const std::string& file)
{
	// lines: "finding: property=<id> key=<key> <text>" and "fixed: property=<id> <commit> <text>"
	std::vector<Known> out; std::ifstream f(file); std::string l;
	while(std::getline(f, l))
	{
		if(l.rfind("finding:", 0) != 0) continue;
		std::istringstream is(l.substr(8)); std::string p, k, rest; is >> p >> k; std::getline(is, rest);
		if(p.rfind("property=", 0) == 0 && k.rfind("key=", 0) == 0) out.push_back({p.substr(9), k.substr(4), rest.size() ? rest.substr(1) : ""});
	}
	return out;
}

static int mainImpl(const Opt& opt)
{
	const Def& d = definition();
	double t0 = now();
	uint64_t total = opt.cases ? opt.cases : (opt.tier == "thorough" ? d.thorough : d.quick);
	std::string replayPath = opt.replayDir + "/" + d.id + "-" + opt.tier + "-" + std::to_string(opt.seed) + ".replay";
	int violations = 0; std::string violationNote;
	std::vector<std::string> knownLines;

	auto writeReplay = [&](const std::string& body) { mkdir(opt.replayDir.c_str(), 0755); std::ofstream f(replayPath); f << "property: " << d.id << "\n" << body; };

	// 1. the library's initialisation must survive at all
	Shared* s0 = newShared();
	auto inChild = [&](std::function<int()> fn, std::string& err) -> int
	{
		s0->outcome = O_NONE; s0->msgLen = 0; s0->recLen = 0;
		pid_t pid = fork();
		if(pid == 0)
		{
			sh = s0; scratchOwn = scratchBase + "/x"; mkdir(scratchOwn.c_str(), 0700); redirect((scratchBase + "/err").c_str()); startWatchdog(d.cpuLimit);
			int rc = 98;
			try { rc = fn(); } catch(Failure& f) { setMsg(f.msg); } catch(...) { setMsg(describeCurrentException()); }
			_exit(rc);
		}
		bool dead; int st = waitChild(pid, dead, 60);
		removeTree(scratchBase + "/x");
		if(!dead && WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1)) return WEXITSTATUS(st);
		err = std::string(s0->msg, s0->msgLen) + "\n" + crashSummary(scratchBase + "/err");
		return -1;
	};
	std::string err;
	if(inChild([&]() { if(d.init) d.init(); return 0; }, err) != 0)
	{
		writeReplay("init: the harness' initialisation fails\nmessage:\n" + err + "\nchoices:\n");
		printf("initialisation of the library failed:\n%s\n", err.c_str());
		violations++; violationNote = "initialisation";
	}

	// 2. known findings
	std::vector<Known> known = readKnown(opt.known);
	if(!violations)
	{
		if(d.init) d.init();
		for(auto& pr : d.probes)
		{
			std::string what; char* buf = s0->log; buf[0] = 0;
			int rc = inChild([&]() { std::string w; bool f = pr.stillFails(w); snprintf(buf, 1000, "%s", w.c_str()); return f ? 1 : 0; }, err);
			bool fails = rc != 0; what = rc == -1 ? err : std::string(buf);
			if(!fails) continue;
			bool listed = false;
			for(auto& k : known) if(k.property == d.id && k.key == pr.key) { listed = true; knownLines.push_back(k.key + ": " + k.text); printf("KNOWN-FINDING: property=%s %s: %s\n", d.id, k.key.c_str(), k.text.c_str()); }
			if(!listed)
			{
				writeReplay("probe: " + std::string(pr.key) + "\nmessage:\n" + what + "\nchoices:\n");
				printf("probe %s fails: %s\n", pr.key, what.c_str()); violations++; violationNote = std::string("probe ") + pr.key;
			}
		}
	}

	// 3. generated cases
	int W = opt.workers; std::vector<Shared*> ss; std::vector<pid_t> pids((size_t)W, 0);
	for(int w = 0; w < W; w++) ss.push_back(newShared());
	int failed = -1; Kind kind = K_OK; std::string unrep;
	if(!violations)
	{
		fflush(stdout);
		for(int w = 0; w < W; w++)
		{
			pid_t pid = fork();
			if(pid == 0)
			{
				sh = ss[(size_t)w]; scratchOwn = scratchBase + "/w" + std::to_string(w); mkdir(scratchOwn.c_str(), 0700);
				redirect(d.schedules ? (scratchBase + "/err.w" + std::to_string(w)).c_str() : "/dev/null");
				workerLoop(opt.seed, w, W, total, scratchBase + "/hashes." + std::to_string(w));
				_exit(0);
			}
			pids[(size_t)w] = pid;
		}
		std::vector<double> lastT((size_t)W, now()), lastC((size_t)W, 0); std::vector<uint64_t> lastIdx((size_t)W, ~0ull);
		int running = W;
		while(running > 0)
		{
			for(int w = 0; w < W; w++)
			{
				size_t i = (size_t)w; if(!pids[i]) continue;
				int st; pid_t r = waitpid(pids[i], &st, WNOHANG); bool dead = false;
				if(r == 0)
				{
					if(ss[i]->caseIndex != lastIdx[i]) { lastIdx[i] = ss[i]->caseIndex; lastT[i] = now(); lastC[i] = cpuOf(pids[i]); }
					else if(now() - lastT[i] > 60)
					{
						double c = cpuOf(pids[i]);
						if(c - lastC[i] < 1.0) { kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); dead = true; }
						else { lastT[i] = now(); lastC[i] = c; }
					}
					if(!dead) continue;
				}
				pids[i] = 0; running--;
				Kind k = classify(st, dead, ss[i]);
				if(k == K_OK && !ss[i]->done) k = K_CRASH; // the process left early
				if(k != K_OK && failed < 0)
				{
					failed = w; kind = k;
					for(int v = 0; v < W; v++) if(pids[(size_t)v]) kill(pids[(size_t)v], SIGKILL);
				}
			}
			usleep(3000);
		}
	}

	// 4. a failure: confirm, shrink, write the replay file
	if(failed >= 0)
	{
		Shared* s = ss[(size_t)failed]; Shared* x = newShared();
		Result r; r.kind = kind; r.rec.assign(s->rec, s->rec + s->recLen); r.msg.assign(s->msg, s->msgLen);
		uint64_t idx = s->caseIndex;
		printf("case %llu of worker %d: %s %s\n", (unsigned long long)idx, failed, kindName[kind], r.msg.substr(0, 2000).c_str()); fflush(stdout);
		double idle = kind == K_DEADLOCK ? 20 : 60; int lim = d.cpuLimit;
		if(d.schedules && kind == K_CRASH && r.msg.empty()) { r.msg = crashSummary(scratchBase + "/err.w" + std::to_string(failed)); printf("%s\n", r.msg.c_str()); }
		auto confirm = [&](const std::vector<Choice>& c, bool verbose, Result& out)
		{
			if(d.schedules) { for(int i = 0; i < (kind == K_DEADLOCK ? 2 : 20); i++) { Result q = execute(c, x, verbose, lim, idle); if(q.kind != K_OK) { out = q; return 3; } } return 0; }
			int n = 0; for(int i = 0; i < 3; i++) { Result q = execute(c, x, verbose, lim, idle); if(q.kind != K_OK) { n++; out = q; } } return n;
		};
		caseFill = MEMFILL ? s->fill : 190; Result q; int n = confirm(r.rec, false, q);
		if(n == 3 && caseFill != 190) { int own = caseFill; Result o; caseFill = 190; if(confirm(r.rec, false, o) == 3) q = o; else caseFill = own; }
		if(n == 3)
		{
			Result first = q; first.rec = r.rec; first.kind = q.kind;
			bool slow = q.kind == K_HANG || q.kind == K_DEADLOCK;
			Result b = shrink(first, x, lim, idle, slow ? 6 : 4000, slow ? 100 : 40);
			Result v; int m = confirm(b.rec, true, v);
			if(m != 3) { b.rec = r.rec; m = confirm(b.rec, true, v); }
			if(m == 0) { v.kind = kind; v.msg = r.msg; }
			std::ostringstream body; body << "kind: " << kindName[v.kind] << "\nseed: " << opt.seed << "\ncase: " << idx << "\nmessage:\n" << v.msg << "\nrendering:\n" << v.log << (caseFill != 190 ? "\nfill: " + std::to_string(caseFill) + " (content of fresh memory)" : "") << "\nchoices:";
			for(auto& c : b.rec) body << ' ' << c.value;
			body << "\n"; writeReplay(body.str());
			if(caseFill != 190) printf("depends on the content of fresh memory (%d)\n", caseFill);
			printf("shrunk from %zu to %zu choices\n%s\n--- %s: %s\n", r.rec.size(), b.rec.size(), v.log.substr(0, 6000).c_str(), kindName[v.kind], v.msg.c_str());
			violations++; violationNote = v.msg;
		}
		else
		{
			// not reproducible alone: repeat the exact history of that worker
			int again = 0; std::string m2;
			for(int i = 0; i < (d.schedules ? 0 : 2); i++)
			{
				memset((void*)x, 0, sizeof *x);
				pid_t pid = fork();
				if(pid == 0) { sh = x; scratchOwn = scratchBase + "/x"; mkdir(scratchOwn.c_str(), 0700); redirect((scratchBase + "/err").c_str()); workerLoop(opt.seed, failed, W, idx + 1, ""); _exit(0); }
				bool dead; int st = waitChild(pid, dead, 60); removeTree(scratchBase + "/x");
				Kind k = classify(st, dead, x); if(k != K_OK) { again++; m2 = std::string(x->msg, x->msgLen) + "\n" + crashSummary(scratchBase + "/err"); }
			}
			if(again == 2 || n > 0 || d.schedules)
			{
				std::ostringstream body; body << "kind: " << kindName[kind] << "\nseed: " << opt.seed << "\ncase: " << idx << "\nmessage:\n" << r.msg << "\n" << m2;
				if(d.schedules) { body << "\nthis failure depends on the schedule and may need many repetitions\nchoices:"; for(auto& c : r.rec) body << ' ' << c.value; body << "\n"; }
				else body << "\nworker: " << opt.seed << ' ' << failed << ' ' << W << ' ' << idx + 1 << "\n";
				writeReplay(body.str()); violations++; violationNote = r.msg + m2;
				printf("the failure depends on the %s: %s\n", d.schedules ? "schedule" : "history of the process", m2.c_str());
			}
			else { unrep = std::string(kindName[kind]) + " " + r.msg; printf("not reproducible, not reported: %s\n", unrep.c_str()); }
		}
	}

	// 5. evidence
	uint64_t ev = 0, disc = 0, mut = 0, cov = 0, corpus = 0; std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> keys; std::vector<std::string> samples;
	for(int w = 0; w < W; w++)
	{
		Shared* s = ss[(size_t)w]; ev += s->evaluations; disc += s->discards; mut += s->mutated; corpus += s->corpusSize; cov = std::max(cov, s->covered);
		for(int i = 0; i < NLABEL && s->labels[i].name[0]; i++) labels[s->labels[i].name] += s->labels[i].n;
		if((int)samples.size() < 5) for(int i = 0; i < std::min(s->nsamples, 1 + (w == 0)); i++) samples.push_back(s->samples[i]);
		FILE* f = fopen((scratchBase + "/hashes." + std::to_string(w)).c_str(), "rb");
		if(f) { uint64_t h; while(fread(&h, 8, 1, f) == 1) keys.insert(h); fclose(f); }
	}
	double wall = now() - t0;
	if(!opt.evidence.empty())
	{
		std::ofstream f(opt.evidence);
		f << "{\n \"property\": " << jstr(d.id) << ",\n \"tier\": " << jstr(opt.tier) << ",\n \"seed\": " << opt.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
		  << "  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << keys.size() << ",\n  \"rule\": " << jstr(d.rule) << ",\n  \"discarded\": " << disc
		  << ",\n  \"mutated_from_coverage_corpus\": " << mut << ",\n  \"library_edges_covered_by_best_worker\": " << cov << ",\n  \"corpus_entries\": " << corpus << ",\n  \"classification\": {";
		bool firstL = true; for(auto& l : labels) { f << (firstL ? "" : ", ") << jstr(l.first) << ": " << l.second; firstL = false; }
		f << "},\n  \"samples\": ["; for(size_t i = 0; i < samples.size(); i++) f << (i ? ",\n   " : "\n   ") << jstr(samples[i]);
		f << "]\n },\n \"assumptions\": ["; bool fa = true; for(auto a : d.assumptions) { f << (fa ? "" : ", ") << jstr(a); fa = false; }
		f << "],\n \"known_findings\": ["; for(size_t i = 0; i < knownLines.size(); i++) f << (i ? ", " : "") << jstr(knownLines[i]);
		f << "],\n"; if(!unrep.empty()) f << " \"unreproduced\": " << jstr(unrep) << ",\n";
		f << " \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
	}
	printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu discarded, %llu edges, %.1f s\n", d.id, opt.tier.c_str(), (unsigned long long)opt.seed, (unsigned long long)ev, keys.size(), (unsigned long long)disc, (unsigned long long)cov, wall);
	if(getenv("PBT_LABELS")) for(auto& l : labels) printf("   %-50s %10llu  %6.2f%%\n", l.first.c_str(), (unsigned long long)l.second, ev ? 100.0 * (double)l.second / (double)ev : 0.0);
	if(violations) { printf("VIOLATION property=%s replay=%s\n", d.id, replayPath.c_str()); return 1; }
	return 0;
}

} // namespace pbt

int main(int argc, char** argv)
{
	pbt::Opt o;
	for(int i = 1; i < argc; i++)
	{
		std::string a = argv[i]; auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if(a == "--tier") o.tier = next();
		else if(a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--evidence") o.evidence = next();
		else if(a == "--replay-dir") o.replayDir = next();
		else if(a == "--known") o.known = next();
		else if(a == "--replay") o.replay = next();
		else if(a == "--cases") o.cases = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--workers") o.workers = atoi(next().c_str());
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	signal(SIGPIPE, SIG_IGN);
	char shm[] = "/dev/shm/pbt-XXXXXX", tmp[] = "/tmp/pbt-XXXXXX"; char* t = mkdtemp(shm); if(!t) t = mkdtemp(tmp); if(!t) { perror("mkdtemp"); return 2; }
	pbt::scratchBase = t; pbt::scratchOwn = t;
	pbt::sh = pbt::newShared();
	// keep the real stdout away from what the library prints
	int rc = o.replay.empty() ? pbt::mainImpl(o) : pbt::replayMain(o);
	pbt::removeTree(pbt::scratchBase);
	return rc;
}
