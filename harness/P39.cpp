// P39: mutexes and threads
// BUILD: tsan
#include "jmh.hpp"
#include <thread>
#include <atomic>
#include <chrono>
#include <unistd.h>
using Clock = std::chrono::steady_clock;
static double msSince(Clock::time_point t) { return std::chrono::duration<double, std::milli>(Clock::now() - t).count(); }
static void pauseFor(int k) { if(k == 0) return; if(k < 4) { for(int i = 0; i < k; i++) std::this_thread::yield(); return; } usleep((unsigned)(k - 3) * 50); }

enum Work { FINITE, SPIN, SHORTSLEEP, DEEPSLEEP, LOCKED, NWORK };
struct Worker : jm::Thread
{
	Work work = FINITE; int n = 0, delay = 0; int64 ms = 1;
	// plain variables on purpose: interrupt() must order them
	int entered = 0, finished = 0; long counter = 0; bool wasMain = false;
	std::atomic<int> enteredA{0}; std::string first, last;
	static std::string name() { char b[32] = {}; pthread_getname_np(pthread_self(), b, sizeof b); return b; }
	void run() override
	{
		first = name(); entered++; enteredA++; wasMain = jm::Thread::isMainThread(); pauseFor(delay);
		switch(work)
		{
			case FINITE: for(int i = 0; i < n; i++) counter++; break;
			case SPIN: while(isAlive()) { counter++; std::this_thread::yield(); } break;
			case SHORTSLEEP: while(isAlive()) { counter++; if(ms > 1000) pauseFor(delay); sleep(ms); } break;
			case DEEPSLEEP: while(isAlive()) { counter++; sleep(); } break;
			default: for(int i = 0; i < n; i++) { lock(); long c = counter; if(i % 4 == 0) std::this_thread::yield(); counter = c + 1; unlock(); } break;
		}
		last = name(); finished++;
	}
	void add() { lock(); counter++; unlock(); }
	long get() { lock(); long c = counter; unlock(); return c; }
};
struct Sleeper : jm::Thread
{
	int64 ms = -1; std::atomic<bool> before{false}, after{false}; double took = 0;
	void run() override { auto t = Clock::now(); before = true; if(ms < 0) sleep(); else sleep(ms); took = msSince(t); after = true; }
};

static void lifecycle(Src& s, Ctx& ctx)
{
	size_t T = 1 + s.choice(2); std::vector<Worker*> w; /* left alone when an assertion fails: their threads may be running */ std::vector<int> starts(T, 0); std::vector<char> up(T, 0); std::vector<long> mine(T, 0), expected(T, 0); std::vector<std::string> before(T), during(T), next(T);
	size_t done = 0, early = 0, rep = 0;
	for(size_t i = 0; i < T; i++) w.push_back(new Worker());
	auto check = [&](size_t i, const char* when)
	{
		REQUIRE(w[i]->entered == starts[i], << when << ": thread " << i << " ran " << w[i]->entered << " times after " << starts[i] << " starts");
		REQUIRE(w[i]->finished == starts[i], << when << ": thread " << i << " has not completed its work");
		REQUIRE(!w[i]->isAlive(), << when << ": thread " << i << " still alive");
		if(w[i]->work == FINITE || w[i]->work == LOCKED) REQUIRE(w[i]->counter == expected[i], << when << ": thread " << i << " counted to " << w[i]->counter << " instead of " << expected[i]);
		if(starts[i]) REQUIRE(!w[i]->wasMain, << "a started thread is the main thread");
		if(starts[i] && !before[i].empty()) REQUIRE(w[i]->first == before[i], << when << ": thread " << i << " began as \"" << w[i]->first << "\" instead of \"" << before[i] << "\"");
		if(starts[i] && !during[i].empty()) REQUIRE(w[i]->last == during[i], << when << ": thread " << i << " ended as \"" << w[i]->last << "\" instead of \"" << during[i] << "\"");
	};
	size_t ops = 3 + s.choice(9);
	for(size_t k = 0; k < ops; k++)
	{
		size_t i = s.choice(T - 1); int p = (int)s.choice(8); pauseFor(p);
		switch(s.weighted({5, 4, 2, 2, 2, 1}))
		{
			case 0: if(up[i]) break; {
				Worker& x = *w[i]; x.work = (Work)s.choice(NWORK - 1); x.n = (int)s.choice(300); x.delay = (int)s.choice(6); x.ms = (int64)s.choice(4); if(s.chance(1, 3)) x.ms = 40000; x.counter = 0; expected[i] = x.n; mine[i] = 0;
				NOTE("start " << i << " work " << (int)x.work << "\n"); x.enteredA = 0; before[i] = next[i]; during[i] = ""; x.start(); starts[i]++; up[i] = 1; if(starts[i] > 1) rep++;
				if(s.coin()) { int q = (int)s.choice(6); pauseFor(q); } else early++; break; }
			case 1: NOTE("interrupt " << i << (up[i] ? "" : ", not running") << "\n"); { auto t = Clock::now(); w[i]->interrupt(); REQUIRE(msSince(t) < 25000, << "interrupt does not end a sleep"); } if(up[i]) done++; up[i] = 0; check(i, "interrupt"); break;
			case 2: if(up[i]) { if(w[i]->work != FINITE && w[i]->work != LOCKED) REQUIRE(w[i]->isAlive(), << "started thread " << i << " is not alive"); } else check(i, "idle"); break;
			case 3: w[i]->wakeUp(); break;
			case 4: if(up[i] && w[i]->work == LOCKED) { w[i]->add(); expected[i]++; long c = w[i]->get(); REQUIRE(c >= 1 && c <= expected[i], << "counter " << c); } break;
			default: { std::string nm = "w"; for(size_t q = s.choice(14); q; q--) nm += (char)('a' + s.choice(25)); NOTE("name " << i << " " << nm << "\n"); if(up[i]) while(!w[i]->enteredA) std::this_thread::yield(); w[i]->setName(JA(nm)); // only a thread that is surely running has to have the name at its end
				if(up[i]) { if(w[i]->work != FINITE && w[i]->work != LOCKED) during[i] = nm; } else next[i] = nm; break; }
		}
	}
	for(size_t i = 0; i < T; i++)
	{
		if(up[i] && (w[i]->work == FINITE || w[i]->work == LOCKED) && s.coin()) { while(!w[i]->enteredA) std::this_thread::yield(); }
		{ auto t = Clock::now(); w[i]->interrupt(); REQUIRE(msSince(t) < 25000, << "interrupt does not end a sleep"); } if(up[i]) done++; check(i, "end");
		if(s.coin()) { w[i]->interrupt(); check(i, "second interrupt"); }
		delete w[i];
	}
	REQUIRE(jm::Thread::isMainThread(), << "the main thread is not the main thread");
	if(done) ctx.nontrivial();
	ctx.label("threads started and interrupted"); if(early) ctx.label("interrupt soon after start"); if(rep) ctx.label("started again");
}

static void exclusion(Src& s, Ctx& ctx)
{
	size_t T = 2 + s.choice(3), N = 1 + s.choice(2); struct Guarded { jm::Mutex m; int inside = 0; long count = 0; }; std::unique_ptr<Guarded[]> g(new Guarded[N]);
	struct Step { size_t a, b; int p; }; std::vector<std::vector<Step>> sc(T); std::vector<long> want(N, 0); size_t steps = 0;
	for(auto& v : sc) { size_t n = 5 + s.choice(30); for(size_t k = 0; k < n; k++) { Step x{s.choice(N - 1), s.choice(N - 1), (int)s.choice(3)}; if(x.b < x.a) std::swap(x.a, x.b); want[x.a]++; if(x.b != x.a) want[x.b]++; v.push_back(x); steps++; } }
	NOTE(T << " threads, " << N << " mutexes, " << steps << " sections\n");
	std::atomic<int> ready{0}, bad{0}; std::vector<std::thread> th;
	for(size_t t = 0; t < T; t++) th.emplace_back([&, t]()
	{
		ready++; while(ready < (int)T) {}
		for(auto& x : sc[t])
		{
			Guarded& a = g[x.a]; Guarded& b = g[x.b];
			a.m.lock(); if(a.inside++) bad++;
			if(x.b != x.a) { b.m.lock(); if(b.inside++) bad++; }
			long c = a.count; pauseFor(x.p); a.count = c + 1; if(x.b != x.a) b.count++;
			if(x.b != x.a) { b.inside--; b.m.unlock(); }
			a.inside--; a.m.unlock();
		}
	});
	for(auto& t : th) t.join();
	REQUIRE(bad == 0, << "two threads were inside the same mutex");
	for(size_t i = 0; i < N; i++) REQUIRE(g[i].count == want[i], << "mutex " << i << ": " << g[i].count << " of " << want[i] << " changes");
	ctx.nontrivial(); ctx.label("critical sections");
}

// Sleeping. POSIX lets a wait end early for no reason, so "too early" only counts if it happens four times in a row.
static void sleeping(Src& s, Ctx& ctx)
{
	size_t T = 1 + s.choice(5); bool woken = s.coin(); std::vector<int64> ms;
	for(size_t i = 0; i < T; i++)
	{
		if(!woken) ms.push_back((int64)s.choice(40));
		else { int64 v = (int64)s.pick({-1, -1, 400, 999, 1000, 1001, 5000, 86400000}); if(v > 0 && s.coin()) v += (int64)s.choice(3000); if(v > 0 && s.chance(1, 4)) v *= 1000; ms.push_back(v); }
		NOTE("sleep " << ms.back() << (woken ? ", woken" : "") << "\n");
	}
	int how = (int)s.choice(1); std::vector<int> earlyCount(T, 0);
	for(int attempt = 0; attempt < 4; attempt++)
	{
		std::vector<Sleeper*> w; bool again = false;
		for(size_t i = 0; i < T; i++) { w.push_back(new Sleeper()); w[i]->ms = ms[i]; w[i]->start(); }
		if(!woken)
		{
			for(size_t i = 0; i < T; i++)
			{
				while(!w[i]->after) usleep(300);
				w[i]->interrupt();
				if(w[i]->took < (double)ms[i] - 1.5) { earlyCount[i]++; again = true; }
				REQUIRE(w[i]->took < (double)ms[i] + 15000, << "sleeping " << ms[i] << " ms took " << w[i]->took << " ms");
			}
		}
		else
		{
			for(size_t i = 0; i < T; i++) while(!w[i]->before) usleep(100);
			usleep(15000);
			for(size_t i = 0; i < T; i++) if(w[i]->after && w[i]->took < 50) { earlyCount[i]++; again = true; }
			for(size_t i = 0; i < T; i++)
			{
				auto t = Clock::now(); 
				if(how == 0 || ms[i] > 0) { while(!w[i]->after) { w[i]->wakeUp(); usleep(200); REQUIRE(msSince(t) < 15000 || w[i]->after, << "wakeUp does not end sleep"); } }
				w[i]->interrupt();
				REQUIRE(w[i]->after, << "interrupt returned while the thread slept");
			}
		}
		for(auto x : w) delete x;
		if(!again) break;
		for(size_t i = 0; i < T; i++) REQUIRE(earlyCount[i] < 4, << "sleep " << ms[i] << " ended too early in every attempt");
	}
	ctx.nontrivial(); ctx.label(woken ? "sleep until woken" : "sleep for a time");
}

// Mutex::sleep waits for wakeUp without holding the mutex
static void condition(Src& s, Ctx& ctx)
{
	int locks = 1 + (int)s.choice(5), p = (int)s.choice(8); int tooEarly = 0; size_t rounds = 1 + s.choice(2);
	for(size_t r = 0; r < rounds; r++, tooEarly = 0) for(int attempt = 0; attempt < 4; attempt++)
	{
		jm::Mutex m; std::atomic<bool> before{false}, after{false}; long shared = 0; double took = 0;
		std::thread& t = *new std::thread([&]() { before = true; auto b = Clock::now(); m.sleep(); took = msSince(b); after = true; m.lock(); shared++; m.unlock(); });
		while(!before) std::this_thread::yield();
		pauseFor(p);
		for(int i = 0; i < locks; i++) { m.lock(); shared++; m.unlock(); } // hangs if the sleeping thread holds the mutex
		usleep(5000); bool early = after;
		auto b = Clock::now();
		while(!after) { m.wakeUp(); usleep(100); REQUIRE(msSince(b) < 15000 || after, << "wakeUp does not end Mutex::sleep"); }
		t.join(); delete &t;
		m.lock(); long c = shared; m.unlock();
		REQUIRE(c == locks + 1, << "changes under the mutex: " << c);
		if(!early) break;
		tooEarly++; if(attempt == 3) REQUIRE(tooEarly < 4, << "Mutex::sleep ended without wakeUp in every attempt"); else continue;
	}
	NOTE("Mutex::sleep and wakeUp\n");
	ctx.nontrivial(); ctx.label("Mutex::sleep and wakeUp");
}

static void run(Src& s, Ctx& ctx)
{
	switch(s.weighted({12, 10, 1, 2}))
	{
		case 0: lifecycle(s, ctx); break;
		case 1: exclusion(s, ctx); break;
		case 2: sleeping(s, ctx); break;
		default: condition(s, ctx); break;
	}
}

const Def& pbt::definition()
{
	static Def d{"P39", "a started and interrupted thread, critical sections of several threads or a sleeping thread", 12000, 250000, jmInit, run};
	d.schedules = true;
	d.assumptions = {"threads interleave as the scheduler of the machine lets them; data races are reported by ThreadSanitizer for the executed synchronisation", "a wait may end early without reason, as POSIX permits: only four early ends in a row count", "a thread is not started again before it was interrupted", "an interrupted thread that sleeps again is woken at once (its sleep is ended by the same interrupt)"};
	return d;
}
