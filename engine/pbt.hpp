// Property-based testing engine used by every harness in /verif/harness.
//
// A case is a function of a *choice sequence* (like Hypothesis' internal representation):
// the harness draws every decision from Src, which either takes it from a seeded random
// generator, or from a recorded sequence (replay, shrinking, mutation of the corpus).
// Every choice that was drawn is written to memory shared with the supervising process, so
// a case that crashes the process (sanitizer report, signal, endless loop) is recovered,
// shrunk and written to a replay file exactly like one which fails an assertion.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <initializer_list>
#include <type_traits>

namespace pbt
{

constexpr size_t MAXCHOICES = 1 << 17;

struct Choice { uint64_t value; uint64_t max; }; // 0 <= value <= max, 0 is the simplest

struct Shared; // in engine.cpp

inline uint64_t splitmix(uint64_t& s)
{
	uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

inline uint64_t hash64(uint64_t h, uint64_t v)
{
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
	return h;
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0x1234)
{
	const uint8_t* b = (const uint8_t*)p;
	for(size_t i = 0; i < n; i++) h = hash64(h, b[i]);
	return h;
}

struct Failure { std::string msg; };
struct Discard {};

class Src
{
	public:
		// raw choice in 0..max
		uint64_t choice(uint64_t max);

		// lo..hi inclusive, shrinks towards lo
		uint64_t u(uint64_t lo, uint64_t hi) { return lo + choice(hi - lo); }
		int64_t i(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + choice((uint64_t)hi - (uint64_t)lo)); }
		// lo..hi inclusive with lo<=0<=hi, shrinks towards 0
		int64_t si(int64_t lo, int64_t hi);
		bool coin() { return choice(1) == 1; }
		// true with probability num/den, shrinks to false
		bool chance(uint64_t num, uint64_t den) { return choice(den - 1) >= den - num; }
		// length: usually short, sometimes up to max
		size_t len(size_t max);
		uint8_t byte() { return (uint8_t)choice(255); }
		// any 64 bit value with interesting magnitudes (powers of two, borders)
		uint64_t any64();
		int64_t anyInt64() { return (int64_t)any64(); }
		// double in lo..hi, on a grid or continuous
		double real(double lo, double hi);
		// grid value: multiple of 1/den in lo..hi
		double grid(int64_t lo, int64_t hi, int64_t den) { return (double)si(lo * den, hi * den) / (double)den; }

		template<class T> const T& pick(const std::vector<T>& v) { return v[choice(v.size() - 1)]; }
		template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + choice(v.size() - 1)); }
		// index by weight
		size_t weighted(std::initializer_list<int> w);

		bool exhausted() const { return overrun; }

		// -- engine side
		enum Mode {RANDOM, REPLAY};
		Mode mode = RANDOM;
		uint64_t rng = 0;
		const Choice* script = nullptr; size_t scriptLen = 0;
		bool extend = false; // replay: continue randomly after the script
		Choice* rec = nullptr; volatile size_t* recLen = nullptr;
		bool overrun = false;
};

// What a case reports about itself
class Ctx
{
	public:
		bool verbose = false;   // render the case
		std::ostringstream log; // rendering, only when verbose

		void label(const char* name);      // classification counter
		void count(const char* name, uint64_t n = 1);
		void nontrivial() { isNontrivial = true; }
		void key(uint64_t h) { caseKey = hash64(caseKey, h); hasKey = true; }

		bool isNontrivial = false;
		bool hasKey = false;
		uint64_t caseKey = 1;
};

struct Def
{
	const char* id;       // property id
	const char* rule;     // how cases are made and what is non-trivial
	uint64_t quick;       // number of cases in the quick tier
	uint64_t thorough;    // number of cases in the thorough tier
	void (*init)();       // once per process (after fork)
	void (*run)(Src&, Ctx&);
	// fraction (percent) of cases that are mutations of coverage-increasing ones
	int mutatePercent = 35;
	// extra assumptions for the evidence file
	std::vector<const char*> assumptions = {};
	// known-finding probes: name, returns true if the defect is still there
	struct Probe { const char* key; bool (*stillFails)(std::string& what); };
	std::vector<Probe> probes = {};
	// CPU seconds a single case may use before it counts as not terminating
	int cpuLimit = 20;
	bool schedules = false; // the outcome depends on the scheduler: a failure counts even if it does not repeat
};

extern const Def& definition(); // supplied by the harness

[[noreturn]] void fail(const std::string& msg);

// thread-safe failing (for properties with threads): records the failure and ends the process
[[noreturn]] void failAbort(const std::string& msg);

// A scratch directory for the running process, removed at the end
const std::string& scratchDir();

template<class T> std::string str(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

std::string quote(const std::string& bytes);
std::string quote16(const std::u16string& s);
std::string hex(const void* p, size_t n, size_t max = 64);

#define REQUIRE(cond, ...) do { if(!(cond)) { std::ostringstream pbt_o; pbt_o.precision(17); pbt_o << "[" #cond "] " __VA_ARGS__; ::pbt::fail(pbt_o.str()); } } while(0)
#define REQUIRE_EQ(a, b, ...) do { auto pbt_a = (a); auto pbt_b = (b); if(!(pbt_a == pbt_b)) { std::ostringstream pbt_o; pbt_o.precision(17); pbt_o << "[" #a " == " #b "] got " << pbt_a << ", expected " << pbt_b << ' ' __VA_ARGS__; ::pbt::fail(pbt_o.str()); } } while(0)
#define NOTE(...) do { if(ctx.verbose) { ctx.log << __VA_ARGS__; } } while(0)

}
