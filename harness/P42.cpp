// P42: the test framework
#include "jmh.hpp"
#include <sstream>
using jm::String;
struct Step { int op = 0; bool pass = true; std::string msg; int64 a = 0, b = 0; double x = 0, y = 0; std::u16string s, t; };
static std::vector<int> gRuns;
struct Case : jm::Test
{
	std::vector<Step> steps; int id = 0, ends = 0; std::string thrown; std::vector<std::pair<int64, int64>> seen;
	void doTest() override
	{
		gRuns.push_back(id);
		for(auto& st : steps)
		{
			String m = JA(st.msg);
			switch(st.op)
			{
				case 0: testEquals(st.a, st.b, m); break;
				case 1: testEquals(st.a, (int32)st.b, m); break;
				case 2: testEquals((uint64)st.a, (uint64)st.b, m); break;
				case 3: testEquals((uint64)st.a, (int32)st.b, m); break;
				case 4: testEquals((uint64)st.a, (uint32)st.b, m); break;
				case 5: testEquals((int32)st.a, (int32)st.b, m); break;
				case 6: testEquals((uint32)st.a, (uint32)st.b, m); break;
				case 7: testEquals((uint32)st.a, (int32)st.b, m); break;
				case 8: testEquals((int32)st.a, (uint32)st.b, m); break;
				case 9: testEquals(st.x, st.y, m); break;
				case 10: testEquals((void*)(uintptr_t)st.a, (void*)(uintptr_t)st.b, m); break;
				case 11: testEquals(J(st.s), J(st.t), m); break;
				case 12: testEqualsIgnoreCase(J(st.s), J(st.t), m); break;
				case 13: testNull((void*)(uintptr_t)st.a, m); break;
				case 14: testNotNull((void*)(uintptr_t)st.a, m); break;
				case 15: testTrue(st.a != 0, m); break;
				case 16: testFalse(st.a != 0, m); break;
				default: testFail(m); break;
			}
			seen.push_back({jm::gTestCount, jm::gErrorCount});
			if(!st.pass) REQUIRE(A(jm::System::lastErrorMessage()).compare(0, st.msg.size(), st.msg) == 0, << "the message of a failed assertion is \"" << A(jm::System::lastErrorMessage()) << "\" instead of \"" << st.msg << "\"");
		}
		if(!thrown.empty()) throw jm::Exception(JA(thrown));
	}
};
static int64 value(Src& s) { return s.coin() ? s.si(-3, 3) : s.chance(1, 2) ? (int64)s.pick({2147483647ll, -2147483648ll, 4294967295ll, 4294967296ll, 2147483648ll, 9223372036854775807ll, (long long)(-9223372036854775807ll - 1), 0ll, 1ll, -1ll}) : (int64)s.any64(); }

static Step genStep(Src& s, int no)
{
	Step st; st.op = (int)s.choice(17); st.msg = "message " + std::to_string(no) + (s.coin() ? " with %1" : "");
	st.a = value(s); st.b = s.coin() ? st.a : value(s); if(s.chance(1, 6)) st.b = st.a ^ (int64)(1ull << s.choice(63));
	switch(st.op)
	{
		case 0: st.pass = st.a == st.b; break;
		case 1: st.pass = st.a == (int64)(int32)st.b; break;
		case 2: st.pass = st.a == st.b; break;
		case 3: if((int32)st.b < 0) st.b = 7; st.pass = (uint64)st.a == (uint64)(int32)st.b; break; // a negative number in an unsigned comparison is left open
		case 4: st.pass = (uint64)st.a == (uint64)(uint32)st.b; break;
		case 5: st.pass = (int32)st.a == (int32)st.b; break;
		case 6: st.pass = (uint32)st.a == (uint32)st.b; break;
		case 7: st.pass = (int64)(uint32)st.a == (int64)(int32)st.b; break;
		case 8: st.pass = (int64)(int32)st.a == (int64)(uint32)st.b; break;
		case 9: { st.x = s.coin() ? s.real(-1e6, 1e6) : s.grid(-10, 10, 4); double d = s.pick({0.0, 1e-9, 9e-7, 1.2e-6, 1e-3, 1.0, 1e9, -9e-7, -1.2e-6, -1e-3, -5.0}); st.y = st.x + d; if(s.chance(1, 20)) st.y = NAN; if(s.chance(1, 20)) st.y = INFINITY; st.pass = std::fabs(st.x - st.y) <= 1e-6; break; }
		case 10: st.pass = st.a == st.b; break;
		case 11: case 12: { size_t n = s.choice(6); for(size_t i = 0; i < n; i++) st.s += s.coin() ? (char16_t)('a' + s.choice(3)) : genChar(s); st.t = st.s; if(s.coin() && n) { size_t p = s.choice(n - 1); if(s.coin()) st.t[p] = (char16_t)jm::Char(st.t[p]).toUpperCase().unicode(); else if(s.coin()) st.t[p] = genChar(s); else st.t.pop_back(); }
			auto low = [](std::u16string v) { for(auto& c : v) c = (char16_t)jm::Char(c).toLowerCase().unicode(); return v; };
			st.pass = st.op == 11 ? st.s == st.t : low(st.s) == low(st.t); break; }
		case 13: if(s.coin()) st.a = 0; st.pass = st.a == 0; break;
		case 14: if(s.coin()) st.a = 0; st.pass = st.a != 0; break;
		case 15: if(s.coin()) st.a = 0; st.pass = st.a != 0; break;
		case 16: if(s.coin()) st.a = 0; st.pass = st.a == 0; break;
		default: st.pass = false;
	}
	return st;
}

static void run(Src& s, Ctx& ctx)
{
	size_t T = s.choice(4); std::string arg; const char* argv[] = {"program", nullptr, nullptr}; int argc = 1; int64 single = -1;
	if(s.chance(1, 3)) { single = (int64)s.choice(T + 1); arg = std::to_string(single); argc = 2; }
	else if(s.chance(1, 6)) { arg = s.pick<std::string>({"", "x", "all", "one2"}); argc = 2; }
	if(argc == 2) argv[1] = arg.c_str();
	std::unique_ptr<jm::TestVector> vec(new jm::TestVector(argc, argv));
	std::vector<Case*> tests; size_t fails = 0, passes = 0;
	for(size_t i = 0; i < T; i++)
	{
		Case* c = new Case(); c->id = (int)i; c->setName(JA("Test number " + std::to_string(i))); REQUIRE(A(c->name()) == "Test number " + std::to_string(i), << "name of the test");
		size_t n = s.len(14); for(size_t k = 0; k < n; k++) c->steps.push_back(genStep(s, (int)(100 * i + k)));
		if(s.chance(1, 6)) c->thrown = "exception " + std::to_string(i);
		tests.push_back(c); vec->addTest(c);
		if(s.chance(1, 10)) vec->addTest(nullptr), tests.push_back(nullptr);
	}
	size_t rounds = 1 + s.choice(1);
	for(size_t r = 0; r < rounds; r++)
	{
		gRuns.clear(); for(auto c : tests) if(c) c->seen.clear();
		std::stringstream out; std::streambuf* old = std::cout.rdbuf(out.rdbuf()); int64 result;
		try { result = vec->execute(); } catch(...) { std::cout.rdbuf(old); throw; }
		std::cout.rdbuf(old);
		int64 total = 0, errors = 0; std::vector<int> runs; std::string text = out.str();
		auto count = [&](const std::string& m) { size_t n = 0; for(size_t p = text.find(m); p != std::string::npos; p = text.find(m, p + 1)) if(p + m.size() == text.size() || !isdigit((unsigned char)text[p + m.size()])) n++; return n; };
		for(size_t i = 0; i < tests.size(); i++)
		{
			bool runsNow = tests[i] && (single < 0 || single == (int64)i); if(!tests[i]) continue;
			if(!runsNow) { REQUIRE(tests[i]->seen.empty(), << "a test that was not selected was executed"); continue; }
			runs.push_back(tests[i]->id); int64 t = 0, e = 0; Case& c = *tests[i];
			NOTE("test " << i << ": " << c.steps.size() << " assertions" << (c.thrown.empty() ? "" : ", exception") << "\n");
			REQUIRE(c.seen.size() == c.steps.size(), << "test " << i << " ended after " << c.seen.size() << " assertions");
			for(size_t k = 0; k < c.steps.size(); k++)
			{
				Step& st = c.steps[k]; t++; if(!st.pass) e++;
				REQUIRE(c.seen[k].first == t && c.seen[k].second == e, << "after assertion " << k << " (kind " << st.op << ", " << st.a << ", " << st.b << ", " << st.x << ", " << st.y << ", " << quote16(st.s) << ", " << quote16(st.t) << "): " << c.seen[k].first << " assertions and " << c.seen[k].second << " errors instead of " << t << " and " << e);
				REQUIRE(count(st.msg.substr(0, st.msg.find(" with"))) == (st.pass ? 0u : 1u), << "the message of assertion " << k << (st.pass ? ", which passed, is shown" : " is not shown exactly once"));
				(st.pass ? passes : fails)++;
			}
			if(!c.thrown.empty()) { t++; e++; REQUIRE(count(c.thrown) >= 1, << "the message of the exception is not shown"); fails++; }
			total += t; errors += e;
			REQUIRE(text.find("Test finished! " + std::to_string(t) + " Tests, " + std::to_string(e) + " Errors.") != std::string::npos, << "summary of test " << i);
		}
		REQUIRE(gRuns == runs, << "the tests were not executed once each and in order");
		REQUIRE(result == errors, << "execute() returns " << result << " instead of " << errors << " errors");
		REQUIRE(jm::gTotalTestCount == total && jm::gTotalErrorCount == errors, << "in total " << jm::gTotalTestCount << " assertions, " << jm::gTotalErrorCount << " errors instead of " << total << ", " << errors);
		REQUIRE(jm::gTestCount == 0 && jm::gErrorCount == 0, << "the counters of a single test are not reset");
	}
	if(fails && passes) { ctx.nontrivial(); ctx.label("passed and failed assertions"); } if(single >= 0) ctx.label("single test"); if(rounds > 1) ctx.label("executed twice");
}

const Def& pbt::definition()
{
	static Def d{"P42", "passed and failed assertions in one execution", 120000, 2000000, jmInit, run};
	d.assumptions = {"comparing an unsigned number with a negative one is left open", "doubles are compared with the tolerance of 1E-6, so that infinite and undefined numbers equal nothing"};
	return d;
}
