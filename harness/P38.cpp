// P38: object lifetimes
// BUILD: tsan
#include "jmh.hpp"
#include <thread>
#include <atomic>
#include <mutex>
#include <deque>
using jm::Object;
static const int MAXOBJ = 400;
static std::atomic<int> gDestroyed[MAXOBJ]; static std::mutex gOrderMutex; static std::vector<int> gOrder;
static void destroyedNow(int id) { gDestroyed[id]++; std::lock_guard<std::mutex> l(gOrderMutex); gOrder.push_back(id); }

struct Item { virtual ~Item() {} int id = 0; std::vector<std::pair<Object*, bool>> kids; virtual Object* obj() = 0; virtual Item* copy(int id) = 0; virtual void assign(Item* o) = 0; };
template<class B> struct T : B, Item
{
	T(int i) { id = i; }
	T(const T& o, int i) : B(o) { id = i; }
	~T() override { destroyedNow(id); for(auto& k : kids) { if(k.second) k.first->autorelease(); else k.first->release(); } }
	Object* obj() override { return this; }
	Item* copy(int i) override { return new T(*this, i); }
	void assign(Item* o) override { if(auto p = dynamic_cast<T*>(o)) static_cast<B&>(*this) = static_cast<const B&>(*p); }
};
struct Plain : Object { int payload = 0; };
struct Exc : jm::Exception { Exc() : jm::Exception("text") {} };
static Item* make(int kind, int id)
{
	switch(kind) { case 0: return new T<Plain>(id); case 1: return new T<jm::String>(id); case 2: return new T<jm::ByteArray>(id); case 3: return new T<jm::StringList>(id); case 4: return new T<Exc>(id); default: return new T<jm::FloatArray>(id); }
}
struct M { Item* it; Object* o; int refs = 1, owned = 1; bool bit = false, dead = false; std::vector<std::pair<int, bool>> kids; };

static void run(Src& s, Ctx& ctx)
{
	for(auto& d : gDestroyed) d = 0;
	gOrder.clear();
	jm::AutoreleasePool* pool = jm::System::autoreleasePool();
	pool->drain();
	std::vector<M> m; std::deque<int> pend; std::vector<int> order;
	std::function<void(int)> drop = [&](int i)
	{
		if(--m[(size_t)i].refs > 0) return;
		m[(size_t)i].dead = true; order.push_back(i);
		for(auto& k : m[(size_t)i].kids) { if(k.second) pend.push_back(k.first); else drop(k.first); }
	};
	auto drain = [&]() { while(!pend.empty()) { int i = pend.front(); pend.pop_front(); drop(i); } };
	auto compare = [&](const char* when)
	{
		REQUIRE(gOrder.size() == order.size() && gOrder == order, << when << ": " << gOrder.size() << " objects were destroyed instead of " << order.size() << (gOrder.size() == order.size() ? ", in another order" : ""));
		for(size_t i = 0; i < m.size(); i++)
		{
			REQUIRE((int)gDestroyed[i] == (m[i].dead ? 1 : 0), << when << ": object " << i << " destroyed " << (int)gDestroyed[i] << " times");
			if(m[i].dead) continue;
			REQUIRE(m[i].o->referenceCount() == m[i].refs, << when << ": object " << i << " has " << m[i].o->referenceCount() << " references instead of " << m[i].refs);
			REQUIRE(m[i].o->highBit() == m[i].bit, << when << ": mark of object " << i);
		}
	};
	size_t deaths = 0;
	if(!s.chance(1, 4))
	{
		size_t ops = 4 + s.len(70);
		auto pickOwned = [&]() -> int { std::vector<int> c; for(size_t i = 0; i < m.size(); i++) if(m[i].owned > 0) c.push_back((int)i); return c.empty() ? -1 : c[s.choice(c.size() - 1)]; };
		int drains = 0; size_t pended = 0, kidsN = 0, copies = 0; std::unique_ptr<jm::AutoreleasePool> other;
		for(size_t k = 0; k < ops && m.size() < 120; k++)
		{
			int op = (int)s.weighted({6, 4, 4, 5, 2, 5, 2, 2, 2, 1}); int i = op == 0 ? -1 : pickOwned();
			if(op != 0 && op != 4 && op != 9 && i < 0) op = 0;
			std::string what;
			switch(op)
			{
				case 0: { M x; x.it = make((int)s.choice(5), (int)m.size()); x.o = x.it->obj(); what = "new " + std::to_string(m.size()); m.push_back(x); break; }
				case 1: { what = "retain"; REQUIRE(m[i].o->retain() == m[i].o, << "retain returns another object"); m[i].refs++; m[i].owned++; break; }
				case 2: { what = "release"; m[i].owned--; Object* o = m[i].o; drop(i); o->release(); break; }
				case 3: { what = "autorelease"; m[i].owned--; pend.push_back(i); pended++; REQUIRE(m[i].o->autorelease() == m[i].o, << "autorelease returns another object"); break; }
				case 4: { what = "drain"; drain(); pool->drain(); drains++; break; }
				case 5: { // hand one reference over to another object, which gives it up when it is destroyed
					std::vector<int> c; for(size_t q = (size_t)i + 1; q < m.size(); q++) if(m[q].owned > 0) c.push_back((int)q);
					if(c.empty()) { what = "-"; break; } int p = c[s.choice(c.size() - 1)]; // only younger objects own older ones: no cycles
					bool late = s.coin(); what = "give " + std::to_string(i) + " to " + std::to_string(p) + (late ? " (late)" : ""); m[i].owned--; m[p].kids.push_back({i, late}); m[p].it->kids.push_back({m[i].o, late}); kidsN++; break; }
				case 6: { bool b = s.coin(); what = "mark"; m[i].o->setHighBit(b); m[i].bit = b; break; }
				case 7: { M x; x.it = m[i].it->copy((int)m.size()); x.o = x.it->obj(); what = "copy"; m.push_back(x); copies++; break; }
				case 8: { int j = pickOwned(); what = "assign " + std::to_string(j); m[i].it->assign(m[j].it); copies++; break; }
				default: { what = "another pool"; if(other) { other->drain(); other.reset(); } else other.reset(new jm::AutoreleasePool()); }
			}
			NOTE(what << " " << i << "\n");
			compare(what.c_str());
		}
		for(size_t i = 0; i < m.size(); i++) while(m[i].owned > 0) { m[i].owned--; Object* o = m[i].o; drop((int)i); o->release(); compare("last release"); }
		drain(); pool->drain(); compare("last drain");
		for(size_t i = 0; i < m.size(); i++) REQUIRE(m[i].dead, << "harness: object " << i << " still alive");
		deaths = m.size();
		if(deaths >= 2 && (pended || kidsN || copies)) ctx.nontrivial();
		if(pended) ctx.label("autorelease"); if(kidsN) ctx.label("objects owning objects"); if(copies) ctx.label("copies");
		return;
	}
	// several threads on the same objects
	size_t N = 2 + s.choice(2), K = 1 + s.choice(3); int next = 0;
	for(size_t i = 0; i < K; i++) { M x; x.it = make((int)s.choice(5), next++); x.o = x.it->obj(); for(size_t t = 0; t < N; t++) { x.o->retain(); } m.push_back(x); }
	struct Step { int op, obj, id, id2, kind; };
	std::vector<std::vector<Step>> script(N); std::vector<char> bits(K, 0); size_t steps = 0;
	for(size_t t = 0; t < N; t++)
	{
		size_t n = s.len(25); steps += n;
		for(size_t k = 0; k < n; k++)
		{
			Step st; st.op = (int)s.choice(7); st.obj = (int)s.choice(K - 1); st.kind = (int)s.choice(5); st.id = st.id2 = 0;
			if(st.op == 3 || st.op == 4 || st.op == 5) { st.id = next++; if(st.op == 5) st.id2 = next++; }
			if(next > MAXOBJ - 4) break;
			if(st.op == 6) { if((size_t)st.obj % N != t) st.op = 0; else { st.kind = (int)s.choice(1); bits[(size_t)st.obj] = (char)st.kind; } }
			script[t].push_back(st);
		}
	}
	size_t mainDrains = s.choice(8);
	NOTE(N << " threads, " << K << " shared objects, " << steps << " steps, the main thread drains " << mainDrains << " times" << "\n");
	std::atomic<int> ready{0}; std::atomic<bool> go{false}; std::vector<std::thread> th;
	for(size_t t = 0; t < N; t++) th.emplace_back([&, t]()
	{
		ready++; while(!go) {}
		for(auto& st : script[t])
		{
			Object* o = m[(size_t)st.obj].o;
			switch(st.op)
			{
				case 0: o->retain(); o->release(); break;
				case 1: o->retain()->autorelease(); break;
				case 2: o->retain(); o->retain(); o->release(); o->release(); break;
				case 3: make(st.kind, st.id)->obj()->release(); break;
				case 4: make(st.kind, st.id)->obj()->autorelease(); break;
				case 5: { Item* p = make(st.kind, st.id); Item* c = make(st.kind, st.id2); p->kids.push_back({c->obj(), st.kind % 2 == 0}); o->retain(); p->kids.push_back({o, true}); p->obj()->autorelease(); break; }
				case 6: o->setHighBit(st.kind != 0); break;
				default: jm::System::autoreleasePool()->drain(); break;
			}
		}
		for(auto& x : m) x.o->release();
	});
	while(ready < (int)N) {}
	go = true;
	for(size_t k = 0; k < mainDrains; k++) { pool->drain(); std::this_thread::yield(); }
	for(auto& t : th) t.join();
	pool->drain();
	for(int i = 0; i < next; i++) REQUIRE((int)gDestroyed[i] == (i < (int)K ? 0 : 1), << "object " << i << " was destroyed " << (int)gDestroyed[i] << " times");
	for(size_t i = 0; i < K; i++)
	{
		REQUIRE(m[i].o->referenceCount() == 1, << "shared object " << i << " has " << m[i].o->referenceCount() << " references at the end");
		REQUIRE(m[i].o->highBit() == (bits[i] != 0), << "mark of shared object " << i);
		m[i].o->release();
		REQUIRE((int)gDestroyed[i] == 1, << "shared object " << i << " was destroyed " << (int)gDestroyed[i] << " times");
	}
	if(steps >= 4) { ctx.nontrivial(); ctx.label("threads"); }
}

const Def& pbt::definition()
{
	static Def d{"P38", "at least two objects with autorelease, ownership or copies, or at least four steps of several threads on shared objects", 20000, 600000, jmInit, run};
	d.schedules = true;
	d.assumptions = {"threads interleave as the scheduler of the machine lets them; data races are reported by ThreadSanitizer for the executed synchronisation, not only for the observed order", "a thread only touches objects to which it holds a reference"};
	return d;
}
