// P06: LinkedList against a sequence, with and without undo
#include "history.hpp"
using namespace jm;
struct Item: public Object { int id; explicit Item(int i): id(i) {} };
typedef std::vector<int> V;
typedef std::vector<V> State;
static std::string show(const V& v) { std::string o = "["; for(int x : v) o += (char)('a' + x); return o + "]"; }
static int idOf(Object* o) { return o ? ((Item*)o)->id : -1; }

static void verify(Src& s, LinkedList* l, const V& m, bool full)
{
	REQUIRE_EQ((size_t)l->size(), m.size(), << "for " << show(m));
	REQUIRE_EQ(idOf(l->first()), m.empty() ? -1 : m.front(), << "first of " << show(m)); REQUIRE_EQ(idOf(l->last()), m.empty() ? -1 : m.back(), << "last of " << show(m));
	int how = full ? 3 : (int)s.choice(3);
	if(how & 1)
	{
		l->rewind(); V got; while(l->hasNext()) { got.push_back(idOf(l->next())); REQUIRE(got.size() <= m.size(), << "the list goes on behind " << show(got) << " expected " << show(m)); }
		REQUIRE(got == m, << "the list is " << show(got) << " instead of " << show(m));
	}
	if(how & 2)
	{
		LinkedListIterator it = l->iterator(); V got;
		for(size_t i = 0; i <= m.size(); i++)
		{
			REQUIRE_EQ(it.hasNext(), i < m.size(), << "iterator at " << i << " of " << show(m)); if(s.coin()) REQUIRE_EQ(idOf(it.seek()), i < m.size() ? m[i] : -1, << "seek at " << i);
			if(s.chance(1, 8)) { LinkedListIterator c(it); it = c; }
			if(s.chance(1, 30)) // an iterator at another place, and of another list, takes over the place of this one
			{
				LinkedList* o = new LinkedList(l); LinkedListIterator c = s.coin() ? l->iterator() : o->iterator(); for(size_t k = s.choice(3); k--;) (void)c.next(); c = it;
				if(s.coin()) it = c; else for(size_t k = i; k < m.size() && k < i + 4; k++) { REQUIRE(c.hasNext()); REQUIRE_EQ(idOf(c.next()), m[k], << "assigned iterator, element " << k << " of " << show(m)); }
				o->release();
			}
			Object* o = it.next(); REQUIRE_EQ(idOf(o), i < m.size() ? m[i] : -1, << "iterator element " << i << " of " << show(m));
		}
	}
}
static void run(Src& s, Ctx& ctx)
{
	const int N = 8; Item* items[N]; for(int i = 0; i < N; i++) items[i] = new Item(i);
	size_t nl = 1 + s.choice(1); bool undoable = s.chance(2, 3); UndoManager* um = undoable ? new UndoManager() : nullptr; if(um) um->setActive(true);
	Object* owner = new Object(); std::vector<LinkedList*> l; for(size_t i = 0; i < nl; i++) l.push_back(new LinkedList(owner));
	History<State> h((State(nl))); size_t steps = 1 + s.len(50); int edits = 0, undos = 0; size_t longest = 0;
	for(size_t st = 0; st < steps; st++)
	{
		size_t q = s.choice(nl - 1); V m = h.cur[q]; LinkedList* L = l[q]; bool changed = false; int op = (int)s.weighted({8, 5, 5, 4, 1, um ? 8 : 0, um ? 3 : 0});
		int a = (int)s.choice(N - 1), b = (int)s.choice(N - 1);
		if(!m.empty() && s.chance(2, 3)) a = m[s.choice(m.size() - 1)];
		switch(op)
		{
			case 0: { size_t n = longLen(s, 400); if(n == 0) n = 1; NOTE("add " << a << " to " << q << " " << n << " times\n"); while(n--) { L->add(items[a], um); m.push_back(a); a = (a + 3) % N; } changed = true; break; }
			case 1: { NOTE("addBefore " << a << "," << b << " in " << q << "\n"); L->addBefore(items[a], items[b], um); auto it = std::find(m.begin(), m.end(), a); if(it != m.end()) { m.insert(it, b); changed = true; } break; }
			case 2: { NOTE("remove " << a << " from " << q << "\n"); Status r = L->remove(items[a], um); auto it = std::find(m.begin(), m.end(), a); REQUIRE_EQ(r == Status::eOK, it != m.end(), << "status of remove"); if(it == m.end()) REQUIRE(r == Status::eNotFound); else { m.erase(it); changed = true; } break; }
			case 3:
			{
				if(!m.empty() && s.coin()) b = m[s.choice(m.size() - 1)];
				if(std::count(m.begin(), m.end(), a) > 1 || std::count(m.begin(), m.end(), b) > 1) break;
				NOTE("swap " << a << "," << b << " in " << q << "\n"); L->swapData(items[a], items[b], um);
				auto x = std::find(m.begin(), m.end(), a), y = std::find(m.begin(), m.end(), b); if(x != m.end() && y != m.end()) { std::iter_swap(x, y); changed = true; } break;
			}
			case 4: NOTE("clear " << q << "\n"); if(!s.chance(1, 2)) break; L->clear(um); changed = !m.empty(); m.clear(); break;
			case 5:
			{
				if(h.level > 0) break;
				switch(s.choice(4))
				{
					case 0: NOTE("close\n"); um->close(); h.close(); break;
					case 1: case 2: { size_t n = s.choice(2); NOTE("close, undo " << n + 1 << "\n"); if(s.chance(3, 4)) { um->close(); h.close(); } for(size_t i = 0; i <= n; i++) { REQUIRE_EQ(um->undo(), h.undo(), << "undo"); undos++; } break; }
					case 3: NOTE("redo\n"); REQUIRE_EQ(um->redo(), h.redo(), << "redo"); break;
					default: { NOTE("all back and forth\n"); um->close(); h.close(); bool r; do { r = um->undo(); REQUIRE_EQ(r, h.undo()); for(size_t i = 0; i < nl; i++) verify(s, l[i], h.cur[i], true); } while(r); if(s.coin()) do { r = um->redo(); REQUIRE_EQ(r, h.redo()); for(size_t i = 0; i < nl; i++) verify(s, l[i], h.cur[i], true); } while(r); undos++; break; }
				}
				m = h.cur[q]; break;
			}
			case 6:
			{
				if(h.level == 0 || s.chance(1, 3)) { NOTE("open transaction\n"); um->openTransaction(); h.begin(); }
				else
				{
					if(s.chance(1, 3)) { um->registerTransactionStatus(Status::eInvalidInput); h.status(true); }
					NOTE("close transaction " << h.failed << "\n"); Status r = um->closeTransaction(); REQUIRE_EQ(r == Status::eOK, h.end(), << "result of the transaction");
				}
				m = h.cur[q]; break;
			}
		}
		if(changed) { edits++; State n = h.cur; n[q] = m; if(um) h.change(n); else h.cur = n; }
		for(size_t i = 0; i < nl; i++) { verify(s, l[i], h.cur[i], false); longest = std::max(longest, h.cur[i].size()); }
		if(um) checkManager(um, h);
		if(s.chance(1, 12)) // a copy has elements of its own
		{
			LinkedList* c; if(s.coin()) c = new LinkedList(*L); else { c = new LinkedList(owner); size_t n = s.choice(3); while(n--) c->add(items[s.choice(N - 1)], nullptr); *c = *L; if(s.coin()) { LinkedList& self = *c; *c = self; } }
			V cm = h.cur[q]; verify(s, c, cm, true); if(s.coin()) { c->add(items[a], nullptr); cm.push_back(a); } else if(!cm.empty()) { REQUIRE(c->remove(items[cm[0]], nullptr) == Status::eOK); cm.erase(cm.begin()); }
			verify(s, c, cm, true); verify(s, L, h.cur[q], true); c->release(); verify(s, L, h.cur[q], true); ctx.label("copied");
		}
		for(Item* i : items) REQUIRE(i->referenceCount() >= 1, << "an element was released by the list");
	}
	while(h.level > 0) { REQUIRE_EQ(um->closeTransaction() == Status::eOK, h.end()); }
	for(size_t i = 0; i < nl; i++) verify(s, l[i], h.cur[i], true);
	if(s.coin()) // take it apart from random ends
		for(size_t i = 0; i < nl; i++) { V m = h.cur[i]; while(!m.empty()) { int a = s.coin() ? m.back() : m[s.choice(m.size() - 1)]; REQUIRE(l[i]->remove(items[a], um) == Status::eOK); m.erase(std::find(m.begin(), m.end(), a)); verify(s, l[i], m, true); } }
	for(auto x : l) x->clear(um);
	if(um) { um->clearStacks(); REQUIRE_EQ(um->undoCount() + um->redoCount(), 0u); }
	for(auto x : l) { verify(s, x, V(), true); x->release(); }
	if(um) um->release();
	for(Item* i : items) { REQUIRE_EQ(i->referenceCount(), 1, << "references to an element after everything has gone"); i->release(); }
	owner->release();
	if(edits > 2) ctx.nontrivial(); if(undos > 1) ctx.label("with undo"); if(nl > 1) ctx.label("two lists"); if(longest > 6) ctx.label("more than 6 elements"); if(!um) ctx.label("without undo manager");
}
const Def& pbt::definition()
{
	static Def d{"P06", "histories of 1..51 operations over one or two linked lists and (in two thirds of the cases) an undo manager with steps, undo, redo and transactions, against sequences and a line of states; walked by cursor and iterator after every operation. Non-trivial: more than two edits; distinct by choice sequence.", 300000, 6000000, jmInit, run};
	d.assumptions = {"Iterators and cursors are not used across modifications. swapData is used for elements contained at most once. With an undo manager every edit is recorded; lists are cleared with the manager before destruction, as documented."};
	return d;
}
