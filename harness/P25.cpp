// P25: nested transactions against a line of states
#include "undo_obj.hpp"
static void run(Src& s, Ctx& ctx)
{
	int alive0 = Part::alive; UndoManager* um = new UndoManager(); um->setActive(true);
	std::vector<Part*> pool; for(int i = 0; i < 3; i++) pool.push_back(new Part(i));
	std::vector<Model*> o; size_t n = 1 + s.choice(1); for(size_t i = 0; i < n; i++) o.push_back(new Model(um));
	History<State> h(snap(o)); size_t steps = 1 + s.len(70); int tchanges = 0, rolled = 0, committed = 0, undos = 0, depth = 0; Status last = Status::eOK;
	int few = s.coin() ? (int)s.choice(Model::SLOTS - 1) : -1;
	for(size_t st = 0; st < steps; st++)
	{
		switch(s.weighted({12, 5, 6, 2, 3, 3, 3, 1}))
		{
			case 0: { Model* m = o[s.choice(n - 1)]; int k = few >= 0 && s.chance(2, 3) ? few : (int)s.choice(Model::SLOTS - 1); NOTE("change " << k << "\n"); m->change(s, k, pool); h.change(snap(o)); if(h.level) tchanges++; break; }
			case 1: NOTE("open\n"); um->openTransaction(); if(h.level == 0) last = Status::eOK; h.begin(); depth = std::max(depth, h.level); break;
			case 2:
			{
				NOTE("close transaction at level " << h.level << "\n"); if(h.level == 0) { if(s.chance(1, 4)) { switch(s.choice(2)) { case 0: um->closeTransaction(); break; case 1: um->commit(); break; default: um->rollback(); } } break; }
				bool off = s.chance(1, 12); if(off) { NOTE("inactive: "); um->setActive(false); ctx.label("closed while inactive"); } struct On { UndoManager* um; ~On() { um->setActive(true); } } on{um};
				if(s.chance(1, 6)) { bool ok = s.coin(); NOTE((ok ? "commit\n" : "rollback\n")); if(ok) um->commit(); else um->rollback(); h.end(ok); if(h.level == 0) { last = Status::eOK; if(ok) committed++; else rolled++; ctx.label("committed or rolled back directly"); REQUIRE(um->transactionStatus() == Status::eOK, << "status left behind"); } break; }
				bool failed = h.failed; Status r = um->closeTransaction(); bool ok = h.end(); REQUIRE_EQ(r == Status::eOK, ok, << "result of closeTransaction"); if(failed) REQUIRE(r == last, << "status " << (int)r << " instead of the registered one");
				if(h.level == 0) { last = Status::eOK; if(ok) committed++; else rolled++; REQUIRE(um->transactionStatus() == Status::eOK, << "status left behind"); }
				break;
			}
			case 3:
			{
				Status t = s.pick<Status>({Status::eOK, Status::eNotChanged, Status::eInvalidInput, Status::eNotFound, Status::eInvalidInput}); NOTE("status " << (int)t << "\n");
				um->registerTransactionStatus(t); bool bad = t != Status::eOK && t != Status::eNotChanged; if(h.level > 0) { h.status(bad); if(bad) last = t; } break;
			}
			case 4: NOTE("close step\n"); um->close(); h.close(); break;
			case 5: { if(h.level) ctx.label("undo or redo while a transaction is open"); NOTE("undo\n"); bool r = um->undo(); REQUIRE_EQ(r, h.undo(), << "result of undo"); undos += r; } break;
			case 6: { if(h.level) ctx.label("undo or redo while a transaction is open"); NOTE("redo\n"); REQUIRE_EQ(um->redo(), h.redo(), << "result of redo"); } break;
			case 7: if(h.level == 0) { NOTE("clear\n"); um->clearStacks(); h.clear(); } break;
		}
		same(snap(o), h.cur, "after the operation"); checkManager(um, h);
		if(h.level > 0) REQUIRE(um->transactionStatus() == (h.failed ? last : Status::eOK), << "transaction status is " << (int)um->transactionStatus());
		for(Model* m : o) { REQUIRE(m->referenceCount() >= 1); if(m->part) REQUIRE(m->part->referenceCount() >= 1, << "the owned object is dead"); }
	}
	while(h.level > 0) { um->closeTransaction(); h.end(); same(snap(o), h.cur, "closing"); checkManager(um, h); }
	um->close(); h.close(); bool r; do { r = um->undo(); REQUIRE_EQ(r, h.undo()); same(snap(o), h.cur, "walking back"); } while(r);
	do { r = um->redo(); REQUIRE_EQ(r, h.redo()); same(snap(o), h.cur, "walking forth"); } while(r);
	um->clearStacks();
	int owned = 0; for(Model* m : o) { if(m->part) { owned++; REQUIRE_EQ(m->part->referenceCount(), 1); } REQUIRE_EQ(m->referenceCount(), 1, << "the history has gone but still holds the object"); }
	REQUIRE_EQ(Part::alive - alive0, (int)pool.size() + owned, << "living objects");
	for(Model* m : o) { if(m->part) m->part->release(); m->release(); } for(Part* p : pool) { REQUIRE_EQ(p->referenceCount(), 1); p->release(); }
	um->release(); REQUIRE_EQ(Part::alive, alive0, << "objects left");
	if(tchanges > 0 && (rolled || committed)) ctx.nontrivial(); if(rolled) ctx.label("rolled back"); if(committed) ctx.label("committed"); if(depth > 1) ctx.label("nested"); if(undos) ctx.label("undo between");
}
const Def& pbt::definition()
{
	static Def d{"P25", "histories of 1..71 operations with transactions opened, closed and nested at will, failures registered at every level and position, recorded changes of all types, step ends, undo and redo outside of transactions, against a line of snapshots. Non-trivial: a change inside a transaction that was closed; distinct by choice sequence.", 100000, 3000000, jmInit, run};
	d.assumptions = {"Undo and redo are refused while a transaction is open. commit and rollback, called directly, decide at the outermost level whatever status is registered, as documented."};
	return d;
}
