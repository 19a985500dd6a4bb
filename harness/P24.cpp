// P24: undo and redo against a line of states
#include "undo_obj.hpp"
static void run(Src& s, Ctx& ctx)
{
	int alive0 = Part::alive; UndoManager* um = new UndoManager(); REQUIRE(!um->isActive(), << "a new manager is active"); um->setActive(true); REQUIRE(um->isActive());
	std::vector<Part*> pool; for(int i = 0; i < 3; i++) pool.push_back(new Part(i));
	std::vector<Model*> o; size_t n = 1 + s.choice(1); for(size_t i = 0; i < n; i++) o.push_back(new Model(um));
	History<State> h(snap(o)); size_t steps = 1 + s.len(60); int changes = 0, undos = 0, redos = 0, branch = 0; size_t deep = 0;
	int few = s.coin() ? (int)s.choice(Model::SLOTS - 1) : -1; // often the same member again and again
	for(size_t st = 0; st < steps; st++)
	{
		// tracking does not matter for what has been recorded
		size_t op = s.weighted({12, 6, 6, 5, 1, 1, 1, 1, 1}); bool off = ((op >= 1 && op <= 4) || op == 8) && s.choice(9) == 5; if(off) { NOTE("inactive: "); um->setActive(false); ctx.label("operation while inactive"); }
		switch(op)
		{
			case 0: { Model* m = o[s.choice(n - 1)]; int k = few >= 0 && s.chance(2, 3) ? few : (int)s.choice(Model::SLOTS - 1); NOTE("change " << k << "\n"); if(!h.redoS.empty()) branch++; m->change(s, k, pool); h.change(snap(o)); changes++; break; }
			case 1: NOTE("close\n"); um->close(); h.close(); break;
			case 2: { NOTE("undo\n"); bool r = um->undo(); REQUIRE_EQ(r, h.undo(), << "result of undo"); undos += r; break; }
			case 3: { NOTE("redo\n"); bool r = um->redo(); REQUIRE_EQ(r, h.redo(), << "result of redo"); redos += r; break; }
			case 4: NOTE("clear\n"); if(s.coin()) { um->clearStacks(); h.clear(); } else if(s.coin()) { um->clearRedoStack(); h.redoS.clear(); } else { um->clearUndoStack(); h.undoS.clear(); } break;
			case 5: { NOTE("inactive\n"); um->setActive(false); Model* m = o[s.choice(n - 1)]; um->registerChange(m, &m->i32); um->registerRetain(m); if(s.coin()) um->registerRegenerationMarker(m); um->setActive(true); break; } // nothing is recorded
			case 6: { NOTE("marker\n"); um->registerRegenerationMarker(o[0]); h.change(h.cur); break; }
			case 7: { NOTE("register only\n"); um->registerChange(o[0], &o[0]->d); h.change(h.cur); break; }
			case 8: { NOTE("all back\n"); um->close(); h.close(); bool r; do { r = um->undo(); REQUIRE_EQ(r, h.undo()); same(snap(o), h.cur, "walking back"); undos += r; } while(r); while(s.chance(9, 10)) { r = um->redo(); REQUIRE_EQ(r, h.redo()); same(snap(o), h.cur, "walking forth"); if(!r) break; } break; }
		}
		REQUIRE_EQ(um->isActive(), !off); if(off) um->setActive(true);
		same(snap(o), h.cur, "after the operation"); checkManager(um, h); deep = std::max(deep, h.undoS.size());
		for(Part* p : pool) REQUIRE(p->referenceCount() >= 1);
		for(Model* m : o) { REQUIRE(m->referenceCount() >= 1); if(m->part) REQUIRE(m->part->referenceCount() >= 1, << "the owned object is dead"); }
		if(um->openStep()) REQUIRE_EQ(um->openStep()->count > 0, h.open, << "changes in the open step");
	}
	// without history only the owned objects are left
	um->clearStacks(); h.clear(); checkManager(um, h); same(snap(o), h.cur, "after clearing the history");
	int owned = 0; for(Model* m : o) { if(m->part) { owned++; REQUIRE_EQ(m->part->referenceCount(), 1); } REQUIRE_EQ(m->referenceCount(), 1, << "the history has gone but still holds the object"); }
	REQUIRE_EQ(Part::alive - alive0, (int)pool.size() + owned, << "living objects");
	for(Model* m : o) { if(m->part) m->part->release(); m->release(); } for(Part* p : pool) { REQUIRE_EQ(p->referenceCount(), 1); p->release(); }
	um->release(); REQUIRE_EQ(Part::alive, alive0, << "objects left");
	if(changes > 1 && undos > 0) ctx.nontrivial(); if(branch) ctx.label("new change after undo"); if(redos) ctx.label("redo"); if(deep > 3) ctx.label("more than three steps");
}
const Def& pbt::definition()
{
	static Def d{"P24", "histories of 1..61 operations (recorded changes of every recordable type in one or two objects, often the same member repeatedly, step ends, undo, redo, clearing, registrations while inactive) against a line of snapshots. Non-trivial: at least two changes and one effective undo; distinct by choice sequence.", 100000, 3000000, jmInit, run};
	d.assumptions = {"Recordable types are those with a working change class (byte buffers throw 'not implemented' and are excluded). Owned objects are recorded with registerChange, registerRelease and registerRetain."};
	return d;
}
