// Model of the undo manager: a line of states, an open step, and transactions.
#pragma once
#include "jmh.hpp"
template<class S> struct History
{
	S cur; std::vector<S> undoS, redoS; bool open = false; S base; int level = 0; bool failed = false; int tchanges = 0; S tbase;
	explicit History(const S& s): cur(s) {}
	// the state has changed to n, recorded by at least one change
	void change(const S& n)
	{
		if(level > 0) { tchanges++; cur = n; return; }
		if(!open) base = cur;
		open = true; redoS.clear(); cur = n;
	}
	void close() { if(open) { undoS.push_back(base); open = false; } }
	bool undo() { if(open || level || undoS.empty()) return false; redoS.push_back(cur); cur = undoS.back(); undoS.pop_back(); return true; }
	bool redo() { if(open || level || redoS.empty()) return false; undoS.push_back(cur); cur = redoS.back(); redoS.pop_back(); return true; }
	void begin() { if(level++ == 0) { tbase = cur; tchanges = 0; failed = false; } }
	void status(bool bad) { if(bad) failed = true; }
	bool end() { return end(!failed); }
	// the outermost level decides
	bool end(bool ok)
	{
		level--;
		if(level == 0)
		{
			if(!ok) cur = tbase;
			else if(tchanges > 0) { if(!open) base = tbase; open = true; redoS.clear(); }
			failed = false;
		}
		return ok;
	}
	void clear() { close(); undoS.clear(); redoS.clear(); }
};
template<class S> void checkManager(jm::UndoManager* um, const History<S>& h)
{
	REQUIRE_EQ((size_t)um->undoCount(), h.undoS.size(), << "undo steps"); REQUIRE_EQ((size_t)um->redoCount(), h.redoS.size(), << "redo steps");
	REQUIRE_EQ(um->hasOpenUndoStep(), h.open, << "open step"); REQUIRE_EQ(um->hasOpenTransaction(), h.level > 0, << "open transaction");
}
