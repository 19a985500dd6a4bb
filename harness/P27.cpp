// P27: Document: change flag, undo manager, file and regeneration
#include "history.hpp"
#include "core/Property.h"
#include "core/Document.h"
using namespace jm;
struct Doc: public Document { int saves = 0; bool saveDocument() override { saves++; setDocumentChanged(false); return true; } bool loadDocument() override { return true; } Status initNewDocument(Preferences*) override { return Status::eOK; } };
struct Obj: public EditableObject { int64 i = 0; String t; explicit Obj(Document* d): EditableObject(d) {} };
typedef std::pair<int64_t, std::u16string> State;
static void run(Src& s, Ctx& ctx)
{
	Doc* d = new Doc(); Document* D = d; bool um = true, flag = false, regen = false; std::string path = ""; int closes = 0, flags = 0, switched = 0;
	REQUIRE(D->hasUndoManager() && D->undoManager() != nullptr && D->undoManager()->isActive(), << "a new document has no active undo manager"); REQUIRE(!D->isDocumentChanged(), << "a new document is changed"); REQUIRE(!D->shouldRegenerate());
	Obj* o = new Obj(D); History<State> h(State(0, u"")); size_t steps = 1 + s.len(50); UndoManager* m0 = D->undoManager();
	for(size_t st = 0; st < steps; st++)
	{
		UndoManager* u = D->undoManager(); bool was = flag;
		switch(s.weighted({10, 6, 4, 4, 2, 2, 2, 2, 2, 2, 1}))
		{
			case 0: { State n = h.cur; Status r; if(s.coin()) { n.first = s.si(-3, 3); r = o->setMember(&o->i, (int64)n.first); } else { n.second = genText(s, 3); r = o->setMember(&o->t, J(n.second)); } REQUIRE_EQ(r == Status::eOK, n != h.cur); if(n != h.cur) { if(um) h.change(n); else h.cur = n; } break; }
			case 1: { NOTE("close\n"); if(s.coin() || !um) D->closeUndoStep(); else u->close(); if(h.open && um) { flag = true; closes++; } h.close(); break; }
			case 2: if(um && !h.level) { NOTE("undo\n"); bool r = u->undo(); REQUIRE_EQ(r, h.undo()); if(r) flag = true; } break;
			case 3: if(um && !h.level) { NOTE("redo\n"); bool r = u->redo(); REQUIRE_EQ(r, h.redo()); if(r) flag = true; } break;
			case 4: NOTE("save\n"); REQUIRE(D->saveDocument()); flag = false; break;
			case 5: flag = s.coin(); NOTE("flag " << flag << "\n"); D->setDocumentChanged(flag); break;
			case 6: { NOTE("regenerate\n"); if(s.coin()) { D->regenerate(); regen = true; } else { D->regenerationDone(); regen = false; } break; }
			case 7: { path = "/tmp/doc-" + std::to_string(s.choice(9)) + ".x"; NOTE("file " << path << "\n"); D->setFile(File(JA(path))); break; }
			case 8: if(um) { if(h.level == 0 || s.chance(1, 4)) { o->openTransaction(); h.begin(); } else { if(s.chance(1, 3)) { u->registerTransactionStatus(Status::eInvalidInput); h.status(true); } Status r = o->closeTransaction(); REQUIRE_EQ(r == Status::eOK, h.end()); } } break;
			case 9: { NOTE("switch on\n"); D->setUndoManager(true); if(!um) { um = true; State c = h.cur; h = History<State>(c); m0 = D->undoManager(); } break; }
			case 10: if(h.level == 0 && s.coin()) { NOTE("switch off\n"); if(um) { REQUIRE(D->undoManager() == m0, << "another undo manager"); bool op = h.open; D->setUndoManager(false); um = false; State c = h.cur; h = History<State>(c); switched++; if(op) { flag = D->isDocumentChanged(); was = flag; } } else D->setUndoManager(false); } break;
		}
		flags += was != flag;
		REQUIRE_EQ(D->hasUndoManager(), um); if(um) { REQUIRE(D->undoManager() == m0 && m0->isActive(), << "another undo manager"); checkManager(m0, h); } else REQUIRE(D->undoManager() == nullptr);
		REQUIRE_EQ(D->isDocumentChanged(), flag, << "changed flag"); REQUIRE_EQ(D->shouldRegenerate(), regen, << "regeneration flag"); REQUIRE(D->fileRef() == &D->file()); if(!path.empty()) REQUIRE_EQ(A(D->file().absolutePath()), path);
		REQUIRE(o->i == h.cur.first && U16(o->t) == h.cur.second, << "the object differs from the model"); REQUIRE(o->document() == D);
	}
	// an undo manager left open at the end is cleaned up with the document
	if(D->undoManager()) D->undoManager()->clearStacks(); o->release(); D->release();
	if(flags > 1 && closes) ctx.nontrivial(); if(switched) ctx.label("undo manager switched off"); if(closes > 3) ctx.label("more than three steps");
}
const Def& pbt::definition()
{
	static Def d{"P27", "histories of 1..51 operations on a document with an editable object (edits, step ends, undo, redo, transactions, saving, explicit flags, file, regeneration, switching the undo manager off and on) against a model. Non-trivial: the change flag changed twice and a step was closed; distinct by choice sequence.", 1500000, 20000000, jmInit, run};
	d.assumptions = {"Whether switching off the undo manager with an open step counts as a change is not specified."};
	return d;
}
