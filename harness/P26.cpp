// P26: EditableObject::setMember and Property
#include "history.hpp"
#include "core/Property.h"
#include "core/Document.h"
using namespace jm;
struct Doc: public Document { bool saveDocument() override { setDocumentChanged(false); return true; } bool loadDocument() override { return true; } Status initNewDocument(Preferences*) override { return Status::eOK; } };
struct Obj: public EditableObject
{
	String s; int64 i = 0; double d = 0; bool b = false; uint8 u = 0; int16 w = 0; Vertex3 v; explicit Obj(Document* doc): EditableObject(doc) {}
};
struct State { std::u16string s[2]; int64_t i[2] = {0, 0}; double d[2] = {0, 0}; bool b[2] = {false, false}; int u[2] = {0, 0}, w[2] = {0, 0}; double v[2][3] = {{0, 0, 0}, {0, 0, 0}}; };
static bool sameD(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static void compare(Obj** o, size_t n, const State& m)
{
	for(size_t k = 0; k < n; k++)
	{
		REQUIRE(U16(o[k]->s) == m.s[k], << "text is " << quote16(U16(o[k]->s)) << " instead of " << quote16(m.s[k])); REQUIRE_EQ((int64_t)o[k]->i, m.i[k], << "int64"); REQUIRE(sameD(o[k]->d, m.d[k]), << "double " << o[k]->d << " instead of " << m.d[k]);
		REQUIRE_EQ(o[k]->b, m.b[k], << "bool"); REQUIRE_EQ((int)o[k]->u, m.u[k], << "uint8"); REQUIRE_EQ((int)o[k]->w, m.w[k], << "int16"); REQUIRE(sameD(o[k]->v.x, m.v[k][0]) && sameD(o[k]->v.y, m.v[k][1]) && sameD(o[k]->v.z, m.v[k][2]), << "vertex");
	}
}
static double genDouble(Src& s)
{
	switch(s.choice(4)) { case 0: return (double)s.si(-3, 3); case 1: return s.real(-1e9, 1e9); case 2: { uint64_t x = s.any64(); double d; memcpy(&d, &x, 8); return d; } case 3: return s.pick<double>({NAN, INFINITY, -INFINITY, -0.0, 5e-324, 1.7976931348623157e308, -NAN}); default: return s.grid(-2, 2, 4); }
}
static void objects(Src& s, Ctx& ctx)
{
	int kind = (int)s.choice(3); // 0,1: document with undo manager, 2: without, 3: no document
	Doc* doc = kind == 3 ? nullptr : new Doc(); if(kind == 2) doc->setUndoManager(false); UndoManager* um = kind < 2 ? doc->undoManager() : nullptr; if(kind < 2) REQUIRE(um != nullptr && um->isActive()); else if(doc) REQUIRE(doc->undoManager() == nullptr);
	size_t n = 1 + s.choice(1); Obj* o[2] = {nullptr, nullptr}; for(size_t k = 0; k < n; k++) { o[k] = new Obj(doc); REQUIRE(o[k]->document() == doc); REQUIRE(o[k]->shouldRegenerate()); o[k]->v.x = o[k]->v.y = o[k]->v.z = 0; }
	History<State> h((State())); size_t steps = 1 + s.len(40); int sets = 0, rejected = 0, undos = 0, unchanged = 0;
	for(size_t st = 0; st < steps; st++)
	{
		size_t k = s.choice(n - 1); Obj* x = o[k]; State m = h.cur; Status r = Status::eOK; int want = -1; int op = (int)s.weighted({3, 4, 4, 2, 2, 2, 2, um ? 6 : 1, um ? 3 : 1}); // want: 0 ok, 1 not changed, 2 invalid
		switch(op)
		{
			case 0: { std::u16string t = s.chance(1, 4) ? m.s[k] : genText(s, 8); NOTE("text " << quote16(t) << "\n"); want = t == m.s[k] ? 1 : 0; r = x->setMember(&x->s, J(t)); m.s[k] = t; break; }
			case 1:
			{
				int64_t v = s.coin() ? s.si(-5, 5) : s.anyInt64(); int mode = (int)s.choice(2); int64_t lo = mode == 0 ? INT64_MIN : s.coin() ? s.si(-5, 5) : s.anyInt64(), hi = mode < 2 ? INT64_MAX : s.coin() ? s.si(-5, 5) : s.anyInt64(); if(mode && s.coin()) v = s.coin() ? lo : hi; if(mode && s.chance(1, 4)) { if(s.coin()) { if(v < INT64_MAX) v++; } else if(v > INT64_MIN) v--; }
				NOTE("int " << v << " in " << lo << ".." << hi << "\n"); want = v == m.i[k] ? 1 : v >= lo && v <= hi ? 0 : 2;
				r = mode == 0 ? x->setMember(&x->i, (int64)v) : mode == 1 ? x->setMember(&x->i, (int64)v, (int64)lo) : x->setMember(&x->i, (int64)v, (int64)lo, (int64)hi); if(want == 0) m.i[k] = v; break;
			}
			case 2: { double v = s.chance(1, 5) ? m.d[k] : genDouble(s); NOTE("double " << v << "\n"); want = v != v ? 2 : v == m.d[k] ? 1 : 0; r = x->setMember(&x->d, v); if(want == 0) m.d[k] = v; break; }
			case 3: { bool v = s.coin(); NOTE("bool " << v << "\n"); want = v == m.b[k]; r = x->setMember(&x->b, v); m.b[k] = v; break; }
			case 4: { int v = s.coin() ? (int)s.choice(2) : s.byte(); NOTE("uint8 " << v << "\n"); want = v == m.u[k]; r = x->setMember(&x->u, (uint8)v); m.u[k] = v; break; }
			case 5: { int v = s.coin() ? (int)s.si(-2, 2) : (int16_t)s.any64(); NOTE("int16 " << v << "\n"); want = v == m.w[k]; r = x->setMember(&x->w, (int16)v); m.w[k] = v; break; }
			case 6: { double v[3]; for(int q = 0; q < 3; q++) v[q] = s.chance(1, 3) ? m.v[k][q] : s.coin() ? (double)s.si(-2, 2) : s.grid(-100, 100, 1000); NOTE("vertex " << v[0] << "," << v[1] << "," << v[2] << "\n"); want = v[0] == m.v[k][0] && v[1] == m.v[k][1] && v[2] == m.v[k][2] ? 1 : 0; r = x->setMember(&x->v, Vertex3(v[0], v[1], v[2])); if(want == 0) for(int q = 0; q < 3; q++) m.v[k][q] = v[q]; break; }
			case 7:
				if(h.level > 0 || !um) break;
				for(size_t q = 0; q < n; q++) o[q]->regenerationDone();
				{
					State before = h.cur; if(s.chance(2, 3)) { doc->closeUndoStep(); h.close(); }
					size_t c = 1 + s.choice(2); for(size_t q = 0; q < c; q++) { if(s.chance(2, 3)) { NOTE("undo\n"); bool ok = um->undo(); REQUIRE_EQ(ok, h.undo()); undos += ok; } else { NOTE("redo\n"); REQUIRE_EQ(um->redo(), h.redo()); } compare(o, n, h.cur); }
					for(size_t q = 0; q < n; q++) { bool diff = before.i[q] != h.cur.i[q] || before.s[q] != h.cur.s[q] || before.b[q] != h.cur.b[q] || before.u[q] != h.cur.u[q] || before.w[q] != h.cur.w[q]; if(diff) REQUIRE(o[q]->shouldRegenerate(), << "undo or redo changed the object without asking for its regeneration"); }
				}
				m = h.cur; break;
			case 8:
				if(h.level == 0 || s.chance(1, 4)) { NOTE("open\n"); REQUIRE(x->openTransaction() == Status::eOK); if(um) h.begin(); }
				else { bool bad = h.failed; Status c = x->closeTransaction(); NOTE("close failed=" << bad << "\n"); REQUIRE_EQ(c == Status::eOK, h.end(), << "closeTransaction returned " << (int)c); if(bad) REQUIRE(c == Status::eInvalidInput); }
				m = h.cur; break;
		}
		if(want == 0) { REQUIRE(r == Status::eOK, << "status " << (int)r << " for a new valid value"); sets++; if(um) h.change(m); else h.cur = m; }
		if(want == 1) { REQUIRE(r == Status::eNotChanged, << "status " << (int)r << " for an equal value"); unchanged++; }
		if(want == 2) { REQUIRE(r == Status::eInvalidInput, << "status " << (int)r << " for an invalid value"); if(um && h.level > 0) h.status(true); rejected++; }
		compare(o, n, h.cur); if(um) checkManager(um, h);
	}
	while(h.level > 0) { REQUIRE_EQ(o[0]->closeTransaction() == Status::eOK, h.end()); compare(o, n, h.cur); }
	if(um) { um->close(); h.close(); bool r; do { r = um->undo(); REQUIRE_EQ(r, h.undo()); compare(o, n, h.cur); } while(r); do { r = um->redo(); REQUIRE_EQ(r, h.redo()); compare(o, n, h.cur); } while(r); um->clearStacks(); }
	for(size_t k = 0; k < n; k++) { REQUIRE_EQ(o[k]->referenceCount(), 1); o[k]->release(); } if(doc) doc->release();
	if(sets > 1 && (undos || !um)) ctx.nontrivial(); if(rejected) ctx.label("rejected value"); if(unchanged) ctx.label("equal value"); if(undos) ctx.label("undo"); if(!um) ctx.label("without undo manager");
}
struct PV { int type = 0; std::u16string text; uint64_t number = 0; };
static void properties(Src& s, Ctx& ctx)
{
	static const char* editors[] = {"textfield", "number", "checkbox", "file", "combobox", "value", "dwgcolour", "dwglayer", "other", ""};
	std::u16string id = genText(s, 4), grp = genText(s, 4), name = genText(s, 4), hint = genText(s, 4); const char* ed = editors[s.choice(9)]; bool ro = s.coin(), ae = s.coin(); PropertyChangeMode cm = s.pick<PropertyChangeMode>({PropertyChangeMode::kItself, PropertyChangeMode::kOthers, PropertyChangeMode::kCount});
	// new properties, where the memory has any content
	{
		std::unique_ptr<Property> a(new Property()), b(new Property(J(id))), c(new Property(J(id), J(grp), J(name), J(hint), ed));
		for(Property* x : {a.get(), b.get(), c.get()})
		{
			REQUIRE(!x->isReadOnly() && x->allowEmpty() && x->changeMode() == PropertyChangeMode::kItself && x->type() == PropertyType::kString && x->integerValue() == 0 && x->doubleValue() == 0 && !x->boolValue() && x->stringValue().isEmpty() && x->icon().isEmpty(), << "a new property is not in its initial state");
			bool full = x == c.get(); REQUIRE(U16(x->id()) == (x == a.get() ? u"" : id) && U16(x->group()) == (full ? grp : u"") && U16(x->name()) == (full ? name : u"") && U16(x->hint()) == (full ? hint : u"") && x->editor().equals(String(full ? ed : "")), << "the description of a new property is wrong");
		}
		REQUIRE(a->isValueEquals(*b) && b->isValueEquals(*c), << "the values of new properties are different");
		std::unique_ptr<Variant> v(new Variant()), w(new Variant(J(id))); REQUIRE(v->mType == PropertyType::kInteger && v->toInt64() == 0 && v->toInt32() == 0 && v->toString().isEmpty() && w->mType == PropertyType::kString, << "a new variant is not in its initial state");
	}
	const size_t N = 3; std::unique_ptr<Property> own[N]; std::u16string icon[N]; PV m[N]; for(auto& q : own) q.reset(new Property(J(id), J(grp), J(name), J(hint), ed, ro, cm, ae)); struct { std::unique_ptr<Property>* q; Property& operator[](size_t k) { return *q[k]; } } p{own};
	for(auto& q : m) q.type = (int)PropertyType::kString;
	size_t steps = 1 + s.len(12);
	for(size_t st = 0; st < steps; st++)
	{
		size_t k = s.choice(N - 1); Property& x = p[k]; PV& v = m[k];
		switch(s.choice(8))
		{
			case 0: { v.text = s.coin() ? s.pick<std::u16string>({u"x", u"x", u"X"}) : genText(s, 5); v.type = (int)PropertyType::kString; REQUIRE(x.setStringValue(J(v.text)) == Status::eOK); break; }
			case 1: { int64_t n = s.coin() ? s.si(-2, 2) : s.anyInt64(); v.number = (uint64_t)n; v.type = (int)PropertyType::kInteger; x.setIntegerValue(n); REQUIRE_EQ((int64_t)x.integerValue(), n); break; }
			case 2: { double d = s.coin() ? (double)s.si(-3, 3) : s.real(-1e9, 1e9); memcpy(&v.number, &d, 8); v.type = (int)PropertyType::kDouble; x.setDoubleValue(d); break; }
			case 3: { bool b = s.coin(); v.number = b; v.type = (int)PropertyType::kBoolean; x.setBoolValue(b); REQUIRE_EQ(x.boolValue(), b); break; }
			case 4: { double d = s.coin() ? (double)s.si(-3, 3) : s.real(-1e9, 1e9); memcpy(&v.number, &d, 8); v.text = s.pick<std::u16string>({u"mm", u"m", u"\x00b0", u"", u"M", u"MM"}); v.type = (int)PropertyType::kValue; x.setUnitValue(d, J(v.text)); break; }
			case 5: { size_t j = s.choice(N - 1); if(s.coin()) x.setValue(p[j]); else { x = p[j]; icon[k] = icon[j]; } m[k] = m[j]; break; }
			case 6: { Property c(x); double dd; memcpy(&dd, &v.number, 8); REQUIRE(c.isValueEquals(x) && (!std::isfinite(dd) || (ed[0] == 'o' || !ed[0]) || c == x), << "a copy is different"); REQUIRE(U16(c.icon()) == icon[k], << "icon of the copy"); if(s.coin()) x = c; break; }
			case 7: { icon[k] = genText(s, 3); x.setIcon(J(icon[k])); break; }
			case 8: { v.type = (int)s.choice(7); x.setType((PropertyType)v.type); break; }
		}
		for(size_t q = 0; q < N; q++)
		{
			REQUIRE((int)p[q].type() == m[q].type, << "type"); REQUIRE(U16(p[q].stringValue()) == m[q].text, << "text");
			if(m[q].type == (int)PropertyType::kInteger) REQUIRE_EQ((uint64_t)p[q].integerValue(), m[q].number); if(m[q].type == (int)PropertyType::kBoolean && m[q].number < 2) REQUIRE_EQ(p[q].boolValue(), m[q].number == 1); REQUIRE(U16(p[q].icon()) == icon[q], << "icon");
			if(m[q].type == (int)PropertyType::kDouble || m[q].type == (int)PropertyType::kValue) { double d = p[q].doubleValue(); REQUIRE(memcmp(&d, &m[q].number, 8) == 0, << "double value"); }
			REQUIRE(U16(p[q].id()) == id && U16(p[q].group()) == grp && U16(p[q].name()) == name && U16(p[q].hint()) == hint && p[q].editor().equals(String(ed)) && p[q].isReadOnly() == ro && p[q].allowEmpty() == ae && p[q].changeMode() == cm && p[q].is(J(id)) && !p[q].is(J(id + u"x")), << "a description changed");
		}
		for(size_t a = 0; a < N; a++) for(size_t b = 0; b < N; b++)
		{
			bool eq = m[a].text == m[b].text && m[a].number == m[b].number; REQUIRE_EQ(p[a].isValueEquals(p[b]), eq, << "isValueEquals of " << quote16(m[a].text) << "/" << std::hex << m[a].number << " and " << quote16(m[b].text) << "/" << m[b].number);
			if(m[a].type == m[b].type)
			{
				double da, db; memcpy(&da, &m[a].number, 8); memcpy(&db, &m[b].number, 8); bool dbl = m[a].type == (int)PropertyType::kValue || m[a].type == (int)PropertyType::kDouble; if(dbl && (!std::isfinite(da) || !std::isfinite(db) || (da != db && std::fabs(da - db) < 1e-3))) continue; bool numEq = dbl ? da == db : m[a].number == m[b].number, textEq = m[a].text == m[b].text; if(m[a].type == (int)PropertyType::kValue) { REQUIRE_EQ(p[a] == p[b], textEq && numEq, << "unit values"); continue; }
				std::string e = ed; if(e == "other" || e == "") REQUIRE(!(p[a] == p[b]), << "values of an unknown editor are equal"); else if(e == "textfield" || e == "file" || e == "dwglayer") REQUIRE_EQ(p[a] == p[b], textEq, << "operator =="); else if(e == "value") { if(m[a].type == (int)PropertyType::kDouble) REQUIRE_EQ(p[a] == p[b], textEq && numEq); }
				else if(e == "checkbox") { if(m[a].type == (int)PropertyType::kBoolean && m[a].number < 2 && m[b].number < 2) REQUIRE_EQ(p[a] == p[b], numEq); } else if(m[a].type == (int)PropertyType::kInteger) REQUIRE_EQ(p[a] == p[b], numEq);
			}
		}
	}
	Property other(J(id + u"2"), J(grp), J(name), J(hint), ed); other.setValue(p[0]); REQUIRE(!(other == p[0]), << "another id is equal");
	// variants
	int64_t n = s.anyInt64(); double d = s.real(-1e9, 1e9); std::u16string t = genText(s, 8); Variant a((int64)n), b(d), c(J(t)), e;
	for(int q = 0; q < 4; q++)
	{
		REQUIRE((int64_t)a.toInt64() == n && a.mType == PropertyType::kInteger && (int32_t)a.toInt32() == (int32_t)n, << "integer variant"); REQUIRE(b.toDouble() == d && b.mType == PropertyType::kDouble, << "double variant"); REQUIRE(U16(c.toString()) == t && c.mType == PropertyType::kString, << "text variant");
		if(q == 0) { Variant x(a), y(b), z(c); e = c; a = x; b = y; c = z; } if(q == 1) { e = a; e = b; e = c; c = Variant(); c = e; } if(q == 2) { e = a; e = c; REQUIRE(U16(e.toString()) == t); e = a; a = Variant(1.5); a = e; }
	}
	{ std::string e2 = s.pick({"textfield", "number", "checkbox", "file", "combobox", "value", "dwgcolour", "dwglayer", "x"}); Property q(J(id), J(grp), J(name), J(hint), e2.c_str()); q.setValue(p[0]); if(e2 != ed) REQUIRE(!(q == p[0]) && !(p[0] == q), << "properties of different editors are equal"); }
	if(steps > 2) ctx.nontrivial(); ctx.label("properties");
}
static void run(Src& s, Ctx& ctx) { if(s.chance(1, 3)) properties(s, ctx); else objects(s, ctx); }
const Def& pbt::definition()
{
	static Def d{"P26", "histories of 1..41 setMember calls of every member type with valid, equal, border, out-of-range and NaN values on one or two objects of a document with or without undo manager, with steps, undo, redo and transactions, against a model; and histories over three properties. Non-trivial: several accepted values and an undo, or more than two property operations; distinct by choice sequence.", 1200000, 15000000, jmInit, run};
	d.assumptions = {"Vertices that differ at all differ by more than the tolerance of the library's comparison (1e-6).", "Equality of properties of different types is not specified."};
	return d;
}
