// An object with a member of every recordable type, its snapshot and random changes; shared by P24 and P25.
#pragma once
#include "history.hpp"
#include "core/Property.h"
using namespace jm;
typedef std::vector<std::string> State; // one text per member
struct Part: public Object { static inline int alive = 0; int id; explicit Part(int i): id(i) { alive++; } ~Part() override { alive--; } };

struct Model: public EditableObject
{
	bool b = false; int8 i8 = 0; uint8 u8 = 0; int16 i16 = 0; uint16 u16 = 0; int32 i32 = 0; uint32 u32 = 0; int64 i64 = 0; uint64 u64 = 0; float f = 0; double d = 0;
	Vertex2 v2; Vertex3 v3; String str; Date date; Color col; Part* part = nullptr; Object* link = nullptr;
	static const int SLOTS = 18; UndoManager* um; int derived = 0; int regenerated = 0;
	explicit Model(UndoManager* m): EditableObject(nullptr), um(m) { date = Date((int64)0); v2.x = v2.y = 0; v3.x = v3.y = v3.z = 0; }
	void regenerate() override { if(um) { um->registerChange(this, &derived); derived++; } regenerated++; EditableObject::regenerate(); }
	template<class T> static std::string raw(const T& v) { return hex(&v, sizeof v); }
	void snapshot(State& o) const
	{
		o.push_back(raw(b)); o.push_back(raw(i8)); o.push_back(raw(u8)); o.push_back(raw(i16)); o.push_back(raw(u16)); o.push_back(raw(i32)); o.push_back(raw(u32)); o.push_back(raw(i64)); o.push_back(raw(u64)); o.push_back(raw(f)); o.push_back(raw(d));
		o.push_back(raw(v2.x) + raw(v2.y)); o.push_back(raw(v3.x) + raw(v3.y) + raw(v3.z)); o.push_back(quote16(U16(str))); int64 t = date.utcDate(); o.push_back(std::to_string(t));
		o.push_back(std::to_string((int)col.mode()) + raw(col.alpha()) + raw(col.cyan()) + raw(col.magenta()) + raw(col.yellow()) + (col.mode() == ColorMode::kCmyk ? raw(col.key()) : ""));
		o.push_back(part ? "part " + std::to_string(part->id) : "none"); o.push_back(link ? "link " + std::to_string(((Part*)link)->id) : "none");
	}
	// changes member k, recording it first
	void change(Src& s, int k, std::vector<Part*>& pool)
	{
		bool twice = s.chance(1, 8);
		#define REC(m) do { um->registerChange(this, &m); if(twice) um->registerChange(this, &m); } while(0)
		switch(k)
		{
			case 0: REC(b); b = s.coin(); break;
			case 1: REC(i8); i8 = (int8)s.byte(); break;
			case 2: REC(u8); u8 = (uint8)s.byte(); break;
			case 3: REC(i16); i16 = (int16)s.any64(); break;
			case 4: REC(u16); u16 = (uint16)s.any64(); break;
			case 5: REC(i32); i32 = (int32)s.any64(); break;
			case 6: REC(u32); u32 = (uint32)s.any64(); break;
			case 7: REC(i64); i64 = (int64)s.any64(); break;
			case 8: REC(u64); u64 = (uint64)s.any64(); break;
			case 9: REC(f); f = (float)s.real(-1e6, 1e6); break;
			case 10: REC(d); d = s.chance(1, 8) ? -0.0 : s.real(-1e6, 1e6); break;
			case 11: REC(v2); v2 = Vertex2(s.real(-99, 99), s.real(-99, 99)); break;
			case 12: REC(v3); v3 = Vertex3(s.real(-99, 99), s.real(-99, 99), s.real(-99, 99)); break;
			case 13: REC(str); { std::u16string t = genText(s, 12); if(s.coin()) str = J(t); else str.append(J(t)); } break;
			case 14: REC(date); date = Date((int64)s.si(-1000000000000ll, 4000000000000ll)); break;
			case 15: REC(col); { uint8 x[5]; for(auto& c : x) c = s.byte(); int m = (int)s.choice(2); col = m == 0 ? Color::fromGrey(x[0], x[1]) : m == 1 ? Color::fromRgb(x[0], x[1], x[2], x[3]) : Color::fromCmyk(x[0], x[1], x[2], x[3], x[4]); } break;
			case 16: // owned object: the member holds one reference
			{
				um->registerChange(this, (Object**)&part); if(part) { um->registerRelease(part); part->release(); part = nullptr; }
				if(s.chance(3, 4)) { static int n = 100; part = new Part(n++); um->registerRetain(part); }
				break;
			}
			case 17: REC(link); link = s.chance(1, 4) ? nullptr : pool[s.choice(pool.size() - 1)]; break;
		}
		#undef REC
	}
};
static State snap(const std::vector<Model*>& o) { State s; for(auto m : o) m->snapshot(s); return s; }
static void same(const State& a, const State& b, const char* when)
{
	for(size_t i = 0; i < a.size(); i++) REQUIRE(a[i] == b[i], << when << " member " << i % Model::SLOTS << " of object " << i / Model::SLOTS << " is " << a[i] << " instead of " << b[i]);
}
