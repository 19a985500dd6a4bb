// P29: dates
#include "dates.hpp"
using jm::Date;
static void checkParts(const Date& d, const Parts& p, int64 t)
{
	REQUIRE_EQ(d.time(), t, << "for " << p); REQUIRE(!d.isEmpty(), << p << " counts as empty");
	REQUIRE_EQ(d.utcYear(), p.y, << "year of " << p); REQUIRE_EQ(d.utcMonth(), (int64)p.mo, << "month of " << p); REQUIRE_EQ(d.utcDate(), (int64)p.d, << "day of " << p);
	REQUIRE_EQ(d.utcHours(), (int64)p.h, << "hours of " << p); REQUIRE_EQ(d.utcMinutes(), (int64)p.mi, << "minutes of " << p); REQUIRE_EQ(d.utcSeconds(), (int64)p.sec, << "seconds of " << p); REQUIRE_EQ(d.utcMilliseconds(), (int64)p.ms, << "milliseconds of " << p);
	// the checks run with TZ=UTC
	REQUIRE_EQ(d.year(), p.y, << "local year of " << p); REQUIRE_EQ(d.month(), (int64)p.mo, << "local month of " << p); REQUIRE_EQ(d.date(), (int64)p.d, << "local day of " << p);
	REQUIRE_EQ(d.hours(), (int64)p.h, << "local hours of " << p); REQUIRE_EQ(d.minutes(), (int64)p.mi, << "local minutes of " << p); REQUIRE_EQ(d.seconds(), (int64)p.sec, << "local seconds of " << p); REQUIRE_EQ(d.milliseconds(), (int64)p.ms, << "local milliseconds of " << p);
	int64 days = daysFromCivil(p.y, p.mo + 1, p.d);
	REQUIRE_EQ(d.utcDay(), fmodi(days + 4, 7), << "week day of " << p); REQUIRE_EQ(d.day(), fmodi(days + 4, 7), << "local week day of " << p);
	REQUIRE_EQ(d.dayOfYear(), days - daysFromCivil(p.y, 1, 1), << "day of the year of " << p);
}
static void run(Src& s, Ctx& ctx)
{
	switch(s.weighted({5, 5, 3, 3, 1}))
	{
		case 0: // parts to instant and back
		{
			Parts p = genParts(s, 0, s.chance(1, 200) ? 65535 : 9999); NOTE("parts " << p); ctx.label("parts");
			Date d((uint16)p.y, (uint16)p.mo, (uint16)p.d, (uint16)p.h, (uint16)p.mi, (uint16)p.sec, (uint16)p.ms);
			checkParts(d, p, instant(p));
			Date e((uint16)p.y, (uint16)p.mo, (uint16)p.d); Parts q = p; q.h = q.mi = q.sec = q.ms = 0; checkParts(e, q, instant(q));
			Date f((uint16)p.y, (uint16)p.mo, (uint16)p.d, (uint16)p.h, (uint16)p.mi, (uint16)p.sec); q = p; q.ms = 0; REQUIRE_EQ(f.time(), instant(q), << "without milliseconds: " << q);
			if(p.y < 1970 || p.d > 28 || p.mo == 1) ctx.nontrivial();
			break;
		}
		case 1: // instant to parts and back
		{
			int64 t;
			switch(s.weighted({4, 3, 3, 1}))
			{
				case 0: { Parts p = genParts(s, 0, 9999); t = instant(p); break; }
				case 1: t = s.si(-20000, 20000) * DAY + s.pick<int64>({0, 1, -1, DAY - 1, 999, -999, 43200000}); break;
				case 2: t = s.si(-4000000000000LL, 4000000000000LL); break;
				default: t = s.si(-300000000000000LL, 300000000000000LL); // some ten thousand years
			}
			Parts p = partsOf(t); NOTE("instant " << t << " = " << p); ctx.label("instant");
			REQUIRE_EQ(instant(p), t, << "(the reference calendar itself)");
			Date d(t); checkParts(d, p, t);
			if(p.y >= 0 && p.y <= 65535) { Date e((uint16)p.y, (uint16)d.utcMonth(), (uint16)d.utcDate(), (uint16)d.utcHours(), (uint16)d.utcMinutes(), (uint16)d.utcSeconds(), (uint16)d.utcMilliseconds()); REQUIRE_EQ(e.time(), t, << "built from the parts again"); }
			if(t < 0 || p.mo == 1) ctx.nontrivial();
			break;
		}
		case 2: // moving and comparing
		{
			int64 t = instant(genParts(s, 0, 9999)), dt = s.pick<int64>({1, 999, 1000, 60000, 3600000, DAY, 365 * DAY, 366 * DAY, 146097 * DAY, 0}); dt *= s.si(-3, 3);
			NOTE("instant " << t << " moved by " << dt); ctx.label("moved and compared");
			Date d(t), c(d), a((int64)0); a = d; d.setTime(d.time() + dt);
			checkParts(d, partsOf(t + dt), t + dt); REQUIRE_EQ(c.time(), t, << "copy of a moved date"); REQUIRE_EQ(a.time(), t, << "assigned from a moved date");
			int64 x = d.time(), y = c.time();
			REQUIRE_EQ(d < c, x < y, << "<"); REQUIRE_EQ(d > c, x > y, << ">"); REQUIRE_EQ(d <= c, x <= y, << "<="); REQUIRE_EQ(d >= c, x >= y, << ">="); REQUIRE_EQ(d == c, x == y, << "=="); REQUIRE_EQ(d != c, x != y, << "!=");
			int cmp = d.compareTo(c); REQUIRE_EQ((cmp > 0) - (cmp < 0), (x > y) - (x < y), << "compareTo"); REQUIRE_EQ(c.compareTo(a), 0, << "compareTo of equal dates");
			if(dt) ctx.nontrivial();
			break;
		}
		case 3: // parts beyond their usual range carry over
		{
			Parts p; p.y = genYear(s, 0, 9000); p.mo = (int)s.choice(s.chance(1, 10) ? 600 : 40); p.d = (int)s.choice(s.chance(1, 10) ? 60000 : 400); p.h = (int)s.choice(s.chance(1, 10) ? 65535 : 50); p.mi = (int)s.choice(s.chance(1, 10) ? 65535 : 130); p.sec = (int)s.choice(s.chance(1, 10) ? 65535 : 130); p.ms = (int)s.choice(s.chance(1, 10) ? 65535 : 2000);
			NOTE("year " << p.y << " month " << p.mo << " day " << p.d << " " << p.h << ":" << p.mi << ":" << p.sec << "." << p.ms); ctx.label("carry");
			Date d((uint16)p.y, (uint16)p.mo, (uint16)p.d, (uint16)p.h, (uint16)p.mi, (uint16)p.sec, (uint16)p.ms);
			Parts q = p; q.y += p.mo / 12; q.mo = p.mo % 12; int64 t = daysFromCivil(q.y, q.mo + 1, 1) * DAY + (p.d - 1) * DAY + p.h * 3600000LL + p.mi * 60000LL + p.sec * 1000LL + p.ms;
			checkParts(d, partsOf(t), t); ctx.nontrivial(); break;
		}
		default: // time base of the Mac, the empty date, now
		{
			int64 sec = s.si(-4000000000LL, 4000000000LL), ms = s.choice(7) * 125; NOTE("NSDate " << sec << " s + " << ms << " ms"); ctx.label("NSDate and empty");
			Date d = Date::fromNSDate((double)sec + (double)ms / 1000.0); int64 want = daysFromCivil(2001, 1, 1) * DAY + sec * 1000 + ms;
			REQUIRE_EQ(d.time(), want, << "of NSDate"); checkParts(d, partsOf(want), want);
			Date e(Date::EMPTY); REQUIRE(e.isEmpty(), << "the empty date is not empty"); e.setTime(want); REQUIRE(!e.isEmpty(), << "an instant is empty"); e.setTime(Date::EMPTY); REQUIRE(e.isEmpty(), << "the empty date is not empty"); REQUIRE(e < d, << "the empty date does not come first");
			timeval a, b; gettimeofday(&a, nullptr); Date now; gettimeofday(&b, nullptr);
			REQUIRE(now.time() >= a.tv_sec * 1000LL + a.tv_usec / 1000 && now.time() <= b.tv_sec * 1000LL + b.tv_usec / 1000, << "the current time is " << now.time());
			if(sec < 0) ctx.nontrivial();
		}
	}
}
const Def& pbt::definition()
{
	static Def d{"P29", "dates before 1970, in February or at the end of a month, moved dates, carrying parts", 300000, 10000000, dateInit, run};
	d.assumptions = {"the local time zone is UTC", "years -10000 to 65535; the reference calendar is the era based day count algorithm"};
	return d;
}
