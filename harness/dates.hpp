// Reference calendar (proleptic Gregorian), independent of the library's year-by-year search.
#pragma once
#include "jmh.hpp"
static const int64 DAY = 86400000;
struct Parts { int64 y; int mo, d, h, mi, sec, ms; }; // mo 0..11, d 1..31
static int64 fdiv(int64 a, int64 b) { int64 q = a / b; return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q; }
static int64 fmodi(int64 a, int64 b) { return a - fdiv(a, b) * b; }
static int64 daysFromCivil(int64 y, int m, int d) // m 1..12
{
	y -= m <= 2; int64 era = fdiv(y, 400), yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}
static Parts partsOf(int64 t)
{
	Parts p; int64 z = fdiv(t, DAY), r = fmodi(t, DAY); z += 719468;
	int64 era = fdiv(z, 146097), doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
	p.d = (int)(doy - (153 * mp + 2) / 5 + 1); int m = (int)(mp < 10 ? mp + 3 : mp - 9); p.mo = m - 1; p.y = yoe + era * 400 + (m <= 2);
	p.h = (int)(r / 3600000); p.mi = (int)(r / 60000 % 60); p.sec = (int)(r / 1000 % 60); p.ms = (int)(r % 1000); return p;
}
static int64 instant(const Parts& p) { return daysFromCivil(p.y, p.mo + 1, p.d) * DAY + p.h * 3600000LL + p.mi * 60000LL + p.sec * 1000LL + p.ms; }
static bool leap(int64 y) { return fmodi(y, 4) == 0 && (fmodi(y, 100) != 0 || fmodi(y, 400) == 0); }
static int monthLen(int64 y, int mo) { static const int L[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return L[mo] + (mo == 1 && leap(y)); }
static int64 genYear(Src& s, int64 lo, int64 hi)
{
	int64 y;
	switch(s.weighted({5, 3, 3, 2, 1}))
	{
		case 0: y = 1970 + s.si(-70, 130); break;
		case 1: y = 100 * s.i(0, 40); break;
		case 2: y = s.pick<int64>({1600, 1700, 1900, 1904, 1968, 1969, 1970, 1972, 2000, 2001, 2100, 2400, 4, 1, 0, 9999, 1582}); break;
		case 3: y = s.i(0, 9999); break;
		default: y = s.i(lo, hi);
	}
	return std::min(hi, std::max(lo, y));
}
static Parts genParts(Src& s, int64 lo, int64 hi)
{
	Parts p; p.y = genYear(s, lo, hi); p.mo = (int)(s.chance(1, 3) ? s.pick({1, 2, 0, 11}) : s.choice(11)); int L = monthLen(p.y, p.mo);
	p.d = s.chance(1, 3) ? s.pick({1, L, L - 1, L}) : 1 + (int)s.choice((uint64_t)L - 1);
	bool edge = s.chance(1, 4); p.h = edge ? s.pick({0, 23}) : (int)s.choice(23); p.mi = edge ? s.pick({0, 59}) : (int)s.choice(59); p.sec = edge ? s.pick({0, 59}) : (int)s.choice(59); p.ms = edge ? s.pick({0, 999, 1}) : (int)s.choice(999);
	return p;
}
inline std::ostream& operator<<(std::ostream& o, const Parts& p) { return o << p.y << "-" << p.mo + 1 << "-" << p.d << " " << p.h << ":" << p.mi << ":" << p.sec << "." << p.ms; }
inline void dateInit() { setenv("TZ", "UTC", 1); tzset(); jmInit(); }
