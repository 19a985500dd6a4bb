// P30: formatted dates
#include "dates.hpp"
using jm::Date; using jm::DateFormatter;
static const char* MON3[12] = {"Jan", "Feb", "Mrz", "Apr", "Mai", "Jun", "Jul", "Aug", "Sep", "Okt", "Nov", "Dez"};
static const char* MON[12] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static const char* WD1 = "SMDMDFS";
static const char* WD2[7] = {"So", "Mo", "Di", "Mi", "Do", "Fr", "Sa"};
static const char* WD[7] = {"Sonntag", "Montag", "Dienstag", "Mittwoch", "Donnerstag", "Freitag", "Samstag"};
struct Item { char kind; int len; std::u16string text; }; // kind: field letter, '-' literal, '\'' quoted
static std::string pad(int64 v, int w) { std::string o = std::to_string(v); while((int)o.size() < w) o = "0" + o; return o; }
static std::u16string show(const Item& it, const Parts& p, int wd)
{
	switch(it.kind)
	{
		case 'y': return W(it.len == 2 ? pad(p.y % 100, 2) : std::to_string(p.y));
		case 'M': return W(it.len == 1 ? pad(p.mo + 1, 1) : it.len == 2 ? pad(p.mo + 1, 2) : it.len == 3 ? MON3[p.mo] : MON[p.mo]);
		case 'd': return W(pad(p.d, it.len)); case 'H': return W(pad(p.h, it.len)); case 'm': return W(pad(p.mi, it.len)); case 's': return W(pad(p.sec, it.len));
		case 'S': return W(pad(p.ms, it.len)); // one or three digits
		case 'E': return W(it.len == 1 ? std::string(1, WD1[wd]) : it.len == 2 ? WD2[wd] : WD[wd]);
		default: return it.text;
	}
}
static void run(Src& s, Ctx& ctx)
{
	std::vector<Item> items; size_t n = s.choice(599) == 345 ? 8 + s.choice(80) : s.len(8); std::u16string pattern; char last = 0; int fields = 0, quoted = 0;
	for(size_t i = 0; i < n; i++)
	{
		Item it{0, 0, u""};
		switch(s.weighted({6, 3, 2}))
		{
			case 0:
				it.kind = s.pick({'y', 'M', 'd', 'H', 'm', 's', 'S', 'E'});
				if(it.kind == last) { it.kind = it.kind == 'y' ? 'd' : 'y'; }
				it.len = strchr("ME", it.kind) ? 1 + (int)s.choice(3) : it.kind == 'y' ? s.pick({4, 2, 1, 3}) : it.kind == 'S' ? s.pick({3, 1}) : s.pick({2, 1});
				pattern += std::u16string((size_t)it.len, (char16_t)it.kind); fields++; break;
			case 1:
			{
				it.kind = '-'; size_t k = 1 + s.len(4); if(size_t q = longLen(s, 1400)) k = q;
				for(size_t j = 0; j < k; j++) it.text += s.pick<char16_t>({u'.', u'-', u':', u' ', u'/', u',', u'0', u'9', u'(', u'%', 0xB0, u'1'});
				pattern += it.text; break;
			}
			default:
			{
				it.kind = '\''; size_t k = s.len(6); if(size_t q = longLen(s, 1400)) k = q;
				for(size_t j = 0; j < k; j++) it.text += s.pick<char16_t>({u'T', u'y', u'M', u'd', u'H', u'm', u's', u'S', u'E', u' ', u'Z', u'a', u'.', 0xE4, 0x20AC, u'%'});
				pattern += u"'" + it.text + u"'"; quoted++;
			}
		}
		// a quotation without text does not separate two fields for certain: keep the letter in mind
		if(!(it.kind == '\'' && it.text.empty())) last = it.kind;
		items.push_back(it);
	}
	auto made = std::make_unique<DateFormatter>(J(pattern)); std::unique_ptr<DateFormatter> other; int copies = (int)s.choice(3);
	// a copy shows the same and outlives the formatter it was made of
	if(copies == 1) { other = std::make_unique<DateFormatter>(*made); made.swap(other); if(s.coin()) other.reset(); }
	if(copies == 2) { other = std::make_unique<DateFormatter>(jm::String(s.pick({"", "yyyy", "'at' HH:mm"}))); *other = *made; if(s.coin()) *other = *other; made.swap(other); if(s.coin()) *other = DateFormatter("MM"); }
	if(copies == 3) made = std::make_unique<DateFormatter>(DateFormatter(*made));
	DateFormatter& df = *made; if(copies) ctx.label("copied formatter"); size_t dates = 1 + s.len(3);
	for(size_t k = 0; k < dates; k++)
	{
		Parts p = genParts(s, 0, 9999); int64 t = instant(p); int wd = (int)fmodi(daysFromCivil(p.y, p.mo + 1, p.d) + 4, 7); Date d(t);
		std::u16string want; for(auto& it : items) want += show(it, p, wd);
		NOTE("pattern \"" << utf8Ref(pattern) << "\" date " << p << " expected \"" << utf8Ref(want) << "\"");
		std::u16string got = U16(df.format(d)), got2 = U16(DateFormatter::format(J(pattern), d));
		REQUIRE(got == want, << "\"" << utf8Ref(pattern) << "\" of " << p << " gives \"" << utf8Ref(got) << "\", not \"" << utf8Ref(want) << "\"");
		REQUIRE(got2 == want, << "static format of \"" << utf8Ref(pattern) << "\" gives \"" << utf8Ref(got2) << "\", not \"" << utf8Ref(want) << "\"");
		REQUIRE_EQ(d.time(), t, << "after formatting");
		std::string text = A(d.toString()), full = pad(p.y, 4) + "-" + pad(p.mo + 1, 2) + "-" + pad(p.d, 2) + "T" + pad(p.h, 2) + ":" + pad(p.mi, 2) + ":" + pad(p.sec, 2) + "." + pad(p.ms, 3) + "Z";
		REQUIRE_EQ(text, full, << "text form of " << p);
	}
	if(fields >= 2 && items.size() > 2) ctx.nontrivial();
	ctx.label(quoted ? "quoted text" : "no quoted text");
}
// letters the header documents
static bool letters(std::string& w)
{
	Parts p{2015, 6, 24, 15, 5, 9, 7}; Date d(instant(p)); std::string bad;
	for(const char* l : {"w", "W", "D", "F", "a", "K", "h", "k", "z"}) if(A(DateFormatter::format(JA(l), d)) == l) bad += l;
	if(bad.empty()) return false;
	w = "the documented pattern letters " + bad + " are copied to the text"; return true;
}
const Def& pbt::definition()
{
	static Def d{"P30", "patterns of more than two parts with two or more fields", 250000, 6000000, dateInit, run};
	d.assumptions = {"years 0 to 9999, the range the documented text form can show", "weekday names and short month names are German, long month names English, as in the library without a catalogue", "two and three digit forms only where the library defines them (S, SSS; not SS)"};
	d.probes = {{"date-pattern-letters", letters}};
	return d;
}
