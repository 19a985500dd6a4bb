// Shared by the harnesses: bridges between the library's types and plain C++ ones.
#pragma once
#include "PrecompiledCore.hpp"
#include "../engine/pbt.hpp"
#include <exception>
#include <cxxabi.h>
#include <cmath>
#include <algorithm>
#include <map>
#include <set>
#include <memory>

using namespace pbt;

// Byte-exact text of a library string, without using the library's own conversion.
inline std::u16string U16(const jm::String& s)
{
	std::u16string o; o.reserve((size_t)s.size());
	for(int64 i = 0; i < (int64)s.size(); i++) o += (char16_t)s.charAt(i).unicode();
	return o;
}
inline jm::String J(const std::u16string& s)
{
	return jm::String((const uint16*)s.data(), (int64)s.size());
}
inline std::string A(const jm::String& s) // for messages: non-ASCII is shown as ?
{
	std::string o; for(char16_t c : U16(s)) o += c < 128 ? (char)c : '?'; return o;
}
inline std::u16string W(const std::string& s) { std::u16string o; for(unsigned char c : s) o += (char16_t)c; return o; }
inline jm::String JA(const std::string& s) { return J(W(s)); }

inline std::string describeJm()
{
	try { throw; }
	catch(jm::Exception* e) { return "jm::Exception* " + A(e->errorMessage()); }
	catch(jm::Exception& e) { return "jm::Exception " + A(e.errorMessage()); }
	catch(std::exception& e) { return std::string("std::exception ") + e.what(); }
	catch(...) { const std::type_info* t = abi::__cxa_current_exception_type(); return std::string("exception of type ") + (t ? t->name() : "?"); }
}
std::string (*pbtDescribeException)() = describeJm;

// Every jm::Exception records a symbolized stack trace, which takes a millisecond in sanitized
// binaries. The checks do not look at it: a stand-in with one frame takes its place.
extern "C" int backtrace(void** a, int n) { if(n > 0) a[0] = nullptr; return n > 0 ? 1 : 0; }
extern "C" char** backtrace_symbols(void* const*, int n) { char** r = (char**)malloc(sizeof(char*) * (size_t)(n + 1)); for(int i = 0; i < n; i++) r[i] = const_cast<char*>("frame"); return r; }
inline void jmInit() { jm::System::init(""); }

// Exceptions: the library throws both by value and by pointer.
template<class F> bool throwsJm(F f)
{
	try { f(); } catch(jm::Exception&) { return true; } catch(jm::Exception* e) { return true; }
	return false;
}

inline bool isPair(char16_t a, char16_t b) { return a >= 0xD800 && a < 0xDC00 && b >= 0xDC00 && b < 0xE000; }
// UTF-8 of a sequence of 16-bit units (pairs are one character; half pairs are encoded alone)
inline std::string utf8Ref(const std::u16string& s)
{
	std::string o;
	for(size_t i = 0; i < s.size(); i++)
	{
		char16_t c = s[i];
		if(i + 1 < s.size() && isPair(c, s[i + 1])) { uint32_t u = 0x10000 + ((c - 0xD800u) << 10) + (s[++i] - 0xDC00u); o += (char)(0xF0 | (u >> 18)); o += (char)(0x80 | ((u >> 12) & 63)); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); }
		else if(c < 0x80) o += (char)c;
		else if(c < 0x800) { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
		else { o += (char)(0xE0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
	}
	return o;
}
// a character of the kinds that matter to text handling
inline char16_t genChar(Src& s)
{
	switch(s.weighted({10, 4, 3, 2, 2, 1}))
	{
		case 0: return (char16_t)('a' + s.choice(3));
		case 1: return (char16_t)(32 + s.choice(94));
		case 2: return s.pick<char16_t>({u' ', u'\t', u'\n', u'\r', u'-', u'0', u'9', u'%', u'"', u'\'', u'\\', u'/', u'.', u',', u';', u'A', u'Z', u'z', u'='});
		case 3: return s.pick<char16_t>({0xC4, 0xE4, 0xD6, 0xF6, 0xDC, 0xFC, 0xDF, 0xE9, 0xC9, 0xA0, 0x7F, 0x80, 0x9F});
		case 4: return (char16_t)(0x100 + s.choice(0x700));
		default: { char16_t c = (char16_t)(0x800 + s.choice(0xF7FF - 0x800)); if(c >= 0xD800 && c <= 0xDFFF) c = 0x20AC; return c; }
	}
}
inline std::u16string genPair(Src& s) { uint32_t u = s.pick<uint32_t>({0x10000, 0x1F600, 0x1D11E, 0x103FF, 0x10400, 0xFFFFF, 0x100000, 0x10FFFF, 0x3F7FF, 0x40000, 0x2000A}); if(s.coin()) u = 0x10000 + (uint32_t)s.choice(0xFFFFF); u -= 0x10000; std::u16string o; o += (char16_t)(0xD800 + (u >> 10)); o += (char16_t)(0xDC00 + (u & 0x3FF)); return o; }
inline std::u16string genText(Src& s, size_t max)
{
	std::u16string o; size_t n = s.len(max); for(size_t i = 0; i < n; i++) if(i + 1 < n && s.chance(1, 60)) { o += genPair(s); i++; } else o += genChar(s); return o;
}
// usually 0; otherwise the length of a long text or list, around the sizes of usual buffers and counters
// (boost: how many times more often than one in 5000)
inline size_t longLen(Src& s, size_t max = 140000, uint64_t boost = 1)
{
	size_t c = s.choice(8000000 / boost), n = 0, mid = 3456789 / boost; if(c <= mid) return 0; c -= mid; // (not among the small numbers, which mutation prefers)
	if(c <= 4) n = s.pick({32767, 65534, 65535, 65536, 70000}) + s.choice(3);
	else if(c <= 20) n = s.pick({2047, 2048, 4095, 4096, 4097, 8192, 10000}) + s.choice(3);
	else if(c <= 100) n = s.pick({511, 512, 513, 700, 1000, 1023, 1024, 1025, 1300}) + s.choice(4);
	else if(c <= 1600) n = s.pick({33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}) + s.choice(8);
	return n > max ? 0 : n;
}
// rarely (once in n times) a length beyond the sizes of 16 bit counters, otherwise 0
inline size_t hugeLen(Src& s, uint64_t n) { if(s.choice(n - 1) != n / 2 + 1) return 0; return s.pick<size_t>({65533, 65536, 70000, 131070}) + s.choice(5); }
// the text repeated up to the length
template<class T> T stretch(const T& t, size_t n) { T r(n, (typename T::value_type)'x'); if(!t.empty()) for(size_t i = 0; i < n; i++) r[i] = t[i % t.size()]; return r; }
// a text, sometimes a long one
inline std::u16string genLong(Src& s, size_t max, size_t longest = 140000, uint64_t boost = 1)
{
	std::u16string t = genText(s, max), r; size_t n = longLen(s, longest, boost); if(n == 0) return t;
	if(t.empty()) t = u"x";
	r.resize(n); for(size_t i = 0; i < n; i++) r[i] = t[i % t.size()];
	for(size_t k = 1 + s.choice(2); k--;) r[s.coin() ? n - 1 - s.choice(std::min<size_t>(n - 1, 3)) : s.choice(n - 1)] = genChar(s);
	return r;
}
inline std::string genBytes(Src& s, size_t max)
{
	size_t n = s.len(max); std::string o; int mode = (int)s.choice(3);
	for(size_t i = 0; i < n; i++)
	{
		if(mode == 0) o += (char)('a' + s.choice(2));
		else if(mode == 1) o += (char)s.pick<int>({0, 1, 127, 128, 254, 255, 10, 13});
		else o += (char)s.byte();
	}
	return o;
}
