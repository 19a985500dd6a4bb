// Keeps the file operations of the code under test inside the scratch directory: the calls that
// change files are replaced by stand-ins, which refuse (and report) every path outside of it.
#pragma once
#include "jmh.hpp"
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <fstream>

inline bool& fsGuard() { static bool on = false; return on; }
struct GuardOn { bool old; GuardOn() : old(fsGuard()) { fsGuard() = true; } ~GuardOn() { fsGuard() = old; } };
inline std::string& fsEscape() { static std::string e; return e; } // first path outside, if any

inline bool fsInside(const char* p)
{
	if(!fsGuard()) return true;
	std::string t = p ? p : "";
	const std::string& s = scratchDir();
	if(!s.empty() && t.compare(0, s.size() + 1, s + "/") == 0 && t.find("/../") == std::string::npos && (t.size() < 3 || t.substr(t.size() - 3) != "/..")) return true;
	if(fsEscape().empty()) fsEscape() = t.empty() ? "(empty path)" : t;
	errno = ENOENT; return false;
}
inline FILE* (*&fsOpenHook())(const char*, const char*) { static FILE* (*h)(const char*, const char*) = nullptr; return h; } // takes the place of fopen
template<class F> F realFn(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#ifdef FS_REDIRECT // one directory is shown at another place, and the executable has another path
inline std::string& fsMapFrom() { static std::string e; return e; }
inline std::string& fsMapTo() { static std::string e; return e; }
inline std::string& fsExec() { static std::string e; return e; }
inline std::string fsMap(const char* p) { const std::string& f = fsMapFrom(); std::string t = p; if(fsGuard() && !f.empty() && t.compare(0, f.size(), f) == 0 && (t.size() == f.size() || t[f.size()] == '/')) return fsMapTo() + t.substr(f.size()); return t; }
extern "C"
{
int access(const char* p, int m) { static auto f = realFn<int(*)(const char*, int)>("access"); return f(fsMap(p).c_str(), m); }
int stat(const char* p, struct stat* b) { static auto f = realFn<int(*)(const char*, struct stat*)>("stat"); return f(fsMap(p).c_str(), b); }
int lstat(const char* p, struct stat* b) { static auto f = realFn<int(*)(const char*, struct stat*)>("lstat"); return f(fsMap(p).c_str(), b); }
DIR* opendir(const char* p) { static auto f = realFn<DIR*(*)(const char*)>("opendir"); return f(fsMap(p).c_str()); }
ssize_t readlink(const char* p, char* b, size_t n)
{
	static auto f = realFn<ssize_t(*)(const char*, char*, size_t)>("readlink");
	if(!fsGuard() || strcmp(p, "/proc/self/exe")) return f(fsMap(p).c_str(), b, n);
	size_t k = std::min(n, fsExec().size()); memcpy(b, fsExec().data(), k); return (ssize_t)k;
}
}
#define FS_MAPPED(p) fsMap(p).c_str()
#else
#define FS_MAPPED(p) p
#endif
extern "C"
{
FILE* fopen(const char* p, const char* m)
{
	static auto f = realFn<FILE*(*)(const char*, const char*)>("fopen");
	if(fsGuard() && m && strpbrk(m, "wa+") && !fsInside(p)) return nullptr;
	if(fsGuard() && fsOpenHook()) return fsOpenHook()(p, m);
	return f(FS_MAPPED(p), m);
}
int mkdir(const char* p, mode_t m) { static auto f = realFn<int(*)(const char*, mode_t)>("mkdir"); return fsInside(p) ? f(p, m) : -1; }
int rmdir(const char* p) { static auto f = realFn<int(*)(const char*)>("rmdir"); return fsInside(p) ? f(p) : -1; }
int unlink(const char* p) { static auto f = realFn<int(*)(const char*)>("unlink"); return fsInside(p) ? f(p) : -1; }
int remove(const char* p) { static auto f = realFn<int(*)(const char*)>("remove"); return fsInside(p) ? f(p) : -1; }
int rename(const char* a, const char* b) { static auto f = realFn<int(*)(const char*, const char*)>("rename"); return fsInside(a) && fsInside(b) ? f(a, b) : -1; }
int setxattr(const char* p, const char* n, const void* v, size_t s, int fl) { static auto f = realFn<int(*)(const char*, const char*, const void*, size_t, int)>("setxattr"); return fsInside(p) ? f(p, n, v, s, fl) : -1; }
}
// a call of the library with the guard on; a path outside the scratch directory is a failure
template<class F> auto guarded(F f) -> decltype(f())
{
	struct Check { ~Check() noexcept(false) { } };
	fsEscape().clear();
	if constexpr(std::is_void_v<decltype(f())>) { { GuardOn g; f(); } REQUIRE(fsEscape().empty(), << "the operation addressed " << quote(fsEscape()) << ", which is none of the named files"); }
	else { auto r = [&] { GuardOn g; return f(); }(); REQUIRE(fsEscape().empty(), << "the operation addressed " << quote(fsEscape()) << ", which is none of the named files"); return r; }
}
inline std::string readFileRaw(const std::string& p)
{
	std::ifstream f(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); return s;
}
inline void writeFileRaw(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), (std::streamsize)d.size()); }
inline void clearDir(const std::string& d)
{
	DIR* dp = opendir(d.c_str()); if(!dp) return; std::vector<std::string> n; while(auto e = readdir(dp)) n.push_back(e->d_name); closedir(dp);
	for(auto& x : n) { if(x == "." || x == "..") continue; std::string p = d + "/" + x; struct stat st; if(lstat(p.c_str(), &st)) continue; if(S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); clearDir(p); ::rmdir(p.c_str()); } else ::unlink(p.c_str()); }
}
