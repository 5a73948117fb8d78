// Algorithms assembled from the text of parameters.
#pragma once
#include "common.hpp"
#include <functional>
#include <set>
#include <fstream>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <utils/eoParser.h>
#include <utils/eoState.h>
using namespace mc;

// The library makes and clears its output directory through the shell: the
// stand-in does that itself, and only for plain names below the scratch directory.
inline bool plain(const std::string& d) { return !d.empty() && d.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") == std::string::npos; }
inline std::vector<std::string> files(const std::string& d) { std::vector<std::string> r; if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(h); } std::sort(r.begin(), r.end()); return r; }
inline void wipe(const std::string& d) { if (!plain(d)) return; for (auto& f : files(d)) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }
extern "C" int system(const char* c)
{
    std::string s = c;
    if (s.compare(0, 8, "test -d ") == 0) { struct stat b; return stat(s.substr(8).c_str(), &b) == 0 && S_ISDIR(b.st_mode) ? 0 : 256; }
    if (s.compare(0, 6, "mkdir ") == 0 && plain(s.substr(6))) return mkdir(s.substr(6).c_str(), 0755) ? 256 : 0;
    if (s.compare(0, 8, "/bin/rm ") == 0 && s.size() > 10 && s.substr(s.size() - 2) == "/*" && plain(s.substr(8, s.size() - 10))) { for (auto& f : files(s.substr(8, s.size() - 10))) unlink((s.substr(8, s.size() - 10) + "/" + f).c_str()); return 0; }
    mc::fail("shell command", "the library runs " + s);
}

struct Args
{
    std::vector<std::string> text{"prog"}; std::vector<char*> ptr;
    // empty value: the parameter is not given
    Args& set(const std::string& name, const std::string& value) { if (!value.empty()) text.push_back("--" + name + "=" + value); return *this; }
    char** argv() { ptr.clear(); for (auto& t : text) ptr.push_back(&t[0]); ptr.push_back(nullptr); return ptr.data(); }
    unsigned argc() const { return unsigned(text.size()); }
    std::string str() const { std::string s; for (size_t i = 1; i < text.size(); ++i) s += text[i] + " "; return s; }
};
struct Silent { std::streambuf *a, *b, *c; std::ostringstream o; Silent() : a(std::cerr.rdbuf(o.rdbuf())), b(std::cout.rdbuf(o.rdbuf())), c(std::clog.rdbuf(o.rdbuf())) {} ~Silent() { std::cerr.rdbuf(a); std::cout.rdbuf(b); std::clog.rdbuf(c); } };

// a call of the form Name or Name(a,b) together with its arguments
struct Call { std::string text, name; std::vector<double> a; };
inline double arg(const Call& c, size_t i, double dflt) { return i < c.a.size() ? c.a[i] : dflt; }

template <class T> struct Trace : public eoContinue<T>
{
    std::string log; unsigned left; std::function<void(std::ostream&, const T&)> more;
    explicit Trace(unsigned g) : left(g) {}
    bool operator()(const eoPop<T>& p) { std::ostringstream o; for (auto& x : p) { o << x; if (more) more(o, x); o << ";"; } log += o.str() + "\n"; return --left > 0; }
    virtual std::string className() const { return "Trace"; }
};
template <class T> inline std::string dump(const eoPop<T>& p) { std::ostringstream o; o << p.size() << ":"; for (auto& x : p) o << x << ";"; return o.str(); }
// runs it, the words following a fixed stream
inline std::string outcome(uint32_t seed, const std::function<std::string()>& f)
{
    Silent s; rng_fixed(seed); eo::rng.clearCache();
    try { return f(); } catch (const std::exception&) { return "exception"; }
}
