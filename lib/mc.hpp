// Bounded exhaustive explorer for single-threaded code.
//
// A scenario is an ordinary function.  Everything it does not fix itself is a
// choice: mc::choose(n) for inputs, operations and faults, and every raw 32-bit
// word that the library's generator hands out (through the PARADISEO_VERIF
// hook).  The engine runs the scenario once per element of the choice tree,
// depth first, so that when it returns every execution within the declared
// bounds has been run on the real code.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <iostream>

namespace mc
{
struct Prune {};                         // leave this branch: bound reached
struct Stop {};                          // violation recorded: next execution

struct Violation { std::string key, msg; std::vector<uint32_t> choices; uint64_t count; };

typedef void (*Body)();
struct Scenario { std::string name; Body body; int thoroughOnly; };
std::vector<Scenario>& registry();
struct Register { Register(const char* n, Body b, int t = 0); };

#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
#define MC_SCENARIO(name) \
    static void MC_CAT(mc_body_,__LINE__)(); \
    static mc::Register MC_CAT(mc_reg_,__LINE__)(name, MC_CAT(mc_body_,__LINE__)); \
    static void MC_CAT(mc_body_,__LINE__)()
#define MC_SCENARIO_T(name) \
    static void MC_CAT(mc_body_,__LINE__)(); \
    static mc::Register MC_CAT(mc_reg_,__LINE__)(name, MC_CAT(mc_body_,__LINE__), 1); \
    static void MC_CAT(mc_body_,__LINE__)()

bool thorough();
// a bound: q in the quick tier, t in the thorough one
template <class T> inline T tier(T q, T t) { return thorough() ? t : q; }

// ---- choices -------------------------------------------------------------
uint32_t choose(uint32_t n);                    // 0..n-1, all explored
inline int range(int lo, int hi) { return lo + int(choose(uint32_t(hi - lo + 1))); }
inline bool flag() { return choose(2) != 0; }
template <class T> inline const T& pick(const std::vector<T>& v) { return v[choose(uint32_t(v.size()))]; }
template <class T> inline T pick(std::initializer_list<T> v) { return *(v.begin() + choose(uint32_t(v.size()))); }
void prune();
bool fresh();                                   // the next choice has not been made before
uint64_t path_hash();                           // of the choices made so far
// Nested enumeration: runs f once for every sequence of choices f makes, all
// inside the current execution, and returns the number of complete runs.  Used
// to obtain the exact distribution of an outcome: each run has the weight
// leaf_prob() (product of 1/n over its choices), and pruned_mass() is the
// weight of the runs that hit a bound.
uint64_t forall(const std::function<void()>& f);
double leaf_prob();
double pruned_mass();
// assume(c): drop executions where c does not hold.
inline void assume(bool c) { if (!c) prune(); }

// ---- random words --------------------------------------------------------
// k words at the middle of k equal cells of [0,2^32): with them random(m)
// takes every value for every m <= k, and with m dividing k each equally often
void rng_grid(unsigned k, unsigned limit = 64);
// the same plus the two extreme words
void rng_grid_edges(unsigned k, unsigned limit = 64);
void rng_words(const std::vector<uint32_t>& w, unsigned limit = 64);
// words follow a fixed base stream; at most d of the first `span` draws may
// deviate to a word of the menu, and every way of deviating is explored
void rng_deviate(unsigned k, unsigned d, unsigned span, uint32_t base_seed);
void rng_fixed(uint32_t seed);                  // base stream only, no choice
void rng_script(const std::vector<uint32_t>& words, bool then_prune = true);
void rng_off();                                 // back to the library generator
unsigned rng_used();                            // words drawn so far in this execution
void rng_reset_used();

// ---- observations --------------------------------------------------------
void state(uint64_t fingerprint);               // a distinct state reached
void step(uint64_t n = 1);                      // transitions besides choices
void sample(const std::string& text);           // example for the evidence
void note(const std::string& key, uint64_t n = 1);  // named counters
[[noreturn]] void fail(const std::string& key, const std::string& msg);
void observe(const std::string& what);          // goes into the trace of a replay

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
template <class C> inline uint64_t hashv(const C& c, uint64_t h = 7)
{
    for (auto x : c) { double d = double(x); uint64_t u; memcpy(&u, &d, 8); h = mix(h, u); }
    return mix(h, c.size());
}

#define MC_CHECK(cond, key, expr) do { if (!(cond)) { std::ostringstream mc_os_; mc_os_ << expr; mc::fail(key, mc_os_.str()); } } while (0)

template <class C> inline std::string show(const C& c)
{
    std::ostringstream os; os << "[";
    bool first = true;
    for (const auto& x : c) { if (!first) os << " "; os << x; first = false; }
    os << "]"; return os.str();
}
inline bool close(double a, double b, double eps = 1e-9)
{
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= eps * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

}
