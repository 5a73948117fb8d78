// Runs of components that must depend on nothing but the seed: every other
// source a program could draw from gives other values the second time, memory
// comes with other contents and in another order, and something else ran before.
#pragma once
#include "common.hpp"
#include <functional>
#include <malloc.h>
#include <random>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/random.h>
#include <time.h>
#include <unistd.h>
using namespace mc;

namespace noise {
static int phase = -1;             // which variant of the world; -1 = the real one
static uint64_t tick = 0;
static uint64_t next() { tick += 0x9e3779b97f4a7c15ull; uint64_t z = tick; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; return z ^ (z >> 31); }
static long asked = 0;             // how often a component looked at another source
static void enter(int p) { phase = p; tick = 1000003ull * p + 7; mallopt(M_PERTURB, p ? 0xA5 : 0x5A); }
static void leave() { phase = -1; mallopt(M_PERTURB, 0); }
}
extern "C" {
time_t time(time_t* t) noexcept { time_t r; if (noise::phase < 0) { timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); r = s.tv_sec; } else { ++noise::asked; r = time_t(1000000000 + noise::next() % 900000000); } if (t) *t = r; return r; }
clock_t clock() noexcept { if (noise::phase < 0) { timespec s; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * CLOCKS_PER_SEC + s.tv_nsec / 1000; } ++noise::asked; return clock_t(noise::next() % 1000000); }
int clock_gettime(clockid_t c, timespec* s) noexcept { if (noise::phase < 0) return int(syscall(SYS_clock_gettime, c, s)); ++noise::asked; s->tv_sec = 1000000000 + noise::next() % 900000000; s->tv_nsec = noise::next() % 1000000000; return 0; }
int gettimeofday(timeval* t, void*) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
int rand() noexcept { ++noise::asked; return int(noise::next() & 0x7fffffff); }
void srand(unsigned) noexcept {}
long random() noexcept { ++noise::asked; return long(noise::next() & 0x7fffffff); }
void srandom(unsigned) noexcept {}
double drand48() noexcept { ++noise::asked; return double(noise::next() >> 11) / double(1ull << 53); }
long lrand48() noexcept { ++noise::asked; return long(noise::next() & 0x7fffffff); }
pid_t getpid() noexcept { if (noise::phase < 0) return pid_t(syscall(SYS_getpid)); ++noise::asked; return pid_t(2 + noise::next() % 30000); }
ssize_t getrandom(void* p, size_t n, unsigned) noexcept { for (size_t i = 0; i < n; ++i) static_cast<unsigned char*>(p)[i] = (unsigned char)noise::next(); ++noise::asked; return ssize_t(n); }
}
std::random_device::result_type std::random_device::_M_getval() { ++noise::asked; return unsigned(noise::next()); }

// blocks of one size come in the opposite order in the second variant
namespace noise {
enum { CLASSES = 64, BATCH = 24 };
static void* pool[CLASSES][BATCH]; static int left[CLASSES];
static void* get(size_t n)
{
    size_t c = (n + 15) / 16;
    if (phase != 1 || c >= CLASSES) return malloc(n ? n : 1);
    if (!left[c]) { for (int i = 0; i < BATCH; ++i) pool[c][i] = malloc(c ? c * 16 : 1); std::sort(pool[c], pool[c] + BATCH); left[c] = BATCH; }
    void* p = pool[c][--left[c]]; memset(p, 0x3C, n); return p;
}
}
void* operator new(size_t n) { void* p = noise::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return noise::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return noise::get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
static void __attribute__((noinline)) dirty_stack(int b) { volatile char x[32768]; for (size_t i = 0; i < sizeof x; ++i) x[i] = char(b); }

struct Part { std::string name; std::function<void(std::ostream&)> run; };
inline std::vector<Part>& parts() { static std::vector<Part> p; return p; }
struct Add { Add(const std::string& n, std::function<void(std::ostream&)> f) { parts().push_back({n, f}); } };
#define PART_CAT2(a, b) a##b
#define PART_CAT(a, b) PART_CAT2(a, b)
#define PART(name) static void PART_CAT(part_, __LINE__)(std::ostream&); static Add PART_CAT(add_, __LINE__)(name, PART_CAT(part_, __LINE__)); static void PART_CAT(part_, __LINE__)(std::ostream& out)

inline std::string once(const Part& p, uint32_t seed, int phase)
{
    std::ostringstream o; o.precision(17);
    dirty_stack(phase ? 0x6B : 0x94);
    eo::rng.reseed(seed); eo::rng.clearCache();
    noise::enter(phase);
    try { p.run(o); } catch (const std::exception& e) { o << "!" << e.what(); }
    noise::leave();
    o << " | " << eo::rng.rand() << " " << eo::rng.rand();     // as many words were drawn
    return o.str();
}
static std::string cut(const std::string& a, const std::string& b)
{
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t f = i > 40 ? i - 40 : 0; return "..." + a.substr(f, 120) + " against ..." + b.substr(f, 120);
}
MC_SCENARIO(E08_OF ": same seed, same run")
{
    rng_off(); quiet();
    const Part& p = parts()[choose(uint32_t(parts().size()))]; uint32_t seed = pick(tier(std::vector<uint32_t>{1, 42, 12345}, std::vector<uint32_t>{0, 1, 2, 3, 42, 12345, 0x7fffffffu, 0xffffffffu, 99, 1000003}));
    std::string a = once(p, seed, 0), b = once(p, seed, 1), c = once(p, seed, 0);
    MC_CHECK(a == b, p.name, p.name << " with seed " << seed << " does something else when clocks, other generators and memory differ: " << cut(a, b));
    MC_CHECK(a == c, p.name, p.name << " with seed " << seed << " does something else the third time: " << cut(a, c));
    mc::state(mc::hash(a));
}
MC_SCENARIO(E08_OF ": the seed matters")
{
    rng_off(); quiet();
    const Part& p = parts()[choose(uint32_t(parts().size()))];
    std::set<std::string> s; for (uint32_t seed = 0; seed < 40; ++seed) { std::string t = once(p, seed, 0); s.insert(t.substr(0, t.rfind(" | "))); }
    MC_CHECK(s.size() > 1 || p.name.compare(0, 6, "fixed:") == 0, p.name + ": constant", p.name << " does the same for 40 seeds");
    note("different results of 40 seeds", s.size()); mc::state(mc::hash(*s.begin()));
}
MC_SCENARIO(E08_OF ": whatever ran before")
{
    rng_off(); quiet();
    const Part& p = parts()[choose(uint32_t(parts().size()))]; const Part& q = parts()[choose(uint32_t(parts().size()))]; uint32_t seed = 5;
    std::string a = once(p, seed, 0); once(q, 77, 0); std::string b = once(p, seed, 0);
    MC_CHECK(a == b, p.name, p.name << " does something else after " << q.name << ": " << cut(a, b));
    mc::state(mc::hash(a) * 31 + mc::hash(q.name));
}
