#include "simthread.hpp"
#include <pthread.h>
#include <errno.h>
#include <dlfcn.h>
#include <link.h>
#include <cxxabi.h>
#include <malloc.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>
#include <sys/single_threaded.h>
#include <thread>
#include <future>
#include <sys/mman.h>
#define API extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------- context switch
extern "C" void thr_switch(void** save, void* load);
asm(R"(
.text
.globl thr_switch
.type thr_switch,@function
thr_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size thr_switch,.-thr_switch
)");

namespace thr {
namespace {
const int MAXT = 48;
const size_t STACK = 256 * 1024;
struct Clock { uint32_t c[MAXT]; };
inline void join(Clock& a, const Clock& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Team { int size; std::function<void()> fn; unsigned long long next, end, incr, chunk; bool loop; int loops_left; int arrived; long round; Clock clk; int single; };
struct Thread
{
    void* sp; char* stack; bool finished, blocked, yielded, detached, joined; std::function<bool()>* ready; const char* what;
    void* (*fn)(void*); void* arg; void* result; Clock vc; uint64_t nops; int quiet;
    std::vector<char> tls; Team* team; int team_id; std::map<const void*, std::pair<uint64_t, int>>* seen; long loop_round;
};
Thread T[MAXT]; int NT = 0, cur = -1; bool active = false; void* home_sp; std::vector<char> home_tls;
World W; int preempt, detours; long ops; uint64_t hash_, last_hash; int last_cur; std::string fail_key, fail_msg; bool pruned; long clock_now;
std::function<void()> body;
bool first_run = true;

// thread-local storage of the program and of libstdc++ is swapped with the thread
struct Tls { char* p; size_t n; const char* init; size_t ninit; };
std::vector<Tls>* tlsv;
int phdr(struct dl_phdr_info* i, size_t, void*)
{
    std::string name = i->dlpi_name ? i->dlpi_name : "";
    if (!name.empty() && name.find("libstdc++") == std::string::npos) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data)
        tlsv->push_back({(char*)i->dlpi_tls_data, i->dlpi_phdr[k].p_memsz, (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz});
    return 0;
}
void tls_save(std::vector<char>& v) { size_t n = 0; for (auto& t : *tlsv) n += t.n; v.resize(n); n = 0; for (auto& t : *tlsv) { memcpy(&v[n], t.p, t.n); n += t.n; } }
void tls_load(const std::vector<char>& v) { size_t n = 0; for (auto& t : *tlsv) { memcpy(t.p, &v[n], t.n); n += t.n; } }
void tls_fresh(std::vector<char>& v) { size_t n = 0; for (auto& t : *tlsv) n += t.n; v.assign(n, 0); n = 0; for (auto& t : *tlsv) { memcpy(&v[n], t.init, t.ninit); n += t.n; } }

// -------------------------------------------------------- shadow of the memory
struct Rec { uint32_t clk; uint8_t tid, mask; bool write; void* pc; };
struct Cell { uintptr_t word; uint32_t gen; uint8_t n; Rec r[8]; };
const size_t CELLS = 1 << 17;
Cell* cells; uint32_t gen = 0; size_t used_cells;
struct Region { uintptr_t a, b; std::string name; };
std::vector<Region>* regions;

Cell* cell(uintptr_t w, bool make)
{
    size_t h = (w >> 3) * 0x9E3779B97F4A7C15ull >> 47;
    for (size_t k = 0; k < CELLS; ++k, h = (h + 1) & (CELLS - 1)) {
        Cell& c = cells[h & (CELLS - 1)];
        if (c.gen != gen) { if (!make) return nullptr; if (++used_cells > CELLS * 3 / 4) { fprintf(stderr, "thr: shadow memory full\n"); _exit(6); } c.gen = gen; c.word = w; c.n = 0; return &c; }
        if (c.word == w) return &c;
    }
    return nullptr;
}
std::string where(void* pc)
{
    Dl_info i; if (!dladdr(pc, &i) || !i.dli_sname) return "?";
    int st; char* d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); std::string s = d ? d : i.dli_sname; free(d);
    return s.size() > 150 ? s.substr(0, 150) : s;
}
void leave();
void report(uintptr_t a, const Rec& o, bool w, void* pc)
{
    Quiet q;
    std::string key = "data race";
    for (auto& r : *regions) if (a >= r.a && a < r.b) { if (r.name.empty()) return; key = "data race: " + r.name; }
    std::ostringstream m; m << "thread " << cur << " " << (w ? "writes" : "reads") << " in " << where(pc) << " what thread " << int(o.tid) << " " << (o.write ? "wrote" : "read") << " in " << where(o.pc) << " without synchronisation";
    fail_key = key; fail_msg = m.str(); leave();
}
void touch(uintptr_t a, size_t n, bool w, void* pc)
{
    if (!active || cur < 0 || T[cur].quiet || !W.races) return;
    uintptr_t end = a + n; Thread& t = T[cur];
    for (auto& x : *tlsv) if (a >= uintptr_t(x.p) && a < uintptr_t(x.p) + x.n) return;      // every thread has its own
    while (a < end) {
        uintptr_t word = a & ~uintptr_t(7), stop = std::min(word + 8, end);
        uint8_t mask = 0; for (uintptr_t x = a; x < stop; ++x) mask |= uint8_t(1u << (x - word));
        Cell* c = cell(word, true); bool stored = false; uint8_t k = 0;
        for (uint8_t i = 0; i < c->n; ++i) {
            Rec& r = c->r[i]; bool keep = true;
            if (r.mask & mask) {
                if (r.tid != cur && (w || r.write) && r.clk > t.vc.c[r.tid]) { report(a, r, w, pc); return; }
                if (r.tid == cur && r.write == w && (r.mask & ~mask) == 0) { if (!stored) { r.clk = t.vc.c[cur]; r.mask = mask; r.pc = pc; stored = true; } else keep = false; }
                else if ((r.mask & ~mask) == 0 && r.clk <= t.vc.c[r.tid] && (w || !r.write)) keep = false;   // ordered before this one, which tells as much
            }
            if (keep) { if (k != i) c->r[k] = r; ++k; }
        }
        c->n = k;
        if (!stored) {
            if (c->n == 8) { memmove(c->r, c->r + 1, 7 * sizeof(Rec)); c->n = 7; }
            c->r[c->n++] = Rec{t.vc.c[cur], uint8_t(cur), mask, w, pc};
        }
        a = stop;
    }
}
void forget(void* p, size_t n) { for (uintptr_t w = uintptr_t(p) & ~uintptr_t(7); w < uintptr_t(p) + n; w += 8) if (Cell* c = cell(w, false)) c->n = 0; }

// --------------------------------------------------- synchronisation objects
struct Obj { Clock clk; int owner; int depth; uint64_t version; std::vector<int>* waiters; };
std::map<const void*, Obj>* objs;
Obj& obj(const void* p) { auto it = objs->find(p); if (it == objs->end()) { Obj o; memset(&o, 0, sizeof o); o.owner = -1; it = objs->emplace(p, o).first; } return it->second; }
void tick() { ++T[cur].vc.c[cur]; }
void acquire(Obj& o) { join(T[cur].vc, o.clk); }
void release(Obj& o) { join(o.clk, T[cur].vc); tick(); }
void version(Obj& o, uint64_t kind)        // the partial order built so far, independent of the interleaving
{
    ++o.version;
    hash_ += mc::mix(mc::mix(cur, ++T[cur].nops), mc::mix(o.version, kind));
}

// ------------------------------------------------------------------ scheduler
struct Best { int p, d; };
std::map<uint64_t, Best>* visited;
std::string* visited_for;
void to(int next)
{
    if (next == cur) return;
    int old = cur; tls_save(T[old].tls); cur = next; tls_load(T[next].tls);
    thr_switch(&T[old].sp, T[next].sp);
}
void leave()       // give up this world; never returns
{
    int old = cur; void* dummy; tls_load(home_tls); cur = -1; active = false;
    (void)old; thr_switch(&dummy, home_sp);
    abort();
}
bool can(int i) { return !T[i].finished && (!T[i].blocked || (*T[i].ready)()); }
void stop(const char* key, const std::string& msg) { ++T[cur].quiet; fail_key = key; fail_msg = msg; leave(); }
// choose who runs; the current thread may be unable to go on
void decide(bool cur_can)
{
    Thread& me = T[cur]; ++me.quiet;
    if (++ops > W.max_ops) stop("endless", "more than " + std::to_string(W.max_ops) + " operations");
    mc::step(1);
    for (int i = 0; i < NT; ++i) if (i != cur) T[i].yielded = T[i].yielded && false;
    int list[MAXT], n = 0; bool stay = cur_can && !me.yielded;
    if (stay) list[n++] = cur;
    for (int k = 1; k < NT; ++k) { int i = (cur + k) % NT; if (can(i)) list[n++] = i; }
    if (!stay && cur_can && n == 0) list[n++] = cur;
    if (n == 0) {
        bool all = true; for (int i = 0; i < NT; ++i) all = all && T[i].finished;
        if (all) { --me.quiet; fail_key.clear(); leave(); }
        std::ostringstream o; for (int i = 0; i < NT; ++i) if (!T[i].finished) o << "thread " << i << " waits for " << T[i].what << "; ";
        stop("deadlock", o.str());
    }
    int next = list[0];
    bool again = stay && last_hash == hash_ && last_cur == cur;      // nothing done since the last decision
    last_hash = hash_; last_cur = cur;
    if (n > 1 && !again && (stay ? preempt > 0 : detours > 0)) {
        if (W.cache && mc::fresh()) {
            uint64_t key = mc::mix(hash_, mc::mix(cur, stay)); auto it = visited->find(key);
            if (it != visited->end() && it->second.p >= preempt && it->second.d >= detours && !first_run) { pruned = true; leave(); }
            if (it == visited->end()) { if (visited->size() < 6000000) (*visited)[key] = Best{preempt, detours}; }
            else if (preempt >= it->second.p && detours >= it->second.d) it->second = Best{preempt, detours};
        }
        mc::state(hash_);
        uint32_t c = mc::choose(uint32_t(n));
        next = list[c];
        if (c) { if (stay) --preempt; else --detours; }
    }
    --me.quiet;
    me.yielded = false;
    to(next);
}
void sched() { if (active && cur >= 0 && !T[cur].quiet) decide(true); }
void wait_until(const char* what, std::function<bool()> ready)
{
    Thread& t = T[cur];
    if (ready()) return;
    t.blocked = true; t.ready = &ready; t.what = what;
    decide(false);
    t.blocked = false; t.ready = nullptr;
}
void yield_() { if (active && cur >= 0 && !T[cur].quiet) { hash_ += mc::mix(mc::mix(cur, ++T[cur].nops), 50); T[cur].yielded = true; decide(true); } }
bool in() { return active && cur >= 0 && !T[cur].quiet; }

void entry()
{
    Thread& t = T[cur];
    try { t.result = t.fn(t.arg); }
    catch (std::exception& e) { ++t.quiet; stop("exception in a thread", std::string("thread ") + std::to_string(cur) + " ends with " + e.what()); }
    catch (...) { ++t.quiet; stop("exception in a thread", "thread " + std::to_string(cur) + " ends with an exception"); }
    ++t.quiet; Obj& o = obj(&t); --t.quiet;
    version(o, 90); release(o);
    t.finished = true;
    decide(false);
    abort();
}
int spawn(void* (*fn)(void*), void* arg, Team* team, int team_id)
{
    if (NT >= MAXT) stop("threads", "more than " + std::to_string(MAXT) + " threads started");
    int i = NT++; Thread& t = T[i];
    t.finished = t.blocked = t.yielded = t.detached = t.joined = false; t.ready = nullptr; t.fn = fn; t.arg = arg; t.result = nullptr; t.nops = 0; t.quiet = 0; t.team = team; t.team_id = team_id; t.what = "start"; t.loop_round = 0;
    if (!t.stack) t.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (!t.seen) t.seen = new std::map<const void*, std::pair<uint64_t, int>>; t.seen->clear();
    memset(&t.vc, 0, sizeof t.vc); if (cur >= 0) join(t.vc, T[cur].vc); t.vc.c[i] = 1;
    if (cur >= 0) tick();
    tls_fresh(t.tls);
    uintptr_t top = (uintptr_t(t.stack) + STACK - 64) & ~uintptr_t(15);
    void** sp = (void**)top; *--sp = nullptr; *--sp = (void*)entry; for (int k = 0; k < 6; ++k) *--sp = nullptr;
    t.sp = sp;
    return i;
}

// ------------------------------------- memory: freed with an abandoned world
struct Block { Block *prev, *next; size_t size; uint64_t magic; };
Block* live = nullptr; const uint64_t MAGIC = 0xb10cb10cb10cb10cull;
void* allocate(size_t n)
{
    Block* b = (Block*)malloc(n + sizeof(Block)); if (!b) return nullptr;
    b->size = n; b->prev = b->next = nullptr; b->magic = MAGIC;
    if (in()) { b->magic = MAGIC + 1; b->next = live; if (live) live->prev = b; live = b; }
    return b + 1;
}
void deallocate(void* p)
{
    if (!p) return;
    Block* b = (Block*)p - 1;
    if (b->magic == MAGIC + 1) { if (b->prev) b->prev->next = b->next; else live = b->next; if (b->next) b->next->prev = b->prev; }
    else if (b->magic != MAGIC) abort();
    if (active && cells) {
        if (W.races) forget(p, b->size);
        if (objs && !objs->empty()) { auto i = objs->lower_bound(p); while (i != objs->end() && i->first < (char*)p + b->size) { delete i->second.waiters; i = objs->erase(i); } }
    }
    b->magic = 0; free(b);
}
} // anonymous

Quiet::Quiet() { if (active && cur >= 0) ++T[cur].quiet; }
Quiet::~Quiet() { if (active && cur >= 0) --T[cur].quiet; }
void point() { if (in()) { Obj* o; { Quiet q; o = &obj(&T[cur].nops); } (void)o; sched(); } }
int self() { return cur; }
int started() { return NT; }
uint32_t choose(uint32_t n) { Quiet q; uint32_t c = mc::choose(n); if (active && cur >= 0) hash_ += mc::mix(mc::mix(cur, ++T[cur].nops), mc::mix(c, 77)); return c; }
void region(const void* p, size_t n, const std::string& name) { Quiet q; if (!regions) regions = new std::vector<Region>; regions->push_back({uintptr_t(p), uintptr_t(p) + n, name}); }
void bad(const std::string& key, const std::string& msg) { if (active && cur >= 0) { ++T[cur].quiet; fail_key = key; fail_msg = msg; leave(); abort(); } mc::fail(key, msg); }
static void* main_thread(void*) { body(); return nullptr; }
void run(const World& w, const std::function<void()>& b)
{
    if (!tlsv) { tlsv = new std::vector<Tls>; dl_iterate_phdr(phdr, nullptr); cells = (Cell*)calloc(CELLS, sizeof(Cell)); objs = new std::map<const void*, Obj>; visited = new std::map<uint64_t, Best>; if (!regions) regions = new std::vector<Region>; }
    W = w; preempt = w.preemptions; detours = w.detours; ops = 0; hash_ = mc::path_hash(); fail_key.clear(); pruned = false; body = b; NT = 0; cur = -1; last_hash = 0; last_cur = -1; __libc_single_threaded = 0; ++gen; used_cells = 0; live = nullptr; clock_now = 0;
    for (auto& o : *objs) delete o.second.waiters;
    objs->clear();
    tls_save(home_tls);
    spawn(main_thread, nullptr, nullptr, 0);
    active = true; cur = 0; tls_load(T[0].tls);
    thr_switch(&home_sp, T[0].sp);
    active = false; cur = -1;
    bool was_first = first_run; first_run = false;
    bool abandoned = pruned || !fail_key.empty();
    if (abandoned && !was_first) { while (live) { Block* x = live; live = x->next; x->magic = 0; free(x); } }
    while (live) { Block* x = live; live = x->next; x->magic = MAGIC; x->prev = x->next = nullptr; }    // outlives this world
    body = nullptr;
    mc::note("threads started", NT);
    if (pruned) mc::prune();
    if (!fail_key.empty()) mc::fail(fail_key, fail_msg);
    for (int i = 1; i < NT; ++i) MC_CHECK(T[i].joined || T[i].detached || T[i].team, "thread left behind", "thread " << i << " was never joined");
}
} // thr
using namespace thr;

void* operator new(size_t n) { void* p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void* p) noexcept { deallocate(p); }
void operator delete[](void* p) noexcept { deallocate(p); }
void operator delete(void* p, size_t) noexcept { deallocate(p); }
void operator delete[](void* p, size_t) noexcept { deallocate(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { deallocate(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { deallocate(p); }

// ------------------------------------------------------------------- pthreads
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static Obj& qobj(const void* p) { Quiet q; return obj(p); }

API int pthread_create(pthread_t* id, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept
{
    if (!active) { fprintf(stderr, "thr: thread outside a world\n"); _exit(6); }
    sched();
    int i; { Quiet q; i = spawn(fn, arg, nullptr, 0); }
    *id = pthread_t(i + 1);
    version(qobj(&T[i]), 1);
    sched();
    return 0;
}
API int pthread_join(pthread_t id, void** r)
{
    int i = int(id) - 1;
    if (!active || i < 0 || i >= NT || T[i].joined || i == cur) return ESRCH;
    sched();
    wait_until("the end of another thread", [i] { return T[i].finished; });
    Obj& o = qobj(&T[i]); acquire(o); version(o, 2);
    T[i].joined = true; if (r) *r = T[i].result;
    return 0;
}
API int pthread_detach(pthread_t id) noexcept { int i = int(id) - 1; if (active && i >= 0 && i < NT) T[i].detached = true; return 0; }
API pthread_t pthread_self() noexcept { return active && cur >= 0 ? pthread_t(cur + 1) : pthread_t(1); }
API int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
static int lock_(const void* m, bool recursive, bool try_only, const char* what)
{
    sched();
    Obj* o = &qobj(m);
    if (o->owner == cur && recursive) { ++o->depth; return 0; }
    if (o->owner >= 0) {
        if (try_only) { version(*o, 5); yield_(); return EBUSY; }
        int me = cur; (void)me;
        wait_until(what, [m] { return obj(m).owner < 0; });
        o = &qobj(m);
    }
    o->owner = cur; o->depth = 1; acquire(*o); version(*o, 3);
    return 0;
}
static int unlock_(const void* m)
{
    Obj& o = qobj(m);
    if (o.owner != cur) stop("unlock", "a mutex is unlocked by a thread that does not hold it");
    if (--o.depth > 0) return 0;
    o.owner = -1; release(o); version(o, 4);
    sched();
    return 0;
}
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
API int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return in() ? lock_(m, rec(m), false, "a mutex") : 0; }
API int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return in() ? lock_(m, rec(m), true, "a mutex") : 0; }
API int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return in() ? unlock_(m) : 0; }
API int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept { if (!in()) return 0; return lock_(m, rec(m), true, "a mutex") ? ETIMEDOUT : 0; }
API int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept { if (!in()) return 0; return lock_(m, rec(m), true, "a mutex") ? ETIMEDOUT : 0; }
// shared mutexes: readers count in depth with owner -2
API int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return in() ? lock_(m, false, false, "a shared mutex") : 0; }
API int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    if (!in()) return 0;
    sched();
    wait_until("a shared mutex", [m] { return obj(m).owner < 0; });
    Obj& o = qobj(m); o.owner = -2; ++o.depth; acquire(o); version(o, 6);
    return 0;
}
API int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    if (!in()) return 0;
    Obj& o = qobj(m);
    if (o.owner == -2) { if (--o.depth == 0) o.owner = -1; release(o); version(o, 7); sched(); return 0; }
    return unlock_(m);
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    if (!in()) return 0;
    Obj& o = qobj(c); { Quiet q; if (!o.waiters) o.waiters = new std::vector<int>; o.waiters->push_back(cur); }
    int me = cur; version(o, 10);
    { Obj& mo = qobj(m); mo.owner = -1; mo.depth = 0; release(mo); version(mo, 4); }
    bool woken = false;
    if (timed) { yield_(); woken = std::find(o.waiters->begin(), o.waiters->end(), me) == o.waiters->end(); if (!woken) { Quiet q; o.waiters->erase(std::find(o.waiters->begin(), o.waiters->end(), me)); } }
    else { sched(); wait_until("a condition", [c, me] { Obj& x = obj(c); return std::find(x.waiters->begin(), x.waiters->end(), me) == x.waiters->end(); }); woken = true; }
    acquire(qobj(c)); version(qobj(c), 11);
    lock_(m, false, false, "a mutex");
    return woken ? 0 : ETIMEDOUT;
}
API int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
API int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait(c, m, true); }
API int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait(c, m, true); }
static int wake(pthread_cond_t* c, bool all)
{
    if (!in()) return 0;
    sched();
    Obj& o = qobj(c); release(o); version(o, all ? 12 : 13);
    if (o.waiters && !o.waiters->empty()) { Quiet q; if (all) o.waiters->clear(); else o.waiters->erase(o.waiters->begin() + (o.waiters->size() > 1 ? thr::choose(uint32_t(o.waiters->size())) : 0)); }
    return 0;
}
API int pthread_cond_signal(pthread_cond_t* c) noexcept { return wake(c, false); }
API int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return wake(c, true); }
API int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
API int pthread_once(pthread_once_t* p, void (*f)())
{
    int* s = (int*)p;
    if (!in()) { if (*s == 0) { *s = 1; f(); *s = 2; } return 0; }
    if (*s == 1) wait_until("an initialisation", [s] { return *s != 1; });
    if (*s == 2) { Obj& o = qobj(p); acquire(o); version(o, 21); return 0; }
    *s = 1;
    try { f(); } catch (...) { *s = 0; throw; }
    *s = 2; Obj& o = qobj(p); release(o); version(o, 20);
    return 0;
}
API int nanosleep(const struct timespec*, struct timespec*) { yield_(); return 0; }
API int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { yield_(); return 0; }
API int usleep(useconds_t) { yield_(); return 0; }
API int sched_yield() noexcept { yield_(); return 0; }
unsigned std::thread::hardware_concurrency() noexcept { return W.cpus; }
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, std::chrono::seconds, std::chrono::nanoseconds)
{
    if (!in()) return true;
    if (timed) { yield_(); return *a != v; }
    Obj& o = qobj(a); uint64_t before = o.version;
    if (*a != v) return true;
    // asleep until woken: the wake-up counts even if the value has not changed
    (void)before;
    int me = cur; { Quiet q; if (!o.waiters) o.waiters = new std::vector<int>; o.waiters->push_back(me); }
    wait_until("a result", [a, me] { Obj& x = obj(a); return std::find(x.waiters->begin(), x.waiters->end(), me) == x.waiters->end(); });
    return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, std::chrono::seconds s, std::chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timed, s, n); }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
    if (!in()) return;
    Obj& o = qobj(a); if (o.waiters) { Quiet q; o.waiters->clear(); }
    version(o, 30); sched();
}

// ---------------------------------------------- what the instrumentation calls
#define PC __builtin_return_address(0)
#define RW(n) \
API void __tsan_read##n(void* a) { touch(uintptr_t(a), n, false, PC); } \
API void __tsan_write##n(void* a) { touch(uintptr_t(a), n, true, PC); } \
API void __tsan_unaligned_read##n(void* a) { touch(uintptr_t(a), n, false, PC); } \
API void __tsan_unaligned_write##n(void* a) { touch(uintptr_t(a), n, true, PC); } \
API void __tsan_volatile_read##n(void* a) { touch(uintptr_t(a), n, false, PC); } \
API void __tsan_volatile_write##n(void* a) { touch(uintptr_t(a), n, true, PC); } \
API void __tsan_read_write##n(void* a) { touch(uintptr_t(a), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void* a, unsigned long n) { touch(uintptr_t(a), n, false, PC); }
API void __tsan_write_range(void* a, unsigned long n) { touch(uintptr_t(a), n, true, PC); }
API void __tsan_vptr_update(void** a, void* v) { if (*a != v) touch(uintptr_t(a), 8, true, PC); }
API void __tsan_vptr_read(void** a) { touch(uintptr_t(a), 8, false, PC); }
API void __tsan_func_entry(void*) {}
API void __tsan_func_exit() {}
API void __tsan_init() {}
// plain calls that copy memory
API void* __tsan_memcpy(void* d, const void* s, size_t n) { touch(uintptr_t(s), n, false, PC); touch(uintptr_t(d), n, true, PC); return memcpy(d, s, n); }
API void* __tsan_memset(void* d, int c, size_t n) { touch(uintptr_t(d), n, true, PC); return memset(d, c, n); }
API void* __tsan_memmove(void* d, const void* s, size_t n) { touch(uintptr_t(s), n, false, PC); touch(uintptr_t(d), n, true, PC); return memmove(d, s, n); }

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
template <class V> static V aload(const volatile V* a, int mo)
{
    if (!in()) return *a;
    sched();
    V v = *a; Obj& o = qobj((const void*)a);
    if (acq(mo)) acquire(o);
    // looking again and again at the same value: let the others move
    auto* seen = T[cur].seen; uint64_t val = 0; memcpy(&val, &v, sizeof v < 8 ? sizeof v : 8);
    bool spin; { Quiet q; auto& s = (*seen)[(const void*)a]; if (s.second && s.first == mc::mix(val, o.version)) ++s.second; else s = {mc::mix(val, o.version), 1}; spin = s.second > 2; }
    hash_ += mc::mix(mc::mix(cur, ++T[cur].nops), mc::mix(o.version, 40));
    if (spin) yield_();
    return v;
}
template <class V> static void astore(volatile V* a, V v, int mo)
{
    if (!in()) { *a = v; return; }
    sched();
    Obj& o = qobj((const void*)a);
    *a = v; if (rel(mo)) { memset(&o.clk, 0, sizeof o.clk); release(o); } else memset(&o.clk, 0, sizeof o.clk);
    version(o, 41);
}
template <class V, class F> static V armw(volatile V* a, F f, int mo)
{
    if (!in()) { V old = *a; *a = f(old); return old; }
    sched();
    Obj& o = qobj((const void*)a);
    if (acq(mo)) acquire(o);
    V old = *a; *a = f(old);
    if (rel(mo)) release(o);
    version(o, 42);
    return old;
}
template <class V> static int acas(volatile V* a, V* expect, V want, int mo, int fmo)
{
    if (in()) sched();
    bool ok = *a == *expect;
    if (in()) { Obj& o = qobj((const void*)a); if (acq(ok ? mo : fmo)) acquire(o); if (ok && rel(mo)) release(o); version(o, 43); }
    if (ok) *a = want; else { *expect = *a; if (in()) yield_(); }
    return ok;
}
#define ATOM(bits, V) \
API V __tsan_atomic##bits##_load(const volatile V* a, int mo) { return aload<V>(a, mo); } \
API void __tsan_atomic##bits##_store(volatile V* a, V v, int mo) { astore<V>(a, v, mo); } \
API V __tsan_atomic##bits##_exchange(volatile V* a, V v, int mo) { return armw<V>(a, [=](V) { return v; }, mo); } \
API V __tsan_atomic##bits##_fetch_add(volatile V* a, V v, int mo) { return armw<V>(a, [=](V x) { return V(x + v); }, mo); } \
API V __tsan_atomic##bits##_fetch_sub(volatile V* a, V v, int mo) { return armw<V>(a, [=](V x) { return V(x - v); }, mo); } \
API V __tsan_atomic##bits##_fetch_and(volatile V* a, V v, int mo) { return armw<V>(a, [=](V x) { return V(x & v); }, mo); } \
API V __tsan_atomic##bits##_fetch_or(volatile V* a, V v, int mo) { return armw<V>(a, [=](V x) { return V(x | v); }, mo); } \
API V __tsan_atomic##bits##_fetch_xor(volatile V* a, V v, int mo) { return armw<V>(a, [=](V x) { return V(x ^ v); }, mo); } \
API V __tsan_atomic##bits##_fetch_nand(volatile V* a, V v, int mo) { return armw<V>(a, [=](V x) { return V(~(x & v)); }, mo); } \
API int __tsan_atomic##bits##_compare_exchange_strong(volatile V* a, V* e, V w, int mo, int fmo) { return acas<V>(a, e, w, mo, fmo); } \
API int __tsan_atomic##bits##_compare_exchange_weak(volatile V* a, V* e, V w, int mo, int fmo) { return acas<V>(a, e, w, mo, fmo); } \
API V __tsan_atomic##bits##_compare_exchange_val(volatile V* a, V e, V w, int mo, int fmo) { acas<V>(a, &e, w, mo, fmo); return e; }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef unsigned long u64;
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
API void __tsan_atomic_thread_fence(int) { sched(); }
API void __tsan_atomic_signal_fence(int) {}

// --------------------------------------------------------------------- OpenMP
namespace thr { int omp_threads = 2; }
static void* team_entry(void* p) { Team* t = T[cur].team; (void)p; t->fn(); return nullptr; }
static Team* alone = nullptr; static long alone_round = 0;   // outside a world
static void omp_run(void (*fn)(void*), void* data, unsigned n, bool loop, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk)
{
    if (n == 0) n = unsigned(omp_threads);
    if (!in()) n = 1;
    Team t; Team* outer = nullptr; int outer_id = 0; auto outer_round = T[0].loop_round;
    { Quiet q; t.size = int(n); t.fn = [=] { fn(data); }; t.loop = loop; t.next = s; t.end = e; t.incr = inc; t.chunk = chunk ? chunk : 1; t.arrived = 0; t.round = 0; t.single = 0; memset(&t.clk, 0, sizeof t.clk); }
    if (cur >= 0) { outer = T[cur].team; outer_id = T[cur].team_id; outer_round = T[cur].loop_round; T[cur].team = &t; T[cur].team_id = 0; T[cur].loop_round = 0; } else { outer = alone; outer_round = alone_round; alone = &t; alone_round = 0; }
    (void)outer_id; (void)outer_round;
    std::vector<int> ids;
    if (n > 1) {
        sched();
        for (unsigned i = 1; i < n; ++i) { int k; { Quiet q; k = spawn(team_entry, nullptr, &t, int(i)); ids.push_back(k); } version(qobj(&T[k]), 1); }
        sched();
    }
    fn(data);
    for (int k : ids) { wait_until("the end of a team", [k] { return T[k].finished; }); Obj& o = qobj(&T[k]); acquire(o); version(o, 2); T[k].joined = true; }
    if (cur >= 0) { T[cur].team = outer; T[cur].team_id = outer_id; T[cur].loop_round = outer_round; } else { alone = outer; alone_round = outer_round; }
    { Quiet q; t.fn = nullptr; ids.clear(); ids.shrink_to_fit(); }
}
static Team* team() { return cur >= 0 ? T[cur].team : alone; }
API void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { omp_run(fn, data, n, false, 0, 0, 1, 1); }
static bool next_chunk(unsigned long long* s, unsigned long long* e, bool guided)
{
    Team* t = team(); sched();
    if (!t || t->next >= t->end) return false;
    unsigned long long left = (t->end - t->next + t->incr - 1) / t->incr, c = t->chunk;
    if (guided) c = std::max(c, (left + t->size - 1) / t->size);
    c = std::min(c, left); *s = t->next; *e = std::min(t->end, t->next + c * t->incr); t->next = *e;
    if (in()) version(qobj(&t->next), 60);
    return true;
}
// threads meet a loop in any order; the first one sets it up
static bool start_loop(unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, unsigned long long* a, unsigned long long* b, bool guided)
{
    Team* t = team();
    long& round = cur >= 0 ? T[cur].loop_round : alone_round;
    if (round == t->round) { ++t->round; t->next = s; t->end = e; t->incr = inc; t->chunk = chunk ? chunk : 1; }
    ++round;
    return next_chunk(a, b, guided);
}
typedef unsigned long long ull;
#define LOOP(name, guided) \
API bool GOMP_loop_##name##_start(long s, long e, long inc, long chunk, long* a, long* b) { ull x, y; if (!start_loop(s, e, inc, chunk, &x, &y, guided)) return false; *a = x; *b = y; return true; } \
API bool GOMP_loop_##name##_next(long* a, long* b) { ull x, y; if (!next_chunk(&x, &y, guided)) return false; *a = x; *b = y; return true; } \
API bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull inc, ull chunk, ull* a, ull* b) { return start_loop(s, e, inc, chunk, a, b, guided); } \
API bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return next_chunk(a, b, guided); } \
API void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long chunk, unsigned) { omp_run(fn, d, n, true, s, e, inc, chunk); }
LOOP(dynamic, false) LOOP(nonmonotonic_dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_guided, true) LOOP(static, false)
#define LOOPR(name) \
API bool GOMP_loop_##name##_start(long s, long e, long inc, long* a, long* b) { ull x, y; if (!start_loop(s, e, inc, 1, &x, &y, false)) return false; *a = x; *b = y; return true; } \
API bool GOMP_loop_##name##_next(long* a, long* b) { ull x, y; if (!next_chunk(&x, &y, false)) return false; *a = x; *b = y; return true; } \
API bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull inc, ull* a, ull* b) { return start_loop(s, e, inc, 1, a, b, false); } \
API bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return next_chunk(a, b, false); } \
API void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { omp_run(fn, d, n, true, s, e, inc, 1); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
API void GOMP_barrier()
{
    Team* t = team(); if (!t || t->size < 2) return;
    sched(); long r = t->single; Obj& o = qobj(t); release(o); version(o, 61);
    if (++t->arrived == t->size) { t->arrived = 0; ++t->single; } else wait_until("a barrier", [t, r] { return t->single > r; });
    acquire(qobj(t)); version(qobj(t), 62);
}
API void GOMP_loop_end() { GOMP_barrier(); }
API void GOMP_loop_end_nowait() {}
static char critical, atomic_;
API void GOMP_critical_start() { if (in()) lock_(&critical, false, false, "a critical section"); }
API void GOMP_critical_end() { if (in()) unlock_(&critical); }
API void GOMP_critical_name_start(void** p) { if (in()) lock_(p, false, false, "a critical section"); }
API void GOMP_critical_name_end(void** p) { if (in()) unlock_(p); }
API void GOMP_atomic_start() { if (in()) lock_(&atomic_, false, false, "an atomic section"); }
API void GOMP_atomic_end() { if (in()) unlock_(&atomic_); }
API bool GOMP_single_start() { return cur < 0 || T[cur].team_id == 0; }
API int omp_get_thread_num() noexcept { return cur >= 0 && T[cur].team ? T[cur].team_id : 0; }
API int omp_get_num_threads() noexcept { Team* t = team(); return t ? t->size : 1; }
API int omp_get_max_threads() noexcept { return omp_threads; }
API int omp_get_num_procs() noexcept { return omp_threads; }
API int omp_in_parallel() noexcept { Team* t = team(); return t && t->size > 1; }
API void omp_set_num_threads(int n) noexcept { omp_threads = n; }
API void omp_set_dynamic(int) noexcept {}
API void omp_set_nested(int) noexcept {}
API double omp_get_wtime() noexcept { return double(++clock_now); }
