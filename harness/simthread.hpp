// Threads of the code under test as coroutines with a controlled scheduler.
// The code runs unchanged: it is compiled with the instrumentation of the
// thread sanitizer, whose entry points simthread.cpp defines, and the pthread,
// futex, sleep and OpenMP calls it makes end up there too.
//
// A schedule is a sequence of choices: at every synchronising operation (lock,
// unlock, atomic access, thread start and end, wait, wake, sleep) the running
// thread goes on or, using up one of the allowed preemptions, another one does.
// When the running thread blocks or sleeps, every other thread that can run is
// tried. Accesses that are not ordered by synchronisation are reported as data
// races whatever the schedule; without races switching at other points changes
// nothing. Two schedules that order all synchronising operations on each object
// in the same way lead to the same state, so the second one is cut short.
#pragma once
#include "mc.hpp"
#include <functional>
namespace thr {
struct World
{
    int preemptions = 1;       // switches away from a thread that could go on
    int detours = 3;     // choices other than the first when a thread cannot go on
    long max_ops = 20000;
    bool cache = true;
    unsigned cpus = 2;         // what the machine claims to have
    bool races = true;
};
// runs body as the first thread; reports deadlock, races, endless runs,
// exceptions leaving a thread and threads left behind. Memory allocated inside
// (except under Quiet) is gone when the world is abandoned: no object outside
// may own any
void run(const World&, const std::function<void()>& body);
[[noreturn]] void bad(const std::string& key, const std::string& msg);   // from inside: the world is abandoned
#define THR_CHECK(c, key, stream) do { if (!(c)) { thr::Quiet q_; std::ostringstream o_; o_ << stream; thr::bad(key, o_.str()); } } while (0)
// bookkeeping of the harness itself: not watched, not a scheduling point
struct Quiet { Quiet(); ~Quiet(); };
void point();                   // a scheduling point of the harness
uint32_t choose(uint32_t n);    // a choice made inside a thread
int self();                     // number of the running thread, 0 = first
int started();                  // threads started so far, with the first
void region(const void* p, size_t n, const std::string& name);   // name memory in race reports; without a name its races are left out
}
