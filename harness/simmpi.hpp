// A message-passing world inside one process. Every rank is a coroutine that
// runs the real code; the MPI entry points below take the place of the MPI
// library. Messages between two ranks keep their order; a send either returns
// at once (buffered) or when it is received (synchronous), which are the two
// extremes the standard allows.
//
// Schedules: "wild" runs every rank until it blocks and branches over the
// possible sources of a wildcard receive only once nobody else can move. All
// other operations are deterministic and commute (a Kahn network), so this
// covers every order of arrival. "full" also branches over which rank moves at
// each operation, with a bounded number of preemptions.
#pragma once
#include "mc.hpp"
#include <mpi.h>
#include <ucontext.h>
#include <cxxabi.h>
#include <cstring>
#include <functional>
#include <deque>
#include <memory>
#include <eo>
#include <mpi/eoMpi.h>

namespace sim {
struct Msg { int src, tag; bool text; std::string data; long id; };
struct Rank
{
    ucontext_t ctx; std::unique_ptr<char[]> stack; bool done = false, blocked = false;
    std::function<bool()> ready; bool wild = false; std::string what;
    alignas(16) char comm[sizeof(eo::mpi::communicator)]; alignas(16) char rng[sizeof(eoRng)]; char eh[16];
    std::unique_ptr<eoRng> gen;
    std::deque<Msg> box; std::string error;
};
static std::vector<std::unique_ptr<Rank>> W;
static ucontext_t home; static int cur = -1, n = 0; static bool sync = false, full = false; static int preempt = 0; static long next_id = 0;
static std::set<long> taken; static std::string fail_key, fail_msg; static std::function<void(int)> body; static long ops = 0;
static uint64_t history = 0; static int in_barrier = 0; static long barrier_round = 0; static int bc_value = 0; static long bc_done = 0;
static char home_comm[sizeof(eo::mpi::communicator)], home_rng[sizeof(eoRng)], home_eh[16];

static void swap_in(int r) { memcpy((void*)&eo::mpi::Node::comm(), W[r]->comm, sizeof W[r]->comm); memcpy((void*)&eo::rng, W[r]->rng, sizeof W[r]->rng); memcpy((void*)abi::__cxa_get_globals(), W[r]->eh, 16); }
static void swap_out(int r) { memcpy(W[r]->comm, (void*)&eo::mpi::Node::comm(), sizeof W[r]->comm); memcpy(W[r]->rng, (void*)&eo::rng, sizeof W[r]->rng); memcpy(W[r]->eh, (void*)abi::__cxa_get_globals(), 16); }
static void yield() { int r = cur; swapcontext(&W[r]->ctx, &home); }
// report from inside a rank: the world is abandoned, not unwound
[[noreturn]] static void bad(const std::string& key, const std::string& msg) { fail_key = key; fail_msg = msg; for (;;) yield(); }
#define SIM_CHECK(c, key, stream) do { if (!(c)) { std::ostringstream o_; o_ << stream; sim::bad(key, o_.str()); } } while (0)
static void entry()
{
    int r = cur;
    try { body(r); }
    catch (std::exception& e) { W[r]->error = e.what(); if (W[r]->error.empty()) W[r]->error = "exception"; }
    W[r]->done = true;
    for (;;) yield();
}
static void block(const std::string& what, std::function<bool()> ready, bool wild = false)
{
    Rank& r = *W[cur];
    r.ready = ready; r.what = what; r.wild = wild; r.blocked = true;
    yield();
    r.blocked = false;
}
// run all ranks to the end; false with a report when they cannot end
struct World { bool sync = false, full = false; int preemptions = 0; };
static std::vector<std::string> run(int ranks, const World& w, std::function<void(int)> b)
{
    n = ranks; sync = w.sync; full = w.full; preempt = w.preemptions; body = b; next_id = 0; taken.clear(); fail_key.clear(); in_barrier = 0; barrier_round = 0; bc_done = 0; ops = 0; history = mc::mix(ranks, w.sync);
    while (int(W.size()) < n) { W.emplace_back(new Rank); W.back()->stack.reset(new char[512 * 1024]); }
    memcpy(home_comm, (void*)&eo::mpi::Node::comm(), sizeof home_comm); memcpy(home_rng, (void*)&eo::rng, sizeof home_rng); memcpy(home_eh, (void*)abi::__cxa_get_globals(), 16);
    for (int i = 0; i < n; ++i) {
        Rank& r = *W[i];
        r.done = r.blocked = r.wild = false; r.ready = nullptr; r.box.clear(); r.error.clear(); r.what = "start";
        new (r.comm) eo::mpi::communicator(); memset(r.eh, 0, 16);
        r.gen.reset(new eoRng(1000 + i)); memcpy(r.rng, (void*)r.gen.get(), sizeof r.rng);
        getcontext(&r.ctx); r.ctx.uc_stack.ss_sp = r.stack.get(); r.ctx.uc_stack.ss_size = 512 * 1024; r.ctx.uc_link = nullptr;
        makecontext(&r.ctx, (void (*)())entry, 0);
    }
    auto ready = [&](int i) { return !W[i]->done && (!W[i]->blocked || W[i]->ready()); };
    int last = -1; std::string verdict;
    for (;;) {
        std::vector<int> can, wild; bool all = true;
        for (int i = 0; i < n; ++i) { all = all && W[i]->done; if (ready(i)) (W[i]->blocked && W[i]->wild && !full ? wild : can).push_back(i); }
        if (all) break;
        if (can.empty()) can = wild;
        if (can.empty()) {
            std::ostringstream o; o << (sync ? "synchronous" : "buffered") << " sends:";
            for (int i = 0; i < n; ++i) if (!W[i]->done) o << " rank " << i << " waits in " << W[i]->what << ";";
            fail_key = "deadlock"; fail_msg = o.str(); break;
        }
        int pickr = can[0];
        if (full) {
            bool go_on = std::find(can.begin(), can.end(), last) != can.end();
            if (!go_on) pickr = can[mc::choose(unsigned(can.size()))];
            else if (preempt > 0 && can.size() > 1) { unsigned c = mc::choose(unsigned(can.size())); pickr = c == 0 ? last : 0; if (c) { std::vector<int> o; for (int x : can) if (x != last) o.push_back(x); pickr = o[c - 1]; --preempt; } }
            else pickr = last;
        }
        if (++ops > 20000) { fail_key = "endless"; fail_msg = "more than 20000 operations"; break; }
        mc::step(1);
        cur = last = pickr; swap_in(cur); swapcontext(&home, &W[cur]->ctx); swap_out(cur);
        if (!fail_key.empty()) break;
    }
    memcpy((void*)&eo::mpi::Node::comm(), home_comm, sizeof home_comm); memcpy((void*)&eo::rng, home_rng, sizeof home_rng); memcpy((void*)abi::__cxa_get_globals(), home_eh, 16);
    cur = -1;
    if (!fail_key.empty()) mc::fail(fail_key, fail_msg);
    std::vector<std::string> errors;
    for (int i = 0; i < n; ++i) {
        ((eo::mpi::communicator*)W[i]->comm)->~communicator();
        MC_CHECK(W[i]->box.empty(), "message left over", "rank " << i << " ends with " << W[i]->box.size() << " unread messages, the first from " << W[i]->box.front().src);
        errors.push_back(W[i]->error);
    }
    return errors;
}
static std::vector<int> sources(int me, int src, int tag)
{
    std::vector<int> s;
    for (auto& m : W[me]->box) if ((src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag) && std::find(s.begin(), s.end(), m.src) == s.end()) s.push_back(m.src);
    std::sort(s.begin(), s.end());
    return s;
}
static std::deque<Msg>::iterator await(int src, int tag, const char* op)
{
    int me = cur; std::ostringstream o; o << op << " from " << src << " tag " << tag;
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= n)) bad("rank", "receive from rank " + std::to_string(src));
    block(o.str(), [=] { return !sources(me, src, tag).empty(); }, src == MPI_ANY_SOURCE);
    auto s = sources(me, src, tag);
    int from = s[s.size() > 1 ? mc::choose(unsigned(s.size())) : 0];
    auto& b = W[me]->box;
    for (auto it = b.begin(); it != b.end(); ++it) if (it->src == from && (tag == MPI_ANY_TAG || it->tag == tag)) return it;
    abort();
}
} // namespace sim

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = sim::cur; return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = sim::n; return 0; }
int MPI_Send(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm)
{
    using namespace sim;
    if (dest < 0 || dest >= n) bad("rank", "message to rank " + std::to_string(dest));
    bool text = t == MPI_CHAR; long id = next_id++;
    if (full) yield();
    W[dest]->box.push_back({cur, tag, text, std::string((const char*)buf, size_t(count) * (text ? 1 : sizeof(int))), id});
    if (sim::sync) block("send to " + std::to_string(dest), [=] { return taken.count(id) > 0; });
    return 0;
}
int MPI_Recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* st)
{
    using namespace sim;
    auto m = await(src, tag, "receive"); bool text = t == MPI_CHAR; size_t size = size_t(count) * (text ? 1 : sizeof(int));
    if (m->text != text) bad("message type", "rank " + std::to_string(cur) + " receives a message of another type");
    if (m->data.size() > size) bad("message size", "rank " + std::to_string(cur) + " receives a message longer than its buffer");
    memcpy(buf, m->data.data(), m->data.size());
    if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; }
    history = mc::mix(history, mc::mix(mc::mix(cur, m->src), mc::mix(m->tag, mc::hash(m->data)))); mc::state(history);
    taken.insert(m->id); W[cur]->box.erase(m);
    return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status* st)
{
    auto m = sim::await(src, tag, "probe");
    st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0;
    return 0;
}
int MPI_Barrier(MPI_Comm)
{
    using namespace sim;
    long r = barrier_round;
    if (++in_barrier == n) { in_barrier = 0; ++barrier_round; return 0; }
    block("barrier", [=] { return barrier_round > r; });
    return 0;
}
int MPI_Bcast(void* buf, int count, MPI_Datatype, int root, MPI_Comm c)
{
    using namespace sim;
    if (count != 1) bad("broadcast", "size");
    if (cur == root) bc_value = *(int*)buf;
    MPI_Barrier(c);
    *(int*)buf = bc_value;
    MPI_Barrier(c);
    return 0;
}
}
