// C01: master/worker jobs under every order of messages.
#define WITH_MPI 1
#include <eo>
#include "common.hpp"
#include "simmpi.hpp"
#include <mpi/eoParallelApply.h>
#include <mpi/eoMultiStart.h>
#include <mpi/eoTerminateJob.h>
using namespace mc;
using namespace eo::mpi;

struct Item : eoserial::Persistent
{
    int id = -1, v = 0, times = 0; std::string s;
    void unpack(const eoserial::Object* o) { eoserial::unpack(*o, "id", id); eoserial::unpack(*o, "v", v); eoserial::unpack(*o, "times", times); eoserial::unpack(*o, "s", s); }
    eoserial::Object* pack() const { auto o = new eoserial::Object; o->add("id", eoserial::make(id)); o->add("v", eoserial::make(v)); o->add("times", eoserial::make(times)); o->add("s", eoserial::make(s)); return o; }
};
static std::vector<std::pair<int, int>> did;      // (rank, task)
struct Work : eoUF<Item&, void> { void operator()(Item& i) { ++i.times; i.v = i.v * 10 + 1; i.s += "!"; did.push_back({Node::comm().rank(), i.id}); } };

struct Setup { int workers, tasks, packet, master, form; bool everyone_stops; sim::World w; std::vector<int> ranks; int world; };
static AssignmentAlgorithm* algorithm(const Setup& s, int runs)
{
    // the lists a user can give: all, one, a list, a range
    int lo = s.ranks.front(), hi = s.ranks.back();
    switch (s.form) {
    case 0: return new DynamicAssignmentAlgorithm(s.ranks);
    case 1: return s.workers == 1 ? new DynamicAssignmentAlgorithm(lo) : new DynamicAssignmentAlgorithm();
    case 2: return new DynamicAssignmentAlgorithm(lo, s.master == 0 ? REST_OF_THE_WORLD : hi);
    case 3: return new StaticAssignmentAlgorithm(s.ranks, runs);
    case 4: if (s.workers == 1) return new StaticAssignmentAlgorithm(lo, runs); return new StaticAssignmentAlgorithm(runs);
    case 5: return new StaticAssignmentAlgorithm(lo, s.master == 0 ? REST_OF_THE_WORLD : hi, runs);
    default: { auto a = new StaticAssignmentAlgorithm(s.ranks, 0); a->reinit(runs); return a; }
    }
}
static bool fixed_share(const Setup& s) { return s.form >= 3; }
static Setup any_setup(int max_workers, int max_tasks, bool full)
{
    Setup s;
    s.workers = int(range(1, max_workers)); s.tasks = int(range(0, max_tasks)); s.packet = int(range(1, 3)); s.world = s.workers + 1;
    s.form = int(choose(7));
    // rank 0 works for another master only when the workers are listed
    s.master = (s.form == 1 || s.form == 4 || s.form == 2 || s.form == 5) ? 0 : (choose(2) ? s.world - 1 : 0);
    for (int i = 0; i < s.world; ++i) if (i != s.master) s.ranks.push_back(i);
    s.everyone_stops = !full && flag();
    s.w.sync = flag(); s.w.full = full; s.w.preemptions = full ? int(tier(1, 2)) : 0;
    return s;
}
static std::vector<Item> items(int n, int base) { std::vector<Item> v(n); for (int i = 0; i < n; ++i) { v[i].id = i; v[i].v = base + i; v[i].s = "a\"" + std::to_string(i); } return v; }
static void judge(const std::vector<Item>& got, const std::vector<Item>& was, const Setup& s, int packets)
{
    MC_CHECK(got.size() == was.size(), "results", "size");
    std::map<int, int> by; std::vector<int> count(was.size(), 0); std::map<int, std::set<int>> packs;
    for (auto& d : did) { ++count.at(d.second); ++by[d.first]; packs[d.first].insert(d.second / s.packet); MC_CHECK(std::find(s.ranks.begin(), s.ranks.end(), d.first) != s.ranks.end(), "worker", "rank " << d.first << " is no worker"); }
    for (size_t i = 0; i < was.size(); ++i) {
        MC_CHECK(count[i] == 1, "once", "task " << i << " processed " << count[i] << " times");
        MC_CHECK(got[i].id == int(i) && got[i].v == was[i].v * 10 + 1 && got[i].times == was[i].times + 1 && got[i].s == was[i].s + "!", "results", "place " << i << " holds task " << got[i].id << " value " << got[i].v);
    }
    if (fixed_share(s)) for (int k = 0; k < s.workers; ++k) {
        int want = packets / s.workers + (k < packets % s.workers);
        MC_CHECK(int(packs[s.ranks[k]].size()) == want, "share", "worker " << s.ranks[k] << " got " << packs[s.ranks[k]].size() << " packets for " << want);
    }
    uint64_t h = mix(s.form, s.tasks); for (auto& d : did) h = mix(h, mix(d.first, d.second)); state(h);
}
static void apply_job(const Setup& s, int rounds)
{
    int packets = (s.tasks + s.packet - 1) / s.packet;
    did.clear();
    std::vector<Item> data = items(s.tasks, 5), was = data;
    std::vector<std::vector<Item>> after; std::vector<std::vector<std::pair<int, int>>> logs;
    auto err = sim::run(s.world, s.w, [&](int rank) {
        Work work;
        std::unique_ptr<AssignmentAlgorithm> a(algorithm(s, packets));
        std::vector<Item> mine = rank == s.master ? data : std::vector<Item>(data.size());
        ParallelApplyStore<Item> store(work, s.master, s.packet);
        store.data(mine);
        ParallelApply<Item> job(*a, s.master, store);
        SIM_CHECK(job.isMaster() == (rank == s.master), "master", "rank " << rank);
        job.run();
        if (rank == s.master) {
            after.push_back(mine); logs.push_back(did);
            for (int r = 1; r < rounds; ++r) { did.clear(); a->reinit(packets); store.data(mine); job.run(); after.push_back(mine); logs.push_back(did); }
        }
        if (rank == s.master || s.everyone_stops) { EmptyJob stop(*a, s.master); }
    });
    for (auto& e : err) MC_CHECK(e.empty(), "exception", e);
    for (int r = 0; r < rounds; ++r) { did = logs[r]; judge(after[r], was, s, packets); was = after[r]; }
}
MC_SCENARIO("a table is processed by workers") { apply_job(any_setup(3, tier(4, 6), false), 1); }
MC_SCENARIO("the same job again and again") { Setup s = any_setup(tier(2, 3), tier(2, 3), false); apply_job(s, int(range(2, 3))); }
MC_SCENARIO("interleaved operations") { Setup s = any_setup(2, 2, true); s.everyone_stops = false; apply_job(s, 1); }

// wrapped functions are called around the original ones
struct CountSend : SendTaskParallelApply<Item> { int* n; CountSend(int* n) : n(n) {} void operator()(int r) { ++*n; (*_wrapped)(r); } };
struct CountHandle : HandleResponseParallelApply<Item> { int* n; CountHandle(int* n) : n(n) {} void operator()(int r) { ++*n; (*_wrapped)(r); } };
struct CountProcess : ProcessTaskParallelApply<Item> { int* n; CountProcess(int* n) : n(n) {} void operator()() { ++*n; (*_wrapped)(); } };
struct CountFinished : IsFinishedParallelApply<Item> { int* n; int limit; CountFinished(int* n, int l = 1 << 20) : n(n), limit(l) {} bool operator()() { if (++*n > limit) throw std::runtime_error("enough"); return (*_wrapped)(); } };
MC_SCENARIO("wrapped functions")
{
    Setup s = any_setup(2, 3, false); int packets = (s.tasks + s.packet - 1) / s.packet;
    did.clear(); std::vector<Item> data = items(s.tasks, 5), out; int n[4] = {0, 0, 0, 0}; int which = int(choose(5));
    auto err = sim::run(s.world, s.w, [&](int rank) {
        Work work; std::unique_ptr<AssignmentAlgorithm> a(algorithm(s, packets));
        std::vector<Item> mine = rank == s.master ? data : std::vector<Item>();
        ParallelApplyStore<Item> store(work, s.master, s.packet);
        store.data(mine);
        CountSend cs(&n[0]); CountHandle ch(&n[1]); CountProcess cp(&n[2]); CountFinished cf(&n[3]);
        if (which == 0 || which == 4) store.wrapSendTask(&cs); if (which == 1 || which == 4) store.wrapHandleResponse(&ch);
        if (which == 2 || which == 4) store.wrapProcessTask(&cp); if (which == 3 || which == 4) store.wrapIsFinished(&cf);
        { ParallelApply<Item> job(*a, s.master, store); job.run(); }
        if (rank == s.master) { out = mine; EmptyJob stop(*a, s.master); }
    });
    for (auto& e : err) MC_CHECK(e.empty(), "exception", e);
    judge(out, data, s, packets);
    for (int k = 0; k < 4; ++k) { int want = (which == k || which == 4) ? packets + (k == 3) : 0; MC_CHECK(n[k] == want, "wrapper", "function " << k << " called " << n[k] << " times for " << want); }
}
MC_SCENARIO("an exception in the master still frees the workers")
{
    Setup s = any_setup(3, tier(3, 4), false); int packets = (s.tasks + s.packet - 1) / s.packet; int limit = int(range(0, tier(3, 4)));
    did.clear(); std::vector<Item> data = items(s.tasks, 5), out; int n = 0; bool thrown = false;
    s.everyone_stops = false;
    auto err = sim::run(s.world, s.w, [&](int rank) {
        Work work; std::unique_ptr<AssignmentAlgorithm> a(algorithm(s, packets));
        std::vector<Item> mine = rank == s.master ? data : std::vector<Item>();
        ParallelApplyStore<Item> store(work, s.master, s.packet);
        store.data(mine);
        CountFinished cf(&n, limit);
        store.wrapIsFinished(&cf);
        { ParallelApply<Item> job(*a, s.master, store); try { job.run(); } catch (std::runtime_error& e) { thrown = true; SIM_CHECK(rank == s.master && std::string(e.what()).find("enough") != std::string::npos, "exception", e.what()); } }
        if (rank == s.master) { out = mine; EmptyJob stop(*a, s.master); }
    });
    for (auto& e : err) MC_CHECK(e.empty(), "exception", e);
    MC_CHECK(thrown == (packets >= limit), "exception", "not passed on");
    std::map<int, int> c; for (auto& d : did) MC_CHECK(++c[d.second] == 1, "once", "task " << d.second);
    int done = 0; for (auto& i : out) { MC_CHECK(i.times == c[i.id], "results", "a result of task " << i.id << " is lost"); done += i.times; }
    MC_CHECK(done == std::min(s.tasks, limit * s.packet), "results", done << " tasks done");
    state(mix(mix(limit, s.form), hashv(std::vector<int>{s.tasks, s.packet, s.workers})));
}
// masters that are workers of another master
struct Table : std::vector<Item>, eoserial::Persistent
{
    void unpack(const eoserial::Object* o) { clear(); std::vector<Item> v; eoserial::unpack(*o, "t", v); assign(v.begin(), v.end()); }
    eoserial::Object* pack() const { auto o = new eoserial::Object; o->add("t", eoserial::pack(static_cast<const std::vector<Item>&>(*this))); return o; }
};
static std::vector<int> team(int rank) { return {rank + 2, rank + 4}; }
static void subtask(std::vector<Item>& v, int rank)
{
    DynamicAssignmentAlgorithm a(team(rank)); Work w;
    ParallelApplyStore<Item> store(w, rank); store.data(v);
    ParallelApply<Item> job(a, rank, store); job.run();
    EmptyJob stop(a, rank);
}
struct Delegate : eoUF<Table&, void> { void operator()(Table& t) { subtask(t, Node::comm().rank()); for (auto& i : t) i.v *= 2; } };
MC_SCENARIO("masters of masters")
{
    int tables = 2, len = int(range(0, tier(2, 3)));
    sim::World w; w.sync = flag(); did.clear();
    std::vector<Table> data(tables), out; for (int t = 0; t < tables; ++t) { auto v = items(len, 3 + t); for (auto& i : v) i.id += 10 * t; data[t].assign(v.begin(), v.end()); }
    auto err = sim::run(7, w, [&](int rank) {
        if (rank <= 2) {
            Delegate d; DynamicAssignmentAlgorithm a(1, 2);
            std::vector<Table> mine = rank == 0 ? data : std::vector<Table>();
            ParallelApplyStore<Table> store(d, 0); store.data(mine);
            ParallelApply<Table> job(a, 0, store); job.run();
            EmptyJob stop(a, 0);
            if (rank == 0) out = mine;
        } else { std::vector<Item> none; subtask(none, rank == 3 || rank == 5 ? 1 : 2); }
    });
    for (auto& e : err) MC_CHECK(e.empty(), "exception", e);
    MC_CHECK(out.size() == data.size(), "results", "size");
    for (int t = 0; t < tables; ++t) for (int i = 0; i < len; ++i) MC_CHECK(out[t].size() == size_t(len) && out[t][i].v == (data[t][i].v * 10 + 1) * 2 && out[t][i].times == 1, "results", "table " << t << " place " << i);
    uint64_t h = 0; for (auto& d : did) h = mix(h, mix(d.first, d.second)); state(mix(h, tables));
}
// ------------------------------------------------------------------ solutions
struct Sol : eoBit<double>, eoserial::Persistent
{
    Sol(unsigned n = 0, bool v = false) : eoBit<double>(n, v) {}
    void unpack(const eoserial::Object* o) { clear(); std::vector<int> b; eoserial::unpack(*o, "b", b); for (int x : b) push_back(x); int inv; eoserial::unpack(*o, "invalid", inv); double f; eoserial::unpack(*o, "f", f); if (inv) invalidate(); else fitness(f); }
    eoserial::Object* pack() const { auto o = new eoserial::Object; o->add("b", eoserial::pack(std::vector<int>(begin(), end()))); o->add("invalid", eoserial::make(int(invalid()))); o->add("f", eoserial::make(invalid() ? 0 : fitness())); return o; }
    using eoBit<double>::operator=;
};
static double value(const Sol& s) { double v = 1.0 / 3; for (bool b : s) v = v * 2 + b; return v; }
static void parallel_dynamic(bool on)
{
    std::vector<std::string> a = {"prog", std::string("--parallelize-dynamic=") + (on ? "1" : "0")};
    std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]);
    eoParser p(int(v.size()), v.data()); make_parallel(p);
}
struct Eval : eoEvalFunc<Sol> { void operator()(Sol& s) { s.fitness(value(s)); did.push_back({Node::comm().rank(), 0}); } };
MC_SCENARIO("a population evaluated by workers")
{
    Setup s = any_setup(3, tier(3, 4), false); int rounds = int(range(1, 2));
    did.clear();
    eoPop<Sol> pop; for (int i = 0; i < s.tasks; ++i) { Sol x(2); x[0] = i & 1; x[1] = i & 2; if (i == 0 && s.form == 0) x.fitness(77); pop.push_back(x); }
    parallel_dynamic(flag());
    std::vector<eoPop<Sol>> out; std::vector<size_t> evals;
    auto err = sim::run(s.world, s.w, [&](int rank) {
        // the shares of the static policy are set by the evaluator
        std::unique_ptr<AssignmentAlgorithm> a(algorithm(s, s.workers)); Eval ev;
        eoParallelPopLoopEval<Sol> pe(*a, s.master, ev, s.packet);
        eoPop<Sol> parents, mine = pop;
        pe(parents, mine);
        if (rank != s.master) return;
        out.push_back(mine); evals.push_back(did.size());
        for (int r = 1; r < rounds; ++r) { did.clear(); for (auto& x : mine) { x[0] = !x[0]; x.invalidate(); } pe(parents, mine); out.push_back(mine); evals.push_back(did.size()); }
    });
    for (auto& e : err) MC_CHECK(e.empty(), "exception", e);
    for (int r = 0; r < rounds; ++r) {
        MC_CHECK(int(out[r].size()) == s.tasks, "results", "size");
        for (int i = 0; i < s.tasks; ++i) {
            Sol want = pop[i]; if (r) want[0] = !want[0];
            const Sol& g = out[r][i];
            MC_CHECK(g.size() == 2 && g[0] == want[0] && g[1] == want[1], "results", "solution " << i << " changed");
            MC_CHECK(!g.invalid() && g.fitness() == (pop[i].invalid() || r ? value(want) : double(g.fitness())), "results", "solution " << i << " has fitness " << g.fitness());
        }
        MC_CHECK(int(evals[r]) == s.tasks, "once", evals[r] << " evaluations for " << s.tasks);
    }
    uint64_t h = mix(s.form, s.tasks * 10 + s.workers); for (auto& d : did) h = mix(h, d.first); state(h);
}
// multi-start: an algorithm whose result depends on the seed and on the number of runs made
static std::vector<std::pair<int, double>> sent;
struct Algo : eoAlgo<Sol> { int runs = 0; void operator()(eoPop<Sol>& p) { ++runs; for (auto& x : p) { x.fitness(double(eo::rng.rand() % 100000)); } sent.push_back({Node::comm().rank(), p.best_element().fitness()}); } };
struct Reset : MultiStartStore<Sol>::ResetAlgo { int calls = 0; void operator()(eoPop<Sol>& p) { ++calls; p.clear(); p.push_back(Sol(1)); p.push_back(Sol(2)); } };
struct Seeds : MultiStartStore<Sol>::GetSeeds { int give; Seeds(int g) : give(g) {} std::vector<int> operator()(int n) { std::vector<int> r; for (int i = 0; i < std::min(n, give); ++i) r.push_back(500 + 7 * i); return r; } };
MC_SCENARIO("multi-start")
{
    Setup s = any_setup(3, tier(4, 5), false); int runs = s.tasks, give = int(choose(3));
    rng_off(); sent.clear();
    std::vector<double> bests; std::vector<int> resets(s.world, 0);
    auto err = sim::run(s.world, s.w, [&](int rank) {
        Algo algo; Reset reset; Seeds seeds(give == 0 ? 0 : give == 1 ? 1 : 9);
        std::unique_ptr<AssignmentAlgorithm> a(algorithm(s, runs));
        MultiStartStore<Sol> store(algo, s.master, reset, seeds);
        MultiStart<Sol> job(*a, s.master, store, runs);
        job.run();
        resets[rank] = reset.calls;
        SIM_CHECK(reset.calls == algo.runs, "multi-start", "an algorithm ran without a reset");
        if (rank == s.master) for (auto& x : job.best_individuals()) { SIM_CHECK(!x.invalid(), "multi-start", "invalid best"); bests.push_back(x.fitness()); }
    });
    for (auto& e : err) MC_CHECK(e.empty(), "exception", e);
    MC_CHECK(int(sent.size()) == runs && int(bests.size()) == runs, "multi-start", sent.size() << " runs and " << bests.size() << " results for " << runs);
    std::vector<double> a = bests, b; std::map<int, std::vector<double>> by;
    for (auto& x : sent) { b.push_back(x.second); by[x.first].push_back(x.second); }
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    MC_CHECK(a == b, "multi-start", "the master does not hold the best of every run");
    // every worker continues the sequence of its own seed
    if (give == 2) for (int k = 0; k < s.workers; ++k) {
        eoRng g(500 + 7 * k); g.reseed(500 + 7 * k);
        for (double v : by[s.ranks[k]]) { double x = double(g.rand() % 100000), y = double(g.rand() % 100000); MC_CHECK(v == std::max(x, y), "seed", "worker " << s.ranks[k] << " does not follow its seed"); }
    }
    if (fixed_share(s) ) for (int k = 0; k < s.workers; ++k) MC_CHECK(int(by[s.ranks[k]].size()) == runs / s.workers + (k < runs % s.workers), "share", "worker " << s.ranks[k]);
    uint64_t h = mix(s.form, runs * 10 + s.workers); for (auto& d : sent) h = mix(h, d.first); state(h);
}
MC_SCENARIO("seeds of multi-start")
{
    rng_off();
    int n = int(range(0, 4)), k = int(range(1, 3));
    MultiplesOfNumber<Sol> m(pick({3, 12345, -5})); DummyGetSeeds<Sol> d;
    std::set<int> all; for (int i = 0; i < k; ++i) { auto v = m(n); MC_CHECK(int(v.size()) == n, "seeds", "number"); all.insert(v.begin(), v.end()); }
    MC_CHECK(int(all.size()) == n * k, "seeds", "the same seed twice");
    MC_CHECK(d(n).empty(), "seeds", "");
    GetRandomSeeds<Sol> r(42); auto v = r(n); GetRandomSeeds<Sol> q(42); auto w = q(n);
    state(n * 4 + k);
    MC_CHECK(v == w && int(v.size()) == n, "seeds", "not reproducible");
}
MC_SCENARIO("restarting a population")
{
    unsigned n = range(1, 2), rounds = range(1, 3); bool same = flag(), loop = flag();
    eoPop<Sol> orig; for (unsigned i = 0; i < n; ++i) { Sol s(2); s[0] = flag(); orig.push_back(s); }
    did.clear(); sim::cur = 0; sim::n = 1;
    Eval ev; eoPopLoopEval<Sol> pl(ev);
    eoGenContinue<Sol> cont(2);
    std::unique_ptr<MultiStartStore<Sol>::ResetAlgo> r;
    if (same) { if (loop) r.reset(new ReuseSamePopEA<Sol>(cont, orig, pl)); else r.reset(new ReuseSamePopEA<Sol>(cont, orig, ev)); }
    else { if (loop) r.reset(new ReuseOriginalPopEA<Sol>(cont, orig, pl)); else r.reset(new ReuseOriginalPopEA<Sol>(cont, orig, ev)); }
    eoPop<Sol> p, before;
    for (unsigned k = 0; k < rounds; ++k) {
        before = p;
        (*r)(p);
        state(mix(mix(n, k), mix(same, loop)));
        const eoPop<Sol>& want = same && k ? before : orig;
        MC_CHECK(p.size() == n, "restart", "size");
        for (unsigned i = 0; i < n; ++i) MC_CHECK(std::vector<bool>(p[i]) == std::vector<bool>(want[i]) && !p[i].invalid() && p[i].fitness() == value(p[i]), "restart", "population of start " << k);
        // the counter of generations starts again
        unsigned g = 0; while (cont(p) && g < 9) ++g;
        MC_CHECK(g == 1, "restart", "the stopping rule was not reset: " << g);
        for (auto& x : p) { x[1] = !x[1]; x.fitness(value(x)); }
    }
}
// ------------------------------------------------------------------ messages
MC_SCENARIO("messages arrive unchanged")
{
    static const std::vector<std::string> words = {"", "a", std::string("b\0c", 3), std::string(1, '\0'), "a much longer \"text\"\n"};
    std::string a = pick(words), b = pick(words), c = pick(words); int tag2 = int(choose(2)), k = pick({0, -1, 2147483647}); unsigned len = range(0, 2);
    sim::World w; w.sync = flag();
    auto err = sim::run(3, w, [&](int rank) {
        communicator& x = Node::comm();
        SIM_CHECK(x.rank() == rank && x.size() == 3, "rank", rank);
        Item it; it.id = 7; it.v = k; it.s = a;
        std::vector<Item> v = items(int(len), k / 2);
        int bc = rank == 1 ? k : 5; broadcast(x, bc, 1);
        SIM_CHECK(bc == k, "broadcast", "rank " << rank << " gets " << bc << " for " << k);
        if (rank == 0) { x.send(2, 4, a); x.send(2, 4, k); x.send(2, 4, b); x.send(2, 4 + tag2, c); x.send(2, 4, it); x.send(2, 4, len ? &v[0] : (Item*)0, int(len)); }
        if (rank == 1) { x.send(2, 4, k); }
        if (rank == 2) {
            std::string p = "old", q, r; int n = 3; Item i; std::vector<Item> u(len);
            x.recv(0, 4, p); x.recv(0, 4, n); x.recv(0, 4, q);
            SIM_CHECK(p == a && q == b && n == k, "message", "strings or number");
            if (tag2 == 0 || !w.sync) { status st = x.probe(0, 4 + tag2); SIM_CHECK(st.source() == 0 && st.tag() == 4 + tag2, "probe", ""); }
            x.recv(0, 4 + tag2, r); SIM_CHECK(r == c, "message", "string");
            x.recv(0, 4, i); SIM_CHECK(i.id == 7 && i.v == k && i.s == a, "message", "object");
            x.recv(0, 4, len ? &u[0] : (Item*)0, int(len)); for (unsigned j = 0; j < len; ++j) SIM_CHECK(u[j].id == v[j].id && u[j].v == v[j].v && u[j].s == v[j].s, "message", "table");
            status st = x.probe(); SIM_CHECK(st.source() == 1 && st.tag() == 4, "probe", st.source());
            x.recv(1, 4, n); SIM_CHECK(n == k, "message", "number");
        }
        x.barrier();
    });
    for (auto& e : err) MC_CHECK(e.empty(), "exception", e);
    state(mix(hash(a + "|" + b + "|" + c), mix(tag2 * 4 + len, k)));
}
MC_SCENARIO("assignment bookkeeping")
{
    // any sequence of requests and confirmations against the list of free workers
    sim::cur = 0; sim::n = 4;
    Setup s; s.workers = int(range(1, 3)); s.master = 0; s.world = 4; s.form = int(choose(7)); s.ranks.clear();
    if (s.workers < 3 && (s.form == 2 || s.form == 5)) prune();
    if (s.workers == 2 && (s.form == 1 || s.form == 4)) prune();
    for (int i = 1; i <= s.workers; ++i) s.ranks.push_back(i);
    int runs = int(range(0, 4)); std::unique_ptr<AssignmentAlgorithm> a(algorithm(s, runs));
    std::map<int, int> left; for (int k = 0; k < s.workers; ++k) left[s.ranks[k]] = fixed_share(s) ? runs / s.workers + (k < runs % s.workers) : 99;
    std::set<int> busy; std::vector<int> hist;
    unsigned len = tier(5, 7);
    for (unsigned t = 0; t < len; ++t) {
        if (busy.empty() || flag()) {
            int g = a->get(); bool can = false; for (int r : s.ranks) can = can || (!busy.count(r) && left[r] > 0);
            MC_CHECK((g < 0) == !can, "assignment", "gives " << g);
            if (g >= 0) { MC_CHECK(left.count(g) && !busy.count(g) && left[g] > 0, "assignment", "worker " << g << " is not free"); busy.insert(g); }
            hist.push_back(g);
        } else {
            auto it = busy.begin(); std::advance(it, choose(unsigned(busy.size()))); int r = *it; busy.erase(it); --left[r]; a->confirm(r); hist.push_back(10 + r);
        }
        auto idle = a->idles(); std::set<int> i(idle.begin(), idle.end()); std::set<int> want; for (int r : s.ranks) if (!busy.count(r)) want.insert(r);
        MC_CHECK(i == want && idle.size() == want.size() && a->availableWorkers() == int(want.size()), "assignment", "idle workers");
        state(mix(mix(s.form, runs), hashv(hist)));
    }
    if (fixed_share(s) && busy.empty()) { a->reinit(s.workers); std::set<int> g; for (int k = 0; k < s.workers; ++k) g.insert(a->get()); MC_CHECK(int(g.size()) == s.workers && !g.count(-1) && a->get() < 0, "assignment", "after a new start"); }
}
