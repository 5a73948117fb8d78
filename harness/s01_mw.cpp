// Master/worker model: scheduler and algorithms under every schedule.
#include "simthread.hpp"
#include <eo>
#include <smp>
#include "common.hpp"
using namespace mc;
using namespace paradiseo::smp;

typedef eoBit<double> Ind;
struct Mark : public eoUF<Ind&, void>
{
    std::vector<int> count; std::map<Ind*, int> index;
    void operator()(Ind& i) { { thr::Quiet q; auto it = index.find(&i); if (it == index.end()) thr::bad("stranger", "the function is applied to something that is not in the population"); ++count[it->second]; } i.fitness(i[0] ? 1 : 0); }
};
template <class Policy> static void scheduling(unsigned rounds, unsigned workers, unsigned size, int preemptions = tier(2, 3))
{
    thr::World w; w.preemptions = preemptions;
    thr::run(w, [&] {
        Mark f; eoPop<Ind> pop;
        for (unsigned i = 0; i < size; ++i) pop.push_back(Ind(1, bool(i & 1)));
        Scheduler<Ind, Policy> s(workers);
        for (unsigned r = 0; r < rounds; ++r) {
            { thr::Quiet q; f.index.clear(); f.count.assign(size, 0); for (unsigned i = 0; i < size; ++i) f.index[&pop[i]] = i; }
            for (auto& i : pop) i.invalidate();
            s(f, pop);
            THR_CHECK(pop.size() == size, "population", "the population has " << pop.size() << " members instead of " << size);
            for (unsigned i = 0; i < size; ++i) {
                THR_CHECK(f.count[i] == 1, "once each", "individual " << i << " of " << size << " handled " << f.count[i] << " times by " << workers << " workers in round " << r);
                THR_CHECK(!pop[i].invalid() && pop[i].fitness() == double(i & 1), "result", "individual " << i);
            }
        }
    });
}

MC_SCENARIO("linear scheduler") { unsigned w = range(1, 3), n = range(0, tier(5, 7)); scheduling<LinearPolicy>(range(1, 2), w, n); }
MC_SCENARIO("progressive scheduler") { unsigned w = range(1, 2), n = range(0, tier(3, 4)); scheduling<ProgressivePolicy>(range(1, 2), w, n); }
MC_SCENARIO("progressive scheduler, many individuals") { unsigned w = range(1, 3), n = range(5, tier(8, 16)); scheduling<ProgressivePolicy>(1, w, n, 1); }

// ------------------------------------------------------------------ algorithms
struct Eval : public eoEvalFunc<Ind>
{
    int calls = 0; std::atomic<int> dummy{0};
    void operator()(Ind& i) { { thr::Quiet q; ++calls; } double f = 0; for (unsigned k = 0; k < i.size(); ++k) f = 2 * f + i[k]; i.fitness(f); }
};
// offspring that depend on the parents and on the generation
struct Breed : public eoBreed<Ind>
{
    unsigned n, gen = 0; Breed(unsigned _n) : n(_n) {}
    void operator()(const eoPop<Ind>& parents, eoPop<Ind>& kids)
    {
        kids.clear();
        for (unsigned i = 0; i < n; ++i) { Ind x = parents[i % parents.size()]; x[(gen + i) % x.size()] = !x[(gen + i) % x.size()]; x.invalidate(); kids.push_back(x); }
        ++gen;
    }
};
static std::string text(const eoPop<Ind>& p) { std::ostringstream o; for (auto& i : p) { for (unsigned k = 0; k < i.size(); ++k) o << int(i[k]); if (i.invalid()) o << "? "; else o << "=" << i.fitness() << " "; } return o.str(); }
template <class Algo> static std::string easy(Algo& a, eoPop<Ind>& pop) { a(pop); return text(pop); }
static eoPop<Ind> some_pop(unsigned n, unsigned code) { eoPop<Ind> p; for (unsigned i = 0; i < n; ++i) { Ind x(2, false); x[0] = code & 1; x[1] = code & 2; code >>= 1; p.push_back(x); } return p; }
template <class Policy> static void easy_ea()
{
    unsigned n = range(1, 3), kids = n + choose(2), gens = range(1, 2), workers = choose(3), code = choose(4); bool plus = flag();   // 0 workers: as many as the machine has
    std::string want; int calls;
    {
        eoGenContinue<Ind> c(gens); Eval e; Breed b(kids); eoPlusReplacement<Ind> pl; eoCommaReplacement<Ind> co;
        eoEasyEA<Ind> a(c, e, b, plus ? (eoReplacement<Ind>&)pl : (eoReplacement<Ind>&)co);
        eoPop<Ind> p = some_pop(n, code); want = easy(a, p); calls = e.calls;
    }
    thr::World w; w.preemptions = tier(1, 2); w.detours = 2;
    thr::run(w, [&] {
        eoGenContinue<Ind> c(gens); Eval e; Breed b(kids); eoPlusReplacement<Ind> pl; eoCommaReplacement<Ind> co; eoReplacement<Ind>& r = plus ? (eoReplacement<Ind>&)pl : (eoReplacement<Ind>&)co;
        eoPop<Ind> p = some_pop(n, code); std::string got; eoBreed<Ind>& br = b; eoContinue<Ind>& ct = c; eoEvalFunc<Ind>& ev = e;
        if (workers) { MWModel<eoEasyEA, Ind, Policy> m(workers, ct, ev, br, r); m(p); } else { MWModel<eoEasyEA, Ind, Policy> m(ct, ev, br, r); m(p); }
        { thr::Quiet q; got = text(p); }
        THR_CHECK(got == want, "same as sequential", "generation " << gens << " is " << got << "instead of " << want << "with " << workers << " workers");
        THR_CHECK(e.calls == calls, "evaluations", e.calls << " evaluations instead of " << calls);
    });
}
MC_SCENARIO("evolutionary algorithm, linear") { easy_ea<LinearPolicy>(); }
MC_SCENARIO("evolutionary algorithm, progressive") { easy_ea<ProgressivePolicy>(); }

typedef eoRealParticle<double> Part;
struct PEval : public eoEvalFunc<Part> { int calls = 0; void operator()(Part& i) { { thr::Quiet q; ++calls; } i.fitness(i[0] * i[0] - i[0]); } };
// moves that depend on the particle alone
struct Vel : public eoVelocity<Part>
{
    eoRingTopology<Part> t; Vel() : t(1) {}
    void operator()(Part& p, unsigned k) { p.velocities[0] = 0.5 * p[0] + k; }
    void updateNeighborhood(Part& p, unsigned) { if (p.fitness() > p.best()) { p.best(p.fitness()); p.bestPositions[0] = p[0]; } }
    eoTopology<Part>& getTopology() { return t; }
};
static eoPop<Part> some_parts(unsigned n)
{
    eoPop<Part> p;
    for (unsigned i = 0; i < n; ++i) { Part x(1, 0.25 * i - 1); x.velocities[0] = 0.125; x.bestPositions[0] = x[0]; x.fitness(x[0] * x[0] - x[0]); x.best(x.fitness()); p.push_back(x); }
    return p;
}
static std::string text(const eoPop<Part>& p) { std::ostringstream o; for (auto& i : p) o << i[0] << "," << i.velocities[0] << "," << i.bestPositions[0] << "," << i.best() << "=" << (i.invalid() ? -99 : i.fitness()) << " "; return o.str(); }
template <template <class> class Algo, class Policy> static void swarm()
{
    unsigned n = range(1, 3), gens = range(1, 2), workers = choose(3); std::string want; int calls;
    {
        eoGenContinue<Part> c(gens); PEval e; Vel v; eoStandardFlight<Part> f; Algo<Part> a(c, e, v, f); eoPop<Part> p = some_parts(n); a(p); want = text(p); calls = e.calls;
    }
    thr::World w; w.preemptions = tier(1, 2); w.detours = 2;
    thr::run(w, [&] {
        eoGenContinue<Part> c(gens); PEval e; Vel v; eoStandardFlight<Part> f; eoPop<Part> p = some_parts(n); std::string got;
        if (workers) { MWModel<Algo, Part, Policy> m(workers, c, e, v, f); m(p); } else { MWModel<Algo, Part, Policy> m(c, e, v, f); m(p); }
        { thr::Quiet q; got = text(p); }
        THR_CHECK(got == want, "same as sequential", "generation " << gens << " is " << got << "instead of " << want << "with " << workers << " workers");
        THR_CHECK(e.calls == calls, "evaluations", e.calls << " evaluations instead of " << calls);
    });
}
MC_SCENARIO("particle swarm, linear") { swarm<eoEasyPSO, LinearPolicy>(); }
MC_SCENARIO("particle swarm, progressive") { swarm<eoEasyPSO, ProgressivePolicy>(); }
MC_SCENARIO("synchronous particle swarm, linear") { swarm<eoSyncEasyPSO, LinearPolicy>(); }
MC_SCENARIO("synchronous particle swarm, progressive") { swarm<eoSyncEasyPSO, ProgressivePolicy>(); }
MC_SCENARIO("a swarm that learns from its neighbours")
{
    unsigned n = range(2, 3), gens = 2, workers = range(1, 2); std::string want;
    auto sequence = [&](bool threads) {
        eoGenContinue<Part> c(gens); PEval e; eoStandardFlight<Part> f; eoRingTopology<Part> t(2); eoStandardVelocity<Part> v(t, 1, 0.5, 0.25); eoPop<Part> p = some_parts(n); t.setup(p);
        if (threads) { MWModel<eoSyncEasyPSO, Part> m(workers, c, e, v, f); m(p); } else { eoSyncEasyPSO<Part> a(c, e, v, f); a(p); }
        thr::Quiet q; return text(p);
    };
    rng_fixed(5); want = sequence(false); rng_fixed(5);
    thr::World w; w.preemptions = tier(1, 2); w.detours = 2;
    thr::run(w, [&] { std::string got = sequence(true); THR_CHECK(got == want, "same as sequential", got << "instead of " << want); });
}
MC_SCENARIO("evaluation without an algorithm")
{
    bool done = false;
    thr::run(thr::World(), [&] {
        eoGenContinue<Ind> c(1); Eval e; Breed b(1); eoCommaReplacement<Ind> co; eoPop<Ind> p = some_pop(1, 0); eoBreed<Ind>& br = b; eoContinue<Ind>& ct = c; eoEvalFunc<Ind>& ev = e; eoReplacement<Ind>& r = co;
        MWModel<eoEasyEA, Ind> m(2, ct, ev, br, r); m.evaluate(p); { thr::Quiet q; done = text(p) == "00=0 "; }
    });
    MC_CHECK(done, "evaluate", "evaluation of one individual");
}
