// Population evaluation with several threads: the real loops on a scheduler that
// owns the team of threads and the hand-out of iterations.
#include "simthread.hpp"
#include <eo>
#include "common.hpp"
namespace thr { extern int omp_threads; }
using namespace mc;

typedef eoBit<double> Ind;
// settings reach the library the way users give them
static void configure(bool on, bool dynamic, unsigned threads, bool results = false)
{
    std::vector<std::string> a = {"x", std::string("--parallelize-loop=") + (on ? "1" : "0"), std::string("--parallelize-dynamic=") + (dynamic ? "1" : "0"), "--parallelize-nthreads=" + std::to_string(threads), std::string("--parallelize-enable-results=") + (results ? "1" : "0"), "--parallelize-prefix=e16"};
    std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]);
    eoParser p(int(v.size()), v.data()); make_parallel(p);
}
static double value_of(const Ind& i) { double f = 0; for (unsigned k = 0; k < i.size(); ++k) f = 2 * f + i[k]; return f; }
struct Once : public eoEvalFunc<Ind>
{
    std::map<const Ind*, int> count; std::set<int> who; int inside = 0, most = 0; bool point = true;
    void operator()(Ind& i)
    {
        { thr::Quiet q; ++count[&i]; who.insert(thr::self()); most = std::max(most, ++inside); }
        if (point) thr::point();
        i.fitness(value_of(i));
        { thr::Quiet q; --inside; }
    }
};
static eoPop<Ind> make(unsigned n, unsigned from = 0) { eoPop<Ind> p; for (unsigned k = 0; k < n; ++k) { Ind i(3, false); unsigned c = (k + from) * 5 + 1; for (int b = 0; b < 3; ++b) i[b] = c >> b & 1; p.push_back(i); } return p; }
static void same(const eoPop<Ind>& p, const eoPop<Ind>& expected, Once& e, const char* what)
{
    THR_CHECK(p.size() == expected.size(), "population", what << ": " << p.size() << " individuals instead of " << expected.size());
    for (unsigned k = 0; k < p.size(); ++k) {
        THR_CHECK(e.count[&p[k]] == 1, "once each", what << ": individual " << k << " of " << p.size() << " evaluated " << e.count[&p[k]] << " times");
        THR_CHECK((const std::vector<bool>&)p[k] == (const std::vector<bool>&)expected[k] && !p[k].invalid() && p[k].fitness() == value_of(expected[k]), "same as sequential", what << ": individual " << k);
    }
}
static thr::World world(int p) { thr::World w; w.preemptions = p; w.detours = 3; return w; }
template <class Do> static void loop(unsigned most, int preemptions, bool both, Do run)
{
    bool on = choose(2), dynamic = choose(2); unsigned threads = range(0, most), n = range(0, tier(5, 7)), m = both ? range(0, 2) : 0;
    thr::omp_threads = 3; configure(on, dynamic, threads); unsigned team = !on ? 1 : threads ? threads : 3;
    thr::run(world(preemptions), [&] {
        Once e; eoPop<Ind> parents, pop, p0, q0; { thr::Quiet q; p0 = make(m, 7); q0 = make(n); } parents = p0; pop = q0;
        run(e, parents, pop);
        same(pop, q0, e, "offspring");
        if (both) same(parents, p0, e, "parents"); else THR_CHECK(parents == p0, "parents untouched", "");
        THR_CHECK(e.most <= int(team), "number of threads", e.most << " evaluations at once with " << team << " threads");
        THR_CHECK(on || e.who == std::set<int>{0} || e.who.empty(), "switched off", "another thread evaluates although parallel loops are off");
        thr::Quiet q; note(std::to_string(e.most) + " evaluations at once");
        mc::state(mc::hash(std::to_string(e.most) + "/" + std::to_string(e.who.size()) + "/" + std::to_string(n)));
    });
    configure(false, true, 0); thr::omp_threads = 3;
}
MC_SCENARIO("apply") { loop(4, tier(2, 3), false, [](Once& e, eoPop<Ind>&, eoPop<Ind>& p) { apply<Ind>(e, p); }); }
MC_SCENARIO("offspring") { loop(3, tier(2, 3), false, [](Once& e, eoPop<Ind>& a, eoPop<Ind>& p) { eoPopLoopEval<Ind> l(e); l(a, p); }); }
MC_SCENARIO("parents and offspring") { loop(3, tier(1, 2), true, [](Once& e, eoPop<Ind>& a, eoPop<Ind>& p) { eoTimeVaryingLoopEval<Ind> l(e); l(a, p); }); }
MC_SCENARIO("through a function pointer")
{
    bool dynamic = choose(2); unsigned threads = range(1, 3), n = range(0, 4); unsigned valid = choose(1u << n); configure(true, dynamic, threads);
    thr::run(world(tier(1, 2)), [&] {
        eoPop<Ind> p, p0; { thr::Quiet q; p0 = make(n); } p = p0;
        for (unsigned k = 0; k < n; ++k) if (valid >> k & 1) p[k].fitness(-5);
        eoEvalFuncPtr<Ind> e(value_of); apply<Ind>(e, p);
        for (unsigned k = 0; k < n; ++k) THR_CHECK(!p[k].invalid() && p[k].fitness() == (valid >> k & 1 ? -5 : value_of(p0[k])), "same as sequential", "individual " << k);
    });
    configure(false, true, 0);
}
// several generations of a complete algorithm, compared with the sequential run
struct Flip : public eoBreed<Ind> { void operator()(const eoPop<Ind>& p, eoPop<Ind>& k) { k.clear(); for (unsigned i = 0; i < p.size(); ++i) { Ind y = p[i]; y[i % y.size()] = !y[i % y.size()]; y.invalidate(); k.push_back(y); } } };
struct Plain : public eoEvalFunc<Ind> { void operator()(Ind& i) { if (i.invalid()) i.fitness(value_of(i)); } };
struct Gens : public eoContinue<Ind> { int n; Gens(int k) : n(k) {} bool operator()(const eoPop<Ind>&) { return --n > 0; } std::string className() const { return "Gens"; } };
static std::string evolve(eoPop<Ind> p, int gens)
{
    Plain e; Flip b; eoPlusReplacement<Ind> r; Gens c(gens); eoContinue<Ind>& cc = c; eoEvalFunc<Ind>& ee = e; eoBreed<Ind>& bb = b; eoReplacement<Ind>& rr = r;
    for (auto& i : p) e(i);
    eoEasyEA<Ind> a(cc, ee, bb, rr); a(p);
    std::ostringstream o; for (auto& i : p) o << i << ";"; return o.str();
}
MC_SCENARIO("a complete algorithm")
{
    bool dynamic = choose(2); unsigned threads = range(1, 3), n = range(1, 4); int gens = range(1, 2);
    std::string expected = evolve(make(n), gens);
    configure(true, dynamic, threads);
    thr::run(world(tier(1, 2)), [&] {
        std::string got; got = evolve(make(n), gens);
        THR_CHECK(got == expected, "same as sequential", "population after " << gens << " generations with " << threads << " threads: " << got << " instead of " << expected);
    });
    configure(false, true, 0);
}
MC_SCENARIO("measured loops")
{
    // writing the measures changes nothing else
    bool on = choose(2), dynamic = choose(2); unsigned n = range(0, 3); configure(on, dynamic, 2, true);
    thr::run(world(0), [&] {
        Once e; eoPop<Ind> p, p0; { thr::Quiet q; p0 = make(n); } p = p0; apply<Ind>(e, p); same(p, p0, e, "measured");
    });
    configure(false, true, 0, false);
}
MC_SCENARIO("counted evaluations")
{
    thr::region(&eo::log, sizeof eo::log, "");
    configure(true, true, 2);
    thr::run(world(1), [&] {
        eoPop<Ind> p; { thr::Quiet q; p = make(2); } Plain e; eoEvalFuncCounter<Ind> c(e); thr::region(&c, sizeof c, "evaluation counter");
        apply<Ind>(c, p);
        THR_CHECK(c.value() == 2, "count", c.value() << " evaluations counted instead of 2");
    });
    configure(false, true, 0);
}
