// E06: stopping criteria stop exactly when their condition becomes true.
#include "ind.hpp"
#include <eoInvertedContinue.h>
#include <eoPeriodicContinue.h>
#include <eoSecondsElapsedContinue.h>
#include <eoTimeContinue.h>
#include <eoSIGContinue.h>
#include <eoEvalUserTimeThrowException.h>
#include <eoEvalCounterThrowException.h>
#include <eoEvalKeepBest.h>
#include <eoSteadyFitContinue.h>
#include <csignal>
#include <sys/resource.h>

// the clock belongs to the explorer
static time_t now_s = 1000;
extern "C" time_t time(time_t* p) noexcept { if (p) *p = now_s; return now_s; }
static long user_s = 0;
extern "C" int getrusage(__rusage_who_t, struct rusage* u) noexcept { memset(u, 0, sizeof *u); u->ru_utime.tv_sec = user_s; u->ru_utime.tv_usec = 999999; return 0; }

// criteria live in memory filled with a pattern, so that what they forget to
// initialise is visible and the same in every execution
template <class T, class... A> T* in_dirty_memory(std::vector<unsigned char>& m, unsigned char pattern, A&&... a)
{
    m.assign(sizeof(T) + 64, pattern);
    void* p = reinterpret_cast<void*>((reinterpret_cast<uintptr_t>(m.data()) + 63) / 64 * 64);
    return new (p) T(std::forward<A>(a)...);
}
static unsigned char any_pattern() { return mc::pick(std::vector<unsigned char>{ 0x00, 0xFF, 0x3F }); }

template <class T> static eoPop<T> pop_of(const std::vector<int>& f)
{
    return make_pop<T>(f, 0);
}
// a population whose best fitness is b, the others always the same
template <class T> static eoPop<T> with_best(int b)
{
    std::vector<int> f{ -sign<T>(), b, -2 * sign<T>() };
    return make_pop<T>(f, 0);
}

MC_SCENARIO("number of generations, again after a reset")
{
    std::vector<unsigned char> mem;
    unsigned long total = mc::range(1, 5), shared = 0, start = 0;
    bool external = mc::flag();
    if (external) shared = start = mc::choose(3);
    eoGenContinue<Max>* c = external ? in_dirty_memory<eoGenContinue<Max>>(mem, any_pattern(), total, shared)
                                     : in_dirty_memory<eoGenContinue<Max>>(mem, any_pattern(), total);
    eoPop<Max> p = with_best<Max>(1);
    unsigned long g = start;
    MC_CHECK(c->value() == 0, "generations:value", "shows generation " << c->value() << " before the first one");
    for (int phase = 0; phase < 3; ++phase) {
        unsigned calls = mc::range(0, 6);
        for (unsigned i = 0; i < calls; ++i) {
            bool r = (*c)(p);
            ++g; mc::step(); mc::state(mc::mix(mc::mix(g, total), c->value()));
            MC_CHECK(r == (g < total), "generations", "generation " << g << " of " << total << ": " << (r ? "goes on" : "stops"));
            MC_CHECK(c->value() == g, "generations:value", "shows generation " << c->value() << " instead of " << g);
            if (external) MC_CHECK(shared == g, "generations:shared", "shared counter is " << shared << " instead of " << g);
        }
        if (mc::flag()) c->reset(); else { total = mc::range(1, 3); c->totalGenerations(total); }
        MC_CHECK(c->totalGenerations() == total, "generations:total", "total");
        g = 0;
    }
    c->~eoGenContinue<Max>();
}
MC_SCENARIO("generations survive saving and loading")
{
    eoGenContinue<Max> a(4), b(4);
    eoPop<Max> p = with_best<Max>(1);
    unsigned g = mc::range(0, 3);
    for (unsigned i = 0; i < g; ++i) a(p);
    std::stringstream s; a.printOn(s); b.readFrom(s);
    for (unsigned i = g + 1; i <= 4; ++i) MC_CHECK(b(p) == (i < 4), "generations:loaded", "after loading at " << g << " generation " << i);
}

template <class T> static void target()
{
    int goal = mc::range(0, 4), n = mc::range(1, 3);
    std::vector<int> f;
    for (int i = 0; i < n; ++i) f.push_back(mc::range(0, 4));
    eoFitContinue<T> c{ typename T::Fitness(goal) };
    eoPop<T> p = pop_of<T>(f);
    bool reached = false;
    for (int x : f) if (sign<T>() * x >= sign<T>() * goal) reached = true;
    for (int k = 0; k < 2; ++k) MC_CHECK(c(p) == !reached, "target", "target " << goal << " population " << mc::show(f));
}
MC_SCENARIO("fitness target") { if (mc::flag()) target<Max>(); else target<Min>(); }

template <class T> static void steady()
{
    std::vector<unsigned char> mem;
    unsigned long minG = mc::range(0, 3), steadyG = mc::range(0, 2), shared = 0;
    bool external = mc::flag();
    if (external) shared = mc::choose(4);
    unsigned long g = shared, last = 0; bool on = false; int best = 0;
    eoSteadyFitContinue<T>* c = external ? in_dirty_memory<eoSteadyFitContinue<T>>(mem, any_pattern(), minG, steadyG, shared)
                                         : in_dirty_memory<eoSteadyFitContinue<T>>(mem, any_pattern(), minG, steadyG);
    unsigned len = mc::tier(5u, 7u);
    int phases = mc::range(1, 2);
    for (int phase = 0; phase < phases; ++phase) {
        for (unsigned i = 0; i < len; ++i) {
            int b = mc::range(0, phase == 0 && phases == 1 ? 2 : 1);
            eoPop<T> p = with_best<T>(sign<T>() * b);
            bool r = (*c)(p), want = true;
            ++g; mc::step(); mc::state(mc::mix(mc::mix(mc::mix(g, last), best * 2 + on), minG * 8 + steadyG));
            if (on) { if (b > best) { best = b; last = g; } else if (g - last > steadyG) want = false; }
            else if (g > minG) { on = true; best = b; last = g; }
            MC_CHECK(r == want, "steady", "min " << minG << " steady " << steadyG << " generation " << g << " last improvement " << last << ": " << (r ? "goes on" : "stops"));
            if (!r) break;
        }
        if (mc::flag()) c->reset(); else { minG = mc::range(0, 1); steadyG = 1; c->totalGenerations(minG, steadyG); }
        MC_CHECK(c->minGenerations() == minG && c->steadyGenerations() == steadyG, "steady:values", "limits");
        g = 0; on = false;
    }
}
MC_SCENARIO("steady fitness, maximising") { steady<Max>(); }
MC_SCENARIO("steady fitness, minimising") { steady<Min>(); }

struct Count : eoEvalFunc<Max>
{
    unsigned n = 0;
    void operator()(Max& m) { ++n; m.fitness(m.id); }
};
MC_SCENARIO("number of evaluations")
{
    Count real;
    eoEvalFuncCounter<Max> ev(real);
    unsigned long limit = mc::range(0, 4);
    eoEvalContinue<Max> c(ev, limit);
    eoPop<Max> p = make_pop<Max>(std::vector<int>{ 1, 2 }, 0);
    MC_CHECK(c.totalEvaluations() == limit, "evaluations:total", "total");
    unsigned done = 0;
    for (int i = 0; i < 6; ++i) {
        if (mc::flag()) { p[i % 2].invalidate(); }
        bool inv = p[i % 2].invalid();
        ev(p[i % 2]);
        if (inv) ++done;
        MC_CHECK(real.n == done && ev.value() == done, "evaluations:count", "counted " << ev.value() << ", called " << real.n << ", expected " << done);
        bool r = c(p); mc::step(); mc::state(mc::mix(done, limit));
        MC_CHECK(r == (done < limit), "evaluations", done << " of " << limit << ": " << (r ? "goes on" : "stops"));
    }
}
MC_SCENARIO("evaluation budget by exception")
{
    Count real;
    unsigned long limit = mc::range(1, 5);
    eoEvalCounterThrowException<Max> ev(real, limit);
    unsigned n = mc::range(1, 7);
    unsigned done = 0; bool thrown = false;
    for (unsigned i = 0; i < n && !thrown; ++i) {
        Max m; m.id = i;
        if (mc::flag()) m.fitness(5);
        bool inv = m.invalid();
        try { ev(m); } catch (eoMaxEvalException& e) { thrown = true; }
        if (inv) ++done; else MC_CHECK(!thrown, "budget:valid", "threw on a solution that needed no evaluation");
        MC_CHECK(!m.invalid(), "budget:lost", "the last evaluation was lost");
        MC_CHECK(real.n == done && ev.value() == done, "budget:count", "counted " << ev.value() << ", called " << real.n << " expected " << done);
        MC_CHECK(thrown == (inv && done >= limit), "budget", "evaluation " << done << " of " << limit << (thrown ? " threw" : " did not throw"));
        MC_CHECK(real.n <= limit, "budget:exceeded", real.n << " evaluations with a budget of " << limit);
    }
}
MC_SCENARIO("evaluation budget inside a population evaluation")
{
    Count real;
    unsigned long limit = mc::range(1, 5);
    eoEvalCounterThrowException<Max> ev(real, limit);
    eoPopLoopEval<Max> loop(ev);
    unsigned n = mc::range(1, 4);
    eoPop<Max> pop, dummy; std::vector<bool> inv;
    for (unsigned i = 0; i < n; ++i) { Max m; m.id = i; if (mc::flag()) m.fitness(5); inv.push_back(m.invalid()); pop.push_back(m); }
    bool thrown = false;
    try { loop(dummy, pop); } catch (eoMaxEvalException&) { thrown = true; }
    unsigned todo = 0; for (bool b : inv) todo += b;
    MC_CHECK(real.n == std::min<unsigned>(todo, limit) && thrown == (todo >= limit), "budget:pop", real.n << " evaluations of " << todo << " with a budget of " << limit << (thrown ? ", threw" : ""));
}

struct Scripted : eoContinue<Max>
{
    std::vector<bool> s; unsigned i = 0;
    bool operator()(const eoPop<Max>&) { return s.at(i++); }
    std::string className() const { return "Scripted"; }
};
MC_SCENARIO("combined criteria stop when one of them does")
{
    unsigned n = mc::range(1, 3), len = 3;
    std::vector<Scripted> s(n);
    for (auto& x : s) for (unsigned i = 0; i < len; ++i) x.s.push_back(mc::flag());
    eoPop<Max> p = with_best<Max>(1);
    std::unique_ptr<eoCombinedContinue<Max>> c;
    if (mc::flag()) { c.reset(new eoCombinedContinue<Max>(s[0])); for (unsigned i = 1; i < n; ++i) c->add(s[i]); }
    else { std::vector<eoContinue<Max>*> v; for (auto& x : s) v.push_back(&x); c.reset(new eoCombinedContinue<Max>(v)); }
    for (unsigned t = 0; t < len; ++t) {
        bool want = true;
        for (auto& x : s) want = want && x.s[t];
        bool r = (*c)(p); mc::step();
        MC_CHECK(r == want, "combined", "step " << t << " of " << n << " criteria");
        if (!r) break;
        for (auto& x : s) MC_CHECK(x.i == t + 1, "combined:asked", "a criterion was asked " << x.i << " times in " << t + 1 << " generations");
    }
}
MC_SCENARIO("inverted criterion")
{
    Scripted s; for (int i = 0; i < 4; ++i) s.s.push_back(mc::flag());
    eoInvertedContinue<Max> c(s);
    eoPop<Max> p = with_best<Max>(1);
    for (int i = 0; i < 4; ++i) { bool r = c(p); MC_CHECK(r == !s.s[i] && s.i == unsigned(i + 1), "inverted", "step " << i); }
}
MC_SCENARIO("periodic criterion")
{
    unsigned period = mc::range(1, 4), init = mc::range(0, 5);
    eoPeriodicContinue<Max> c = init || mc::flag() ? eoPeriodicContinue<Max>(period, init) : eoPeriodicContinue<Max>(period);
    eoPop<Max> p = with_best<Max>(1);
    for (unsigned i = 1; i <= 9; ++i) MC_CHECK(c(p) == ((init + i) % period != 0), "periodic", "period " << period << " start " << init << " call " << i);
}
MC_SCENARIO("dummy criterion")
{
    eoDummyContinue<Max> c; eoPop<Max> p = with_best<Max>(1);
    for (int i = 0; i < 3; ++i) MC_CHECK(c(p), "dummy", "stopped");
}

MC_SCENARIO("elapsed time")
{
    now_s = mc::pick({ 0L, 1000L });
    time_t start = now_s, limit = mc::range(0, 3);
    eoTimeContinue<Max> a(limit); eoSecondsElapsedContinue<Max> b{ int(limit) }, d{ 50 };
    eoPop<Max> p = with_best<Max>(1);
    for (int i = 0; i < 4; ++i) {
        now_s += mc::choose(3); mc::step(); mc::state(mc::mix(now_s, limit));
        MC_CHECK(a(p) == (now_s - start < limit), "time", "elapsed " << now_s - start << " of " << limit);
        MC_CHECK(b(p) == (now_s - start < limit), "seconds", "elapsed " << now_s - start << " of " << limit);
        std::stringstream s; b.printOn(s); d.readFrom(s);
        MC_CHECK(d(p) == (now_s - start < limit), "seconds:loaded", "elapsed " << now_s - start << " of " << limit);
    }
    now_s = 1000;
}
MC_SCENARIO("time budget by exception")
{
    now_s = 1000; user_s = 0;
    Count r1, r2;
    long limit = mc::range(1, 3);
    eoEvalTimeThrowException<Max> a(r1, limit);
    eoEvalUserTimeThrowException<Max> b(r2, limit);
    unsigned done = 0;
    for (int i = 0; i < 4; ++i) {
        long t = mc::choose(2); now_s += t; user_s += t;
        Max x, y; x.id = y.id = i;
        if (mc::flag()) { x.fitness(7); y.fitness(7); }
        bool inv = x.invalid(), ta = false, tb = false;
        try { a(x); } catch (eoMaxTimeException&) { ta = true; }
        try { b(y); } catch (eoMaxTimeException&) { tb = true; }
        bool over = now_s - 1000 >= limit;
        if (inv && !over) ++done;
        MC_CHECK(ta == (inv && over), "timethrow", "elapsed " << now_s - 1000 << " of " << limit);
        MC_CHECK(tb == (inv && over), "usertimethrow", "elapsed " << user_s << " of " << limit);
        MC_CHECK(r1.n == done && a.value() == done, "timethrow:count", "called " << r1.n << " counted " << a.value() << " expected " << done);
        MC_CHECK(r2.n == done && b.value() == done, "usertimethrow:count", "called " << r2.n << " counted " << b.value() << " expected " << done);
    }
}

extern bool ask_for_stop, existCtrlCContinue;
MC_SCENARIO("interrupt from the keyboard")
{
    quiet();
    ask_for_stop = false; existCtrlCContinue = false;
    eoCtrlCContinue<Max> c;
    bool refused = false;
    try { eoCtrlCContinue<Max> d; } catch (std::exception&) { refused = true; }
    MC_CHECK(refused, "ctrlc:twice", "a second handler was accepted");
    eoPop<Max> p = with_best<Max>(1);
    int at = mc::range(0, 4), sig = mc::pick({ SIGINT, SIGQUIT });
    for (int i = 0; i < 4; ++i) {
        if (i == at) raise(sig);
        MC_CHECK(c(p) == (i < at), "ctrlc", "signal at " << at << " call " << i);
    }
    signal(SIGINT, SIG_DFL); signal(SIGQUIT, SIG_DFL);
    ask_for_stop = false; existCtrlCContinue = false;
}
extern bool existSIGContinue, call_func;
static int handled = 0;
MC_SCENARIO("user signal handler")
{
    existSIGContinue = false; call_func = false; handled = 0;
    eoSIGContinue<Max> c(SIGUSR1, [](int s) { if (s == SIGUSR1) ++handled; });
    eoPop<Max> p = with_best<Max>(1);
    int want = 0;
    for (int i = 0; i < 4; ++i) {
        bool s = mc::flag();
        if (s) { raise(SIGUSR1); ++want; }
        MC_CHECK(handled == want - int(s), "sig:early", "the handler ran before the criterion was asked");
        MC_CHECK(c(p), "sig", "stopped");
        MC_CHECK(handled == want, "sig:calls", "handler ran " << handled << " times for " << want << " signals");
    }
    signal(SIGUSR1, SIG_DFL);
}

// ---- criteria driving a real algorithm --------------------------------------
struct KeepBreed : eoBreed<Max>
{
    std::vector<int> script; unsigned g = 0;
    void operator()(const eoPop<Max>&, eoPop<Max>& o)
    {
        Max m; m.id = script[std::min<size_t>(g++, script.size() - 1)];
        m.invalidate();
        o.push_back(m);
    }
};
MC_SCENARIO("criteria end a run of the standard algorithm")
{
    KeepBreed breed; Count real; eoEvalFuncCounter<Max> ev(real);
    for (int i = 0; i < 6; ++i) breed.script.push_back(mc::range(0, 2));
    unsigned long gens = mc::range(1, 6), evals = mc::range(2, 7); int goal = mc::range(1, 3);
    eoGenContinue<Max> g(gens); eoFitContinue<Max> f(goal); eoEvalContinue<Max> e(ev, evals);
    eoCombinedContinue<Max> c(g); c.add(f); c.add(e);
    eoPop<Max> p; Max m; m.id = 0; m.invalidate(); p.push_back(m);
    eoGenerationalReplacement<Max> rep;
    eoEasyEA<Max> algo(c, ev, breed, rep);
    algo(p);
    unsigned stop = 0;
    for (unsigned k = 1; !stop; ++k)
        if (k >= gens || breed.script[std::min<size_t>(k - 1, 5)] >= goal || k + 1 >= evals) stop = k;
    MC_CHECK(breed.g == stop, "run", "ran " << breed.g << " generations instead of " << stop);
}
MC_SCENARIO("best evaluated solution is kept")
{
    Count real; eoEvalKeepBest<Max> kb(real);
    int best = -1; bool any = false;
    for (int i = 0; i < 4; ++i) {
        Max m; m.id = mc::range(0, 3); m.invalidate();
        kb(m);
        bool better = !any || m.id > best;
        MC_CHECK(kb.found() == (any && better), "keepbest:found", "found() is " << kb.found());
        if (better) best = m.id;
        any = true;
        MC_CHECK(kb.best_element().fitness() == best && kb.best_element().id == best, "keepbest", "kept " << kb.best_element().fitness() << " instead of " << best);
        if (mc::choose(4) == 0) { kb.reset(); any = false; best = -1; MC_CHECK(kb.best_element().invalid(), "keepbest:reset", "reset kept the best"); }
    }
}
