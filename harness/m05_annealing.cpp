// Annealing: probability of acceptance, cooling laws, when the search stops.
#include "land.hpp"
#include <coolingSchedule/moSimpleCoolingSchedule.h>
#include <coolingSchedule/moDynSpanCoolingSchedule.h>
#include <algo/moSA.h>
#include <algo/moMetropolisHasting.h>
#include <cmath>

static const unsigned GRID = 128;
static const double INF = std::numeric_limits<double>::infinity();
// probability that this answer is yes over all words
template <class A> static double chance(A ask)
{
    double p = 0;
    mc::forall([&] { mc::rng_grid(GRID, 2); if (ask()) p += mc::leaf_prob(); });
    return p;
}
struct Quiet { std::ostringstream os; std::streambuf* old; Quiet() : old(std::clog.rdbuf(os.rdbuf())) {} ~Quiet() { std::clog.rdbuf(old); } };

template <class F> struct One                     // one bit, one neighbour
{
    Land<F> l; FullTable<F> full; NearTable<F> near; moOrderNeighborhood<moBitNeighbor<F>> nh; moSolNeighborComparator<moBitNeighbor<F>> sc; moNeighborComparator<moBitNeighbor<F>> nc;
    One(double here, double there) : l(make(here, there)), full(l), near(l), nh(1) {}
    static Land<F> make(double a, double b) { Land<F> l; l.n = 1; l.value = {a, b}; return l; }
};
template <class F> static double annealing_rule(double here, double there, double t)
{
    if (Land<F>::better(there, here) || here == there) return 1;
    return std::exp(-std::fabs(here - there) / t);
}
template <class F> static void anneal()
{
    Quiet q;
    double here = mc::pick({-7., -1., 0., 0.5, 3., 100.}), there = mc::pick({-7., -1.5, 0., 0.5, 4., 101.});
    double t0 = mc::pick({0.25, 1., 10., 1000.}), alpha = mc::pick({0.5, 0.9});
    unsigned span = mc::choose(3);
    One<F> o(here, there);
    moSimpleCoolingSchedule<eoBit<F>> cool(t0, alpha, span, t0 * 0.6);
    moSAexplorer<moBitNeighbor<F>> x(o.nh, o.near, o.sc, cool);
    for (unsigned run = 0; run < 2; ++run) {
        eoBit<F> s = o.l.start(0, true);
        x.initParam(s);
        double t = t0;
        unsigned since = 0;
        MC_CHECK(x.getTemperature() == t0, "first temperature", x.getTemperature());
        for (unsigned k = 0; k < 6; ++k) {
            x(s);
            double p = chance([&] { return x.accept(s); }), want = annealing_rule<F>(here, there, t);
            MC_CHECK(std::fabs(p - want) <= 1.0 / GRID, "acceptance", "from " << here << " to " << there << " at " << t << ": " << p << " instead of " << want);
            MC_CHECK(want < 1 || p == 1, "improving move refused", here << " to " << there);
            mc::rng_words({0x80000000u}, 2);
            bool acc = x.accept(s);
            x.moveApplied(acc);
            x.updateParam(s);
            // equal temperature for `span` iterations after the one that set it
            if (since >= span) { t *= alpha; since = 0; } else ++since;
            mc::state(mc::mix(mc::hashv(std::vector<double>{here + 1000 * there}), mc::mix(mc::hashv(std::vector<double>{t}), k)));
            MC_CHECK(mc::close(x.getTemperature(), t), "temperature", x.getTemperature() << " instead of " << t);
            MC_CHECK(x.isContinue(s) == (t > t0 * 0.6), "end of cooling", t);
        }
    }
}
MC_SCENARIO("annealing accepts by its rule, maximising") { anneal<double>(); }
MC_SCENARIO("annealing accepts by its rule, minimising") { anneal<eoMinimizingFitness>(); }

template <class F> static void metropolis()
{
    Quiet q;
    double here = mc::pick({0.25, 1., 3., 8., 100.}), there = mc::pick({0.25, 1., 2., 9., 400.});
    One<F> o(here, there);
    unsigned steps = mc::choose(4);
    moMetropolisHastingExplorer<moBitNeighbor<F>> x(o.nh, o.near, o.nc, o.sc, steps);
    for (unsigned run = 0; run < 2; ++run) {
        eoBit<F> s = o.l.start(0, true);
        x.initParam(s);
        for (unsigned k = 0; k < 4; ++k) {
            x(s);
            double p = chance([&] { return x.accept(s); });
            double want = Land<F>::better(there, here) || here == there ? 1 : std::min(here, there) / std::max(here, there);
            MC_CHECK(std::fabs(p - want) <= 1.0 / GRID, "acceptance", "from " << here << " to " << there << ": " << p << " instead of " << want);
            MC_CHECK(want < 1 || p == 1, "improving move refused", here << " to " << there);
            x.moveApplied(mc::choose(2));
            x.updateParam(s);
            mc::state(mc::mix(mc::hashv(std::vector<double>{here + 1000 * there}), k * 8 + steps));
            MC_CHECK(x.isContinue(s) == (k + 1 < steps), "number of steps", "");
        }
    }
}
MC_SCENARIO("Metropolis accepts by its rule, maximising") { metropolis<double>(); }
MC_SCENARIO("Metropolis accepts by its rule, minimising") { metropolis<eoMinimizingFitness>(); }

MC_SCENARIO("cooling by spans of tries and moves")
{
    typedef Land<double>::S S;
    double t0 = mc::pick({1., 8.}), alpha = 0.5;
    unsigned tries = 1 + mc::choose(3), moves = 1 + mc::choose(3), spans = mc::choose(3);
    moDynSpanCoolingSchedule<S> c(t0, alpha, tries, moves, spans);
    S s(1, false);
    for (unsigned run = 0; run < 2; ++run) {
        double t = c.init(s), want = t0;
        MC_CHECK(t == t0, "first temperature", t);
        unsigned nt = 0, nm = 0, idle = 0;
        for (unsigned k = 0; k < (run ? 3u : 7u); ++k) {
            bool moved = mc::flag();
            c.update(t, moved);
            ++nt;
            nm += moved;
            if (nt >= tries || nm >= moves) { want *= alpha; idle = nm ? 0 : idle + 1; nt = nm = 0; }
            mc::state(mc::mix(tries * 64 + moves * 16 + spans * 4 + run, mc::mix(nt * 16 + nm, mc::mix(idle, mc::hashv(std::vector<double>{want})))));
            MC_CHECK(t == want, "temperature", t << " instead of " << want);
            MC_CHECK(c(t) == (idle <= spans), "end of cooling", "after " << idle << " spans without a move");
        }
    }
}

// a schedule that may do anything, recording what it is told
template <class S> struct AnyCooling : moCoolingSchedule<S>
{
    std::vector<bool> told; unsigned inits = 0, asked = 0; double now = 0; bool go = true;
    double init(S&) override { ++inits; told.clear(); return now = mc::pick({0.5, INF}); }
    void update(double& t, bool moved) override { MC_CHECK(t == now, "temperature lost", ""); told.push_back(moved); t = now = mc::pick({1e-9, INF}); }
    bool operator()(double t) override { ++asked; MC_CHECK(t == now, "temperature lost", ""); return go = mc::flag(); }
};
template <class F> static void whole()
{
    typedef Land<F> L; typedef typename L::N N; typedef typename L::S S;
    Quiet q;
    L land = any_land<F>(2, 2);
    FullTable<F> full(land);
    NearTable<F> near(land);
    moRndWithReplNeighborhood<N> nh(2);
    AnyCooling<S> cool;
    Watch<N> w;
    w.stop_after = 3;
    moSolNeighborComparator<N> sc;
    int form = mc::choose(2);
    std::unique_ptr<moSA<N>> sa;
    if (form == 0) sa.reset(new moSA<N>(nh, full, near, cool, w));
    else sa.reset(new moSA<N>(nh, full, near, cool, sc, w));
    mc::rng_words({0x19999999, 0xe6666666}, 8);
    uint32_t from = mc::choose(4);
    std::vector<double> temps;
    w.judge = [&](S& s) {
        MC_CHECK(!s.invalid() && double(s.fitness()) == land.value[num_of(s)], "recorded fitness", "");
        size_t k = w.at.size();
        if (k > 1) {
            uint32_t a = w.at[k - 2], b = w.at[k - 1];
            MC_CHECK(__builtin_popcount(a ^ b) <= 1, "step", "");
            MC_CHECK(cool.told.size() == k - 1 && cool.told.back() == (a != b), "the schedule is told whether a move was made", "");
            // the temperature of this step was recorded before the update
            double t = temps.back();
            if (a != b && L::better(land.value[a], land.value[b])) MC_CHECK(t > 0.4, "worse move when frozen", t);
            if (a == b) {
                // refused: only a worsening neighbour, and not when hot
                bool worse = false;
                for (unsigned i = 0; i < 2; ++i) worse = worse || L::better(land.value[a], land.value[a ^ 1u << i]);
                MC_CHECK(worse && t < INF, "refused", "");
            }
            mc::state(mc::mix(mc::hashv(land.value), mc::mix(a * 4 + b, mc::hashv(std::vector<double>{t}))));
        }
        temps.push_back(cool.now);
    };
    S s = land.start(from);
    (*sa)(s);
    MC_CHECK(cool.inits == 1 && w.inits == 1 && w.lasts == 1, "starts and ends", "");
    MC_CHECK(w.at.size() == 4 || !cool.go, "stopped early", w.at.size());
    MC_CHECK(num_of(s) == w.at.back() && double(s.fitness()) == land.value[num_of(s)], "result", "");
}
MC_SCENARIO("whole runs with any schedule, maximising") { whole<double>(); }
MC_SCENARIO("whole runs with any schedule, minimising") { whole<eoMinimizingFitness>(); }

MC_SCENARIO("number of iterations of every form")
{
    typedef Land<double> L; typedef L::N N; typedef L::S S;
    Quiet q;
    L land = any_land<double>(1, 2);
    FullTable<double> full(land);
    NearTable<double> near(land);
    moRndWithReplNeighborhood<N> nh(1);
    double t0 = mc::pick({1., 16.}), a = mc::pick({0.5, 0.25}), tf = mc::pick({0.5, 0.9});
    unsigned span = mc::choose(3), steps = 1 + mc::choose(6);
    moSimpleCoolingSchedule<S> cool(t0, a, span, tf);
    Watch<N> w;
    w.stop_after = steps;
    unsigned cooled = 0, it = 0;
    for (double t = t0; ; ) { ++it; if (++cooled > span) { t *= a; cooled = 0; } if (!(t > tf)) break; }
    mc::rng_words({0x19999999}, 100000);
    S s = land.start(mc::choose(2));
    unsigned before = near.calls, want = 0;
    switch (mc::choose(6)) {
        case 0: { moSA<N> x(nh, full, near, t0, a, span, tf); x(s); want = it; break; }
        case 1: { moSA<N> x(nh, full, near, cool); x(s); want = it; break; }
        case 2: { moSA<N> x(nh, full, near, cool, w); x(s); want = std::min(it, steps); break; }
        case 3: { moSA<N> x(nh, full, near, w); x(s); want = steps; break; }   // stopped by the continuator alone
        case 4: { moMetropolisHasting<N> x(nh, full, near, steps); x(s); want = steps; break; }
        default: { moMetropolisHasting<N> x(nh, full, near, 3, w); x(s); want = std::min(3u, steps); break; }
    }
    mc::state(mc::mix(want, mc::mix(it, steps)));
    MC_CHECK(near.calls - before == want, "iterations", near.calls - before << " instead of " << want);
    MC_CHECK(s.fitness() == land.value[num_of(s)], "recorded fitness", "");
}
MC_SCENARIO("nothing to move to")
{
    typedef Land<double> L; typedef L::N N; typedef L::S S;
    Quiet q;
    L land;
    land.n = 1;
    land.value = {1, 2};
    FullTable<double> full(land);
    NearTable<double> near(land);
    moOrderNeighborhood<N> nh(1);
    struct None : moOrderNeighborhood<N> { None() : moOrderNeighborhood<N>(1) {} bool hasNeighbor(S&) override { return false; } } none;
    Watch<N> w;
    w.stop_after = 2;
    mc::rng_words({0x19999999}, 100);
    S s = land.start(mc::choose(2));
    uint32_t from = num_of(s);
    moSimpleCoolingSchedule<S> cool(1, 0.5, 1, 0.1);
    if (mc::flag()) { moSA<N> x(none, full, near, cool, w); x(s); } else { moMetropolisHasting<N> x(none, full, near, 3, w); x(s); }
    mc::state(from);
    MC_CHECK(num_of(s) == from && near.calls == 0, "moved without a neighbour", "");
    MC_CHECK(s.fitness() == land.value[from], "recorded fitness", "");
}
