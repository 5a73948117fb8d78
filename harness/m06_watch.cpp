// Local-search stopping rules, checkpoints and statistics.
#include "land.hpp"
#include <algo/moRandomWalk.h>
#include <algo/moLocalSearch.h>
#include <eval/moEvalCounter.h>
#include <utils/eoDistance.h>
#include <continuator/moStatFromStat.h>
#include <continuator/moValueStat.h>
#include <continuator/moUnsignedStat.h>
#include <continuator/moBooleanStat.h>
#include <continuator/moMinusOneCounterStat.h>
#include <continuator/moNeighborFitnessStat.h>
#include <continuator/moNeighborBestStat.h>
#include <continuator/moQuartilesNeighborStat.h>
#include <continuator/moQ1NeighborStat.h>
#include <continuator/moQ3NeighborStat.h>
#include <continuator/moMedianNeighborStat.h>
#include <continuator/moAverageFitnessNeighborStat.h>
#include <continuator/moStdFitnessNeighborStat.h>
#include <continuator/moSecondMomentNeighborStat.h>
#include <continuator/moMaxNeighborStat.h>
#include <continuator/moMinNeighborStat.h>
#include <continuator/moNbInfNeighborStat.h>
#include <continuator/moNbSupNeighborStat.h>
#include <continuator/moNeutralDegreeNeighborStat.h>
#include <continuator/moSizeNeighborStat.h>
#include <continuator/moCounterMonitorSaver.h>
#include <continuator/moVectorMonitor.h>
#include <continuator/moValueParamContinuator.h>
#include <continuator/moBestNoImproveContinuator.h>
#include <continuator/moEvalsContinuator.h>
#include "memfile.hpp"
#include <cmath>
#include <fstream>

static time_t clock_now = 1000;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = clock_now; return clock_now; }

typedef Land<double> L; typedef L::N N; typedef L::S S;
struct Quiet { std::ostringstream os; std::streambuf* old; Quiet() : old(std::clog.rdbuf(os.rdbuf())) {} ~Quiet() { std::clog.rdbuf(old); } };

static L flat(unsigned n) { L l; l.n = n; l.value.assign(1u << n, 0); return l; }

MC_SCENARIO("iterations, values and time")
{
    Quiet q;
    unsigned max = mc::choose(4);
    int kind = mc::choose(4);
    bool restart = mc::flag();
    if (kind == 0 || kind == 3) mc::assume(restart);
    eoValueParam<unsigned> v(mc::choose(3), "v");
    moIterContinuator<N> it(max, mc::flag());
    moValueParamContinuator<N, unsigned> vp(v, max, restart);
    clock_now = 1000;
    moTimeContinuator<N> tc(max, false);
    if (kind == 2 && !restart) tc.setStartingTime(999);
    moTrueContinuator<N> always;
    moContinuator<N>& c = kind == 0 ? (moContinuator<N>&)it : kind == 1 ? (moContinuator<N>&)vp : kind == 2 ? (moContinuator<N>&)tc : always;
    S s(1, false);
    for (unsigned run = 0; run < 2; ++run) {
        clock_now += mc::choose(2);
        c.init(s);
        unsigned calls = 0, v0 = restart ? v.value() : 0;
        time_t t0 = restart ? clock_now : 999;
        for (unsigned k = 0; k < 4; ++k) {
            if (kind == 1) v.value() += mc::choose(3);
            if (kind == 2) clock_now += mc::choose(3);
            bool got = c(s);
            ++calls;
            bool want = kind == 0 ? calls < max : kind == 1 ? v.value() - v0 < max : kind == 2 ? unsigned(clock_now - t0) < max : true;
            mc::state(mc::mix(kind * 8 + max, mc::mix(calls, mc::mix(v.value() - v0, clock_now - t0))));
            MC_CHECK(got == want, "stops", "kind " << kind << " limit " << max << " call " << calls << (got ? " goes on" : " stops"));
            if (kind == 0) MC_CHECK(it.value() == calls, "count", "");
            if (kind == 1) MC_CHECK(vp.value() == v.value() - v0, "count", "");
            if (kind == 2) MC_CHECK(tc.getStartingTime() == t0, "starting time", "");
        }
    }
}
MC_SCENARIO("evaluations")
{
    Quiet q;
    unsigned max = mc::choose(5);
    bool restart = mc::flag();
    int kind = mc::choose(3);
    L land = flat(1);
    FullTable<double> full(land);
    NearTable<double> near(land);
    eoEvalFuncCounter<S> cf(full);
    moEvalCounter<N> cn(near);
    S s = land.start(0, true);
    N x;
    x.index(s, 0);
    unsigned nf = 0, nn = 0;
    auto work = [&] {
        for (unsigned k = mc::choose(3); k; --k) { s.invalidate(); cf(s); ++nf; }
        for (unsigned k = kind ? mc::choose(2) : 0; k; --k) { cn(s, x); ++nn; }
        cf(s);                                    // known fitness: not an evaluation
        MC_CHECK(cf.value() == nf && cn.value() == nn, "evaluations counted", cf.value() << "/" << nf << " " << cn.value() << "/" << nn);
    };
    work();
    moFullEvalContinuator<N> a(cf, max, restart);
    moNeighborEvalContinuator<N> b(cn, max, restart);
    moEvalsContinuator<N> ab(cf, cn, max, restart);
    moContinuator<N>& c = kind == 0 ? (moContinuator<N>&)a : kind == 1 ? (moContinuator<N>&)b : ab;
    for (unsigned run = 0; run < 2; ++run) {
        work();
        c.init(s);
        unsigned base = restart ? (kind == 0 ? nf : kind == 1 ? nn : nf + nn) : 0;
        for (unsigned k = 0; k < (kind == 2 ? 1u : 2u); ++k) {
            work();
            unsigned used = (kind == 0 ? nf : kind == 1 ? nn : nf + nn) - base;
            bool got = c(s);
            mc::state(mc::mix(kind * 8 + max, mc::mix(used, restart * 2 + run)));
            MC_CHECK(got == (used < max), "stops", "kind " << kind << ": " << used << " evaluations of " << max << (got ? " goes on" : " stops"));
            MC_CHECK((kind == 0 ? a.value() : kind == 1 ? b.value() : ab.value()) == used, "count", "");
        }
    }
}
template <class F> static void fitness_rules()
{
    typedef eoBit<F> T; typedef moBitNeighbor<F> M;
    Quiet q;
    double target = mc::choose(3);
    moFitContinuator<M> fit(target);
    T best(1, false), s(1, false);
    best.fitness(mc::choose(3));
    unsigned max = 1 + mc::choose(3);
    moSolComparator<T> cmp;
    std::unique_ptr<moBestNoImproveContinuator<M>> noimp;
    if (mc::flag()) noimp.reset(new moBestNoImproveContinuator<M>(best, max, false));
    else noimp.reset(new moBestNoImproveContinuator<M>(best, max, cmp, false));
    for (unsigned run = 0; run < 2; ++run) {
        s.fitness(mc::choose(3));
        fit.init(s);
        noimp->init(s);
        unsigned still = 0;
        for (unsigned k = 0; k < 3; ++k) {
            double f = mc::choose(3);
            s.fitness(f);
            MC_CHECK(fit(s) == Land<F>::better(target, f), "target", f << " with target " << target);
            still = Land<F>::better(f, double(best.fitness())) ? 0 : still + 1;
            bool got = (*noimp)(s);
            mc::state(mc::mix(unsigned(target * 16 + f * 4 + double(best.fitness())), still * 8 + max));
            MC_CHECK(got == (still < max) && noimp->value() == still, "no improvement", still << " of " << max);
            if (run == 0 && k == 1 && mc::flag()) best.fitness(2);
        }
    }
}
MC_SCENARIO("fitness reached and no improvement, maximising") { fitness_rules<double>(); }
MC_SCENARIO("fitness reached and no improvement, minimising") { fitness_rules<eoMinimizingFitness>(); }

// ------------------------------------------------------------------ checkpoints
struct Log { std::vector<std::string> l; };
struct SpyCont : moContinuator<N>
{
    unsigned inits = 0, calls = 0, lasts = 0; bool answer = true;
    void init(S&) override { ++inits; }
    bool operator()(S&) override { ++calls; return answer = mc::flag(); }
    void lastCall(S&) override { ++lasts; }
};
struct SpyStat : moStat<S, unsigned>
{
    unsigned inits = 0, calls = 0, lasts = 0;
    SpyStat() : moStat<S, unsigned>(0, "spy") {}
    void init(S&) override { ++inits; value() = 100; }
    void operator()(S&) override { ++calls; value() = calls; }
    void lastCall(S&) override { ++lasts; }
    std::string className() const override { return "SpyStat"; }
};
struct SpyUp : eoUpdater { unsigned calls = 0, lasts = 0; void operator()() override { ++calls; } void lastCall() override { ++lasts; } };
struct SpyMoUp : moUpdater { unsigned inits = 0, calls = 0, lasts = 0; void init() override { ++inits; } void operator()() override { ++calls; } void lastCall() override { ++lasts; } };
struct SpyMon : eoMonitor
{
    SpyStat* st; unsigned calls = 0, lasts = 0; unsigned seen = ~0u;
    SpyMon(SpyStat* x) : st(x) {}
    eoMonitor& operator()() override { ++calls; if (st) seen = st->value(); return *this; }
    void lastCall() override { ++lasts; }
};
MC_SCENARIO("checkpoints call everything when they should")
{
    unsigned interval = 1 + mc::choose(3), ns = mc::choose(4), nc = 1 + mc::choose(2);
    std::vector<SpyCont> conts(nc);
    std::vector<SpyStat> stats(ns);
    SpyUp up;
    SpyMoUp mup;
    SpyMon mon(ns ? &stats[0] : nullptr);
    moCheckpoint<N> cp(conts[0], interval);
    for (unsigned i = 1; i < nc; ++i) cp.add(conts[i]);
    for (auto& s : stats) cp.add(s);
    cp.add(up);
    cp.add(mup);
    cp.add(mon);
    S s(1, false);
    s.fitness(0);
    unsigned calls = 0, due = 0;
    for (unsigned run = 1; run <= 2; ++run) {
        cp.init(s);
        MC_CHECK(mup.inits == run, "updater started", "");
        for (auto& x : stats) MC_CHECK(x.inits == run, "statistic started", "");
        for (auto& x : conts) MC_CHECK(x.inits == run, "continuator started", "");
        if (ns) MC_CHECK(mon.seen == 100, "monitor before statistics", "");
        unsigned n = run == 1 ? 4 : 3;
        for (unsigned k = 1; k <= n; ++k) {
            bool got = cp(s), want = true;
            ++calls;
            due += k % interval == 0;
            for (auto& x : conts) { MC_CHECK(x.calls == calls, "continuator skipped", ""); want = want && x.answer; }
            mc::state(mc::mix(interval * 8 + ns, mc::mix(run * 8 + k, got)));
            MC_CHECK(got == want, "answer", "");
            for (auto& x : stats) MC_CHECK(x.calls == due, "statistic frequency", x.calls << " calls instead of " << due << " with interval " << interval << ", " << ns << " statistics, call " << k);
            MC_CHECK(up.calls == calls && mup.calls == calls && mon.calls == calls + run, "updater or monitor frequency", "");
            if (ns) MC_CHECK(mon.seen == (k < interval ? 100 : due), "monitor before statistics", "");
        }
        cp.lastCall(s);
        for (auto& x : stats) MC_CHECK(x.lasts == run, "last call of statistics", "");
        for (auto& x : conts) MC_CHECK(x.lasts == run, "last call of continuators", "");
        MC_CHECK(up.lasts == run && mup.lasts == run && mon.lasts == run, "last call", "");
    }
}
MC_SCENARIO("combined continuators")
{
    std::vector<SpyCont> c(1 + mc::choose(3));
    moCombinedContinuator<N> all(c[0]);
    for (unsigned i = 1; i < c.size(); ++i) all.add(c[i]);
    S s(1, false);
    s.fitness(0);
    all.init(s);
    for (unsigned k = 1; k <= 3; ++k) {
        bool got = all(s), want = true;
        for (auto& x : c) { MC_CHECK(x.inits == 1 && x.calls == k, "child skipped", ""); want = want && x.answer; }
        mc::state(mc::mix(c.size(), k * 2 + got));
        MC_CHECK(got == want, "answer", "");
    }
    all.lastCall(s);
    for (auto& x : c) MC_CHECK(x.lasts == 1, "last call of continuators", "");
}
MC_SCENARIO("monitors called at intervals")
{
    unsigned interval = 1 + mc::choose(3);
    SpyMon a(nullptr), b(nullptr);
    moCounterMonitorSaver sv(interval, a);
    sv.add(b);
    unsigned due = 0;
    for (unsigned k = 0; k < 7; ++k) {
        sv();
        due += k % interval == 0;
        mc::state(mc::mix(interval, k));
        MC_CHECK(a.calls == due && b.calls == due, "monitor frequency", "");
    }
    sv.lastCall();
    MC_CHECK(a.lasts == 1 && b.lasts == 1, "last call", "");
}
MC_SCENARIO("a walk under a checkpoint")
{
    // real search: iterations, values recorded at the start and after each step, two runs
    Quiet q;
    L land = any_land<double>(2, 2);
    FullTable<double> full(land);
    NearTable<double> near(land);
    moRndWithReplNeighborhood<N> nh(2);
    unsigned max = 1 + mc::choose(3);
    moIterContinuator<N> it(max, false);
    moRandomWalk<N> walk(nh, full, near, it);
    moCheckpoint<N> cp(it);
    moFitnessStat<S> fs;
    moSolutionStat<S> ss;
    moCounterStat<S> cs;
    moMinusOneCounterStat<S> ms;
    moBestFitnessStat<S> bf;
    moBestSoFarStat<S> bs;
    bool keep = mc::flag();
    moBestFitnessStat<S> kf(!keep);
    moBestSoFarStat<S> ks(!keep);
    moStatFromStat<S, double> copy(fs);
    Watch<N> w;
    moVectorMonitor<S> vf(fs), vs(ss), vc(cs), vb(bf);
    cp.add(fs); cp.add(ss); cp.add(cs); cp.add(ms); cp.add(bf); cp.add(bs); cp.add(kf); cp.add(ks); cp.add(copy);
    cp.add(vf); cp.add(vs); cp.add(vc); cp.add(vb);
    cp.add(w);
    walk.setContinuator(cp);
    mc::rng_words({0x19999999, 0xe6666666}, 12);
    std::vector<uint32_t> all, trace;
    double ever = -1;
    w.judge = [&](S& s) {
        if (w.at.size() == 1) trace.clear();
        all.push_back(num_of(s));
        trace.push_back(num_of(s));
        double best = -1;
        for (auto v : trace) best = std::max(best, land.value[v]);
        ever = std::max(ever, best);
        unsigned k = trace.size() - 1;
        mc::state(mc::mix(mc::hashv(land.value), mc::hashv(trace)));
        MC_CHECK(fs.value() == land.value[trace.back()] && copy.value() == fs.value(), "fitness statistic", "");
        MC_CHECK(num_of(ss.value()) == trace.back() && ss.value().fitness() == fs.value(), "solution statistic", "");
        MC_CHECK(cs.value() == k && ms.value() == (k ? k - 1 : 0), "counter statistic", "");
        MC_CHECK(bf.value() == best && bs.value().fitness() == best && land.value[num_of(bs.value())] == best, "best statistic", "");
        double kb = keep ? ever : best;
        MC_CHECK(kf.value() == kb && ks.value().fitness() == kb && land.value[num_of(ks.value())] == kb, "best over runs", kf.value() << " " << ks.value().fitness() << " instead of " << kb);
    };
    for (unsigned run = 0; run < 2; ++run) {
        vf.clear(); vs.clear(); vc.clear(); vb.clear();
        S s = land.start(run ? 3 : mc::choose(4));
        walk(s);
        MC_CHECK(trace.size() == max + 1, "iterations", trace.size() - 1 << " instead of " << max);
        MC_CHECK(w.lasts == run + 1, "last call of continuators", "");
        MC_CHECK(vf.size() == trace.size() && vs.size() == trace.size() && vc.size() == trace.size(), "recorded values", vf.size());
        MC_CHECK(!vf.solutionType() && vs.solutionType(), "kind of record", "");
        double best = -1;
        for (unsigned i = 0; i < trace.size(); ++i) {
            best = std::max(best, land.value[trace[i]]);
            MC_CHECK(vf.getValues()[i] == land.value[trace[i]] && vc.getValues()[i] == i && num_of(vs.getSolutions()[i]) == trace[i] && vb.getValues()[i] == best, "recorded values", "at " << i);
        }
    }
}
// ------------------------------------------------------------------ neighbourhood statistics
static bool quantile(std::vector<double> v, double p, double x)
{
    std::sort(v.begin(), v.end());
    double at = p * v.size();
    size_t hi = std::min(size_t(at), v.size() - 1), lo = at == std::floor(at) && hi ? hi - 1 : hi;
    return x >= v[lo] && x <= v[hi];
}
template <class F> static void neighbourhood_stats()
{
    typedef Land<F> LL; typedef typename LL::N NN; typedef typename LL::S SS;
    unsigned n = mc::range(1, mc::tier(4, 5)), k = n == 1 ? 4 : n <= 3 ? 3 : 2;
    LL land;
    land.n = n;
    land.value.assign(1u << n, 0);
    // only the start and its neighbours matter
    uint32_t from = mc::choose(2) ? (1u << n) - 1 : 0;
    land.value[from] = mc::choose(k);
    for (unsigned i = 0; i < n; ++i) land.value[from ^ 1u << i] = mc::choose(k) * 1.5;
    NearTable<F> near(land);
    moOrderNeighborhood<NN> nh(n);
    moNeighborComparator<NN> nc;
    moSolNeighborComparator<NN> sc;
    std::unique_ptr<moNeighborhoodStat<NN>> stp(mc::flag() ? new moNeighborhoodStat<NN>(nh, near) : new moNeighborhoodStat<NN>(nh, near, nc, sc));
    moNeighborhoodStat<NN>& st = *stp;
    moMaxNeighborStat<NN> smax(st); moMinNeighborStat<NN> smin(st); moAverageFitnessNeighborStat<NN> smean(st); moStdFitnessNeighborStat<NN> ssd(st);
    moSecondMomentNeighborStat<NN> sm2(st); moNbInfNeighborStat<NN> sinf(st); moNbSupNeighborStat<NN> ssup(st); moNeutralDegreeNeighborStat<NN> seq(st);
    moSizeNeighborStat<NN> ssz(st); moQ1NeighborStat<NN> sq1(st); moQ3NeighborStat<NN> sq3(st); moMedianNeighborStat<NN> smed(st); moQuartilesNeighborStat<NN> sqq(st);
    moNeighborBestStat<NN> sb(nh, near);
    unsigned limit = mc::choose(n + 2);
    moNeighborBestStat<NN> sk(nh, near, limit);
    SS s = land.start(from, true);
    bool first = mc::flag();
    // the statistics may have been started on another solution
    SS other = land.start(from ^ (1u << n) - 1, true);
    std::vector<moStatBase<SS>*> all;
    auto go = [&](moStatBase<SS>& x) { all.push_back(&x); };
    go(st); go(smax); go(smin); go(smean); go(ssd); go(sm2); go(sinf); go(ssup); go(seq); go(ssz); go(sq1); go(sq3); go(smed); go(sqq); go(sb); go(sk);
    for (auto x : all) x->init(first ? s : other);
    if (!first) for (auto x : all) (*x)(s);
    std::vector<double> v;
    unsigned sup = 0, inf = 0, eq = 0;
    double here = land.value[from], mean = 0, sd = 0;
    for (unsigned i = 0; i < n; ++i) {
        double f = land.value[from ^ 1u << i];
        v.push_back(f);
        mean += f / n;
        if (f == here) ++eq; else if (LL::better(f, here)) ++sup; else ++inf;
    }
    for (double f : v) sd += (f - mean) * (f - mean);
    sd = n > 1 ? std::sqrt(sd / (n - 1)) : 0;
    double best = v[0], worst = v[0], bestk = v[0];
    for (unsigned i = 0; i < n; ++i) { if (LL::better(v[i], best)) best = v[i]; if (LL::better(worst, v[i])) worst = v[i]; if ((!limit || i < limit) && LL::better(v[i], bestk)) bestk = v[i]; }
    mc::state(mc::mix(mc::hashv(land.value), from * 8 + limit));
    MC_CHECK(st.value(), "has neighbours", "");
    MC_CHECK(double(smax.value()) == best && double(smin.value()) == worst, "best and worst neighbour", double(smax.value()) << " " << double(smin.value()));
    MC_CHECK(mc::close(smean.value(), mean) && mc::close(sm2.value().first, mean), "mean", smean.value() << " instead of " << mean);
    MC_CHECK(mc::close(ssd.value(), sd) && mc::close(sm2.value().second, sd), "deviation", ssd.value() << " instead of " << sd);
    MC_CHECK(ssup.value() == sup && sinf.value() == inf && seq.value() == eq && ssz.value() == n, "counts", ssup.value() << " " << sinf.value() << " " << seq.value());
    MC_CHECK(quantile(v, .25, double(sq1.value())) && quantile(v, .5, double(smed.value())) && quantile(v, .75, double(sq3.value())), "quartiles", mc::show(v) << ": " << double(sq1.value()) << " " << double(smed.value()) << " " << double(sq3.value()));
    MC_CHECK(double(sqq.value().first) == double(sq1.value()) && double(sqq.value().second) == double(sq3.value()), "quartiles", "pair");
    MC_CHECK(double(sb.value()) == best && double(sk.value()) == bestk, "best neighbour", double(sk.value()) << " instead of " << bestk);
    MC_CHECK(double(s.fitness()) == here && num_of(s) == from, "statistics change the solution", "");
}
MC_SCENARIO("neighbourhood statistics, maximising") { neighbourhood_stats<double>(); }
MC_SCENARIO("neighbourhood statistics, minimising") { neighbourhood_stats<eoMinimizingFitness>(); }
MC_SCENARIO("statistics of one neighbour, a distance and outside values")
{
    Quiet q;
    L land = any_land<double>(2, 3);
    NearTable<double> near(land);
    moRndWithReplNeighborhood<N> nh(2);
    mc::rng_words({0x19999999, 0xe6666666}, 3);
    uint32_t from = mc::choose(4), ref = mc::choose(4);
    S s = land.start(from, true), r = land.start(ref, true);
    moNeighborFitnessStat<N> nf(nh, near);
    nf.init(s);
    nf(s);
    MC_CHECK(nf.value() == land.value[from ^ 1] || nf.value() == land.value[from ^ 2], "one neighbour", nf.value());
    eoHammingDistance<S> ham;
    moDistanceStat<S> ds(ham, r);
    if (mc::flag()) ds.init(s); else { ds.init(r); ds(s); }
    MC_CHECK(ds.value() == __builtin_popcount(from ^ ref), "distance", ds.value());
    bool b = mc::flag();
    unsigned u = from;
    eoValueParam<unsigned> vp(5, "v");
    bool restart = mc::flag();
    moBooleanStat<S> sb(&b);
    moUnsignedStat<S> su(&u);
    moValueStat<S, unsigned> sv(vp, restart);
    sb.init(s); su.init(s); sv.init(s);
    MC_CHECK(sb.value() == b && su.value() == u && sv.value() == (restart ? 0 : 5), "outside values", "");
    b = !b; u = ref; vp.value() = 5 + ref;
    sb(s); su(s); sv(s);
    mc::state(mc::mix(mc::hashv(land.value), from * 8 + ref));
    MC_CHECK(sb.value() == b && su.value() == u && sv.value() == (restart ? ref : 5 + ref), "outside values", "");
}
template <class T> static void record(T a, T b)
{
    eoValueParam<T> p(a, "name");
    moVectorMonitor<S> m(p);
    m();
    p.value() = b;
    m();
    MC_CHECK(m.size() == 2 && m.getValues()[0] == double(a) && m.getValues()[1] == double(b) && m.longName() == "name", "recorded values", m.getValues()[0] << " " << m.getValues()[1]);
    std::string want;
    for (unsigned i = 0; i < 2; ++i) { m.precision(10); std::ostringstream os; os.precision(10); os << m.getValues()[i]; MC_CHECK(m.getValue(i) == os.str(), "written value", m.getValue(i)); want += os.str() + "\n"; }
    MemFile f("old\n");
    bool append = mc::flag();
    m.fileExport(f.path, append);
    MC_CHECK(f.text() == (append ? "old\n" + want : want), "exported file", f.text());
    m.clear();
    MC_CHECK(m.size() == 0, "cleared", "");
}
MC_SCENARIO("recorded values of every type")
{
    unsigned a = mc::choose(3), b = mc::pick({0u, 7u, 4000000000u});
    switch (mc::choose(6)) {
        case 0: record<double>(a + 0.25, b + 0.5); break;
        case 1: record<unsigned>(a, b); break;
        case 2: record<unsigned long>(a, b); break;
        case 3: record<long long>(a, -(long long)b); break;
        case 4: {
            eoValueParam<eoMinimizingFitness> p(eoMinimizingFitness(a + .5), "f");
            moVectorMonitor<S> m(p);
            m();
            MC_CHECK(m.getValues()[0] == a + .5, "recorded values", m.getValues()[0]);
            break;
        }
        default: {
            S s = bits_of<S>(3, a);
            s.fitness(b);
            eoValueParam<S> p(s, "s");
            moVectorMonitor<S> m(p);
            m();
            std::ostringstream os;
            os << s;
            MC_CHECK(m.solutionType() && m.size() == 1 && num_of(m.getSolutions()[0]) == a && m.getValue(0) == os.str(), "recorded solution", m.getValue(0));
        }
    }
    mc::state(mc::mix(a, b));
}
