// E05: generation invariants of the evolutionary algorithms.
#include "ea.hpp"
#include <eoMGGReplacement.h>
#include <eoG3Replacement.h>
using namespace ea;

namespace ea
{
static const void* the_pop = 0;
static bool elitist = false;
static bool replaced = false;           // a replacement happened since the last consultation
static std::string last_seen;
static int direction = 1;

template <class T> void look(const char* where, const T& s)
{
    // a replacement must be given evaluated individuals only
    if (!strcmp(where, "replacement")) MC_CHECK(!s.invalid(), "unevaluated:replacement", "the replacement was given " << text(s));
}
template <class T> void generation(const eoPop<T>& p)
{
    MC_CHECK(p.size() == log().nominal, "size", "population of " << p.size() << " instead of " << log().nominal << ": " << text(p));
    for (auto& x : p) MC_CHECK(!x.invalid(), "unevaluated:generation", text(p));
    if (the_pop) MC_CHECK(&p == the_pop, "other", "the continuator was consulted on another population");
    double best = -1e9;
    for (auto& x : p) best = std::max(best, Sign<T>::value * double(x.fitness()));
    if (elitist && !log().best.empty())
        MC_CHECK(best >= log().best.back(), "elitism", "best went from " << Sign<T>::value * log().best.back() << " to " << Sign<T>::value * best << " with " << text(p));
    log().best.push_back(best);
    MC_CHECK(log().replaces == 0 || log().replaces == log().conts, "consulted", "consulted " << log().conts << " times after " << log().replaces << " generations");
    last_seen = text(p);
}
}
template <class T> static void begin(eoPop<T>& pop, bool eli)
{
    fresh(pop.size());
    the_pop = &pop;
    elitist = eli;
    last_seen.clear();
    double best = -1e9;
    for (auto& x : pop) best = std::max(best, Sign<T>::value * objective(x));
    log().best.push_back(best);
}
template <class T, class A> static void go(A& algo, eoPop<T>& pop, unsigned gens)
{
    algo(pop);
    MC_CHECK(log().conts == gens, "generations", "ran " << log().conts << " generations, the continuator wanted " << gens);
    MC_CHECK(text(pop) == last_seen, "after", "population changed after the last consultation: " << last_seen << " became " << text(pop));
    mc::sample(text(pop));
}

// ---- any breeding at all --------------------------------------------------
template <class T> struct AnyBreed : eoBreed<T>
{
    unsigned off;
    AnyBreed(unsigned o) : off(o) {}
    void operator()(const eoPop<T>& p, eoPop<T>& o)
    {
        for (auto& x : p) MC_CHECK(!x.invalid(), "unevaluated:breeding", "parents " << text(p));
        MC_CHECK(o.empty(), "leftover", "offspring of the previous generation were still there: " << text(o));
        for (unsigned i = 0; i < off; ++i) {
            uint32_t g = mc::choose(4);
            T b = bits_of<T>(BITS, g);
            for (auto& x : p) if (num_of(x) == g) b = x;      // an unchanged copy keeps its fitness
            if (b.invalid()) b.invalidate();
            o.push_back(b);
        }
    }
};
template <class T> static void any_breeding(unsigned n, unsigned off, unsigned gens)
{
    Kit<T> k;
    Mute mute;
    eoPop<T> pop = any_pop<T>(n, gens > 1 || n > 2);
    coins(2, 12);
    eoCommaReplacement<T> comma;
    eoWeakElitistReplacement<T> wcomma(comma);
    eoEPReplacement<T> ep(2);
    eoSSGADetTournamentReplacement<T> sdet(2);
    eoSSGAStochTournamentReplacement<T> ssto(0.75);
    eoElitism<T> half(0.5);
    eoMergeReduce<T> mr2(half, k.trunc);
    struct R { eoReplacement<T>* r; bool elitist, ok; } menu[] = {
        { &k.gen, false, off == n }, { &k.plus, true, true }, { &comma, false, off >= n }, { &k.ssga, off < n, off <= n },
        { &k.weak, true, off == n }, { &wcomma, true, off >= n }, { &k.mr, true, off + 1 >= n }, { &mr2, n > 1, off + n / 2 >= n },
        { &sdet, false, off < n }, { &ssto, false, off < n } };
    R r = menu[mc::choose(10)];
    if (!r.ok) mc::prune();
    begin(pop, r.elitist);
    Replace<T> rep(*r.r);
    AnyBreed<T> breed(off);
    Cont<T> cont(gens);
    PopEval<T> pe(k.eval);
    if (mc::flag()) { eoEasyEA<T> a(cont, k.eval, breed, rep); go(a, pop, gens); }
    else { eoEasyEA<T> a(cont, pe, breed, rep); go(a, pop, gens); }
}
MC_SCENARIO("any breeding, one generation") { any_breeding<Bit>(mc::range(1, 2), mc::range(1, 3), 1); }
MC_SCENARIO("any breeding, two generations") { any_breeding<Bit>(mc::range(1, 2), mc::range(1, 2), 2); }
MC_SCENARIO("any breeding, one generation, pop 3") { any_breeding<Bit>(3, mc::range(1, mc::tier(2, 4)), 1); }
MC_SCENARIO("any breeding, minimising") { any_breeding<BitMin>(mc::range(1, 2), mc::range(1, 2), mc::range(1, 2)); }
MC_SCENARIO_T("any breeding, three generations") { any_breeding<Bit>(2, mc::range(1, 2), 3); }

// a replacement that changes the size is refused
MC_SCENARIO("a shrinking or growing population is refused")
{
    Kit<Bit> k;
    struct Bad : eoReplacement<Bit>
    {
        int d;
        void operator()(eoPop<Bit>& p, eoPop<Bit>& o)
        {
            if (d > 0) p.push_back(o[0]); else if (d < 0) p.pop_back();
        }
    } bad;
    bad.d = mc::range(-1, 1);
    eoPop<Bit> pop = any_pop<Bit>(mc::range(2, 3), true);
    begin(pop, false);
    last_seen = "";
    AnyBreed<Bit> breed(1);
    Cont<Bit> cont(1);
    eoEasyEA<Bit> a(cont, k.eval, breed, bad);
    bool thrown = false;
    try { a(pop); } catch (std::exception&) { thrown = true; }
    MC_CHECK(thrown == (bad.d != 0), "refused", "size change " << bad.d << (thrown ? " refused" : " accepted"));
}

// ---- the library's breeders -----------------------------------------------
MC_SCENARIO("general breeder gives the requested number of offspring")
{
    Kit<Bit> k;
    Ops<Bit> ops(k, true);
    unsigned which = mc::choose(Ops<Bit>::count);
    unsigned n = mc::range(1, 3), off;
    bool heavy = which >= 4;
    eoPop<Bit> pop, o;
    for (unsigned i = 0; i < n; ++i) { pop.push_back(bits_of<Bit>(BITS, i)); pop[i].fitness(objective(pop[i])); }
    fresh(n);
    coins(which == 5 || which == 6 || which == 10 ? 3 : 2, 14);
    if (mc::flag()) o = some_pop<Bit>(2, true);          // left from before
    unsigned before = o.size();
    if (mc::flag()) { off = mc::range(1, heavy ? 2 : 4); eoGeneralBreeder<Bit> b(k.next, ops.get(which), off, false); b(pop, o); }
    else {
        double rate = mc::pick({ 0.34, 0.5, 1.0, 1.5 });
        if (heavy && rate * n > 2) mc::prune();
        off = unsigned(std::ceil(rate * n)); unsigned lo = unsigned(std::floor(rate * n));
        eoGeneralBreeder<Bit> b(k.next, ops.get(which), rate, true); b(pop, o);
        if (o.size() == lo && lo > 0) off = lo;
    }
    MC_CHECK(o.size() == off, "offspring", "operator " << which << " gave " << o.size() << " offspring instead of " << off << " from " << n << " parents (" << before << " left over)");
    MC_CHECK(pop.size() == n, "parents", "breeding changed the parents");
}
template <class T> static void library(unsigned n, unsigned gens, unsigned which)
{
    Kit<T> k;
    Ops<T> ops(k, true);
    eoPop<T> pop = some_pop<T>(n, false);
    coins(which == 5 || which == 6 || which == 10 ? 3 : 2, 16);
    bool plus = mc::flag();
    begin(pop, plus);
    Replace<T> rep(plus ? static_cast<eoReplacement<T>&>(k.plus) : k.gen);
    Cont<T> cont(gens);
    eoGeneralBreeder<T> breed(k.next, ops.get(which), n, false);
    eoEasyEA<T> a(cont, k.eval, breed, rep);
    go(a, pop, gens);
}
MC_SCENARIO("library breeders") { library<Bit>(mc::range(1, 2), 1, mc::choose(Ops<Bit>::count)); }
MC_SCENARIO("library breeders, two generations") { library<Bit>(2, 2, mc::choose(4)); }
MC_SCENARIO("select and transform")
{
    Kit<Bit> k;
    unsigned n = mc::range(1, 3), gens = n == 3 ? 1 : 2;
    eoPop<Bit> pop = some_pop<Bit>(n, false);
    coins(2);
    bool plus = mc::flag();
    begin(pop, plus);
    Replace<Bit> rep(plus ? static_cast<eoReplacement<Bit>&>(k.plus) : k.gen);
    Cont<Bit> cont(gens);
    eoSGATransform<Bit> t(k.fquad, 0.5, k.fmon, 0.5);
    eoSelectPerc<Bit> sel(k.next);
    PopEval<Bit> pe(k.eval);
    switch (mc::choose(3)) {
    case 0: { eoEasyEA<Bit> a(cont, k.eval, sel, t, rep); go(a, pop, gens); break; }
    case 1: { eoEasyEA<Bit> a(cont, pe, sel, t, rep); go(a, pop, gens); break; }
    default: { elitist = true; eoEasyEA<Bit> a(cont, k.eval, sel, t, k.merge, k.trunc); go(a, pop, gens); break; }
    }
}
MC_SCENARIO("one to one breeder keeps the better of parent and child")
{
    Kit<Bit> k;
    Ops<Bit> ops(k, false);
    unsigned n = mc::range(1, 2);
    eoPop<Bit> pop = any_pop<Bit>(n, true), o;
    fresh(n);
    coins(4);
    double p = mc::pick({ 0.0, 0.5, 1.0 });
    static const unsigned single[] = { 0, 2, 3 };
    unsigned w = mc::choose(3);
    eoOneToOneBreeder<Bit> b(ops.get(single[w]), k.eval, p);
    eoPop<Bit> before = pop;
    b(pop, o);
    MC_CHECK(o.size() == n && text(pop) == text(before), "offspring", "gave " << text(o) << " from " << text(before));
    for (unsigned i = 0; i < n; ++i) MC_CHECK(!o[i].invalid(), "unevaluated:offspring", text(o));
    // parents are taken in any order, each once unless the operator draws a second one
    std::vector<double> fp, fo;
    for (unsigned i = 0; i < n; ++i) { fp.push_back(pop[i].fitness()); fo.push_back(o[i].fitness()); }
    std::sort(fp.begin(), fp.end()); std::sort(fo.begin(), fo.end());
    for (unsigned i = 0; p == 1 && i < n; ++i)
        MC_CHECK(fo[i] >= fp[w == 1 ? 0 : i], "better", text(pop) << " gave " << text(o));
}

// ---- other algorithms -----------------------------------------------------
MC_SCENARIO("simple GA")
{
    Kit<Bit> k;
    unsigned n = mc::range(1, 3), gens = mc::range(1, n == 3 ? 1 : 2);
    eoPop<Bit> pop = some_pop<Bit>(n, false);
    coins(2);
    begin(pop, false);
    Cont<Bit> cont(gens);
    eoSGA<Bit> a(k.next, k.fquad, 0.5, k.fmon, 0.5, k.eval, cont);
    go(a, pop, gens);
}
MC_SCENARIO("fast GA")
{
    Kit<Bit> k;
    unsigned n = mc::range(1, 2), gens = mc::range(1, 2), off = mc::choose(3);
    eoPop<Bit> pop = gens == 1 ? any_pop<Bit>(n, true) : some_pop<Bit>(n, true);
    coins(2);
    unsigned w = mc::choose(3);
    begin(pop, w > 0);
    if (w == 0 && off && off != n) mc::prune();
    if (w == 2 && off && off < n) mc::prune();
    eoReplacement<Bit>* menu[] = { &k.gen, &k.plus, &k.weak };
    Replace<Bit> rep(*menu[w]);
    Cont<Bit> cont(gens);
    PopEval<Bit> pe(k.eval);
    eoFastGA<Bit> a(0.5, k.next, k.fquad, k.next, 0.5, k.next, k.fmon, pe, rep, cont, off);
    if (w == 2 && off > n) mc::prune();
    go(a, pop, gens);
}
struct Ring : eoCellularEasyEA<Bit>
{
    using eoCellularEasyEA<Bit>::eoCellularEasyEA;
    eoPop<Bit> neighbours(const eoPop<Bit>& p, int r)
    {
        eoPop<Bit> q;
        q.push_back(p[(r + 1) % p.size()]);
        return q;
    }
};
MC_SCENARIO("cellular EA")
{
    Kit<Bit> k;
    unsigned n = mc::range(1, 2), gens = n == 1 ? 3 : 2;
    eoPop<Bit> pop = n == 1 ? any_pop<Bit>(n, true) : some_pop<Bit>(n, true);
    eoBestSelect<Bit> best;
    bool eli = mc::flag();
    begin(pop, eli);
    Cont<Bit> cont(gens);
    Ring a(cont, k.eval, k.next, k.fquad, k.fmon, k.next, eli ? static_cast<eoSelectOne<Bit>&>(best) : k.next);
    std::vector<double> before;
    for (auto& x : pop) before.push_back(x.fitness());
    go(a, pop, gens);
    // with best-of-two replacement no cell ever gets worse
    if (eli) for (unsigned i = 0; i < n; ++i) MC_CHECK(pop[i].fitness() >= before[i], "cell", "cell " << i << " went from " << before[i] << " to " << text(pop[i]));
}
struct AnyInit : eoInit<Bit>
{
    unsigned calls = 0;
    void operator()(Bit& b) { ++calls; b = bits_of<Bit>(BITS, mc::choose(4)); b.invalidate(); }
};
MC_SCENARIO("restarts start from fresh evaluated populations of the right size")
{
    Kit<Bit> k;
    AnyInit init;
    unsigned n = mc::range(1, 2), m = n, restarts = 2;
    eoPop<Bit> pop = some_pop<Bit>(n, true);
    PopEval<Bit> pe(k.eval);
    struct Inner : eoAlgo<Bit>
    {
        AnyInit& init; unsigned calls = 0, seen = 0;
        Inner(AnyInit& i) : init(i) {}
        void operator()(eoPop<Bit>& p)
        {
            ++calls;
            MC_CHECK(p.size() == log().nominal, "restart:size", "restart " << calls << " has " << p.size() << " individuals instead of " << log().nominal);
            MC_CHECK(init.calls - seen >= p.size(), "restart:old", "restart " << calls << " reused old individuals");
            seen = init.calls;
            for (auto& x : p) MC_CHECK(!x.invalid(), "restart:unevaluated", text(p));
        }
    } inner(init);
    Cont<Bit> outer(restarts);
    unsigned w = mc::choose(4);
    if (w == 3) m = 2;
    begin(pop, false);
    log().nominal = m;
    switch (w) {
    case 0: { eoAlgoRestart<Bit> a(init, pe, inner, outer); go(a, pop, restarts); break; }
    case 1: { eoAlgoRestart<Bit> a(init, k.eval, inner, outer); go(a, pop, restarts); break; }
    case 2: { eoAlgoPopReset<Bit> r(init, pe); eoAlgoRestart<Bit> a(pe, inner, outer, r); go(a, pop, restarts); break; }
    default: { eoAlgoPopReset<Bit> r(init, pe, 2); eoAlgoResetCombine<Bit> c(r); eoAlgoRestart<Bit> a(k.eval, inner, outer, c); go(a, pop, restarts); break; }
    }
    MC_CHECK(inner.calls == restarts, "restarts", "the algorithm ran " << inner.calls << " times");
}
MC_SCENARIO("distribution based algorithm")
{
    struct D : eoDistribution<Bit>
    {
        void operator()(Bit& b) { b = bits_of<Bit>(BITS, mc::choose(4)); b.invalidate(); }
        std::string className() const { return "D"; }
        void readFrom(std::istream&) {}
        void printOn(std::ostream&) const {}
    } d;
    struct U : eoDistribUpdater<Bit>
    {
        unsigned calls = 0;
        void operator()(eoDistribution<Bit>&, eoPop<Bit>& p)
        {
            ++calls;
            for (auto& x : p) MC_CHECK(!x.invalid() && !stale(x), "eda:update", "the distribution was updated from " << text(p));
        }
    } u;
    Eval<Bit> eval;
    unsigned n = mc::range(1, 3), gens = mc::range(1, 2);
    if (n == 3 && gens == 2) mc::prune();
    fresh(n); the_pop = 0; elitist = false;
    Cont<Bit> cont(gens);
    eoSimpleEDA<Bit> a(u, eval, n, cont);
    a(d);
    MC_CHECK(log().conts == gens && u.calls == gens, "generations", "ran " << log().conts << " generations, " << u.calls << " updates");
}

// ---- real components together, long runs ----------------------------------
template <class T> static void whole(unsigned gens, unsigned dev, unsigned span)
{
    mc::rng_deviate(3, dev, span, 5);
    eoPop<T> pop;
    for (unsigned i = 0; i < 4; ++i) pop.push_back(bits_of<T>(2, i));
    Mute mute;
    Eval<T> eval;
    eoDetTournamentSelect<T> t(2); eoStochTournamentSelect<T> st(0.8);
    eo1PtBitXover<T> x1; eoUBitXover<T> ux;
    eoBitMutation<T> m1(0.3); eoOneBitFlip<T> m3;
    eoPropCombinedQuadOp<T> q(x1, 1); q.add(ux, 1);
    eoPropCombinedMonOp<T> m(m1, 1); m.add(m3, 1);
    Kit<T> k;
    eoEPReplacement<T> ep(2); eoSSGAStochTournamentReplacement<T> ss(0.8);
    struct R { eoReplacement<T>* r; bool e; } menu[] = { { &ep, false }, { &k.plus, true }, { &k.weak, true }, { &k.gen, false }, { &k.mr, true } };
    R r = menu[mc::choose(5)];
    begin(pop, r.e);
    Replace<T> rep(*r.r);
    eoSelectOne<T>& s = mc::flag() ? static_cast<eoSelectOne<T>&>(t) : st;
    Cont<T> cont(gens);
    eoSGATransform<T> tr(q, 0.6, m, 0.6);
    eoSequentialOp<T> seq; seq.add(q, 0.6); seq.add(m, 0.6);
    eoSelectPerc<T> sp(s);
    if (mc::flag()) { eoEasyEA<T> a(cont, eval, sp, tr, rep); go(a, pop, gens); }
    else { eoGeneralBreeder<T> b(s, seq); eoEasyEA<T> a(cont, eval, b, rep); go(a, pop, gens); }
}
MC_SCENARIO("real components, one deviation in six generations") { whole<Bit>(6, 1, 400); }
MC_SCENARIO("real components, two deviations in two generations") { whole<BitMin>(2, 2, mc::tier(60u, 120u)); }
