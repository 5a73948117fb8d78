// E01: a solution marked as evaluated carries the fitness of its genotype.
#include "ea.hpp"
#include <other/eoExternalEO.h>
#include <other/eoExternalOpFunctions.h>
#include <eoOneToOneBreeder.h>
#include <eoSGAGenOp.h>
#include <eoPropGAGenOp.h>
#include <eoCellularEasyEA.h>
#include <eoAlgoReset.h>
#include <eoAlgoRestart.h>
#include <eoFastGA.h>
#include <eoCombinedInit.h>
#include <eoRealToIntInit.h>
using namespace ea;

namespace ea
{
template <class T> void look(const char* where, const T& s)
{
    MC_CHECK(!stale(s), std::string("stale:") + where, "at " << where << ": " << text(s) << " but the objective is " << objective(s));
}
template <class T> void generation(const eoPop<T>& p)
{
    for (auto& x : p) MC_CHECK(!x.invalid(), "unevaluated", "after a generation: " << text(p));
}
}

template <class T, class A> void go(A& algo, eoPop<T>& pop)
{
    try { algo(pop); }
    catch (Thrown&) { mc::note("evaluation aborted"); }
    for (auto& x : pop) look("end of run", x);
    mc::sample(text(pop));
}

template <class T> static void transform(unsigned n, unsigned gens, bool few, unsigned flavour)
{
    Kit<T> k;
    eoPop<T> pop = few ? some_pop<T>(n, false) : any_pop<T>(n, false);
    fresh(n);
    coins();
    eoMonOp<T>& m = few ? static_cast<eoMonOp<T>&>(k.fmon) : k.mon;
    eoQuadOp<T>& q = few ? static_cast<eoQuadOp<T>&>(k.fquad) : k.quad;
    if (mc::flag()) log().throw_at = mc::range(1, 2 * n * gens);
    Replace<T> rep(*k.all[mc::choose(k.all.size())]);
    Cont<T> cont(gens);
    eoSGATransform<T> t1(q, 0.5, m, 0.5);
    eoDynSGATransform<T> t2(q, 0.5, m, 0.5);
    eoTransform<T>& t = flavour ? static_cast<eoTransform<T>&>(t2) : t1;
    eoSelectPerc<T> sel(k.next);
    PopEval<T> pe(k.eval);
    switch (few ? 0 : mc::choose(2)) {
    case 0: { eoEasyEA<T> algo(cont, k.eval, sel, t, rep); go(algo, pop); break; }
    default: { eoEasyEA<T> algo(cont, pe, sel, t, rep); go(algo, pop); break; }
    }
}
MC_SCENARIO("select+transform one generation pop 1") { transform<Bit>(1, 1, false, mc::choose(2)); }
MC_SCENARIO("select+transform one generation pop 2") { transform<Bit>(2, 1, false, 0); }
MC_SCENARIO("dynamic transform one generation pop 2") { transform<Bit>(2, 1, false, 1); }
MC_SCENARIO("select+transform one generation pop 3") { transform<Bit>(3, 1, true, mc::choose(2)); }
MC_SCENARIO("select+transform two generations pop 2") { transform<Bit>(2, 2, true, mc::choose(2)); }
MC_SCENARIO("select+transform minimising") { transform<BitMin>(2, 1, false, 0); }
MC_SCENARIO_T("select+transform three generations pop 2") { transform<Bit>(2, 3, true, 0); }

// ---- general operators ----------------------------------------------------
template <class T> static void breeder(unsigned which, unsigned n, unsigned gens, bool few)
{
    Kit<T> k;
    Ops<T> ops(k, few);
    eoPop<T> pop = few ? some_pop<T>(n, false) : any_pop<T>(n, false);
    fresh(n);
    // roulette wheels over three rates need three cells, coins only two
    coins(which == 5 || which == 6 || which == 10 ? 3 : 2);
    Replace<T> rep(few ? static_cast<eoReplacement<T>&>(k.plus) : *k.all[mc::choose(2)]);
    Cont<T> cont(gens);
    eoSelectOne<T>& s = few ? static_cast<eoSelectOne<T>&>(k.next) : k.any;
    eoGeneralBreeder<T> breed(s, ops.get(which), n, false);
    eoEasyEA<T> algo(cont, k.eval, breed, rep);
    go(algo, pop);
}
MC_SCENARIO("general operators one generation pop 1") { breeder<Bit>(mc::choose(Ops<Bit>::count), 1, 1, false); }
MC_SCENARIO("simple operators one generation pop 2") { breeder<Bit>(mc::choose(4), 2, 1, false); }
MC_SCENARIO("general operators one generation pop 2") { breeder<Bit>(mc::choose(Ops<Bit>::count), 2, 1, true); }
MC_SCENARIO("general operators one generation pop 3") { breeder<Bit>(mc::choose(mc::tier(8u, Ops<Bit>::count)), 3, 1, true); }
MC_SCENARIO("simple operators two generations") { breeder<Bit>(mc::choose(mc::tier(4u, 4u)), 2, 2, true); }
MC_SCENARIO("general operators minimising") { breeder<BitMin>(mc::choose(Ops<Bit>::count), 2, 1, true); }
MC_SCENARIO_T("simple operators three generations") { breeder<Bit>(mc::choose(4), 2, 3, true); }

// the same operators applied through a sequential populator that runs out
MC_SCENARIO("sequential populator that runs out")
{
    Kit<Bit> k;
    Ops<Bit> ops(k, true);
    unsigned n = mc::range(1, 3);
    eoPop<Bit> pop = some_pop<Bit>(n, true), dest;
    fresh(n);
    coins(mc::range(2, 3));
    unsigned which = mc::choose(Ops<Bit>::count);
    if (which == 2) mc::prune();
    eoSeqPopulator<Bit> it(pop, dest);
    try { for (int i = 0; i < 2; ++i) { ops.get(which)(it); ++it; } }
    catch (eoPopulator<Bit>::OutOfIndividuals&) { mc::note("ran out"); }
    look("sequential breeding", dest);
    look("sequential breeding", pop);
}

MC_SCENARIO("one to one breeder")
{
    Kit<Bit> k;
    Ops<Bit> ops(k, false);
    unsigned n = mc::range(1, 2), gens = n == 1 ? 2 : 1;
    eoPop<Bit> pop = any_pop<Bit>(n, false);
    fresh(n);
    coins(2);
    Replace<Bit> rep(k.gen);
    Cont<Bit> cont(gens);
    static const unsigned single[] = { 0, 2, 3 };
    eoOneToOneBreeder<Bit> breed(ops.get(single[mc::choose(3)]), k.eval, 0.5);
    eoEasyEA<Bit> algo(cont, k.eval, breed, rep);
    go(algo, pop);
}

MC_SCENARIO("merge and reduce constructors")
{
    Kit<Bit> k;
    Ops<Bit> ops(k, true);
    unsigned n = 2;
    eoPop<Bit> pop = any_pop<Bit>(n, false);
    fresh(n);
    coins(2);
    Cont<Bit> cont(2);
    PopEval<Bit> pe(k.eval);
    Replace<Bit> rep(k.plus);
    eoSelectPerc<Bit> sel(k.next);
    eoSGATransform<Bit> t(k.fquad, 0.5, k.fmon, 0.5);
    eoGeneralBreeder<Bit> breed(k.next, ops.get(mc::choose(2)), 2, false);
    switch (mc::choose(6)) {
    case 0: { eoEasyEA<Bit> a(cont, k.eval, breed, k.merge, k.trunc); go(a, pop); break; }
    case 1: { eoEasyEA<Bit> a(cont, k.eval, sel, t, k.merge, k.trunc); go(a, pop); break; }
    case 2: { eoEasyEA<Bit> a(cont, k.eval, breed, rep, 2); go(a, pop); break; }
    case 3: { eoEasyEA<Bit> a(cont, k.eval, pe, breed, rep, 2); go(a, pop); break; }
    case 4: { eoEasyEA<Bit> a(cont, pe, breed, rep); go(a, pop); break; }
    default: { eoEasyEA<Bit> a(cont, k.eval, breed, rep); go(a, pop); go(a, pop); break; }
    }
}

static void sga(unsigned n, unsigned gens)
{
    Kit<Bit> k;
    eoPop<Bit> pop = gens > 1 ? some_pop<Bit>(n, false) : any_pop<Bit>(n, false);
    fresh(n);
    coins(2);
    if (mc::flag()) log().throw_at = mc::range(1, n * gens);
    Cont<Bit> cont(gens);
    eoMonOp<Bit>& m = gens > 1 || n > 2 ? static_cast<eoMonOp<Bit>&>(k.fmon) : k.mon;
    eoQuadOp<Bit>& q = gens > 1 || n > 2 ? static_cast<eoQuadOp<Bit>&>(k.fquad) : k.quad;
    eoSGA<Bit> algo(k.next, q, 0.5, m, 0.5, k.eval, cont);
    go(algo, pop);
}
MC_SCENARIO("simple GA one generation") { sga(mc::range(1, 3), 1); }
MC_SCENARIO("simple GA two generations") { sga(mc::range(1, 2), 2); }
MC_SCENARIO_T("simple GA three generations") { sga(2, 3); }

static void fastga(unsigned n, unsigned gens, unsigned off)
{
    Kit<Bit> k;
    eoPop<Bit> pop = gens > 1 ? some_pop<Bit>(n, true) : any_pop<Bit>(n, true);
    fresh(n);
    coins(2);
    Cont<Bit> cont(gens);
    PopEval<Bit> pe(k.eval);
    Replace<Bit> rep(k.plus);
    eoMonOp<Bit>& m = gens > 1 ? static_cast<eoMonOp<Bit>&>(k.fmon) : k.mon;
    eoQuadOp<Bit>& q = gens > 1 ? static_cast<eoQuadOp<Bit>&>(k.fquad) : k.quad;
    eoFastGA<Bit> algo(0.5, k.next, q, k.any, 0.5, k.next, m, pe, rep, cont, off);
    go(algo, pop);
}
MC_SCENARIO("fast GA one generation") { fastga(mc::range(1, 2), 1, mc::range(1, 2)); }
MC_SCENARIO("fast GA two generations") { fastga(2, 2, mc::choose(2)); }

struct Ring : eoCellularEasyEA<Bit>
{
    using eoCellularEasyEA<Bit>::eoCellularEasyEA;
    eoPop<Bit> neighbours(const eoPop<Bit>& p, int r)
    {
        eoPop<Bit> q;
        q.push_back(p[(r + 1) % p.size()]);
        return q;
    }
};
MC_SCENARIO("cellular EA")
{
    Kit<Bit> k;
    unsigned n = mc::range(1, 2), gens = n == 1 ? 2 : 1;
    eoPop<Bit> pop = any_pop<Bit>(n, true);
    fresh(n);
    if (mc::flag()) log().throw_at = mc::range(1, 2 * n * gens);
    Cont<Bit> cont(gens);
    Ring algo(cont, k.eval, k.next, k.fquad, k.fmon, k.any, k.any);
    go(algo, pop);
}

struct Any2 : eoInit<Bit>
{
    void operator()(Bit& b) { b = bits_of<Bit>(BITS, mc::choose(4)); b.invalidate(); }
};
MC_SCENARIO("restarted algorithm")
{
    Kit<Bit> k;
    Any2 init;
    unsigned n = mc::range(1, 2);
    eoPop<Bit> pop = some_pop<Bit>(n, false);
    fresh(n);
    coins(2);
    struct Forever : eoContinue<Bit> { bool operator()(const eoPop<Bit>& p) { look("continuator", p); return false; } } once;
    Cont<Bit> outer(2);
    PopEval<Bit> pe(k.eval);
    eoMonGenOp<Bit> g(k.fmon);
    eoGeneralBreeder<Bit> breed(k.next, g, n, false);
    eoEasyEA<Bit> inner(once, k.eval, breed, k.plus);
    switch (mc::choose(4)) {
    case 0: { eoAlgoRestart<Bit> a(init, pe, inner, outer); go(a, pop); break; }
    case 1: { eoAlgoRestart<Bit> a(init, k.eval, inner, outer); go(a, pop); break; }
    case 2: { eoAlgoPopReset<Bit> r(init, pe); eoAlgoRestart<Bit> a(pe, inner, outer, r); go(a, pop); break; }
    default: { eoAlgoPopReset<Bit> r(init, pe, 2); eoAlgoResetCombine<Bit> c(r); eoAlgoRestart<Bit> a(k.eval, inner, outer, c); go(a, pop); break; }
    }
}

// ---- wrappers that report a change ----------------------------------------
MC_SCENARIO("invalidating wrappers")
{
    Kit<Bit> k;
    Bit a = any_bits<Bit>(BITS), b = any_bits<Bit>(BITS);
    if (mc::flag()) a.fitness(objective(a));
    if (mc::flag()) b.fitness(objective(b));
    bool va = !a.invalid(), vb = !b.invalid();
    Bit a0 = a, b0 = b;
    unsigned w = mc::choose(3);
    bool r;
    if (w == 0) { eoInvalidateMonOp<Bit> o(k.mon); r = o(a); }
    else if (w == 1) { eoInvalidateBinOp<Bit> o(k.bin); r = o(a, b); }
    else { eoInvalidateQuadOp<Bit> o(k.quad); r = o(a, b); }
    look("wrapped operator", a); look("wrapped operator", b);
    if (!r) MC_CHECK(!a.invalid() == va && !b.invalid() == vb, "needless", "unchanged solutions lost their fitness");
    if (w == 1) MC_CHECK(!b.invalid() == vb, "needless", "the read-only operand lost its fitness");
}
MC_SCENARIO("combined operators")
{
    Kit<Bit> k;
    Bit a = any_bits<Bit>(BITS), b = any_bits<Bit>(BITS);
    a.fitness(objective(a)); b.fitness(objective(b));
    coins(6);
    unsigned w = mc::choose(2);
    if (w == 0) {
        AnyMon<Bit> other;
        eoPropCombinedMonOp<Bit> c(k.mon, 1); c.add(other, 1);
        eoInvalidateMonOp<Bit> o(c); o(a);
    } else {
        FewQuad<Bit> other;
        eoPropCombinedQuadOp<Bit> c(k.quad, 1); c.add(other, 2);
        eoInvalidateQuadOp<Bit> o(c); o(a, b);
    }
    look("combined operator", a); look("combined operator", b);
}

// ---- initialisers leave no old fitness behind -----------------------------
template <class T> static void after_init(const char* name, const T& x)
{
    MC_CHECK(x.invalid(), std::string("init:") + name, name << " left a solution marked as evaluated");
}
struct G01 : eoRndGenerator<bool> { bool operator()() { return mc::flag(); } };
MC_SCENARIO("initialisers")
{
    coins(3);
    switch (mc::choose(9)) {
    case 0: { G01 g; eoInitFixedLength<Bit> i(2, g); Bit b = any_bits<Bit>(mc::choose(3)); b.fitness(1); i(b); after_init("fixed length", b); break; }
    case 1: {
        struct One : eoInit<Bit> { void operator()(Bit& b) { b = Bit(1, true); } };
        typedef eoVector<double, int> V;
        struct Atom : eoInit<int> { void operator()(int& x) { x = 1; } } atom;
        eoInitVariableLength<V> i(1, 3, atom); V v; v.resize(mc::choose(3)); v.fitness(1); i(v); after_init("variable length", v); break; }
    case 2: { eoInitPermutation<Perm> i(2); Perm p; p.resize(2); p.fitness(1); i(p); after_init("permutation", p); break; }
    case 3: { eoRealVectorBounds bd(2, 0, 1); eoRealInitBounded<Real> i(bd); Real r(2, 0.5); r.fitness(1); i(r); after_init("real", r); break; }
    case 4: { typedef eoEsSimple<double> E; eoRealVectorBounds bd(2, 0, 1); eoEsChromInit<E> i(bd); E e; e.resize(2); e.fitness(1); i(e); after_init("ES simple", e); break; }
    case 5: { typedef eoEsStdev<double> E; eoRealVectorBounds bd(2, 0, 1); eoEsChromInit<E> i(bd); E e; e.resize(2); e.fitness(1); i(e); after_init("ES stdev", e); break; }
    case 6: { typedef eoEsFull<double> E; eoRealVectorBounds bd(2, 0, 1); eoEsChromInit<E> i(bd); E e; e.resize(2); e.fitness(1); i(e); after_init("ES full", e); break; }
    case 7: { G01 g; eoInitFixedLength<Bit> i(2, g); G01 h; eoInitFixedLength<Bit> j(3, h); eoCombinedInit<Bit> c(i, 1); c.add(j, 1); Bit b(2, true); b.fitness(1); c(b); after_init("combined", b); break; }
    default: { eoRealVectorBounds bd(2, 0, 3); eoRealInitBounded<Real> i(bd); eoIntInterval ib(0, 3); eoRealToIntInit<Perm, Real> c(i, ib); Perm p; p.resize(2); p.fitness(1); c(p); after_init("real to int", p); break; }
    }
}

// ---- populations ----------------------------------------------------------
MC_SCENARIO("copying, growing, appending and sorting populations")
{
    unsigned n = mc::range(1, 3);
    eoPop<Bit> pop = any_pop<Bit>(n, mc::flag());
    Any2 init;
    coins(3);
    for (int step = 0; step < 2; ++step) {
        switch (mc::choose(8)) {
        case 0: pop.append(unsigned(pop.size() + 1), init); break;
        case 1: { eoPop<Bit> q = pop; pop = q; break; }
        case 2: { eoPop<Bit> q; q.push_back(bits_of<Bit>(BITS, 1)); q.swap(pop); pop.swap(q); break; }
        case 3: { bool v = true; for (auto& x : pop) v = v && !x.invalid(); if (!v) mc::prune(); pop.sort(); break; }
        case 4: pop.shuffle(); break;
        case 5: { std::stringstream s; s << pop; eoPop<Bit> q; q.readFrom(s); pop = q; break; }
        case 6: { bool v = true; for (auto& x : pop) v = v && !x.invalid(); if (!v) mc::prune();
                  if (pop.size() < 2) mc::prune(); pop.nth_element(0); break; }
        default: { if (pop.size() < 2) mc::prune(); std::swap(pop[0], pop[1]); break; }
        }
        look("population operation", pop);
    }
}
MC_SCENARIO("fitness of an unevaluated solution cannot be read")
{
    Bit b = any_bits<Bit>(BITS);
    if (mc::flag()) { b.fitness(3); b.invalidate(); }
    bool thrown = false;
    try { b.fitness(); } catch (std::exception&) { thrown = true; }
    MC_CHECK(thrown, "unreadable", "reading an invalid fitness gave a value");
    Bit c(b); MC_CHECK(c.invalid(), "copy", "copying made an invalid solution valid");
    c.fitness(4); Bit d; d = c; MC_CHECK(!d.invalid() && d.fitness() == 4, "copy", "copying lost the fitness");
    d = b; MC_CHECK(d.invalid(), "copy", "assignment kept the old fitness");
}

// ---- real components together ---------------------------------------------
struct RealEval : eoEvalFunc<Bit>
{
    void operator()(Bit& s) { look("evaluation", s); if (s.invalid()) s.fitness(objective(s)); }
};
static void whole(unsigned gens, unsigned dev, unsigned span)
{
    mc::rng_deviate(3, dev, span, 11);
    RealEval eval;
    eoPop<Bit> pop;
    for (unsigned i = 0; i < 3; ++i) { Bit b = bits_of<Bit>(3, i * 2 + 1); pop.push_back(b); }
    eoDetTournamentSelect<Bit> t(2); eoStochTournamentSelect<Bit> st(0.8); eoProportionalSelect<Bit>* pr = 0;
    eo1PtBitXover<Bit> x1; eoUBitXover<Bit> ux; eoNPtsBitXover<Bit> nx(2);
    eoBitMutation<Bit> m1(0.3); eoDetBitFlip<Bit> m2(1); eoOneBitFlip<Bit> m3; eoBitInversion<Bit> m4;
    eoPropCombinedQuadOp<Bit> q(x1, 1); q.add(ux, 1); q.add(nx, 1);
    eoPropCombinedMonOp<Bit> m(m1, 1); m.add(m2, 1); m.add(m3, 1); m.add(m4, 1);
    eoGenContinue<Bit> gc(gens); 
    struct C : eoContinue<Bit> { eoContinue<Bit>& c; C(eoContinue<Bit>& c) : c(c) {} bool operator()(const eoPop<Bit>& p) { look("continuator", p); generation(p); mc::state(fingerprint(p)); return c(p); } } cont(gc);
    Mute mute;
    eoEPReplacement<Bit> ep(2); eoPlusReplacement<Bit> plus; eoSSGAStochTournamentReplacement<Bit> ss(0.8); eoGenerationalReplacement<Bit> g; eoWeakElitistReplacement<Bit> w(g);
    eoReplacement<Bit>* reps[] = { &ep, &plus, &ss, &w };
    Replace<Bit> rep(*reps[mc::choose(4)]);
    eoSelectOne<Bit>* sels[] = { &t, &st };
    eoSelectOne<Bit>& s = *sels[mc::choose(2)];
    eoSGATransform<Bit> tr(q, 0.6, m, 0.6);
    eoSequentialOp<Bit> seq; seq.add(q, 0.6); seq.add(m, 0.6);
    eoPropGAGenOp<Bit> pg(1, q, 2, m, 2);
    eoSelectPerc<Bit> sp(s);
    switch (mc::choose(3)) {
    case 0: { eoEasyEA<Bit> a(cont, eval, sp, tr, rep); a(pop); break; }
    case 1: { eoGeneralBreeder<Bit> b(s, seq); eoEasyEA<Bit> a(cont, eval, b, rep); a(pop); break; }
    default: { eoGeneralBreeder<Bit> b(s, pg); eoEasyEA<Bit> a(cont, eval, b, rep); a(pop); break; }
    }
    look("end of run", pop);
}
MC_SCENARIO("real components, one deviation anywhere in four generations") { whole(4, 1, 200); }
MC_SCENARIO("real components, two deviations in two generations") { whole(2, 2, mc::tier(60u, 110u)); }

// ---- genotypes and functions the library knows nothing about ----------------
struct Foreign { int v = 0; };
static std::ostream& operator<<(std::ostream& o, const Foreign& f) { return o << f.v; }
static std::istream& operator>>(std::istream& i, Foreign& f) { return i >> f.v; }
static bool foreign_flag; static int foreign_evals;
static Foreign foreign_init() { Foreign f; f.v = 7; return f; }
static double foreign_eval(const Foreign& f) { ++foreign_evals; return f.v * 3; }
static bool foreign_mon(Foreign& f) { if (foreign_flag) f.v += 1; return foreign_flag; }
static bool foreign_bin(Foreign& f, const Foreign& g) { if (foreign_flag) f.v += 10 * g.v + 1; return foreign_flag; }
static bool foreign_quad(Foreign& f, Foreign& g) { if (foreign_flag) { f.v += 100; g.v += 200; } return foreign_flag; }
MC_SCENARIO("foreign genotypes and functions")
{
    typedef eoExternalEO<double, Foreign> X;
    eoExternalInit<double, Foreign> init(foreign_init);
    eoExternalEvalFunc<double, Foreign> eval(foreign_eval);
    eoExternalMonOp<double, Foreign> mon(foreign_mon);
    eoExternalBinOp<double, Foreign> bin(foreign_bin);
    eoExternalQuadOp<double, Foreign> quad(foreign_quad);
    eoFunctorStore store;
    eoPop<X> p; p.resize(2);
    for (int i = 0; i < 2; ++i) { p[i].v = i + 1; if (mc::flag()) { p[i].fitness(p[i].v * 3); } }
    unsigned len = mc::tier(3, 4);
    std::string did;
    int want[2] = {1, 2};
    for (unsigned k = 0; k < len; ++k) {
        int op = mc::range(0, 5);
        foreign_flag = op < 3 && mc::flag();
        did += "mbqies"[op]; if (op < 3) did += foreign_flag ? "+" : "-";
        bool had[2] = {!p[0].invalid(), !p[1].invalid()};
        if (op < 3) {
            // through the pipeline, which must drop the evaluation of exactly the changed ones
            eoPop<X> dest;
            eoSeqPopulator<X> it(p, dest);
            eoOp<X>& o = op == 0 ? static_cast<eoOp<X>&>(mon) : op == 1 ? static_cast<eoOp<X>&>(bin) : quad;
            wrap_op<X>(o, store)(it);
            if (foreign_flag) { if (op == 0) want[0] += 1; if (op == 1) want[0] += 10 * want[1] + 1; if (op == 2) { want[0] += 100; want[1] += 200; } }
            for (size_t i = 0; i < dest.size(); ++i) {
                p[i] = dest[i];
                bool changed = foreign_flag && (i == 0 || op == 2);
                MC_CHECK(p[i].invalid() == (changed || !had[i]), "foreign:invalidate", did << ": solution " << i << (p[i].invalid() ? " lost" : " kept") << " its evaluation");
            }
            MC_CHECK(dest.size() == (op == 2 ? 2u : 1u), "foreign:number", dest.size());
        }
        if (op == 3) { init(p[0]); want[0] = 7; MC_CHECK(p[0].invalid(), "foreign:initialise", "an initialised solution is evaluated"); }
        if (op == 4) { foreign_evals = 0; for (auto& x : p) eval(x); MC_CHECK(foreign_evals == !had[0] + !had[1] && !p[0].invalid() && !p[1].invalid(), "foreign:evaluate", foreign_evals << " evaluations"); }
        if (op == 5) { std::stringstream s; s << p[0]; X y; s >> y; MC_CHECK(y.v == p[0].v && y.invalid() == p[0].invalid(), "foreign:text", s.str()); p[0] = y; }
        for (int i = 0; i < 2; ++i) {
            MC_CHECK(p[i].v == want[i], "foreign:genotype", did << ": solution " << i << " is " << p[i].v << " instead of " << want[i]);
            if (!p[i].invalid()) MC_CHECK(double(p[i].fitness()) == p[i].v * 3, "foreign:stale", did << ": solution " << p[i].v << " has fitness " << double(p[i].fitness()));
        }
        mc::step();
    }
    mc::state(mc::hash(did + std::to_string(p[0].v)));
}
