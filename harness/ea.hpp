// A most general environment for evolutionary algorithms on tiny bit strings:
// operators, selectors and evaluators written here may do, by choice, anything
// an honest one may do, so that one exploration stands for all of them.  Each
// of them looks at what it is given and calls look(), which the including
// harness defines for its property.
#pragma once
#include "common.hpp"
#include <eoOneToOneBreeder.h>
#include <eoSGAGenOp.h>
#include <eoPropGAGenOp.h>
#include <eoCellularEasyEA.h>
#include <eoAlgoReset.h>
#include <eoAlgoRestart.h>
#include <eoFastGA.h>
#include <eoSimpleEDA.h>

namespace ea
{
const unsigned BITS = 2;

template <class T> struct Sign { static const int value = 1; };
template <> struct Sign<BitMin> { static const int value = -1; };

// objective: one value per genotype, never 0
template <class T> double objective(const T& b)
{
    static const double order[8] = { 3, 9, 5, 7, 2, 8, 4, 6 };
    return order[num_of(b) & 7] + 10 * b.size();
}
template <class T> bool stale(const T& b)
{
    return !b.invalid() && double(b.fitness()) != objective(b);
}
template <class T> std::string text(const T& b)
{
    std::ostringstream os;
    for (unsigned i = 0; i < b.size(); ++i) os << b[i];
    if (b.invalid()) os << ":-"; else os << ":" << double(b.fitness());
    return os.str();
}
template <class T> std::string text(const eoPop<T>& p)
{
    std::string s = "{";
    for (size_t i = 0; i < p.size(); ++i) s += (i ? " " : "") + text(p[i]);
    return s + "}";
}
template <class T> uint64_t fingerprint(const eoPop<T>& p)
{
    uint64_t h = p.size();
    for (auto& x : p) h = mc::mix(h, num_of(x) * 2 + x.invalid());
    return h;
}

// what one run records
struct Log
{
    unsigned evals = 0, calls = 0, conts = 0, replaces = 0, selects = 0, throw_at = 0;
    bool cont_done = false;
    std::vector<double> best;
    size_t nominal = 0;
};
inline Log& log() { static Log l; return l; }
struct Thrown {};

// defined by the harness
template <class T> void look(const char* where, const T& sol);
template <class T> void look(const char* where, const eoPop<T>& pop)
{
    for (auto& x : pop) look(where, x);
}
template <class T> void generation(const eoPop<T>& pop);

template <class T> struct Eval : eoEvalFunc<T>
{
    void operator()(T& s)
    {
        look("evaluation", s);
        ++log().calls;
        if (log().throw_at && log().calls == log().throw_at) throw Thrown();
        if (s.invalid()) { ++log().evals; s.fitness(objective(s)); }
    }
};
// any individual
template <class T> struct AnyOne : eoSelectOne<T>
{
    void setup(const eoPop<T>& p) { look("selection setup", p); }
    const T& operator()(const eoPop<T>& p)
    {
        look("selection", p);
        ++log().selects;
        return p[mc::choose(uint32_t(p.size()))];
    }
};
// first individual that is good enough to keep runs small
template <class T> struct NextOne : eoSelectOne<T>
{
    size_t next = 0;
    const T& operator()(const eoPop<T>& p)
    {
        look("selection", p);
        ++log().selects;
        return p[next++ % p.size()];
    }
};
template <class T> struct AnyMon : eoMonOp<T>
{
    bool operator()(T& s)
    {
        switch (mc::choose(3)) {
        case 0: return false;
        case 1: s[0] = !s[0]; return true;
        default: s[1] = !s[1]; return true;
        }
    }
};
// one outcome less
template <class T> struct FewMon : eoMonOp<T>
{
    bool operator()(T& s)
    {
        if (mc::flag()) { s[0] = !s[0]; return true; }
        return false;
    }
};
template <class T> struct AnyBin : eoBinOp<T>
{
    bool operator()(T& a, const T& b)
    {
        if (mc::choose(2) == 0 || a[0] == b[0]) return false;
        a[0] = b[0];
        return true;
    }
};
template <class T> struct AnyQuad : eoQuadOp<T>
{
    bool operator()(T& a, T& b)
    {
        switch (mc::choose(3)) {
        case 0: return false;
        case 1: { bool x = a[0]; a[0] = b[0]; b[0] = x; return true; }
        default: a[1] = !b[1]; return true;           // only one side changed
        }
    }
};
template <class T> struct FewQuad : eoQuadOp<T>
{
    bool operator()(T& a, T& b)
    {
        if (mc::flag()) { bool x = a[0]; a[0] = b[0]; b[0] = x; return true; }
        return false;
    }
};
template <class T> struct Cont : eoContinue<T>
{
    unsigned total, left;
    Cont(unsigned n) : total(n), left(n) {}
    bool operator()(const eoPop<T>& p)
    {
        look("continuator", p);
        ++log().conts;
        generation(p);
        mc::state(fingerprint(p));
        mc::step();
        if (--left > 0) return true;
        left = total;
        return false;
    }
};
template <class T> struct Replace : eoReplacement<T>
{
    eoReplacement<T>& r;
    Replace(eoReplacement<T>& r) : r(r) {}
    void operator()(eoPop<T>& p, eoPop<T>& o)
    {
        look("replacement", p); look("replacement", o);
        ++log().replaces;
        r(p, o);
        look("replacement", p);
    }
};
template <class T> struct PopEval : eoPopEvalFunc<T>
{
    Eval<T>& e;
    PopEval(Eval<T>& e) : e(e) {}
    void operator()(eoPop<T>& p, eoPop<T>& o)
    {
        look("population evaluation", p);
        look("population evaluation", o);
        for (auto& x : o) e(x);
    }
};

// every population of n genotypes, each evaluated or not, or all evaluated
template <class T> eoPop<T> any_pop(unsigned n, bool evaluated)
{
    eoPop<T> p;
    for (unsigned i = 0; i < n; ++i) {
        T b = any_bits<T>(BITS);
        b.invalidate();
        if (evaluated || mc::flag()) b.fitness(objective(b));
        p.push_back(b);
    }
    return p;
}
// a few populations: all different, equal, mixed
template <class T> eoPop<T> some_pop(unsigned n, bool evaluated)
{
    static const unsigned menu[3][4] = { { 0, 1, 2, 3 }, { 2, 2, 1, 2 }, { 3, 0, 0, 1 } };
    unsigned k = mc::choose(3);
    eoPop<T> p;
    for (unsigned i = 0; i < n; ++i) {
        T b = bits_of<T>(BITS, menu[k][i % 4]);
        b.invalidate();
        if (evaluated || i % 2) b.fitness(objective(b));
        p.push_back(b);
    }
    return p;
}
inline void fresh(size_t nominal)
{
    log() = Log();
    log().nominal = nominal;
}
// flips with probability one half are free; roulette wheels see k cells
inline void coins(unsigned k = 2, unsigned limit = 40) { mc::rng_grid(k, limit); }

template <class T> struct Kit
{
    Eval<T> eval; AnyOne<T> any; NextOne<T> next; AnyMon<T> mon; AnyQuad<T> quad; AnyBin<T> bin;
    FewMon<T> fmon; FewQuad<T> fquad;
    eoGenerationalReplacement<T> gen; eoPlusReplacement<T> plus; eoCommaReplacement<T> comma;
    eoSSGAWorseReplacement<T> ssga; eoWeakElitistReplacement<T> weak;
    eoElitism<T> elite; eoPlus<T> merge; eoTruncate<T> trunc; eoMergeReduce<T> mr;
    std::vector<eoReplacement<T>*> all;
    Kit() : weak(gen), elite(1, false), mr(elite, trunc)
    {
        all = { &gen, &plus, &comma, &ssga, &weak, &mr };
    }
};

template <class T> struct Ops
{
    Kit<T>& k;
    eoMonOp<T>& m; eoQuadOp<T>& q;
    eoMonGenOp<T> gm; eoQuadGenOp<T> gq; eoBinGenOp<T> gb; eoSelBinGenOp<T> gsb;
    eoSequentialOp<T> seq; eoProportionalOp<T> prop; eoSequentialOp<T> nest; eoProportionalOp<T> prop2;
    eoSequentialOp<T> chain; eoSGAGenOp<T> sga; eoPropGAGenOp<T> pga;
    Ops(Kit<T>& k, bool few) : k(k), m(few ? static_cast<eoMonOp<T>&>(k.fmon) : k.mon), q(few ? static_cast<eoQuadOp<T>&>(k.fquad) : k.quad),
        gm(m), gq(q), gb(k.bin), gsb(k.bin, k.next), sga(q, 0.5, m, 0.5), pga(1, q, 1, m, 1)
    {
        seq.add(q, 0.5); seq.add(m, 0.5);
        prop.add(q, 1); prop.add(m, 1); prop.add(k.bin, 1);
        nest.add(prop, 1.0); nest.add(m, 0.5);
        prop2.add(seq, 1); prop2.add(m, 1);
        chain.add(m, 1.0); chain.add(k.bin, 1.0); chain.add(q, 1.0);
    }
    eoGenOp<T>& get(unsigned i)
    {
        eoGenOp<T>* all[] = { &gm, &gq, &gb, &gsb, &seq, &prop, &nest, &prop2, &chain, &sga, &pga };
        return *all[i];
    }
    static const unsigned count = 11;
};
}
