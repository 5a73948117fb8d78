// Assembly of algorithms from encoded choices: forges, foundries and their evaluation.
#include "common.hpp"
#include <eoForge.h>
#include <eoAlgoFoundry.h>
#include <eoAlgoFoundryEA.h>
#include <eoAlgoFoundryFastGA.h>
#include <eoEvalFoundryEA.h>
#include <map>
#include <set>

// ------------------------------------------------------------------ forges
static int alive = 0;
struct Part
{
    int kind, a;
    double b;
    std::vector<int>* shared;
    Part(int k, int x, double y, std::vector<int>* s) : kind(k), a(x), b(y), shared(s) { ++alive; }
    Part(const Part& o) : kind(o.kind), a(o.a), b(o.b), shared(o.shared) { ++alive; }
    virtual ~Part() { --alive; }
    virtual std::string className() const { return "Part"; }
    std::string text() const { std::ostringstream o; o << kind << ':' << a << ':' << b << ':' << (shared ? 1 : 0); return o.str(); }
};
struct Plain : Part { Plain() : Part(0, 1, 2, nullptr) {} };
struct One : Part { One(int x) : Part(1, x, 0, nullptr) {} };
struct Two : Part { Two(int x, double y) : Part(2, x, y, nullptr) {} };
struct Ref : Part { Ref(std::vector<int>& s, int x) : Part(3, x, 0, &s) {} };

struct Slot { std::string text; Part* last = nullptr; bool made = false, made_ptr = false; std::shared_ptr<Part> keep; };
static std::vector<int> shared_data;

template <class F> static void declare(F& add, Slot& s, int what)
{
    // arguments are temporaries that disappear after the call
    switch (what) {
        case 0: add.template operator()<Plain>(); s.text = "0:1:2:0"; break;
        case 1: add.template operator()<One>(int(7)); s.text = "1:7:0:0"; break;
        case 2: { int x = 3; double y = 0.5; add.template operator()<Two>(x, y); x = 99; y = 99; s.text = "2:3:0.5:0"; break; }
        default: add.template operator()<Ref>(std::ref(shared_data), 4); s.text = "3:4:0:1"; break;
    }
    s.last = nullptr; s.made = s.made_ptr = false; s.keep.reset();
}
struct VecAdd { eoForgeVector<Part>& f; template <class Op, class... A> void operator()(A... a) { f.template add<Op>(a...); } };
struct VecSet { eoForgeVector<Part>& f; size_t i; template <class Op, class... A> void operator()(A... a) { f.template setup<Op>(i, a...); } };
struct MapAdd { eoForgeMap<Part>& f; std::string n; template <class Op, class... A> void operator()(A... a) { f.template add<Op>(n, a...); } };
struct MapSet { eoForgeMap<Part>& f; std::string n; template <class Op, class... A> void operator()(A... a) { f.template setup<Op>(n, a...); } };

static void judge_ref(Part& p, Slot& s, bool fresh)
{
    MC_CHECK(p.text() == s.text, "forge parameters", "declared " << s.text << " but got " << p.text());
    MC_CHECK(!p.shared || p.shared == &shared_data, "forge reference", "a referenced argument was copied");
    if (!fresh && s.made) MC_CHECK(&p == s.last, "forge cache", "a second object was made");
    s.last = &p;
    s.made = true;
}
MC_SCENARIO("a forge makes what was declared, in any order of use")
{
    alive = 0;
    bool no_cache = mc::flag();
    {
        eoForgeVector<Part> f(no_cache);
        std::vector<Slot> s(2);
        for (unsigned i = 0; i < 2; ++i) { VecAdd add{f}; declare(add, s[i], mc::choose(4)); }
        unsigned steps = mc::tier(4u, 5u);
        for (unsigned k = 0; k < steps; ++k) {
            unsigned i = mc::choose(2);
            switch (mc::choose(k + 1 < steps ? 4 : 3)) {
                case 0: {
                    Part& p = mc::flag() ? f.instantiate(i) : f.instantiate_from(double(i));
                    judge_ref(p, s[i], no_cache);
                    break;
                }
                case 1: {
                    std::shared_ptr<Part> p = f.instantiate_ptr(i);
                    MC_CHECK(p != nullptr, "forge pointer", "no object for " << s[i].text);
                    MC_CHECK(p->text() == s[i].text, "forge parameters", "declared " << s[i].text << " but got " << p->text());
                    if (s[i].made_ptr) MC_CHECK((p == s[i].keep) == !no_cache, "forge pointer cache", "wrong re-use of " << s[i].text);
                    s[i].keep = p;
                    s[i].made_ptr = true;
                    break;
                }
                case 2: {
                    bool thrown = false;
                    try { f.instantiate(2 + mc::choose(2)); } catch (std::exception&) { thrown = true; }
                    MC_CHECK(thrown, "forge range", "an index out of range was accepted");
                    break;
                }
                case 3: {
                    VecSet set{f, i};
                    declare(set, s[i], mc::choose(4));
                    break;
                }
            }
            mc::state(mc::mix(mc::hash(s[0].text + s[1].text), s[0].made * 8 + s[1].made * 4 + s[0].made_ptr * 2 + s[1].made_ptr + 16 * no_cache));
        }
    }
    MC_CHECK(alive == 0, "forge leak", alive << " objects left (negative: destroyed twice)");
}
MC_SCENARIO("a changed object does not change the declaration")
{
    bool no_cache = mc::flag();
    eoForgeVector<Part> f(no_cache);
    Slot s;
    VecAdd add{f};
    declare(add, s, mc::choose(4));
    Part& p = f.instantiate(0);
    p.a = 1000;
    Part& q = f.instantiate(0);
    MC_CHECK(no_cache ? q.text() == s.text : q.a == 1000, "forge declaration", "after a change: " << q.text());
    auto r = f.instantiate_ptr(0);
    MC_CHECK(r && r->text() == s.text, "forge pointer", "after a change of the other object");
    mc::state(no_cache);
}
MC_SCENARIO("a named forge makes what was declared")
{
    bool no_cache = mc::flag();
    alive = 0;
    {
        eoForgeMap<Part> f(no_cache);
        std::map<std::string, Slot> s;
        for (const char* n : {"b", "a"}) { MapAdd add{f, n}; declare(add, s[n], mc::choose(4)); }
        for (unsigned k = 0; k < 3; ++k) {
            std::string n = mc::flag() ? "a" : "b";
            switch (mc::choose(3)) {
                case 0: judge_ref(f.instantiate(n), s[n], no_cache); break;
                case 1: {
                    bool thrown = false;
                    try { f.instantiate("c"); } catch (std::exception&) { thrown = true; }
                    MC_CHECK(thrown, "named forge range", "an unknown name was accepted");
                    break;
                }
                case 2: { MapSet set{f, n}; declare(set, s[n], mc::choose(4)); break; }
            }
            mc::state(mc::hash(s["a"].text + s["b"].text));
        }
        MC_CHECK(f.size() == 2, "named forge size", f.size());
    }
    MC_CHECK(alive == 0, "named forge leak", alive << " objects left");
}
MC_SCENARIO("a scalar forge returns the value of the encoding")
{
    double lo = mc::pick({0.0, -1.0}), hi = mc::pick({1.0, 2.5});
    eoForgeScalar<double> f(lo, hi);
    for (int k = 0; k < 2; ++k) {
        double v = mc::pick({lo, hi, (lo + hi) / 2, lo + 0.25});
        MC_CHECK(f.instantiate(v) == v, "scalar", v);
    }
    MC_CHECK(f.min() == lo && f.max() == hi, "scalar", "range");
    eoParameterFoundry<double> slot(3, lo, hi);
    MC_CHECK(slot.min() == lo && slot.max() == hi && slot.index() == 3, "parameter slot", "number " << slot.index() << " from " << slot.min() << " to " << slot.max() << " instead of 3 from " << lo << " to " << hi);
    f.setup(lo - 1, hi + 1);
    MC_CHECK(f.instantiate(hi + 1) == hi + 1 && f.min() == lo - 1, "scalar", "range after setup");
    mc::state(uint64_t(lo * 10 + hi));
}

// ------------------------------------------------------------------ foundries
typedef Bit I;
static std::set<std::string> used;
static unsigned flips = 0;
struct Cross : public eoQuadOp<I>
{
    int id; double par;
    Cross(int i, double p) : id(i), par(p) {}
    std::string className() const { return "Cross" + std::to_string(id); }
    bool operator()(I& a, I& b) { used.insert(className() + "/" + std::to_string(par)); bool t = a[0]; a[0] = b[0]; b[0] = t; return true; }
};
struct Mut : public eoMonOp<I>
{
    int id; double par;
    Mut(int i, double p) : id(i), par(p) {}
    std::string className() const { return "Mut" + std::to_string(id); }
    bool operator()(I& a) { used.insert(className() + "/" + std::to_string(par)); a[1] = !a[1]; return true; }
};
struct MutPlain : public eoMonOp<I>
{
    std::string className() const { return "Mut2"; }
    bool operator()(I& a) { used.insert("Mut2/"); a[1] = !a[1]; return true; }
};
template <int slot> struct Sel : public eoSelectOne<I>
{
    int id;
    unsigned next = 0;
    Sel(int i) : id(i) {}
    std::string className() const { return "Sel" + std::to_string(slot) + "." + std::to_string(id); }
    const I& operator()(const eoPop<I>& p) { used.insert(className()); return p[next++ % p.size()]; }
};
struct Rep : public eoReplacement<I>
{
    int id;
    Rep(int i) : id(i) {}
    std::string className() const { return "Rep" + std::to_string(id); }
    void operator()(eoPop<I>& p, eoPop<I>& o) { used.insert(className()); used.insert("offspring" + std::to_string(o.size())); for (size_t i = 0; i < p.size() && i < o.size(); ++i) p[i] = o[i]; }
};
struct Stop : public eoContinue<I>
{
    int id; unsigned left;
    Stop(int i, unsigned n) : id(i), left(n) {}
    std::string className() const { return "Stop" + std::to_string(id); }
    bool operator()(const eoPop<I>&) { used.insert(className()); if (left == 0) mc::fail("stale continuator", "a continuator already used up is used again"); return --left > 0; }
};
struct Fit : public eoEvalFunc<I>
{
    unsigned calls = 0;
    void operator()(I& i) { if (!i.invalid()) return; ++calls; i.fitness(double(i[0]) + 2 * double(i[1])); }
};
static eoPop<I> two()
{
    eoPop<I> p;
    for (unsigned v : {0u, 1u}) { I i = bits_of<I>(2, v); i.fitness(double(i[0]) + 2 * double(i[1])); p.push_back(i); }
    return p;
}
static std::string join(const std::set<std::string>& s) { std::string r; for (auto& x : s) r += x + " "; return r; }

template <class F> static void register_ea(F& f, bool swapped)
{
    for (int k = 0; k < 2; ++k) {
        int i = swapped ? 1 - k : k;
        f.continuators.template add<Stop>(i, 1u + i);
        f.crossovers.template add<Cross>(i, 0.25 + i);
        f.mutations.template add<Mut>(i, 0.5 + i);
        f.replacements.template add<Rep>(i);
    }
    f.mutations.template add<MutPlain>();
}
MC_SCENARIO("an evolutionary algorithm uses exactly the operators of its encoding")
{
    bool swapped = mc::flag();
    Fit fit;
    eoPopLoopEval<I> eval(fit);
    eoAlgoFoundryEA<I> f(eval, 10);
    register_ea(f, swapped);
    for (int k = 0; k < 2; ++k) f.selectors.add<Sel<0>>(swapped ? 1 - k : k);
    mc::rng_fixed(1);
    for (int run = 0; run < 2; ++run) {
        size_t c = mc::choose(2), x = mc::choose(2), m = mc::choose(3), s = mc::choose(2), r = mc::choose(2);
        f.select({c, x, m, s, r});
        if (mc::flag()) f.name();
        auto id = [&](size_t i) { return std::to_string(swapped ? 1 - i : i); };
        auto num = [&](size_t i) { return double(swapped ? 1 - i : i); };
        used.clear();
        eoPop<I> pop = two();
        f(pop);
        std::set<std::string> want = {"Stop" + id(c), "Cross" + id(x) + "/" + std::to_string(0.25 + num(x)),
            m == 2 ? std::string("Mut2/") : "Mut" + id(m) + "/" + std::to_string(0.5 + num(m)), "Sel0." + id(s), "Rep" + id(r), "offspring2"};
        MC_CHECK(used == want, "assembled", "encoding " << c << x << m << s << r << " used " << join(used) << " instead of " << join(want));
        std::string name = f.name();
        for (auto& t : {"Stop" + id(c), "Cross" + id(x), m == 2 ? std::string("Mut2") : "Mut" + id(m), "Sel0." + id(s), "Rep" + id(r)})
            MC_CHECK(name.find(t) != std::string::npos, "assembled name", name << " lacks " << t);
        for (auto& i : pop) MC_CHECK(!i.invalid(), "assembled result", "unevaluated individual");
        mc::state(mc::hash(join(want)));
    }
}
MC_SCENARIO("a fast genetic algorithm uses exactly the operators of its encoding")
{
    Fit fit;
    eoBooleanGenerator<> g;
    eoInitFixedLength<I> init(2, g);
    unsigned budget = mc::pick({1u, 2u, 3u, 1000u});
    eoAlgoFoundryFastGA<I> f(init, fit, budget);
    register_ea(f, false);
    for (int k = 0; k < 2; ++k) {
        f.crossover_selectors.add<Sel<1>>(k);
        f.aftercross_selectors.add<Sel<2>>(k);
        f.mutation_selectors.add<Sel<3>>(k);
    }
    f.crossover_rates.setup(0.0, 1.0);
    f.mutation_rates.setup(0.0, 1.0);
    f.offspring_sizes.setup(0, 10);
    mc::rng_fixed(1);
    size_t e[10];
    double rc = mc::pick({0.0, 1.0}), rm = mc::pick({0.0, 1.0});
    size_t off = mc::pick({size_t(0), size_t(1), size_t(3)});
    for (int k = 0; k < 10; ++k) e[k] = 0;
    for (int k : {1, 2, 3, 5, 6, 7, 8}) e[k] = mc::choose(2);
    for (int run = 0; run < 2; ++run) {
        // the second run differs in one slot, or in none
        if (run == 1) {
            int k = mc::choose(11);
            if (k == 0) rc = 1 - rc;
            else if (k == 4) rm = 1 - rm;
            else if (k == 6) e[6] = 2;
            else if (k == 9) off = 2;
            else if (k < 10) e[k] = 1 - e[k];
        }
        f.select({rc, e[1], e[2], e[3], rm, e[5], e[6], e[7], e[8], off});
        if (mc::flag()) f.name();
        used.clear();
        eoPop<I> pop = two();
        unsigned before = fit.calls;
        f(pop);
        MC_CHECK(fit.calls - before <= budget, "fast budget", fit.calls - before << " evaluations, allowed " << budget);
        std::set<std::string> may;
        auto id = [](size_t i) { return std::to_string(i); };
        std::string mut = e[6] == 2 ? std::string("Mut2/") : "Mut" + id(e[6]) + "/" + std::to_string(0.5 + e[6]);
        if (rc == 1) {
            may = {"Sel1." + id(e[1]), "Cross" + id(e[2]) + "/" + std::to_string(0.25 + e[2]), "Sel2." + id(e[3])};
            if (rm == 1) may.insert(mut);
        } else may = {"Sel3." + id(e[5]), mut};
        may.insert("Rep" + id(e[7]));
        may.insert("Stop" + id(e[8]));
        may.insert("offspring" + id(off ? off : 2));
        for (auto& u : used) MC_CHECK(may.count(u), "fast assembled", u << " was used, expected " << join(may));
        if (budget == 1000) MC_CHECK(used == may, "fast assembled", "used " << join(used) << " instead of " << join(may));
        for (auto& i : pop) MC_CHECK(!i.invalid(), "fast result", "unevaluated individual");
        mc::state(mc::hash(join(used)));
    }
}
MC_SCENARIO("an encoded algorithm is evaluated by running it, or penalised")
{
    typedef Real A;
    Fit fit;
    eoPopLoopEval<I> eval(fit);
    eoAlgoFoundryEA<I> f(eval, 10);
    register_ea(f, false);
    for (int k = 0; k < 2; ++k) f.selectors.add<Sel<0>>(k);
    struct Zero : public eoInit<I> { void operator()(I& i) { i = I(2, false); i.invalidate(); } } zero;
    eoEvalFoundryEA<A, I> e(f, zero, 3, eval, -5.0);
    mc::rng_fixed(2);
    A a(5);
    bool ok = true;
    size_t idx[5], lim[5] = {2, 2, 3, 2, 2};
    for (int k = 0; k < 5; ++k) {
        a[k] = mc::pick({-1.5, -0.5, 0.0, 0.25, 1.0, 1.75, 2.0, 50.0});
        double c = std::ceil(a[k]);
        if (c < 0 || c >= double(lim[k])) ok = false;
        else idx[k] = size_t(c);
    }
    // several slots out of range are one case
    int bad = 0;
    for (int k = 0; k < 5; ++k) { double c = std::ceil(a[k]); bad += c < 0 || c >= double(lim[k]); }
    if (bad > 1) mc::prune();
    used.clear();
    a.invalidate();
    e(a);
    if (!ok) MC_CHECK(a.fitness() == -5.0 && used.empty(), "penalty", "fitness " << double(a.fitness()));
    else {
        auto id = [](size_t i) { return std::to_string(i); };
        std::set<std::string> want = {"Stop" + id(idx[0]), "Cross" + id(idx[1]) + "/" + std::to_string(0.25 + idx[1]),
            idx[2] == 2 ? std::string("Mut2/") : "Mut" + id(idx[2]) + "/" + std::to_string(0.5 + idx[2]), "Sel0." + id(idx[3]), "Rep" + id(idx[4]), "offspring3"};
        MC_CHECK(used == want, "evaluated", "used " << join(used) << " instead of " << join(want));
        // one run flips bit 1 of the copies: one generation gives 2, two give 0
        MC_CHECK(a.fitness() == 2.0 || a.fitness() == 0.0, "evaluated", double(a.fitness()));
    }
    double before = a.fitness();
    used.clear();
    e(a);
    MC_CHECK(used.empty() && a.fitness() == before, "evaluated once", "an evaluated encoding was run again");
    mc::state(mc::hashv(a));
}
