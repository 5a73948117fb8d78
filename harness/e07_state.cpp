// E07: saving and loading a state, and resuming a run from it.
#include "common.hpp"
#include <moeo>
#include <eoDualFitness.h>
#include <eoScalarFitnessAssembled.h>
#include <gp/eoParseTree.h>
#include <eoVectorParticle.h>
#include <eoRealParticle.h>
#include <es/eoRealInitBounded.h>
#include <eoSwapMutation.h>
#include <eoOrderXover.h>
#include <contrib/MGE/eoVirus.h>
#include <memory>
#include <unistd.h>
#include <fstream>

static time_t the_time = 1000;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = the_time; return the_time; }

// ---- content of a saved individual, independent of the printing methods -----
static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%a ", x); return b; }
template <class F> static std::string fit_text(const F& f) { return num(double(f)); }
static std::string fit_text(const eoMaximizingDualFitness& f) { return num(f.value()) + (f.is_feasible() ? "ok " : "no "); }
static std::string fit_text(const eoAssembledMinimizingFitness& f) { std::string s; for (size_t i = 0; i < f.size(); ++i) s += num(f[i]); return s + (f.feasible ? "f" : "n") + (f.failed ? "x " : "y "); }
template <class E> static auto head(const E& e) -> decltype(e.fitness(), std::string()) { return e.invalid() ? "invalid " : fit_text(e.fitness()); }
template <class E> static std::string genes(const E& e) { std::string s = std::to_string(e.size()) + ":"; for (size_t i = 0; i < e.size(); ++i) s += num(double(e[i])); return s; }
template <class E> static std::string text(const E& e) { return head(e) + genes(e); }
template <class F> static std::string text(const eoEsSimple<F>& e) { return head(e) + genes(e) + "s " + num(e.stdev); }
template <class F> static std::string text(const eoEsStdev<F>& e) { return head(e) + genes(e) + "s " + genes(e.stdevs); }
template <class F> static std::string text(const eoEsFull<F>& e) { return head(e) + genes(e) + "s " + genes(e.stdevs) + "c " + genes(e.correlations); }
template <class F> static std::string text(const eoVirus<F>& e) { std::string s; for (size_t i = 0; i < e.size(); ++i) s += e.virusBit(unsigned(i)) ? "v" : "-"; return head(e) + genes(e) + s; }
template <class P> static std::string pop_text(const P& p) { std::string s; for (size_t i = 0; i < p.size(); ++i) s += text(p[i]) + "| "; return s; }

static double gene() { return mc::pick({ 0.0, -1.5, 1.0 / 3, 1e-17, -1.23456789012345e300 }); }
template <class E> static void fill(E& e);
template <> void fill(Bit& e) { e = any_bits<Bit>(1 + mc::choose(3)); }
template <> void fill(Perm& e) { e.resize(1 + mc::choose(2)); for (auto& x : e) x = mc::choose(2) ? -2147483647 : 5; }
template <> void fill(Real& e) { e.resize(mc::choose(3)); for (auto& x : e) x = gene(); }
template <> void fill(eoVirus<double>& e) { unsigned n = 1 + mc::choose(3); e = eoVirus<double>(n); for (unsigned i = 0; i < n; ++i) { e[i] = mc::flag(); e.virusBitSet(i, mc::flag()); } }
template <> void fill(eoEsSimple<double>& e) { e.resize(1 + mc::choose(2)); for (auto& x : e) x = mc::pick({ 1.0 / 3, -2.0 }); e.stdev = mc::pick({ 0.1, 1.0 / 7 }); }
template <> void fill(eoEsStdev<double>& e) { e.resize(1 + mc::choose(2)); for (auto& x : e) x = mc::pick({ 1.0 / 3, -2.0 }); e.stdevs.resize(e.size()); for (auto& x : e.stdevs) x = mc::pick({ 0.1, 1.0 / 7 }); }
template <> void fill(eoEsFull<double>& e)
{
    e.resize(1 + mc::choose(3)); double v = mc::pick({ 1.0 / 3, -2.0 }), s = mc::pick({ 0.1, 1.0 / 7 }), c = mc::pick({ 0.25, -1.0 / 9 });
    for (size_t i = 0; i < e.size(); ++i) e[i] = v + i; e.stdevs.resize(e.size()); for (size_t i = 0; i < e.size(); ++i) e.stdevs[i] = s * (i + 1);
    e.correlations.resize(e.size() * (e.size() - 1) / 2); for (size_t i = 0; i < e.correlations.size(); ++i) e.correlations[i] = c + i;
}
template <class E> static void fit(E& e) { e.fitness(typename E::Fitness(mc::pick({ 0.0, -1.0 / 3, 12345678.9 }))); }

// a fixed individual, other than those of fill
template <class E> static void more(E&) {}
template <class F> static void more(eoEsSimple<F>& e) { e.stdev = 0.7; }
template <class F> static void more(eoEsStdev<F>& e) { e.stdevs.assign(e.size(), 0.7); }
template <class F> static void more(eoEsFull<F>& e) { e.stdevs.assign(e.size(), 0.7); e.correlations.assign(e.size() * (e.size() - 1) / 2, 0.9); }
template <class F> static void more(eoVirus<F>& e) { e.virResize(unsigned(e.size())); e.virusBitSet(1, true); }
template <class E> static E sample(double f) { E e; e.resize(4); e[0] = 1; e[3] = 1; more(e); e.fitness(f); return e; }
// sections of a saved text
static std::vector<std::string> sections(const std::string& t)
{
    std::vector<std::string> v; size_t at = t.find("\\section{");
    while (at != std::string::npos) { size_t n = t.find("\\section{", at + 1); v.push_back(t.substr(at, n == std::string::npos ? n : n - at)); at = n; }
    return v;
}
// the same sections in another order, with other text around them
static std::string rearranged(const std::string& t)
{
    std::vector<std::string> s = sections(t), r;
    while (!s.empty()) { uint32_t k = mc::choose(uint32_t(s.size())); r.push_back(s[k]); s.erase(s.begin() + k); }
    std::string out;
    int extra = mc::choose(4);
    if (extra == 1) out = "some text\nbefore the first section\n";
    for (size_t i = 0; i < r.size(); ++i) {
        if (extra == 2) out += "\\section{Unknown}\n3\n INVALID 2 01\n\n";
        std::string x = r[i];
        if (extra == 3) x.insert(x.find('\n') + 1, "# a comment line\n");
        out += x;
    }
    if (extra == 2) out += "\\section{Other}\nlast\n";
    return out;
}

template <class E> static void content_case(const std::string& who, unsigned most = 2)
{
    eoPop<E> p, q; unsigned n = mc::choose(most + 1);
    for (unsigned i = 0; i < n; ++i) { E e; fill(e); if (mc::flag()) fit(e); else e.invalidate(); p.push_back(e); }
    E one = sample<E>(0.1); q.push_back(one); q.push_back(one);
    eoState s(mc::flag() ? "" : "name of the state "); s.registerObject(p); s.registerObject(q);
    std::ostringstream o; s.save(o);
    MC_CHECK(o.precision() == 6, "stream changed", "the precision of the stream is now " << o.precision());
    std::string t = rearranged(o.str());
    // loaded over populations that hold something else
    eoPop<E> p2, q2(p); E other = sample<E>(0.2); if (mc::flag()) for (int i = 0; i < 3; ++i) p2.push_back(other);
    eoState s2; s2.registerObject(p2); s2.registerObject(q2);
    std::istringstream is(t); s2.load(is);
    MC_CHECK(pop_text(p2) == pop_text(p), "content", who << " population " << pop_text(p) << " saved as '" << o.str() << "' loads as " << pop_text(p2));
    MC_CHECK(pop_text(q2) == pop_text(q), "content", who << " second population " << pop_text(q) << " loads as " << pop_text(q2));
    mc::state(mc::hash(pop_text(p)));
    mc::step(2);
}
MC_SCENARIO("content: bit strings") { content_case<Bit>("bit", 1); }
MC_SCENARIO("content: bit strings with a virus") { content_case<eoVirus<double>>("virus", 1); }
MC_SCENARIO("content: integers") { content_case<Perm>("int", 1); }
MC_SCENARIO("content: reals") { content_case<Real>("real", 1); }
MC_SCENARIO("content: es simple") { content_case<eoEsSimple<double>>("es simple", 1); }
MC_SCENARIO("content: es stdev") { content_case<eoEsStdev<double>>("es stdev", 1); }
MC_SCENARIO("content: es full") { content_case<eoEsFull<double>>("es full", 1); }
MC_SCENARIO("content: mixed evaluated and unevaluated")
{
    eoPop<BitMin> p; unsigned n = mc::choose(5);
    for (unsigned i = 0; i < n; ++i) { BitMin b = any_bits<BitMin>(2); if (mc::flag()) b.fitness(0.1 * (i + 1)); p.push_back(b); }
    eoState s; s.registerObject(p); std::ostringstream o; s.save(o);
    eoPop<BitMin> q; q.assign(p.size(), bits_of<BitMin>(3, 5)); for (auto& x : q) x.fitness(77);
    eoState s2; s2.registerObject(q); std::istringstream is(o.str()); s2.load(is);
    MC_CHECK(pop_text(p) == pop_text(q), "content", pop_text(p) << " loads as " << pop_text(q));
    mc::state(mc::hash(pop_text(p)));
}
// a fitness of several words
typedef eoBit<eoMaximizingDualFitness> Dual;
typedef eoBit<eoAssembledMinimizingFitness> Assembled;
MC_SCENARIO("content: fitness with feasibility")
{
    eoPop<Dual> p, q; unsigned n = mc::choose(4);
    for (unsigned i = 0; i < n; ++i) { Dual d = any_bits<Dual>(2); if (mc::flag()) d.fitness(eoMaximizingDualFitness(mc::pick({ 0.1, -2.0 }), mc::flag())); p.push_back(d); }
    eoState s; s.registerObject(p); std::ostringstream o; s.save(o);
    eoState s2; s2.registerObject(q); std::istringstream is(o.str()); s2.load(is);
    MC_CHECK(pop_text(p) == pop_text(q), "content", pop_text(p) << " loads as " << pop_text(q));
    mc::state(mc::hash(pop_text(p)));
}
MC_SCENARIO("content: fitness with terms")
{
    eoPop<Assembled> p, q; unsigned n = mc::choose(3);
    eoAssembledMinimizingFitness first(3, 0.0);
    for (unsigned i = 0; i < n; ++i) {
        Assembled d = any_bits<Assembled>(2);
        if (mc::flag()) { eoAssembledMinimizingFitness f; f = mc::pick({ 0.1, -2.0 }); for (size_t k = 1; k < f.size(); ++k) f[k] = mc::pick({ 1.0 / 3, 5.0 }); f.feasible = mc::flag(); f.failed = mc::flag(); d.fitness(f); }
        p.push_back(d);
    }
    eoState s; s.registerObject(p); std::ostringstream o; s.save(o);
    eoState s2; s2.registerObject(q); std::istringstream is(o.str()); s2.load(is);
    MC_CHECK(pop_text(p) == pop_text(q), "content", pop_text(p) << " loads as " << pop_text(q));
    mc::state(mc::hash(pop_text(p)));
}
// several objectives
struct ObjTraits : public moeoObjectiveVectorTraits
{
    static bool minimizing(int i) { return i == 0; } static bool maximizing(int i) { return i != 0; } static unsigned int nObjectives() { return 2; }
};
typedef moeoRealObjectiveVector<ObjTraits> Obj;
template <class E> static std::string mo_text(const E& e) { std::string s = e.invalidObjectiveVector() ? "invalid " : ""; if (!e.invalidObjectiveVector()) for (double x : e.objectiveVector()) s += num(x); return s + genes(e); }
template <class E> static void mo_case(unsigned len, bool bits)
{
    eoPop<E> p, q; unsigned n = mc::choose(3);
    for (unsigned i = 0; i < n; ++i) {
        E e; e.resize(len); for (unsigned k = 0; k < len; ++k) e[k] = bits ? mc::choose(2) : mc::pick({ 0.5, -3.0 });
        if (mc::flag()) { Obj o; o[0] = mc::pick({ 1.0 / 3, -2.0 }); o[1] = mc::pick({ 0.0, 1e20 }); e.objectiveVector(o); }
        p.push_back(e);
    }
    eoState s; s.registerObject(p); std::ostringstream o; s.save(o);
    E junk; junk.resize(1); Obj z; junk.objectiveVector(z); for (int i = mc::choose(2); i > 0; --i) q.push_back(junk);
    eoState s2; s2.registerObject(q); std::istringstream is(o.str()); s2.load(is);
    std::string a, b; for (auto& e : p) a += mo_text(e) + "|"; for (auto& e : q) b += mo_text(e) + "|";
    MC_CHECK(a == b, "content", a << " loads as " << b);
    mc::state(mc::hash(a));
}
MC_SCENARIO("content: objective vectors, bits") { mo_case<moeoBitVector<Obj>>(2, true); }
MC_SCENARIO("content: objective vectors, reals") { mo_case<moeoRealVector<Obj>>(2, false); }
MC_SCENARIO("content: particles")
{
    typedef eoRealParticle<double> P;
    eoPop<P> p, q; unsigned n = mc::range(1, 2);
    for (unsigned i = 0; i < n; ++i) { P x(2); x[0] = 1.5; x[1] = mc::pick({ -2.0, 0.25 }); x.fitness(mc::pick({ 3.0, 4.0 })); x.best(x.fitness()); p.push_back(x); }
    eoState s; s.registerObject(p); std::ostringstream o; s.save(o);
    eoState s2; s2.registerObject(q); std::istringstream is(o.str()); s2.load(is);
    mc::state(mc::hash(o.str()));
    MC_CHECK(pop_text(p) == pop_text(q), "content", pop_text(p) << " saved as '" << o.str() << "' loads as " << pop_text(q));
}

// ---- files and names --------------------------------------------------------
static bool exists(const std::string& f) { return access(f.c_str(), F_OK) == 0; }
static std::string content(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Names : eoPersistent { std::string v; void readFrom(std::istream& is) { is >> v; } void printOn(std::ostream& os) const { os << v; } };
MC_SCENARIO("objects of one class keep their own sections")
{
    unsigned n = mc::range(1, 4); int kinds = mc::choose(1 << n);
    auto build = [&](eoState& s, std::vector<std::unique_ptr<eoPop<Bit>>>& p, std::vector<std::unique_ptr<Names>>& m) {
        for (unsigned i = 0; i < n; ++i) if ((kinds >> i) & 1) { p.emplace_back(new eoPop<Bit>); s.registerObject(*p.back()); } else { m.emplace_back(new Names); s.registerObject(*m.back()); }
    };
    eoState s, s2; std::vector<std::unique_ptr<eoPop<Bit>>> p, p2; std::vector<std::unique_ptr<Names>> m, m2;
    build(s, p, m); build(s2, p2, m2);
    for (size_t i = 0; i < p.size(); ++i) { Bit b = bits_of<Bit>(3, uint32_t(i) + 1); b.fitness(i); p[i]->assign(i + 1, b); }
    for (size_t i = 0; i < m.size(); ++i) m[i]->v = "word" + std::to_string(i);
    if (mc::flag()) {
        std::string f = "state.file";
        s.save(f); s2.load(f); unlink(f.c_str());
    } else { std::ostringstream o; s.save(o); std::istringstream is(rearranged(o.str())); s2.load(is); }
    for (size_t i = 0; i < p.size(); ++i) MC_CHECK(pop_text(*p[i]) == pop_text(*p2[i]), "sections mixed", "population " << i << " loads as " << pop_text(*p2[i]));
    for (size_t i = 0; i < m.size(); ++i) MC_CHECK(m[i]->v == m2[i]->v, "sections mixed", "object " << i << " loads as " << m2[i]->v);
    mc::state(mc::mix(n, kinds));
}
MC_SCENARIO("state savers write the state of the moment")
{
    eoPop<Bit> p; Bit b = bits_of<Bit>(3, 1); p.push_back(b);
    eoState s; s.registerObject(p);
    bool timed = mc::flag(); unsigned every = mc::range(1, 3), calls = mc::range(0, 6), start = mc::choose(2); bool last = mc::flag();
    std::unique_ptr<eoUpdater> u; the_time = 1000;
    if (timed) u.reset(new eoTimedStateSaver(every, s, "sv", "st")); else u.reset(new eoCountedStateSaver(every, s, "sv", last, "st", start));
    time_t lastt = 1000; std::vector<std::string> made;
    auto check = [&](bool should, unsigned number, const char* when) {
        std::string f = "sv" + std::to_string(number) + ".st";
        MC_CHECK(exists(f) == should, "saver", (timed ? "timed" : "counted") << " saver every " << every << " " << when << " " << number << (should ? " did not save" : " saved"));
        if (!exists(f)) return;
        eoPop<Bit> q; eoState s2; s2.registerObject(q); s2.load(f); unlink(f.c_str());
        MC_CHECK(pop_text(p) == pop_text(q), "saver content", when << " " << number << ": " << pop_text(p) << " loads as " << pop_text(q));
    };
    for (unsigned i = 1; i <= calls; ++i) {
        p[0] = bits_of<Bit>(3, i); if (i % 2) p[0].fitness(0.1 * i);
        if (timed) { the_time += mc::choose(3); (*u)(); bool should = the_time >= lastt + (time_t)every; if (should) lastt = the_time; check(should, unsigned(the_time - 1000), "at second"); }
        else { (*u)(); check((start + i) % every == 0, start + i, "call"); }
        mc::state(mc::mix(i, mc::mix(every, the_time)));
    }
    if (!timed) { u->lastCall(); check(last, start + calls, "last call"); }
}
MC_SCENARIO("parameters saved with the state")
{
    std::string a0 = "prog", a1 = mc::pick(std::vector<std::string>{ "--size=3", "-s=4", "--name=x" }), a2 = mc::pick(std::vector<std::string>{ "--size=5", "-r=0.125", "--flag" });
    char* argv[] = { &a0[0], &a1[0], &a2[0], nullptr }; char* argv0[] = { &a0[0], nullptr };
    eoParser p(3, argv), q(1, argv0);
    auto reg = [](eoParser& x) { x.createParam(1, "size", "d", 's', "A"); x.createParam(0.5, "rate", "d -s=9", 'r', "B"); x.createParam(std::string("none"), "name", "d"); x.createParam(false, "flag", "d"); };
    reg(p); reg(q);
    eoPop<Bit> pop, pop2; pop.push_back(bits_of<Bit>(2, 1));
    eoState s, s2;
    if (mc::flag()) { s.registerObject(p); s.registerObject(pop); } else { s.registerObject(pop); s.registerObject(p); }
    s2.registerObject(q); s2.registerObject(pop2);
    std::ostringstream o; s.save(o); std::istringstream is(rearranged(o.str())); s2.load(is);
    for (auto n : { "size", "rate", "name", "flag" }) MC_CHECK(p.get(n) == q.get(n), "parameter", n << " was " << p.get(n) << " and loads as " << q.get(n));
    MC_CHECK(pop_text(pop) == pop_text(pop2), "content", pop_text(pop2));
    mc::state(mc::hash(a1 + a2));
}

// ---- resuming ---------------------------------------------------------------
template <class E> struct Sphere : eoEvalFunc<E>
{
    void operator()(E& e) override { if (!e.invalid()) return; double s = 0; for (size_t i = 0; i < e.size(); ++i) s += (double(e[i]) - 0.3 * i) * (double(e[i]) - 0.3 * i); e.fitness(-s); }
};
template <class E> struct Recorder : eoContinue<E>
{
    std::vector<std::string> log; std::string saved; int at = -1; const eoState* state = nullptr; unsigned left = 0;
    bool operator()(const eoPop<E>& p) override
    {
        log.push_back(pop_text(p));
        if (int(log.size()) == at) { std::ostringstream o; state->save(o); saved = o.str(); }
        return --left > 0;
    }
};
template <class E> struct Setup;
template <> struct Setup<Bit> { eoUniformGenerator<bool> g; eoInitFixedLength<Bit> init{ 6, g }; eoBitMutation<Bit> mut{ 0.2 }; eo1PtBitXover<Bit> cross; };
template <> struct Setup<Real> { eoRealVectorBounds b{ 3, -1.0, 2.0 }; eoRealInitBounded<Real> init{ b }; eoNormalVecMutation<Real> mut{ b, 0.3 }; eoHypercubeCrossover<Real> cross{ b, 0.5 }; };
template <> struct Setup<Perm> { eoInitPermutation<Perm> init{ 5 }; eoSwapMutation<Perm> mut; eoOrderXover<Perm> cross; };
template <class E, class S> static void run(S& s, eoPop<E>& pop, Recorder<E>& rec, int algo)
{
    Sphere<E> eval; eoDetTournamentSelect<E> sel(2);
    if (algo == 0) { eoSGA<E> a(sel, s.cross, 0.7, s.mut, 0.5, eval, rec); a(pop); }
    else {
        eoSGATransform<E> tr(s.cross, 0.8, s.mut, 0.6); eoSelectPerc<E> se(sel); eoPlusReplacement<E> rep; eoEasyEA<E> a(rec, eval, se, tr, rep);
        a(pop);
    }
}
template <class E> static void resume_case(const std::string& who)
{
    mc::rng_off();
    uint32_t seed = mc::pick(std::vector<uint32_t>{ 1, 42, 777 }); int algo = mc::choose(2);
    const unsigned gens = 6; int at = mc::range(1, gens - 1); bool order = mc::flag(); unsigned extra = mc::choose(3);
    Setup<E> s; eo::rng.reseed(seed); eo::rng.clearCache();
    for (unsigned i = 0; i < extra; ++i) eo::rng.normal();      // with and without a pending normal deviate
    eoPop<E> pop(4, s.init);
    { Sphere<E> ev; for (auto& x : pop) ev(x); }
    eoState st; if (order) { st.registerObject(eo::rng); st.registerObject(pop); } else { st.registerObject(pop); st.registerObject(eo::rng); }
    Recorder<E> whole; whole.at = at; whole.state = &st; whole.left = gens;
    run(s, pop, whole, algo);
    // another process: other generator state, other population
    eo::rng.reseed(seed + 5); eo::rng.clearCache(); if (mc::flag()) eo::rng.normal();
    Setup<E> s2; eoPop<E> pop2(2, s2.init);
    eoState st2; st2.registerObject(pop2); st2.registerObject(eo::rng);
    std::istringstream is(rearranged(whole.saved)); st2.load(is);
    MC_CHECK(pop_text(pop2) == whole.log[at - 1], "resumed start", who << " seed " << seed << " generation " << at << ": " << pop_text(pop2) << " instead of " << whole.log[at - 1]);
    Recorder<E> rest; rest.left = gens - at;
    run(s2, pop2, rest, algo);
    for (unsigned i = 0; i < rest.log.size(); ++i) { mc::state(mc::hash(rest.log[i])); mc::step(); MC_CHECK(rest.log[i] == whole.log[at + i], "resumed run", who << " seed " << seed << " saved at " << at << " differs at generation " << at + i + 1 << ": " << rest.log[i] << " instead of " << whole.log[at + i]); }
    MC_CHECK(rest.log.size() + at == gens, "resumed length", rest.log.size());
}
MC_SCENARIO("resume: bit strings") { resume_case<Bit>("bits"); }
MC_SCENARIO("resume: reals") { resume_case<Real>("reals"); }
MC_SCENARIO("resume: permutations") { resume_case<Perm>("permutation"); }
template <class E> struct EsAll { eoRealVectorBounds b{ 3, -1.0, 2.0 }; eoEsChromInit<E> init{ b, 0.3 }; std::string a0 = "p"; char* argv[2] = { &a0[0], nullptr }; eoParser parser{ 1, argv }; eoEsMutationInit mi{ parser }; eoEsMutate<E> mut{ mi, b }; struct No : eoQuadOp<E> { bool operator()(E& a, E& c) override { std::swap(a[0], c[0]); return true; } } cross; };
template <> struct Setup<eoEsSimple<double>> : EsAll<eoEsSimple<double>> {};
template <> struct Setup<eoEsStdev<double>> : EsAll<eoEsStdev<double>> {};
template <> struct Setup<eoEsFull<double>> : EsAll<eoEsFull<double>> {};
MC_SCENARIO("resume: es simple") { resume_case<eoEsSimple<double>>("es simple"); }
MC_SCENARIO("resume: es stdev") { resume_case<eoEsStdev<double>>("es stdev"); }
MC_SCENARIO("resume: es full") { resume_case<eoEsFull<double>>("es full"); }
