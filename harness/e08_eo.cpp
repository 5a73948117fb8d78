// Same seed, same run: generator, initialisers, operators, selection, replacement and algorithms of EO.
#define E08_OF "evolution"
#include "e08.hpp"
#include <eoCombinedInit.h>
#include <eoG3Replacement.h>
#include <eoMGGReplacement.h>
#include <eoOneToOneBreeder.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <eoShiftMutation.h>
#include <eoSwapMutation.h>
#include <eoTwoOptMutation.h>
#include <eoStochasticUniversalSelect.h>
#include <eoSurviveAndDie.h>
#include <eoVariableLengthCrossover.h>
#include <eoVariableLengthMutation.h>
#include <utils/eoDistance.h>
#include <es/eoRealAtomXover.h>
#include <es/eoEsGlobalXover.h>
#include <es/eoEsStandardXover.h>
#include <es/CMAState.h>
#include <es/CMAParams.h>
#include <gp/eoParseTree.h>
#include <gp/eoParseTreeOp.h>
#include <gp/eoParseTreeDepthInit.h>

// ------------------------------------------------------------------ tools
static double worth(const Bit& b) { double f = 0; for (unsigned i = 0; i < b.size(); ++i) f += b[i] ? i + 1 : 0; return f; }
static double sphere(const Real& r) { double f = 0; for (double x : r) f -= (x - 0.3) * (x - 0.3); return f; }
template <class T> struct Ev : public eoEvalFunc<T> { double (*f)(const T&); Ev(double (*g)(const T&)) : f(g) {} void operator()(T& t) { if (t.invalid()) t.fitness(f(t)); } };
static eoPop<Bit> bits(unsigned n = 8, unsigned l = 7) { eoPop<Bit> p; for (unsigned k = 0; k < n; ++k) { Bit b(l, false); for (unsigned i = 0; i < l; ++i) b[i] = (k * 37 + 11) >> i & 1; b.fitness(worth(b)); p.push_back(b); } return p; }
static Real real(unsigned k, unsigned l = 3) { Real r; for (unsigned i = 0; i < l; ++i) r.push_back(0.25 * ((k * 7 + i * 3) % 9) - 0.8); r.fitness(sphere(r)); return r; }
static eoPop<Real> reals(unsigned n = 8) { eoPop<Real> p; for (unsigned k = 0; k < n; ++k) p.push_back(real(k)); return p; }
template <class P> static void show(std::ostream& o, const P& p) { for (auto& x : p) o << x << ";"; o << "#"; }
static Perm perm(unsigned n, unsigned k) { Perm p; for (unsigned i = 0; i < n; ++i) p.push_back((i * k + 1) % n); return p; }
template <class T> struct Gens : public eoContinue<T> { int n; Gens(int k) : n(k) {} bool operator()(const eoPop<T>&) { return --n > 0; } std::string className() const { return "Gens"; } };

// -------------------------------------------------------------- generator
PART("generator: plain draws") { for (int i = 0; i < 5; ++i) out << eo::rng.rand() << " " << eo::rng.uniform() << " " << eo::rng.random(17) << " " << eo::rng.flip(0.3) << ","; }
PART("generator: distributions") { for (int i = 0; i < 5; ++i) out << eo::rng.normal() << " " << eo::rng.normal(2) << " " << eo::rng.normal(1, 3) << " " << eo::rng.negexp(2) << " " << eo::rng.uniform(-3, 4) << ","; }
PART("generator: wheels") { std::vector<double> w = {1, 2, 3.5, 0.25}; std::vector<int> v = {7, 8, 9}; for (int i = 0; i < 6; ++i) out << eo::rng.roulette_wheel(w) << eo::rng.choice(v) << ","; }
PART("generators of values") { eoUniformGenerator<double> u(-1, 1); eoBooleanGenerator b(0.4); eoNormalGenerator<double> n(2); eoNegExpGenerator<double> e(3); eoUniformGenerator<int> i(0, 9); for (int k = 0; k < 4; ++k) out << u() << b() << n() << e() << i() << ","; }
PART("shuffling a container") { eoPop<Bit> p = bits(); p.shuffle(); show(out, p); std::vector<const Bit*> q; p.shuffle(q); for (auto x : q) out << *x; }

// ------------------------------------------------------------ initialisers
PART("initialise bits") { eoBooleanGenerator g; eoInitFixedLength<Bit> i(9, g); eoPop<Bit> p(4, i); show(out, p); }
PART("initialise variable length") { struct A : public eoInit<double> { void operator()(double& b) { b = eo::rng.uniform(); } } g; eoInitVariableLength<Real> i(1, 6, g); eoPop<Real> p(4, i); show(out, p); }
PART("initialise reals") { eoRealVectorBounds b(3, -2, 5); eoRealInitBounded<Real> i(b); eoPop<Real> p(4, i); show(out, p); }
PART("initialise permutations") { eoInitPermutation<Perm> i(7, 0); eoPop<Perm> p(4, i); show(out, p); }
PART("initialise self-adapting reals")
{
    eoRealVectorBounds b(2, -2, 5);
    { eoEsChromInit<eoEsSimple<double>> i(b, 0.3); eoPop<eoEsSimple<double>> p(2, i); show(out, p); }
    { eoEsChromInit<eoEsStdev<double>> i(b, 0.3); eoPop<eoEsStdev<double>> p(2, i); show(out, p); }
    { eoEsChromInit<eoEsFull<double>> i(b, 0.3); eoPop<eoEsFull<double>> p(2, i); show(out, p); }
}
PART("mixed initialiser") { eoBooleanGenerator g; eoInitFixedLength<Bit> a(3, g), b(5, g); eoCombinedInit<Bit> c(a, 0.5); c.add(b, 0.5); eoPop<Bit> p(5, c); show(out, p); }

// --------------------------------------------------------------- mutations
template <class Op> static void on_bits(std::ostream& o, Op& op) { for (auto b : bits(6)) { o << op(b) << b << ";"; } }
PART("bit mutation") { eoBitMutation<Bit> m(0.3); on_bits(out, m); }
PART("one bit flip") { eoOneBitFlip<Bit> m; on_bits(out, m); }
PART("several bit flips") { eoDetBitFlip<Bit> m(3); on_bits(out, m); }
PART("different bit flips") { eoDetSingleBitFlip<Bit> m(3); on_bits(out, m); }
PART("standard bit mutation") { eoStandardBitMutation<Bit> m(0.3); on_bits(out, m); }
PART("conditional bit mutation") { eoConditionalBitMutation<Bit> m(0.3); on_bits(out, m); }
PART("shifted bit mutation") { eoShiftedBitMutation<Bit> m(0.3); on_bits(out, m); }
PART("normal bit mutation") { eoNormalBitMutation<Bit> m(2, 1); on_bits(out, m); }
PART("fast bit mutation") { eoFastBitMutation<Bit> m(1.5); on_bits(out, m); }
PART("bucket bit mutation") { eoBucketBitMutation<Bit> m({{1, 2}, {3, 5}}, {0.5, 0.5}); on_bits(out, m); }
PART("uniform mutation") { eoRealVectorBounds b(3, -1, 2); eoUniformMutation<Real> m(0.5, 0.6), n(b, 0.5, 0.6); for (auto r : reals()) { m(r); out << r; n(r); out << r; } }
PART("deterministic uniform mutation") { eoRealVectorBounds b(3, -1, 2); eoDetUniformMutation<Real> m(0.5, 2), n(b, 0.5, 2); for (auto r : reals()) { m(r); out << r; n(r); out << r; } }
PART("normal mutation") { double s = 0.4; eoNormalMutation<Real> m(s, 0.7); for (auto r : reals()) { m(r); out << r; } }
PART("normal vector mutation") { eoRealVectorBounds b(3, -1, 2); eoNormalVecMutation<Real> m(b, 0.4, 0.7); for (auto r : reals()) { m(r); out << r; } }
PART("one fifth rule") { Ev<Real> e(sphere); double s = 0.4; eoOneFifthMutation<Real> m(e, s, 3, 0.8); for (auto r : reals()) { m(r); out << r; } out << s; }
PART("self-adapting mutations")
{
    eoRealVectorBounds b(2, -2, 5); std::vector<std::string> a = {"x"}; std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); eoParser ps(1, v.data()); eoEsMutationInit mi(ps);
    { eoEsChromInit<eoEsSimple<double>> i(b, 0.3); eoEsMutate<eoEsSimple<double>> m(mi, b); eoPop<eoEsSimple<double>> p(3, i); for (auto& x : p) m(x); show(out, p); }
    { eoEsChromInit<eoEsStdev<double>> i(b, 0.3); eoEsMutate<eoEsStdev<double>> m(mi, b); eoPop<eoEsStdev<double>> p(3, i); for (auto& x : p) m(x); show(out, p); }
    { eoEsChromInit<eoEsFull<double>> i(b, 0.3); eoEsMutate<eoEsFull<double>> m(mi, b); eoPop<eoEsFull<double>> p(3, i); for (auto& x : p) m(x); show(out, p); }
}
PART("swap mutation") { eoSwapMutation<Perm> m(2); for (int k : {2, 3, 4}) { Perm p = perm(7, k); m(p); out << p; } }
PART("shift mutation") { eoShiftMutation<Perm> m; for (int k : {2, 3, 4}) { Perm p = perm(7, k); m(p); out << p; } }
PART("inversion mutation") { eoTwoOptMutation<Perm> m; for (int k : {2, 3, 4}) { Perm p = perm(7, k); m(p); out << p; } }
PART("variable length mutations") { typedef eoReal<double> V; struct A : public eoInit<double> { void operator()(double& d) { d = eo::rng.uniform(); } } at; eoVlAddMutation<V> add(8, at); eoVlDelMutation<V> del(1); for (unsigned k = 0; k < 6; ++k) { V v = real(k, 4); add(v); del(v); out << v; } }

// -------------------------------------------------------------- crossovers
template <class Op, class P> static void pairs(std::ostream& o, Op& op, P p) { for (size_t k = 0; k + 1 < p.size(); k += 2) { o << op(p[k], p[k + 1]) << p[k] << p[k + 1] << ";"; } }
PART("one point crossover") { eo1PtBitXover<Bit> x; pairs(out, x, bits()); }
PART("uniform crossover") { eoUBitXover<Bit> x(0.4); pairs(out, x, bits()); }
PART("n point crossover") { eoNPtsBitXover<Bit> x(3); pairs(out, x, bits()); }
PART("gene crossover") { eoBitGxOver<Bit> x(2, 2); pairs(out, x, bits()); }
PART("segment crossover") { eoRealVectorBounds b(3, -1, 2); eoSegmentCrossover<Real> x(0.2), y(b, 0.2); pairs(out, x, reals()); pairs(out, y, reals()); }
PART("hypercube crossover") { eoRealVectorBounds b(3, -1, 2); eoHypercubeCrossover<Real> x(0.2), y(b, 0.2); pairs(out, x, reals()); pairs(out, y, reals()); }
PART("simulated binary crossover") { eoRealVectorBounds b(3, -1, 2); eoSBXCrossover<Real> x(2.0), y(b, 2.0); pairs(out, x, reals()); pairs(out, y, reals()); }
PART("real uniform crossover") { eoRealUXover<Real> x(0.4f); pairs(out, x, reals()); }
PART("order crossover") { eoOrderXover<Perm> x; eoPop<Perm> p; for (int k : {2, 3, 4, 5}) p.push_back(perm(7, k)); pairs(out, x, p); }
PART("cycle crossover") { eoPop<Perm> p; for (int k : {2, 3, 4, 5}) p.push_back(perm(7, k)); eoPartiallyMappedXover<Perm> x; pairs(out, x, p); }

// --------------------------------------------------------- combined operators
PART("proportional operators") { eoBitMutation<Bit> a(0.3); eoOneBitFlip<Bit> b; eoPropCombinedMonOp<Bit> m(a, 0.4); m.add(b, 0.6); on_bits(out, m); eo1PtBitXover<Bit> c; eoUBitXover<Bit> d; eoPropCombinedQuadOp<Bit> q(c, 0.5); q.add(d, 0.5); pairs(out, q, bits()); }
PART("general operators")
{
    eoBitMutation<Bit> a(0.3); eoUBitXover<Bit> c; eoDetTournamentSelect<Bit> t(2);
    eoSequentialOp<Bit> s; s.add(c, 0.7); s.add(a, 0.5); eoPop<Bit> p = bits(), k; eoGeneralBreeder<Bit> b(t, s); b(p, k); show(out, k);
    eoProportionalOp<Bit> r; r.add(c, 0.7); r.add(a, 0.5); k.clear(); eoGeneralBreeder<Bit> b2(t, r); b2(p, k); show(out, k);
}
PART("transform of the simple algorithm") { eoBitMutation<Bit> a(0.3); eoUBitXover<Bit> c; eoSGATransform<Bit> t(c, 0.6, a, 0.7); eoPop<Bit> p = bits(); t(p); show(out, p); }

// --------------------------------------------------------------- selections
template <class S> static void sel1(std::ostream& o, S& s) { eoPop<Bit> p = bits(); s.setup(p); for (int k = 0; k < 8; ++k) o << s(p) << ";"; }
PART("tournament selection") { eoDetTournamentSelect<Bit> s(2); sel1(out, s); }
PART("random tournament selection") { eoStochTournamentSelect<Bit> s(0.7); sel1(out, s); }
PART("roulette selection") { eoProportionalSelect<Bit> s; sel1(out, s); }
PART("universal sampling") { eoStochasticUniversalSelect<Bit> s; sel1(out, s); }
PART("random selection") { eoRandomSelect<Bit> s; sel1(out, s); eoBestSelect<Bit> b; sel1(out, b); eoNoSelect<Bit> n; sel1(out, n); }
PART("sequential selection") { eoSequentialSelect<Bit> s(false), u(true); sel1(out, s); sel1(out, u); eoEliteSequentialSelect<Bit> e; sel1(out, e); }
PART("ranking selection") { eoRankingSelect<Bit> s(1.7, 1.2); sel1(out, s); }
PART("scaling selection") { eoFitnessScalingSelect<Bit> s(1.7); sel1(out, s); }
PART("sharing selection") { struct D : public eoDistance<Bit> { double operator()(const Bit& a, const Bit& b) { double d = 0; for (unsigned i = 0; i < a.size(); ++i) d += a[i] != b[i]; return d; } } d; eoSharingSelect<Bit> s(3.0, d); sel1(out, s); }
PART("truncated selection") { eoDetTournamentSelect<Bit> t(2); eoTruncatedSelectOne<Bit> s(t, 0.5); sel1(out, s); eoTruncatedSelectMany<Bit> m(t, 0.5, 0.75); eoPop<Bit> p = bits(), q; m(p, q); show(out, q); }
PART("selection of several") { eoRandomSelect<Bit> r; eoSelectPerc<Bit> a(r, 0.5); eoSelectNumber<Bit> b(r, 5); eoSelectMany<Bit> c(r, 0.75); eoDetSelect<Bit> d(0.6); eoPop<Bit> p = bits(), q; a(p, q); show(out, q); q.clear(); b(p, q); show(out, q); q.clear(); c(p, q); show(out, q); q.clear(); d(p, q); show(out, q); }

// -------------------------------------------------------------- replacements
template <class R> static void rep(std::ostream& o, R& r, unsigned kids = 8) { eoPop<Bit> p = bits(), k = bits(16); k.erase(k.begin(), k.begin() + (16 - kids)); r(p, k); show(o, p); }
PART("evolutionary programming replacement") { eoEPReplacement<Bit> r(3); rep(out, r); }
PART("tournament replacements") { eoSSGADetTournamentReplacement<Bit> a(3); rep(out, a, 3); eoSSGAStochTournamentReplacement<Bit> b(0.7); rep(out, b, 3); eoSSGAWorseReplacement<Bit> c; rep(out, c, 3); }
PART("fixed: survive and die replacement") { eoDeterministicSaDReplacement<Bit> r(0.2, 0.2, 0.5, 0.1); rep(out, r); }
PART("family replacement") { eoMGGReplacement<Bit> r(-2, 2); rep(out, r); eoG3Replacement<Bit> g(-2); rep(out, g); }
PART("truncation") { eoPlusReplacement<Bit> a; rep(out, a); eoCommaReplacement<Bit> b; rep(out, b); eoWeakElitistReplacement<Bit> w(b); rep(out, w); eoPop<Bit> p = bits(), q; eoRandomReduce<Bit> r0; eoReduce<Bit>& r = r0; r(p, 5); show(out, p); p = bits(); eoDetTournamentTruncate<Bit> t(2); t(p, 5); show(out, p); p = bits(); eoStochTournamentTruncate<Bit> u(0.7); u(p, 5); show(out, p); p = bits(); eoEPReduce<Bit> e(2); e(p, 5); show(out, p); }
PART("fixed: ties between equals") { eoPop<Bit> p = bits(); for (auto& b : p) b.fitness(1); eoPop<Bit> q = p; p.sort(); show(out, p); q.nth_element(3); show(out, q); eoPlusReplacement<Bit> r; eoPop<Bit> a = q, k = q; r(a, k); show(out, a); std::vector<const Bit*> v; q.sort(v); for (auto x : v) out << *x; }

// ---------------------------------------------------------------- algorithms
PART("simple genetic algorithm") { Ev<Bit> e(worth); eoDetTournamentSelect<Bit> s(2); eo1PtBitXover<Bit> x; eoBitMutation<Bit> m(0.1); Gens<Bit> g(4); eoSGA<Bit> a(s, x, 0.7, m, 0.5, e, g); eoPop<Bit> p = bits(); a(p); show(out, p); }
PART("evolutionary algorithm") { Ev<Bit> e(worth); eoStochTournamentSelect<Bit> s(0.8); eoUBitXover<Bit> x; eoBitMutation<Bit> m(0.1); eoSequentialOp<Bit> op; op.add(x, 0.6); op.add(m, 0.8); eoGeneralBreeder<Bit> b(s, op); eoSSGADetTournamentReplacement<Bit> r(3); eoCommaReplacement<Bit> c; Gens<Bit> g(4); eoEasyEA<Bit> a(g, e, b, c); eoPop<Bit> p = bits(); a(p); show(out, p); }
PART("fast genetic algorithm") { Ev<Bit> e(worth); eoPopLoopEval<Bit> pe(e); eoRandomSelect<Bit> s; eoUBitXover<Bit> x; eoStandardBitMutation<Bit> m(0.2); eoPlusReplacement<Bit> r; Gens<Bit> g(4); eoFastGA<Bit> a(0.5, s, x, s, 0.5, s, m, pe, r, g, 6); eoPop<Bit> p = bits(); a(p); show(out, p); }
PART("differential-like breeder") { Ev<Bit> e(worth); eoOneBitFlip<Bit> f; eoMonGenOp<Bit> o(f); eoOneToOneBreeder<Bit> b(o, e, 0.8); eoPop<Bit> p = bits(), k; b(p, k); show(out, k); }
PART("restarting algorithm") { Ev<Bit> e(worth); eoPopLoopEval<Bit> pe(e); eoBooleanGenerator bg; eoInitFixedLength<Bit> i(7, bg); eoDetTournamentSelect<Bit> s(2); eo1PtBitXover<Bit> x; eoBitMutation<Bit> m(0.1); Gens<Bit> g(2), outer(2); eoSGA<Bit> a(s, x, 0.7, m, 0.5, e, g); eoAlgoPopReset<Bit> reset(i, pe); eoAlgoRestart<Bit> r(pe, a, outer, reset); eoPop<Bit> p = bits(); r(p); show(out, p); }
typedef eoRealParticle<double> Part1;
struct PEv : public eoEvalFunc<Part1> { void operator()(Part1& p) { double f = 0; for (double x : p) f -= x * x; p.fitness(f); } };
template <template <class> class A> static void swarm(std::ostream& o, int kind)
{
    typedef Part1 P; PEv e; eoUniformGenerator<double> place(-4, 4), push(-1, 1); eoInitFixedLength<P> init(2, place); eoVelocityInitFixedLength<P> vinit(2, push); eoFirstIsBestInit<P> first; eoPop<P> pop(5, init);
    eoLinearTopology<P> lin(2); eoStarTopology<P> star; eoRingTopology<P> ring(3); eoTopology<P>& t = kind == 0 ? (eoTopology<P>&)lin : kind == 1 ? (eoTopology<P>&)star : (eoTopology<P>&)ring;
    eoStandardVelocity<P> v(t, 0.5, 1.5, 2.0); eoStandardFlight<P> fly; Gens<P> g(3); eoInitializer<P> start(e, vinit, first, t, pop); eoContinue<P>& cc = g; eoCheckPoint<P> cp(cc); A<P> a(start, cp, e, v, fly); a(pop); for (auto& x : pop) { for (double d : x) o << d << " "; for (double d : x.velocities) o << d << " "; }
}
PART("particle swarm, line") { swarm<eoEasyPSO>(out, 0); }
PART("particle swarm, star") { swarm<eoEasyPSO>(out, 1); }
PART("synchronous particle swarm, ring") { swarm<eoSyncEasyPSO>(out, 2); }
PART("binary flight") { typedef eoBitParticle<double> P; eoPop<P> p; for (int k = 0; k < 4; ++k) { P x(3, 0, 0.5 * k - 1, 0); x.fitness(1); p.push_back(x); } eoSigBinaryFlight<P> f(1); for (auto& x : p) { f(x); for (bool b : x) out << b; } }
PART("covariance matrix adaptation")
{
    std::vector<double> start = {0.2, -0.4, 1}; eo::CMAParams par; par.n = 3; par.lambda = 4; par.maxgen = 10; std::vector<std::string> a = {"x"}; std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); eoParser ps(1, v.data()); eo::CMAParams q(ps, 3); q.lambda = 4; q.mu = 2; eo::CMAState st(q, start);
    std::vector<double> x; for (int k = 0; k < 6; ++k) { st.sample(x); for (double d : x) out << d << " "; }
}

// ------------------------------------------------------------------- trees
struct Nd { char c; Nd(char k = 'x') : c(k) {} int arity() const { return c == '+' ? 2 : c == 'n' ? 1 : 0; } void randomize() { if (c == 'r') v = eo::rng.uniform(); } double v = 0; template <class R, class It> void operator()(R&, It) const {} };
static bool operator==(const Nd& a, const Nd& b) { return a.c == b.c; }
static std::ostream& operator<<(std::ostream& o, const Nd& n) { return o << n.c << (n.c == 'r' ? std::to_string(n.v) : ""); }
static std::istream& operator>>(std::istream& i, Nd& n) { return i >> n.c; }
typedef eoParseTree<double, Nd> Tree;
static void tree(std::ostream& o, Tree& t) { for (size_t i = 0; i < t.size(); ++i) o << t[i].operator*(); o << ";"; }
static std::vector<Nd> nodes() { return {Nd('x'), Nd('r'), Nd('n'), Nd('+')}; }
PART("initialise trees") { eoParseTreeDepthInit<double, Nd> full(4, nodes(), false), grow(4, nodes(), true); for (int k = 0; k < 4; ++k) { Tree t; full(t); tree(out, t); grow(t); tree(out, t); } }
PART("ramped trees") { eoParseTreeDepthInit<double, Nd> grow(4, nodes(), true, true); eoPop<Tree> p(6, grow); for (auto& t : p) tree(out, t); }
PART("tree operators")
{
    eoParseTreeDepthInit<double, Nd> full(3, nodes(), false), grow(2, nodes(), true); Tree a, b; full(a); full(b); eoSubtreeXOver<double, Nd> x(40); x(a, b); tree(out, a); tree(out, b);
    eoBranchMutation<double, Nd> br(grow, 40); br(a); tree(out, a); std::vector<Nd> n = nodes(); eoPointMutation<double, Nd> pt(n); pt(a); tree(out, a); eoHoistMutation<double, Nd> h; h(b); tree(out, b); eoExpansionMutation<double, Nd> ex(grow, 40); ex(a); tree(out, a); eoCollapseSubtreeMutation<double, Nd> co(grow, 40); co(a); tree(out, a);
}
