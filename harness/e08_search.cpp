// Same seed, same run: local search, landscapes, benchmark problems and multi-objective algorithms.
#define E08_OF "search"
#include "e08.hpp"
#include <mo>
#include <moeo>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitsWithReplNeighborhood.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/bitString/moBitFlipNeighborhood.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <utils/eoDistance.h>
#include <eval/nkLandscapesEval.h>
#include <eval/royalRoadEval.h>

typedef moBitNeighbor<double> N;
static double worth(const Bit& b) { double f = 0; for (unsigned i = 0; i < b.size(); ++i) f += b[i] ? (i * 5 + 3) % 7 : (i * 3) % 4; return f + ((b[0] != b[1]) ? 2 : 0); }
struct Full : public eoEvalFunc<Bit> { void operator()(Bit& b) { b.fitness(worth(b)); } };
struct Near : public moEval<N> { void operator()(Bit& b, N& n) { Bit c = b; n.move(c); n.fitness(worth(c)); } };
struct FlatFull : public eoEvalFunc<Bit> { void operator()(Bit& b) { b.fitness(1); } };
struct FlatNear : public moEval<N> { void operator()(Bit&, N& n) { n.fitness(1); } };
static const unsigned L = 8;
static Bit at(unsigned k) { Bit b(L, false); for (unsigned i = 0; i < L; ++i) b[i] = k >> i & 1; return b; }
static void finish(std::ostream& o, Bit& b) { o << b << ";"; }
struct Kit { Full full; Near near; moOrderNeighborhood<N> order{L}; moRndWithReplNeighborhood<N> rnd{L, 20}; moRndWithoutReplNeighborhood<N> mix{L}; eoBooleanGenerator<> g; eoInitFixedLength<Bit> init{L, g}; moIterContinuator<N> cont{6}; };

PART("neighbours with replacement") { Kit k; Bit b = at(5); k.full(b); N n; k.rnd.init(b, n); for (int i = 0; i < 6 && k.rnd.cont(b); ++i) { k.rnd.next(b, n); out << n.index() << " "; } }
PART("neighbours without replacement") { Kit k; Bit b = at(5); k.full(b); N n; k.mix.init(b, n); out << n.index(); while (k.mix.cont(b)) { k.mix.next(b, n); out << " " << n.index(); } }
PART("several bits with replacement") { typedef moBitsNeighbor<Bit> M; moBitsWithReplNeighborhood<M> h(L, 3, 6); Bit b = at(9); Full f; f(b); M n; h.init(b, n); for (int i = 0; i < 5; ++i) { Bit c = b; n.move(c); out << c; if (!h.cont(b)) break; h.next(b, n); } }
PART("several bits without replacement") { typedef moBitsNeighbor<Bit> M; moBitsWithoutReplNeighborhood<M> h(L, 2, 6); Bit b = at(9); Full f; f(b); M n; h.init(b, n); for (int i = 0; i < 5; ++i) { Bit c = b; n.move(c); out << c; if (!h.cont(b)) break; h.next(b, n); } }
PART("flips at a rate") { typedef moBitsNeighbor<Bit> M; moBitFlipNeighborhood<M> h(0.4, L, 6); Bit b = at(9); Full f; f(b); M n; h.init(b, n); for (int i = 0; i < 5; ++i) { Bit c = b; n.move(c); out << c; if (!h.cont(b)) break; h.next(b, n); } }
PART("first improvement") { Kit k; moFirstImprHC<N> a(k.mix, k.full, k.near); Bit b = at(1); a(b); finish(out, b); moFirstImprHC<N> a2(k.mix, k.full, k.near, k.cont); b = at(2); a2(b); finish(out, b); out << eo::rng.rand(); }
PART("random best improvement") { FlatFull f; FlatNear n; Kit k; moRandomBestHC<N> a(k.order, k.full, k.near); Bit b = at(1); a(b); finish(out, b); out << eo::rng.rand(); }
PART("neutral climbing") { FlatFull f; FlatNear n; Kit k; moNeutralHC<N> a(k.order, f, n, 5); Bit b = at(1); a(b); finish(out, b); }
PART("random walk") { Kit k; moRandomWalk<N> a(k.rnd, k.full, k.near, 7); Bit b = at(1); a(b); finish(out, b); }
PART("random neutral walk") { FlatFull f; FlatNear n; Kit k; moRandomNeutralWalk<N> a(k.mix, f, n, 7); Bit b = at(1); a(b); finish(out, b); }
PART("Metropolis-Hastings") { Kit k; moMetropolisHasting<N> a(k.rnd, k.full, k.near, 9); Bit b = at(1); a(b); finish(out, b); }
PART("simulated annealing") { Kit k; moSA<N> a(k.rnd, k.full, k.near, 5, 0.7, 3, 0.5); Bit b = at(1); a(b); finish(out, b); }
PART("dynamic annealing") { Kit k; moDynSpanCoolingSchedule<Bit> c(5.0, 0.7, 4, 2, 2); moSA<N> a(k.rnd, k.full, k.near, c, k.cont); Bit b = at(1); a(b); finish(out, b); }
PART("tabu with random tenure") { Kit k; moIndexedVectorTabuList<N> t(2, 4, L); moBestImprAspiration<N> asp; moTS<N> a(k.order, k.full, k.near, k.cont, t, asp); Bit b = at(1); a(b); finish(out, b); out << eo::rng.rand(); }
PART("iterated search") { Kit k; moFirstImprHC<N> in(k.mix, k.full, k.near); eoBitMutation<Bit> m(0.4); moILS<N> a(in, k.full, m, 4); Bit b = at(1); a(b); finish(out, b); out << eo::rng.rand(); }
PART("restarted search") { Kit k; moIterContinuator<N> one(1); moFirstImprHC<N> in(k.mix, k.full, k.near, one); moRestartPerturb<N> p(k.init, k.full, 1); moAlwaysAcceptCrit<N> acc; moIterContinuator<moDummyNeighbor<Bit>> c(4); moILS<N> a(in, k.full, c, p, acc); Bit b = at(1); a(b); finish(out, b); }
PART("random search") { Kit k; moRandomSearch<N> a(k.init, k.full, 6); Bit b = at(1); a(b); finish(out, b); }
PART("perturbation by neighbours") { Kit k; moNeighborhoodPerturb<N, N> p(k.rnd, k.near); Bit b = at(3); k.full(b); p.init(b); for (int i = 0; i < 4; ++i) { p(b); out << b; } }
PART("random choice of neighbourhoods") { Kit k; moIterContinuator<N> one(1); moFirstImprHC<N> l1(k.mix, k.full, k.near, one), l2(k.order, k.full, k.near, one); eoBitMutation<Bit> m1(0.2), m2(0.6); moRndVectorVNSelection<Bit> s(l1, m1, true); s.add(l2, m2); moAlwaysAcceptCrit<N> acc; moIterContinuator<N> c(4); moVNS<N> a(s, acc, k.full, c); Bit b = at(1); a(b); finish(out, b); }
template <class S> static void stat(std::ostream& o, S& s, unsigned n) { s(); for (unsigned i = 0; i < n; ++i) for (double d : s.getValues(i)) o << d << " "; }
PART("density of states") { Kit k; moDensityOfStatesSampling<N> s(k.init, k.full, 5); s(); for (double d : s.getValues(0)) out << d << " "; }
PART("autocorrelation") { Kit k; moAutocorrelationSampling<N> s(k.init, k.rnd, k.full, k.near, 6); s(); for (double d : s.getValues(0)) out << d << " "; }
PART("adaptive walks") { Kit k; moAdaptiveWalkSampling<N> s(k.init, k.mix, k.full, k.near, 4); s(); for (double d : s.getValues(0)) out << d << " "; out << eo::rng.rand(); }
PART("fitness clouds") { Kit k; moRndRndFitnessCloudSampling<N> a(k.init, k.rnd, k.full, k.near, 5); a(); for (double d : a.getValues(0)) out << d << " "; moMHRndFitnessCloudSampling<N> b(k.init, k.rnd, k.full, k.near, 5); b(); for (double d : b.getValues(0)) out << d << " "; }
PART("neutral walk sampling") { Kit k; FlatFull f; FlatNear n; eoHammingDistance<Bit> h; Bit from = at(6); moNeutralWalkSampling<N> s(from, k.mix, f, n, h, 4); s(); for (double d : s.getValues(0)) out << d << " "; out << eo::rng.rand(); }
PART("random NK landscape") { nkLandscapesEval<Bit> nk(6, 2), nc(6, 2, true); for (unsigned x = 0; x < 64; x += 7) { Bit b(6, false); for (int i = 0; i < 6; ++i) b[i] = x >> i & 1; nk(b); out << b.fitness() << " "; b.invalidate(); nc(b); out << b.fitness() << " "; } }

// ------------------------------------------------------------- many objectives
typedef moeoObjectiveVectorTraits Dir; typedef moeoRealObjectiveVector<Dir> OV; typedef moeoBitVector<OV> BV;
static void two() { Mute m; std::vector<bool> way{true, false}; Dir::setup(2, way); }
struct MEv : public eoEvalFunc<BV> { void operator()(BV& s) { double a = 0, b = 0; for (unsigned i = 0; i < s.size(); ++i) { a += s[i] ? (i * 5 + 3) % 7 : 0; b += s[i] ? (i * 2 + 1) % 5 : 1; } OV v; v[0] = a; v[1] = b; s.objectiveVector(v); } };
static eoPop<BV> start() { two(); eoPop<BV> p; for (unsigned k = 0; k < 8; ++k) { BV b(L); for (unsigned i = 0; i < L; ++i) b[i] = (k * 37 + 11) >> i & 1; p.push_back(b); } return p; }
static void show(std::ostream& o, const eoPop<BV>& p) { for (auto& s : p) { for (bool b : std::vector<bool>(s.begin(), s.end())) o << b; if (!s.invalidObjectiveVector()) o << ":" << s.objectiveVector(); if (!s.invalidFitness()) o << ":" << double(s.fitness()); o << ";"; } }
struct MKit { MEv e; eoUBitXover<BV> x; eoBitMutation<BV> m{0.2}; eoPop<BV> p = start(); moeoUnboundedArchive<BV> arch; moeoAdditiveEpsilonBinaryMetric<OV> eps; };
PART("NSGA-II") { MKit k; moeoNSGAII<BV> a(4, k.e, k.x, 0.8, k.m, 0.6); a(k.p); show(out, k.p); }
PART("NSGA") { MKit k; moeoNSGA<BV> a(4, k.e, k.x, 0.8, k.m, 0.6); a(k.p); show(out, k.p); }
PART("MOGA") { MKit k; moeoMOGA<BV> a(4, k.e, k.x, 0.8, k.m, 0.6); a(k.p); show(out, k.p); }
PART("IBEA") { MKit k; moeoIBEA<BV> a(4, k.e, k.x, 0.8, k.m, 0.6, k.eps, 0.05); a(k.p); show(out, k.p); }
PART("SPEA2") { MKit k; moeoSPEA2<BV> a(4, k.e, k.x, 0.8, k.m, 0.6, k.arch); a(k.p); show(out, k.p); show(out, k.arch); }
PART("SEEA") { MKit k; moeoSEEA<BV> a(4, k.e, k.x, 0.8, k.m, 0.6, k.arch); a(k.p); show(out, k.arch); }
PART("ASEEA") { MKit k; moeoASEEA<BV> a(4, k.e, k.x, 0.8, k.m, 0.6, k.arch, 5); a(k.p); show(out, k.arch); }
PART("multi-objective tournaments") { MKit k; for (auto& s : k.p) { k.e(s); s.fitness(s.objectiveVector()[0]); s.diversity(s.objectiveVector()[1]); } moeoDetTournamentSelect<BV> d(2); moeoStochTournamentSelect<BV> s(0.7); moeoRandomSelect<BV> r; moeoRouletteSelect<BV> w(2); for (int i = 0; i < 4; ++i) out << d(k.p).objectiveVector() << s(k.p).objectiveVector() << r(k.p).objectiveVector() << w(k.p).objectiveVector(); }
PART("selection from an archive") { MKit k; for (auto& s : k.p) { k.e(s); s.fitness(0); s.diversity(0); } k.arch(k.p); moeoRandomSelect<BV> r; moeoSelectFromPopAndArch<BV> a(r, k.arch, 0.5); for (int i = 0; i < 6; ++i) out << a(k.p).objectiveVector(); moeoDetArchiveSelect<BV> d(k.arch, 5, 1); eoPop<BV> q; d(k.p, q); show(out, q); }
PART("unvisited solutions") { MKit k; for (auto& s : k.p) k.e(s); moeoNumberUnvisitedSelect<BV> n(3); for (unsigned i : n(k.p)) out << i << " "; out << eo::rng.rand(); }
struct Flip : public moIndexNeighbor<BV, OV> { void move(BV& s) { s[this->key] = !s[this->key]; } };
struct FEv : public moEval<Flip> { MEv e; void operator()(BV& s, Flip& n) { BV c = s; n.move(c); c.invalidateObjectiveVector(); e(c); n.fitness(c.objectiveVector()); } };
PART("dominance-based local search")
{
    MKit k; FEv inc; moRndWithoutReplNeighborhood<Flip> h(L); moeoSimpleSubNeighborhoodExplorer<Flip> ex(h, 2, inc); moeoNumberUnvisitedSelect<BV> sel(2); eoGenContinue<BV> c(4);
    moeoUnifiedDominanceBasedLS<Flip> a(c, k.e, k.arch, ex, sel); a(k.p); show(out, k.arch);
}
PART("first improving local search") { MKit k; FEv inc; moRndWithoutReplNeighborhood<Flip> h(L); moeoFirstImprovingNeighborhoodExplorer<Flip> ex(h, inc); moeoExhaustiveUnvisitedSelect<BV> sel; eoGenContinue<BV> c(4); moeoUnifiedDominanceBasedLS<Flip> a(c, k.e, k.arch, ex, sel); a(k.p); show(out, k.arch); out << eo::rng.rand(); }
