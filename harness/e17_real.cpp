// Operators and initialisation of real vectors assembled from the text of parameters.
#include "e17.hpp"
#include <es/make_genotype_real.h>
#include <es/make_op_real.h>
typedef std::map<std::string, double> Dist;
static Dist dist_of(unsigned k, const std::function<std::string()>& f) { Dist d; forall([&] { rng_grid(k, 40); eo::rng.clearCache(); std::string s = f(); d[s] += leaf_prob(); }); rng_off(); return d; }
static std::string show(const Dist& d) { std::ostringstream o; for (auto& x : d) o << x.first << "=" << x.second << " "; return o.str(); }
static void same(const Dist& got, const Dist& want, const std::string& key, const std::string& what)
{
    std::set<std::string> all; for (auto& x : got) all.insert(x.first); for (auto& x : want) all.insert(x.first);
    for (auto& k : all) { double g = got.count(k) ? got.at(k) : 0, w = want.count(k) ? want.at(k) : 0; MC_CHECK(std::fabs(g - w) < 1e-6, key, what << ": outcomes " << show(got) << " instead of " << show(want)); }
}
static std::string text(double d) { std::ostringstream o; o << d; return o.str(); }
// what happened to (0,0) and (1,2): copied, mixed with one factor, with two, or coordinates exchanged
static std::string kind(const Real& a, const Real& b)
{
    if (a[0] == 0 && a[1] == 0 && b[0] == 1 && b[1] == 2) return "copied";
    auto corner = [](double v, double m) { return v == 0 || v == m; };
    if (corner(a[0], 1) && corner(a[1], 2)) return "exchanged";
    return std::fabs(a[1] - 2 * a[0]) < 1e-9 ? "segment" : "hypercube";
}
// crossovers are compared with themselves alone, so that exact coincidences count the same way
MC_SCENARIO("crossovers of real vectors")
{
    quiet(); Silent silent; const unsigned K = 4;
    double pc = choose(3) / 2.0, seg = choose(2), cube = choose(2), ux = seg + cube < 2 ? choose(2) : 0;
    Args a; a.set("vecSize", "2").set("pCross", text(pc)).set("pMut", "0").set("segmentRate", text(seg)).set("hypercubeRate", text(cube)).set("uxoverRate", text(ux));
    eoParser parser(a.argc(), a.argv()); eoState state; eoRealInitBounded<Real>& init = do_make_genotype<Real>(parser, state, Real()); eoGenOp<Real>& op = do_make_op<Real>(parser, state, init);
    eoPop<Real> src; src.push_back(Real(2, 0.0)); Real b; b.push_back(1); b.push_back(2); src.push_back(b); for (auto& x : src) x.fitness(0);
    auto apply = [&](eoGenOp<Real>& o) { eoPop<Real> dest; eoSeqPopulator<Real> it(src, dest); o(it); return kind(dest[0], dest[1]); };
    eoSegmentCrossover<Real> x1; eoHypercubeCrossover<Real> x2; eoRealUXover<Real> x3; eoQuadGenOp<Real> g1(x1), g2(x2), g3(x3);
    Dist want; double sum = seg + cube + ux, p = sum > 0 ? pc : 0; want["copied"] += 1 - p;
    for (auto& r : std::vector<std::pair<double, eoGenOp<Real>*>>{{seg, &g1}, {cube, &g2}, {ux, &g3}}) if (r.first > 0 && p > 0) for (auto& x : dist_of(K, [&] { return apply(*r.second); })) want[x.first] += p * r.first / sum * x.second;
    Dist got = dist_of(K, [&] { return apply(op); });
    same(got, want, sum > 0 ? "crossover" : "no crossover", a.str()); mc::state(mc::hash(show(got)));
}
MC_SCENARIO("mutations of real vectors")
{
    quiet(); Silent silent; const unsigned K = 2;
    double pm = choose(3) / 2.0, uni = choose(2), det = choose(2), nor = uni + det < 2 ? choose(2) : 0; double eps = pick(std::vector<double>{0.01, 0.25}), sigma = pick(std::vector<double>{1, 3}), pn = choose(2);
    Args a; a.set("vecSize", "2").set("pCross", "0").set("pMut", text(pm)).set("uniformMutRate", text(uni)).set("detMutRate", text(det)).set("normalMutRate", text(nor)).set("epsilon", text(eps)).set("sigma", text(sigma)).set("pNormal", text(pn));
    eoParser parser(a.argc(), a.argv()); eoState state; eoRealInitBounded<Real>& init = do_make_genotype<Real>(parser, state, Real()); eoGenOp<Real>& op = do_make_op<Real>(parser, state, init);
    eoPop<Real> src; src.resize(2, Real(2, 0.0)); for (auto& x : src) x.fitness(0);
    auto apply = [&](eoGenOp<Real>& o) { eoPop<Real> dest; eoSeqPopulator<Real> it(src, dest); o(it); return text(dest[0][0]) + "," + text(dest[0][1]); };
    eoRealVectorBounds none(2, eoDummyRealNoBounds); eoUniformMutation<Real> m1(none, eps); eoDetUniformMutation<Real> m2(none, eps); eoNormalVecMutation<Real> m3(none, sigma, pn); eoMonGenOp<Real> g1(m1), g2(m2), g3(m3);
    Dist want; double sum = uni + det + nor, p = sum > 0 ? pm : 0; want["0,0"] += 1 - p;
    for (auto& r : std::vector<std::pair<double, eoGenOp<Real>*>>{{uni, &g1}, {det, &g2}, {nor, &g3}}) if (r.first > 0 && p > 0) for (auto& x : dist_of(K, [&] { return apply(*r.second); })) want[x.first] += p * r.first / sum * x.second;
    Dist got = dist_of(K, [&] { return apply(op); });
    // Gaussian draws reject some words, which cuts some of the runs: compare what can come out
    if (nor > 0) { for (auto& x : got) MC_CHECK(want.count(x.first) && want[x.first] > 0, "mutation", a.str() << ": " << x.first << " cannot come out, only " << show(want)); for (auto& x : want) MC_CHECK(x.second <= 0 || got.count(x.first), "mutation", a.str() << ": " << x.first << " never comes out"); }
    else same(got, want, sum > 0 ? "mutation" : "no mutation", a.str());
    mc::state(mc::hash(show(got)));
}
MC_SCENARIO("neither crossover nor mutation is refused")
{
    quiet(); rng_off(); Silent silent; bool cross = choose(2), mut = choose(2); std::string c = cross ? "1" : "0", m = mut ? "1" : "0"; Args a; a.set("vecSize", "2").set("segmentRate", c).set("hypercubeRate", c).set("uxoverRate", c).set("uniformMutRate", m).set("detMutRate", m).set("normalMutRate", m);
    eoParser parser(a.argc(), a.argv()); eoState state; eoRealInitBounded<Real>& init = do_make_genotype<Real>(parser, state, Real()); bool threw = false;
    try { do_make_op<Real>(parser, state, init); } catch (const std::exception&) { threw = true; }
    MC_CHECK(threw == (!cross && !mut), "no operator", a.str() << (threw ? "refused" : "accepted")); mc::state(cross * 2 + mut);
}
MC_SCENARIO("invalid rates of real operators are refused")
{
    quiet(); rng_off(); Silent silent; static const std::vector<std::pair<std::string, std::string>> bad{{"pCross", "-0.1"}, {"pCross", "1.5"}, {"pMut", "-1"}, {"pMut", "2"}, {"alpha", "-1"}, {"segmentRate", "-1"}, {"hypercubeRate", "-1"}, {"uxoverRate", "-1"}, {"epsilon", "-1"}, {"uniformMutRate", "-1"}, {"detMutRate", "-1"}, {"normalMutRate", "-1"}, {"operator", "none"}, {"pCross", "0"}, {"alpha", "0.5"}};
    size_t i = choose(uint32_t(bad.size())); Args a; a.set("vecSize", "2").set(bad[i].first, bad[i].second); eoParser parser(a.argc(), a.argv()); eoState state; eoRealInitBounded<Real>& init = do_make_genotype<Real>(parser, state, Real()); bool threw = false;
    try { do_make_op<Real>(parser, state, init); } catch (const std::exception&) { threw = true; }
    MC_CHECK(threw == (i < 13), bad[i].first, a.str() << (threw ? "is refused" : "is accepted")); mc::state(i);
}
MC_SCENARIO("operators stay inside the given bounds")
{
    quiet(); Silent silent; double lo = pick(std::vector<double>{-1, 0}), hi = pick(std::vector<double>{0.5, 2}); unsigned which = choose(6); bool mut = which > 2; static const char* rates[] = {"segmentRate", "hypercubeRate", "uxoverRate", "uniformMutRate", "detMutRate", "normalMutRate"}; std::string b = "2[" + text(lo) + "," + text(hi) + "]";
    Args a; a.set("vecSize", "2").set("initBounds", b).set("objectBounds", b).set("alpha", "0.5").set("pCross", mut ? "0" : "1").set("pMut", mut ? "1" : "0").set("epsilon", "1"); for (unsigned i = 0; i < 6; ++i) a.set(rates[i], i == which ? "1" : "0");
    eoParser parser(a.argc(), a.argv()); eoState state; eoRealInitBounded<Real>& init = do_make_genotype<Real>(parser, state, Real()); eoGenOp<Real>& op = do_make_op<Real>(parser, state, init);
    eoPop<Real> src; src.push_back(Real(2, lo)); src.push_back(Real(2, hi)); for (auto& x : src) x.fitness(0);
    forall([&] { rng_words(tier(std::vector<uint32_t>{0, 0x60000000u, 0xffffffffu}, std::vector<uint32_t>{0, 0x30000000u, 0x60000000u, 0xe0000000u, 0xffffffffu}), 12); eo::rng.clearCache(); eoPop<Real> dest; eoSeqPopulator<Real> it(src, dest); op(it); for (auto& x : dest) for (double v : x) MC_CHECK(v >= lo && v <= hi, "bounds", a.str() << ": " << v); mc::state(mc::hashv(dest[0])); });
    forall([&] { rng_grid(8, 40); Real r; init(r); MC_CHECK(r.size() == 2, "size", "a vector of " << r.size()); for (double v : r) MC_CHECK(v >= lo && v <= hi, "initial bounds", a.str() << ": starts at " << v); mc::state(mc::hashv(r)); });
}
