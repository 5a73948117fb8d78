// Multi-objective algorithms assembled from the text of parameters.
#include "e17.hpp"
#include "moeo.hpp"
#include <do/make_ea_moeo.h>
#include <do/make_continue_moeo.h>
#include <do/make_checkpoint_moeo.h>
typedef moeoBitVector<OV> MB;
static std::vector<double> objectives(const MB& b) { double f = 0, g = 0; for (unsigned i = 0; i < b.size(); ++i) { f += b[i] ? (i * 3 + 2) % 5 : 0; g += b[i] ? 0 : (i * 2 + 1) % 4; } return {f, g}; }
struct MEval : public moeoEvalFunc<MB> { void operator()(MB& b) { b.objectiveVector(ov(objectives(b))); } };
struct MStep : public eoMonOp<MB> { unsigned k = 0; bool operator()(MB& b) { unsigned i = k++ * 3 % b.size(); b[i] = !b[i]; return true; } };
static eoPop<MB> start(unsigned n = 6) { eoPop<MB> p; for (unsigned i = 0; i < n; ++i) { MB b(5); for (unsigned j = 0; j < 5; ++j) b[j] = ((i * 11 + 5) % 32) >> j & 1; p.push_back(b); } return p; }
static std::string run(moeoEA<MB>& algo, Trace<MB>& t) { eoPop<MB> p = start(); algo(p); std::ostringstream o; o << t.log; for (auto& x : p) o << x << " " << (x.invalidFitness() ? -1e9 : double(x.fitness())) << " " << (x.invalidDiversity() ? -1e9 : double(x.diversity())) << ";"; return o.str(); }
static void assembly(const std::string& fit, const std::string& ind, const std::string& rho, const std::string& kappa, const Call& div, const std::string& cmp, const Call& sel, const std::string& rep, const std::string& off, const std::string& key)
{
    Args a; a.set("fitness", fit).set("indicator", ind).set("rho", rho).set("kappa", kappa).set("diversity", div.text).set("comparator", cmp).set("selection", sel.text).set("replacement", rep).set("nbOffspring", off);
    for (uint32_t seed = 1; seed <= tier(1u, 3u); ++seed) {
        std::string got = outcome(seed, [&] { eoParser parser(a.argc(), a.argv()); eoState state; MEval e; Trace<MB> t(3); MStep st; eoMonGenOp<MB> op(st); moeoUnboundedArchive<MB> arch; return run(do_make_ea_moeo<MB>(parser, state, e, t, op, arch), t); });
        std::string want = outcome(seed, [&] {
            std::unique_ptr<moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>> m; std::unique_ptr<moeoFitnessAssignment<MB>> f; std::unique_ptr<moeoDiversityAssignment<MB>> d; std::unique_ptr<moeoComparator<MB>> c; std::unique_ptr<moeoSelectOne<MB>> s; std::unique_ptr<moeoReplacement<MB>> r;
            if (ind.empty() || ind == "Epsilon") m.reset(new moeoAdditiveEpsilonBinaryMetric<OV>); else if (ind == "Hypervolume") m.reset(new moeoHypervolumeBinaryMetric<OV>(rho.empty() ? 1.1 : atof(rho.c_str())));
            if (fit == "Dummy") f.reset(new moeoDummyFitnessAssignment<MB>); else if (fit.empty() || fit == "DomDepth") f.reset(new moeoDominanceDepthFitnessAssignment<MB>); else if (fit == "IndicatorBased" && m) f.reset(new moeoExpBinaryIndicatorBasedFitnessAssignment<MB>(*m, kappa.empty() ? 0.05 : atof(kappa.c_str())));
            if (div.name == "Dummy") d.reset(new moeoDummyDiversityAssignment<MB>); else if (div.name == "Sharing") d.reset(new moeoFrontByFrontSharingDiversityAssignment<MB>(arg(div, 0, 0.5))); else if (div.name == "Crowding") d.reset(new moeoFrontByFrontCrowdingDiversityAssignment<MB>);
            if (cmp.empty() || cmp == "FitnessThenDiversity") c.reset(new moeoFitnessThenDiversityComparator<MB>); else if (cmp == "DiversityThenFitness") c.reset(new moeoDiversityThenFitnessComparator<MB>); else if (cmp == "Aggregative") c.reset(new moeoAggregativeComparator<MB>);
            if (!f || !d || !c) throw eoException("invalid");
            if (sel.name == "DetTour") s.reset(new moeoDetTournamentSelect<MB>(*c, unsigned(arg(sel, 0, 2)))); else if (sel.name == "StochTour") s.reset(new moeoStochTournamentSelect<MB>(*c, arg(sel, 0, 1))); else if (sel.name == "Random") s.reset(new moeoRandomSelect<MB>);
            if (rep.empty() || rep == "Elitist") r.reset(new moeoElitistReplacement<MB>(*f, *d, *c)); else if (rep == "Environmental") r.reset(new moeoEnvironmentalReplacement<MB>(*f, *d, *c)); else if (rep == "Generational") r.reset(new moeoGenerationalReplacement<MB>);
            if (!s || !r) throw eoException("invalid");
            eoHowMany many = off.empty() ? eoHowMany(1.0) : off.back() == '%' ? eoHowMany(atof(off.c_str()) / 100) : eoHowMany(atoi(off.c_str()));
            MEval e; Trace<MB> t(3); MStep st; eoMonGenOp<MB> op(st); eoGeneralBreeder<MB> breed(*s, op, many); moeoEasyEA<MB> algo(t, e, breed, *r, *f, *d); return run(algo, t);
        });
        MC_CHECK(got == want, key, a.str() << "gives\n" << got.substr(0, 500) << "\ninstead of\n" << want.substr(0, 500));
        mc::state(mc::hash(got));
    }
}
static const std::vector<Call>& diversities() { static std::vector<Call> r{{"", "Dummy", {}}, {"Dummy", "Dummy", {}}, {"Sharing", "Sharing", {}}, {"Sharing(0.5)", "Sharing", {0.5}}, {"Sharing(0.9)", "Sharing", {0.9}}, {"Sharing(2)", "Sharing", {2}}, {"Crowding", "Crowding", {}}, {"Clearing", "", {}}}; return r; }
static const std::vector<Call>& picks() { static std::vector<Call> r{{"", "DetTour", {2}}, {"DetTour", "DetTour", {}}, {"DetTour(4)", "DetTour", {4}}, {"DetTour(2)", "DetTour", {2}}, {"StochTour", "StochTour", {}}, {"StochTour(0.6)", "StochTour", {0.6}}, {"Random", "Random", {}}, {"Roulette", "", {}}}; return r; }
MC_SCENARIO("multi-objective algorithms")
{
    quiet(); directions(2, choose(2) ? 3 : 1);
    std::string fit = pick(std::vector<std::string>{"", "Dummy", "DomDepth", "IndicatorBased", "Rank"}), ind, rho, kappa;
    if (fit == "IndicatorBased") { ind = pick(std::vector<std::string>{"", "Epsilon", "Hypervolume", "R2"}); if (ind == "Hypervolume") rho = pick(std::vector<std::string>{"", "1.5"}); kappa = pick(std::vector<std::string>{"", "0.5"}); }
    Call div = diversities()[choose(uint32_t(diversities().size()))], sel = picks()[choose(uint32_t(picks().size()))]; std::string cmp = pick(std::vector<std::string>{"", "FitnessThenDiversity", "DiversityThenFitness", "Aggregative", "Pareto"}), rep = pick(std::vector<std::string>{"", "Elitist", "Environmental", "Generational", "Plus"}), off = pick(std::vector<std::string>{"", "50%", "9"});
    if (rep == "Environmental" && (div.name == "Sharing" || div.name == "Crowding")) { mc::note("no update when one leaves"); return; }
    assembly(fit, ind, rho, kappa, div, cmp, sel, rep, off, "algorithm " + (div.name == "Sharing" ? "with sharing" : fit + " " + rep));
}
MC_SCENARIO("stopping rules of multi-objective algorithms")
{
    quiet(); rng_off(); Silent silent; existCtrlCContinue = false; directions(2, 3); int gens = int(choose(4)) - 1; unsigned evals = pick(std::vector<unsigned>{0, 3, 7}), per = range(1, 3); int ctrl = int(choose(3)) - 1;
    Args a; if (gens >= 0) a.set("maxGen", std::to_string(gens)); if (evals) a.set("maxEval", std::to_string(evals)); if (ctrl >= 0) a.set("CtrlC", std::to_string(ctrl));
    unsigned g = gens < 0 ? 100 : unsigned(gens); eoParser parser(a.argc(), a.argv()); eoState state; MEval e; eoEvalFuncCounter<MB> count(e); eoContinue<MB>* c = nullptr;
    try { c = &do_make_continue_moeo<MB>(parser, state, count); } catch (const std::exception&) {}
    bool none = g == 0 && evals == 0 && ctrl == 0; MC_CHECK(!c == none, "criterion", a.str() << (c ? "is accepted" : "is refused")); if (!c) { mc::state(0); return; }
    eoPop<MB> p = start(3); unsigned n = 0;
    for (unsigned i = 1; i <= 120; ++i) { for (unsigned k = 0; k < per; ++k) { MB b = p[0]; b.invalidate(); count(b); } ++n; bool more = (*c)(p), want = !(g && i >= g) && !(evals && n * per >= evals); MC_CHECK(more == want, "stop", a.str() << ": after " << i << " generations and " << n * per << " evaluations it " << (more ? "goes on" : "stops")); mc::state(mc::hash(a.str()) + n); if (!more) break; }
}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
MC_SCENARIO("reports of multi-objective algorithms")
{
    quiet(); rng_off(); Silent silent; directions(2, 3); int upd = int(choose(3)) - 1, store = int(choose(3)) - 1; bool con = choose(2), save = choose(2); unsigned freq = save ? choose(3) : 0; std::string dir = choose(2) ? "Out" : "";
    Args a; if (upd >= 0) a.set("updateArch", std::to_string(upd)); if (store >= 0) a.set("storeArch", std::to_string(store)); if (con) a.set("contribution", "1"); if (save) a.set("saveFrequency", std::to_string(freq)); a.set("resDir", dir); std::string d = dir.empty() ? "Res" : dir;
    wipe("Res"); wipe("Out"); const unsigned G = 5;
    eoParser parser(a.argc(), a.argv()); eoState state; MEval e; eoEvalFuncCounter<MB> count(e); eoGenContinue<MB> gen(G); eoPop<MB> p = start(4); for (auto& x : p) count(x); moeoUnboundedArchive<MB> arch, mine, before; state.registerObject(p);
    eoCheckPoint<MB>& cp = do_make_checkpoint_moeo<MB>(parser, state, count, gen, p, arch);
    std::string history; bool first = true; unsigned row = 1; MStep st; std::set<std::string> states;
    for (unsigned g = 1; g <= G; ++g) {
        for (auto& x : p) { st(x); st(x); x.invalidate(); count(x); x.fitness(0); x.diversity(0); }
        bool more = cp(p); MC_CHECK(more == (g < G), "stop", "generation " << g << (more ? " goes on" : " stops"));
        if (upd != 0) mine(p);
        auto key = [](moeoArchive<MB>& m) { std::multiset<std::string> s; for (auto& x : m) { std::ostringstream o; o << x.objectiveVector(); s.insert(o.str()); } std::string r; for (auto& x : s) r += x + "\n"; return r; };
        MC_CHECK(key(arch) == key(mine), "archive", a.str() << ": the archive holds\n" << key(arch) << "instead of\n" << key(mine));
        if (store == 1) { std::string r; for (auto& x : arch) { std::ostringstream o; o << x.objectiveVector() << "\n"; r += o.str(); } MC_CHECK(slurp(d + "/arch") == r, "stored archive", a.str() << ": the file holds\n" << slurp(d + "/arch") << "instead of\n" << r); }
        if (con && mine.size()) { if (!first) { std::vector<OV> from, to; for (auto& x : mine) from.push_back(x.objectiveVector()); for (auto& x : before) to.push_back(x.objectiveVector()); moeoContributionMetric<OV> m; std::ostringstream o; o << row++ << ' ' << m(from, to) << "\n"; history += o.str(); } first = false; static_cast<eoPop<MB>&>(before) = mine; MC_CHECK(slurp(d + "/contribution") == history, "contribution", a.str() << ": the file holds\n" << slurp(d + "/contribution") << "instead of\n" << history); }
        mc::state(mc::hash(key(arch) + a.str()));
    }
    std::set<std::string> want; if (store == 1) want.insert("arch"); if (con && upd != 0) want.insert("contribution"); 
    if (save) { if (freq) { for (unsigned g = freq; g <= G; g += freq) want.insert("generations" + std::to_string(g) + ".sav"); } if (!freq || G % freq) want.insert("generations" + std::to_string(G) + ".sav"); }
    auto list = files(d); std::string all; for (auto& f : list) all += f + " "; std::set<std::string> got(list.begin(), list.end());
    MC_CHECK(got == want, "files", a.str() << ": the directory holds " << all); wipe("Res"); wipe("Out");
}
