// Single-objective algorithms assembled from the text of parameters.
#include "e17.hpp"
#include <eoSurviveAndDie.h>
#include <utils/eoDistance.h>
#include <eoSharingSelect.h>
#include <do/make_pop.h>
#include <do/make_continue.h>
#include <do/make_algo_scalar.h>
#include <do/make_checkpoint.h>
#include <ga/make_op.h>
#include <ga/make_genotype_ga.h>

static double worth(const Bit& b) { double f = 1; for (unsigned i = 0; i < b.size(); ++i) f += b[i] ? (i * 3 + 2) % 5 : 0; return f; }
struct Eval : public eoEvalFunc<Bit> { unsigned calls = 0; void operator()(Bit& b) { ++calls; b.fitness(worth(b)); } };
struct Step : public eoMonOp<Bit> { unsigned k = 0; bool operator()(Bit& b) { unsigned i = k++ * 3 % b.size(); b[i] = !b[i]; return true; } };
static eoPop<Bit> start(unsigned n = 6) { eoPop<Bit> p; for (unsigned i = 0; i < n; ++i) { Bit b = bits_of<Bit>(5, (i * 11 + 5) % 32); b.fitness(worth(b)); p.push_back(b); } return p; }
static const std::vector<Call>& selections()
{
    static std::vector<Call> s{{"", "DetTour", {2}}, {"DetTour", "DetTour", {}}, {"DetTour(1)", "DetTour", {1}}, {"DetTour(2)", "DetTour", {2}}, {"DetTour(4)", "DetTour", {4}}, {"StochTour", "StochTour", {}}, {"StochTour(0.6)", "StochTour", {0.6}}, {"StochTour(1)", "StochTour", {1}}, {"Roulette", "Roulette", {}}, {"Ranking", "Ranking", {}}, {"Ranking(1.5)", "Ranking", {1.5}}, {"Ranking(1.5,2)", "Ranking", {1.5, 2}}, {"Ranking(2,0.5)", "Ranking", {2, 0.5}}, {"Ranking(3,1)", "Ranking", {2, 1}}, {"Ranking(1.5,-1)", "Ranking", {1.5, 1}},
        {"Sharing", "Sharing", {}}, {"Sharing(0.8)", "Sharing", {0.8}}, {"Sharing(2.5)", "Sharing", {2.5}}, {"Sequential", "Sequential", {1}}, {"Sequential(ordered)", "Sequential", {1}}, {"Sequential(unordered)", "Sequential", {0}}, {"Random", "Random", {}}, {"Tombola(2)", "", {}}};
    return s;
}
static const std::vector<Call>& replacements()
{
    static std::vector<Call> s{{"", "Comma", {}}, {"Comma", "Comma", {}}, {"Plus", "Plus", {}}, {"EPTour", "EPTour", {}}, {"EPTour(1)", "EPTour", {1}}, {"EPTour(3)", "EPTour", {3}}, {"SSGAWorst", "SSGAWorst", {}}, {"SSGADet", "SSGADet", {}}, {"SSGADet(2)", "SSGADet", {2}}, {"SSGADet(5)", "SSGADet", {5}}, {"SSGAStoch", "SSGAStoch", {}}, {"SSGAStoch(0.7)", "SSGAStoch", {0.7}}, {"Swap", "", {}}};
    return s;
}
MC_SCENARIO("selection, replacement, offspring and elitism")
{
    quiet();
    const Call& sel = selections()[choose(uint32_t(selections().size()))]; const Call& rep = replacements()[choose(uint32_t(replacements().size()))];
    std::string off = pick(std::vector<std::string>{"", "100%", "200%", "50%", "3", "6", "1"}); bool weak = choose(2), given = weak || choose(2);
    bool dist = sel.name != "Sharing" || choose(2);
    Args a; a.set("selection", sel.text).set("replacement", rep.text).set("nbOffspring", off); if (given) a.set("weakElitism", weak ? "1" : "0");
    for (uint32_t seed = 1; seed <= tier(2u, 6u); ++seed) {
        std::string got = outcome(seed, [&] {
            eoParser parser(a.argc(), a.argv()); eoState state; Eval e; Trace<Bit> t(4); Step st; eoMonGenOp<Bit> op(st); eoQuadDistance<Bit> d;
            eoAlgo<Bit>& algo = do_make_algo_scalar<Bit>(parser, state, e, t, op, dist ? &d : nullptr);
            eoPop<Bit> p = start(); algo(p); return t.log + dump(p);
        });
        std::string want = outcome(seed, [&] {
            if (sel.name.empty() || rep.name.empty() || !dist) throw eoException("invalid");
            eoDetTournamentSelect<Bit> s1(sel.name == "DetTour" ? unsigned(arg(sel, 0, 2)) : 2); eoStochTournamentSelect<Bit> s2(sel.name == "StochTour" ? arg(sel, 0, 1) : 1); eoProportionalSelect<Bit> s3; eoRanking<Bit> rk(sel.name == "Ranking" ? arg(sel, 0, 2) : 2, sel.name == "Ranking" ? arg(sel, 1, 1) : 1); eoRouletteWorthSelect<Bit> s4(rk); eoQuadDistance<Bit> d; eoSharingSelect<Bit> s5(sel.name == "Sharing" ? arg(sel, 0, 0.5) : 0.5, d); eoSequentialSelect<Bit> s6(sel.name == "Sequential" ? arg(sel, 0, 1) != 0 : true); eoRandomSelect<Bit> s7;
            std::map<std::string, eoSelectOne<Bit>*> ss{{"DetTour", &s1}, {"StochTour", &s2}, {"Roulette", &s3}, {"Ranking", &s4}, {"Sharing", &s5}, {"Sequential", &s6}, {"Random", &s7}};
            eoCommaReplacement<Bit> r1; eoPlusReplacement<Bit> r2; eoEPReplacement<Bit> r3(rep.name == "EPTour" ? unsigned(arg(rep, 0, 6)) : 6); eoSSGAWorseReplacement<Bit> r4; eoSSGADetTournamentReplacement<Bit> r5(rep.name == "SSGADet" ? unsigned(arg(rep, 0, 2)) : 2); eoSSGAStochTournamentReplacement<Bit> r6(rep.name == "SSGAStoch" ? arg(rep, 0, 1) : 1);
            std::map<std::string, eoReplacement<Bit>*> rr{{"Comma", &r1}, {"Plus", &r2}, {"EPTour", &r3}, {"SSGAWorst", &r4}, {"SSGADet", &r5}, {"SSGAStoch", &r6}};
            eoReplacement<Bit>* r = rr[rep.name]; eoWeakElitistReplacement<Bit> w(*r); if (weak) r = &w;
            eoHowMany many = off.empty() ? eoHowMany(1.0) : off.back() == '%' ? eoHowMany(atof(off.c_str()) / 100) : eoHowMany(atoi(off.c_str()));
            Eval e; Trace<Bit> t(4); Step st; eoMonGenOp<Bit> op(st); eoGeneralBreeder<Bit> breed(*ss[sel.name], op, many); eoEasyEA<Bit> algo(t, e, breed, *r);
            eoPop<Bit> p = start(); algo(p); return t.log + dump(p);
        });
        MC_CHECK(got == want, (rep.name.empty() || sel.name.empty() ? "invalid" : rep.name + (rep.a.empty() ? "" : " with argument")), a.str() << "gives\n" << got.substr(0, 400) << "\ninstead of\n" << want.substr(0, 400));
        mc::state(mc::hash(got));
    }
}
MC_SCENARIO("stopping rules")
{
    quiet(); rng_off(); Silent silent;
    unsigned maxGen = choose(4), steady = choose(3), minGen = steady ? choose(3) : 0; unsigned maxEval = pick(std::vector<unsigned>{0, 4, 7}); int target = pick(std::vector<int>{-1, 2, 3}); bool zeros = choose(2);
    Args a; auto num = [&](unsigned v) { return v ? std::to_string(v) : zeros ? "0" : ""; };
    a.set("maxGen", std::to_string(maxGen)).set("maxEval", num(maxEval)); if (steady) { a.set("steadyGen", std::to_string(steady)).set("minGen", num(minGen)); } if (target >= 0) a.set("targetFitness", std::to_string(target));
    eoParser parser(a.argc(), a.argv()); eoState state; Eval e; eoEvalFuncCounter<Bit> count(e);
    eoContinue<Bit>* c = nullptr; bool threw = false;
    try { c = &do_make_continue<Bit>(parser, state, count); } catch (const std::exception&) { threw = true; }
    bool none = !maxGen && !steady && !maxEval && target < 0;
    MC_CHECK(threw == none, "no rule at all", a.str() << (threw ? "is refused" : "is accepted without any stopping rule"));
    if (threw) return;
    eoGenContinue<Bit> g(maxGen ? maxGen : 1); eoSteadyFitContinue<Bit> s(minGen, steady); eoFitContinue<Bit> f(target);
    for (unsigned gen = 1; gen <= tier(5u, 6u); ++gen) {
        unsigned best = choose(4); for (unsigned k = 0; k < 2; ++k) { Bit b = bits_of<Bit>(3, k); count(b); }
        eoPop<Bit> p = start(2); p[0].fitness(best); p[1].fitness(0);
        bool go = true;
        if (maxGen) go = g(p) && go;
        if (steady) go = s(p) && go;
        if (maxEval) go = count.value() < maxEval && go;
        if (target >= 0) go = f(p) && go;
        bool got = (*c)(p);
        MC_CHECK(got == go, "when to stop", a.str() << "in generation " << gen << " (best " << best << ", " << count.value() << " evaluations): " << (got ? "goes on" : "stops"));
        mc::state(mc::hash(a.str()) * 31 + gen * 8 + best);
        if (!go) break;
    }
}
MC_SCENARIO("default number of generations")
{
    quiet(); rng_off(); Silent silent; Args a; eoParser parser(a.argc(), a.argv()); eoState state; Eval e; eoEvalFuncCounter<Bit> count(e); eoContinue<Bit>& c = do_make_continue<Bit>(parser, state, count);
    eoPop<Bit> p = start(2); unsigned n = 1; while (c(p) && n < 1000) ++n;
    MC_CHECK(n == 100, "default", "stops after " << n << " generations"); mc::state(n);
}
MC_SCENARIO("first population and restart")
{
    quiet(); rng_off(); Silent silent;
    unsigned size = choose(5), seed = pick(std::vector<unsigned>{1, 42, 4000000000u}), len = range(1, 3); int saved = int(choose(5)) - 1; int again = saved < 0 ? 0 : int(choose(3));
    Args a; a.set("popSize", std::to_string(size)).set("seed", std::to_string(seed)).set("chromSize", std::to_string(len)); if (saved >= 0) a.set("Load", "before.sav"); if (again) a.set("recomputeFitness", again == 2 ? "1" : "0");
    eoPop<Bit> old; eoBooleanGenerator<> g; eoInitFixedLength<Bit> init(len, g);
    eo::rng.reseed(99); eo::rng.clearCache();
    for (int i = 0; i < saved; ++i) { Bit b(len, false); init(b); b.fitness(choose(3)); old.push_back(b); }
    std::string next;
    if (saved >= 0) { eoState st; st.registerObject(old); st.registerObject(eo::rng); st.save("before.sav"); } else { eo::rng.reseed(seed); eo::rng.clearCache(); }
    // what it should become
    std::multiset<double> keep; for (auto& b : old) keep.insert(b.fitness()); while (keep.size() > size) keep.erase(keep.begin());
    eoPop<Bit> want = old; while (want.size() < size) { Bit b; init(b); want.push_back(b); } uint32_t w1 = eo::rng.rand(), w2 = eo::rng.rand();
    for (int i = 0; i < 7; ++i) eo::rng.rand();
    eoParser parser(a.argc(), a.argv()); eoState state; eoInit<Bit>& mine = do_make_genotype<Bit>(parser, state, Bit());
    eoPop<Bit>& p = do_make_pop<Bit>(parser, state, mine);
    MC_CHECK(p.size() == size, "population size", a.str() << ": " << p.size() << " individuals");
    uint32_t r1 = eo::rng.rand(), r2 = eo::rng.rand();
    MC_CHECK(r1 == w1 && r2 == w2, "generator", a.str() << ": the generator does not continue where it should");
    if (old.size() <= size) for (unsigned i = 0; i < size; ++i) {
        MC_CHECK(static_cast<std::vector<bool>&>(p[i]) == static_cast<std::vector<bool>&>(want[i]), "individuals", a.str() << ": individual " << i << " is " << p[i] << " instead of " << want[i]);
        bool valid = i < old.size() && again != 2; MC_CHECK(p[i].invalid() == !valid, "evaluated or not", a.str() << ": individual " << i << (p[i].invalid() ? " lost its fitness" : " has a fitness"));
        if (valid) MC_CHECK(p[i].fitness() == want[i].fitness(), "fitness", a.str() << ": individual " << i);
    } else if (again != 2) {
        std::multiset<double> have; for (auto& b : p) { MC_CHECK(!b.invalid(), "evaluated or not", "a restored individual lost its fitness"); have.insert(b.fitness()); }
        MC_CHECK(have == keep, "the best are retained", a.str() << ": of " << dump(old) << " retained " << dump(p));
    } else for (auto& b : p) MC_CHECK(b.invalid(), "evaluated or not", "not recomputed");
    // the state knows the population and the generator
    if (!(old.size() > size) ) {
        for (auto& b : p) if (b.invalid()) b.fitness(5);
        std::string d = dump(p); state.save("after.sav"); uint32_t n1 = eo::rng.rand(); eoPop<Bit> q; eoState in; in.registerObject(q); in.registerObject(eo::rng); in.load("after.sav");
        MC_CHECK(dump(q) == d && eo::rng.rand() == n1, "saved with the state", a.str() << ": the state saves " << dump(q) << " for " << d);
        unlink("after.sav");
    }
    unlink("before.sav"); mc::state(mc::hash(dump(p)));
}
// ------------------------------------------------------------- operators
typedef std::map<std::string, double> Dist;
static Dist dist_of(unsigned k, const std::function<std::string()>& f) { Dist d; forall([&] { rng_grid(k, 40); std::string s = f(); d[s] += leaf_prob(); }); rng_off(); return d; }
static std::string show(const Dist& d) { std::ostringstream o; for (auto& x : d) o << x.first << "=" << x.second << " "; return o.str(); }
static std::string raw(const Bit& b) { std::string s; for (unsigned i = 0; i < b.size(); ++i) s += b[i] ? '1' : '0'; return s; }
static void same(const Dist& got, const Dist& want, double tol, const std::string& key, const std::string& what)
{
    for (auto& x : got) { double w = want.count(x.first) ? want.at(x.first) : 0; MC_CHECK(std::fabs(x.second - w) <= tol && (w > 0 || x.second <= 1e-12), key, what << ": outcomes " << show(got).substr(0, 300) << " instead of " << show(want).substr(0, 300)); }
    for (auto& x : want) MC_CHECK(got.count(x.first) || x.second <= tol, key, what << ": never " << x.first << " (" << show(got).substr(0, 300) << ")");
}
static Dist blend(const std::vector<std::pair<double, Dist>>& parts) { Dist r; double t = 0; for (auto& p : parts) t += p.first; for (auto& p : parts) if (p.first > 0) for (auto& x : p.second) r[x.first] += x.second * p.first / t; return r; }
MC_SCENARIO("crossovers of bit strings")
{
    quiet(); Silent silent; const unsigned n = 4, K = 4;
    double pc = choose(5) / 4.0; double one = choose(3), two = choose(3), uni = choose(3); bool dflt = one == 1 && two == 1 && uni == 2 && choose(2);
    Args a; a.set("pCross", std::to_string(pc)).set("pMut", "0").set("chromSize", "4"); if (!dflt) a.set("onePointRate", std::to_string(one)).set("twoPointRate", std::to_string(two)).set("uRate", std::to_string(uni));
    eoParser parser(a.argc(), a.argv()); eoState state; eoInit<Bit>& init = do_make_genotype<Bit>(parser, state, Bit()); eoGenOp<Bit>& op = do_make_op<Bit>(parser, state, init);
    eoPop<Bit> src; src.push_back(bits_of<Bit>(n, 0)); src.push_back(bits_of<Bit>(n, 15)); for (auto& b : src) b.fitness(0);
    auto apply = [&](eoGenOp<Bit>& o) { eoPop<Bit> dest; eoSeqPopulator<Bit> it(src, dest); o(it); std::string s; for (auto& b : dest) s += raw(b) + ","; return s; };
    eo1PtBitXover<Bit> x1; eoNPtsBitXover<Bit> x2; eoUBitXover<Bit> xu; eoQuadCloneOp<Bit> xc; eoQuadGenOp<Bit> g1(x1), g2(x2), gu(xu), gc(xc);
    static std::vector<Dist> base; if (base.empty()) for (auto* g : {&g1, &g2, &gu, &gc}) base.push_back(dist_of(K, [&] { return apply(*g); }));
    Dist want = one + two + uni > 0 ? blend({{1 - pc, base[3]}, {pc * one / (one + two + uni), base[0]}, {pc * two / (one + two + uni), base[1]}, {pc * uni / (one + two + uni), base[2]}}) : base[3];
    Dist got = dist_of(K, [&] { return apply(op); });
    same(got, want, 0.13, one + two + uni > 0 ? "crossover" : "no crossover", a.str()); mc::state(mc::hash(show(got)));
}
MC_SCENARIO("mutations of bit strings")
{
    quiet(); Silent silent; const unsigned n = 2, K = 2;      // two words and rates that are multiples of one half: exact
    double pm = choose(3) / 2.0, flips = choose(2), one = choose(2), kr = flips + one < 2 ? choose(2) : 0; unsigned kb = range(1, 2); double per = choose(2) / 2.0;
    Args a; a.set("pCross", "0").set("pMut", std::to_string(pm)).set("bitFlipRate", std::to_string(flips)).set("oneBitRate", std::to_string(one)).set("kBitRate", std::to_string(kr)).set("kBit", std::to_string(kb)).set("pMutPerBit", std::to_string(per));
    eoParser parser(a.argc(), a.argv()); eoState state; eoBooleanGenerator<> bg; eoInitFixedLength<Bit> init(n, bg); eoGenOp<Bit>& op = do_make_op<Bit>(parser, state, init);
    eoPop<Bit> src; src.push_back(bits_of<Bit>(n, 1)); src.push_back(bits_of<Bit>(n, 1)); for (auto& b : src) b.fitness(0);
    // the first child: the second one is changed independently of it
    auto first = [&](eoGenOp<Bit>& o) { eoPop<Bit> dest; eoSeqPopulator<Bit> it(src, dest); o(it); return raw(dest[0]); };
    static std::map<std::string, Dist> memo; auto of = [&](const std::string& key, eoMonOp<Bit>& m) -> const Dist& { if (!memo.count(key)) { eoMonGenOp<Bit> g(m); memo[key] = dist_of(K, [&] { return first(g); }); } return memo[key]; };
    eoBitMutation<Bit> m1(per); eoDetBitFlip<Bit> m2(1), m3(kb); Dist clone{{raw(src[0]), 1.0}};
    double sum = flips + one + kr;
    Dist want = sum > 0 ? blend({{1 - pm, clone}, {pm * flips / sum, of("f" + std::to_string(per), m1)}, {pm * one / sum, of("d1", m2)}, {pm * kr / sum, of("d" + std::to_string(kb), m3)}}) : clone;
    Dist got = dist_of(K, [&] { return first(op); });
    same(got, want, 0.01, sum > 0 ? "mutation" : "no mutation", a.str()); mc::state(mc::hash(show(got)));
}
MC_SCENARIO("invalid rates are refused")
{
    quiet(); rng_off(); Silent silent; static const std::vector<std::pair<std::string, std::string>> bad{{"pCross", "-0.1"}, {"pCross", "1.5"}, {"pMut", "-1"}, {"pMut", "2"}, {"onePointRate", "-1"}, {"twoPointRate", "-1"}, {"uRate", "-1"}, {"pMutPerBit", "-0.5"}, {"pMutPerBit", "0.75"}, {"bitFlipRate", "-1"}, {"oneBitRate", "-1"}, {"kBit", "0"}, {"kBitRate", "-1"}, {"operator", "none"}, {"pCross", "1"}, {"pMut", "0"}, {"kBit", "2"}, {"operator", "SGA"}};
    size_t i = choose(uint32_t(bad.size())); Args a; a.set(bad[i].first, bad[i].second); eoParser parser(a.argc(), a.argv()); eoState state; eoBooleanGenerator<> bg; eoInitFixedLength<Bit> init(4, bg); bool threw = false;
    try { do_make_op<Bit>(parser, state, init); } catch (const std::exception&) { threw = true; }
    MC_CHECK(threw == (i < 14), bad[i].first, a.str() << (threw ? "is refused" : "is accepted")); mc::state(i);
}
// ------------------------------------------------------------- reports
MC_SCENARIO("reports and saved states")
{
    quiet(); rng_off();
    bool file = choose(2), print = choose(2), pop = choose(2), evals = choose(2); int freq = int(choose(5)) - 1; unsigned gens = range(1, 4); bool there = choose(2), erase = there ? choose(2) : true;
    Args a; a.set("fileBestStat", file ? "1" : "").set("printBestStat", print ? "1" : "0").set("printPop", pop ? "1" : "0").set("useEval", evals ? "1" : "0").set("useTime", "0").set("resDir", "Out").set("eraseDir", erase ? "" : "0"); if (freq >= 0) a.set("saveFrequency", std::to_string(freq));
    wipe("Out"); if (there) { mkdir("Out", 0755); std::ofstream("Out/old.txt") << "x"; }
    bool disk = file || freq >= 0, threw = false; std::string text, shown; std::vector<std::vector<double>> want; std::vector<std::string> saved;
    {
        Silent silent; eoParser parser(a.argc(), a.argv()); eoState state; Eval e; eoEvalFuncCounter<Bit> count(e); eoGenContinue<Bit> g(gens); eoPop<Bit> p = start(3); state.registerObject(p);
        eoCheckPoint<Bit>* c = nullptr;
        try { c = &do_make_checkpoint<Bit>(parser, state, count, g); } catch (const eoException&) { threw = true; }
        if (c) for (unsigned k = 0; k < gens; ++k) {
            p[k % 3].fitness(7 + k); Bit b = bits_of<Bit>(3, k); count(b);
            double best = 0, avg = 0, sq = 0; for (auto& x : p) { best = std::max(best, double(x.fitness())); avg += x.fitness() / 3; } for (auto& x : p) sq += (x.fitness() - avg) * (x.fitness() - avg) / 2;
            want.push_back({double(k), double(k + 1), best, avg, sq});
            bool go = (*c)(p); (void)go;
            saved.push_back(dump(p));
        }
        shown = silent.o.str();
    }
    std::vector<std::string> fs = files("Out");
    MC_CHECK(threw == (disk && there && !erase), "existing directory", a.str() << (threw ? "refuses" : "accepts") << " the directory");
    if (threw) { MC_CHECK(fs == std::vector<std::string>{"old.txt"}, "existing directory", "files are lost"); mc::state(1); wipe("Out"); return; }
    MC_CHECK(!disk || std::find(fs.begin(), fs.end(), "old.txt") == fs.end(), "existing directory", "old files are still there");
    MC_CHECK(disk || fs.size() == (there ? 1u : 0u), "nothing asked", a.str() << "writes files");
    MC_CHECK((std::find(fs.begin(), fs.end(), "best.xg") != fs.end()) == file, "report file", a.str() << (file ? "no report" : "a report nobody asked for"));
    if (file) {
        std::ifstream in("Out/best.xg"); std::string line; std::vector<std::vector<double>> rows; while (std::getline(in, line)) { std::istringstream l(line); std::vector<double> v; std::string w; bool num = true; while (l >> w) { for (char& ch : w) if (ch == ',') ch = ' '; char* end; double d = strtod(w.c_str(), &end); if (end == w.c_str()) { num = false; break; } v.push_back(d); } if (num && !v.empty()) rows.push_back(v); }
        MC_CHECK(rows.size() == gens, "report rows", a.str() << ": " << rows.size() << " rows for " << gens << " generations");
        for (unsigned k = 0; k < gens; ++k) { auto has = [&](double v) { for (double x : rows[k]) if (std::fabs(x - v) < 1e-3) return true; return false; };
            MC_CHECK(has(want[k][1]) && has(want[k][2]) && has(want[k][3]) && has(std::sqrt(want[k][4])), "report values", a.str() << ": generation " << k << " lacks the evaluations " << want[k][1] << ", best " << want[k][2] << ", average " << want[k][3] << " or deviation " << std::sqrt(want[k][4])); }
    }
    // saved states: every freq generations, and the last one
    std::set<std::string> have; for (auto& f : fs) if (f.compare(0, 11, "generations") == 0) { eoPop<Bit> q; eoState in; in.registerObject(q); in.load("Out/" + f); have.insert(dump(q)); }
    std::set<std::string> must; if (freq >= 0) { must.insert(saved.back()); if (freq > 0) for (unsigned k = 0; k < gens; ++k) if ((k + 1) % unsigned(freq) == 0) must.insert(saved[k]); }
    for (auto& m : must) MC_CHECK(have.count(m), "saved states", a.str() << ": the population " << m << " was not saved");
    unsigned extra = 0; for (auto& h : have) if (!must.count(h)) ++extra;
    MC_CHECK(freq > 0 ? extra <= 1 : extra == 0, "saved states", a.str() << ": " << have.size() << " states saved in " << gens << " generations");
    MC_CHECK((print || pop) == !shown.empty(), "console", a.str() << (shown.empty() ? "prints nothing" : "prints " + shown.substr(0, 200)));
    mc::state(mc::hash(a.str()) + gens); wipe("Out");
}
