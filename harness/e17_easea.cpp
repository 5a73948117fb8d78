// The assembly with a free choice of the replacement, used by generated programs.
#include "e17.hpp"
#include <apply.h>
#include <eoSelectOne.h>
#include <eoGeneralBreeder.h>
#include <eoEasyEA.h>
#include <eoReduceMergeReduce.h>
#include <eoG3Replacement.h>
#include <eoMGGReplacement.h>
#include <do/make_algo_easea.h>
static double worth(const Bit& b) { double f = 1; for (unsigned i = 0; i < b.size(); ++i) f += b[i] ? (i * 3 + 2) % 5 : 0; return f; }
struct Eval : public eoEvalFunc<Bit> { void operator()(Bit& b) { b.fitness(worth(b)); } };
struct Step : public eoMonOp<Bit> { unsigned k = 0; bool operator()(Bit& b) { unsigned i = k++ * 3 % b.size(); b[i] = !b[i]; return true; } };
static eoPop<Bit> start(unsigned n = 6) { eoPop<Bit> p; for (unsigned i = 0; i < n; ++i) { Bit b = bits_of<Bit>(5, (i * 11 + 5) % 32); b.fitness(worth(b)); p.push_back(b); } return p; }
static eoHowMany many(const std::string& t, eoHowMany none) { return t.empty() ? none : t.back() == '%' ? eoHowMany(atof(t.c_str()) / 100) : eoHowMany(atoi(t.c_str())); }
static std::string assembled(Args& a, uint32_t seed, bool pop = true)
{
    return outcome(seed, [&] {
        eoParser parser(a.argc(), a.argv()); eoState state; Eval e; eoPopLoopEval<Bit> pe(e); Trace<Bit> t(3); Step st; eoMonGenOp<Bit> op(st);
        eoAlgo<Bit>& algo = pop ? do_make_algo_scalar<Bit>(parser, state, static_cast<eoPopEvalFunc<Bit>&>(pe), t, op) : do_make_algo_scalar<Bit>(parser, state, static_cast<eoEvalFunc<Bit>&>(e), t, op);
        eoPop<Bit> p = start(); algo(p); return t.log + dump(p);
    });
}
static std::string direct(eoSelectOne<Bit>& s, eoReplacement<Bit>& r, eoHowMany off) { Eval e; eoPopLoopEval<Bit> pe(e); Trace<Bit> t(3); Step st; eoMonGenOp<Bit> op(st); eoGeneralBreeder<Bit> breed(s, op, off); eoEasyEA<Bit> algo(t, pe, breed, r); eoPop<Bit> p = start(); algo(p); return t.log + dump(p); }
static void compare(Args& a, const std::function<std::string(uint32_t)>& ref, const std::string& key, bool pop = true)
{
    for (uint32_t seed = 1; seed <= tier(2u, 6u); ++seed) { std::string got = assembled(a, seed, pop), want = ref(seed); MC_CHECK(got == want, key, a.str() << "gives\n" << got.substr(0, 400) << "\ninstead of\n" << want.substr(0, 400)); mc::state(mc::hash(got)); }
}
MC_SCENARIO("selection in generated programs")
{
    quiet();
    static const std::vector<Call> all{{"", "DetTour", {2}}, {"DetTour", "DetTour", {}}, {"DetTour(1)", "DetTour", {1}}, {"DetTour(4)", "DetTour", {4}}, {"StochTour", "StochTour", {}}, {"StochTour(0.6)", "StochTour", {0.6}}, {"Roulette", "Roulette", {}}, {"Ranking", "Ranking", {}}, {"Ranking(1.5)", "Ranking", {1.5}}, {"Ranking(1.5,2)", "Ranking", {1.5, 2}}, {"Ranking(2,0.5)", "Ranking", {2, 0.5}}, {"Ranking(3,1)", "Ranking", {2, 1}}, {"Ranking(1.5,-1)", "Ranking", {1.5, 1}}, {"Sequential", "Sequential", {1}}, {"Sequential(ordered)", "Sequential", {1}}, {"Sequential(unordered)", "Sequential", {0}}, {"EliteSequential", "EliteSequential", {}}, {"Random", "Random", {}}, {"Tombola(2)", "", {}}};
    const Call& sel = all[choose(uint32_t(all.size()))]; std::string off = pick(std::vector<std::string>{"", "200%", "6", "9"}); bool pop = choose(2); Args a; a.set("selection", sel.text).set("nbOffspring", off);
    compare(a, [&](uint32_t seed) { return outcome(seed, [&] {
        if (sel.name.empty()) throw eoException("invalid");
        eoDetTournamentSelect<Bit> s1(sel.name == "DetTour" ? unsigned(arg(sel, 0, 2)) : 2); eoStochTournamentSelect<Bit> s2(sel.name == "StochTour" ? arg(sel, 0, 1) : 1); eoProportionalSelect<Bit> s3; eoRanking<Bit> rk(sel.name == "Ranking" ? arg(sel, 0, 2) : 2, sel.name == "Ranking" ? arg(sel, 1, 1) : 1); eoRouletteWorthSelect<Bit> s4(rk); eoSequentialSelect<Bit> s5(sel.name == "Sequential" ? arg(sel, 0, 1) != 0 : true); eoEliteSequentialSelect<Bit> s6; eoRandomSelect<Bit> s7;
        std::map<std::string, eoSelectOne<Bit>*> ss{{"DetTour", &s1}, {"StochTour", &s2}, {"Roulette", &s3}, {"Ranking", &s4}, {"Sequential", &s5}, {"EliteSequential", &s6}, {"Random", &s7}};
        eoTruncate<Bit> tr; eoReduceMergeReduce<Bit> r(eoHowMany(0.0), false, eoHowMany(0.0), tr, eoHowMany(1.0), tr, tr); return direct(*ss[sel.name], r, many(off, eoHowMany(1.0)));
    }); }, "selection " + sel.name, pop);
}
static eoReduce<Bit>* reducer(const Call& c)
{
    if (c.name == "Det") return new eoTruncate<Bit>; if (c.name == "EP") return new eoEPReduce<Bit>(unsigned(arg(c, 0, 6))); if (c.name == "DetTour") return new eoDetTournamentTruncate<Bit>(unsigned(arg(c, 0, 2))); if (c.name == "StochTour") return new eoStochTournamentTruncate<Bit>(arg(c, 0, 1)); if (c.name == "Uniform") return new eoRandomReduce<Bit>;
    throw eoException("invalid");
}
static const std::vector<Call>& reducers() { static std::vector<Call> r{{"", "", {}}, {"Deterministic", "Det", {}}, {"Sequential", "Det", {}}, {"EP", "EP", {}}, {"EP(2)", "EP", {2}}, {"DetTour", "DetTour", {}}, {"DetTour(3)", "DetTour", {3}}, {"StochTour", "StochTour", {}}, {"StochTour(0.7)", "StochTour", {0.7}}, {"StochTour(0.4)", "bad", {}}, {"StochTour(1.2)", "bad", {}}, {"Uniform", "Uniform", {}}, {"Random", "Uniform", {}}, {"Best", "bad", {}}}; return r; }
MC_SCENARIO("replacement in generated programs")
{
    quiet();
    struct Kind { std::string text; eoHowMany parents; Call rp; eoHowMany offspring; Call rf; };
    const Call det{"", "Det", {}};
    static const std::vector<Kind> kinds{{"", eoHowMany(0.0), det, eoHowMany(1.0), det}, {"General", eoHowMany(0.0), det, eoHowMany(1.0), det}, {"Generational", eoHowMany(0.0), det, eoHowMany(1.0), det}, {"ESComma", eoHowMany(0.0), det, eoHowMany(1.0), det}, {"ESPlus", eoHowMany(1.0), det, eoHowMany(1.0), det}, {"EP", eoHowMany(1.0), det, eoHowMany(1.0), {"", "EP", {6}}}, {"EP(3)", eoHowMany(1.0), det, eoHowMany(1.0), {"", "EP", {3}}}, {"SSGA", eoHowMany(-1), {"", "DetTour", {2}}, eoHowMany(1), det}, {"SSGA(3)", eoHowMany(-1), {"", "DetTour", {3}}, eoHowMany(1), det}, {"SSGA(0.7)", eoHowMany(-1), {"", "StochTour", {0.7}}, eoHowMany(1), det}, {"Crowding", eoHowMany(0.0), {"", "bad", {}}, eoHowMany(1.0), det}};
    const Kind& k = kinds[choose(uint32_t(kinds.size()))]; unsigned what = choose(4);      // which of the finer parameters are given besides
    std::string elite, strong, sp, so, off = pick(std::vector<std::string>{"", "9"}); Call rp = reducers()[0], ro = rp, rf = rp;
    if (what == 1) { elite = pick(std::vector<std::string>{"1", "3", "50%", "0"}); strong = pick(std::vector<std::string>{"", "1", "0"}); }
    if (what == 2) { sp = pick(std::vector<std::string>{"2", "-2", "50%", "100%", "0"}); so = pick(std::vector<std::string>{"", "4", "50%", "-1", "100%"}); }
    if (what == 3) { const Call& c = reducers()[choose(uint32_t(reducers().size()))]; unsigned place = choose(3); (place == 0 ? rp : place == 1 ? ro : rf) = c; sp = "4"; so = "4"; }
    Args a; a.set("replacement", k.text).set("nbOffspring", off).set("elite", elite).set("eliteType", strong).set("surviveParents", sp).set("surviveOffspring", so).set("reduceParents", rp.text).set("reduceOffspring", ro.text).set("reduceFinal", rf.text);
    compare(a, [&](uint32_t seed) { return outcome(seed, [&] {
        if (k.text == "Crowding") throw eoException("invalid");
        std::unique_ptr<eoReduce<Bit>> r1(reducer(rp.text.empty() ? k.rp : rp)), r2(reducer(ro.text.empty() ? det : ro)), r3(reducer(rf.text.empty() ? k.rf : rf));
        eoReduceMergeReduce<Bit> r(many(elite, eoHowMany(0.0)), strong == "1", many(sp, k.parents), *r1, many(so, k.offspring), *r2, *r3); eoDetTournamentSelect<Bit> s(2); return direct(s, r, many(off, eoHowMany(1.0)));
    }); }, "replacement " + k.text);
}
MC_SCENARIO("steady-state replacements in generated programs")
{
    quiet(); bool mgg = choose(2); std::string t = mgg ? pick(std::vector<std::string>{"", "(2)", "(3)", "(1)"}) : "", sp = pick(std::vector<std::string>{"", "-2", "-3"}), off = pick(std::vector<std::string>{"", "3"}); Args a; a.set("replacement", (mgg ? "MGG" : "G3") + t).set("surviveParents", sp).set("nbOffspring", off);
    compare(a, [&](uint32_t seed) { return outcome(seed, [&] {
        if (t == "(1)") throw eoException("invalid");
        eoHowMany gone(sp == "-3" ? 3 : 2); eoG3Replacement<Bit> g(gone); eoMGGReplacement<Bit> m(gone, t == "(3)" ? 3 : 2); eoDetTournamentSelect<Bit> s(2); return direct(s, mgg ? static_cast<eoReplacement<Bit>&>(m) : g, many(off, eoHowMany(1.0)));
    }); }, mgg ? "MGG" : "G3");
}
