// Evolution strategies assembled from the text of parameters.
#include "e17.hpp"
#include <es/make_genotype_real.h>
#include <es/make_op_es.h>
static std::string text(double d) { std::ostringstream o; o << d; return o.str(); }
typedef eoEsStdev<double> ES; typedef eoEsSimple<double> E1; typedef eoEsFull<double> EF;
MC_SCENARIO("initial step sizes")
{
    quiet(); rng_off(); Silent silent; unsigned n = range(1, 3); int form = int(choose(4)); std::string b = n == 1 ? "1[-1,3]" : n == 2 ? "[-1,3][0,1]" : "[-1,3][0,1][2,12]"; std::vector<double> width{4, 1, 10};
    Args a; a.set("vecSize", std::to_string(n)).set("initBounds", b); std::vector<double> want(n, 0.3); double unique = 0.3;
    if (form == 1) { a.set("sigmaInit", "0.5"); want.assign(n, 0.5); unique = 0.5; }
    if (form == 2) { a.set("sigmaInit", "20%"); unique = 0; for (unsigned i = 0; i < n; ++i) { want[i] = width[i]; unique += width[i] / n; } }
    if (form == 3) { a.set("sigmaInit", "0.05%"); unique = 0; for (unsigned i = 0; i < n; ++i) { want[i] = width[i]; unique += width[i] / n; } }
    auto parse = [&](auto sol) { eoParser parser(a.argc(), a.argv()); eoState state; typedef decltype(sol) T; eoEsChromInit<T>& init = do_make_genotype<T>(parser, state, T()); init(sol); MC_CHECK(sol.size() == n, "size", a.str() << ": " << sol.size() << " variables"); for (unsigned i = 0; i < n; ++i) MC_CHECK(sol[i] >= (i == 0 ? -1 : i == 1 ? 0 : 2) && sol[i] <= (i == 0 ? 3 : i == 1 ? 1 : 12), "initial bounds", a.str() << ": variable " << i << " starts at " << sol[i]); return sol; };
    ES s = parse(ES()); E1 e = parse(E1()); EF f = parse(EF());
    if (form < 2) { for (unsigned i = 0; i < n; ++i) MC_CHECK(s.stdevs[i] == want[i] && f.stdevs[i] == want[i], "step sizes", a.str() << ": step size " << i << " is " << s.stdevs[i]); MC_CHECK(e.stdev == unique, "step sizes", a.str() << ": single step size " << e.stdev); }
    else { double f0 = s.stdevs[0] / want[0]; for (unsigned i = 0; i < n; ++i) MC_CHECK(std::fabs(s.stdevs[i] - f0 * want[i]) < 1e-12 && f.stdevs[i] == s.stdevs[i], "scaled step sizes", a.str() << ": step sizes are not proportional to the ranges"); MC_CHECK(std::fabs(e.stdev - f0 * unique) < 1e-12 && f0 > 0, "scaled step sizes", a.str() << ": single step size " << e.stdev); }
    MC_CHECK(f.correlations.size() == n * (n - 1) / 2, "correlations", "there are " << f.correlations.size()); for (double c : f.correlations) MC_CHECK(std::fabs(c) <= M_PI, "correlations", "an angle of " << c);
    mc::state(n * 4 + form);
}
// how a number between those of the parents came about
static std::string how(double v, const std::vector<double>& from) { for (size_t i = 0; i < from.size(); ++i) if (v == from[i]) return std::to_string(i); return v > *std::min_element(from.begin(), from.end()) && v < *std::max_element(from.begin(), from.end()) ? "between" : "outside"; }
MC_SCENARIO("recombination types")
{
    quiet(); Silent silent; std::string type = pick(std::vector<std::string>{"", "global", "standard", "local"}), obj = pick(std::vector<std::string>{"", "discrete", "intermediate", "none", "average"}), dev = pick(std::vector<std::string>{"", "discrete", "intermediate", "none", "average"});
    Args a; a.set("vecSize", "2").set("crossType", type).set("crossObj", obj).set("crossStdev", dev).set("pMut", "0").set("pCross", "1");
    eoParser parser(a.argc(), a.argv()); eoState state; eoEsChromInit<ES>& init = do_make_genotype<ES>(parser, state, ES()); eoGenOp<ES>* op = nullptr;
    try { op = &do_make_op<ES>(parser, state, init); } catch (const std::exception&) {}
    MC_CHECK(!op == (type == "local" || obj == "average" || dev == "average"), "names", a.str() << (op ? "is accepted" : "is refused"));
    mc::state(mc::hash(a.str())); if (!op) return;
    bool global = type != "standard"; if (obj.empty()) obj = "discrete"; if (dev.empty()) dev = "intermediate";
    eoPop<ES> src; src.resize(2); for (unsigned k = 0; k < 2; ++k) { src[k].resize(2); src[k].stdevs.resize(2); for (unsigned i = 0; i < 2; ++i) { src[k][i] = 10 * k + i + 1; src[k].stdevs[i] = 100 * k + i + 1; } src[k].fitness(0); }
    std::set<std::string> objs, devs, both;
    forall([&] {
        rng_grid(2, 40); eoPop<ES> dest; eoSeqPopulator<ES> it(src, dest); (*op)(it); std::string o, d;
        for (unsigned i = 0; i < 2; ++i) { o += how(dest[0][i], {src[0][i], src[1][i]}) + " "; d += how(dest[0].stdevs[i], {src[0].stdevs[i], src[1].stdevs[i]}) + " "; }
        objs.insert(o); devs.insert(d);
    });
    rng_off();
    auto expect = [&](const std::string& kind) { std::set<std::string> r; if (!global && kind == "none") return std::set<std::string>{"0 0 "}; std::vector<std::string> v{"0 ", "1 "}; if (kind == "intermediate") { if (!global) v = {"between "}; else v.push_back("between "); } for (auto& x : v) for (auto& y : v) r.insert(x + y); return r; };
    auto list = [](const std::set<std::string>& s) { std::string r; for (auto& x : s) r += "(" + x + ")"; return r; };
    MC_CHECK(objs == expect(obj), "variables", a.str() << ": the variables come out as " << list(objs) << " instead of " << list(expect(obj)));
    MC_CHECK(devs == expect(dev), "step sizes", a.str() << ": the step sizes come out as " << list(devs) << " instead of " << list(expect(dev)));
}
MC_SCENARIO("probabilities of recombination and mutation")
{
    quiet(); Silent silent; double pc = choose(2), pm = choose(2); bool cd = pc == 1 && choose(2), md = pm == 1 && choose(2); bool bounded = choose(2);
    Args a; a.set("vecSize", "2").set("crossType", "standard").set("crossStdev", "discrete"); if (!cd) a.set("pCross", text(pc)); if (!md) a.set("pMut", text(pm)); if (bounded) a.set("objectBounds", "2[0,12]");
    eoParser parser(a.argc(), a.argv()); eoState state; eoEsChromInit<ES>& init = do_make_genotype<ES>(parser, state, ES()); eoGenOp<ES>& op = do_make_op<ES>(parser, state, init);
    if (pc == 0 && pm == 0) { mc::state(0); return; }      // an operator that never produces anything
    eoPop<ES> src; src.resize(2); for (unsigned k = 0; k < 2; ++k) { src[k].resize(2); src[k].stdevs.resize(2); for (unsigned i = 0; i < 2; ++i) { src[k][i] = 10 * k + i + 1; src[k].stdevs[i] = 2 * k + i + 1; } src[k].fitness(0); }
    bool crossed = false, mutated = false;
    forall([&] {
        rng_grid(2, 60); eo::rng.clearCache(); eoPop<ES> dest; eoSeqPopulator<ES> it(src, dest); op(it); ES& c = dest[0]; bool m = false; for (unsigned i = 0; i < 2; ++i) if (c.stdevs[i] != src[0].stdevs[i] && c.stdevs[i] != src[1].stdevs[i]) m = true;
        mutated = mutated || m; if (!m) for (unsigned i = 0; i < 2; ++i) crossed = crossed || c[i] == src[1][i];
        MC_CHECK(m == (pm == 1), "mutation", a.str() << (m ? "mutates" : "does not mutate")); if (bounded) for (double v : c) MC_CHECK(v >= 0 && v <= 12, "bounds", a.str() << ": " << v);
    });
    if (pm == 0) MC_CHECK(crossed == (pc == 1), "recombination", a.str() << (crossed ? "recombines" : "never recombines"));
    mc::state(mc::hash(a.str()));
}
