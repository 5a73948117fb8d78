// P08: multi-objective statistics, saved fronts and stopping rule.
#include "moeo.hpp"
#include "memfile.hpp"
#include <set>
#include <fstream>
#include <sstream>
#include <cstdio>
#include <utils/moeoBinaryMetricStat.h>
#include <continue/moeoHypContinue.h>
#include <core/moeoDualRealObjectiveVector.h>
#include <metric/moeoDualHyperVolumeDifferenceMetric.h>
#include <continue/moeoDualHypContinue.h>

static eoPop<Sol> any_pop(unsigned lo, unsigned hi, unsigned k) { return any_solutions(lo, hi, k); }

MC_SCENARIO("best and average of each objective")
{
    unsigned n = any_directions(1, 3), k = n == 1 ? 3 : 2;
    eoPop<Sol> first = any_pop(1, 2, k), second = any_pop(1, n == 3 ? mc::tier(1, 2) : mc::tier(2, 3), k);
    mc::state(mc::mix(dirs(), mc::mix(hash_pop(first), hash_pop(second))));
    moeoBestObjVecStat<Sol> best;
    moeoAverageObjVecStat<Sol> mean;
    for (const eoPop<Sol>* p : { &first, &second }) {
        best(*p); mean(*p);
        mc::step();
        MC_CHECK(best.value().size() == n && mean.value().size() == n, "size", best.value().size() << " objectives");
        for (unsigned o = 0; o < n; ++o) {
            double sum = 0, top = (*p)[0].objectiveVector()[o];
            for (auto& s : *p) { sum += s.objectiveVector()[o]; if (Dir::minimizing(o) ? s.objectiveVector()[o] < top : s.objectiveVector()[o] > top) top = s.objectiveVector()[o]; }
            MC_CHECK(mc::close(mean.value()[o], sum / p->size(), 1e-12), "average", "objective " << o << " of " << show_pop(*p) << " is " << mean.value()[o]);
            MC_CHECK(best.value()[o] == top, "best", "objective " << o << " of " << show_pop(*p) << " is " << best.value()[o]);
            const Sol& who = best.bestindividuals(o);
            bool here = &who >= &(*p)[0] && &who < &(*p)[0] + p->size();
            MC_CHECK(here && who.objectiveVector()[o] == top, "best individual", "objective " << o << " of " << show_pop(*p) << (here ? "" : " is not in the population"));
        }
        bool refused = false;
        try { best.bestindividuals(n); } catch (std::exception&) { refused = true; }
        MC_CHECK(refused, "objective range", "an individual for objective " << n << " of " << n);
    }
}
// any binary measure: here one that tells the order of its arguments
struct Measure : moeoVectorVsVectorBinaryMetric<OV, double> {
    double operator()(const std::vector<OV>& a, const std::vector<OV>& b) override
    {
        double x = 0;
        for (auto& v : a) for (double y : v) x = x * 3 + y + 1;
        for (auto& v : b) for (double y : v) x = x * 3 + y + 2;
        return x + 1000 * a.size();
    }
};
MC_SCENARIO("progress between generations")
{
    directions(2, mc::pick({3, 1}));
    Measure m;
    moeoBinaryMetricStat<Sol> stat(m, "progress", -5);
    eoPop<Sol> pop, prev;
    std::string name = "progress.out";
    std::remove(name.c_str());
    moeoBinaryMetricSavingUpdater<Sol> save(m, pop, name);
    std::string want_text;
    unsigned line = 1;
    double want = -5;
    for (int g = 0; g < 3; ++g) {
        pop = any_pop(0, g == 1 ? 2 : 1, 2);
        stat(pop); save();
        mc::step();
        if (pop.size()) {
            if (prev.size()) {
                std::vector<OV> a, b;
                for (auto& s : pop) a.push_back(s.objectiveVector());
                for (auto& s : prev) b.push_back(s.objectiveVector());
                want = m(a, b);
                std::ostringstream os; os << line++ << ' ' << want << "\n";
                want_text += os.str();
            }
            prev = pop;
        }
        mc::state(mc::mix(g, mc::mix(dirs(), mc::mix(hash_pop(prev), hash_pop(pop)))));
        MC_CHECK(stat.value() == want, "statistic", stat.value() << " want " << want << " generation " << g);
        std::ifstream f(name); std::ostringstream got; got << f.rdbuf();
        MC_CHECK(got.str() == want_text, "file", "\"" << got.str() << "\" want \"" << want_text << "\"");
    }
    std::remove(name.c_str());
}
MC_SCENARIO("saved fronts")
{
    directions(2, mc::pick({3, 2}));
    bool count = mc::flag();
    int id = mc::pick({-1, 0, 3});
    moeoUnboundedArchive<Sol> arch;
    eoPop<Sol> pop;
    moeoArchiveUpdater<Sol> update(arch, pop);
    moeoArchiveObjectiveVectorSavingUpdater<Sol> save(arch, "front", count, id);
    moeoUnboundedArchive<Sol> ref;
    for (int g = 0; g < 3; ++g) {
        pop = any_pop(g == 2 ? 1 : 0, g == 1 ? 2 : 1, 2);
        update(); ref(pop);
        save();
        mc::step();
        std::string name = "front";
        if (id != -1) name += "." + std::to_string(id);
        if (count) name += "." + std::to_string(g);
        mc::state(mc::mix(mc::mix(g, count * 8 + id + 1), mc::mix(dirs(), hash_pop(pop))));
        std::multiset<std::vector<double>> have, want;
        std::ifstream f(name);
        MC_CHECK(bool(f), "file name", "no file " << name);
        std::string l;
        while (std::getline(f, l)) { std::istringstream is(l); std::vector<double> v; double x; while (is >> x) v.push_back(x); if (!v.empty()) have.insert(v); }
        for (auto& s : ref) want.insert(std::vector<double>(s.objectiveVector()));
        MC_CHECK(have == want, "front", have.size() << " vectors saved of " << want.size() << " in " << name);
        if (count) std::remove(name.c_str());
        else if (g == 2) std::remove(name.c_str());
    }
}
MC_SCENARIO("conversion to objective vectors")
{
    any_directions(1, 2);
    eoPop<Sol> p = any_pop(0, 3, 2);
    mc::state(mc::mix(dirs(), hash_pop(p)));
    moeoConvertPopToObjectiveVectors<Sol> conv;
    auto v = conv(p);
    MC_CHECK(v.size() == p.size(), "size", v.size());
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(v[i] == p[i].objectiveVector(), "vector", i);
}
// stops exactly when the archive covers the given optimum
static void stops(unsigned n, unsigned k)
{
    directions(n, n == 2 ? mc::pick({3, 0, 1}) : mc::pick({7, 2}));
    std::vector<OV> opt;
    std::vector<double> flat;
    unsigned m = mc::range(1, 2);
    for (unsigned i = 0; i < m; ++i) { OV v = any_ov(k); opt.push_back(v); for (double x : v) flat.push_back(x); }
    for (auto& a : opt) for (auto& b : opt) if (&a != &b) mc::assume(!dominates(a, b) && !(a == b));
    moeoUnboundedArchive<Sol> arch;
    unsigned len = mc::range(1, 2);
    for (unsigned i = 0; i < len; ++i) {
        OV v = any_ov(k);
        bool behind = false;                                     // nothing beats the optimum
        for (auto& o : opt) behind = behind || o == v || dominates(o, v);
        mc::assume(behind);
        arch(sol(int(i), v));
    }
    bool norm = mc::flag(), given = mc::flag();
    uint64_t h = mc::mix(dirs(), norm * 2 + given);
    for (double x : flat) h = mc::mix(h, uint64_t(x));
    mc::state(mc::mix(h, hash_pop(arch)));
    moeoHyperVolumeDifferenceMetric<OV> metric(norm, 1.5);
    moeoHypContinue<Sol> own(flat, arch, norm, 1.5), with(metric, flat, arch);
    moeoHypContinue<Sol>& c = given ? with : own;
    bool all = true;
    for (auto& o : opt) { bool in = false; for (auto& s : arch) in = in || s.objectiveVector() == o; all = all && in; }
    for (int call = 0; call < 2; ++call) {
        bool go = c(arch);
        MC_CHECK(go == !all, "stop", (go ? "goes on" : "stops") << " with archive " << show_pop(arch) << " optimum of " << m << " starting " << show_ov(opt[0]) << (norm ? " normalised" : "") << " directions " << dirs());
    }
}
MC_SCENARIO("stopping at the optimum, two objectives") { stops(2, mc::tier(3, 3)); }
MC_SCENARIO("stopping at the optimum, three objectives") { stops(3, 2); }
// a target that may be feasible or not
typedef moeoDualRealObjectiveVector<Dir> DV;
typedef moeoIntVector<DV> DSol;
MC_SCENARIO("stopping at a feasible or unfeasible optimum")
{
    directions(2, 0);
    bool want_ok = mc::flag(), have_ok = mc::flag();
    auto dual = [](const OV& v, bool ok) { DV d(0., ok); for (unsigned i = 0; i < 2; ++i) d[i] = eoMaximizingDualFitness(v[i], ok); return d; };
    unsigned m = mc::range(1, 2), len = mc::range(1, 2);
    std::vector<OV> opt, have;
    std::vector<eoMaximizingDualFitness> flat;
    for (unsigned i = 0; i < m; ++i) { OV v = any_ov(3); opt.push_back(v); for (double x : v) flat.push_back(x); }
    for (auto& a : opt) for (auto& b : opt) if (&a != &b) mc::assume(!dominates(a, b) && !(a == b));
    moeoParetoDualObjectiveVectorComparator<DV> cmp;
    moeoUnboundedArchive<DSol> arch(cmp);
    for (unsigned i = 0; i < len; ++i) {
        OV v = any_ov(3);
        bool behind = false;
        for (auto& o : opt) behind = behind || o == v || dominates(o, v);
        mc::assume(behind);
        DSol s(1, int(i)); s.objectiveVector(dual(v, have_ok));
        arch(s);
        have.push_back(v);
    }
    bool norm = mc::flag();
    uint64_t h = want_ok * 4 + have_ok * 2 + norm;
    for (auto* s : {&opt, &have}) for (auto& v : *s) h = mc::mix(h, mc::hashv(std::vector<double>(v)));
    mc::state(h);
    moeoDualHypContinue<DSol> c(flat, want_ok, arch, norm, 1.5);
    bool all = true;
    for (auto& o : opt) { bool in = false; for (auto& v : have) in = in || v == o; all = all && in; }
    // any feasible front is beyond an unfeasible one
    bool stop = want_ok == have_ok ? all : have_ok;
    for (int call = 0; call < 2; ++call) {
        bool go = c(arch);
        MC_CHECK(go == !stop, "dual stop", (go ? "goes on" : "stops") << " with " << have.size() << (have_ok ? " feasible" : " unfeasible") << " starting " << show_ov(have[0]) << " target " << (want_ok ? "feasible" : "unfeasible") << " of " << m << " starting " << show_ov(opt[0]));
    }
}
