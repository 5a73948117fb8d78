// Comparators of objective vectors and solutions against the mathematical relations.
#include "moeo.hpp"
#include <comparator/moeoGDominanceObjectiveVectorComparator.h>
#include <comparator/moeoOneObjectiveComparator.h>
#include <comparator/moeoPtrComparator.h>
#include <comparator/moeoParetoDualObjectiveVectorComparator.h>
#include <core/moeoDualRealObjectiveVector.h>

static std::vector<OV> all_vectors(unsigned k)
{
    std::vector<OV> r;
    unsigned n = Dir::nObjectives(), total = 1;
    for (unsigned i = 0; i < n; ++i) total *= k;
    for (unsigned c = 0; c < total; ++c) { OV v; unsigned x = c; for (unsigned i = 0; i < n; ++i) { v[i] = x % k; x /= k; } r.push_back(v); }
    return r;
}
static std::string pair_of(const OV& a, const OV& b) { std::string d; for (unsigned i = 0; i < a.size(); ++i) d += Dir::minimizing(i) ? "-" : "+"; return show_ov(a) + " " + show_ov(b) + " directions " + d; }
template <class T, class C> static void order(const std::vector<T>& all, C less, bool weak, const char* what)
{
    // irreflexive, asymmetric, transitive; for sorting also transitive incomparability
    size_t m = all.size();
    std::vector<std::vector<char>> r(m, std::vector<char>(m));
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) r[i][j] = less(all[i], all[j]);
    for (size_t i = 0; i < m; ++i) {
        MC_CHECK(!r[i][i], "reflexive", what << " at " << i);
        for (size_t j = 0; j < m; ++j) {
            MC_CHECK(!(r[i][j] && r[j][i]), "symmetric", what << " at " << i << "," << j);
            for (size_t k = 0; k < m; ++k) {
                MC_CHECK(!(r[i][j] && r[j][k]) || r[i][k], "not transitive", what << " at " << i << "," << j << "," << k);
                if (weak) MC_CHECK(r[i][j] || r[j][i] || r[j][k] || r[k][j] || !(r[i][k] || r[k][i]), "incomparability not transitive", what << " at " << i << "," << j << "," << k);
            }
        }
    }
}
MC_SCENARIO("dominance relations equal their definition")
{
    unsigned n = any_directions(1, 3);
    OV a = any_ov(3), b = any_ov(3);
    mc::state(mc::mix(dirs(), mc::mix(mc::hashv(std::vector<double>(a)), mc::hashv(std::vector<double>(b)))));
    moeoParetoObjectiveVectorComparator<OV> pareto;
    moeoStrictObjectiveVectorComparator<OV> strict;
    moeoWeakObjectiveVectorComparator<OV> weak;
    bool all_worse = true, none_better = true;
    for (unsigned i = 0; i < n; ++i) { all_worse = all_worse && better(b, a, i); none_better = none_better && !better(a, b, i); }
    MC_CHECK(pareto(a, b) == dominates(b, a), "Pareto", pair_of(a, b));
    MC_CHECK(a.dominates(b) == dominates(a, b), "dominates", pair_of(a, b));
    MC_CHECK(strict(a, b) == all_worse, "strict", pair_of(a, b));
    MC_CHECK(weak(a, b) == none_better, "weak", pair_of(a, b));
    for (double eps : {1., 0.5, 1.5, 2.}) {
        moeoEpsilonObjectiveVectorComparator<OV> e(eps);
        bool want = true;
        for (unsigned i = 0; i < n; ++i) { double x = a[i] / eps; if (Dir::minimizing(i) ? x < b[i] : x > b[i]) want = false; }
        MC_CHECK(e(a, b) == want, "epsilon", pair_of(a, b) << " with " << eps);
    }
    // objective by objective, in their order
    moeoObjectiveObjectiveVectorComparator<OV> lex;
    bool less = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()), same = std::equal(a.begin(), a.end(), b.begin());
    MC_CHECK(lex(a, b) == less && (a < b) == less && (a == b) == same && (a != b) == !same && (a <= b) == (less || same) && (a > b) == !(less || same) && (a >= b) == !less, "objective order", pair_of(a, b));
}
MC_SCENARIO("dominance relations are orders")
{
    any_directions(1, 3);
    auto all = all_vectors(3);
    moeoParetoObjectiveVectorComparator<OV> pareto;
    moeoStrictObjectiveVectorComparator<OV> strict;
    moeoObjectiveObjectiveVectorComparator<OV> lex;
    order(all, pareto, false, "Pareto");
    order(all, strict, false, "strict");
    order(all, lex, true, "objective order");
    mc::state(dirs());
}
MC_SCENARIO("reference point dominance")
{
    unsigned n = any_directions(1, 2);
    OV ref = any_ov(3);
    moeoGDominanceObjectiveVectorComparator<OV> g(ref);
    auto flag = [&](const OV& v) { bool below = true, above = true; for (unsigned i = 0; i < n; ++i) { below = below && v[i] <= ref[i]; above = above && v[i] >= ref[i]; } return below || above; };
    auto all = all_vectors(4);
    for (auto& a : all) for (auto& b : all) {
        bool want = flag(a) == flag(b) ? dominates(b, a) : flag(b);
        mc::state(mc::mix(mc::mix(dirs(), mc::hashv(std::vector<double>(ref))), mc::mix(mc::hashv(std::vector<double>(a)), mc::hashv(std::vector<double>(b)))));
        MC_CHECK(g(a, b) == want, "g-dominance", pair_of(a, b) << " reference " << show_ov(ref));
    }
    order(all, g, false, "g-dominance");
}
MC_SCENARIO("values within the tolerance are equal")
{
    unsigned n = any_directions(1, 2);
    OV a = any_ov(2), b;
    for (unsigned i = 0; i < n; ++i) b[i] = a[i] + mc::pick({0., 1e-12, -1e-12, 1.});
    mc::state(mc::mix(dirs(), mc::mix(mc::hashv(std::vector<double>(a)), mc::hashv(std::vector<double>(b)))));
    OV c;
    for (unsigned i = 0; i < n; ++i) c[i] = b[i] > a[i] + .5 ? b[i] : a[i];
    moeoParetoObjectiveVectorComparator<OV> pareto;
    moeoStrictObjectiveVectorComparator<OV> strict;
    moeoWeakObjectiveVectorComparator<OV> weak;
    moeoObjectiveObjectiveVectorComparator<OV> lex;
    for (int k = 0; k < 2; ++k) {
        const OV &x = k ? a : b, &y = k ? b : a, &p = k ? a : c, &q = k ? c : a;
        MC_CHECK(pareto(x, y) == pareto(p, q) && strict(x, y) == strict(p, q) && weak(x, y) == weak(p, q) && lex(x, y) == lex(p, q) && (x == y) == (p == q), "tolerance", show_ov(a) << " " << show_ov(c));
    }
}
static std::vector<Sol> any_ranked()
{
    std::vector<Sol> r;
    for (int f = 0; f < 3; ++f) for (int d = 0; d < 3; ++d) { Sol s(1, 3 * f + d); OV v; v[0] = f; v[1] = d; s.objectiveVector(v); s.fitness(f - 1); s.diversity(d * 0.5); r.push_back(s); }
    return r;
}
MC_SCENARIO("orders of solutions")
{
    directions(2, mc::choose(4));
    auto all = any_ranked();
    double wf = mc::pick({1., 0.5, 0., 2.}), wd = mc::pick({1., 0.25, 0., 3.});
    moeoFitnessThenDiversityComparator<Sol> fd;
    moeoDiversityThenFitnessComparator<Sol> df;
    moeoFitnessComparator<Sol> ff;
    moeoAggregativeComparator<Sol> ag(wf, wd), ag1;
    moeoOneObjectiveComparator<Sol> o0(0), o1(1);
    moeoPtrComparator<Sol> pf(fd);
    for (auto& a : all) for (auto& b : all) {
        double fa = a.fitness(), fb = b.fitness(), da = a.diversity(), db = b.diversity();
        mc::state(mc::mix(id_of(a) * 16 + id_of(b), mc::hashv(std::vector<double>{wf, wd})));
        MC_CHECK(fd(a, b) == (fa < fb || (fa == fb && da < db)), "fitness then diversity", id_of(a) << " " << id_of(b));
        MC_CHECK(df(a, b) == (da < db || (da == db && fa < fb)), "diversity then fitness", id_of(a) << " " << id_of(b));
        MC_CHECK(ff(a, b) == (fa < fb), "fitness", "");
        MC_CHECK(ag(a, b) == (wf * fa + wd * da < wf * fb + wd * db) && ag1(a, b) == (fa + da < fb + db), "weighted sum", id_of(a) << " " << id_of(b));
        MC_CHECK(o0(a, b) == (a.objectiveVector()[0] < b.objectiveVector()[0]) && o1(a, b) == (a.objectiveVector()[1] < b.objectiveVector()[1]), "one objective", "");
        MC_CHECK(pf(&a, &b) == fd(a, b), "through pointers", "");
        MC_CHECK((a < b) == (a.objectiveVector() < b.objectiveVector()), "solution <", "");
        MC_CHECK((a > b) == (b.objectiveVector() < a.objectiveVector()), "solution >", "");
    }
    order(all, fd, true, "fitness then diversity");
    order(all, df, true, "diversity then fitness");
    order(all, ff, true, "fitness");
    order(all, ag, true, "weighted sum");
    order(all, o1, true, "one objective");
    order(all, [](const Sol& a, const Sol& b) { return a < b; }, true, "solutions");
}
MC_SCENARIO("an objective that does not exist is refused")
{
    directions(1 + mc::choose(3), 0);
    unsigned k = mc::choose(6);
    bool refused = false;
    try { moeoOneObjectiveComparator<Sol> c(k); } catch (std::exception&) { refused = true; }
    mc::state(Dir::nObjectives() * 8 + k);
    MC_CHECK(refused == (k >= Dir::nObjectives()), "objective index", k << " of " << Dir::nObjectives());
}
template <class B> static Sol read_back(const B& s) { std::stringstream t; t << s; B r; t >> r; return r; }
MC_SCENARIO("what is not known cannot be read")
{
    // fitness, diversity and objectives each have their own validity
    directions(2, 3);
    Sol s(1, 5);
    bool o = false, f = false, d = false;
    for (int k = 0; k < 4; ++k) {
        switch (mc::choose(8)) {
            case 0: s.objectiveVector(any_ov(2)); o = true; break;
            case 1: s.fitness(k); f = true; break;
            case 2: s.diversity(k); d = true; break;
            case 3: s.invalidateObjectiveVector(); o = false; break;
            case 4: s.invalidateFitness(); f = false; break;
            case 5: s.invalidateDiversity(); d = false; break;
            case 6: s.invalidate(); o = f = d = false; break;
            default: s.value({k}); o = f = d = false; break;
        }
        mc::state(o * 4 + f * 2 + d + 8 * k);
        auto throws = [](auto g) { try { g(); return false; } catch (std::exception&) { return true; } };
        MC_CHECK(throws([&] { s.objectiveVector(); }) == !o && s.invalidObjectiveVector() == !o && s.invalid() == !o, "objectives", "");
        MC_CHECK(throws([&] { s.fitness(); }) == !f && s.invalidFitness() == !f, "fitness", "");
        MC_CHECK(throws([&] { s.diversity(); }) == !d && s.invalidDiversity() == !d, "diversity", "");
        Sol c(s);
        MC_CHECK(c.invalidObjectiveVector() == !o && c.invalidFitness() == !f && c.invalidDiversity() == !d && (!o || c.objectiveVector() == s.objectiveVector()), "copy", "");
        std::stringstream t;
        t << s << "\n";
        Sol r;
        t >> r;
        MC_CHECK(r.size() == 1 && r[0] == s[0] && r.invalidObjectiveVector() == !o && (!o || r.objectiveVector() == s.objectiveVector()), "written and read", t.str());
    }
}
typedef moeoDualRealObjectiveVector<Dir> DV;
MC_SCENARIO("feasible vectors come first")
{
    unsigned n = any_directions(1, 2);
    std::vector<DV> all;
    for (int feas = 0; feas < 2; ++feas) for (auto& v : all_vectors(3)) {
        DV d(0., feas);
        for (unsigned i = 0; i < n; ++i) d[i] = eoMaximizingDualFitness(v[i], feas);
        all.push_back(d);
    }
    moeoParetoDualObjectiveVectorComparator<DV> c;
    for (auto& a : all) for (auto& b : all) {
        bool fa = a.is_feasible(), fb = b.is_feasible();
        DV a0 = a, b0 = b;
        bool dom = true, some = false, less = false, done = false;
        for (unsigned i = 0; i < n; ++i) {
            double x = a[i].value(), y = b[i].value();
            if (Dir::minimizing(i) ? x < y : x > y) dom = false;
            if (Dir::minimizing(i) ? x > y : x < y) some = true;
            if (!done && x != y) { less = x < y; done = true; }
        }
        mc::state(mc::mix(dirs() * 4 + fa * 2 + fb, mc::mix(uint64_t(a[0].value() * 8 + b[0].value()), uint64_t(a[n - 1].value() * 8 + b[n - 1].value()))));
        bool want = fa == fb ? dom && some : fb;
        MC_CHECK(c(a, b) == want, "dual dominance", a[0].value() << (fa ? " feasible" : "") << " " << b[0].value() << (fb ? " feasible" : ""));
        MC_CHECK(b.dominates(a) == want, "dual dominates", "");
        MC_CHECK((a < b) == (fa == fb ? less : fb), "dual order", "");
        for (unsigned i = 0; i < n; ++i) MC_CHECK(a[i].value() == a0[i].value() && b[i].value() == b0[i].value(), "compared values changed", "");
    }
    for (auto& a : all) {
        std::stringstream t;
        t << a;
        DV r(7., !a.is_feasible());
        t >> r;
        bool same = r.is_feasible() == a.is_feasible();
        for (unsigned i = 0; i < n; ++i) same = same && r[i] == a[i];
        MC_CHECK(same, "dual written and read", t.str());
    }
    order(all, c, false, "dual dominance");
    order(all, [](const DV& a, const DV& b) { return a < b; }, true, "dual order");
}
