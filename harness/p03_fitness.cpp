// Fitness assignments against their definitions, for every small population.
#include "moeo.hpp"
#include <scalarStuffs/fitness/moeoAchievementFitnessAssignment.h>

static std::string dirs_text() { std::string d = " directions "; for (unsigned i = 0; i < Dir::nObjectives(); ++i) d += Dir::minimizing(i) ? "-" : "+"; return d; }
static std::string fits(const eoPop<Sol>& p) { std::vector<double> f; for (auto& s : p) f.push_back(s.fitness()); return " got " + mc::show(f); }
static const Sol& by_id(const eoPop<Sol>& p, int id) { for (auto& s : p) if (id_of(s) == id) return s; mc::fail("lost", "an individual disappeared"); return p[0]; }
static void same_people(const eoPop<Sol>& before, const eoPop<Sol>& after)
{
    MC_CHECK(before.size() == after.size(), "population changed", show_pop(before));
    for (auto& s : before) MC_CHECK(std::vector<double>(by_id(after, id_of(s)).objectiveVector()) == std::vector<double>(s.objectiveVector()), "population changed", show_pop(before));
}
static bool equal(const Sol& a, const Sol& b) { return std::vector<double>(a.objectiveVector()) == std::vector<double>(b.objectiveVector()); }
static bool dom(const Sol& a, const Sol& b) { return dominates(a.objectiveVector(), b.objectiveVector()); }

// 1 for the non-dominated, and so on for what remains
static std::vector<int> depths(const eoPop<Sol>& p)
{
    std::vector<int> d(p.size(), 0);
    for (int level = 1;; ++level) {
        std::vector<size_t> now;
        bool left = false;
        for (size_t i = 0; i < p.size(); ++i) if (!d[i]) {
            left = true;
            bool beaten = false;
            for (size_t j = 0; j < p.size(); ++j) beaten = beaten || (!d[j] && dom(p[j], p[i]));
            if (!beaten) now.push_back(i);
        }
        if (!left) return d;
        for (size_t i : now) d[i] = level;
    }
}
static void depth_is_right(const eoPop<Sol>& before, const eoPop<Sol>& p, bool copies_last)
{
    same_people(before, p);
    std::vector<int> d = depths(before);
    int worst = *std::max_element(d.begin(), d.end());
    if (!copies_last) {
        for (size_t i = 0; i < before.size(); ++i)
            MC_CHECK(by_id(p, int(i)).fitness() == worst - d[i], "depth", show_pop(before) << " individual " << i << " in front " << d[i] << " of " << worst << fits(p) << dirs_text());
        return;
    }
    // one of each group of equals keeps the place, the others come last
    size_t copies = 0;
    std::set<std::vector<double>> seen;
    for (auto& s : before) if (!seen.insert(s.objectiveVector()).second) ++copies;
    for (auto& v : seen) {
        std::multiset<double> got;
        int depth = 0;
        for (size_t i = 0; i < before.size(); ++i) if (std::vector<double>(before[i].objectiveVector()) == v) { depth = d[i]; got.insert(by_id(p, int(i)).fitness()); }
        std::multiset<double> want;
        want.insert((copies ? int(before.size()) : worst) - depth);
        while (want.size() < got.size()) want.insert(0);
        MC_CHECK(got == want, "depth without copies", show_pop(before) << fits(p) << dirs_text());
    }
}
MC_SCENARIO("dominance depth, one and two objectives")
{
    unsigned n = any_directions(1, 2);
    eoPop<Sol> p = n == 1 ? any_solutions(1, 4, 3) : any_solutions(1, mc::tier(4, 5), 3), before = p;
    mc::state(mc::mix(dirs(), hash_pop(p)));
    moeoDominanceDepthFitnessAssignment<Sol> depth;
    depth(p);
    depth_is_right(before, p, false);
    if (n == 2) {
        eoPop<Sol> q = before;
        moeoDominanceDepthFitnessAssignment<Sol> drop(true);
        drop(q);
        depth_is_right(before, q, true);
        moeoParetoObjectiveVectorComparator<OV> pareto;
        eoPop<Sol> r = before;
        moeoDominanceDepthFitnessAssignment<Sol> keep(pareto, false);
        keep(r);
        depth_is_right(before, r, false);
    }
}
MC_SCENARIO("dominance depth, four individuals")
{
    directions(2, mc::choose(4));
    eoPop<Sol> p = any_solutions(4, mc::tier(5, 6), 2), before = p;
    mc::state(mc::mix(dirs(), hash_pop(p)));
    moeoDominanceDepthFitnessAssignment<Sol> depth;
    depth(p);
    depth_is_right(before, p, false);
    eoPop<Sol> q = before;
    moeoDominanceDepthFitnessAssignment<Sol> drop(true);
    drop(q);
    depth_is_right(before, q, true);
}
MC_SCENARIO("dominance depth, a chain of fronts")
{
    directions(2, mc::choose(4));
    // values far apart, negative ones and zero
    const double x[] = {-5, 0, 7};
    eoPop<Sol> p;
    unsigned m = mc::range(1, 4);
    for (unsigned i = 0; i < m; ++i) p.push_back(sol(int(i), ov({x[mc::choose(3)], x[mc::choose(3)]})));
    eoPop<Sol> before = p;
    mc::state(mc::mix(dirs(), hash_pop(p)));
    moeoDominanceDepthFitnessAssignment<Sol> depth;
    depth(p);
    depth_is_right(before, p, false);
    // once more with what is left
    eoPop<Sol> rest;
    for (auto& s : before) if (id_of(s)) rest.push_back(sol(id_of(s) - 1, s.objectiveVector()));
    if (rest.empty()) return;
    eoPop<Sol> again = rest;
    depth(again);
    depth_is_right(rest, again, false);
}
MC_SCENARIO("dominance depth, three objectives")
{
    directions(3, mc::choose(8));
    eoPop<Sol> p = any_solutions(1, 4, 2), before = p;
    mc::state(mc::mix(dirs(), hash_pop(p)));
    moeoParetoObjectiveVectorComparator<OV> pareto;
    moeoDominanceDepthFitnessAssignment<Sol> depth, other(pareto);
    depth(p);
    depth_is_right(before, p, false);
    eoPop<Sol> q = before;
    other(q);
    depth_is_right(before, q, false);
}

// who is counted: with copies dropped, the later of two equals is dominated by every original and dominates nobody
static std::vector<std::vector<char>> relation(const eoPop<Sol>& all, bool nocopy)
{
    size_t m = all.size();
    std::vector<char> copy(m, 0);
    if (nocopy) for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < i; ++j) if (equal(all[i], all[j])) copy[i] = 1;
    std::vector<std::vector<char>> r(m, std::vector<char>(m, 0));
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j)
        r[i][j] = copy[i] ? 0 : copy[j] ? 1 : dom(all[i], all[j]);
    return r;
}
enum Kind { Count, Ranking, Rank };
static void counted(const eoPop<Sol>& all, const std::vector<double>& got, bool nocopy, Kind kind, const char* what)
{
    auto r = relation(all, nocopy);
    size_t m = all.size();
    std::vector<double> count(m, 0), rank(m, 0), want(m, 0);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) if (r[i][j]) { ++count[i]; ++rank[j]; }
    for (size_t i = 0; i < m; ++i) {
        if (kind == Count) want[i] = count[i];
        if (kind == Rank) want[i] = -(rank[i] + 1);
        if (kind == Ranking) for (size_t j = 0; j < m; ++j) if (r[j][i]) want[i] -= count[j];
    }
    bool ok = true;
    for (size_t i = 0; i < m; ++i) ok = ok && got[i] == want[i];
    MC_CHECK(ok, what, show_pop(all) << " copies " << (nocopy ? "dropped" : "kept") << " want " << mc::show(want) << " got " << mc::show(got) << dirs_text());
}
template <class A> static void judge_counts(A& assign, moeoUnboundedArchive<Sol>& arch, eoPop<Sol> p, bool nocopy, Kind kind, const char* what)
{
    eoPop<Sol> all;
    for (auto& s : arch) all.push_back(s);
    for (auto& s : p) all.push_back(s);
    eoPop<Sol> before = p;
    assign(p);
    same_people(before, p);
    std::vector<double> got;
    for (auto& s : arch) got.push_back(s.fitness());
    for (auto& s : p) got.push_back(s.fitness());
    counted(all, got, nocopy, kind, what);
}
static void counts(unsigned n, unsigned hi, unsigned k)
{
    directions(n, n == 3 ? mc::pick({7, 0, 5}) : mc::choose(1u << n));
    bool nocopy = mc::flag();
    moeoUnboundedArchive<Sol> none, arch;
    eoPop<Sol> p = any_solutions(1, hi, k);
    // a first use, on a population full of copies
    eoPop<Sol> first = p;
    first.push_back(sol(50, p[0].objectiveVector()));
    unsigned in_archive = mc::choose(3);
    for (unsigned i = 0; i < in_archive; ++i) arch.push_back(sol(int(100 + i), any_ov(k)));
    mc::state(mc::mix(mc::mix(dirs(), hash_pop(p)), mc::mix(hash_pop(arch), nocopy)));
    moeoParetoObjectiveVectorComparator<OV> pareto;
    moeoUnboundedArchive<Sol>& used = in_archive ? arch : none;
    for (int round = 0; round < 2; ++round) {
        moeoDominanceCountFitnessAssignment<Sol> c0(nocopy), c1(used, nocopy);
        moeoDominanceRankFitnessAssignment<Sol> r0(1.0, nocopy), r1(used, 1.0, nocopy);
        moeoDominanceCountRankingFitnessAssignment<Sol> k0(nocopy), k1(pareto, used, nocopy);
        // what is not said keeps copies (for ranks text and code differ: not judged) and starts ranks at one
        moeoDominanceCountFitnessAssignment<Sol> cd, cp(pareto), ca(used), cpa(pareto, used);
        moeoDominanceRankFitnessAssignment<Sol> rd, rp(pareto), ra(used), rpa(pareto, used);
        moeoDominanceCountRankingFitnessAssignment<Sol> kd, kp(pareto), ka(used), kpa(pareto, used);
        bool different = true; { eoPop<Sol> all = p; for (auto& s : used) all.push_back(s); for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) different = different && !equal(all[i], all[j]); }
        if (!nocopy) {
            if (!in_archive) { judge_counts(cd, none, first, false, Count, "count by default"); judge_counts(cp, none, first, false, Count, "count by default"); if (different) judge_counts(rd, none, p, false, Rank, "rank by default"); if (different) judge_counts(rp, none, p, false, Rank, "rank by default"); if (different) judge_counts(kd, none, p, false, Ranking, "count ranking by default"); if (different) judge_counts(kp, none, p, false, Ranking, "count ranking by default"); }
            else { judge_counts(ca, used, first, false, Count, "count by default"); judge_counts(cpa, used, first, false, Count, "count by default"); if (different) judge_counts(ra, used, p, false, Rank, "rank by default"); if (different) judge_counts(rpa, used, p, false, Rank, "rank by default"); if (different) judge_counts(ka, used, p, false, Ranking, "count ranking by default"); if (different) judge_counts(kpa, used, p, false, Ranking, "count ranking by default"); }
        }
        for (int use = 0; use < 2; ++use) {
            eoPop<Sol>& q = (use ^ round) ? p : first;
            if (!in_archive) {
                judge_counts(c0, none, q, nocopy, Count, "count");
                judge_counts(r0, none, q, nocopy, Rank, "rank");
                judge_counts(k0, none, q, nocopy, Ranking, "count ranking");
            } else {
                judge_counts(c1, used, q, nocopy, Count, "count with archive");
                judge_counts(r1, used, q, nocopy, Rank, "rank with archive");
                judge_counts(k1, used, q, nocopy, Ranking, "count ranking with archive");
            }
        }
    }
}
MC_SCENARIO("dominance counts and ranks, one objective") { counts(1, 3, 3); }
MC_SCENARIO("dominance counts and ranks, two objectives") { counts(2, 3, 2); }
MC_SCENARIO("dominance counts and ranks, three objectives") { counts(3, 2, 2); }
MC_SCENARIO_T("dominance counts and ranks, three values") { counts(2, 2, 3); }

// indicator based fitness
struct Box {
    std::vector<double> lo, range;
    void add(const OV& v)
    {
        for (unsigned i = 0; i < v.size(); ++i) {
            if (lo.size() <= i) { lo.push_back(v[i]); range.push_back(v[i]); }
            lo[i] = std::min(lo[i], double(v[i]));
            range[i] = std::max(range[i], double(v[i]));
        }
    }
    void close() { for (size_t i = 0; i < lo.size(); ++i) { if (range[i] == lo[i]) { lo[i] -= 1e-6; range[i] += 1e-6; } range[i] -= lo[i]; } }
    double cost(const OV& v, unsigned i) const { double x = (v[i] - lo[i]) / range[i]; return Dir::minimizing(i) ? x : 1 - x; }
    double epsilon(const OV& a, const OV& b) const { double e = -1e300; for (unsigned i = 0; i < a.size(); ++i) e = std::max(e, cost(a, i) - cost(b, i)); return e; }
    // volume dominated by a and not by b, in units of the box up to the reference point
    double only(const OV& a, const OV& b, double rho) const
    {
        double va = 1, both = 1;
        for (unsigned i = 0; i < a.size(); ++i) { va *= (rho - cost(a, i)) / rho; both *= (rho - std::max(cost(a, i), cost(b, i))) / rho; }
        return va - both;
    }
    double volume(const OV& a, const OV& b, double rho) const { return dominates(a, b) ? -only(a, b, rho) : only(b, a, rho); }
};
static void indicators(unsigned n, unsigned hi, unsigned k)
{
    directions(n, n == 3 ? mc::pick({7, 0, 5}) : mc::choose(1u << n));
    eoPop<Sol> p = any_solutions(1, hi, k);
    bool hyper = mc::flag();
    double kappa = 0.5, rho = 1.1;
    mc::state(mc::mix(mc::mix(dirs(), hash_pop(p)), hyper));
    moeoAdditiveEpsilonBinaryMetric<OV> eps;
    moeoHypervolumeBinaryMetric<OV> hv(rho);
    moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>& metric = hyper ? (moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>&)hv : eps;
    moeoExpBinaryIndicatorBasedFitnessAssignment<Sol> assign(metric, kappa);
    // a first use on a larger and different population
    eoPop<Sol> other;
    for (int i = 0; i < int(hi) + 1; ++i) { OV v; for (unsigned j = 0; j < n; ++j) v[j] = 10 * i + j; other.push_back(sol(i, v)); }
    if (mc::flag()) assign(other);
    Box box;
    for (auto& s : p) box.add(s.objectiveVector());
    box.close();
    auto I = [&](const OV& a, const OV& b) { return hyper ? box.volume(a, b, rho) : box.epsilon(a, b); };
    auto want = [&](const eoPop<Sol>& q, const OV& v, int me) { double f = 0; for (size_t j = 0; j < q.size(); ++j) if (int(j) != me) f -= std::exp(-I(q[j].objectiveVector(), v) / kappa); return f; };
    eoPop<Sol> before = p;
    assign(p);
    same_people(before, p);
    for (size_t i = 0; i < p.size(); ++i)
        MC_CHECK(mc::close(p[i].fitness(), want(p, p[i].objectiveVector(), int(i)), 1e-8), "indicator", (hyper ? "hypervolume " : "epsilon ") << show_pop(p) << fits(p) << " want " << want(p, p[i].objectiveVector(), int(i)) << " at " << i << dirs_text());
    // one leaves: the values become those of the rest, within the same bounds
    if (p.size() < 2) return;
    size_t out = mc::choose(unsigned(p.size()));
    OV gone = p[out].objectiveVector();
    eoPop<Sol> rest = p;
    rest.erase(rest.begin() + out);
    assign.updateByDeleting(rest, gone);
    for (size_t i = 0; i < rest.size(); ++i)
        MC_CHECK(mc::close(rest[i].fitness(), want(rest, rest[i].objectiveVector(), int(i)), 1e-8), "after deleting", (hyper ? "hypervolume " : "epsilon ") << show_pop(p) << " without " << out << fits(rest) << dirs_text());
    // and comes back
    double back = assign.updateByAdding(rest, gone);
    MC_CHECK(mc::close(back, want(rest, gone, -1), 1e-8), "added", show_pop(p) << " " << back);
    rest.push_back(sol(int(out), gone));
    for (size_t i = 0; i + 1 < rest.size(); ++i)
        MC_CHECK(mc::close(rest[i].fitness(), want(rest, rest[i].objectiveVector(), int(i)), 1e-8), "after adding", show_pop(p) << " with " << out << " again" << fits(p));
}
MC_SCENARIO("indicator based fitness, one objective") { indicators(1, 3, 3); }
MC_SCENARIO("indicator based fitness, two objectives") { indicators(2, 3, mc::tier(2, 3)); }
MC_SCENARIO("indicator based fitness, three objectives") { indicators(3, mc::tier(2, 3), 2); }
MC_SCENARIO("indicator to a reference point")
{
    unsigned n = any_directions(1, 2);
    eoPop<Sol> p = any_solutions(1, 2, 3), before = p;
    OV ref = any_ov(3);
    bool hyper = mc::flag();
    mc::state(mc::mix(mc::mix(dirs(), hash_pop(p)), mc::mix(mc::hashv(std::vector<double>(ref)), hyper + n)));
    moeoAdditiveEpsilonBinaryMetric<OV> eps;
    moeoHypervolumeBinaryMetric<OV> hv(1.5);
    moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>& metric = hyper ? (moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>&)hv : eps;
    moeoReferencePointIndicatorBasedFitnessAssignment<Sol> assign(ref, metric);
    assign(p);
    same_people(before, p);
    Box box;
    for (auto& s : p) box.add(s.objectiveVector());
    box.add(ref);
    box.close();
    for (auto& s : p) {
        double want = -(hyper ? box.volume(s.objectiveVector(), ref, 1.5) : box.epsilon(s.objectiveVector(), ref));
        MC_CHECK(mc::close(s.fitness(), want, 1e-8), "reference point", show_pop(p) << " reference " << show_ov(ref) << fits(p) << " want " << want << dirs_text());
    }
}

// scalarisations
MC_SCENARIO("weighted sums, constraints and achievement")
{
    unsigned n = any_directions(1, 3);
    OV v = any_ov(3), ref;
    for (unsigned i = 0; i < n; ++i) ref[i] = mc::pick({0.5, 1., 2.});
    mc::state(mc::mix(dirs(), mc::mix(mc::hashv(std::vector<double>(v)), mc::hashv(std::vector<double>(ref)))));
    std::vector<double> w;
    for (unsigned i = 0; i < n; ++i) w.push_back(0.25 * (i + 1));
    eoPop<Sol> p;
    p.push_back(sol(0, v));
    p.push_back(sol(1, ref));
    moeoAggregationFitnessAssignment<Sol> sum(w);
    sum(p);
    auto gain = [&](const OV& x) { double s = 0; for (unsigned i = 0; i < n; ++i) s += (Dir::minimizing(i) ? -1 : 1) * w[i] * x[i]; return s; };
    MC_CHECK(mc::close(p[0].fitness(), gain(v), 1e-9) && mc::close(p[1].fitness(), gain(ref), 1e-9), "weighted sum", show_pop(p) << fits(p) << dirs_text());
    MC_CHECK(!dom(p[0], p[1]) || p[0].fitness() > p[1].fitness(), "weighted sum against dominance", show_pop(p) << fits(p) << dirs_text());
    // one objective optimised, the others penalised beyond their constraint; scaled to 0..4 or not
    moeoObjectiveVectorNormalizer<Sol> plain;
    OV low, high;
    for (unsigned i = 0; i < n; ++i) { low[i] = -1; high[i] = 1; }
    moeoObjectiveVectorNormalizer<Sol> scaled(low, high, 4);
    for (unsigned opt = 0; opt < n; ++opt) for (int sc = 0; sc < 2; ++sc) {
        auto norm = [&](double x) { return sc ? (x + 1) * 2 : x; };
        moeoConstraintFitnessAssignment<Sol> cons(w, ref, int(opt), sc ? scaled : plain);
        eoPop<Sol> q;
        q.push_back(sol(0, v));
        cons(q);
        double want = 0;
        for (unsigned i = 0; i < n; ++i) {
            double s = Dir::minimizing(i) ? -1 : 1;
            if (i == opt) want += s * w[i] * norm(v[i]);
            else if (better(ref, v, i)) want -= w[i] * std::fabs(norm(v[i]) - norm(ref[i]));
        }
        MC_CHECK(mc::close(q[0].fitness(), want, 1e-9), "constraint", show_ov(v) << " constraint " << show_ov(ref) << " optimised " << opt << " scaled " << sc << " want " << want << fits(q) << dirs_text());
    }
    bool all_min = true;
    for (unsigned i = 0; i < n; ++i) all_min = all_min && Dir::minimizing(i);
    if (all_min) {
        auto achieve = [&](const OV& x, double each) { double m = 1e300, s = 0; for (unsigned i = 0; i < n; ++i) { double t = (each ? each : w[i]) * (ref[i] - x[i]); m = std::min(m, t); s += t; } return m + 0.0001 * s; };
        moeoAchievementFitnessAssignment<Sol> a1(ref, w), a2(ref);
        eoPop<Sol> q;
        q.push_back(sol(0, v));
        a1(q);
        MC_CHECK(mc::close(q[0].fitness(), achieve(v, 0), 1e-9), "achievement", show_ov(v) << " reference " << show_ov(ref) << fits(q));
        a2(q);
        MC_CHECK(mc::close(q[0].fitness(), achieve(v, 1. / n), 1e-9), "achievement with equal weights", show_ov(v) << " reference " << show_ov(ref) << fits(q));
        moeoAchievementFitnessAssignment<Sol> a3(v, w);
        a3.setReference(ref);
        a3(q);
        MC_CHECK(mc::close(q[0].fitness(), achieve(v, 0), 1e-9), "achievement with a new reference", show_ov(v) << " reference " << show_ov(ref) << fits(q));
    }
}
MC_SCENARIO("distances to a reference point")
{
    unsigned n = any_directions(1, 3);
    OV v, ref, w;
    for (unsigned i = 0; i < n; ++i) { v[i] = mc::pick({0., 0.25, 1.5}); ref[i] = mc::pick({0., 0.75}); w[i] = 0.5 * (i + 1); }
    unsigned rho = mc::range(1, 2);
    mc::state(mc::mix(dirs(), mc::mix(mc::hashv(std::vector<double>(v)), mc::mix(mc::hashv(std::vector<double>(ref)), rho))));
    OV low, high;
    for (unsigned i = 0; i < n; ++i) { low[i] = -1; high[i] = 1; }
    moeoObjectiveVectorNormalizer<Sol> scaled(low, high, 4);
    for (int sc = 0; sc < 2; ++sc) {
        std::vector<double> d, away;
        for (unsigned i = 0; i < n; ++i) { double x = (v[i] - ref[i]) * (sc ? 2 : 1); d.push_back(Dir::minimizing(i) ? x : -x); away.push_back(std::fabs(x)); }
        double asf = -1e300, asum = 0, cheb = 0, amax = -1, plain = 0;
        for (unsigned i = 0; i < n; ++i) {
            asf = std::max(asf, w[i] * d[i]);
            asum += w[i] * d[i];
            cheb += std::pow(w[i] * std::pow(away[i], rho), 1. / rho);
            amax = std::max(amax, w[i] * away[i]);
            plain += away[i];
        }
        auto judge = [&](moeoSingleObjectivization<Sol>& f, double want, const char* what) {
            eoPop<Sol> q;
            q.push_back(sol(0, v));
            f(q);
            MC_CHECK(mc::close(q[0].fitness(), want, 1e-9), what, show_ov(v) << " reference " << show_ov(ref) << " weights " << show_ov(w) << " rho " << rho << " scaled " << sc << " want " << want << fits(q) << dirs_text());
        };
        if (sc) {
            moeoAchievementScalarizingFunctionMetricFitnessAssignment<Sol> a(rho, ref, w, scaled);
            moeoAugmentedAchievementScalarizingFunctionMetricFitnessAssignment<Sol> b(rho, ref, w, scaled);
            moeoWeightedChebychevMetricFitnessAssignment<Sol> c(rho, ref, w, scaled);
            moeoAugmentedWeightedChebychevMetricFitnessAssignment<Sol> e(rho, ref, w, scaled);
            judge(a, -asf, "achievement function");
            judge(b, -(asum + rho * asf), "augmented achievement function");
            judge(c, -cheb, "weighted Chebychev");
            judge(e, -(rho * plain + amax), "augmented weighted Chebychev");
        } else {
            moeoAchievementScalarizingFunctionMetricFitnessAssignment<Sol> a(rho, ref, w);
            moeoAugmentedAchievementScalarizingFunctionMetricFitnessAssignment<Sol> b(rho, ref, w);
            moeoWeightedChebychevMetricFitnessAssignment<Sol> c(rho, ref, w);
            moeoAugmentedWeightedChebychevMetricFitnessAssignment<Sol> e(rho, ref, w);
            judge(a, -asf, "achievement function");
            judge(b, -(asum + rho * asf), "augmented achievement function");
            judge(c, -cheb, "weighted Chebychev");
            judge(e, -(rho * plain + amax), "augmented weighted Chebychev");
        }
    }
}
MC_SCENARIO("normalisers")
{
    unsigned n = any_directions(1, 2);
    eoPop<Sol> p = any_solutions(1, 3, 3);
    OV v = any_ov(3);
    double top = mc::pick({100., 2., 0.});
    mc::state(mc::mix(mc::mix(dirs(), hash_pop(p)), mc::mix(mc::hashv(std::vector<double>(v)), uint64_t(top))));
    auto same = [&](const OV& a, std::vector<double> b) { for (unsigned i = 0; i < n; ++i) if (!mc::close(a[i], b[i], 1e-9)) return false; return true; };
    // from a population: everybody lands in 0..top, or in 0..largest range when top is 0
    std::vector<double> lo(n, 1e300), hi(n, -1e300), want;
    for (auto& s : p) for (unsigned i = 0; i < n; ++i) { lo[i] = std::min(lo[i], double(s.objectiveVector()[i])); hi[i] = std::max(hi[i], double(s.objectiveVector()[i])); }
    double widest = 0;
    for (unsigned i = 0; i < n; ++i) widest = std::max(widest, hi[i] - lo[i]);
    for (unsigned i = 0; i < n; ++i) want.push_back((v[i] - lo[i]) * (hi[i] == lo[i] ? 1 : (top ? top : widest) / (hi[i] - lo[i])));
    moeoObjectiveVectorNormalizer<Sol> from_pop(p, top), updated(moeoObjectiveVectorNormalizer<Sol>::make_dummy_scale(), top);
    updated.update_by_pop(p);
    MC_CHECK(same(from_pop(v), want), "normaliser from a population", show_pop(p) << " top " << top << " " << show_ov(v) << " -> " << show_ov(from_pop(v)));
    MC_CHECK(same(updated(v), want), "normaliser updated by a population", show_pop(p) << " top " << top << " " << show_ov(v) << " -> " << show_ov(updated(v)));
    if (!top) return;
    // from bounds
    std::vector<eoRealInterval> bounds;
    want.clear();
    OV low, high;
    for (unsigned i = 0; i < n; ++i) { bounds.push_back(eoRealInterval(-1. - i, 3.)); low[i] = -1. - i; high[i] = 3; want.push_back((v[i] + 1. + i) * top / (4. + i)); }
    moeoObjectiveVectorNormalizer<Sol> from_bounds(bounds, top), from_ends(low, high, top), up(moeoObjectiveVectorNormalizer<Sol>::make_dummy_scale(), top), up2(moeoObjectiveVectorNormalizer<Sol>::make_dummy_scale(), top), one(bounds[0], top), up3(moeoObjectiveVectorNormalizer<Sol>::make_dummy_scale(), top);
    up.update_by_bounds(bounds);
    up2.update_by_min_max(low, high);
    up3.update_by_bounds(bounds[0]);
    MC_CHECK(same(from_bounds(v), want), "normaliser from bounds", show_ov(v) << " -> " << show_ov(from_bounds(v)));
    MC_CHECK(same(from_ends(v), want), "normaliser from ends", show_ov(v) << " -> " << show_ov(from_ends(v)));
    MC_CHECK(same(up(v), want), "normaliser updated by bounds", show_ov(v) << " top " << top << " -> " << show_ov(up(v)));
    MC_CHECK(same(up2(v), want), "normaliser updated by ends", show_ov(v) << " -> " << show_ov(up2(v)));
    std::vector<double> first;
    for (unsigned i = 0; i < n; ++i) first.push_back((v[i] + 1) * top / 4);
    MC_CHECK(same(one(v), first), "normaliser from one pair of bounds", show_ov(v) << " -> " << show_ov(one(v)));
    MC_CHECK(same(up3(v), first), "normaliser updated by one pair of bounds", show_ov(v) << " top " << top << " -> " << show_ov(up3(v)));
    from_bounds.change_max(3 * top);
    for (double& x : want) x *= 3;
    MC_CHECK(same(from_bounds(v), want), "normaliser with another top", show_ov(v) << " -> " << show_ov(from_bounds(v)));
}

MC_SCENARIO("no fitness assignment")
{
    directions(1, 0); eoPop<Sol> p; unsigned m = mc::range(0, 4); std::vector<double> want; uint64_t h = m;
    for (unsigned i = 0; i < m; ++i) { p.push_back(sol(int(i), ov({double(i)}))); int k = int(mc::choose(3)); if (k) { p.back().fitness(k - 3.5); want.push_back(k - 3.5); } else { p.back().invalidateFitness(); want.push_back(0); } h = mc::mix(h, k); }
    moeoDummyFitnessAssignment<Sol> none; none(p); OV v = ov({1}); none.updateByDeleting(p, v); mc::state(h);
    for (unsigned i = 0; i < m; ++i) MC_CHECK(!p[i].invalidFitness() && p[i].fitness() == want[i], "no assignment", "individual " << i << " of " << m << " ends with " << (p[i].invalidFitness() ? -1 : double(p[i].fitness())) << " instead of " << want[i]);
}

// The worths of individuals whose fitness is itself a vector of objectives.
struct Several : public std::vector<double>
{
    struct fitness_traits {
        static unsigned nObjectives() { return Dir::nObjectives(); }
        static bool maximizing(int i) { return !Dir::minimizing(unsigned(i)); }
        static double tol() { return 1e-6; }
    };
    bool dominates(const Several& o) const
    {
        bool better = false;
        for (size_t i = 0; i < size(); ++i) { double d = fitness_traits::maximizing(int(i)) ? (*this)[i] - o[i] : o[i] - (*this)[i]; if (d < 0) return false; better = better || d > 0; }
        return better;
    }
    bool operator<(const Several& o) const { return o.dominates(*this); }
    bool operator>(const Several& o) const { return dominates(o); }
    bool operator<=(const Several& o) const { return !dominates(o); }
    bool operator>=(const Several& o) const { return !o.dominates(*this); }
};
static std::ostream& operator<<(std::ostream& o, const Several& f) { return o << mc::show(std::vector<double>(f)); }
static std::istream& operator>>(std::istream& i, Several&) { return i; }
struct Many : public EO<Several> {};
static eoPop<Many> many(const eoPop<Sol>& p)
{
    eoPop<Many> q;
    for (auto& s : p) { Several f; for (double x : s.objectiveVector()) f.push_back(x); Many m; m.fitness(f); q.push_back(m); }
    return q;
}
// 0 for the first front
static std::vector<int> fronts(const eoPop<Sol>& p)
{
    std::vector<int> d = depths(p);
    for (int& x : d) --x;
    return d;
}
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }
static void worths_are_right(const eoPop<Sol>& p, const std::vector<double>& got, const std::vector<std::vector<double>>& niches_by_front, const std::vector<int>& d, const char* key)
{
    std::vector<double> rank(p.size());
    std::map<int, size_t> at;
    double worst = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        const std::vector<double>& niche = niches_by_front[d[i]];
        rank[i] = d[i] + niche[at[d[i]]++] / (*std::max_element(niche.begin(), niche.end()) + 1);
        worst = std::max(worst, rank[i]);
    }
    MC_CHECK(got.size() == p.size(), key, show_pop(p) << " has " << got.size() << " worths");
    for (size_t i = 0; i < p.size(); ++i) MC_CHECK(near(got[i], std::ceil(worst) - rank[i]), key, show_pop(p) << " individual " << i << " is worth " << got[i] << " instead of " << std::ceil(worst) - rank[i] << dirs_text());
}
static std::vector<std::vector<double>> shared_niches(const eoPop<Sol>& p, const std::vector<int>& d, double size)
{
    std::vector<std::vector<double>> n(p.size());
    for (size_t i = 0; i < p.size(); ++i) {
        double count = 0;
        for (size_t j = 0; j < p.size(); ++j) if (j != i && d[j] == d[i]) {
            double dist = 0;
            for (size_t k = 0; k < p[i].objectiveVector().size(); ++k) dist += std::pow(p[i].objectiveVector()[k] - p[j].objectiveVector()[k], 2);
            if (dist < size) count += 1 - std::pow(dist / size, 2);
        }
        n[d[i]].push_back(count);
    }
    return n;
}
MC_SCENARIO("worths from fronts")
{
    unsigned n = any_directions(1, 3);
    eoPop<Sol> p = any_solutions(1, n == 3 ? 3 : mc::tier(4, 5), n == 3 ? 2 : 3);
    mc::state(mc::mix(dirs(), hash_pop(p)));
    eoPop<Many> q = many(p);
    std::vector<int> d = fronts(p);
    const double size = 3;
    eoNDSorting_I<Many> one(size);
    one(q);
    if (n == 1) {
        // every place is taken once, the best first
        std::set<double> seen(one.value().begin(), one.value().end());
        MC_CHECK(one.value().size() == p.size() && seen.size() == p.size() && *seen.begin() == 1 && *seen.rbegin() == double(p.size()), "worths of one objective", show_pop(p) << mc::show(one.value()));
        for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) if (dom(p[i], p[j])) MC_CHECK(one.value()[i] > one.value()[j], "worths of one objective", show_pop(p) << mc::show(one.value()) << dirs_text());
        return;
    }
    worths_are_right(p, one.value(), shared_niches(p, d, size), d, "worths by niches");
    // the same object on a population turned round, then on a smaller one
    eoPop<Sol> r;
    for (size_t i = 0; i < p.size(); ++i) r.push_back(p[(i + 1) % p.size()]);
    one(many(r));
    worths_are_right(r, one.value(), shared_niches(r, fronts(r), size), fronts(r), "worths used again");
    r.pop_back();
    if (!r.empty()) { one(many(r)); worths_are_right(r, one.value(), shared_niches(r, fronts(r), size), fronts(r), "worths of fewer"); }
    // crowding: better fronts are worth more; without ties the distances decide
    eoNDSorting_II<Many> two;
    two(q);
    bool ties = false;
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) for (unsigned k = 0; k < n; ++k) ties = ties || (d[i] == d[j] && p[i].objectiveVector()[k] == p[j].objectiveVector()[k]);
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) if (d[i] < d[j]) MC_CHECK(two.value()[i] > two.value()[j], "worths by crowding", show_pop(p) << mc::show(two.value()) << dirs_text());
    if (!ties) {
        std::vector<std::vector<double>> niche(p.size());
        for (size_t i = 0; i < p.size(); ++i) {
            double total = 0;
            for (unsigned k = 0; k < n; ++k) {
                auto gap = [&](size_t a) {
                    double below = -1e300, above = 1e300, x = p[a].objectiveVector()[k];
                    for (size_t j = 0; j < p.size(); ++j) if (d[j] == d[a]) { double y = p[j].objectiveVector()[k]; if (y < x) below = std::max(below, y); if (y > x) above = std::min(above, y); }
                    return below < -1e299 || above > 1e299 ? -1. : above - below;
                };
                double widest = 0;
                for (size_t j = 0; j < p.size(); ++j) if (d[j] == d[i]) widest = std::max(widest, gap(j));
                total += gap(i) < 0 ? 0 : widest + 1 - gap(i);
            }
            niche[d[i]].push_back(total);
        }
        worths_are_right(p, two.value(), niche, d, "worths by crowding");
    }
    if (n == 2) {
        // copies behind everybody else
        eoNDSorting_I<Many> drop(size, true);
        drop(q);
        for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) if (d[i] < d[j]) {
            double bi = -1e300, bj = -1e300;
            for (size_t a = 0; a < p.size(); ++a) { if (equal(p[a], p[i])) bi = std::max(bi, drop.value()[a]); if (equal(p[a], p[j])) bj = std::max(bj, drop.value()[a]); }
            MC_CHECK(bi > bj, "worths without copies", show_pop(p) << mc::show(drop.value()) << dirs_text());
        }
        std::set<std::vector<double>> seen;
        size_t behind = 0;
        for (size_t i = 0; i < p.size(); ++i) {
            size_t more = 0;
            for (size_t j = 0; j < p.size(); ++j) if (equal(p[i], p[j])) more += drop.value()[j] > drop.value()[i];
            seen.insert(p[i].objectiveVector());
            if (more) ++behind;
        }
        MC_CHECK(behind == p.size() - seen.size(), "worths without copies", show_pop(p) << mc::show(drop.value()) << dirs_text());
    }
}
