// Quality indicators against their definitions, for every small set and pair of sets.
#include "moeo.hpp"
#include <core/moeoDualRealObjectiveVector.h>
#include <metric/moeoDualHyperVolumeDifferenceMetric.h>

typedef std::vector<OV> Set;
static std::string dirs_text() { std::string d = " directions "; for (unsigned i = 0; i < Dir::nObjectives(); ++i) d += Dir::minimizing(i) ? "-" : "+"; return d; }
static std::string show_set(const Set& s) { std::string r = "{"; for (auto& v : s) r += show_ov(v) + " "; return r + "}"; }
static uint64_t hash_set(const Set& s) { uint64_t h = s.size(); for (auto& v : s) h = mc::mix(h, mc::hashv(std::vector<double>(v))); return h; }
static OV any_point(const std::vector<double>& vals) { OV v; for (unsigned i = 0; i < v.size(); ++i) v[i] = vals[mc::choose(unsigned(vals.size()))]; return v; }
static Set any_set(unsigned lo, unsigned hi, const std::vector<double>& vals)
{
    Set s;
    unsigned m = mc::range(lo, hi);
    for (unsigned i = 0; i < m; ++i) s.push_back(any_point(vals));
    return s;
}
static void any_dirs(unsigned n) { directions(n, n == 3 ? mc::pick({0, 7, 5, 2}) : mc::choose(1u << n)); }

struct Frame {
    std::vector<double> lo, range, hi;
    Frame(const Set& a, const Set& b)
    {
        for (unsigned i = 0; i < Dir::nObjectives(); ++i) {
            double l = 1e300, h = -1e300;
            for (auto* s : {&a, &b}) for (auto& v : *s) { l = std::min(l, double(v[i])); h = std::max(h, double(v[i])); }
            hi.push_back(h);
            // an objective where all are equal is given a tiny range around it
            if (l == h) { l -= 1e-6; h += 1e-6; }
            lo.push_back(l);
            range.push_back(h - l);
        }
    }
    double pos(const OV& v, unsigned i) const { return (v[i] - lo[i]) / range[i]; }
};
// volume of what the points dominate, up to the reference point
static double volume(const std::vector<std::vector<double>>& gains)
{
    std::vector<std::vector<double>> use;
    for (auto& g : gains) { bool in = true; for (double x : g) in = in && x > 0; if (in) use.push_back(g); }
    if (use.empty()) return 0;
    size_t n = use[0].size(), cells = 1;
    std::vector<std::vector<double>> cuts(n);
    for (size_t i = 0; i < n; ++i) {
        std::set<double> c = {0};
        for (auto& g : use) c.insert(g[i]);
        cuts[i].assign(c.begin(), c.end());
        cells *= cuts[i].size() - 1;
    }
    double total = 0;
    for (size_t c = 0; c < cells; ++c) {
        size_t x = c;
        double v = 1;
        std::vector<double> top(n);
        for (size_t i = 0; i < n; ++i) { size_t k = x % (cuts[i].size() - 1); x /= cuts[i].size() - 1; top[i] = cuts[i][k + 1]; v *= cuts[i][k + 1] - cuts[i][k]; }
        bool in = false;
        for (auto& g : use) { bool all = true; for (size_t i = 0; i < n; ++i) all = all && g[i] >= top[i]; in = in || all; }
        if (in) total += v;
    }
    return total;
}
static double hyper(const Set& s, const std::vector<double>& ref, const Frame* frame)
{
    std::vector<std::vector<double>> gains;
    for (auto& v : s) {
        std::vector<double> g;
        for (unsigned i = 0; i < v.size(); ++i) { double x = frame ? frame->pos(v, i) : v[i]; g.push_back(Dir::minimizing(i) ? ref[i] - x : x - ref[i]); }
        gains.push_back(g);
    }
    return volume(gains);
}
static std::vector<double> rho_reference(const Frame& f, bool normalise, double rho)
{
    std::vector<double> r;
    for (unsigned i = 0; i < Dir::nObjectives(); ++i) {
        double unit = normalise ? 1 : f.hi[i];
        r.push_back(Dir::minimizing(i) ? unit * rho : unit * (1 - rho));
    }
    return r;
}
static void hypervolumes(unsigned n, unsigned hi, std::vector<double> vals)
{
    any_dirs(n);
    Set s = any_set(1, hi, vals);
    mc::state(mc::mix(dirs(), hash_set(s)));
    Frame f(s, s);
    for (double rho : {1.1, 2.}) for (bool norm : {true, false}) {
        double want = hyper(s, rho_reference(f, norm, rho), norm ? &f : nullptr);
        moeoHyperVolumeMetric<OV> m(norm, rho);
        for (int use = 0; use < 2; ++use) {
            double got = m(s);
            MC_CHECK(mc::close(got, want, 1e-4), "hypervolume", show_set(s) << " normalised " << norm << " rho " << rho << " got " << got << " want " << want << dirs_text() << " use " << use);
        }
    }
    // a reference point of one's own: everybody beyond it, or only some
    for (int way = 0; way < 3; ++way) {
        OV ref;
        for (unsigned i = 0; i < n; ++i) ref[i] = way == 0 ? (Dir::minimizing(i) ? 4.5 : -1.5) : way == 1 ? 1.25 : (i ? 2.5 : 0.5);
        moeoHyperVolumeMetric<OV> m(false, ref), norm(true, ref);
        double want = hyper(s, ref, nullptr), got = m(s);
        MC_CHECK(mc::close(got, want, 1e-4), "hypervolume to a reference", show_set(s) << " reference " << show_ov(ref) << " got " << got << " want " << want << dirs_text());
        want = hyper(s, ref, &f);
        got = norm(s);
        MC_CHECK(mc::close(got, want, 1e-4), "normalised hypervolume to a reference", show_set(s) << " reference " << show_ov(ref) << " got " << got << " want " << want << dirs_text());
        std::vector<eoRealInterval> bounds;
        for (unsigned i = 0; i < n; ++i) bounds.push_back(eoRealInterval(-1, 3));
        moeoHyperVolumeMetric<OV> given(ref, bounds);
        Frame four(s, s);
        for (unsigned i = 0; i < n; ++i) { four.lo[i] = -1; four.range[i] = 4; }
        want = hyper(s, ref, &four);
        got = given(s);
        MC_CHECK(mc::close(got, want, 1e-4), "hypervolume within bounds", show_set(s) << " reference " << show_ov(ref) << " got " << got << " want " << want << dirs_text());
    }
}
MC_SCENARIO("hypervolume, two objectives") { hypervolumes(2, mc::tier(4, 5), {0, 1, 3}); }
MC_SCENARIO("hypervolume, two objectives, longer fronts") { hypervolumes(2, mc::tier(5, 6), {1, 2}); }
MC_SCENARIO("hypervolume, three objectives") { hypervolumes(3, mc::tier(3, 4), {0, 1}); }
MC_SCENARIO("hypervolume, three objectives, three values") { hypervolumes(3, 3, {1, 2, 4}); }
MC_SCENARIO("hypervolume, a front of three objectives")
{
    // points of one layer, in any order, so that all belong to the front
    any_dirs(3);
    std::vector<std::vector<double>> layer = {{0, 2, 1}, {1, 0, 2}, {2, 1, 0}, {1, 1, 1}, {0, 1, 2}};
    Set s;
    unsigned m = mc::range(1, mc::tier(4, 5));
    for (unsigned i = 0; i < m; ++i) s.push_back(ov(layer[mc::choose(5)]));
    mc::state(mc::mix(dirs(), hash_set(s)));
    OV ref;
    for (unsigned i = 0; i < 3; ++i) ref[i] = Dir::minimizing(i) ? 3 : -1;
    moeoHyperVolumeMetric<OV> metric(false, ref);
    double want = hyper(s, ref, nullptr), got = metric(s);
    MC_CHECK(mc::close(got, want, 1e-9), "hypervolume of a front", show_set(s) << " got " << got << " want " << want << dirs_text());
}
static void pairs(unsigned n, unsigned h1, unsigned h2, std::vector<double> vals)
{
    any_dirs(n);
    Set a = any_set(1, h1, vals), b = any_set(1, h2, vals);
    mc::state(mc::mix(dirs(), mc::mix(hash_set(a), hash_set(b))));
    Frame f(a, b);
    for (double rho : {1.1, 2.}) for (bool norm : {true, false}) {
        std::vector<double> ref = rho_reference(f, norm, rho);
        double want = hyper(a, ref, norm ? &f : nullptr) - hyper(b, ref, norm ? &f : nullptr);
        moeoHyperVolumeDifferenceMetric<OV> m(norm, rho);
        double got = m(a, b);
        MC_CHECK(std::fabs(got - want) < 1e-4, "hypervolume difference", show_set(a) << show_set(b) << " normalised " << norm << " rho " << rho << " got " << got << " want " << want << dirs_text());
        MC_CHECK(std::fabs(m(b, a) + want) < 1e-4, "hypervolume difference the other way", show_set(a) << show_set(b) << " normalised " << norm << " rho " << rho << dirs_text());
    }
    OV ref;
    for (unsigned i = 0; i < n; ++i) ref[i] = Dir::minimizing(i) ? 4.5 : -1.5;
    moeoHyperVolumeDifferenceMetric<OV> plain(false, ref), normal(true, ref);
    MC_CHECK(std::fabs(plain(a, b) - (hyper(a, ref, nullptr) - hyper(b, ref, nullptr))) < 1e-4, "hypervolume difference to a reference", show_set(a) << show_set(b) << plain(a, b) << dirs_text());
    MC_CHECK(std::fabs(normal(a, b) - (hyper(a, ref, &f) - hyper(b, ref, &f))) < 1e-4, "normalised hypervolume difference to a reference", show_set(a) << show_set(b) << normal(a, b) << dirs_text());
    // epsilon: the least shift (factor) of the first set that makes it cover the second
    auto eps = [&](const Set& s, const Set& t, int kind) {
        double worst = -1e300;
        for (auto& v : t) {
            double best = 1e300;
            for (auto& u : s) {
                double e = -1e300;
                for (unsigned i = 0; i < n; ++i) {
                    double x = kind == 0 ? u[i] : f.pos(u, i), y = kind == 0 ? v[i] : f.pos(v, i);
                    if (kind == 2) e = std::max(e, Dir::minimizing(i) ? u[i] / v[i] : v[i] / u[i]);
                    else e = std::max(e, Dir::minimizing(i) ? x - y : y - x);
                }
                best = std::min(best, e);
            }
            worst = std::max(worst, best);
        }
        return worst;
    };
    moeoVecVsVecAdditiveEpsilonBinaryMetric<OV> add(false), addn(true);
    MC_CHECK(std::fabs(add(a, b) - eps(a, b, 0)) < 1e-9, "additive epsilon", show_set(a) << show_set(b) << add(a, b) << " want " << eps(a, b, 0) << dirs_text());
    MC_CHECK(std::fabs(addn(a, b) - eps(a, b, 1)) < 1e-4, "normalised additive epsilon", show_set(a) << show_set(b) << addn(a, b) << " want " << eps(a, b, 1) << dirs_text());
    MC_CHECK(std::fabs(addn(b, a) - eps(b, a, 1)) < 1e-4, "normalised additive epsilon, used again", show_set(b) << show_set(a) << dirs_text());
    if (*std::min_element(vals.begin(), vals.end()) > 0) {
        moeoVecVsVecMultiplicativeEpsilonBinaryMetric<OV> mul;
        MC_CHECK(std::fabs(mul(a, b) - eps(a, b, 2)) < 1e-9, "multiplicative epsilon", show_set(a) << show_set(b) << mul(a, b) << " want " << eps(a, b, 2) << dirs_text());
    }
}
MC_SCENARIO("hypervolume difference and epsilon, two objectives") { pairs(2, 2, 2, {1, 2, 4}); }
MC_SCENARIO("hypervolume difference and epsilon, with zero") { pairs(2, 3, 3, {0, 1}); }
MC_SCENARIO("hypervolume difference and epsilon, three objectives") { pairs(3, 2, mc::tier(1, 2), {1, 2}); }

static Set no_dominated(Set s)
{
    Set r;
    for (auto& v : s) { bool in = true; for (auto& u : s) in = in && !dominates(u, v); for (auto& u : r) in = in && std::vector<double>(u) != std::vector<double>(v); if (in) r.push_back(v); }
    return r;
}
static void fronts(unsigned n, unsigned h1, unsigned h2, std::vector<double> vals)
{
    any_dirs(n);
    Set a = any_set(1, h1, vals), b = any_set(1, h2, vals);
    // fronts without copies
    mc::assume(no_dominated(a).size() == a.size() && no_dominated(b).size() == b.size());
    mc::state(mc::mix(dirs(), mc::mix(hash_set(a), hash_set(b))));
    double common = 0, w[2] = {0, 0}, free[2] = {0, 0};
    for (int side = 0; side < 2; ++side) {
        const Set &s = side ? b : a, &t = side ? a : b;
        for (auto& v : s) {
            bool same = false, wins = false, loses = false;
            for (auto& u : t) { same = same || std::vector<double>(u) == std::vector<double>(v); wins = wins || dominates(v, u); loses = loses || dominates(u, v); }
            if (same && !side) ++common;
            if (wins) ++w[side];
            if (!same && !wins && !loses) ++free[side];
        }
    }
    moeoContributionMetric<OV> contribution;
    double want = (common / 2 + w[0] + free[0]) / (common + w[0] + free[0] + w[1] + free[1]), got = contribution(a, b);
    MC_CHECK(mc::close(got, want, 1e-9), "contribution", show_set(a) << show_set(b) << " got " << got << " want " << want << dirs_text());
    MC_CHECK(mc::close(contribution(b, a), 1 - want, 1e-9), "contribution the other way", show_set(a) << show_set(b) << dirs_text());
}
MC_SCENARIO("contribution, two objectives") { fronts(2, 3, mc::tier(2, 3), {1, 2, 4}); }
MC_SCENARIO("contribution, three objectives") { fronts(3, 2, 2, {1, 2}); }
MC_SCENARIO("entropy")
{
    any_dirs(2);
    std::vector<double> vals = {0, 1, 2};
    Set a0 = any_set(2, 3, vals), b0 = any_set(1, 2, vals);
    Set a = no_dominated(a0), b = no_dominated(b0);
    // no copies among the non-dominated; a range in each objective
    auto many = [](const Set& s, const Set& kept) { for (auto& v : kept) if (std::count_if(s.begin(), s.end(), [&](const OV& u) { return std::vector<double>(u) == std::vector<double>(v); }) > 1) return true; return false; };
    mc::assume(a.size() > 1 && !many(a0, a) && !many(b0, b));
    Frame f(a, a);
    mc::state(mc::mix(dirs(), mc::mix(hash_set(a0), hash_set(b0))));
    typedef std::vector<double> P;
    auto norm = [&](const Set& s) { std::vector<P> r; for (auto& v : s) r.push_back({f.pos(v, 0), f.pos(v, 1)}); return r; };
    std::vector<P> sa = norm(a), star;
    {
        Set both = a;
        both.insert(both.end(), b.begin(), b.end());
        star = norm(no_dominated(both));
    }
    std::vector<P> all = sa;
    for (auto& p : star) if (std::find(all.begin(), all.end(), p) == all.end()) all.push_back(p);
    auto near = [&](const std::vector<P>& s, const P& c) { double k = 0; for (auto& p : s) if (std::hypot(p[0] - c[0], p[1] - c[1]) < 2. / double(star.size())) ++k; return k; };
    double omega = 0, sum = 0, C = double(all.size());
    for (auto& p : all) {
        double N = near(all, p), k = near(sa, p);
        if (k > 0) { omega += 1 / N; sum += k / (N * C) * std::log(k / C); }
    }
    moeoEntropyMetric<OV> entropy;
    double got = entropy(a0, b0);
    mc::assume(std::fabs(omega - 1) > 1e-3);
    double want = -sum / std::log(omega);
    MC_CHECK(std::fabs(got - want) < 1e-4, "entropy", show_set(a0) << show_set(b0) << " got " << got << " want " << want << dirs_text());
    MC_CHECK(entropy(a0, b0) == got, "entropy, used again", show_set(a0) << show_set(b0) << dirs_text());
}
MC_SCENARIO("indicators of two points")
{
    unsigned n = mc::range(1, 3);
    directions(n, mc::choose(1u << n));
    std::vector<double> vals = {0, 0.5, 2};
    OV a = any_point(vals), b = any_point(vals);
    double rho = mc::pick({1., 1.1, 2.});
    mc::state(mc::mix(dirs(), mc::mix(mc::hashv(std::vector<double>(a)), mc::mix(mc::hashv(std::vector<double>(b)), uint64_t(rho * 10)))));
    moeoHypervolumeBinaryMetric<OV> hv(rho);
    moeoAdditiveEpsilonBinaryMetric<OV> eps;
    for (unsigned i = 0; i < n; ++i) { hv.setup(0, 2, i); if (i) eps.setup(eoRealInterval(0, 4), i); else eps.setup(-1, 3, i); }
    auto cost = [&](const OV& v, unsigned i) { return Dir::minimizing(i) ? v[i] / 2 : 1 - v[i] / 2; };
    auto only = [&](const OV& x, const OV& y) {
        double vx = 1, both = 1;
        for (unsigned i = 0; i < n; ++i) { vx *= (rho - cost(x, i)) / rho; both *= (rho - std::max(cost(x, i), cost(y, i))) / rho; }
        return vx - both;
    };
    double want = dominates(a, b) ? -only(a, b) : only(b, a), got = hv(a, b);
    MC_CHECK(std::fabs(got - want) < 1e-9, "hypervolume of two points", show_ov(a) << show_ov(b) << " rho " << rho << " got " << got << " want " << want << dirs_text());
    double e = -1e300;
    for (unsigned i = 0; i < n; ++i) e = std::max(e, (Dir::minimizing(i) ? a[i] - b[i] : b[i] - a[i]) / 4);
    MC_CHECK(std::fabs(eps(a, b) - e) < 1e-9, "epsilon of two points", show_ov(a) << show_ov(b) << " got " << eps(a, b) << " want " << e << dirs_text());
}
// the same difference over vectors that also say whether they are feasible
template <class F> static void dual_pairs(unsigned n)
{
    typedef moeoDualRealObjectiveVector<Dir, F> DV;
    // the kind of number says which way all the objectives go
    directions(n, std::is_same<F, eoMinimizingDualFitness>::value ? (1u << n) - 1 : 0);
    std::vector<double> vals = {1, 2, 4};
    Set a = any_set(1, 2, vals), b = any_set(1, 2, vals);
    bool ok = mc::flag();
    mc::state(mc::mix(mc::mix(dirs(), ok), mc::mix(hash_set(a), hash_set(b))));
    auto dual = [&](const OV& v) { DV d(0., ok); for (unsigned i = 0; i < n; ++i) d[i] = F(v[i], ok); return d; };
    std::vector<DV> da, db;
    for (auto& v : a) da.push_back(dual(v));
    for (auto& v : b) db.push_back(dual(v));
    Frame f(a, b);
    for (double rho : {1.1, 2.}) for (bool norm : {true, false}) {
        std::vector<double> ref = rho_reference(f, norm, rho);
        double want = hyper(a, ref, norm ? &f : nullptr) - hyper(b, ref, norm ? &f : nullptr);
        moeoDualHyperVolumeDifferenceMetric<DV> m(norm, rho);
        MC_CHECK(std::fabs(m(da, db) - want) < 1e-4, "dual hypervolume difference", show_set(a) << show_set(b) << " normalised " << norm << " rho " << rho << " got " << m(da, db) << " want " << want << dirs_text());
        MC_CHECK(std::fabs(m(db, da) + want) < 1e-4, "dual hypervolume difference the other way", show_set(a) << show_set(b) << dirs_text());
    }
    OV ref;
    for (unsigned i = 0; i < n; ++i) ref[i] = Dir::minimizing(i) ? 4.5 : -1.5;
    DV dref = dual(ref);
    moeoDualHyperVolumeDifferenceMetric<DV> plain(false, dref), normal(true, dref);
    MC_CHECK(std::fabs(plain(da, db) - (hyper(a, ref, nullptr) - hyper(b, ref, nullptr))) < 1e-4, "dual hypervolume difference to a reference", show_set(a) << show_set(b) << dirs_text());
    MC_CHECK(std::fabs(normal(da, db) - (hyper(a, ref, &f) - hyper(b, ref, &f))) < 1e-4, "dual normalised hypervolume difference to a reference", show_set(a) << show_set(b) << dirs_text());
}
MC_SCENARIO("hypervolume difference, feasible or not, maximised") { dual_pairs<eoMaximizingDualFitness>(2); }
MC_SCENARIO("hypervolume difference, feasible or not, minimised") { dual_pairs<eoMinimizingDualFitness>(2); }
