// Landscape sampling: what is reported is what was sampled.
#include "land.hpp"
#include "memfile.hpp"
#include <sampling/moStatistics.h>
#include <sampling/moDensityOfStatesSampling.h>
#include <sampling/moFDCsampling.h>
#include <sampling/moAutocorrelationSampling.h>
#include <sampling/moNeutralDegreeSampling.h>
#include <sampling/moNeutralWalkSampling.h>
#include <sampling/moAdaptiveWalkSampling.h>
#include <sampling/moHillClimberSampling.h>
#include <sampling/moRndBestFitnessCloudSampling.h>
#include <sampling/moRndRndFitnessCloudSampling.h>
#include <sampling/moMHBestFitnessCloudSampling.h>
#include <sampling/moMHRndFitnessCloudSampling.h>
#include <cmath>

typedef Land<double> L; typedef L::N N; typedef L::S S;
static const unsigned n = 2;
struct Quiet { std::ostringstream os; std::streambuf* old; Quiet() : old(std::clog.rdbuf(os.rdbuf())) {} ~Quiet() { std::clog.rdbuf(old); } };
struct AnyInit : eoInit<S>
{
    std::vector<uint32_t> made;
    void operator()(S& s) override { uint32_t v = mc::choose(1u << n); made.push_back(v); s = bits_of<S>(n, v); s.invalidate(); }
};
// values 1..4 in any order, so that a fitness tells the solution
static L any_order()
{
    L l;
    l.n = n;
    std::vector<double> left = {1, 2, 3, 4};
    for (unsigned i = 0; i < 4; ++i) { unsigned k = mc::choose(left.size()); l.value.push_back(left[k]); left.erase(left.begin() + k); }
    return l;
}
static uint32_t who(const L& l, double f) { for (uint32_t v = 0; v < l.value.size(); ++v) if (l.value[v] == f) return v; mc::fail("unknown value", "a value that no solution has"); return 0; }

struct World
{
    L land; FullTable<double> full; NearTable<double> near; AnyInit init; moOrderNeighborhood<N> ordered; moRndWithoutReplNeighborhood<N> shuffled; moRndWithReplNeighborhood<N> random; Quiet q;
    World(const L& l) : land(l), full(land), near(land), ordered(n), shuffled(n), random(n) {}
    unsigned equal_near(uint32_t v) const { unsigned k = 0; for (unsigned i = 0; i < n; ++i) k += land.value[v ^ 1u << i] == land.value[v]; return k; }
    // one more solution is made before the sampling starts for each run than reported: the first is the start
    void right(const std::vector<double>& x, unsigned nb, const char* what)
    {
        MC_CHECK(x.size() == nb && init.made.size() == nb, "number of samples", x.size() << " reported, " << init.made.size() << " made, " << nb << " asked: " << what);
        for (unsigned i = 0; i < nb; ++i) MC_CHECK(x[i] == land.value[init.made[i]], "value", what << " sample " << i << ": " << x[i]);
        mc::state(mc::mix(mc::hashv(land.value), mc::hashv(init.made)));
    }
};
MC_SCENARIO("independent samples")
{
    World w(any_land<double>(n, 2));
    unsigned nb = 2 + mc::choose(2), runs = nb == 2 ? 2 : 1;
    mc::rng_words({0x19999999, 0xe6666666}, 12);
    int kind = mc::choose(5);
    uint32_t refv = kind == 1 ? mc::choose(4) : 0;
    S ref = w.land.start(refv, true);
    eoHammingDistance<S> ham;
    moDensityOfStatesSampling<N> dos(w.init, w.full, nb);
    moFDCsampling<N> fdc(w.init, w.full, ham, ref, nb);
    moNeighborComparator<N> nc;
    moSolNeighborComparator<N> sc;
    moNeutralDegreeSampling<N> nd(w.init, w.ordered, w.full, w.near, nb), nd2(w.init, w.ordered, w.full, w.near, nc, sc, nb);
    moRndBestFitnessCloudSampling<N> best(w.init, w.shuffled, w.full, w.near, nb);
    moRndRndFitnessCloudSampling<N> any(w.init, w.random, w.full, w.near, nb);
    moNeutralDegreeSampling<N>& d = kind == 2 && mc::flag() ? nd2 : nd;
    if (kind == 4) mc::assume(nb == 2);
    for (unsigned r = 0; r < runs; ++r) {
        w.init.made.clear();
        auto& m = w.init.made;
        switch (kind) {
            case 0: dos(); w.right(dos.getValues(0), nb, "density of states"); break;
            case 1:
                fdc();
                w.right(fdc.getValues(0), nb, "fitness-distance");
                for (unsigned i = 0; i < nb; ++i) MC_CHECK(fdc.getValues(1)[i] == __builtin_popcount(m[i] ^ refv), "distance", "sample " << i);
                break;
            case 2:
                d();
                w.right(d.getValues(0), nb, "neutral degree");
                for (unsigned i = 0; i < nb; ++i) MC_CHECK(d.getValues(1)[i] == w.equal_near(m[i]), "neutral degree", "sample " << i);
                break;
            case 3:
                best();
                w.right(best.getValues(0), nb, "best neighbour");
                for (unsigned i = 0; i < nb; ++i) MC_CHECK(best.getValues(1)[i] == w.land.best_near(m[i]), "best neighbour", "sample " << i);
                break;
            default:
                any();
                w.right(any.getValues(0), nb, "random neighbour");
                for (unsigned i = 0; i < nb; ++i) MC_CHECK(any.getValues(1)[i] == w.land.value[m[i] ^ 1] || any.getValues(1)[i] == w.land.value[m[i] ^ 2], "random neighbour", "sample " << i);
        }
    }
}
MC_SCENARIO("a single sample")
{
    World w(any_land<double>(n, 2));
    moDensityOfStatesSampling<N> dos(w.init, w.full, 1);
    dos();
    MC_CHECK(dos.getValues(0).size() == 1, "number of samples", dos.getValues(0).size() << " reported, 1 asked");
}
MC_SCENARIO("walks")
{
    World w(any_order());
    unsigned nb = 1 + mc::choose(3);
    int kind = mc::choose(3);
    mc::rng_words({0x19999999, 0xe6666666}, kind ? 14 : 8);
    if (kind) mc::assume(nb <= 2);
    moAutocorrelationSampling<N> walk(w.init, w.random, w.full, w.near, nb);
    moMHBestFitnessCloudSampling<N> mb(w.init, w.shuffled, w.full, w.near, nb);
    moMHRndFitnessCloudSampling<N> mr(w.init, w.random, w.full, w.near, nb);
    moSampling<N>& s = kind == 0 ? (moSampling<N>&)walk : kind == 1 ? (moSampling<N>&)mb : mr;
    for (unsigned r = 0; r < (kind == 0 && nb < 3 ? 2u : 1u); ++r) {
        w.init.made.clear();
        s();
        auto& x = s.getValues(0);
        MC_CHECK(x.size() == nb + 1, "number of steps", x.size() << " values for " << nb << " steps");
        MC_CHECK(w.init.made.size() == 1 && x[0] == w.land.value[w.init.made[0]], "start", "");
        std::vector<uint32_t> path;
        for (double f : x) path.push_back(who(w.land, f));
        mc::state(mc::mix(mc::hashv(w.land.value), mc::hashv(path)));
        for (unsigned i = 1; i < path.size(); ++i) {
            int d = __builtin_popcount(path[i] ^ path[i - 1]);
            MC_CHECK(kind ? d <= 1 : d == 1, "step", "from " << path[i - 1] << " to " << path[i]);
        }
        if (kind) for (unsigned i = 0; i < path.size(); ++i) {
            double y = s.getValues(1)[i];
            if (kind == 1) MC_CHECK(y == w.land.best_near(path[i]), "best neighbour", "step " << i << ": " << y);
            else MC_CHECK(__builtin_popcount(who(w.land, y) ^ path[i]) == 1, "random neighbour", "step " << i << ": " << y);
        }
    }
}
MC_SCENARIO("neutral walks")
{
    World w(any_land<double>(n, 2));
    unsigned nb = 1 + mc::choose(3);
    mc::rng_words({0x19999999, 0xe6666666}, 16);
    uint32_t from = mc::choose(4);
    S start = w.land.start(from);
    eoHammingDistance<S> ham;
    bool given = mc::flag();
    std::unique_ptr<moNeutralWalkSampling<N>> p(given ? new moNeutralWalkSampling<N>(start, w.shuffled, w.full, w.near, ham, nb) : new moNeutralWalkSampling<N>(w.init, w.shuffled, w.full, w.near, nb));
    moNeutralWalkSampling<N>& s = *p;
    s();
    auto& sol = s.getSolutions(0);
    unsigned len = sol.size();
    MC_CHECK(len >= 1 && len <= nb + 1, "number of steps", len);
    std::vector<uint32_t> path;
    for (auto& x : sol) { path.push_back(num_of(x)); MC_CHECK(x.fitness() == w.land.value[num_of(x)], "value", ""); }
    MC_CHECK(path[0] == (given ? from : w.init.made[0]), "start", "");
    mc::state(mc::mix(mc::hashv(w.land.value), mc::hashv(path)));
    for (unsigned i = 1; i < len; ++i) {
        MC_CHECK(w.land.value[path[i]] == w.land.value[path[0]], "not neutral", "");
        if (path[i] == path[i - 1]) MC_CHECK(!w.equal_near(path[i]) && i + 1 == len, "walk stood still", "");
        else MC_CHECK(__builtin_popcount(path[i] ^ path[i - 1]) == 1, "step", "");
    }
    if (len < nb + 1) MC_CHECK(!w.equal_near(path.back()), "walk ended early", len << " of " << nb + 1);
    unsigned c = given ? 1 : 0;
    for (unsigned i = 0; i < len; ++i) {
        if (given) MC_CHECK(s.getValues(1)[i] == __builtin_popcount(path[i] ^ from), "distance", "");
        double a = w.land.value[path[i] ^ 1], b = w.land.value[path[i] ^ 2], here = w.land.value[path[i]], mean = (a + b) / 2;
        MC_CHECK(mc::close(s.getValues(c + 1)[i], mean), "mean", "");
        MC_CHECK(mc::close(s.getValues(c + 2)[i], std::fabs(a - b) / std::sqrt(2.)), "deviation", s.getValues(c + 2)[i]);
        MC_CHECK(s.getValues(c + 3)[i] == std::min(a, b) && s.getValues(c + 7)[i] == std::max(a, b), "smallest and largest", "");
        for (unsigned q = 4; q <= 6; ++q) MC_CHECK(s.getValues(c + q)[i] >= std::min(a, b) && s.getValues(c + q)[i] <= std::max(a, b), "quartiles", "");
        MC_CHECK(s.getValues(c + 8)[i] == 2, "size", "");
        MC_CHECK(s.getValues(c + 9)[i] == (a < here) + (b < here) && s.getValues(c + 10)[i] == (a == here) + (b == here) && s.getValues(c + 11)[i] == (a > here) + (b > here), "counts", "");
    }
}
MC_SCENARIO("climbs")
{
    World w(any_order());
    unsigned nb = 2 + mc::choose(2);
    bool first = mc::flag();
    moAdaptiveWalkSampling<N> aw(w.init, w.ordered, w.full, w.near, nb);
    moHillClimberSampling<N> hc(w.init, w.ordered, w.full, w.near, nb);
    moSampling<N>& s = first ? (moSampling<N>&)aw : hc;
    for (unsigned r = 0; r < (nb == 2 ? 2u : 1u); ++r) {
        w.init.made.clear();
        s();
        MC_CHECK(s.getValues(0).size() == nb && w.init.made.size() == nb, "number of samples", s.getValues(0).size());
        for (unsigned i = 0; i < nb; ++i) {
            uint32_t v = w.init.made[i];
            unsigned moves = 0, evals = 0;
            while (true) {
                uint32_t to = v;
                for (unsigned k = 0; k < n; ++k) {
                    ++evals;
                    if (w.land.value[v ^ 1u << k] > w.land.value[to]) { to = v ^ 1u << k; if (first) break; }
                }
                if (to == v) break;
                v = to;
                ++moves;
            }
            auto& sol = s.getSolutions(first ? 2 : 1)[i];
            mc::state(mc::mix(mc::hashv(w.land.value), w.init.made[i] * 8 + first));
            MC_CHECK(num_of(sol) == v && sol.fitness() == w.land.value[v], "local optimum", "sample " << i);
            MC_CHECK(s.getValues(0)[i] == moves, "length", "sample " << i << ": " << s.getValues(0)[i] << " instead of " << moves);
            if (first) MC_CHECK(s.getValues(1)[i] == evals, "evaluations", "sample " << i << ": " << s.getValues(1)[i] << " instead of " << evals);
        }
    }
}
MC_SCENARIO("exported files")
{
    World w(any_order());
    uint32_t refv = mc::choose(4);
    S ref = w.land.start(refv, true);
    eoHammingDistance<S> ham;
    moFDCsampling<N> f(w.init, w.full, ham, ref, 2);
    f();
    bool append = mc::flag(), header = mc::flag();
    int what = mc::choose(3);
    MemFile file("old\n");
    std::string sep = mc::flag() ? " " : ",", want = append ? "old\n" : "";
    auto num = [](double d) { std::ostringstream o; o << d; return o.str(); };
    if (what == 2) { f.fileExport(file.path, sep, append, header); if (header && !append) want += "fitness" + sep + "distance\n"; }
    else f.fileExport(what, file.path, append);
    for (unsigned i = 0; i < 2; ++i) {
        std::string a = num(w.land.value[w.init.made[i]]), b = num(__builtin_popcount(w.init.made[i] ^ refv));
        want += what == 0 ? a + "\n" : what == 1 ? b + "\n" : a + sep + b + "\n";
    }
    mc::state(mc::mix(mc::hash(want), 0));
    MC_CHECK(file.text() == want, "file", "'" << file.text() << "' instead of '" << want << "'");
    bool refused = false;
    try { f.fileExport(2, file.path); } catch (std::exception&) { refused = true; }
    MC_CHECK(refused, "missing column", "");
}
// ------------------------------------------------------------------ summary figures
static std::vector<double> solve(std::vector<std::vector<double>> a, std::vector<double> b)
{
    size_t k = b.size();
    for (size_t c = 0; c < k; ++c) {
        size_t p = c;
        for (size_t i = c; i < k; ++i) if (std::fabs(a[i][c]) > std::fabs(a[p][c])) p = i;
        std::swap(a[p], a[c]);
        std::swap(b[p], b[c]);
        if (std::fabs(a[c][c]) < 1e-9) return {};
        for (size_t i = 0; i < k; ++i) if (i != c) { double f = a[i][c] / a[c][c]; for (size_t j = 0; j < k; ++j) a[i][j] -= f * a[c][j]; b[i] -= f * b[c]; }
    }
    for (size_t i = 0; i < k; ++i) b[i] /= a[i][i];
    return b;
}
MC_SCENARIO("mean, deviation and autocorrelation")
{
    unsigned len = mc::choose(mc::tier(7, 8)), lags = mc::choose(4);
    std::vector<double> d;
    for (unsigned i = 0; i < len; ++i) d.push_back(mc::pick({-1., 0.1, 2.7}));
    moStatistics st;
    double mn = 9, mx = 9, av = 9, sd = 9;
    st.basic(d, mn, mx, av, sd);
    double m = 0, v = 0;
    for (double x : d) m += x / len;
    for (double x : d) v += (x - m) * (x - m) / len;
    mc::state(mc::mix(mc::hashv(d), lags));
    if (len) MC_CHECK(mn == *std::min_element(d.begin(), d.end()) && mx == *std::max_element(d.begin(), d.end()) && mc::close(av, m) && std::fabs(sd - std::sqrt(v)) < 1e-7, "basic figures", mc::show(d) << ": " << av << " " << sd << " instead of " << m << " " << std::sqrt(v));
    if (len) MC_CHECK(sd >= 0, "negative deviation", sd);
    if (lags >= len && len) return;               // more lags than values: undefined
    std::vector<double> rho(1, 9), phi(1, 9), r(1, 1.);
    st.autocorrelation(d, lags, rho, phi);
    if (!len) { MC_CHECK(rho.empty() && phi.empty(), "no data", ""); return; }
    MC_CHECK(rho.size() == lags + 1 && phi.size() == lags + 1 && rho[0] == 1 && phi[0] == 1, "autocorrelation", "lag 0");
    bool defined = true;
    for (unsigned s = 1; s <= lags; ++s) {
        unsigned k = len - s;
        double ma = 0, mb = 0, va = 0, vb = 0, cv = 0;
        for (unsigned i = 0; i < k; ++i) { ma += d[i] / k; mb += d[i + s] / k; }
        for (unsigned i = 0; i < k; ++i) { va += (d[i] - ma) * (d[i] - ma) / k; vb += (d[i + s] - mb) * (d[i + s] - mb) / k; cv += (d[i] - ma) * (d[i + s] - mb) / k; }
        if (va < 1e-9 || vb < 1e-9) { defined = false; r.push_back(0); continue; }
        r.push_back(cv / std::sqrt(va * vb));
        MC_CHECK(std::fabs(rho[s] - r[s]) < 1e-6, "autocorrelation", mc::show(d) << " lag " << s << ": " << rho[s] << " instead of " << r[s]);
    }
    if (!defined) return;
    for (unsigned k = 1; k <= lags; ++k) {
        // last coefficient of the best linear prediction from the k values before
        std::vector<std::vector<double>> a(k, std::vector<double>(k));
        std::vector<double> b(k);
        for (unsigned i = 0; i < k; ++i) { b[i] = r[i + 1]; for (unsigned j = 0; j < k; ++j) a[i][j] = r[i > j ? i - j : j - i]; }
        auto x = solve(a, b);
        if (x.empty() || std::fabs(x.back()) > 1e4) return;
        MC_CHECK(std::fabs(phi[k] - x.back()) < 1e-5 * (1 + std::fabs(x.back())), "partial autocorrelation", mc::show(d) << " lag " << k << ": " << phi[k] << " instead of " << x.back());
    }
}
MC_SCENARIO("distances between samples")
{
    std::vector<S> d;
    for (unsigned i = mc::choose(4); i; --i) d.push_back(bits_of<S>(n, mc::choose(4)));
    eoHammingDistance<S> ham;
    std::vector<std::vector<double>> m(1);
    moStatistics().distances(d, ham, m);
    MC_CHECK(m.size() == d.size(), "size", "");
    uint64_t h = d.size();
    for (unsigned i = 0; i < d.size(); ++i) {
        h = mc::mix(h, num_of(d[i]));
        MC_CHECK(m[i].size() == d.size(), "size", "");
        for (unsigned j = 0; j < d.size(); ++j) MC_CHECK(m[i][j] == __builtin_popcount(num_of(d[i]) ^ num_of(d[j])), "distance", "");
    }
    mc::state(h);
}
