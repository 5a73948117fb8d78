// Estimation of distribution: estimators, samplers, repairers, algorithms.
#include "common.hpp"
#include <mo>
#include <edo>
#include <edoEDASA.h>
#include <Eigen/Dense>
#include <sys/stat.h>
#include <fstream>
using namespace mc;

typedef eoReal<double> R;
typedef eoReal<eoMinimizingFitness> RM;
typedef std::vector<double> V;
static V g(const R& r) { return V(r.begin(), r.end()); }
static const V GRID = {-2.0, 0.0, 1.0, 3.5};

static R any_point(unsigned n, unsigned k = 4) { R r; for (unsigned i = 0; i < n; ++i) r.push_back(GRID[choose(k)]); return r; }
static eoPop<R> any_pop(unsigned lo, unsigned hi, unsigned n, unsigned k = 4)
{
    eoPop<R> p; unsigned m = range(lo, hi);
    for (unsigned i = 0; i < m; ++i) p.push_back(any_point(n, k));
    return p;
}
static uint64_t hp(const eoPop<R>& p) { uint64_t h = p.size(); for (auto& x : p) h = mix(h, hashv(x)); return h; }
static std::string sp(const eoPop<R>& p) { std::ostringstream o; for (auto& x : p) o << show(x) << ' '; return o.str(); }
static V mean_of(const eoPop<R>& p) { V m(p[0].size(), 0.0); for (auto& x : p) for (size_t i = 0; i < m.size(); ++i) m[i] += x[i] / p.size(); return m; }
static double cov_of(const eoPop<R>& p, unsigned a, unsigned b)
{
    V m = mean_of(p); double c = 0;
    for (auto& x : p) c += (x[a] - m[a]) * (x[b] - m[b]) / p.size();
    return c;
}

// ---------------------------------------------------------------- estimators
MC_SCENARIO("estimators of real distributions")
{
    unsigned n = range(1, tier(2, 3));
    eoPop<R> p = any_pop(1, n == 1 ? 4 : tier(3, n == 3 ? 2 : 3), n, n == 3 ? 3 : 4), keep = p;
    edoEstimatorUniform<R> eu; edoEstimatorNormalMono<R> em; edoEstimatorNormalMulti<R> ev;
    // estimators carry nothing over from an earlier population
    if (flag()) { eoPop<R> q; q.push_back(R(n, 10.0)); q.push_back(R(n, -7.0)); eu(q); em(q); ev(q); }
    edoUniform<R> u = eu(p); edoNormalMono<R> m = em(p); edoNormalMulti<R> v = ev(p);
    state(mix(hp(p), n));
    MC_CHECK(u.size() == n && m.size() == n && v.size() == n, "dimension", "");
    V mean = mean_of(p);
    for (unsigned i = 0; i < n; ++i) {
        double lo = p[0][i], hi = lo;
        for (auto& x : p) { lo = std::min(lo, x[i]); hi = std::max(hi, x[i]); }
        MC_CHECK(u.min()[i] == lo && u.max()[i] == hi, "uniform estimate", sp(p) << " gives [" << u.min()[i] << "," << u.max()[i] << "]");
        MC_CHECK(close(m.mean()[i], mean[i], 1e-9), "mono estimate", sp(p) << " mean " << m.mean()[i]);
        MC_CHECK(close(m.variance()[i], cov_of(p, i, i), 1e-9), "mono estimate", sp(p) << " variance " << m.variance()[i]);
        MC_CHECK(close(v.mean()[i], mean[i], 1e-9), "multi estimate", sp(p) << " mean " << v.mean()[i]);
        for (unsigned j = 0; j < n; ++j)
            MC_CHECK(close(v.varcovar()(i, j), cov_of(p, i, j), 1e-9), "multi estimate", sp(p) << " covariance " << i << j << " is " << v.varcovar()(i, j) << " for " << cov_of(p, i, j));
    }
    for (size_t i = 0; i < p.size(); ++i) MC_CHECK(g(p[i]) == g(keep[i]), "estimation changes the population", "");
}
class Bools : public std::vector<std::vector<bool>>, public EO<double> { public: typedef std::vector<bool> AtomType; };
MC_SCENARIO("estimators of bit distributions")
{
    unsigned n = range(1, 3), m = range(1, tier(n == 3 ? 3 : 4, 4));
    eoPop<Bit> p; eoPop<Bools> q;
    for (unsigned i = 0; i < m; ++i) {
        p.push_back(any_bits<Bit>(n));
        Bools b;       // two rows: the bits and their complement
        b.push_back(std::vector<bool>(p[i].begin(), p[i].end()));
        std::vector<bool> c; for (bool x : p[i]) c.push_back(!x);
        if (flag()) c.assign(n, true);
        b.push_back(c); q.push_back(b);
    }
    edoEstimatorBinomial<Bit> e; edoEstimatorBinomialMulti<Bools> em;
    edoBinomial<Bit> d = e(p); edoBinomialMulti<Bools> dm = em(q);
    MC_CHECK(d.size() == n && dm.rows() == 2 && dm.cols() == int(n), "dimension", "");
    uint64_t h = m;
    for (unsigned i = 0; i < n; ++i) {
        double f = 0, r0 = 0, r1 = 0;
        for (unsigned k = 0; k < m; ++k) { f += p[k][i]; r0 += q[k][0][i]; r1 += q[k][1][i]; }
        MC_CHECK(close(d[i], f / m, 1e-9), "bit frequency", "frequency " << d[i] << " for " << f / m);
        MC_CHECK(close(dm(0, i), r0 / m, 1e-9) && close(dm(1, i), r1 / m, 1e-9), "bit frequency matrix", dm(0, i) << "," << dm(1, i) << " for " << r0 / m << "," << r1 / m);
        h = mix(h, uint64_t(f * 100 + r1));
    }
    state(h);
}
// ---------------------------------------------------------------- samplers
MC_SCENARIO("sampled bits follow the probabilities")
{
    unsigned n = range(1, tier(2, 3));
    V p; for (unsigned i = 0; i < n; ++i) p.push_back(pick({0.0, 0.25, 0.5, 1.0}));
    edoBinomial<Bit> d(p); edoSamplerBinomial<Bit> s;
    edoBinomialMulti<Bools> dm(2, n, 0.25); edoSamplerBinomialMulti<Bools> sm;
    for (unsigned i = 0; i < n; ++i) dm(0, i) = p[i];
    std::map<uint32_t, double> prob; std::map<uint32_t, double> probm;
    rng_grid(8, 16);
    forall([&] {
        Bit b = s(d);
        MC_CHECK(b.size() == n && b.invalid(), "sample", "size or fitness");
        prob[num_of(b)] += leaf_prob();
    });
    if (n <= 2) forall([&] {
        Bools b = sm(dm);
        MC_CHECK(b.size() == 2 && b[0].size() == n && b[1].size() == n, "sample", "size");
        uint32_t v = 0; for (unsigned r = 0; r < 2; ++r) for (unsigned i = 0; i < n; ++i) v |= uint32_t(b[r][i]) << (r * n + i);
        probm[v] += leaf_prob();
    });
    for (uint32_t v = 0; v < (1u << n); ++v) {
        double want = 1; for (unsigned i = 0; i < n; ++i) want *= (v >> i & 1) ? p[i] : 1 - p[i];
        state(mix(hashv(p), v));
        MC_CHECK(close(prob[v], want, 1e-9), "bit probability", show(p) << " gives " << v << " with probability " << prob[v] << " for " << want);
    }
    if (n <= 2) for (uint32_t v = 0; v < (1u << (2 * n)); ++v) {
        double want = 1; for (unsigned i = 0; i < 2 * n; ++i) { double q = i < n ? p[i] : 0.25; want *= (v >> i & 1) ? q : 1 - q; }
        MC_CHECK(close(probm[v], want, 1e-9), "bit matrix probability", show(p) << " gives " << v << " with probability " << probm[v] << " for " << want);
    }
}
MC_SCENARIO("uniform samples")
{
    unsigned n = range(1, 2);
    R lo, hi;
    for (unsigned i = 0; i < n; ++i) { lo.push_back(pick({-2.0, 0.0, 1e6})); hi.push_back(lo[i] + pick({0.0, 1.0, 4.5})); }
    edoUniform<R> d(lo, hi);
    edoBounderNo<R> no; edoSamplerUniform<R> s(no);
    std::vector<V> at(n); std::set<V> seen;
    rng_grid_edges(8, 16);
    forall([&] {
        R x = s(d);
        MC_CHECK(x.size() == n && x.invalid(), "sample", "size or fitness");
        for (unsigned i = 0; i < n; ++i) { MC_CHECK(x[i] >= lo[i] && (x[i] < hi[i] || lo[i] == hi[i]), "uniform range", show(x)); at[i].push_back(x[i]); }
        seen.insert(g(x));
    });
    state(mix(hashv(lo), hashv(hi)));
    double combos = 1;
    for (unsigned i = 0; i < n; ++i) {
        std::sort(at[i].begin(), at[i].end());
        std::set<double> v(at[i].begin(), at[i].end());
        combos *= double(v.size());
        if (hi[i] > lo[i]) {
            MC_CHECK(v.size() == 10, "uniform values", "only " << v.size() << " values for 10 words");
            // one value per cell of the interval: the density is flat
            for (unsigned c = 0; c < 8; ++c) { double w = (hi[i] - lo[i]) / 8; bool f = false; for (double x : v) f = f || (x >= lo[i] + c * w && x < lo[i] + (c + 1) * w); MC_CHECK(f, "uniform values", "no value in cell " << c); }
        }
    }
    MC_CHECK(double(seen.size()) == combos, "coordinates are drawn together", seen.size() << " samples for " << combos);
}
// words that never lead to a retry in the polar method, symmetric around one half
static const std::vector<uint32_t> SYM = {uint32_t(0.3 * 4294967296.0), uint32_t(0.4 * 4294967296.0), uint32_t(0.6 * 4294967296.0), uint32_t(0.7 * 4294967296.0)};
struct Moments { V mean; std::vector<V> cov; double mass; };
static Moments moments(unsigned n, const std::function<R()>& draw)
{
    Moments m; m.mean.assign(n, 0); m.mass = 0;
    std::vector<V> second(n, V(n, 0.0));
    forall([&] {
        eo::rng.clearCache();
        R x = draw();
        double w = leaf_prob();
        MC_CHECK(x.size() == n && x.invalid(), "sample", "size or fitness");
        m.mass += w;
        for (unsigned i = 0; i < n; ++i) { MC_CHECK(std::isfinite(x[i]), "sample", "not finite: " << show(x)); m.mean[i] += w * x[i]; for (unsigned j = 0; j < n; ++j) second[i][j] += w * x[i] * x[j]; }
    });
    m.cov = second;
    for (unsigned i = 0; i < n; ++i) m.mean[i] /= m.mass;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) m.cov[i][j] = second[i][j] / m.mass - m.mean[i] * m.mean[j];
    return m;
}
static double unit_variance()
{
    double v = 0;
    forall([&] { eo::rng.clearCache(); double x = eo::rng.normal(); v += leaf_prob() * x * x; });
    return v;
}
static void agree(const Moments& m, const V& mean, const std::vector<V>& cov, double unit, const char* key)
{
    for (unsigned i = 0; i < mean.size(); ++i) {
        MC_CHECK(close(m.mean[i], mean[i], 1e-5), key, "mean " << show(m.mean) << " for " << show(mean));
        for (unsigned j = 0; j < mean.size(); ++j)
            MC_CHECK(close(m.cov[i][j] / unit, cov[i][j], 1e-5), key, "covariance " << i << j << " is " << m.cov[i][j] / unit << " for " << cov[i][j]);
    }
}
MC_SCENARIO("normal samples: independent coordinates")
{
    unsigned n = range(1, 3);
    R mean, var;
    for (unsigned i = 0; i < n; ++i) { mean.push_back(GRID[i]); var.push_back(pick({0.0, 1.0, 0.25, 9.0})); }
    if (flag()) std::reverse(mean.begin(), mean.end());
    edoNormalMono<R> d(mean, var); edoBounderNo<R> no; edoSamplerNormalMono<R> s(no);
    rng_words(SYM, 16);
    double unit = unit_variance();
    Moments m = moments(n, [&] { return s(d); });
    std::vector<V> cov(n, V(n, 0.0)); for (unsigned i = 0; i < n; ++i) cov[i][i] = var[i];
    state(mix(hashv(mean), hashv(var)));
    agree(m, g(mean), cov, unit, "mono sampler");
}
static std::vector<std::vector<V>> matrices(unsigned n)
{
    if (n == 1) return {{{1}}, {{0.25}}, {{9}}, {{0}}};
    if (n == 2) return {{{1, 0}, {0, 1}}, {{1, 0}, {0, 9}}, {{9, 0}, {0, 1}}, {{1, 0.5}, {0.5, 1}}, {{2, 1}, {1, 5}}, {{5, -2}, {-2, 1}}, {{1, 1}, {1, 1}}, {{4, 2}, {2, 1}}, {{0, 0}, {0, 2}}, {{0, 0}, {0, 0}}};
    return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{1, .5, .25}, {.5, 2, 1}, {.25, 1, 6}}, {{6, 1, .25}, {1, 2, .5}, {.25, .5, 1}}, {{3, -1, 1}, {-1, 4, -2}, {1, -2, 2}}, {{1, 1, 0}, {1, 1, 0}, {0, 0, 2}}, {{2, 1, 3}, {1, 1, 2}, {3, 2, 5}}};
}
MC_SCENARIO("normal samples: any covariance")
{
    unsigned n = range(1, 3);
    std::vector<V> c = pick(matrices(n));
    Eigen::VectorXd mean(n); Eigen::MatrixXd cov(n, n); V mv;
    unsigned shift = choose(2);
    for (unsigned i = 0; i < n; ++i) { mean(i) = GRID[(i + shift) % 4]; mv.push_back(mean(i)); for (unsigned j = 0; j < n; ++j) cov(i, j) = c[i][j]; }
    edoNormalMulti<R> d(mean, cov); edoBounderNo<R> no; edoSamplerNormalMulti<R> s(no);
    rng_words(SYM, 16);
    double unit = unit_variance();
    Moments m = moments(n, [&] { return s(d); });
    uint64_t h = n; for (auto& r : c) h = mix(h, hashv(r));
    state(mix(h, shift));
    agree(m, mv, c, unit, "multi sampler");
    // rounding in the estimate of points on a line must not spoil the samples
    if (n == 2) {
        eoPop<R> p; for (double t : {0.1, 0.3, 0.7}) { R x; x.push_back(t * (1 + shift)); x.push_back(t / 3); p.push_back(x); }
        edoEstimatorNormalMulti<R> e;
        edoNormalMulti<R> l = e(p);
        Moments q = moments(2, [&] { return s(l); });
        agree(q, mean_of(p), {{cov_of(p, 0, 0), cov_of(p, 0, 1)}, {cov_of(p, 1, 0), cov_of(p, 1, 1)}}, unit, "sampler on a line");
    }
}
MC_SCENARIO("normal samples: adaptive distribution")
{
    unsigned n = range(1, 3);
    double sigma = pick({1.0, 0.5, 3.0});
    Eigen::MatrixXd B = Eigen::MatrixXd::Identity(n, n); Eigen::VectorXd D(n), mean(n), z = Eigen::VectorXd::Zero(n); V mv;
    unsigned turn = choose(n < 2 ? 1 : 3);
    if (turn) { double a = turn * 0.6; unsigned o = n - 2; B(o, o) = std::cos(a); B(o, o + 1) = -std::sin(a); B(o + 1, o) = std::sin(a); B(o + 1, o + 1) = std::cos(a); }
    for (unsigned i = 0; i < n; ++i) { D(i) = pick({1.0, 2.5}); mean(i) = GRID[3 - i]; mv.push_back(mean(i)); }
    Eigen::MatrixXd C = B * D.asDiagonal() * D.asDiagonal() * B.transpose();
    bool whole = flag();
    edoNormalAdaptive<R> built(n, mean, C, B, D, sigma, z, z), set(n);
    set.mean(mean); set.covar(C); set.coord_sys(B); set.scaling(D); set.sigma(sigma);
    edoNormalAdaptive<R>& d = whole ? built : set;
    MC_CHECK(d.size() == n, "dimension", d.size());
    edoBounderNo<R> no; edoSamplerNormalAdaptive<R> s(no);
    rng_words(SYM, 16);
    double unit = unit_variance();
    Moments m = moments(n, [&] { return s(d); });
    std::vector<V> c(n, V(n)); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) c[i][j] = sigma * sigma * C(i, j);
    uint64_t h = n; for (auto& r : c) h = mix(h, hashv(r));
    state(h);
    agree(m, mv, c, unit, "adaptive sampler");
    d.reset();
    Moments r = moments(n, [&] { return s(d); });
    std::vector<V> id(n, V(n, 0.0)); for (unsigned i = 0; i < n; ++i) id[i][i] = 1;
    agree(r, V(n, 0.0), id, unit, "reset distribution");
    d.reset(n + 1);
    MC_CHECK(d.size() == n + 1 && d.mean().size() == int(n + 1), "reset distribution", "dimension");
}
MC_SCENARIO("samples are repaired")
{
    unsigned n = range(1, 2), kind = choose(4);
    R lo(n, -1.0), hi(n, 1.0); if (n == 2) hi[1] = 0.5;
    edoBounderBound<R> b(lo, hi);
    edoNormalMono<R> dm(R(n, 0.5), R(n, 100.0));
    Eigen::VectorXd mean = Eigen::VectorXd::Constant(n, 0.5);
    Eigen::MatrixXd cov = Eigen::MatrixXd::Identity(n, n) * 100;
    edoNormalMulti<R> dv(mean, cov); edoNormalAdaptive<R> da(n); da.sigma(10);
    edoUniform<R> du(R(n, -4.0), R(n, 4.0));
    edoSamplerNormalMono<R> sm(b); edoSamplerNormalMulti<R> sv(b); edoSamplerNormalAdaptive<R> sa(b); edoSamplerUniform<R> su(b);
    rng_words(SYM, 16);
    unsigned clipped = 0;
    forall([&] {
        eo::rng.clearCache();
        R x = kind == 0 ? sm(dm) : kind == 1 ? sv(dv) : kind == 2 ? sa(da) : su(du);
        for (unsigned i = 0; i < n; ++i) { MC_CHECK(x[i] >= lo[i] && x[i] <= hi[i], "sample outside the bounds", show(x)); clipped += x[i] == lo[i] || x[i] == hi[i]; }
        state(mix(kind, hashv(x)));
    });
    MC_CHECK(clipped, "oracle", "no sample needed a repair");
}
// ---------------------------------------------------------------- repairers
MC_SCENARIO("bounders")
{
    unsigned n = range(1, tier(2, 3)), kind = choose(4);
    R lo, hi, x;
    for (unsigned i = 0; i < n; ++i) { lo.push_back(i ? -3.0 : -1.0); hi.push_back(i ? -2.5 : 2.0); x.push_back(pick({-1e9, -3.0, -2.75, -2.5, -1.0, std::nextafter(-1.0, -9.0), 0.5, 2.0, std::nextafter(2.0, 9.0), 7.0})); }
    if (kind == 2 && n > 1) prune();   // one generator for every coordinate
    eoUniformGenerator<double> gen(-1.0, 2.0);
    edoBounderBound<R> bb(lo, hi); edoBounderUniform<R> bu(lo, hi); edoBounderRng<R> br(lo, hi, gen); edoBounderNo<R> bn;
    rng_grid_edges(4, 8);
    forall([&] {
        R y = x;
        if (kind == 0) bb(y); if (kind == 1) bu(y); if (kind == 2) br(y); if (kind == 3) bn(y);
        MC_CHECK(y.size() == n, "bounder", "size");
        for (unsigned i = 0; i < n; ++i) {
            bool in = x[i] >= lo[i] && x[i] <= hi[i];
            if (in || kind == 3) MC_CHECK(y[i] == x[i], "bounder changes a valid value", x[i] << " became " << y[i]);
            else {
                MC_CHECK(y[i] >= lo[i] && y[i] <= hi[i], "bounder leaves the bounds", x[i] << " became " << y[i]);
                if (kind == 0) MC_CHECK(y[i] == (x[i] < lo[i] ? lo[i] : hi[i]), "bounder", x[i] << " became " << y[i]);
            }
        }
        state(mix(mix(kind, hashv(x)), hashv(y)));
    });
}
static double plus1(double x) { return x + 1; }
static double minus(double x, double y) { return x - y; }
MC_SCENARIO("rounding, modulo and functions")
{
    unsigned n = range(1, 2);
    R x; for (unsigned i = 0; i < n; ++i) x.push_back(pick({-2.5, -2.49, -1.0, -0.5, -0.04, 0.0, 0.04, 0.05, 0.5, 0.96, 1.0, 1.5, 2.51, 7.3, 100.0}));
    x.fitness(3);
    state(hashv(x));
    edoRepairerFloor<R> fl; edoRepairerCeil<R> ce; edoRepairerRound<R> ro; edoRepairerRoundDecimals<R> dec(0.1); 
    edoRepairerApplyUnary<R> un(plus1); edoRepairerApplyBinary<R> bi(minus, 3.0);
    auto run = [&](edoRepairer<R>& r) { R y = x; r(y); MC_CHECK(y.size() == n && y.invalid(), "repairer", "size or stale fitness"); return y; };
    R a = run(fl), b = run(ce), c = run(ro), d = run(dec), e = run(un), f = run(bi);
    for (unsigned i = 0; i < n; ++i) {
        MC_CHECK(a[i] == std::floor(x[i]) && b[i] == std::ceil(x[i]) && c[i] == std::round(x[i]), "rounding", x[i] << " became " << a[i] << "," << b[i] << "," << c[i]);
        MC_CHECK(close(d[i], std::round(x[i] * 10) / 10, 1e-9), "decimals", x[i] << " became " << d[i]);
        MC_CHECK(e[i] == x[i] + 1 && f[i] == x[i] - 3, "function", x[i] << " became " << e[i] << "," << f[i]);
    }
    double m = pick({1.0, 2.0, 0.75});
    edoRepairerModulo<R> mo(m);
    R y = run(mo);
    for (unsigned i = 0; i < n; ++i) {
        double k = (x[i] - y[i]) / m;
        MC_CHECK(std::fabs(y[i]) < m && close(k, std::round(k), 1e-9) && y[i] * x[i] >= 0, "modulo", x[i] << " mod " << m << " became " << y[i]);
    }
}
MC_SCENARIO("dispatched repairs touch only their indices")
{
    unsigned n = 3;
    R x; for (unsigned i = 0; i < n; ++i) x.push_back(pick({-0.5, 0.4, 2.6}));
    x.fitness(3);
    unsigned rules = range(1, 2);
    edoRepairerFloor<R> fl; edoRepairerCeil<R> ce; edoBounderBound<R> bo(R(3, 0.0), R(3, 1.0));
    edoRepairerDispatcher<R> disp;
    V want = g(x);
    for (unsigned r = 0; r < rules; ++r) {
        unsigned kind = choose(3);
        std::vector<unsigned> idx = pick(std::vector<std::vector<unsigned>>{{}, {0}, {1}, {2}, {2, 0}, {0, 1}, {1, 2, 0}});
        edoRepairer<R>* op = kind == 0 ? (edoRepairer<R>*)&fl : kind == 1 ? (edoRepairer<R>*)&ce : &bo;
        disp.add(idx, op);
        for (unsigned i : idx) want[i] = kind == 0 ? std::floor(want[i]) : kind == 1 ? std::ceil(want[i]) : std::min(1.0, std::max(0.0, want[i]));
    }
    disp(x);
    state(mix(hashv(x), rules));
    MC_CHECK(g(x) == want, "dispatched repair", show(x) << " for " << show(want));
    MC_CHECK(x.invalid() || rules == 0, "dispatched repair", "stale fitness");
}
MC_SCENARIO("centering a distribution")
{
    unsigned n = range(1, 2);
    R c = any_point(n), lo, hi, var;
    for (unsigned i = 0; i < n; ++i) { lo.push_back(pick({-4.0, 0.0})); hi.push_back(lo[i] + pick({0.0, 1.0, 6.0})); var.push_back(i + 0.5); }
    edoUniform<R> u(lo, hi); edoUniformCenter<R> uc; uc(u, c);
    edoNormalMono<R> m(lo, var); edoNormalMonoCenter<R> mc_; mc_(m, c);
    Eigen::VectorXd mean = Eigen::VectorXd::Zero(n); Eigen::MatrixXd cov = Eigen::MatrixXd::Identity(n, n) * 2;
    edoNormalMulti<R> v(mean, cov); edoNormalMultiCenter<R> vc; vc(v, c);
    state(mix(hashv(c), mix(hashv(lo), hashv(hi))));
    for (unsigned i = 0; i < n; ++i) {
        MC_CHECK(close((u.min()[i] + u.max()[i]) / 2, c[i], 1e-9) && close(u.max()[i] - u.min()[i], hi[i] - lo[i], 1e-9), "centred bounds", "[" << u.min()[i] << "," << u.max()[i] << "] around " << c[i]);
        MC_CHECK(m.mean()[i] == c[i] && m.variance()[i] == var[i], "centred mono normal", m.mean()[i] << " for " << c[i]);
        MC_CHECK(v.mean()(i) == c[i], "centred multi normal", v.mean()(i) << " for " << c[i]);
        for (unsigned j = 0; j < n; ++j) MC_CHECK(v.varcovar()(i, j) == (i == j ? 2 : 0), "centred multi normal", "covariance");
    }
}
// ---------------------------------------------------------------- covariance matrix adaptation
typedef edoNormalAdaptive<R> CMA;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
struct Ref      // the update rules, written from the published algorithm
{
    unsigned n, calls = 0, last = 0; V m, pc, ps; std::vector<V> C; double sigma;
    Ref(unsigned n) : n(n), m(n, 0.0), pc(n, 0.0), ps(n, 0.0), C(n, V(n, 0.0)), sigma(1) { for (unsigned i = 0; i < n; ++i) C[i][i] = 1; }
    bool update(const eoPop<R>& p, const Mat& B, const Vec& D)
    {
        unsigned mu = unsigned(p.size()); double N = n, sw = 0, s2 = 0;
        V w; for (unsigned i = 0; i < mu; ++i) { w.push_back(std::log(mu + 0.5) - std::log(i + 1.0)); sw += w[i]; }
        for (double& x : w) { x /= sw; s2 += x * x; }
        double mueff = 1 / s2, cc = (4 + mueff / N) / (N + 4 + 2 * mueff / N), cs = (mueff + 2) / (N + mueff + 5);
        double c1 = 2 / ((N + 1.3) * (N + 1.3) + mueff), cmu = 2 * (mueff - 2 + 1 / mueff) / ((N + 2) * (N + 2) + mueff);
        double damps = 1 + 2 * std::max(0.0, std::sqrt((mueff - 1) / (N + 1)) - 1) + cs, chi = std::sqrt(N) * (1 - 1 / (4 * N) + 1 / (21 * N * N));
        ++calls;
        V old = m; m.assign(n, 0);
        for (unsigned k = 0; k < mu; ++k) for (unsigned i = 0; i < n; ++i) m[i] += w[k] * p[k][i];
        std::vector<V> inv(n, V(n, 0.0));
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) for (unsigned k = 0; k < n; ++k) inv[i][j] += B(i, k) / D(k) * B(j, k);
        double norm = 0;
        for (unsigned i = 0; i < n; ++i) {
            double t = 0; for (unsigned j = 0; j < n; ++j) t += inv[i][j] * (m[j] - old[j]) / sigma;
            ps[i] = (1 - cs) * ps[i] + std::sqrt(cs * (2 - cs) * mueff) * t; norm += ps[i] * ps[i];
        }
        norm = std::sqrt(norm);
        double hsig = norm / std::sqrt(1 - std::pow(1 - cs, 2.0 * calls)) / chi < 1.4 + 2 / (N + 1);
        for (unsigned i = 0; i < n; ++i) pc[i] = (1 - cc) * pc[i] + hsig * std::sqrt(cc * (2 - cc) * mueff) * (m[i] - old[i]) / sigma;
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
            double r = 0; for (unsigned k = 0; k < mu; ++k) r += w[k] * (p[k][i] - old[i]) * (p[k][j] - old[j]) / (sigma * sigma);
            C[i][j] = (1 - c1 - cmu) * C[i][j] + c1 * (pc[i] * pc[j] + (1 - hsig) * cc * (2 - cc) * C[i][j]) + cmu * r;
        }
        sigma *= std::exp(cs / damps * (norm / chi - 1));
        bool dec = calls * mu - last > mu / (c1 + cmu) / N / 10;
        if (dec) last = calls * mu;
        return dec;
    }
};
static double rel(double a, double b) { return std::fabs(a - b) / (1 + std::fabs(b)); }
MC_SCENARIO("covariance matrix adaptation follows its equations")
{
    unsigned n = range(1, 3), calls = range(1, n == 3 ? tier(1, 2) : 2);
    CMA d(n); edoEstimatorNormalAdaptive<R> est(d); Ref ref(n);
    unsigned mu = range(1, 3);
    for (unsigned c = 0; c < calls; ++c) {
        {
            eoPop<R> p; for (unsigned i = 0; i < mu; ++i) p.push_back(any_point(n, n == 1 ? 4 : n == 2 ? (mu == 3 ? 2 : 3) : 2));
            if (c && n > 1) { for (auto& x : p) for (double& v : x) v *= 0.5; }
            Mat B = d.coord_sys(); Vec D = d.scaling();
            bool dec = ref.update(p, B, D);
            CMA r = est(p);
            state(mix(hp(p), mix(c, n)));
            for (unsigned i = 0; i < n; ++i) {
                MC_CHECK(rel(d.mean()(i), ref.m[i]) < 1e-9, "adapted mean", sp(p) << " gives " << d.mean()(i) << " for " << ref.m[i]);
                MC_CHECK(rel(d.path_sigma()(i), ref.ps[i]) < 1e-9, "step size path", sp(p) << " gives " << d.path_sigma()(i) << " for " << ref.ps[i]);
                MC_CHECK(rel(d.path_covar()(i), ref.pc[i]) < 1e-9, "covariance path", sp(p) << " gives " << d.path_covar()(i) << " for " << ref.pc[i]);
                for (unsigned j = 0; j < n; ++j) MC_CHECK(rel(d.covar()(i, j), ref.C[i][j]) < 1e-8, "adapted covariance", sp(p) << " gives " << d.covar()(i, j) << " for " << ref.C[i][j]);
            }
            MC_CHECK(rel(d.sigma(), ref.sigma) < 1e-9, "step size", sp(p) << " gives " << d.sigma() << " for " << ref.sigma);
            MC_CHECK(r.sigma() == d.sigma() && r.mean() == d.mean() && r.covar() == d.covar(), "estimate", "not the adapted distribution");
            if (dec) {
                Mat C = d.coord_sys() * d.scaling().asDiagonal() * d.scaling().asDiagonal() * d.coord_sys().transpose(), I = d.coord_sys() * d.coord_sys().transpose();
                for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
                    MC_CHECK(rel(C(i, j), ref.C[i][j]) < 1e-6, "axes", "axes give covariance " << C(i, j) << " for " << ref.C[i][j]);
                    MC_CHECK(rel(I(i, j), i == j) < 1e-6, "axes", "not orthogonal");
                }
            } else MC_CHECK(d.coord_sys() == B && d.scaling() == D, "axes", "changed before their time");
        }
    }
}
MC_SCENARIO("adaptive estimators compose")
{
    unsigned n = range(1, 2), kind = choose(4);
    eoPop<R> p = any_pop(1, 2, n, 3);
    CMA d(n); d.sigma(7); d.mean(Vec(Vec::Constant(n, 5.0)));
    edoEstimatorNormalAdaptive<R> est(d);
    uint64_t h = mix(hp(p), kind);
    state(h);
    if (kind == 0) {
        unsigned dim = choose(2) ? n + 1 : 0;
        edoEstimatorAdaptiveReset<CMA> r0(d), rd(d, dim);
        CMA r = dim ? rd(p) : r0(p);
        MC_CHECK(r.size() == (dim ? dim : n) && r.sigma() == 1 && r.mean().norm() == 0 && &r0.distribution() == &d, "reset estimator", "");
        MC_CHECK(d.sigma() == 1 && d.size() == r.size(), "reset estimator", "the distribution is not the one that was given");
    } else if (kind == 1) {
        R target(n, 2.5); unsigned got = 0;
        edoEstimatorAdaptiveEdit<CMA> e(d, [&] { ++got; return target; }, [&](R x) { d.mean(x); });
        CMA r = e(p);
        MC_CHECK(got == 1 && r.mean() == Vec(Vec::Constant(n, 2.5)) && d.mean() == r.mean() && d.sigma() == 7, "edit estimator", "");
    } else if (kind == 2) {
        // one after the other, each seeing what the previous one left
        unsigned order = choose(2);
        edoEstimatorAdaptiveEdit<CMA, double> add(d, [&] { return d.sigma() + 1; }, [&](double x) { d.sigma(x); }), dbl(d, [&] { return d.sigma() * 2; }, [&](double x) { d.sigma(x); });
        edoEstimatorCombinedAdaptive<CMA> c(d, order ? (edoEstimator<CMA>&)add : dbl);
        c.add(order ? (edoEstimator<CMA>&)dbl : add);
        CMA r = c(p);
        MC_CHECK(r.sigma() == (order ? 16 : 15) && d.sigma() == r.sigma(), "combined estimator", r.sigma());
    } else {
        edoEstimatorNormalMono<R> a; edoEstimatorNormalMono<R> b;
        edoEstimatorCombinedStateless<edoNormalMono<R>> c(a);
        c.add(b);
        for (unsigned k = 0; k < 2; ++k) {
            edoNormalMono<R> r = c(p);
            V m = mean_of(p);
            MC_CHECK(r.size() == n, "combined estimator", "size");
            for (unsigned i = 0; i < n; ++i) MC_CHECK(close(r.mean()[i], m[i], 1e-9) && close(r.variance()[i], cov_of(p, i, i), 1e-9), "combined estimator", r.mean()[i]);
            p = any_pop(1, 1, n, 2);
        }
    }
}
MC_SCENARIO("the distribution is reset before a new run")
{
    unsigned n = range(1, 3); CMA d(n); d.sigma(7); d.mean(Vec(Vec::Constant(n, 5.0)));
    bool dim = flag();
    edoDistribReset<CMA> a(d), b(d, n + 2);
    eoPop<R> p;
    if (dim) b(p); else a(p);
    state(n * 2 + dim);
    MC_CHECK(d.size() == (dim ? n + 2 : n) && d.sigma() == 1 && d.mean().norm() == 0 && d.mean().size() == int(d.size()), "reset", "");
}
// ---------------------------------------------------------------- stopping rules
MC_SCENARIO("stopping rules of adaptive distributions")
{
    unsigned n = range(1, 2); CMA d(n);
    double bad = pick({std::nan(""), HUGE_VAL, -HUGE_VAL});
    unsigned where = choose(7), at = choose(n), at2 = choose(n);
    bool want = where == 0;
    Vec v = Vec::Constant(n, 0.5); Mat m = Mat::Identity(n, n);
    v(at) = bad; m(at, at2) = bad;
    if (where == 1) d.sigma(bad); if (where == 2) d.path_sigma(v); if (where == 3) d.scaling(v);
    if (where == 4) d.coord_sys(m); if (where == 5) d.path_covar(v); if (where == 6) d.covar(m);
    state(mix(n * 10 + where, at * 2 + at2));
    edoContAdaptiveFinite<CMA> fin; edoContAdaptiveIllCovar<CMA> ill(100), dflt;
    MC_CHECK(fin(d) == want, "finite", "with a bad value in place " << where);
    if (where == 0) {
        double a = pick({1.0, 99.0, 101.0, 1e5, 1e7, 1e-5, 1e-9, 0.0, -1e-17});
        Mat C = Mat::Identity(n, n); if (n == 2) C(1, 1) = a; else C(0, 0) = a;
        if (n == 2 && flag()) { double co = std::cos(0.7), si = std::sin(0.7); Mat B(2, 2); B << co, -si, si, co; C = B * C * B.transpose(); }
        d.covar(C);
        double cond = n == 1 ? 1 : a <= 0 ? 1e17 : std::max(a, 1 / a);
        if (n == 2 || a > 0) {
            MC_CHECK(ill(d) == (cond < 100), "ill-conditioned", "limit 100, condition " << cond);
            MC_CHECK(dflt(d) == (cond < 1e6), "ill-conditioned", "limit 1e6, condition " << cond);
        }
    }
}
struct Vote : edoContinue<CMA> { bool v; unsigned asked = 0; Vote(bool b) : v(b) {} bool operator()(const CMA&) { ++asked; return v; } std::string className() const { return "Vote"; } };
struct Count : edoStatBase<CMA> { unsigned calls = 0, last = 0; double sigma = 0; void operator()(const CMA& d) { ++calls; sigma = d.sigma(); } void lastCall(const CMA&) { ++last; } std::string className() const { return "Count"; } };
struct Upd : eoUpdater { unsigned calls = 0, last = 0; const Count* c; unsigned saw = 0; void operator()() { ++calls; saw = c->calls; } void lastCall() { ++last; } };
struct Mon : eoMonitor { unsigned calls = 0, last = 0; const Upd* u; unsigned saw = 0; eoMonitor& operator()() { ++calls; saw = u->calls; return *this; } void lastCall() { ++last; } };
MC_SCENARIO("checkpoint of distributions")
{
    CMA d(1); d.sigma(4);
    std::vector<Vote> v; unsigned k = range(1, 3); for (unsigned i = 0; i < k; ++i) v.emplace_back(flag());
    bool all = true; for (auto& x : v) all = all && x.v;
    edoCombinedContinue<CMA> comb(v[0]); for (unsigned i = 1; i < k; ++i) comb.add(v[i]);
    MC_CHECK(comb(d) == all, "combined rule", "");
    edoCheckPoint<CMA> cp(v[0]); for (unsigned i = 1; i < k; ++i) cp.add(v[i]);
    Count c[2]; Upd u; u.c = &c[1]; Mon m; m.u = &u;
    cp.add(m); cp.add(u); cp.add(c[0]); cp.add(c[1]);
    for (auto& x : v) x.asked = 0;
    for (unsigned r = 1; r <= 2; ++r) {
        MC_CHECK(cp(d) == all, "checkpoint", "");
        state(mix(k, mix(all, r)));
        MC_CHECK(c[0].calls == r && c[1].calls == r && u.calls == r && m.calls == r && c[0].sigma == 4, "checkpoint", "not everybody was called once");
        MC_CHECK(u.saw == r && m.saw == r, "checkpoint", "order of statistics, updaters and monitors");
        for (auto& x : v) MC_CHECK(x.asked == r, "checkpoint", "a rule was not asked");
        unsigned l = all ? 0 : r;
        MC_CHECK(c[0].last == l && c[1].last == l && u.last == l && m.last == l, "last call", "");
    }
}
MC_SCENARIO("reports of distributions")
{
    unsigned n = range(1, 2); R lo = any_point(n, 3), hi = lo; for (double& x : hi) x += 2;
    auto numbers = [](const std::string& t) { V r; std::istringstream l(t); std::string line; while (std::getline(l, line)) if (line.empty() || line[0] != '#') { std::istringstream i(line); std::string w; while (i >> w) { try { r.push_back(std::stod(w)); } catch (std::exception&) {} } } return r; };
    auto contains = [&](const V& have, const R& want) { for (double x : want) if (std::find_if(have.begin(), have.end(), [&](double y) { return close(x, y, 1e-4); }) == have.end()) return false; return true; };
    edoUniform<R> u(lo, hi); edoStatUniform<R> su; su(u);
    edoNormalMono<R> m(lo, hi); edoStatNormalMono<R> sm; sm(m);
    Vec mean(n); Mat C = Mat::Identity(n, n) * 3; for (unsigned i = 0; i < n; ++i) mean(i) = lo[i];
    edoNormalMulti<R> v(mean, C); edoStatNormalMulti<R> sv; sv(v);
    state(hashv(lo));
    MC_CHECK(contains(numbers(su.value()), lo) && contains(numbers(su.value()), hi), "report", su.value());
    MC_CHECK(contains(numbers(sm.value()), lo) && contains(numbers(sm.value()), hi), "report", sm.value());
    MC_CHECK(contains(numbers(sv.value()), lo) && contains(numbers(sv.value()), R(1, 3.0)), "report", sv.value());
    // only the last distribution is reported
    edoUniform<R> z(R(n, 77.0), R(n, 78.0)); su(z);
    MC_CHECK(numbers(su.value()).size() == numbers(sm.value()).size() && contains(numbers(su.value()), R(1, 77.0)), "report", su.value());
}
MC_SCENARIO("snapshot files")
{
    unsigned freq = range(1, 3), start = choose(2), calls = 5;
    bool list = flag();
    {
        edoFileSnapshot f("dsnap", freq, "gen", ";", start, true, list);
        eoValueParam<int> a(0, "a"), b(0, "b"); f.add(a); f.add(b);
        std::vector<std::string> names;
        for (unsigned i = 0; i < calls; ++i) {
            a.value() = int(i); b.value() = int(10 * i);
            f();
            unsigned k = start + i;
            state(mix(freq * 10 + start, i));
            std::string name = "dsnap/gen" + std::to_string(k + 1);   // files are numbered by the calls so far
            std::ifstream in(name); std::string line; std::getline(in, line);
            bool due = k % freq == 0;
            MC_CHECK(f.hasChanged() == due, "snapshot", "call " << i << " frequency " << freq);
            MC_CHECK(f.getCounter() == k + 1, "snapshot", "counter");
            if (due) { MC_CHECK(f.getFileName() == name && line == std::to_string(i) + ";" + std::to_string(10 * i), "snapshot", name << " holds " << line); names.push_back(name); }
            else MC_CHECK(!in.is_open() || line.empty(), "snapshot", name << " should not be there");
        }
        std::ifstream l("dsnap/list_of_files.txt"); std::string w; std::vector<std::string> got; while (l >> w) got.push_back(w);
        MC_CHECK(got == (list ? names : std::vector<std::string>()), "snapshot list", show(got));
    }
}
// ---------------------------------------------------------------- algorithms
// Stand-ins on one-gene points; the distribution is a number.
struct Dist : edoDistrib<R> { double v; unsigned id = 0; Dist(double x = -1) : v(x) {} unsigned size() const { return 1; } };
struct World { std::vector<std::string> log; unsigned estimates = 0, samples = 0; std::vector<double> drawn; double est = 0; std::vector<double> selected; unsigned budget = 100; };
static World* W;
struct Sel : eoSelect<R> { void operator()(const eoPop<R>& from, eoPop<R>& to) { to.clear(); W->selected.clear(); unsigned mask = 1 + choose((1u << from.size()) - 1); for (unsigned i = 0; i < from.size(); ++i) if (mask >> i & 1) { MC_CHECK(!from[i].invalid(), "selection sees unevaluated points", ""); to.push_back(from[i]); W->selected.push_back(from[i][0]); } W->log.push_back("select"); } };
struct Est : edoEstimator<Dist> { const char* name; Est(const char* n = "estimate") : name(n) {} Dist operator()(eoPop<R>& p) { double s = 0; for (auto& x : p) s = s * 10 + x[0] + 1; W->est = s; ++W->estimates; W->log.push_back(name + std::string(" ") + std::to_string(int(s))); return Dist(s); } };
struct Sam : edoSampler<Dist> { R sample(Dist& d) { W->log.push_back("sample " + std::to_string(int(d.v))); ++W->samples; R r(1, double(choose(2))); return r; } };
struct EvalPop : eoPopEvalFunc<R> { void operator()(eoPop<R>& a, eoPop<R>& b) { std::ostringstream o; o << "evaluate " << a.size() << " " << b.size(); for (auto& x : b) { MC_CHECK(x.invalid(), "samples come with a fitness", ""); x.fitness(x[0]); o << " " << x[0]; } W->log.push_back(o.str()); } };
struct Rep : eoReplacement<R> { void operator()(eoPop<R>& a, eoPop<R>& b) { std::ostringstream o; o << "replace"; for (auto& x : a) o << " " << x[0]; o << " by"; for (auto& x : b) { MC_CHECK(!x.invalid(), "replacement sees unevaluated points", ""); o << " " << x[0]; } W->log.push_back(o.str()); a = b; b.clear(); } };
struct PC : eoContinue<R> { bool operator()(const eoPop<R>&) { bool r = flag(); if (W->log.size() > 30) r = false; W->log.push_back(r ? "go on" : "stop"); return r; } };
struct DC : edoContinue<Dist> { bool operator()(const Dist& d) { bool r = flag(); W->log.push_back("ask " + std::to_string(int(d.v)) + (r ? " yes" : " no")); return r; } };
MC_SCENARIO("generations of the estimation algorithms")
{
    World w; W = &w;
    unsigned n = range(1, 2), form = choose(5);
    eoPop<R> p; for (unsigned i = 0; i < n; ++i) { R r(1, double(choose(2))); r.fitness(r[0]); p.push_back(r); }
    Sel sel; Est est, init("start"); Sam sam; EvalPop ev; Rep rep; PC pc; DC dc; Dist d;
    unsigned limit = tier(1, 2), gens = 0;
    struct Limited : eoContinue<R> { PC& p; unsigned left; Limited(PC& p, unsigned l) : p(p), left(l) {} bool operator()(const eoPop<R>& x) { if (left == 0) { W->log.push_back("stop"); return false; } --left; return p(x); } } cont(pc, limit);
    eoPop<R> first = p;
    std::unique_ptr<edoAlgo<Dist>> a;
    if (form == 0) a.reset(new edoAlgoAdaptive<Dist>(d, ev, sel, est, sam, rep, cont));
    if (form == 1) a.reset(new edoAlgoAdaptive<Dist>(d, ev, sel, est, sam, rep, cont, dc));
    if (form == 2) a.reset(new edoAlgoAdaptive<Dist>(d, ev, sel, est, init, sam, rep, cont, dc));
    if (form == 3) a.reset(new edoAlgoStateless<Dist>(ev, sel, est, sam, rep, cont));
    if (form == 4) a.reset(new edoAlgoStateless<Dist>(ev, sel, est, sam, rep, cont, dc));
    (*a)(p);
    bool ask = form == 1 || form == 2 || form == 4;
    // replay the log against the definition
    size_t at = 0; auto next = [&]() -> std::string { if (at >= w.log.size()) { fail("generation", "the run ends early"); prune(); } return w.log[at++]; };
    auto starts = [](const std::string& s, const std::string& t) { return s.compare(0, t.size(), t) == 0; };
    std::string s = next();
    MC_CHECK(starts(s, form == 2 ? "start " : "estimate "), "generation", "first step is " << s);
    bool stopped = false;
    while (!stopped) {
        ++gens;
        s = next(); MC_CHECK(s == "select", "generation", s << " instead of a selection");
        s = next(); MC_CHECK(starts(s, "estimate "), "generation", s << " instead of an estimation");
        std::string id = s.substr(9);
        if (ask) { s = next(); MC_CHECK(starts(s, "ask " + id + " "), "generation", s << " instead of the distribution stopping rule"); if (s.back() == 'o') { stopped = true; break; } }
        for (unsigned i = 0; i < n; ++i) { s = next(); MC_CHECK(s == "sample " + id, "generation", s << " instead of a sample of the estimated distribution"); }
        s = next(); MC_CHECK(starts(s, "evaluate " + std::to_string(n) + " " + std::to_string(n)), "generation", s << " instead of an evaluation");
        s = next(); MC_CHECK(starts(s, "replace "), "generation", s << " instead of a replacement");
        s = next(); MC_CHECK(s == "stop" || s == "go on", "generation", s << " instead of the stopping rule");
        stopped = s == "stop";
    }
    MC_CHECK(at == w.log.size(), "generation", "the run goes on after the stop: " << w.log[at]);
    MC_CHECK(p.size() == n, "generation", "population of " << p.size());
    uint64_t h = form; for (auto& l : w.log) h = mix(h, hash(l)); state(h);
    for (auto& x : p) MC_CHECK(!x.invalid() && x.fitness() == x[0], "generation", "stale fitness");
    if (form < 3) MC_CHECK(d.v == w.est, "generation", "the given distribution is not the last estimate");
}
MC_SCENARIO("estimate and sample as a transformation")
{
    World w; W = &w;
    unsigned n = range(1, 3); eoPop<R> p; double want = 0;
    for (unsigned i = 0; i < n; ++i) { R r(1, double(choose(2))); r.fitness(9); p.push_back(r); want = want * 10 + r[0] + 1; }
    Est est; Sam sam; Dist d;
    edoTransformAdaptive<Dist> a(d, est, sam); edoTransformStateless<Dist> s(est, sam);
    bool which = flag();
    if (which) a(p); else s(p);
    state(mix(n, uint64_t(want)));
    MC_CHECK(p.size() == n && w.samples == n && w.estimates == 1, "transformation", p.size() << " points, " << w.samples << " samples");
    for (auto& l : w.log) MC_CHECK(l == "estimate " + std::to_string(int(want)) || l == "sample " + std::to_string(int(want)), "transformation", l);
    for (auto& x : p) MC_CHECK(x.invalid(), "transformation", "stale fitness");
    if (which) MC_CHECK(d.v == want, "transformation", "distribution");
}
// simulated annealing inside a distribution
template <class F> struct Annealing
{
    typedef eoReal<F> P;
    struct D : edoDistrib<P> { double v; D(double x = 0) : v(x) {} unsigned size() const { return 1; } };
    struct E : edoEstimator<D> { D operator()(eoPop<P>& p) { return D(double(p.size())); } };
    struct S1 : eoSelect<P> { void operator()(const eoPop<P>& a, eoPop<P>& b) { b = a; } };
    struct One : eoSelectOne<P> { const P& operator()(const eoPop<P>& p) { return p[choose(uint32_t(p.size()))]; } };
    struct Mod : edoModifierMass<D> { double got = -1; void operator()(D& d, P& x) { got = x[0]; d.v = 100 + x[0]; } };
    struct Sm : edoSampler<D> { std::vector<double> out; bool centred = true; double want = 0; P sample(D& d) { centred = centred && d.v == want; P r; r.push_back(pick({0.0, 1.0, 4.0})); out.push_back(r[0]); return r; } };
    struct Ev : eoEvalFunc<P> { void operator()(P& x) { x.fitness(F(x[0])); } };
    struct SA : moContinuator<moDummyNeighbor<P>> { unsigned rounds, k = 0; std::vector<double> seen; SA(unsigned r) : rounds(r) {} void init(P& x) { k = 0; seen.push_back(x[0]); } bool operator()(P& x) { seen.push_back(x[0]); return ++k < rounds; } };
    struct Cool : moCoolingSchedule<P> { std::vector<double> asked; std::vector<bool> moved; double init(P&) { return 3; } void update(double& t, bool m) { t *= 0.5; moved.push_back(m); } bool operator()(double t) { asked.push_back(t); return t > 0.6; } };
    struct Rp : eoReplacement<P> { std::vector<std::vector<double>> got; void operator()(eoPop<P>& a, eoPop<P>& b) { V v; for (auto& x : b) { MC_CHECK(!x.invalid() && double(x.fitness()) == x[0], "annealing", "stale"); v.push_back(x[0]); } got.push_back(v); for (auto& x : b) a.push_back(x); } };
    struct Pc : eoContinue<P> { unsigned asked = 0; bool operator()(const eoPop<P>&) { ++asked; return true; } };
    struct Dc : edoContinue<D> { bool operator()(const D&) { return true; } };
    static void run()
    {
        eoPop<P> pop; P x; x.push_back(pick({0.0, 1.0, 4.0})); x.fitness(F(x[0])); pop.push_back(x);
        double u = pick({0.01, 0.2, 0.5, 0.8, 0.99});
        rng_words({uint32_t(u * 4294967296.0)}, 64);
        unsigned rounds = range(1, 2);
        S1 sel; E est; One one; Mod mod; Sm sam; Ev ev; SA sa(rounds); Cool cool; Rp rep; Pc pc; Dc dc;
        sam.want = 100 + x[0];
        struct Watch : Mod { Sm& s; Watch(Sm& s) : s(s) {} void operator()(D& d, P& y) { Mod::operator()(d, y); s.want = 100 + y[0]; } } watch(sam);
        double T0 = pick({1.0, 4.0});
        edoEDASA<D> algo(sel, est, one, watch, sam, pc, dc, ev, sa, cool, T0, rep);
        algo(pop);
        MC_CHECK(sam.centred, "annealing", "the distribution is not centred on the current point");
        // replay
        double T = T0; size_t s = 0, o = 0, gen = 0;
        while (s < sa.seen.size()) {
            double cur = sa.seen[s++]; V acc;
            for (unsigned k = 0; k < rounds; ++k) {
                double c = sam.out.at(o++);
                bool better = F(c) > F(cur);
                if (better || u < std::exp(-std::fabs(c - cur) / T)) { cur = c; acc.push_back(c); }
                MC_CHECK(sa.seen.at(s) == cur, "acceptance", "temperature " << T << " draw " << u << " candidate " << c << " leaves " << sa.seen[s] << " for " << cur);
                ++s;
            }
            MC_CHECK(gen < rep.got.size() && rep.got[gen] == acc, "accepted points", show(acc));
            T *= 0.5;
            MC_CHECK(gen < cool.asked.size() && close(cool.asked[gen], T, 1e-9), "temperature", "the stopping rule does not see the cooled temperature");
            ++gen;
            state(mix(mix(gen, uint64_t(cur * 8)), uint64_t(T * 1000 + u * 100)));
        }
        MC_CHECK(T <= 0.6 && pc.asked + 1 == gen, "stopping", "after " << gen << " rounds");
    }
};
MC_SCENARIO("annealing with a distribution, maximising") { Annealing<double>::run(); }
MC_SCENARIO("annealing with a distribution, minimising") { Annealing<eoMinimizingFitness>::run(); }
