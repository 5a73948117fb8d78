// Covariance matrix adaptation: strategy parameters, sampling, adaptation.
#include "e17.hpp"
#include <es/CMAParams.h>
#include <es/CMAState.h>
#include <es/eoCMABreed.h>
#include <es/eoCMAInit.h>
#include <es/eoReal.h>
#include <utils/eoRNG.h>
typedef std::vector<double> V; typedef std::vector<V> Mat;
static bool near(double a, double b, double scale = 0, double eps = 1e-7) { return std::fabs(a - b) <= eps * std::max({std::fabs(a), std::fabs(b), scale}); }

// ---- what the literature says ----
struct P { unsigned n, lambda, mu; V w; double mueff, cs, cc, ccov, damp; V mins, inits; };
static P reference(unsigned n, unsigned maxgen, unsigned lambda, unsigned mu, int weighting)
{
    P p; p.n = n; p.lambda = lambda; p.mu = mu; double sum = 0, sq = 0;
    for (unsigned i = 0; i < mu; ++i) { p.w.push_back(weighting == 1 ? 1 : weighting == 2 ? double(mu - i) : std::log((mu + 1.) / (i + 1.))); sum += p.w[i]; }
    for (double& x : p.w) { x /= sum; sq += x * x; }
    p.mueff = 1 / sq; p.cs = (p.mueff + 2) / (n + p.mueff + 3); p.cc = 4. / (n + 4);
    double one = 2 / std::pow(n + 1.4142, 2), rest = std::min(1., (2 * p.mueff - 1) / (std::pow(n + 2., 2) + p.mueff)); p.ccov = one / p.mueff + (1 - 1 / p.mueff) * rest;
    p.damp = 1 + std::max(0.3, 1 - double(n) / maxgen) * (1 + 2 * std::max(0., std::sqrt((p.mueff - 1) / (n + 1)) - 1)) / p.cs;
    p.mins.assign(n, 0); p.inits.assign(n, 0.3); return p;
}
static void eigen(Mat a, V& ev, Mat& q)   // cyclic rotations
{
    size_t n = a.size(); q.assign(n, V(n, 0)); for (size_t i = 0; i < n; ++i) q[i][i] = 1;
    for (int sweep = 0; sweep < 60; ++sweep) for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (a[i][j] != 0)
    {
        double t = 0.5 * std::atan2(2 * a[i][j], a[j][j] - a[i][i]), c = std::cos(t), s = std::sin(t);
        for (size_t k = 0; k < n; ++k) { double x = a[k][i], y = a[k][j]; a[k][i] = c * x - s * y; a[k][j] = s * x + c * y; }
        for (size_t k = 0; k < n; ++k) { double x = a[i][k], y = a[j][k]; a[i][k] = c * x - s * y; a[j][k] = s * x + c * y; }
        for (size_t k = 0; k < n; ++k) { double x = q[k][i], y = q[k][j]; q[k][i] = c * x - s * y; q[k][j] = s * x + c * y; }
        a[i][j] = a[j][i] = 0;
    }
    ev.clear(); for (size_t i = 0; i < n; ++i) ev.push_back(a[i][i]);
}
struct Ref
{
    P p; V mean, pc, ps; double sigma; Mat C, S; std::vector<double> past;      // S: the covariance samples are drawn with
    Ref(const P& q, const V& m, double s) : p(q), mean(m), pc(q.n, 0), ps(q.n, 0), sigma(s), C(q.n, V(q.n, 0))
    { double t = 0; for (double x : p.inits) t += x * x; for (unsigned i = 0; i < p.n; ++i) C[i][i] = p.inits[i] * p.inits[i] * p.n / t; S = C; }
    void step(const std::vector<V>& pop, double best, double worst)
    {
        unsigned n = p.n; V old = mean, y(n), z(n, 0), ev; Mat q; eigen(S, ev, q);
        for (unsigned i = 0; i < n; ++i) { mean[i] = 0; for (unsigned k = 0; k < p.mu; ++k) mean[i] += p.w[k] * pop[k][i]; y[i] = std::sqrt(p.mueff) * (mean[i] - old[i]) / sigma; }
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { double r = 0; for (unsigned k = 0; k < n; ++k) r += q[i][k] * q[j][k] / std::sqrt(ev[k]); z[i] += r * y[j]; }
        double norm = 0, chi = std::sqrt(double(n)) * (1 - 1 / (4. * n) + 1 / (21. * n * n)); for (unsigned i = 0; i < n; ++i) { ps[i] = (1 - p.cs) * ps[i] + std::sqrt(p.cs * (2 - p.cs)) * z[i]; norm += ps[i] * ps[i]; }
        past.push_back(best); size_t g = past.size();
        double ratio = std::sqrt(norm / (1 - std::pow(1 - p.cs, 2. * g))) / chi, limit = 1.5 + 1 / (n - 0.5); assume(std::fabs(ratio - limit) > 1e-9); bool h = ratio < limit; note(h ? "path updated" : "path stalled");
        for (unsigned i = 0; i < n; ++i) pc[i] = (1 - p.cc) * pc[i] + (h ? std::sqrt(p.cc * (2 - p.cc)) * y[i] : 0);
        if (g > 3)
        {
            auto worse = [&](double a, double b) { return best < worst ? a > b : a < b; };
            if (norm / n > 1.5 + 10 * std::sqrt(2. / n) && (best == worst || (worse(best, past[g - 2]) && worse(best, past[g - 3])))) { double f = std::sqrt((1 + std::max(0., std::log(norm / n))) * n / norm); for (double& x : ps) x *= f; norm *= f * f; note("momentum removed"); }
        }
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j)
        {
            double r = 0; for (unsigned k = 0; k < p.mu; ++k) r += p.w[k] * (pop[k][i] - old[i]) * (pop[k][j] - old[j]) / (sigma * sigma);
            C[i][j] = (1 - p.ccov) * C[i][j] + p.ccov / p.mueff * (pc[i] * pc[j] + (h ? 0 : p.cc * (2 - p.cc) * C[i][j])) + p.ccov * (1 - 1 / p.mueff) * r;
        }
        sigma *= std::exp((std::sqrt(norm) / chi - 1) / p.damp);
        for (unsigned i = 0; i < n; ++i) if (sigma * std::sqrt(C[i][i]) < p.mins[i]) { sigma *= std::exp(0.05 + 1 / p.damp); note("too small a deviation"); break; }
        if (best == worst) sigma *= std::exp(0.2 + 1 / p.damp);
    }
};
// ---- what the samples say: they are mean + M z with the normal deviates z the generator gives ----
struct Seen { V mean; Mat cov; };
static Seen look(const eo::CMAState& s, unsigned n)
{
    std::vector<V> z(n + 1, V(n)), v(n + 1); rng_fixed(11); eo::rng.clearCache(); for (auto& r : z) for (double& x : r) x = eo::rng.normal();
    rng_fixed(11); eo::rng.clearCache(); for (auto& x : v) { s.sample(x); MC_CHECK(x.size() == n, "size of a sample", x.size() << " variables instead of " << n); } eo::rng.clearCache();
    Mat a(n, V(2 * n)); for (unsigned k = 0; k < n; ++k) for (unsigned i = 0; i < n; ++i) { a[k][i] = z[k + 1][i] - z[0][i]; a[k][n + i] = v[k + 1][i] - v[0][i]; }
    for (unsigned c = 0; c < n; ++c)
    {
        unsigned b = c; for (unsigned k = c; k < n; ++k) if (std::fabs(a[k][c]) > std::fabs(a[b][c])) b = k; std::swap(a[c], a[b]);
        for (unsigned k = 0; k < n; ++k) if (k != c) { double f = a[k][c] / a[c][c]; for (unsigned i = 0; i < 2 * n; ++i) a[k][i] -= f * a[c][i]; }
    }
    Seen r; r.cov.assign(n, V(n, 0)); r.mean = v[0];
    auto m = [&](unsigned i, unsigned j) { return a[j][n + i] / a[j][j]; };
    for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) { r.mean[i] -= m(i, j) * z[0][j]; for (unsigned k = 0; k < n; ++k) r.cov[i][k] += m(i, j) * m(k, j); } }
    return r;
}
static void compare(const Seen& s, const V& mean, const Mat& cov, double sigma, const std::string& what)
{
    for (size_t i = 0; i < mean.size(); ++i)
    {
        double spread = sigma * std::sqrt(cov[i][i]); MC_CHECK(near(s.mean[i], mean[i], spread), "mean", what << ": samples are centred on " << s.mean[i] << " instead of " << mean[i] << " in coordinate " << i);
        for (size_t j = 0; j < mean.size(); ++j) MC_CHECK(near(s.cov[i][j], sigma * sigma * cov[i][j], spread * sigma * std::sqrt(cov[j][j])), "covariance", what << ": samples have covariance " << s.cov[i][j] << " instead of " << sigma * sigma * cov[i][j] << " between coordinates " << i << " and " << j);
    }
}
static Args arguments(unsigned n, int lambda, int mu, int weighting)
{
    Args a; a.set("dimensionality", std::to_string(n)); if (lambda >= 0) a.set("lambda", std::to_string(lambda)); if (mu >= 0) a.set("mu", std::to_string(mu)); if (weighting >= 0) a.set("weighting", std::to_string(weighting)); return a;
}
static void same(const eo::CMAParams& c, const P& p, const std::string& what)
{
    MC_CHECK(c.n == p.n && c.lambda == p.lambda && c.mu == p.mu, "sizes", what << ": n=" << c.n << " lambda=" << c.lambda << " mu=" << c.mu << " instead of " << p.lambda << ", " << p.mu);
    MC_CHECK(c.weights.size() == p.w.size(), "weights", what << ": " << c.weights.size() << " weights for " << p.mu << " parents"); for (unsigned i = 0; i < p.mu; ++i) MC_CHECK(near(c.weights[i], p.w[i]), "weights", what << ": weight " << i << " is " << c.weights[i] << " instead of " << p.w[i]);
    MC_CHECK(near(c.mueff, p.mueff) && near(c.mucov, p.mueff), "effective mu", what << ": " << c.mueff << ", " << c.mucov << " instead of " << p.mueff);
    MC_CHECK(near(c.ccumsig, p.cs) && near(c.ccumcov, p.cc) && near(c.ccov, p.ccov) && near(c.damp, p.damp), "rates", what << ": " << c.ccumsig << ", " << c.ccumcov << ", " << c.ccov << ", " << c.damp << " instead of " << p.cs << ", " << p.cc << ", " << p.ccov << ", " << p.damp);
    MC_CHECK(c.minStdevs.size() == p.n && c.initialStdevs.size() == p.n, "deviations", what << ": " << c.minStdevs.size() << " and " << c.initialStdevs.size() << " of them"); for (unsigned i = 0; i < p.n; ++i) MC_CHECK(c.minStdevs[i] == p.mins[i] && c.initialStdevs[i] == p.inits[i], "deviations", what << ": " << c.minStdevs[i] << " and " << c.initialStdevs[i] << " instead of " << p.mins[i] << " and " << p.inits[i] << " for coordinate " << i);
}
static unsigned usual(unsigned n) { return 4 + unsigned(3 * std::log(double(n))); }
static V filled(const V& given, unsigned n) { V r; for (unsigned i = 0; i < n; ++i) r.push_back(given[std::min<size_t>(i, given.size() - 1)]); return r; }
static std::string list(const V& v) { std::ostringstream o; o << v.size(); for (double x : v) o << "," << x; return o.str(); }

MC_SCENARIO("strategy parameters")
{
    quiet(); rng_off(); Silent silent; unsigned n = range(1, tier(12, 40)); int lambda = pick({-1, 0, 1, 2, 3, 7, 40}), mu = pick({-1, 1, 2, 3, 6, 20, 50}), weighting = pick({-1, 0, 1, 2}), gens = pick({-1, 2, 10, 1000}); bool byCode = choose(2);
    Args a = arguments(n, lambda, mu, weighting); if (byCode) a.text.erase(a.text.begin() + 1); if (gens > 0) a.set("max-gen", std::to_string(gens));
    eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser, byCode ? n : 0);
    unsigned l = lambda < 2 ? usual(n) : unsigned(lambda), m = mu < 0 ? usual(n) / 2 : unsigned(mu); if (m >= l) m = l / 2;
    same(c, reference(n, gens > 0 ? gens : 1000, l, m, weighting), a.str()); mc::state(mc::hash(a.str()));
}
MC_SCENARIO("smallest and initial deviations")
{
    quiet(); rng_off(); Silent silent; unsigned n = range(1, 4); int what = int(choose(3)); V mins, inits; const V menu{0.5, 0.125, 2};
    auto some = [&] { V v; for (int k = range(1, 4); k > 0; --k) v.push_back(pick(menu)); return v; };
    Args a = arguments(n, -1, -1, -1); P p = reference(n, 1000, usual(n), usual(n) / 2, 0);
    if (what != 1) { mins = some(); a.set("min-stdev", list(mins)); p.mins = filled(mins, n); } if (what != 0) { inits = some(); a.set("init-stdev", list(inits)); p.inits = filled(inits, n); }
    if (what == 2) assume(mins.size() < 3 && inits.size() < 3);
    eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser); same(c, p, a.str());
    // the initial deviations fix the shape, the step size the average variance
    V at(n); for (unsigned i = 0; i < n; ++i) at[i] = 3. * i - 1; double s = pick({1., 0.25}); eo::CMAState state(c, at, s); Ref r(p, at, s); compare(look(state, n), at, r.C, s, a.str() + "at the start");
    double t = 0; for (unsigned i = 0; i < n; ++i) t += r.C[i][i]; MC_CHECK(near(t, n), "reference", "trace " << t); mc::state(mc::hash(a.str()));
}
MC_SCENARIO("defaults in code")
{
    quiet(); rng_off(); unsigned n = range(1, 20), gens = pick({1, 10, 1000}); alignas(eo::CMAParams) unsigned char memory[sizeof(eo::CMAParams)]; std::memset(memory, int(pick({0, 0x40, 0x7f})), sizeof memory);
    eo::CMAParams* c = new (memory) eo::CMAParams; c->defaults(n, gens); same(*c, reference(n, gens, usual(n), usual(n) / 2, 0), "defaults for " + std::to_string(n) + " variables"); c->~CMAParams(); mc::state(n * 3 + gens);
}
// every sequence of parents over a grid
static void history(unsigned n, unsigned mu, unsigned gens, const V& grid, const std::vector<std::pair<double, double>>& ends, bool lazy)
{
    quiet(); Silent silent; rng_off(); int weighting = mu == 1 ? 0 : int(choose(3)); Args a = arguments(n, int(2 * mu + 1), int(mu), weighting); eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser); P p = reference(n, 1000, 2 * mu + 1, mu, weighting);
    bool uneven = n > 1 && choose(2); if (uneven) for (unsigned i = 0; i < n; ++i) c.initialStdevs[i] = p.inits[i] = i + 1; double smallest = pick({0., 3.}); if (smallest > 0) { c.minStdevs[n - 1] = p.mins[n - 1] = smallest; }
    V at(n); for (unsigned i = 0; i < n; ++i) at[i] = 0.75 - i; double s = 0.5; Ref r(p, at, s); eo::CMAState state(c, at, s); std::ostringstream log; log << a.str();
    for (unsigned g = 0; g < gens; ++g)
    {
        std::vector<V> pop(mu, V(n)); std::vector<const V*> ptr; for (auto& x : pop) { for (double& y : x) y = pick(grid); ptr.push_back(&x); log << show(x); }
        auto e = pick(ends); log << " best " << e.first << " worst " << e.second << "; ";
        eo::CMAState before(state); Seen was = look(before, n);
        state.reestimate(ptr, e.first, e.second); r.step(pop, e.first, e.second); bool update = !lazy || choose(2);
        if (update) { MC_CHECK(state.updateEigenSystem(10), "eigen system", log.str() << ": not found"); r.S = r.C; }
        Seen is = look(before, n); MC_CHECK(is.mean == was.mean && is.cov == was.cov, "copy", log.str() << ": a copy follows the original");
        compare(look(state, n), r.mean, r.S, r.sigma, log.str()); before = state; Seen now = look(before, n), orig = look(state, n); MC_CHECK(now.mean == orig.mean && now.cov == orig.cov, "assignment", log.str() << ": the copy differs"); mc::state(mc::hash(log.str()));
    }
}
MC_SCENARIO("adaptation to one parent") { history(1, 1, tier(3, 4), {-1, 0.5, 0.75, 6}, {{1, 2}, {1, 1}}, true); }
MC_SCENARIO("adaptation to two parents") { history(2, 2, tier(1, 2), tier(V{-2, 0, 0.5, 3}, V{-2, 0, 3}), {{1, 2}}, true); }
MC_SCENARIO("two generations in the plane") { history(2, 2, 2, {-1, 3}, {{1, 2}, {1, 1}}, true); }
MC_SCENARIO("adaptation in space") { history(3, 2, 1, {-2, 0.5, 1}, {{1, 2}}, false); }
MC_SCENARIO("adaptation to three parents") { history(2, 3, 1, {-2, 0.5, 1}, {{1, 2}}, false); }
MC_SCENARIO_T("two generations in space") { history(3, 2, 2, {-2, 1}, {{1, 2}}, false); }
// longer histories: far and near parents, getting better and worse, both directions
MC_SCENARIO("long histories")
{
    quiet(); Silent silent; rng_off(); unsigned n = range(1, 2), gens = tier(5, 6); bool maximise = choose(2); Args a = arguments(n, 4, 2, -1); eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser); P p = reference(n, 1000, 4, 2, 0); V at(n, 0.25); Ref r(p, at, 1); eo::CMAState state(c, at, 1); std::ostringstream log; log << a.str();
    for (unsigned g = 0; g < gens; ++g)
    {
        unsigned move = choose(2), fit = choose(4); double step = move == 0 ? 0.3 : 12; std::vector<V> pop(2, V(n)); for (unsigned k = 0; k < 2; ++k) for (unsigned i = 0; i < n; ++i) pop[k][i] = r.mean[i] + r.sigma * step * (k ? 0.75 : 1) * (i == 0 ? 1 : k ? -0.25 : 0.5);
        double best = fit < 3 ? fit : 2, worst = fit == 3 ? best : maximise ? -5 : 9; log << (move ? "far " : "near ") << best << "/" << worst << "; "; std::vector<const V*> ptr{&pop[0], &pop[1]};
        state.reestimate(ptr, best, worst); r.step(pop, best, worst); MC_CHECK(state.updateEigenSystem(10), "eigen system", log.str() << ": not found"); r.S = r.C;
    }
    compare(look(state, n), r.mean, r.S, r.sigma, log.str()); mc::state(mc::hash(log.str()));
}
// a coordinate so large that the step size is lost in its rounding: the step size grows until it is not
MC_SCENARIO("a coordinate out of scale")
{
    quiet(); Silent silent; rng_off(); unsigned n = range(1, 3), gens = range(1, 30); unsigned stuck = choose(n); bool all = choose(2); int weighting = 1; unsigned mu = pick({1u, 2u}); Args a = arguments(n, 4, mu, weighting); eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser); P p = reference(n, 1000, 4, mu, weighting);
    V at(n, 0); for (unsigned i = 0; i < n; ++i) if (all || i == stuck) at[i] = 1e17; eo::CMAState state(c, at, 1); double sigma = 1; V C(n, 1); std::vector<V> pop(mu, at); std::vector<const V*> ptr; for (auto& x : pop) ptr.push_back(&x);
    for (unsigned g = 0; g < gens; ++g)
    {
        V d = C; for (double& x : d) x = std::sqrt(x); state.reestimate(ptr, 1, 2); MC_CHECK(state.updateEigenSystem(10), "eigen system", "not found");
        for (double& x : C) x *= 1 - p.ccov; sigma *= std::exp(-1 / p.damp);
        for (unsigned i = 0; i < n; ++i) if (at[i] == at[i] + 0.1 * sigma * d[i]) sigma *= std::exp(0.2 + 1 / p.damp);
        bool issue = false; for (unsigned i = 0; i < n; ++i) if (at[i] == at[i] + 0.2 * sigma * std::sqrt(C[i])) { C[i] *= 1 + p.ccov; issue = true; } if (issue) sigma *= std::exp(0.05 + 1 / p.damp);
    }
    Seen s = look(state, n); for (unsigned i = 0; i < n; ++i) if (at[i] == 0) MC_CHECK(near(s.mean[i], 0, 1) && near(s.cov[i][i], sigma * sigma * C[i]), "step size", "after " << gens << " generations the variance of coordinate " << i << " of " << n << " is " << s.cov[i][i] << " instead of " << sigma * sigma * C[i]);
    if (gens == 30) { bool moves = false; rng_fixed(5); eo::rng.clearCache(); for (int k = 0; k < 40 && !moves; ++k) { V v; state.sample(v); moves = v[stuck] != 1e17; } MC_CHECK(moves, "stuck", "30 generations later coordinate " << stuck << " of " << n << " still never moves"); }
    mc::state(((n * 31 + gens) * 4 + stuck) * 4 + all * 2 + mu - 1);
}
MC_SCENARIO("limited condition")
{
    quiet(); Silent silent; rng_off(); unsigned n = range(2, 4), small = choose(n); double v = pick({1e-3, 1e-7, 3e-9, 1e-10, 1e-14}); Args a = arguments(n, -1, -1, -1); eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser); P p = reference(n, 1000, usual(n), usual(n) / 2, 0); for (unsigned i = 0; i < n; ++i) c.initialStdevs[i] = p.inits[i] = i == small ? v : 1 + 0.25 * i;
    V at(n, 0); eo::CMAState state(c, at, 1); Ref r(p, at, 1); unsigned times = range(1, 2); for (unsigned k = 0; k < times; ++k) MC_CHECK(state.updateEigenSystem(10), "eigen system", "not found");
    double top = 0; for (unsigned i = 0; i < n; ++i) top = std::max(top, r.C[i][i]); double add = top * std::numeric_limits<double>::epsilon() - r.C[small][small]; if (add > 0) { note("limited"); for (unsigned i = 0; i < n; ++i) r.C[i][i] += add; }
    compare(look(state, n), at, r.C, 1, "deviations of " + show(p.inits)); mc::state(mc::hash(show(p.inits)));
}
// the breeder and the initialiser that wrap the state
template <class F> static void breed()
{
    typedef eoReal<F> T; unsigned n = 2, mu = range(2, 3), lambda = range(int(mu) + 1, 5); Args a = arguments(n, int(lambda), int(mu), -1); eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser); P p = reference(n, 1000, lambda, mu, 0); V at{1, -1}; eo::CMAState state(c, at, 0.5); Ref r(p, at, 0.5);
    eoCMAInit<F> init(state); { rng_fixed(3); eo::rng.clearCache(); eoVector<F, double> v; v.fitness(1); init(v); rng_fixed(3); eo::rng.clearCache(); V w; state.sample(w); MC_CHECK(V(v) == w && v.invalid(), "initialisation", "an initial solution is " << V(v)[0] << (v.invalid() ? "" : ", with a fitness")); }
    eoCMABreed<F> b(state, lambda); std::vector<double> fit{3, 1, 2}; fit.resize(mu); std::sort(fit.begin(), fit.end()); eoPop<eoVector<F, double>> parents, kids; std::vector<std::pair<F, V>> order;
    unsigned perm = choose(mu == 2 ? 2 : 6); for (unsigned k = 0; k < perm; ++k) std::next_permutation(fit.begin(), fit.end());
    for (unsigned k = 0; k < mu; ++k) { eoVector<F, double> v; v.resize(n); v[0] = 1 + 0.5 * k; v[1] = pick({-1., 0.5}); F f = fit[k]; v.fitness(f); parents.push_back(v); order.push_back({f, V(v)}); }
    std::sort(order.begin(), order.end(), [](auto& x, auto& y) { return y.first < x.first; }); std::vector<V> best; for (auto& o : order) best.push_back(o.second);
    unsigned left = choose(3); kids.resize(left * 3, parents[0]); r.step(best, order[0].first, order.back().first); r.S = r.C; auto keep = parents;
    rng_fixed(9); eo::rng.clearCache(); b(parents, kids); MC_CHECK(kids.size() == lambda, "offspring", kids.size() << " offspring instead of " << lambda); for (auto& k : kids) MC_CHECK(k.invalid() && k.size() == n, "offspring", "an offspring carries a fitness or has " << k.size() << " variables");
    for (unsigned k = 0; k < mu; ++k) MC_CHECK(V(parents[k]) == V(keep[k]), "parents", "parent " << k << " changed");
    rng_fixed(9); eo::rng.clearCache(); for (auto& k : kids) { V w; state.sample(w); MC_CHECK(w == V(k), "offspring", "an offspring is not a sample of the adapted distribution"); }
    compare(look(state, n), r.mean, r.S, r.sigma, "after breeding"); mc::state(mc::hash(std::to_string(lambda) + show(fit)));
}
MC_SCENARIO("breeding, maximising") { quiet(); Silent silent; rng_off(); breed<double>(); }
MC_SCENARIO("breeding, minimising") { quiet(); Silent silent; rng_off(); breed<eoMinimizingFitness>(); }
// the order of the parents and the direction of the fitness, over several broods
template <class F> static void broods()
{
    typedef eoVector<F, double> T; unsigned n = 1; Args a = arguments(n, 4, 2, -1); eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser); P p = reference(n, 1000, 4, 2, 0); V at{0.25}; eo::CMAState state(c, at, 1); Ref r(p, at, 1); eoCMABreed<F> b(state, 4); std::ostringstream log;
    for (unsigned g = 0; g < 5; ++g)
    {
        unsigned move = choose(2), fit = choose(3); double step = move ? 12 : 0.3, good = fit == 2 ? 5 : fit, bad = fit == 2 ? 5 : F(9) < F(1) ? 9 : -9; eoPop<T> parents, kids; std::vector<V> order; log << (move ? "far " : "near ") << good << "/" << bad << "; ";
        for (unsigned k = 0; k < 2; ++k) { V v{r.mean[0] + r.sigma * step * (k && good != bad ? 0.75 : 1)}; order.push_back(v); T t; t.resize(1); t[0] = v[0]; t.fitness(F(k ? bad : good)); if (g % 2) parents.push_back(t); else parents.insert(parents.begin(), t); }
        rng_fixed(9); eo::rng.clearCache(); b(parents, kids); r.step(order, good, bad); r.S = r.C;
    }
    compare(look(state, n), r.mean, r.S, r.sigma, log.str()); mc::state(mc::hash(log.str()));
}
MC_SCENARIO("broods, maximising") { quiet(); Silent silent; rng_off(); broods<double>(); }
MC_SCENARIO("broods, minimising") { quiet(); Silent silent; rng_off(); broods<eoMinimizingFitness>(); }
MC_SCENARIO("eigen system not found in time")
{
    quiet(); Silent silent; rng_off(); unsigned n = range(2, 3), tries = range(1, 3); Args a = arguments(n, 5, 2, 1); eoParser parser(a.argc(), a.argv()); eo::CMAParams c(parser); P p = reference(n, 1000, 5, 2, 1); V at(n, 0); eo::CMAState state(c, at, 1); Ref r(p, at, 1); std::vector<V> pop(2, V(n)); for (auto& x : pop) for (double& y : x) y = pick({-1., 0.5, 2.}); std::vector<const V*> ptr{&pop[0], &pop[1]};
    state.reestimate(ptr, 1, 2); r.step(pop, 1, 2); MC_CHECK(state.updateEigenSystem(1), "eigen system", "not found"); V ev; Mat q; eigen(r.C, ev, q); double least = *std::min_element(ev.begin(), ev.end());
    unsigned missed = tries;    // attempts that came to nothing, each followed by a larger addition
    if (state.updateEigenSystem(tries, 1)) { Seen s = look(state, n); double v = r.C[0][0]; for (missed = 0; missed + 1 < tries && !near(s.cov[0][0], r.sigma * r.sigma * v); ++missed) v += least * std::exp(double(missed)); } else note("not found");
    for (unsigned t = 0; t < missed; ++t) for (unsigned i = 0; i < n; ++i) r.C[i][i] += least * std::exp(double(t));
    MC_CHECK(state.updateEigenSystem(1), "eigen system", "not found"); compare(look(state, n), r.mean, r.C, r.sigma, "after " + std::to_string(tries) + " attempts for " + show(pop[0]) + show(pop[1])); mc::state(mc::hash(show(pop[0]) + show(pop[1]), tries));
}
