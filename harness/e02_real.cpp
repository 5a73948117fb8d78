// E02: real-valued and evolution-strategy operators.
#include "common.hpp"
#include <es/eoEsGlobalXover.h>
#include <es/eoEsStandardXover.h>
#include <es/eoRealAtomXover.h>
#include <DTLZ/src/SBXCrossover.h>
#include <DTLZ/src/PolynomialMutation.h>
using namespace mc;

static const std::vector<double> GRID = {-1.0, 0.0, 0.5, 2.0};
static Real any_real(unsigned n, double f) { Real r; for (unsigned i = 0; i < n; ++i) r.push_back(pick(GRID)); r.fitness(f); return r; }
static std::vector<double> g(const Real& r) { return std::vector<double>(r.begin(), r.end()); }
static const double TOL = 1e-9;
static bool inside(double x, double lo, double hi) { return x >= lo - TOL && x <= hi + TOL; }
// six words: both ends, near the ends, middle values
static const std::vector<uint32_t> W = {0u, 0x30000000u, 0x7FFFFFFFu, 0x80000001u, 0xC0000000u, 0xFFFFFFFFu};
static const std::vector<uint32_t> W4 = {0u, 0x40000000u, 0xB0000000u, 0xFFFFFFFFu};

// kinds of bounds around [-1,2]: none, interval, one-sided, mixed
struct B
{
    eoRealVectorBounds* b; std::vector<double> lo, hi;
    static double inf() { return 1e300; }
    B(unsigned n, uint32_t kind)
    {
        std::vector<eoRealBounds*> v;
        for (unsigned i = 0; i < n; ++i) {
            uint32_t k = kind == 4 ? i % 2 + 1 : kind;
            if (k == 0) { v.push_back(new eoRealNoBounds); lo.push_back(-inf()); hi.push_back(inf()); }
            if (k == 1) { v.push_back(new eoRealInterval(-1, 2)); lo.push_back(-1); hi.push_back(2); }
            if (k == 2) { v.push_back(new eoRealBelowBound(-1)); lo.push_back(-1); hi.push_back(inf()); }
            if (k == 3) { v.push_back(new eoRealAboveBound(2)); lo.push_back(-inf()); hi.push_back(2); }
        }
        b = new eoRealVectorBounds; for (auto p : v) b->push_back(p);
        own = v;
    }
    ~B() { delete b; for (auto p : own) delete p; }
    std::vector<eoRealBounds*> own;
    bool in(const std::vector<double>& x) const
    {
        for (size_t i = 0; i < x.size(); ++i) if (!std::isfinite(x[i]) || !inside(x[i], lo[i], hi[i])) return false;
        return true;
    }
};

MC_SCENARIO("uniform-mutation")
{
    unsigned n = range(1, 2);
    double eps = pick({0.25, 4.0}), p = pick({0.0, 0.5, 1.0});
    uint32_t form = choose(3);
    B bb(n, form == 0 ? 0 : choose(5));
    std::vector<double> ve(n, eps), vp(n, p);
    eoUniformMutation<Real>* op = form == 0 ? new eoUniformMutation<Real>(eps, p)
                                : form == 1 ? new eoUniformMutation<Real>(*bb.b, eps, p) : new eoUniformMutation<Real>(*bb.b, ve, vp);
    Real a = any_real(n, 5);
    rng_words(W, 8);
    forall([&] {
        Real x = a;
        bool c = (*op)(x);
        MC_CHECK(x.size() == n, "uniform-mutation:size", show(x));
        MC_CHECK(c || g(x) == g(a), "uniform-mutation:flag", show(a) << show(x));
        MC_CHECK(bb.in(g(x)), "uniform-mutation:bounds", show(a) << " -> " << show(x) << " eps " << eps << " form " << form);
        if (form != 1) for (unsigned i = 0; i < n; ++i) MC_CHECK(std::fabs(x[i] - a[i]) <= eps + TOL, "uniform-mutation:range", show(a) << " -> " << show(x) << " eps " << eps);
        MC_CHECK(p > 0 || g(x) == g(a), "uniform-mutation:rate", "rate 0 changed " << show(a) << " to " << show(x));
        state(mix(hashv(a), hashv(x)));
    });
    delete op;
}
MC_SCENARIO("det-uniform-mutation")
{
    unsigned n = range(1, 2), k = range(1, 2);
    double eps = pick({0.25, 4.0});
    uint32_t form = choose(3);
    B bb(n, form == 0 ? 0 : choose(5));
    std::vector<double> ve(n, eps);
    eoDetUniformMutation<Real>* op = form == 0 ? new eoDetUniformMutation<Real>(eps, k)
                                   : form == 1 ? new eoDetUniformMutation<Real>(*bb.b, eps, k) : new eoDetUniformMutation<Real>(*bb.b, ve, k);
    Real a = any_real(n, 5);
    rng_words(W, 8);
    std::set<unsigned> touched;
    forall([&] {
        Real x = a;
        bool c = (*op)(x);
        MC_CHECK(x.size() == n, "det-uniform-mutation:size", show(x));
        MC_CHECK(c || g(x) == g(a), "det-uniform-mutation:flag", show(a) << show(x));
        MC_CHECK(bb.in(g(x)), "det-uniform-mutation:bounds", show(a) << " -> " << show(x) << " eps " << eps << " form " << form);
        if (form == 0) for (unsigned i = 0; i < n; ++i) MC_CHECK(std::fabs(x[i] - a[i]) <= k * eps + TOL, "det-uniform-mutation:range", show(a) << " -> " << show(x) << " eps " << eps);
        unsigned d = 0;
        for (unsigned i = 0; i < n; ++i) if (x[i] != a[i]) ++d, touched.insert(i);
        MC_CHECK(d <= k, "det-uniform-mutation:count", show(a) << show(x));
        state(mix(hashv(a), hashv(x)));
    });
    MC_CHECK(touched.size() == n, "det-uniform-mutation:unreachable", "some coordinate of " << show(a) << " never changes");
    delete op;
}
MC_SCENARIO("segment-xover")
{
    unsigned n = range(1, 2);
    double alpha = pick({0.0, 0.5});
    uint32_t kind = choose(5);
    B bb(n, kind);
    eoSegmentCrossover<Real> plain(alpha), bounded(*bb.b, alpha);
    Real a = any_real(n, 1), b = any_real(n, 2);
    rng_words(W, 4);
    forall([&] {
        Real x = a, y = b;
        bool c = kind ? bounded(x, y) : plain(x, y);
        MC_CHECK(c || (g(x) == g(a) && g(y) == g(b)), "segment-xover:flag", show(x));
        MC_CHECK(bb.in(g(x)) && bb.in(g(y)), "segment-xover:bounds", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        double f = 0; bool have = false;
        for (unsigned i = 0; i < n; ++i) {
            MC_CHECK(close(x[i] + y[i], a[i] + b[i], 1e-9), "segment-xover:sum", show(x) << show(y));
            double l = std::min(a[i], b[i]), h = std::max(a[i], b[i]), w = h - l;
            MC_CHECK(inside(x[i], l - alpha * w, h + alpha * w), "segment-xover:range", show(a) << " x " << show(b) << " -> " << show(x));
            if (w > 0) {   // one factor for all coordinates: a point on the line
                double fi = (x[i] - b[i]) / (a[i] - b[i]);
                MC_CHECK(!have || close(f, fi, 1e-7), "segment-xover:line", show(a) << " x " << show(b) << " -> " << show(x));
                f = fi; have = true;
            }
        }
        state(mix(mix(hashv(a), hashv(x)), hashv(b)));
    });
}
MC_SCENARIO("hypercube-xover")
{
    unsigned n = range(1, 2);
    double alpha = pick({0.0, 0.5});
    uint32_t kind = choose(5);
    B bb(n, kind);
    eoHypercubeCrossover<Real> plain(alpha), bounded(*bb.b, alpha);
    Real a = any_real(n, 1), b = any_real(n, 2);
    rng_words(W4, 8);
    forall([&] {
        Real x = a, y = b;
        bool c = kind ? bounded(x, y) : plain(x, y);
        MC_CHECK(c || (g(x) == g(a) && g(y) == g(b)), "hypercube-xover:flag", show(x));
        MC_CHECK(bb.in(g(x)) && bb.in(g(y)), "hypercube-xover:bounds", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        for (unsigned i = 0; i < n; ++i) {
            double l = std::min(a[i], b[i]), h = std::max(a[i], b[i]), w = h - l;
            MC_CHECK(inside(x[i], l - alpha * w, h + alpha * w) && inside(y[i], l - alpha * w, h + alpha * w), "hypercube-xover:range", show(a) << " x " << show(b) << " -> " << show(x) << show(y));
        }
        state(mix(mix(hashv(a), hashv(x)), hashv(b)));
    });
}
MC_SCENARIO("real-uniform-xover")
{
    unsigned n = range(1, 3);
    eoRealUXover<Real> op(pick({0.25f, 0.5f}));
    Real a = any_real(n, 1), b = any_real(n, 2);
    rng_grid(4, 8);
    std::set<std::vector<double>> seen;
    forall([&] {
        Real x = a, y = b;
        bool c = op(x, y);
        MC_CHECK(c == (g(x) != g(a)), "real-uniform-xover:flag", show(a) << show(b) << show(x));
        for (unsigned i = 0; i < n; ++i)
            MC_CHECK((x[i] == a[i] && y[i] == b[i]) || (x[i] == b[i] && y[i] == a[i]), "real-uniform-xover:material", show(a) << show(b) << show(x) << show(y));
        seen.insert(g(x));
        state(mix(mix(hashv(a), hashv(x)), hashv(b)));
    });
    for (unsigned m = 0; m < (1u << n); ++m) {
        std::vector<double> e;
        for (unsigned i = 0; i < n; ++i) e.push_back((m >> i) & 1 ? b[i] : a[i]);
        MC_CHECK(seen.count(e), "real-uniform-xover:unreachable", show(a) << " x " << show(b) << " never gives " << show(e));
    }
}
MC_SCENARIO("sbx-xover")
{
    unsigned n = range(1, 2);
    double eta = pick({0.0, 1.0, 5.0});
    uint32_t kind = choose(5);
    B bb(n, kind);
    eoSBXCrossover<Real> plain(eta), bounded(*bb.b, eta);
    Real a = any_real(n, 1), b = any_real(n, 2);
    rng_words(W, 4);
    forall([&] {
        Real x = a, y = b;
        bool c = kind ? bounded(x, y) : plain(x, y);
        MC_CHECK(c || (g(x) == g(a) && g(y) == g(b)), "sbx-xover:flag", show(x));
        MC_CHECK(bb.in(g(x)) && bb.in(g(y)), "sbx-xover:bounds", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        if (!kind) for (unsigned i = 0; i < n; ++i)
            MC_CHECK(std::fabs(x[i] + y[i] - a[i] - b[i]) < 1e-6 * (1 + std::fabs(x[i])), "sbx-xover:mean", show(a) << show(b) << show(x) << show(y));
        for (unsigned i = 0; i < n; ++i) if (a[i] == b[i])
            MC_CHECK(std::fabs(x[i] - a[i]) < 1e-4 && std::fabs(y[i] - a[i]) < 1e-4, "sbx-xover:equal", "equal parents " << a[i] << " gave " << x[i] << "," << y[i]);
        state(mix(mix(hashv(a), hashv(x)), hashv(b)));
    });
}
MC_SCENARIO("sbx-spread")
{
    // the distance of the children over that of the parents follows the published distribution
    double eta = pick({0.0, 1.0, 2.0, 5.0});
    unsigned k = 40;
    eoSBXCrossover<Real> op(eta);
    Real a = any_real(1, 1), b = any_real(1, 2);
    assume(a[0] != b[0]);
    std::vector<double> got, want;
    rng_grid(k, 2);
    forall([&] { Real x = a, y = b; op(x, y); got.push_back(std::fabs(x[0] - y[0]) / std::fabs(a[0] - b[0])); state(mix(hashv(x), hashv(a))); step(); });
    for (unsigned i = 0; i < k; ++i) { double u = (i + 0.5) / k; want.push_back(u <= 0.5 ? std::pow(2 * u, 1 / (eta + 1)) : std::pow(1 / (2 * (1 - u)), 1 / (eta + 1))); }
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    MC_CHECK(got.size() == k, "sbx-spread:draws", got.size() << " outcomes");
    for (unsigned i = 0; i < k; ++i) MC_CHECK(std::fabs(got[i] - want[i]) < 1e-3 * want[i], "sbx-spread", "eta " << eta << ": quantile " << i << " of " << k << " is " << got[i] << " instead of " << want[i]);
}
MC_SCENARIO("bounded-sbx-xover")
{
    unsigned n = range(1, 2);
    double eta = pick({0.0, 1.0, 15.0});
    B bb(n, 1);
    SBXCrossover<Real> op(*bb.b, eta);
    Real a = any_real(n, 1), b = any_real(n, 2);
    rng_words(W, 4);
    forall([&] {
        Real x = a, y = b;
        bool c = op(x, y);
        MC_CHECK(c || (g(x) == g(a) && g(y) == g(b)), "bounded-sbx-xover:flag", show(x));
        MC_CHECK(bb.in(g(x)) && bb.in(g(y)), "bounded-sbx-xover:bounds", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        for (unsigned i = 0; i < n; ++i) {
            if (a[i] == b[i]) MC_CHECK(x[i] == a[i] && y[i] == a[i], "bounded-sbx-xover:equal", "equal parents " << a[i] << " gave " << x[i] << "," << y[i]);
            double m = (a[i] + b[i]) / 2;   // one child on each side of the middle
            MC_CHECK(inside(m, std::min(x[i], y[i]), std::max(x[i], y[i])), "bounded-sbx-xover:sides", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        }
        state(mix(mix(hashv(a), hashv(x)), hashv(b)));
    });
}
MC_SCENARIO("polynomial-mutation")
{
    unsigned n = range(1, 2);
    double eta = pick({0.0, 1.0, 15.0}), p = pick({0.0, 0.5, 1.0});
    B bb(n, 1);
    PolynomialMutation<Real> op(*bb.b, p, eta);
    Real a = any_real(n, 1);
    rng_words(W, 4);
    std::set<size_t> up, down;
    forall([&] {
        Real x = a;
        bool c = op(x);
        MC_CHECK(c || g(x) == g(a), "polynomial-mutation:flag", show(x));
        MC_CHECK(bb.in(g(x)), "polynomial-mutation:bounds", show(a) << " -> " << show(x));
        MC_CHECK(p > 0 || g(x) == g(a), "polynomial-mutation:rate", "rate 0 changed " << show(a) << " to " << show(x));
        for (unsigned i = 0; i < n; ++i) { if (x[i] > a[i]) up.insert(i); if (x[i] < a[i]) down.insert(i); }
        state(mix(hashv(a), hashv(x)));
    });
    for (unsigned i = 0; i < n; ++i) if (p > 0 && a[i] > -1 && a[i] < 2)
        MC_CHECK(up.count(i) && down.count(i), "polynomial-mutation:unreachable", "coordinate " << i << " of " << show(a) << " moves one way only");
}
MC_SCENARIO("normal-mutation")
{
    unsigned n = range(1, 2);
    uint32_t form = choose(4);
    double sigma = pick({0.5, 3.0}), p = pick({0.0, 0.5, 1.0});
    B bb(n, form % 2 ? choose(5) : 0);
    Real a = any_real(n, 1);
    eoMonOp<Real>* op = 0;
    if (form == 0) op = new eoNormalMutation<Real>(sigma, p);
    if (form == 1) op = new eoNormalMutation<Real>(*bb.b, sigma, p);
    if (form == 2) op = new eoNormalVecMutation<Real>(sigma, p);
    if (form == 3) op = new eoNormalVecMutation<Real>(*bb.b, sigma, p);
    rng_words({0x20000000u, 0x90000000u, 0xE0000000u}, 3 * n + 1);
    forall([&] {
        Real x = a;
        bool c = (*op)(x);
        MC_CHECK(x.size() == n, "normal-mutation:size", show(x));
        MC_CHECK(c || g(x) == g(a), "normal-mutation:flag", show(a) << show(x));
        MC_CHECK(bb.in(g(x)), "normal-mutation:bounds", show(a) << " -> " << show(x));
        MC_CHECK(p > 0 || g(x) == g(a), "normal-mutation:rate", show(a) << show(x));
        state(mix(hashv(a), hashv(x)));
    });
    delete op;
}
// self-adaptive one-fifth mutation evaluates for itself
struct Sum : public eoEvalFunc<Real> { void operator()(Real& r) { if (r.invalid()) { double s = 0; for (double x : r) s += x; r.fitness(s); } } };
MC_SCENARIO("one-fifth-mutation")
{
    unsigned n = range(1, 2);
    Real a = any_real(n, 0); a.invalidate();
    Sum ev;
    if (flag()) ev(a);
    double sigma = 1.0;
    rng_words({0x20000000u, 0x90000000u, 0xE0000000u}, 10);
    double s0 = sigma;
    eoOneFifthMutation<Real> op(ev, sigma, 2, 0.8, 0.2);
    unsigned muts = 0, succ = 0;
    Real x = a;
    for (int k = 0; k < 2; ++k) {
        Real before = x; ev(before);
        bool c = op(x);
        double s = 0; for (double v : x) s += v;
        MC_CHECK(c || (!x.invalid() && close(x.fitness(), s)), "one-fifth:fitness", "fitness " << (x.invalid() ? -1 : x.fitness()) << " for " << show(x));
        ++muts; if (s > before.fitness()) ++succ;
    }
    op.update();
    double expect = double(succ) / muts > 0.2 ? s0 / 0.8 : s0 * 0.8;
    MC_CHECK(close(sigma, expect), "one-fifth:sigma", "sigma " << sigma << " instead of " << expect << " after " << succ << "/" << muts);
    state(mix(hashv(x), succ));
}

// ---- evolution strategies ------------------------------------------------
typedef eoEsSimple<double> Es1; typedef eoEsStdev<double> Es2; typedef eoEsFull<double> Es3;
static std::vector<double> strat(const Es1& e) { return {e.stdev}; }
static std::vector<double> strat(const Es2& e) { return e.stdevs; }
static std::vector<double> strat(const Es3& e) { std::vector<double> r = e.stdevs; r.insert(r.end(), e.correlations.begin(), e.correlations.end()); return r; }
static void setup(Es1& e, unsigned n, double s) { e.stdev = s; }
static void setup(Es2& e, unsigned n, double s) { e.stdevs.assign(n, s); for (unsigned i = 0; i < n; ++i) e.stdevs[i] += i; }
static void setup(Es3& e, unsigned n, double s) { e.stdevs.assign(n, s); for (unsigned i = 0; i < n; ++i) e.stdevs[i] += i; e.correlations.assign(n * (n - 1) / 2, 0.1 * s); }
static unsigned nstd(const Es1&) { return 1; }
static unsigned nstd(const Es2& e) { return e.stdevs.size(); }
static unsigned nstd(const Es3& e) { return e.stdevs.size(); }
template <class E> static E any_es(unsigned n, double s, double f)
{
    E e; for (unsigned i = 0; i < n; ++i) e.push_back(pick({-1.0, 0.5, 2.0}));
    setup(e, n, s); e.fitness(f); return e;
}
template <class E> static std::vector<double> objs(const E& e) { return std::vector<double>(e.begin(), e.end()); }

template <class E> static void es_mutate(const char* who, unsigned nmax)
{
    unsigned n = range(1, nmax);
    uint32_t kind = choose(5);
    B bb(n, kind);
    Mute m;
    static char* argv[] = {(char*)"x", 0};
    eoParser parser(1, argv);
    eoEsMutationInit init(parser);
    eoEsMutate<E> op(init, *bb.b);
    E a = any_es<E>(n, pick({0.3, 2.0, 1e-60}), 3);
    std::string w(who);
    rng_words({0x30000000u, 0xA0000000u}, 40);
    forall([&] {
        E x = a;
        bool c = op(x);
        MC_CHECK(x.size() == n && strat(x).size() == strat(a).size(), w + ":size", show(x));
        MC_CHECK(c || (objs(x) == objs(a) && strat(x) == strat(a)), w + ":flag", show(x));
        MC_CHECK(bb.in(objs(x)), w + ":bounds", show(a) << " -> " << show(x));
        std::vector<double> s = strat(x);
        for (unsigned i = 0; i < s.size(); ++i) {
            MC_CHECK(std::isfinite(s[i]), w + ":finite", show(s));
            if (i < nstd(x)) MC_CHECK(s[i] > 0, w + ":stdev", "step size " << s[i]);
            else MC_CHECK(std::fabs(s[i]) <= M_PI + 1e-9, w + ":angle", s[i]);
        }
        state(mix(hashv(objs(x)), hashv(s)));
    });
}
MC_SCENARIO("es-mutate-simple") { es_mutate<Es1>("es-mutate-simple", 2); }
MC_SCENARIO("es-mutate-stdev") { es_mutate<Es2>("es-mutate-stdev", 2); }
MC_SCENARIO("es-mutate-full") { es_mutate<Es3>("es-mutate-full", tier(2, 3)); }

template <class E> static void es_xover(const char* who)
{
    unsigned n = 2;
    E a = any_es<E>(n, 0.5, 1), b = any_es<E>(n, 3, 2);
    eoDoubleExchange ex; eoDoubleIntermediate im;
    bool e1 = flag(), e2 = flag();
    eoBinOp<double>& o1 = e1 ? (eoBinOp<double>&)ex : im;
    eoBinOp<double>& o2 = e2 ? (eoBinOp<double>&)ex : im;
    eoEsStandardXover<E> op(o1, o2);
    std::string w(who);
    rng_grid(2, 16);
    auto between = [&](double x, double p, double q, bool exch) {
        return exch ? (x == p || x == q) : inside(x, std::min(p, q), std::max(p, q)); };
    forall([&] {
        E x = a, y = b;
        bool c = op(x, y);
        MC_CHECK(objs(y) == objs(b) && strat(y) == strat(b), w + ":const", "read-only operand changed");
        MC_CHECK(c || (objs(x) == objs(a) && strat(x) == strat(a)), w + ":flag", show(a) << show(x));
        for (unsigned i = 0; i < n; ++i) MC_CHECK(between(x[i], a[i], b[i], e1), w + ":material", show(a) << show(b) << show(x));
        std::vector<double> sx = strat(x), sa = strat(a), sb = strat(b);
        MC_CHECK(sx.size() == sa.size(), w + ":size", sx.size());
        for (unsigned i = 0; i < sx.size(); ++i) MC_CHECK(between(sx[i], sa[i], sb[i], e2), w + ":strategy", show(sa) << show(sb) << show(sx));
        state(mix(hashv(objs(x)), hashv(sx)));
    });
}
MC_SCENARIO("es-xover-simple") { es_xover<Es1>("es-xover-simple"); }
MC_SCENARIO("es-xover-stdev") { es_xover<Es2>("es-xover-stdev"); }
MC_SCENARIO("es-xover-full") { es_xover<Es3>("es-xover-full"); }

template <class E> static void es_global(const char* who)
{
    unsigned n = 2;
    std::string w(who);
    bool e1 = flag(), e2 = flag();
    eoPop<E> pop;
    for (int k = 0; k < 2; ++k) { E e; for (unsigned i = 0; i < n; ++i) e.push_back(10 * k + i); setup(e, n, 0.5 + k); e.fitness(k); pop.push_back(e); }
    eoDoubleExchange ex; eoDoubleIntermediate im;
    eoBinOp<double>& o1 = e1 ? (eoBinOp<double>&)ex : im;
    eoBinOp<double>& o2 = e2 ? (eoBinOp<double>&)ex : im;
    eoEsGlobalXover<E> op(o1, o2);
    rng_grid(2, 60);
    if (nstd(pop[0]) != 1 && e1 && e2) { rng_deviate(2, tier(4, 6), 40, 1); }
    forall([&] {
        eoPop<E> src = pop, dst;
        eoSequentialSelect<E> sel; eoSelectivePopulator<E> it(src, dst, sel);
        op(it);
        E x = *it;
        MC_CHECK(x.invalid(), w + ":stale", "offspring still carries a fitness");
        for (unsigned k = 0; k < 2; ++k) MC_CHECK(objs(src[k]) == objs(pop[k]) && strat(src[k]) == strat(pop[k]) && !src[k].invalid(), w + ":source", "parents changed");
        std::vector<double> s = strat(x);
        for (unsigned i = 0; i < n; ++i) MC_CHECK(e1 ? (x[i] == pop[0][i] || x[i] == pop[1][i]) : inside(x[i], pop[0][i], pop[1][i]), w + ":material", show(x));
        for (unsigned i = 0; i < s.size(); ++i) {
            double p = strat(pop[0])[i], q = strat(pop[1])[i];
            MC_CHECK(e2 ? (s[i] == p || s[i] == q) : inside(s[i], p, q), w + ":strategy", show(s));
        }
        state(mix(hashv(objs(x)), hashv(s)));
    });
}
MC_SCENARIO("es-global-simple") { es_global<Es1>("es-global-simple"); }
MC_SCENARIO("es-global-stdev") { es_global<Es2>("es-global-stdev"); }
MC_SCENARIO("es-global-full") { es_global<Es3>("es-global-full"); }
