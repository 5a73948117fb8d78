// E03: selection operators, with exact selection probabilities.
#include "ind.hpp"
#include <utils/eoDistance.h>
#include <eoRankMuSelect.h>
#include <eoRankingCached.h>
#include <eoTruncSelect.h>
#include <eoStochasticUniversalSelect.h>
using namespace mc;

template <class T> static void untouched(const eoPop<T>& p, const std::vector<int>& f, const char* who)
{
    MC_CHECK(p.size() == f.size(), std::string(who) + ":source", "source population resized to " << p.size());
    for (size_t i = 0; i < f.size(); ++i)
        MC_CHECK(p[i].id == int(i) && double(p[i].fitness()) == f[i], std::string(who) + ":source",
                 "selection changed the source population at " << i);
}
template <class T> static size_t index_of(const eoPop<T>& p, const T& r, const char* who)
{
    ptrdiff_t d = &r - &p[0];
    MC_CHECK(&r >= &p[0] && d < ptrdiff_t(p.size()), std::string(who) + ":foreign", "returned an individual that is not in the population");
    return size_t(d);
}
// exact probability of each individual under the current random word menu
template <class T, class Sel>
static std::vector<double> probs(const eoPop<T>& p, Sel sel, const char* who)
{
    std::vector<double> q(p.size(), 0.0);
    double total = 0, lost = 0;
    uint64_t n = forall([&] {
        const T& r = sel();
        q[index_of(p, r, who)] += leaf_prob();
        total += leaf_prob();
        step();
    });
    lost = 1 - total;
    MC_CHECK(n, std::string(who) + ":endless", "selection never ends");
    MC_CHECK(lost < 0.01, std::string(who) + ":endless", "selection does not end with probability " << lost);
    for (auto& x : q) x /= total;
    return q;
}
// `strict`: individuals with equal fitness must be equally likely; otherwise
// only the probability of each fitness value is prescribed
static void same(const std::vector<int>& f, const std::vector<double>& got, const std::vector<double>& want,
                 const char* who, bool strict, double eps = 1e-9)
{
    std::map<int, double> g, w; std::map<int, int> c;
    for (size_t i = 0; i < f.size(); ++i) { g[f[i]] += got[i]; w[f[i]] += want[i]; c[f[i]]++; }
    for (auto& x : g)
        MC_CHECK(std::fabs(x.second - w[x.first]) <= eps, std::string(who) + ":probability",
                 "fitness values " << show(f) << " are selected with probabilities " << show(got) << " instead of " << show(want));
    if (strict)
        for (size_t i = 0; i < f.size(); ++i)
            MC_CHECK(std::fabs(got[i] - w[f[i]] / c[f[i]]) <= eps, std::string(who) + ":unfair",
                     "fitness values " << show(f) << " are selected with probabilities " << show(got));
    state(mix(hash(who), mix(hashv(f), hashv(got))));
}
// a previous generation: selectors keep state between calls
template <class T, class Sel> static void prior(Sel& sel)
{
    if (!flag()) return;
    static const std::vector<std::vector<int>> before = { {3}, {1, 2}, {4, 0, 1, 1, 5} };
    size_t which = choose(3);
    if (which == 0) ++which;                       // some selectors refuse one individual
    eoPop<T> p = make_pop<T>(before[which]);
    int calls = range(0, 3);
    rng_fixed(7);
    sel.setup(p);
    for (int i = 0; i < calls; ++i) sel(p);
}

template <class T> static void det_tournament()
{
    std::vector<int> f = any_fit(1, tier(3, 4), 2);
    unsigned t = range(2, tier(3, 4));
    eoPop<T> p = make_pop<T>(f);
    eoDetTournamentSelect<T> sel(t);
    prior<T>(sel);
    eoNoPerf2Worth<T> plain;
    eoDetTournamentWorthSelect<T, typename T::Fitness> worth(plain, t);
    prior<T>(worth);
    size_t n = f.size();
    std::vector<double> want(n, 0);
    size_t all = 1; for (unsigned i = 0; i < t; ++i) all *= n;
    for (size_t k = 0; k < all; ++k) {
        std::vector<int> best; size_t x = k; int b = -1000;
        for (unsigned i = 0; i < t; ++i, x /= n) b = std::max(b, sign<T>() * f[x % n]);
        for (size_t i = 0; i < n; ++i) if (sign<T>() * f[i] == b) best.push_back(int(i));
        for (int i : best) want[i] += 1.0 / all / best.size();
    }
    rng_grid(unsigned(n), t);
    sel.setup(p);
    same(f, probs(p, [&]() -> const T& { return sel(p); }, "det-tournament"), want, "det-tournament", true);
    // the same on worths
    worth.setup(p);
    same(f, probs(p, [&]() -> const T& { return worth(p); }, "det-tournament-worth"), want, "det-tournament-worth", true);
    untouched(p, f, "det-tournament");
    sample("deterministic tournament on every fitness vector");
}
MC_SCENARIO("det-tournament") { det_tournament<Max>(); }
MC_SCENARIO("det-tournament-min") { det_tournament<Min>(); }

// rate r of keeping the better (or the worse) of two draws with replacement
template <class T> static std::vector<double> two(const std::vector<int>& f, double r, bool distinct)
{
    size_t n = f.size();
    std::vector<double> want(n, 0);
    double w = 1.0 / (distinct ? n * (n - 1) : n * n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            if (distinct && i == j) continue;
            if (f[i] == f[j]) { want[i] += w / 2; want[j] += w / 2; continue; }
            bool iBetter = sign<T>() * f[i] > sign<T>() * f[j];
            want[iBetter ? i : j] += w * r;
            want[iBetter ? j : i] += w * (1 - r);
        }
    return want;
}
template <class T> static void stoch_tournament()
{
    std::vector<int> f = any_fit(1, tier(3, 4), 2);
    double r = pick({0.5, 0.75, 1.0});
    eoPop<T> p = make_pop<T>(f);
    eoStochTournamentSelect<T> sel(r);
    prior<T>(sel);
    eoNoPerf2Worth<T> plain;
    eoStochTournamentWorthSelect<T, typename T::Fitness> worth(plain, r);
    prior<T>(worth);
    rng_grid(12, 4);
    sel.setup(p);
    same(f, probs(p, [&]() -> const T& { return sel(p); }, "stoch-tournament"), two<T>(f, r, false), "stoch-tournament", true);
    const eoPop<T>& cp = p;
    same(f, probs(p, [&]() -> const T& { return stochastic_tournament(cp, r); }, "stoch-tournament-fn"), two<T>(f, r, false), "stoch-tournament-fn", true);
    same(f, probs(p, [&]() -> const T& { return inverse_stochastic_tournament(cp, r); }, "inverse-stoch-tournament"),
         two<T>(f, 1 - r, false), "inverse-stoch-tournament", true);
    same(f, probs(p, [&]() -> const T& { return inverse_stochastic_tournament(p, r); }, "inverse-stoch-tournament"),
         two<T>(f, 1 - r, false), "inverse-stoch-tournament", true);
    worth.setup(p);
    same(f, probs(p, [&]() -> const T& { return worth(p); }, "stoch-tournament-worth"), two<T>(f, r, false), "stoch-tournament-worth", true);
    untouched(p, f, "stoch-tournament");
}
MC_SCENARIO("stoch-tournament") { stoch_tournament<Max>(); }
MC_SCENARIO("stoch-tournament-min") { stoch_tournament<Min>(); }

template <class T> static void inverse_det()
{
    std::vector<int> f = any_fit(2, tier(3, 4), 2);
    eoPop<T> p = make_pop<T>(f);
    rng_grid(unsigned(f.size()), 12);
    same(f, probs(p, [&]() -> const T& { return inverse_deterministic_tournament(p, 2); }, "inverse-det-tournament"),
         two<T>(f, 0, true), "inverse-det-tournament", true, 1e-3);
    untouched(p, f, "inverse-det-tournament");
}
MC_SCENARIO("inverse-det-tournament") { inverse_det<Max>(); }
MC_SCENARIO("inverse-det-tournament-min") { inverse_det<Min>(); }

MC_SCENARIO("proportional")
{
    std::vector<int> f = any_fit(1, 4, tier(2, 4));
    int s = 0; for (int x : f) s += x;
    assume(s > 0);
    eoPop<Max> p = make_pop<Max>(f);
    eoProportionalSelect<Max> sel;
    prior<Max>(sel);
    std::vector<double> want;
    for (int x : f) want.push_back(double(x) / s);
    rng_grid(s, 2);
    sel.setup(p);
    same(f, probs(p, [&]() -> const Max& { return sel(p); }, "proportional"), want, "proportional", true);
    const eoPop<Max>& cp = p;
    same(f, probs(p, [&]() -> const Max& { return roulette_wheel(cp, double(s)); }, "roulette-const"), want, "roulette-const", true);
    same(f, probs(p, [&]() -> const Max& { return roulette_wheel(p, double(s)); }, "roulette"), want, "roulette", true);
    untouched(p, f, "proportional");
    sample("fitness-proportional selection on every fitness vector");
}
MC_SCENARIO("proportional-edges")
{
    // extreme words and fitness values that are not exact in binary
    static const double vals[] = {0.1, 0.2, 0.7, 1e-9, 1e9, 3};
    int n = range(1, tier(3, 4));
    eoPop<Max> p; p.resize(n);
    double s = 0;
    for (auto& x : p) { x.fitness(vals[choose(6)]); s += x.fitness(); }
    eoProportionalSelect<Max> sel;
    sel.setup(p);
    const eoPop<Max>& cp = p;
    eoStochasticUniversalSelect<Max> sus;
    rng_grid_edges(3, 16);
    forall([&] {
        index_of(p, sel(p), "proportional");
        index_of(p, roulette_wheel(cp, s), "roulette-const");
        step(3);
    });
    forall([&] { index_of(p, roulette_wheel(p, s), "roulette"); });
    forall([&] { sus.setup(p); for (int i = 0; i < n; ++i) index_of(p, sus(p), "universal"); step(n); });
}
MC_SCENARIO("nobody is worth anything")
{
    // a total of zero: any member may be drawn, and nothing else
    int n = range(1, tier(3, 4));
    eoPop<Max> p = make_pop<Max>(std::vector<int>(n, 0));
    std::vector<double> worth(n, 0.0), want(n, 1.0 / n);
    std::vector<int> f(n, 0);
    eoProportionalSelect<Max> sel;
    sel.setup(p);
    const eoPop<Max>& cp = p;
    rng_grid(unsigned(n), 4);
    forall([&] { index_of(p, sel(p), "proportional-zero"); step(); });
    same(f, probs(p, [&]() -> const Max& { return roulette_wheel(cp, 0.0); }, "roulette-const-zero"), want, "roulette-const-zero", true);
    same(f, probs(p, [&]() -> const Max& { return roulette_wheel(p, 0.0); }, "roulette-zero"), want, "roulette-zero", true);
    same(f, probs(p, [&]() -> const Max& {
        size_t i = roulette_wheel(worth.begin(), worth.end(), 0.0) - worth.begin();
        MC_CHECK(i < worth.size(), "roulette-worth-zero:outside", "a wheel over " << n << " worthless values gave number " << i);
        return p[i]; }, "roulette-worth-zero"), want, "roulette-worth-zero", true);
    state(mix(7, n));
}
MC_SCENARIO("minimising-refused")
{
    int which = range(0, 1);
    bool thrown = false;
    Mute m; quiet();
    try { if (which) eoProportionalSelect<Min> s; else eoStochasticUniversalSelect<Min> s; }
    catch (std::exception&) { thrown = true; }
    MC_CHECK(thrown, "proportional:minimising", "proportionate selection accepted a minimising fitness");
    step();
}

MC_SCENARIO("universal")
{
    std::vector<int> f = any_fit(1, 4, tier(2, 4));
    int s = 0; for (int x : f) s += x;
    assume(s > 0);
    size_t n = f.size();
    eoPop<Max> p = make_pop<Max>(f);
    eoStochasticUniversalSelect<Max> sel;
    prior<Max>(sel);
    rng_grid(7, 8);
    std::vector<double> mean(n, 0);
    forall([&] {
        sel.setup(p);
        std::vector<int> c(n, 0);
        for (size_t i = 0; i < n; ++i) c[index_of(p, sel(p), "universal")]++;
        for (size_t i = 0; i < n; ++i) {
            double x = double(n) * f[i] / s;
            MC_CHECK(c[i] >= std::floor(x - 1e-9) && c[i] <= std::ceil(x + 1e-9), "universal:spread",
                     "fitness values " << show(f) << " gave the counts " << show(c) << " in one round");
            mean[i] += c[i] * leaf_prob();
        }
        state(mix(hashv(f), hashv(c)));
        step(n);
    });
    untouched(p, f, "universal");
    // exhausting the round starts a new one
    rng_grid(2, 16);
    rng_fixed(5);
    sel.setup(p);
    for (size_t i = 0; i < 2 * n + 1; ++i) index_of(p, sel(p), "universal");
    sample("stochastic universal sampling: counts are the floor or the ceiling of the expected number");
}

template <class T> static std::vector<double> rank_worth(const std::vector<int>& f, double pr, double e)
{
    size_t n = f.size();
    std::vector<size_t> o(n);
    for (size_t i = 0; i < n; ++i) o[i] = i;
    std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return sign<T>() * f[a] > sign<T>() * f[b]; });
    std::vector<double> w(n);
    for (size_t i = 0; i < n; ++i)
        w[o[i]] = (e == 1 ? (2 * pr - 2) / (n * (n - 1)) * (n - i) : (2 * pr - 2) / n * std::pow(double(n - i) / n, e)) + (2 - pr) / n;
    return w;
}
template <class T> static void ranking()
{
    std::vector<int> f = any_fit(2, tier(3, 4), 2);
    double pr = pick({1.5, 2.0}), e = pick({1.0, 2.0});
    eoPop<T> p = make_pop<T>(f);
    eoRankingSelect<T> sel(pr, e);
    eoRankingCached<T> rc(pr, e);
    eoRouletteWorthSelect<T> selc(rc);
    prior<T>(sel);
    prior<T>(selc);
    std::vector<double> w = rank_worth<T>(f, pr, e), want = w;
    double s = 0; for (double x : w) s += x;
    for (double& x : want) x /= s;
    unsigned k = tier(360, 720);
    rng_grid(k, 2);
    sel.setup(p);
    same(f, probs(p, [&]() -> const T& { return sel(p); }, "ranking"), want, "ranking", false, 2.0 / k);
    selc.setup(p);
    same(f, probs(p, [&]() -> const T& { return selc(p); }, "ranking-cached"), want, "ranking-cached", false, 2.0 / k);
    // the worths themselves: higher for the better, the same multiset for both
    eoRanking<T> r(pr, e);
    r(p); rc(p);
    for (auto* v : {&r.value(), &rc.value()}) {
        MC_CHECK(v->size() == f.size(), "ranking:worth", "number of worths");
        std::vector<double> a(*v), b(w);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        for (size_t i = 0; i < f.size(); ++i) {
            MC_CHECK(close(a[i], b[i]), "ranking:worth", "worths " << show(*v) << " for fitness values " << show(f));
            for (size_t j = 0; j < f.size(); ++j)
                MC_CHECK(sign<T>() * f[i] <= sign<T>() * f[j] || (*v)[i] > (*v)[j], "ranking:order", "worths " << show(*v) << " for fitness values " << show(f));
        }
    }
    untouched(p, f, "ranking");
}
MC_SCENARIO("ranking") { ranking<Max>(); }
MC_SCENARIO("ranking-min") { ranking<Min>(); }

template <class T> static void scaling()
{
    std::vector<int> f = any_fit(1, tier(3, 4), 3);
    double pr = pick({1.5, 2.0});
    eoPop<T> p = make_pop<T>(f);
    eoFitnessScalingSelect<T> sel(pr);
    prior<T>(sel);
    size_t n = f.size();
    double avg = 0, best = f[0];
    for (int x : f) { avg += double(x) / n; if (sign<T>() * x > sign<T>() * best) best = x; }
    std::vector<double> want(n);
    double s = 0;
    for (size_t i = 0; i < n; ++i) {      // worth 1 for an average individual, `pr` for the best, in between and below on the same line
        want[i] = best == avg ? 1 : std::max(0.0, 1 + (pr - 1) * (f[i] - avg) / (best - avg));
        s += want[i];
    }
    for (double& x : want) x /= s;
    unsigned k = 240;
    rng_grid(k, 2);
    sel.setup(p);
    same(f, probs(p, [&]() -> const T& { return sel(p); }, "scaling"), want, "scaling", true, 2.0 / k);
    untouched(p, f, "scaling");
}
MC_SCENARIO("linear-scaling") { scaling<Max>(); }
MC_SCENARIO("linear-scaling-min") { scaling<Min>(); }

MC_SCENARIO("sharing")
{
    int n = range(2, 3);
    double sigma = pick({0.5, 1.5, 3.0});
    eoPop<Real> p; p.resize(n);
    std::vector<int> f; std::vector<double> x;
    for (int i = 0; i < n; ++i) {
        f.push_back(range(1, 2)); x.push_back(range(0, 2));
        p[i].assign(1, x[i]); p[i].fitness(f[i]);
    }
    eoQuadDistance<Real> d;
    eoSharingSelect<Real> sel(sigma, d);
    std::vector<double> want(n);
    double s = 0;
    for (int i = 0; i < n; ++i) {
        double m = 0;
        for (int j = 0; j < n; ++j) { double dd = std::fabs(x[i] - x[j]); m += dd > sigma ? 0 : 1 - dd / sigma; }
        want[i] = f[i] / m; s += want[i];
    }
    for (double& w : want) w /= s;
    rng_grid(240, 2);
    sel.setup(p);
    std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i;
    same(id, probs(p, [&]() -> const Real& { return sel(p); }, "sharing"), want, "sharing", true, 2.0 / 240);
}

template <class T> static void sequential()
{
    std::vector<int> f = any_fit(1, tier(4, 4), 2);
    bool ordered = flag();
    size_t n = f.size();
    eoPop<T> p = make_pop<T>(f);
    eoSequentialSelect<T> sel(ordered);
    prior<T>(sel);
    bool set = flag() ;
    rng_grid(n == 4 ? 12 : unsigned(n == 3 ? 6 : 2), 8);
    if (n == 4) rng_words({0x10000000u, 0x50000000u, 0x90000000u, 0xD0000000u}, 8);
    std::map<std::vector<size_t>, double> orders;
    forall([&] {
        eoSequentialSelect<T> s(sel);
        s.setup(p);
        if (set && n > 1) s(p), s.setup(p);
        for (int round = 0; round < 2; ++round) {
            std::vector<size_t> o;
            if (round == 1 && !ordered) rng_fixed(1);
            for (size_t i = 0; i < n; ++i) o.push_back(index_of(p, s(p), "sequential"));
            MC_CHECK(is_perm(o, n), "sequential:all", "one round returned " << show(o));
            if (ordered)
                for (size_t i = 1; i < n; ++i)
                    MC_CHECK(sign<T>() * f[o[i - 1]] >= sign<T>() * f[o[i]], "sequential:order", "fitness values " << show(f) << " were returned in the order " << show(o));
            if (round == 0) orders[o] += leaf_prob();
            step(n);
        }
        if (n == 4) rng_words({0x10000000u, 0x50000000u, 0x90000000u, 0xD0000000u}, 8);
        else rng_grid(unsigned(n == 3 ? 6 : 2), 8);
    });
    if (!ordered && n <= 3) {
        size_t fact = n == 3 ? 6 : n;
        MC_CHECK(orders.size() == fact, "sequential:shuffle", orders.size() << " of " << fact << " orders can occur");
        for (auto& o : orders) MC_CHECK(close(o.second, 1.0 / fact), "sequential:shuffle", "order " << show(o.first) << " has probability " << o.second);
    }
    state(hashv(f));
    untouched(p, f, "sequential");
}
MC_SCENARIO("sequential") { sequential<Max>(); }
MC_SCENARIO("sequential-min") { sequential<Min>(); }

template <class T> static void elites()
{
    std::vector<int> f = any_fit(1, 4, 2);
    size_t n = f.size();
    eoPop<T> p = make_pop<T>(f);
    int best = f[0];
    for (int x : f) if (sign<T>() * x > sign<T>() * best) best = x;
    rng_fixed(3);
    eoEliteSelect<T> e; eoBestSelect<T> b; eoRandomSelect<T> r; eoNoSelect<T> none;
    prior<T>(e);
    e.setup(p); b.setup(p);
    for (int i = 0; i < 3; ++i) {
        size_t x = index_of(p, e(p), "elite"), y = index_of(p, b(p), "best");
        MC_CHECK(f[x] == best, "elite:best", "elite selection returned fitness " << f[x] << " from " << show(f));
        MC_CHECK(f[y] == best, "best:best", "best selection returned fitness " << f[y] << " from " << show(f));
        step(2);
    }
    if (n > 1) {
        rng_grid(unsigned(n), 16);
        uint64_t c = forall([&] {
            eoEliteSequentialSelect<T> s;
            s.setup(p);
            std::vector<size_t> o;
            for (size_t i = 0; i < n; ++i) o.push_back(index_of(p, s(p), "elite-sequential"));
            MC_CHECK(is_perm(o, n), "elite-sequential:all", "one round returned " << show(o));
            MC_CHECK(f[o[0]] == best, "elite-sequential:best", "fitness values " << show(f) << " were returned in the order " << show(o));
            state(mix(hashv(f), hashv(o)));
            step(n);
        });
        MC_CHECK(c, "elite-sequential:endless", "");
    }
    rng_grid(unsigned(n), 2);
    std::vector<double> u(n, 1.0 / n);
    same(f, probs(p, [&]() -> const T& { return r(p); }, "random"), u, "random", true);
    for (size_t i = 0; i < 2 * n + 1; ++i)
        MC_CHECK(index_of(p, none(p), "none") == i % n, "none:cycle", "the sequence is not cyclic at call " << i);
    untouched(p, f, "elite");
}
MC_SCENARIO("elite-and-random") { elites<Max>(); }
MC_SCENARIO("elite-and-random-min") { elites<Min>(); }

template <class T> static void truncated()
{
    std::vector<int> f = any_fit(1, 4, 2);
    size_t n = f.size();
    unsigned fertile = range(1, int(n));
    eoPop<T> p = make_pop<T>(f);
    eoRandomSelect<T> inner;
    std::vector<int> sorted(f);
    std::sort(sorted.begin(), sorted.end(), [](int a, int b) { return sign<T>() * a > sign<T>() * b; });
    std::map<int, double> want;
    for (unsigned i = 0; i < fertile; ++i) want[sorted[i]] += 1.0 / fertile;
    bool many = flag();
    std::map<int, double> got;
    rng_grid(12, 10);
    if (many) rng_grid(unsigned(fertile), 10);
    int target = many ? range(1, 2) : 1;
    double mass = 0;
    forall([&] {
        eoTruncatedSelectOne<T> one(inner, double(fertile), false);
        eoTruncatedSelectMany<T> all(inner, eoHowMany(target), eoHowMany(int(fertile)));
        std::vector<T> out;
        if (many) {
            eoPop<T> dest; dest.resize(range(0, 1) * 5);
            all(p, dest);
            MC_CHECK(dest.size() == size_t(target), "truncated-many:count", dest.size() << " selected instead of " << target);
            for (auto& x : dest) out.push_back(x);
        } else {
            one.setup(p);
            out.push_back(one(p));
        }
        for (auto& x : out) {
            MC_CHECK(x.id >= 0 && x.id < int(n) && f[x.id] == double(x.fitness()), "truncated:foreign", "not a member");
            got[f[x.id]] += leaf_prob() / out.size();
        }
        mass += leaf_prob();
        step();
    });
    for (auto& x : got)
        MC_CHECK(std::fabs(x.second / mass - want[x.first]) < 1e-9, "truncated:probability", "fitness values " << show(f) << " with " << fertile
                 << " fertile: fitness " << x.first << " selected with probability " << x.second / mass << " instead of " << want[x.first]);
    state(mix(hashv(f), fertile));
    untouched(p, f, "truncated");
}
MC_SCENARIO("truncated") { truncated<Max>(); }
MC_SCENARIO("truncated-min") { truncated<Min>(); }

MC_SCENARIO("how-many")
{
    unsigned n = range(1, 6);
    int kind = range(0, 4);
    quiet();
    if (kind == 0) {                                  // count
        int c = range(1, 8);
        eoHowMany a(c), b(unsigned(c), false), d(double(c), false);
        MC_CHECK(a(n) == unsigned(c) && b(n) == unsigned(c) && d(n) == unsigned(c), "how-many:count", "count " << c);
    } else if (kind == 1) {                           // negative count
        int c = range(1, 8);
        eoHowMany a(-c), d(double(-c), false);
        bool thrown = false; unsigned r = 0;
        try { r = a(n); unsigned r2 = d(n); MC_CHECK(r == r2, "how-many:negative", "constructors differ"); }
        catch (eoException&) { thrown = true; }
        MC_CHECK(thrown == (c > int(n)) && (thrown || r == n - c), "how-many:negative", "all but " << c << " of " << n << " gave " << r);
    } else if (kind == 2 || kind == 3) {              // rate
        int q = range(0, 8);
        double rate = q / 4.0;
        unsigned want = unsigned(std::ceil(rate * n));
        eoHowMany a(rate), b(3);
        MC_CHECK(a(n) == want, "how-many:rate", "rate " << rate << " of " << n << " gave " << a(n));
        b.value(rate, true);
        MC_CHECK(b(n) == want, "how-many:set", "after setting the rate " << rate << ", of " << n << " it gave " << b(n));
        if (rate <= 1) {
            eoHowMany c(-rate);
            if (rate > 0) MC_CHECK(c(n) == unsigned(std::ceil((1 - rate) * n)), "how-many:negative-rate", "rate " << -rate << " of " << n << " gave " << c(n));
            eoHowMany d(rate);
            eoHowMany e = -d;
            MC_CHECK(e(n) == unsigned(std::ceil((1 - rate) * n)), "how-many:complement", "complement of rate " << rate << " of " << n << " gave " << e(n));
        }
    } else {                                          // text
        int q = range(0, 4), c = range(1, 5);
        bool pc = flag();
        std::ostringstream os; if (pc) os << 25 * q << "%"; else os << c;
        eoHowMany a(pick({2, -1})); std::istringstream is(os.str());
        a.readFrom(is);
        MC_CHECK(a(n) == (pc ? unsigned(std::ceil(0.25 * q * n)) : unsigned(c)), "how-many:text", "'" << os.str() << "' of " << n << " gave " << a(n));
    }
    step();
    state(mix(n, kind));
}

template <class T> static void many()
{
    std::vector<int> f = any_fit(1, 4, 2);
    size_t n = f.size();
    eoPop<T> p = make_pop<T>(f), dest;
    size_t before = choose(2) * 6;
    dest.resize(before);
    quiet();
    int which = range(0, 7);
    rng_grid(unsigned(n), 16);
    eoNoSelect<T> cyc; eoSequentialSelect<T> seq;
    size_t target = 0;
    bool sorted = false;
    if (which == 0) { int c = range(0, 7); target = c; eoSelectNumber<T> s(cyc, c); s(p, dest); }
    if (which == 1) { int q = range(0, 8); target = size_t(std::floor(q * 0.25 * n)); eoSelectPerc<T> s(cyc, q * 0.25); s(p, dest); }
    if (which == 2) { int c = range(1, 7); target = c; eoSelectMany<T> s(cyc, double(c), false); s(p, dest); }
    if (which == 3) { int q = range(1, 8); target = size_t(std::ceil(q * 0.25 * n)); eoSelectMany<T> s(cyc, q * 0.25); s(p, dest); }
    if (which == 4) { int c = range(1, 7); target = c; eoTruncSelect<T> s(cyc, eoHowMany(c)); s(p, dest); }
    if (which == 5) { int c = range(0, 9); target = std::max(c, 1); eoDetSelect<T> s(double(c), false); s(p, dest); }
    if (which == 6) { int c = range(1, 9); target = c; sorted = true; eoRankMuSelect<T> s(c); s(p, dest); }
    if (which == 7) { int c = range(1, 9); target = c; sorted = true; eoSelectMany<T> s(seq, eoHowMany(c)); s(p, dest); }
    static const char* names[] = {"select-number", "select-perc", "select-many", "select-many-rate", "trunc-select", "det-select", "rank-mu", "select-many-sequential"};
    std::string who = names[which];
    MC_CHECK(dest.size() == target, who + ":count", dest.size() << " selected instead of " << target << " from " << n);
    std::vector<int> ref(f);
    if (sorted) std::sort(ref.begin(), ref.end(), [](int a, int b) { return sign<T>() * a > sign<T>() * b; });
    for (size_t i = 0; i < target; ++i) {
        MC_CHECK(dest[i].id >= 0 && dest[i].id < int(n) && !dest[i].invalid() && double(dest[i].fitness()) == f[dest[i].id], who + ":foreign", "element " << i << " is not a copy of a member");
        if (sorted) MC_CHECK(double(dest[i].fitness()) == ref[i % n], who + ":order", "element " << i << " has fitness " << double(dest[i].fitness()) << " from " << show(f));
        else MC_CHECK(dest[i].id == int(i % n), who + ":order", "element " << i << " is individual " << dest[i].id);
    }
    untouched(p, f, who.c_str());
    state(mix(hashv(f), mix(which, target)));
    step(target);
}
MC_SCENARIO("many") { many<Max>(); }
MC_SCENARIO("many-min") { many<Min>(); }
