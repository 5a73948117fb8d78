// P06: multi-objective selection, replacement and algorithms.
#include "moeo.hpp"
#include <set>
#include <map>
#include <functional>

static std::string ids_of(const eoPop<Sol>& p) { std::vector<int> v; for (auto& s : p) v.push_back(id_of(s)); return mc::show(v); }
static std::vector<int> bag(const eoPop<Sol>& p) { std::vector<int> v; for (auto& s : p) v.push_back(id_of(s)); std::sort(v.begin(), v.end()); return v; }
static bool inside(std::vector<int> a, std::vector<int> b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

// ------------------------------------------------------------ replacement
// fitness and diversity fixed by the identity, plus a debt paid back for each
// individual that has left
struct AnyFitness : moeoFitnessAssignment<Sol> {
    std::vector<double> f;
    std::vector<std::vector<double>> gain;           // gain[gone][stays]
    unsigned calls = 0;
    void operator()(eoPop<Sol>& p) override { ++calls; for (auto& s : p) s.fitness(f[id_of(s)]); }
    void updateByDeleting(eoPop<Sol>& p, OV& o) override
    {
        if (gain.empty()) return;
        for (auto& s : p) s.fitness(s.fitness() + gain[int(o[0])][id_of(s)]);
    }
};
struct AnyDiversity : moeoDiversityAssignment<Sol> {
    std::vector<double> d;
    void operator()(eoPop<Sol>& p) override { for (auto& s : p) s.diversity(d[id_of(s)]); }
    void updateByDeleting(eoPop<Sol>&, OV&) override {}
};
struct DivFirst : moeoComparator<Sol> {
    bool operator()(const Sol& a, const Sol& b) override { return a.diversity() != b.diversity() ? a.diversity() < b.diversity() : a.fitness() < b.fitness(); }
};
static void split(unsigned np, unsigned no, eoPop<Sol>& par, eoPop<Sol>& off)
{
    for (unsigned i = 0; i < np + no; ++i) (i < np ? par : off).push_back(sol(int(i), ov({double(i), 0})));
}
MC_SCENARIO("elitist replacement keeps the best of both")
{
    directions(2, 3);
    unsigned np = mc::range(1, 3), no = mc::range(0, mc::tier(3, 4)), n = np + no, how = mc::choose(4);
    AnyFitness fit;
    AnyDiversity div;
    for (unsigned i = 0; i < n; ++i) { unsigned r = mc::choose(how == 2 ? 2 : 4); fit.f.push_back(r / 2), div.d.push_back(r % 2); }
    mc::state(mc::mix(mc::mix(np, how), mc::mix(mc::hashv(fit.f), mc::hashv(div.d))));
    eoPop<Sol> par, off;
    split(np, no, par, off);
    DivFirst cmp;
    moeoElitistReplacement<Sol> r0(fit, div), r1(fit, div, cmp), r2(fit), r3(fit, cmp);
    moeoElitistReplacement<Sol>* all[] = { &r0, &r1, &r2, &r3 };
    (*all[how])(par, off);
    mc::step();
    MC_CHECK(par.size() == np, "size", par.size() << " of " << np);
    std::set<int> kept;
    for (auto& s : par) MC_CHECK(id_of(s) >= 0 && id_of(s) < int(n) && kept.insert(id_of(s)).second, "identity", ids_of(par));
    auto rank = [&](int i) { double f = fit.f[i], d = how < 2 ? div.d[i] : 0; return how == 1 ? std::make_pair(d, f) : std::make_pair(f, d); };
    for (int i = 0; i < int(n); ++i) if (!kept.count(i)) for (int k : kept) MC_CHECK(!(rank(k) < rank(i)), "best kept", "kept " << k << " rather than " << i << " fitness " << mc::show(fit.f) << " diversity " << mc::show(div.d) << " way " << how);
    for (auto& s : par) MC_CHECK(s.objectiveVector()[0] == id_of(s) && s.fitness() == fit.f[id_of(s)], "content", "objective vector or fitness of " << id_of(s));
}
MC_SCENARIO("environmental replacement removes the worst one by one")
{
    directions(2, 3);
    unsigned np = mc::range(1, 2), no = mc::range(0, mc::tier(2, 3)), n = np + no, how = mc::choose(2);
    bool gains = n <= mc::tier(3u, 4u) && mc::flag();
    AnyFitness fit;
    AnyDiversity div;
    for (unsigned i = 0; i < n; ++i) { unsigned r = mc::choose(3); fit.f.push_back(r), div.d.push_back(how ? mc::choose(2) : 0); }
    fit.gain.assign(n, std::vector<double>(n, 0));
    if (gains) for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (a != b) fit.gain[a][b] = n > 3 && a > 1 ? a : mc::choose(2) * 2;
    uint64_t h = mc::mix(np, how);
    for (auto& g : fit.gain) h = mc::mix(h, mc::hashv(g));
    mc::state(mc::mix(h, mc::mix(mc::hashv(fit.f), mc::hashv(div.d))));
    eoPop<Sol> par, off;
    split(np, no, par, off);
    moeoEnvironmentalReplacement<Sol> r0(fit), r1(fit, div);
    (how ? r1 : r0)(par, off);
    mc::step();
    MC_CHECK(par.size() == np, "size", par.size() << " of " << np);
    std::set<int> kept;
    for (auto& s : par) MC_CHECK(id_of(s) >= 0 && id_of(s) < int(n) && kept.insert(id_of(s)).second, "identity", ids_of(par));
    // some order of removals explains what is left
    std::vector<double> f = fit.f;
    std::set<int> in;
    for (unsigned i = 0; i < n; ++i) in.insert(int(i));
    std::function<bool(std::set<int>, std::vector<double>)> explains = [&](std::set<int> in, std::vector<double> f) {
        if (in.size() == np) return in == kept;
        auto rank = [&](int i) { return std::make_pair(f[i], div.d[i]); };
        auto worst = rank(*in.begin());
        for (int i : in) worst = std::min(worst, rank(i));
        for (int i : std::set<int>(in)) if (rank(i) == worst) {
            auto rest = in; rest.erase(i);
            auto g = f;
            for (int j : rest) g[j] += fit.gain[i][j];
            if (explains(rest, g)) return true;
        }
        return false;
    };
    MC_CHECK(explains(in, f), "worst removed", "fitness " << mc::show(fit.f) << " diversity " << mc::show(div.d) << " kept " << ids_of(par) << (gains ? " with updates" : ""));
}
MC_SCENARIO("generational replacement keeps the offspring")
{
    directions(2, 3);
    unsigned np = mc::range(0, 4), no = mc::range(0, 4);
    eoPop<Sol> par, off;
    split(np, no, par, off);
    eoPop<Sol> want = off;
    moeoGenerationalReplacement<Sol> r;
    mc::state(mc::mix(np, no));
    r(par, off);
    MC_CHECK(bag(par) == bag(want), "offspring", ids_of(par) << " want " << ids_of(want));
}

// -------------------------------------------------------------- selection
// populations where fitness and diversity are given
static eoPop<Sol> ranked(unsigned lo, unsigned hi)
{
    eoPop<Sol> p;
    unsigned n = mc::range(lo, hi);
    for (unsigned i = 0; i < n; ++i) {
        Sol s = sol(int(i), ov({0, 0}));
        unsigned r = mc::choose(4);
        s.fitness(r / 2); s.diversity(r % 2);
        p.push_back(s);
    }
    return p;
}
static std::pair<double, double> rank_of(const Sol& s) { return { s.fitness(), s.diversity() }; }
static uint64_t hash_ranks(const eoPop<Sol>& p) { uint64_t h = p.size(); for (auto& s : p) h = mc::mix(h, uint64_t(2 * s.fitness() + s.diversity())); return h; }
// probability of each individual over all random words
static std::vector<double> chances(const eoPop<Sol>& p, moeoSelectOne<Sol>& sel, unsigned grid)
{
    std::vector<double> pr(p.size(), 0);
    mc::forall([&] {
        mc::rng_grid(grid, 6);
        const Sol& s = sel(p);
        MC_CHECK(&s >= &p[0] && &s < &p[0] + p.size(), "member", "not one of the population");
        pr[&s - &p[0]] += mc::leaf_prob();
        mc::step();
    });
    return pr;
}
static std::string text(const eoPop<Sol>& p) { std::ostringstream os; for (auto& s : p) os << s.fitness() << "/" << s.diversity() << " "; return os.str(); }
MC_SCENARIO("tournaments")
{
    directions(2, 3);
    eoPop<Sol> p = ranked(1, 4);
    if (p.size() == 3) mc::assume(mc::tier(0, 1) == 1 || p[0].fitness() == 0);
    unsigned n = p.size(), how = mc::choose(4);
    mc::state(mc::mix(hash_ranks(p), how));
    DivFirst cmp;
    Mute m;
    moeoDetTournamentSelect<Sol> d2(2), d3(3), d1(0), dc(cmp, 2);
    moeoDetTournamentSelect<Sol>* all[] = { &d2, &d3, &d1, &dc };
    if (n == 4 && how == 1) mc::prune();
    auto pr = chances(p, *all[how], 12);
    unsigned t = how == 1 ? 3 : 2;
    // those no better than a rank win exactly when all draws are no better
    auto rank = [&](const Sol& s) { return how == 3 ? std::make_pair(s.diversity(), s.fitness()) : rank_of(s); };
    for (auto& s : p) {
        double have = 0, cnt = 0;
        for (unsigned i = 0; i < n; ++i) if (!(rank(s) < rank(p[i]))) have += pr[i], ++cnt;
        double want = std::pow(cnt / n, t);
        MC_CHECK(mc::close(have, want, 1e-9), "det", "population " << text(p) << " chances " << mc::show(pr) << " size " << t << " way " << how);
    }
}
MC_SCENARIO("stochastic tournaments")
{
    directions(2, 3);
    eoPop<Sol> p = ranked(1, 3);
    unsigned n = p.size(), how = mc::choose(n < 3 ? 7 : 4);
    mc::state(mc::mix(hash_ranks(p), how));
    DivFirst cmp;
    struct NoErr { std::streambuf* b; std::ostringstream o; NoErr() { b = std::cerr.rdbuf(o.rdbuf()); } ~NoErr() { std::cerr.rdbuf(b); } } quiet_err;
    moeoStochTournamentSelect<Sol> s1(1.0), s75(0.75), big(3.0), sc(cmp, 0.75), low(0.25), lowc(cmp, 0.25), none;
    moeoStochTournamentSelect<Sol>* all[] = { &s1, &s75, &big, &sc, &low, &lowc, &none };
    auto pr = chances(p, *all[how], how < 4 ? 12 : 20);
    // rates below a half are raised to 0.55
    double rate = how == 4 || how == 5 ? 0.55 : how == 1 || how == 3 ? 0.75 : 1;
    auto rank = [&](const Sol& s) { return how == 3 || how == 5 ? std::make_pair(s.diversity(), s.fitness()) : rank_of(s); };
    for (auto& s : p) {
        double have = 0, below = 0, above = 0;
        for (unsigned i = 0; i < n; ++i) (rank(s) < rank(p[i]) ? above : (have += pr[i], below)) += 1.0 / n;
        double want = below * below + 2 * below * above * (1 - rate);
        MC_CHECK(mc::close(have, want, 1e-9), "stochastic", "population " << text(p) << " chances " << mc::show(pr) << " rate " << rate);
    }
}
MC_SCENARIO("roulette gives each its share of the fitness")
{
    directions(2, 3);
    eoPop<Sol> p;
    unsigned n = mc::range(1, 3);
    double sum = 0;
    for (unsigned i = 0; i < n; ++i) {
        Sol s = sol(int(i), ov({0, 0}));
        double f = mc::pick({0.25, 1.0, 3.0});
        s.fitness(f); s.diversity(0);
        sum += f;
        p.push_back(s);
    }
    uint64_t h = n;
    for (auto& s : p) h = mc::mix(h, uint64_t(4 * s.fitness()));
    mc::state(h);
    moeoRouletteSelect<Sol> sel(2);
    const unsigned cells = 128;
    auto pr = chances(p, sel, cells);
    for (unsigned i = 0; i < n; ++i) MC_CHECK(std::fabs(pr[i] - p[i].fitness() / sum) <= 2.0 / cells, "roulette", "fitness " << text(p) << " chances " << mc::show(pr));
}
MC_SCENARIO("random and mixed selection")
{
    directions(2, 3);
    eoPop<Sol> p = ranked(1, 3);
    unsigned n = p.size(), na = mc::range(0, 3);
    double ratio = mc::pick({0.0, 0.25, 0.5, 1.0});
    moeoUnboundedArchive<Sol> arch;
    for (unsigned i = 0; i < na; ++i) { Sol s = sol(int(100 + i), ov({double(i), double(na - i)})); s.fitness(i); s.diversity(0); arch(s); }
    mc::state(mc::mix(mc::mix(hash_ranks(p), na), uint64_t(4 * ratio)));
    moeoRandomSelect<Sol> rnd;
    for (double x : chances(p, rnd, 12)) MC_CHECK(mc::close(x, 1.0 / n, 1e-9), "random", x << " of " << n);
    moeoDetTournamentSelect<Sol> det(2);
    moeoSelectFromPopAndArch<Sol> with(rnd, det, arch, ratio), plain(rnd, arch, ratio);
    for (int k = 0; k < 2; ++k) {
        std::vector<double> pop(n, 0), ar(na, 0);
        mc::forall([&] {
            mc::rng_grid(12, 4);
            const Sol& s = (k ? with : plain)(p);
            if (id_of(s) >= 100) ar[id_of(s) - 100] += mc::leaf_prob(); else pop[id_of(s)] += mc::leaf_prob();
        });
        double from = na ? ratio : 1;
        for (double x : pop) MC_CHECK(mc::close(x, from / n, 1e-9), "mixed", "population share " << x << " ratio " << ratio);
        for (unsigned i = 0; i < na; ++i) {
            double want = k ? ((i + 1.0) * (i + 1) - double(i) * i) / (na * na) : 1.0 / na;
            MC_CHECK(mc::close(ar[i], (1 - from) * want, 1e-9), "mixed", "archive member " << i << " has " << ar[i] << " ratio " << ratio);
        }
    }
}
MC_SCENARIO("selection from an archive")
{
    directions(2, 3);
    unsigned na = mc::range(1, 4), lo = mc::range(0, 6), hi = mc::range(0, 6), junk = mc::choose(2) * 3;
    moeoUnboundedArchive<Sol> arch;
    for (unsigned i = 0; i < na; ++i) arch(sol(int(i), ov({double(i), double(na - i)})));
    mc::state(mc::mix(na, lo * 64 + hi * 8 + junk));
    moeoDetArchiveSelect<Sol> sel(arch, hi, lo);
    eoPop<Sol> none, dest;
    for (unsigned i = 0; i < junk; ++i) dest.push_back(sol(99, ov({0, 0})));
    mc::rng_grid(12, 6);
    { Mute m; sel(none, dest); }
    if (hi < lo) return;
    auto b = bag(dest);
    if (na > hi) {
        MC_CHECK(b.size() == hi && std::set<int>(b.begin(), b.end()).size() == hi && (b.empty() || (b[0] >= 0 && b.back() < int(na))), "at most", "archive of " << na << " wanted at most " << hi << " got " << mc::show(b));
    } else {
        unsigned want = std::max(na, lo);
        MC_CHECK(b.size() == want, "number", b.size() << " wanted " << want);
        for (unsigned i = 0; i < na; ++i) {
            unsigned c = std::count(b.begin(), b.end(), int(i));
            MC_CHECK(c >= want / na && c <= want / na + 1, "balanced", mc::show(b) << " from " << na << " wanted " << want);
        }
    }
}
MC_SCENARIO("selection from an archive is fair")
{
    directions(2, 3);
    unsigned na = mc::range(2, 4), hi = mc::range(1, na - 1);
    moeoUnboundedArchive<Sol> arch;
    for (unsigned i = 0; i < na; ++i) arch(sol(int(i), ov({double(i), double(na - i)})));
    mc::state(mc::mix(na, hi));
    moeoDetArchiveSelect<Sol> sel(arch, hi);
    std::vector<double> pr(na, 0);
    mc::forall([&] {
        mc::rng_grid(12, 6);
        eoPop<Sol> none, dest;
        sel(none, dest);
        for (auto& s : dest) pr[id_of(s)] += mc::leaf_prob();
    });
    for (double x : pr) MC_CHECK(mc::close(x, double(hi) / na, 1e-9), "fair", mc::show(pr) << " want " << double(hi) / na);
}
MC_SCENARIO("selection of unvisited solutions")
{
    directions(2, 3);
    unsigned n = mc::range(0, 4), number = mc::range(0, 5), how = mc::choose(2);
    eoPop<Sol> p;
    std::vector<unsigned> open;
    unsigned mask = mc::choose(1u << n);
    for (unsigned i = 0; i < n; ++i) { Sol s = sol(int(i), ov({0, 0})); s.flag((mask >> i) & 1); p.push_back(s); if (!((mask >> i) & 1)) open.push_back(i); }
    mc::state(mc::mix(mc::mix(n, mask), number * 2 + how));
    moeoExhaustiveUnvisitedSelect<Sol> all;
    moeoNumberUnvisitedSelect<Sol> some(number);
    mc::rng_grid(12, 5);
    std::vector<unsigned> got = how ? some(p) : all(p);
    std::sort(got.begin(), got.end());
    MC_CHECK(std::adjacent_find(got.begin(), got.end()) == got.end(), "twice", mc::show(got));
    MC_CHECK(std::includes(open.begin(), open.end(), got.begin(), got.end()), "visited", mc::show(got) << " of " << mc::show(open));
    MC_CHECK(got.size() == (how ? std::min<size_t>(number, open.size()) : open.size()), "number", got.size() << " of " << open.size() << " wanted " << number);
}

// -------------------------------------------------------------- algorithms
// Genotypes 0..3, objective vectors by table; an operator may turn a genotype
// into any other.
static const int G = 4;
static std::vector<OV> table;
static void any_table(unsigned kinds)
{
    static const double t[4][G][2] = {
        { {0, 3}, {1, 2}, {2, 1}, {3, 0} },              // a front
        { {0, 0}, {1, 1}, {2, 2}, {3, 3} },              // a chain
        { {0, 2}, {2, 0}, {2, 2}, {1, 1} },              // front, and one behind
        { {1, 1}, {1, 1}, {0, 2}, {2, 2} },              // equal vectors
    };
    unsigned k = mc::choose(kinds);
    directions(2, mc::pick({3, 1}));
    table.clear();
    for (int g = 0; g < G; ++g) table.push_back(ov({t[k][g][0], Dir::minimizing(1) ? t[k][g][1] : 3 - t[k][g][1]}));
}
struct Run {
    std::vector<int> all;                // genotypes in the union of parents and offspring
    std::vector<int> seen;               // everything evaluated so far
    unsigned evals = 0, gens = 0, n = 0, changed = 0;
    moeoArchive<Sol>* parents_from = nullptr;
    std::function<void(const eoPop<Sol>&)> judge;
    void operator=(int) { all.clear(); seen.clear(); evals = gens = changed = 0; parents_from = nullptr; judge = nullptr; }
};
static Run run;
static void honest(const char* where, const eoPop<Sol>& p)
{
    for (auto& s : p) MC_CHECK(!s.invalidObjectiveVector() && s.objectiveVector() == table[id_of(s)], "objective vector", where << ": genotype " << id_of(s) << (s.invalidObjectiveVector() ? " not evaluated" : " has another's vector"));
}
struct Eval : eoEvalFunc<Sol> {
    void operator()(Sol& s) override { if (s.invalidObjectiveVector()) { ++run.evals; s.objectiveVector(table[id_of(s)]); } run.seen.push_back(id_of(s)); }
};
struct PopEval : eoPopEvalFunc<Sol> {
    Eval& e;
    PopEval(Eval& e) : e(e) {}
    void operator()(eoPop<Sol>& par, eoPop<Sol>& off) override
    {
        for (auto& s : off) {
            MC_CHECK(s.invalidObjectiveVector() || s.objectiveVector() == table[id_of(s)], "stale", "a changed offspring keeps an old objective vector");
            e(s);
        }
        honest("parents", par);
        run.all.clear();
        for (auto& s : par) run.all.push_back(id_of(s));
        for (auto& s : off) run.all.push_back(id_of(s));
        std::sort(run.all.begin(), run.all.end());
    }
};
struct Cont : eoContinue<Sol> {
    unsigned left;
    Cont(unsigned n) : left(n) {}
    bool operator()(const eoPop<Sol>& p) override
    {
        ++run.gens;
        uint64_t h = run.gens;
        for (int g : bag(p)) h = mc::mix(h, g);
        for (int g : run.all) h = mc::mix(h, g);
        mc::state(h);
        mc::step();
        honest("population", p);
        if (run.judge) run.judge(p);
        return --left > 0;
    }
};
struct Mutate : eoMonOp<Sol> {
    unsigned kinds = 3;
    bool operator()(Sol& s) override
    {
        if (run.parents_from) {
            bool found = false;
            for (auto& a : *run.parents_from) found = found || id_of(a) == id_of(s);
            MC_CHECK(found, "parents", "parent " << id_of(s) << " is not in the archive");
        }
        ++run.changed;
        unsigned k = mc::choose(kinds);
        if (!k) return false;
        s[0] = (s[0] + k) % G;
        return true;
    }
};
struct Cross : eoQuadOp<Sol> {
    bool operator()(Sol& a, Sol& b) override
    {
        if (run.parents_from) for (Sol* s : { &a, &b }) {
            bool found = false;
            for (auto& x : *run.parents_from) found = found || id_of(x) == id_of(*s);
            MC_CHECK(found, "parents", "parent " << id_of(*s) << " is not in the archive");
        }
        ++run.changed;
        if (!mc::flag()) return false;
        a[0] = (a[0] + 1) % G;
        return true;
    }
};
struct Transform : eoTransform<Sol> {
    Mutate& m;
    Transform(Mutate& m) : m(m) {}
    void operator()(eoPop<Sol>& p) override { for (auto& s : p) if (m(s)) s.invalidate(); }
};
static eoPop<Sol> start(unsigned n)
{
    eoPop<Sol> p;
    for (unsigned i = 0; i < n; ++i) p.push_back(Sol(1, int(mc::choose(G))));
    if (n) { if (mc::flag()) p[0].objectiveVector(table[id_of(p[0])]); }
    run = 0;
    run.n = n;
    return p;
}
static std::vector<int> fronts(const std::vector<int>& g)
{
    std::vector<int> f(g.size(), -1);
    for (int level = 0, left = int(g.size()); left > 0; ++level) {
        std::vector<size_t> now;
        for (size_t i = 0; i < g.size(); ++i) if (f[i] < 0) {
            bool free = true;
            for (size_t j = 0; j < g.size(); ++j) if (f[j] < 0 && dominates(table[g[j]], table[g[i]])) free = false;
            if (free) now.push_back(i);
        }
        for (size_t i : now) f[i] = level, --left;
    }
    return f;
}
// copies of a vector are behind every original and ahead of nobody
static std::vector<int> ranks(const std::vector<int>& g)
{
    std::vector<int> f(g.size(), 0);
    std::vector<char> copy(g.size(), 0);
    for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < i; ++j) if (table[g[i]] == table[g[j]]) copy[i] = 1;
    for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) f[i] += copy[j] ? 0 : copy[i] ? 1 : dominates(table[g[j]], table[g[i]]);
    return f;
}
static double crowding(const std::vector<int>& front, int g)
{
    double d = 0;
    for (int o = 0; o < 2; ++o) {
        double x = table[g][o], lo = -1e9, hi = 1e9, mn = 1e9, mx = -1e9;
        for (int h : front) { double y = table[h][o]; mn = std::min(mn, y), mx = std::max(mx, y); if (y < x) lo = std::max(lo, y); if (y > x) hi = std::min(hi, y); }
        if (lo < -1e8 || hi > 1e8) return 1e9;
        d += (hi - lo) / (mx - mn);
    }
    return d;
}
// survivors come from the union and nobody discarded has a strictly better level
static void levels(const eoPop<Sol>& p, std::vector<int> (*level)(const std::vector<int>&), bool crowd)
{
    auto kept = bag(p), all = run.all;
    MC_CHECK(p.size() == run.n, "size", p.size() << " of " << run.n);
    MC_CHECK(inside(kept, all), "identity", "kept " << mc::show(kept) << " of " << mc::show(all));
    std::vector<int> out;
    std::set_difference(all.begin(), all.end(), kept.begin(), kept.end(), std::back_inserter(out));
    auto lv = level(all);
    // the members of a vector that stay are its best ranked ones
    std::map<std::vector<double>, std::vector<int>> by, stay;
    for (size_t i = 0; i < all.size(); ++i) by[std::vector<double>(table[all[i]])].push_back(lv[i]);
    for (int k : kept) stay[std::vector<double>(table[k])].push_back(k);
    int in = -1, left = 1 << 20;
    for (auto& c : by) {
        std::sort(c.second.begin(), c.second.end());
        size_t k = stay[c.first].size();
        for (size_t i = 0; i < c.second.size(); ++i) if (i < k) in = std::max(in, c.second[i]); else left = std::min(left, c.second[i]);
    }
    MC_CHECK(in <= left, "survivors", "kept " << mc::show(kept) << " of " << mc::show(all) << " levels " << mc::show(lv));
    auto of = [&](int g) { return lv[std::find(all.begin(), all.end(), g) - all.begin()]; };
    if (!crowd) return;
    for (int k : kept) for (int o : out) if (of(k) == of(o)) {
        std::vector<int> front;
        bool distinct = true;
        for (int g : all) if (of(g) == of(k)) { for (int h : front) if (table[h] == table[g]) distinct = false; front.push_back(g); }
        if (distinct) MC_CHECK(crowding(front, k) >= crowding(front, o) - 1e-9, "crowding", "kept " << k << " dropped " << o << " of front " << mc::show(front));
    }
}
static void counted(const eoPop<Sol>& p, unsigned n, unsigned gens)
{
    MC_CHECK(p.size() == n, "final size", p.size() << " of " << n);
    MC_CHECK(run.gens == gens, "generations", run.gens << " of " << gens);
    honest("result", p);
}
template <class A> static void elitist(std::vector<int> (*level)(const std::vector<int>&), bool crowd, A make)
{
    any_table(mc::tier(3, 4));
    unsigned n = mc::range(2, mc::tier(2, 3)), gens = n == 2 ? mc::range(1, 2) : 1, how = mc::choose(2);
    Eval eval; PopEval pe(eval); Cont cont(gens); Mutate mut; eoMonGenOp<Sol> gen(mut); Transform tr(mut);
    mut.kinds = gens == 2 || n == 3 ? 2 : 3;
    eoPop<Sol> p = start(n);
    if (gens == 2) mc::assume(p[0][0] <= p[1][0]);
    run.judge = [&](const eoPop<Sol>& q) { levels(q, level, crowd); };
    mc::rng_grid(n, 20);
    make(how, cont, pe, gen, tr, p);
    MC_CHECK(run.changed == gens * n, "operators", "the operators were used " << run.changed << " times in " << gens << " generations");
    counted(p, n, gens);
}
MC_SCENARIO("NSGA-II") { elitist(fronts, true, [](unsigned how, Cont& c, PopEval& e, eoGenOp<Sol>& g, Transform& t, eoPop<Sol>& p) {
    if (how) { moeoNSGAII<Sol> a(c, e, g); a(p); } else { moeoNSGAII<Sol> a(c, e, t); a(p); } }); }
MC_SCENARIO("NSGA") { elitist(fronts, false, [](unsigned how, Cont& c, PopEval& e, eoGenOp<Sol>& g, Transform& t, eoPop<Sol>& p) {
    if (how) { moeoNSGA<Sol> a(c, e, g); a(p); } else { moeoNSGA<Sol> a(c, e, t); a(p); } }); }
MC_SCENARIO("MOGA") { elitist(ranks, false, [](unsigned how, Cont& c, PopEval& e, eoGenOp<Sol>& g, Transform& t, eoPop<Sol>& p) {
    if (how) { moeoMOGA<Sol> a(c, e, g); a(p); } else { moeoMOGA<Sol> a(c, e, t); a(p); } }); }
MC_SCENARIO("a loop put together")
{
    any_table(3);
    unsigned n = 2, how = mc::choose(4), gens = mc::tier(how % 2 ? 2 : 1, 2);
    bool again = mc::flag();
    Eval eval; PopEval pe(eval); Cont cont(gens); Mutate mut; eoMonGenOp<Sol> gen(mut); Transform tr(mut);
    mut.kinds = 2;
    eoPop<Sol> p = start(n);
    if (gens == 2) mc::assume(p[0][0] <= p[1][0]);
    moeoDominanceDepthFitnessAssignment<Sol> depth;
    moeoCrowdingDiversityAssignment<Sol> crowd;
    moeoElitistReplacement<Sol> rep(depth, crowd);
    moeoDetTournamentSelect<Sol> one(2);
    eoSelectMany<Sol> many(one, 1.0);
    eoGeneralBreeder<Sol> breed(one, gen);
    run.judge = [&](const eoPop<Sol>& q) { if (how % 2) levels(q, fronts, false); else MC_CHECK(q.size() == n, "size", q.size()); };
    mc::rng_grid(2, 20);
    if (how == 0) { moeoEasyEA<Sol> a(cont, eval, breed, rep, depth, crowd, again); a(p); }
    else if (how == 1) { moeoEasyEA<Sol> a(cont, pe, breed, rep, depth, crowd, again); a(p); }
    else if (how == 2) { moeoEasyEA<Sol> a(cont, eval, many, tr, rep, depth, crowd, again); a(p); }
    else { moeoEasyEA<Sol> a(cont, pe, many, tr, rep, depth, crowd, again); a(p); }
    MC_CHECK(run.changed == gens * n, "operators", "the operators were used " << run.changed << " times");
    counted(p, n, gens);
}
MC_SCENARIO("a loop whose population changes size complains")
{
    any_table(1);
    Eval eval; PopEval pe(eval); Cont cont(1); Mutate mut; eoMonGenOp<Sol> gen(mut);
    mut.kinds = 1;
    unsigned n = 2, got = mc::range(0, 4);
    eoPop<Sol> p = start(n);
    struct Odd : moeoReplacement<Sol> { unsigned n; void operator()(eoPop<Sol>& p, eoPop<Sol>&) override { Sol s = p[0]; p.clear(); for (unsigned i = 0; i < n; ++i) p.push_back(s); } } rep;
    rep.n = got;
    moeoDominanceDepthFitnessAssignment<Sol> depth;
    moeoCrowdingDiversityAssignment<Sol> crowd;
    moeoDetTournamentSelect<Sol> one(2);
    eoGeneralBreeder<Sol> breed(one, gen);
    mc::rng_fixed(1);
    bool thrown = false;
    moeoEasyEA<Sol> a(cont, eval, breed, rep, depth, crowd);
    try { a(p); } catch (std::exception&) { thrown = true; }
    MC_CHECK(thrown == (got != n), "size change", got << " of " << n << (thrown ? " thrown" : " accepted"));
}
MC_SCENARIO("IBEA")
{
    any_table(mc::tier(3, 4));
    unsigned n = 2, gens = mc::range(1, 2), how = mc::choose(2);
    Eval eval; PopEval pe(eval); Cont cont(gens); Mutate mut; eoMonGenOp<Sol> gen(mut); Transform tr(mut);
    mut.kinds = gens == 2 ? 2 : 3;
    eoPop<Sol> p = start(n);
    if (gens == 2) mc::assume(p[0][0] <= p[1][0]);
    const double kappa = 0.5;
    moeoAdditiveEpsilonBinaryMetric<OV> eps;
    run.judge = [&](const eoPop<Sol>& q) {
        MC_CHECK(q.size() == n, "size", q.size() << " of " << n);
        auto all = run.all, kept = bag(q);
        MC_CHECK(inside(kept, all), "identity", "kept " << mc::show(kept) << " of " << mc::show(all));
        double lo[2], hi[2];
        for (int o = 0; o < 2; ++o) {
            lo[o] = 1e9, hi[o] = -1e9;
            for (int g : all) lo[o] = std::min(lo[o], table[g][o]), hi[o] = std::max(hi[o], table[g][o]);
            if (lo[o] == hi[o]) lo[o] -= 1e-6, hi[o] += 1e-6;
        }
        auto I = [&](int a, int b) {                     // how much a must improve to cover b
            double w = -1e9;
            for (int o = 0; o < 2; ++o) { double d = (table[a][o] - table[b][o]) / (hi[o] - lo[o]); w = std::max(w, Dir::minimizing(o) ? d : -d); }
            return w;
        };
        std::function<bool(std::vector<int>)> explains = [&](std::vector<int> in) {
            if (in.size() == n) return in == kept;
            std::vector<double> f(in.size(), 0);
            double worst = 1e9;
            for (size_t i = 0; i < in.size(); ++i) { for (size_t j = 0; j < in.size(); ++j) if (i != j) f[i] -= std::exp(-I(in[j], in[i]) / kappa); worst = std::min(worst, f[i]); }
            for (size_t i = 0; i < in.size(); ++i) if (f[i] <= worst + 1e-4) {
                auto rest = in; rest.erase(rest.begin() + i);
                if (explains(rest)) return true;
            }
            return false;
        };
        MC_CHECK(explains(all), "indicator", "kept " << mc::show(kept) << " of " << mc::show(all));
    };
    mc::rng_grid(2, 20);
    if (how) { moeoIBEA<Sol> a(cont, pe, gen, eps, kappa); a(p); } else { moeoIBEA<Sol> a(cont, pe, tr, eps, kappa); a(p); }
    counted(p, n, gens);
}
// the archive holds the non-dominated vectors of all that was evaluated
static void best_of_all(moeoArchive<Sol>& arch)
{
    honest("archive", arch);
    std::set<std::vector<double>> want, have;
    for (int g : run.seen) {
        bool free = true;
        for (int h : run.seen) if (dominates(table[h], table[g])) free = false;
        if (free) want.insert(std::vector<double>(table[g]));
    }
    for (auto& s : arch) have.insert(std::vector<double>(s.objectiveVector()));
    MC_CHECK(want == have, "archive", have.size() << " vectors kept of " << want.size() << " after " << mc::show(run.seen));
}
template <class A> static void archived(bool keeps_size, A make, unsigned ways)
{
    any_table(mc::tier(3, 4));
    unsigned n = 2, gens = mc::range(1, mc::tier(2, 3)), how = mc::choose(ways);
    Eval eval; PopEval pe(eval); Cont cont(gens); Mutate mut; eoMonGenOp<Sol> gen(mut); Transform tr(mut);
    Cross quad;
    struct Same : eoMonOp<Sol> { bool operator()(Sol&) override { return false; } } same;
    mut.kinds = gens == 3 ? 2 : 3;
    eoPop<Sol> p = start(n);
    if (gens == 3) mc::assume(p[0][0] <= p[1][0] && how != 2);
    moeoUnboundedArchive<Sol> arch;
    run.parents_from = &arch;
    run.judge = [&](const eoPop<Sol>& q) { best_of_all(arch); if (keeps_size) MC_CHECK(q.size() == n, "size", q.size() << " of " << n); };
    mc::rng_grid(2, 30);
    make(how, cont, pe, gen, tr, quad, same, arch, p);
    MC_CHECK(run.gens == gens, "generations", run.gens << " of " << gens);
    if (how < 2) MC_CHECK(run.changed >= gens - 1, "operators", "the operators were used " << run.changed << " times in " << gens - 1 << " generations");
    best_of_all(arch);
}
MC_SCENARIO("SEEA") { archived(false, [](unsigned how, Cont& c, PopEval& e, eoGenOp<Sol>& g, Transform& t, eoQuadOp<Sol>& q, eoMonOp<Sol>& m, moeoArchive<Sol>& arch, eoPop<Sol>& p) {
    if (how == 0) { moeoSEEA<Sol> a(c, e, g, arch); a(p); } else if (how == 1) { moeoSEEA<Sol> a(c, e, t, arch); a(p); } }, 2); }
MC_SCENARIO("ASEEA") { archived(false, [](unsigned how, Cont& c, PopEval& e, eoGenOp<Sol>&, Transform& t, eoQuadOp<Sol>& q, eoMonOp<Sol>& m, moeoArchive<Sol>& arch, eoPop<Sol>& p) {
    if (how < 2) { moeoASEEA<Sol> a(c, e, t, arch, how + 1); a(p); } else { moeoASEEA<Sol> a(c, e, q, 1.0, m, 0.0, arch, 2); a(p); } }, 3); }
MC_SCENARIO("SPEA2") { archived(true, [](unsigned how, Cont& c, PopEval& e, eoGenOp<Sol>& g, Transform& t, eoQuadOp<Sol>& q, eoMonOp<Sol>& m, moeoArchive<Sol>& arch, eoPop<Sol>& p) {
    if (how == 0) { moeoSPEA2<Sol> a(c, e, g, arch); a(p); } else if (how == 1) { moeoSPEA2<Sol> a(c, e, t, arch); a(p); } else { moeoSPEA2<Sol> a(c, e, q, 1.0, m, 0.0, arch); a(p); } }, 3); }
MC_SCENARIO("algorithms from a number of generations")
{
    any_table(1);
    unsigned n = 2, gens = mc::range(1, 3), which = mc::choose(7);
    Eval eval; Cross quad;
    struct Same : eoMonOp<Sol> { bool operator()(Sol&) override { return false; } } same;
    eoPop<Sol> p = start(n);
    moeoUnboundedArchive<Sol> arch;
    moeoAdditiveEpsilonBinaryMetric<OV> eps;
    if (gens == 3) mc::rng_words({0x19999999}, 100); else mc::rng_words({0x19999999, 0xe6666666}, 4);
    if (gens < 3) mc::rng_deviate(2, 1, 20, 7);
    switch (which) {
    case 0: { moeoNSGAII<Sol> a(gens, eval, quad, 1.0, same, 1.0); a(p); break; }
    case 1: { moeoNSGA<Sol> a(gens, eval, quad, 1.0, same, 1.0); a(p); break; }
    case 2: { moeoMOGA<Sol> a(gens, eval, quad, 1.0, same, 1.0); a(p); break; }
    case 3: { moeoIBEA<Sol> a(gens, eval, quad, 1.0, same, 1.0, eps, 0.5); a(p); break; }
    case 4: { moeoSPEA2<Sol> a(gens, eval, quad, 1.0, same, 1.0, arch); a(p); break; }
    case 5: { moeoSEEA<Sol> a(gens, eval, quad, 1.0, same, 1.0, arch); a(p); break; }
    default: { moeoASEEA<Sol> a(gens, eval, quad, 1.0, same, 1.0, arch, n); a(p); break; }
    }
    mc::state(mc::mix(mc::mix(which, gens), mc::hashv(run.seen)));
    honest("population", p);
    if (which < 6) MC_CHECK(p.size() == n, "final size", p.size());
    if (which >= 4) best_of_all(arch);
    if (which < 4) MC_CHECK(run.seen.size() == n * (gens + 1), "generations", run.seen.size() << " evaluations for " << gens << " generations, algorithm " << which);
}
