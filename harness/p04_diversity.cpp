// Diversity assignments and distances against their definitions, for every small population.
#include "moeo.hpp"

static const double Inf = std::numeric_limits<double>::max();
static std::string divs(const eoPop<Sol>& p) { std::vector<double> f; for (auto& s : p) f.push_back(s.diversity()); return " got " + mc::show(f); }
static const Sol& by_id(const eoPop<Sol>& p, int id) { for (auto& s : p) if (id_of(s) == id) return s; mc::fail("lost", "an individual disappeared"); return p[0]; }
static void same_people(const eoPop<Sol>& before, const eoPop<Sol>& after)
{
    MC_CHECK(before.size() == after.size(), "population changed", show_pop(before));
    for (auto& s : before) {
        const Sol& t = by_id(after, id_of(s));
        MC_CHECK(std::vector<double>(t.objectiveVector()) == std::vector<double>(s.objectiveVector()), "population changed", show_pop(before));
        MC_CHECK(s.invalidFitness() || t.fitness() == s.fitness(), "fitness changed", show_pop(before));
    }
}
// what one objective may contribute to each member, over the orders that ties leave open
static std::set<std::vector<double>> contributions(const std::vector<const Sol*>& front, unsigned obj)
{
    std::set<std::vector<double>> r;
    std::vector<int> order;
    for (size_t i = 0; i < front.size(); ++i) order.push_back(int(i));
    auto val = [&](int i) { return double(front[size_t(i)]->objectiveVector()[obj]); };
    do {
        bool sorted = true;
        for (size_t i = 0; i + 1 < order.size(); ++i) sorted = sorted && val(order[i]) <= val(order[i + 1]);
        if (!sorted) continue;
        double range = val(order.back()) - val(order[0]);
        std::vector<double> c(front.size(), 0);
        c[size_t(order[0])] = c[size_t(order.back())] = Inf;
        for (size_t i = 1; i + 1 < order.size(); ++i) c[size_t(order[i])] = range ? (val(order[i + 1]) - val(order[i - 1])) / range : 0;
        r.insert(c);
    } while (std::next_permutation(order.begin(), order.end()));
    return r;
}
static bool crowding_is(const std::vector<const Sol*>& front, const std::vector<double>& got)
{
    if (front.size() <= 2) { for (double x : got) if (x != Inf) return false; return true; }
    std::set<std::vector<double>> sums = {std::vector<double>(front.size(), 0)};
    for (unsigned obj = 0; obj < Dir::nObjectives(); ++obj) {
        std::set<std::vector<double>> next;
        for (auto& s : sums) for (auto& c : contributions(front, obj)) {
            std::vector<double> t = s;
            for (size_t i = 0; i < t.size(); ++i) t[i] = t[i] == Inf || c[i] == Inf ? Inf : t[i] + c[i];
            next.insert(t);
        }
        sums = next;
    }
    for (auto& s : sums) {
        bool ok = true;
        for (size_t i = 0; i < s.size(); ++i) ok = ok && (s[i] == Inf ? got[i] == Inf : std::fabs(got[i] - s[i]) < 1e-9);
        if (ok) return true;
    }
    return false;
}
template <class A> static void crowding(A& assign, eoPop<Sol> p, bool by_front, const char* what)
{
    eoPop<Sol> before = p;
    assign(p);
    same_people(before, p);
    std::map<double, std::vector<const Sol*>> fronts;
    for (auto& s : p) fronts[by_front ? double(s.fitness()) : 0].push_back(&s);
    for (auto& f : fronts) {
        std::vector<double> got;
        for (const Sol* s : f.second) got.push_back(s->diversity());
        // two or less in all: everybody counts as extreme
        MC_CHECK(crowding_is(f.second, got), what, show_pop(p) << divs(p) << " in the front of fitness " << f.first);
    }
}
static void any_crowding(unsigned n, unsigned hi, unsigned k)
{
    directions(n, mc::choose(1u << n));
    eoPop<Sol> p = any_solutions(1, hi, k);
    mc::state(mc::mix(dirs(), hash_pop(p)));
    for (auto& s : p) s.fitness(1);
    moeoCrowdingDiversityAssignment<Sol> whole;
    moeoFrontByFrontCrowdingDiversityAssignment<Sol> fronts;
    crowding(whole, p, false, "crowding");
    crowding(fronts, p, true, "crowding of one front");
    crowding(whole, p, false, "crowding, used again");
}
MC_SCENARIO("crowding, one objective") { any_crowding(1, 5, 3); }
MC_SCENARIO("crowding, two objectives") { any_crowding(2, mc::tier(3, 4), 3); }
MC_SCENARIO("crowding, two objectives, more individuals") { any_crowding(2, 5, 2); }
MC_SCENARIO("crowding, three objectives") { any_crowding(3, mc::tier(3, 4), 2); }
MC_SCENARIO("crowding front by front")
{
    directions(2, mc::choose(4));
    eoPop<Sol> p = any_solutions(3, mc::tier(4, 5), 2);
    for (auto& s : p) s.fitness(mc::choose(2));
    uint64_t h = hash_pop(p);
    for (auto& s : p) h = mc::mix(h, uint64_t(double(s.fitness())));
    mc::state(mc::mix(dirs(), h));
    moeoFrontByFrontCrowdingDiversityAssignment<Sol> fronts;
    crowding(fronts, p, true, "crowding by fronts");
}
MC_SCENARIO("crowding front by front, values and signs")
{
    directions(2, mc::choose(4));
    const double x[] = {-3, 0, 0.5, 7};
    eoPop<Sol> p;
    unsigned m = mc::range(3, 4);
    for (unsigned i = 0; i < m; ++i) { double a = x[mc::choose(4)]; p.push_back(sol(int(i), ov({a, m == 4 ? x[(i * 3) % 4] : x[mc::choose(4)]}))); p.back().fitness(i == 3 ? 2 : 1); }
    mc::state(mc::mix(dirs(), hash_pop(p)));
    moeoFrontByFrontCrowdingDiversityAssignment<Sol> fronts;
    moeoCrowdingDiversityAssignment<Sol> whole;
    crowding(fronts, p, true, "crowding by fronts");
    crowding(whole, p, false, "crowding");
}

static double euclid(const OV& a, const OV& b, double scale = 1) { double s = 0; for (unsigned i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s) * scale; }
static double taxi(const OV& a, const OV& b, double scale = 1) { double s = 0; for (unsigned i = 0; i < a.size(); ++i) s += std::fabs(a[i] - b[i]); return s * scale; }
static void any_sharing(unsigned n, unsigned hi, unsigned k)
{
    directions(n, mc::pick({0, (1 << n) - 1}));
    eoPop<Sol> p = any_solutions(1, hi, k);
    double niche = mc::pick({0.5, 1., 1.75}), alpha = mc::pick({1., 2.});
    for (auto& s : p) s.fitness(mc::choose(2));
    uint64_t h = mc::mix(hash_pop(p), mc::hashv(std::vector<double>{niche, alpha}));
    for (auto& s : p) h = mc::mix(h, uint64_t(double(s.fitness())));
    mc::state(mc::mix(dirs(), h));
    moeoManhattanDistance<Sol> manhattan;
    moeoSharingDiversityAssignment<Sol> a(niche, alpha), b(manhattan, niche, alpha);
    moeoFrontByFrontSharingDiversityAssignment<Sol> c(niche, alpha), d(manhattan, niche, alpha);
    for (int which = 0; which < 4; ++which) {
        moeoSharingDiversityAssignment<Sol>& assign = which == 0 ? a : which == 1 ? b : which == 2 ? (moeoSharingDiversityAssignment<Sol>&)c : d;
        eoPop<Sol> q = p;
        assign(q);
        same_people(p, q);
        std::vector<double> share(p.size(), 0), want;
        for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) {
            if (which >= 2 && p[i].fitness() != p[j].fitness()) continue;
            double dist = which % 2 ? taxi(p[i].objectiveVector(), p[j].objectiveVector()) : euclid(p[i].objectiveVector(), p[j].objectiveVector());
            if (dist < niche) share[i] += 1 - std::pow(dist / niche, alpha);
        }
        double top = *std::max_element(share.begin(), share.end());
        bool ok = true;
        for (size_t i = 0; i < p.size(); ++i) { want.push_back(top - share[i]); ok = ok && std::fabs(by_id(q, int(i)).diversity() - want[i]) < 1e-9; }
        MC_CHECK(ok, which < 2 ? "sharing" : "sharing by fronts", show_pop(p) << divs(q) << " want " << mc::show(want) << " niche " << niche << " alpha " << alpha);
    }
}
MC_SCENARIO("sharing, one objective") { any_sharing(1, 4, 3); }
MC_SCENARIO("sharing, two objectives") { any_sharing(2, 3, mc::tier(2, 3)); }
MC_SCENARIO("nearest neighbours")
{
    unsigned n = any_directions(1, 2);
    unsigned k = n == 1 ? 4 : 2;
    eoPop<Sol> p = any_solutions(1, n == 1 ? 3 : mc::tier(2, 3), k);
    moeoUnboundedArchive<Sol> none, arch;
    unsigned in_archive = mc::choose(3), index = mc::range(1, 3);
    for (unsigned i = 0; i < in_archive; ++i) arch.push_back(sol(int(100 + i), any_ov(k)));
    mc::state(mc::mix(mc::mix(dirs(), hash_pop(p)), mc::mix(hash_pop(arch), index)));
    moeoManhattanDistance<Sol> manhattan;
    moeoNearestNeighborDiversityAssignment<Sol> a(index), b(arch, index), c(manhattan, index), d(manhattan, arch, index);
    for (int which = 0; which < 4; ++which) {
        bool with = which % 2, man = which >= 2;
        moeoNearestNeighborDiversityAssignment<Sol>& assign = which == 0 ? a : which == 1 ? b : which == 2 ? c : d;
        eoPop<Sol> q = p;
        assign(q);
        same_people(p, q);
        std::vector<const Sol*> all;
        for (auto& s : q) all.push_back(&s);
        if (with) for (auto& s : arch) all.push_back(&s);
        for (const Sol* s : all) {
            std::vector<double> dist;
            for (const Sol* t : all) if (t != s) dist.push_back(man ? taxi(s->objectiveVector(), t->objectiveVector()) : euclid(s->objectiveVector(), t->objectiveVector()));
            std::sort(dist.begin(), dist.end());
            double want = dist.empty() ? 0 : -1 / (2 + dist[std::min(size_t(index), dist.size()) - 1]);
            // nobody else: as far away as can be
            MC_CHECK(std::fabs(s->diversity() - want) < 1e-9, "nearest neighbour", show_pop(q) << divs(q) << " archive " << show_pop(arch) << " neighbour " << index << " want " << want);
        }
    }
}
MC_SCENARIO("distances")
{
    unsigned n = any_directions(1, 3);
    OV a = any_ov(3), b = any_ov(3);
    mc::state(mc::mix(dirs(), mc::mix(mc::hashv(std::vector<double>(a)), mc::hashv(std::vector<double>(b)))));
    Sol s = sol(0, a), t = sol(1, b);
    OV low, high;
    for (unsigned i = 0; i < n; ++i) { low[i] = -1; high[i] = 1; }
    moeoObjectiveVectorNormalizer<Sol> scaled(low, high, 4);
    moeoEuclideanDistance<Sol> e, es(scaled);
    moeoManhattanDistance<Sol> m, ms(scaled);
    volatile char junk[4096];
    for (auto& c : junk) c = 0x11;
    (void)junk;
    moeoDistance<Sol, double>&de = e, &des = es, &dm = m, &dms = ms;
    MC_CHECK(mc::close(de(s, t), euclid(a, b), 1e-12) && mc::close(e(a, b), euclid(a, b), 1e-12), "euclidean", show_ov(a) << show_ov(b));
    MC_CHECK(mc::close(des(s, t), euclid(a, b, 2), 1e-12), "normalised euclidean", show_ov(a) << show_ov(b) << " " << des(s, t));
    MC_CHECK(mc::close(dm(s, t), taxi(a, b), 1e-12) && mc::close(m(a, b), taxi(a, b), 1e-12), "manhattan", show_ov(a) << show_ov(b));
    MC_CHECK(mc::close(dms(s, t), taxi(a, b, 2), 1e-12), "normalised manhattan", show_ov(a) << show_ov(b) << " " << dms(s, t));
}
MC_SCENARIO("distance matrix")
{
    directions(2, 3);
    eoPop<Sol> p = any_solutions(1, 3, 3);
    mc::state(hash_pop(p));
    moeoEuclideanDistance<Sol> e;
    moeoDistanceMatrix<Sol, double> m(p.size(), e);
    m(p);
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j)
        MC_CHECK(mc::close(m[i][j], euclid(p[i].objectiveVector(), p[j].objectiveVector()), 1e-12), "matrix", show_pop(p));
    // dummy diversity leaves what is there and gives the rest zero
    eoPop<Sol> q = p;
    if (q.size() > 1) q[1].diversity(5);
    moeoDummyDiversityAssignment<Sol> dummy;
    dummy(q);
    for (size_t i = 0; i < q.size(); ++i) MC_CHECK(q[i].diversity() == (i == 1 ? 5 : 0), "dummy", show_pop(q) << divs(q));
}
// a distance of one's own over the normalised objectives: the share assignment gives it the population
struct Scaled : moeoNormalizedDistance<Sol> {
    const double operator()(const Sol& a, const Sol& b) override
    {
        double s = 0;
        for (unsigned i = 0; i < Dir::nObjectives(); ++i) s += std::fabs(a.objectiveVector()[i] - b.objectiveVector()[i]) / bounds[i].range();
        return s;
    }
    std::vector<eoRealInterval>& all() { return bounds; }
};
MC_SCENARIO("normalised distances follow the population")
{
    unsigned n = any_directions(1, 2);
    Scaled d;
    for (auto& b : d.all()) MC_CHECK(b.minimum() == 0 && b.maximum() == 1, "range at first", b.minimum() << " " << b.maximum());
    uint64_t h = dirs();
    // two generations in turn
    for (int g = 0; g < 2; ++g) {
        eoPop<Sol> p = any_solutions(1, n == 1 ? 3 : 2, 3);
        h = mc::mix(h, hash_pop(p));
        d.setup(p);
        std::vector<double> lo(n), hi(n);
        for (unsigned i = 0; i < n; ++i) {
            lo[i] = hi[i] = p[0].objectiveVector()[i];
            for (auto& s : p) { lo[i] = std::min(lo[i], double(s.objectiveVector()[i])); hi[i] = std::max(hi[i], double(s.objectiveVector()[i])); }
            if (lo[i] == hi[i]) MC_CHECK(d.all()[i].isInBounds(lo[i]) && d.all()[i].range() > 0 && d.all()[i].range() < 1e-3, "flat range", d.all()[i].minimum() << " " << d.all()[i].maximum());
            else MC_CHECK(d.all()[i].minimum() == lo[i] && d.all()[i].maximum() == hi[i], "range", "objective " << i << " of " << show_pop(p) << " is " << d.all()[i].minimum() << " to " << d.all()[i].maximum());
        }
        // through the assignment
        for (auto& s : p) s.fitness(0);
        moeoSharingDiversityAssignment<Sol> share(d, 1.5, 1.);
        eoPop<Sol> q = p;
        share(q);
        std::vector<double> c(p.size(), 0);
        for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) {
            double x = 0;
            for (unsigned o = 0; o < n; ++o) if (hi[o] > lo[o]) x += std::fabs(p[i].objectiveVector()[o] - p[j].objectiveVector()[o]) / (hi[o] - lo[o]);
            if (x < 1.5) c[i] += 1 - x / 1.5;
        }
        double top = *std::max_element(c.begin(), c.end());
        for (size_t i = 0; i < p.size(); ++i) MC_CHECK(std::fabs(by_id(q, int(i)).diversity() - (top - c[i])) < 1e-9, "normalised sharing", show_pop(p) << divs(q));
    }
    d.setup(eoRealInterval(-2, 5), n - 1);
    d.setup(1., 1., 0);
    if (n > 1) MC_CHECK(d.all()[1].minimum() == -2 && d.all()[1].maximum() == 5, "range given", "");
    MC_CHECK(d.all()[0].minimum() < 1 && d.all()[0].maximum() > 1, "point given", "");
    mc::state(h);
}
