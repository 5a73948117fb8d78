// Archives after every short history of insertions, against the set of what was offered.
#include "moeo.hpp"
#include <archive/moeo2DMinHypervolumeArchive.h>
#include <archive/moeoEpsilonHyperboxArchive.h>
#include <archive/moeoFitDivBoundedArchive.h>
#include <archive/moeoImprOnlyBoundedArchive.h>
#include <archive/moeoSPEA2Archive.h>
#include <archive/moeoUnboundedArchive.h>
#include <scalarStuffs/archive/moeoIndexedArchive.h>
#include <scalarStuffs/archive/moeoQuadTree.h>
#include <scalarStuffs/archive/moeoQuickUnboundedArchiveIndex.h>

template <class A> static uint64_t hash_archive(const A& a)
{
    std::vector<uint64_t> h;
    for (auto& s : a) h.push_back(mc::mix(uint64_t(id_of(s)), mc::hashv(std::vector<double>(s.objectiveVector()))));
    std::sort(h.begin(), h.end());
    return mc::mix(dirs(), mc::hashv(h));
}
typedef std::function<bool(const OV&, const OV&)> Worse;
// the archive as its definition says: newcomer drives out what it dominates (and its equals), enters unless dominated
struct Model {
    Worse worse;
    bool replace;
    std::vector<Sol> in;
    bool offer(const Sol& s, unsigned capacity = ~0u)
    {
        std::vector<Sol> kept;
        for (auto& x : in) if (!worse(x.objectiveVector(), s.objectiveVector()) && !(replace && x.objectiveVector() == s.objectiveVector())) kept.push_back(x);
        in = kept;
        for (auto& x : in) if (worse(s.objectiveVector(), x.objectiveVector()) || x.objectiveVector() == s.objectiveVector()) return false;
        if (in.size() >= capacity) return false;
        in.push_back(s);
        return true;
    }
    std::multiset<int> ids() const { std::multiset<int> r; for (auto& x : in) r.insert(id_of(x)); return r; }
};
template <class A> static std::multiset<int> ids(const A& a) { std::multiset<int> r; for (auto& x : a) r.insert(id_of(x)); return r; }
template <class A> static void genuine(const A& a, const std::vector<Sol>& offered)
{
    for (auto& x : a) MC_CHECK(id_of(x) >= 0 && id_of(x) < int(offered.size()) && x.objectiveVector() == offered[id_of(x)].objectiveVector(), "not what was offered", id_of(x) << " " << show_ov(x.objectiveVector()));
}
template <class A> static void nondominated(const A& a, const std::vector<Sol>& offered)
{
    for (auto& x : a) for (auto& y : a) MC_CHECK(!dominates(x.objectiveVector(), y.objectiveVector()), "dominated member", show_ov(y.objectiveVector()) << " by " << show_ov(x.objectiveVector()) << " after " << offered.size());
}
static std::string story(const std::vector<Sol>& o) { std::string s = " after"; for (auto& x : o) s += " " + show_ov(x.objectiveVector()); return s; }

// offer a history one by one or in one population; returns false when nothing more is to be compared
template <class A> static void history(A& arch, Model& m, unsigned steps, unsigned values, unsigned capacity = ~0u)
{
    std::vector<Sol> offered;
    bool lump = mc::flag();
    eoPop<Sol> pop;
    bool want = false;
    for (unsigned k = 0; k < steps; ++k) {
        Sol s = sol(int(k), any_ov(values));
        offered.push_back(s);
        bool in = m.offer(s, capacity);
        want = want || in;
        if (lump) { pop.push_back(s); if (k + 1 < steps) continue; }
        Mute mute;
        bool got = lump ? arch(pop) : arch(s);
        mc::state(mc::mix(k, hash_archive(arch)));
        MC_CHECK(ids(arch) == m.ids(), "members", mc::show(ids(arch)) << " for " << mc::show(m.ids()) << story(offered));
        MC_CHECK(got == (lump ? want : in), "answer", got << story(offered));
        genuine(arch, offered);
        for (auto& o : offered) {
            bool have = false, dom = false;
            for (auto& x : m.in) { have = have || x.objectiveVector() == o.objectiveVector(); dom = dom || m.worse(o.objectiveVector(), x.objectiveVector()); }
            MC_CHECK(arch.contains(o.objectiveVector()) == have, "contains", story(offered));
            MC_CHECK(arch.dominates(o.objectiveVector()) == dom, "dominates", story(offered));
        }
    }
}
MC_SCENARIO("the archive is the non-dominated set")
{
    any_directions(1, 2);
    bool replace = mc::flag();
    moeoUnboundedArchive<Sol> arch(replace);
    Model m{[](const OV& a, const OV& b) { return dominates(b, a); }, replace, {}};
    history(arch, m, mc::tier(4, 5), 3);
    nondominated(arch, {});
}
MC_SCENARIO("the archive is the non-dominated set of three objectives")
{
    directions(3, mc::choose(8));
    bool replace = mc::flag();
    moeoUnboundedArchive<Sol> arch(replace);
    Model m{[](const OV& a, const OV& b) { return dominates(b, a); }, replace, {}};
    history(arch, m, 3, mc::tier(2, 3));
    nondominated(arch, {});
}
MC_SCENARIO("archives with another dominance")
{
    directions(2, mc::choose(4));
    int which = mc::choose(3);
    bool replace = mc::flag();
    moeoStrictObjectiveVectorComparator<OV> strict;
    moeoParetoObjectiveVectorComparator<OV> pareto;
    OV ref;
    ref[0] = 1, ref[1] = 1;
    moeoGDominanceObjectiveVectorComparator<OV> g(ref);
    moeoObjectiveVectorComparator<OV>* c[] = {&strict, &pareto, &g};
    Worse w[] = {[&](const OV& a, const OV& b) { return better(b, a, 0) && better(b, a, 1); },
                 [&](const OV& a, const OV& b) { return dominates(b, a); },
                 [&](const OV& a, const OV& b) { return g(a, b); }};
    moeoUnboundedArchive<Sol> arch(*c[which], replace);
    Model m{w[which], replace, {}};
    history(arch, m, mc::tier(3, 4), 3);
}
MC_SCENARIO("archives are equal when they hold the same objectives")
{
    directions(2, 3);
    moeoUnboundedArchive<Sol> a, b;
    eoPop<Sol> p = any_solutions(0, 3, 2), q = any_solutions(0, 3, 2);
    a(p), b(q);
    std::set<std::vector<double>> x, y;
    for (auto& s : a) x.insert(s.objectiveVector());
    for (auto& s : b) y.insert(s.objectiveVector());
    mc::state(mc::mix(hash_archive(a), hash_archive(b)));
    MC_CHECK(a.equals(b) == (x == y) && b.equals(a) == (x == y), "equality", show_pop(p) << show_pop(q));
}
MC_SCENARIO("an archive that only takes improvements when full")
{
    directions(2, mc::choose(4));
    bool replace = mc::flag();
    unsigned cap = mc::range(1, 3);
    moeoImprOnlyBoundedArchive<Sol> arch(cap, replace);
    Model m{[](const OV& a, const OV& b) { return dominates(b, a); }, replace, {}};
    history(arch, m, mc::tier(4, 5), 3, cap);
    MC_CHECK(arch.size() <= cap, "capacity", arch.size());
    nondominated(arch, {});
}
// fitness and diversity of each solution are fixed by its identity
struct AnyFitness : moeoFitnessAssignment<Sol> {
    std::vector<double> f;
    void operator()(eoPop<Sol>& p) override { for (auto& s : p) s.fitness(f[id_of(s)]); }
    void updateByDeleting(eoPop<Sol>&, OV&) override {}
};
struct AnyDiversity : moeoDiversityAssignment<Sol> {
    std::vector<double> d;
    void operator()(eoPop<Sol>& p) override { for (auto& s : p) s.diversity(d[id_of(s)]); }
    void updateByDeleting(eoPop<Sol>&, OV&) override {}
};
MC_SCENARIO("a bounded archive drops the worst")
{
    directions(2, mc::pick({3, 1}));
    unsigned cap = mc::range(1, 2), steps = 4;
    bool lump = mc::flag();
    AnyFitness fit;
    AnyDiversity div;
    std::vector<Sol> offered;
    eoPop<Sol> pop;
    moeoFitnessThenDiversityComparator<Sol> better_sol;
    moeoFitDivBoundedArchive<Sol> arch(better_sol, fit, div, cap);
    for (unsigned k = 0; k < steps; ++k) {
        OV v;                                        // mostly on the front
        v[0] = mc::choose(3);
        v[1] = mc::flag() ? Dir::minimizing(0) == Dir::minimizing(1) ? 2 - v[0] : v[0] : 1;
        offered.push_back(sol(int(k), v));
        int r = mc::choose(3);
        fit.f.push_back(r / 2), div.d.push_back(r % 2);
        pop.push_back(offered.back());
        if (lump && k + 1 < steps) continue;
        Model m{[](const OV& a, const OV& b) { return dominates(b, a); }, true, {}};
        for (auto& s : arch) m.in.push_back(s);
        if (lump) for (auto& s : pop) m.offer(s); else m.offer(offered.back());
        if (lump) arch(pop); else arch(offered.back());
        mc::state(mc::mix(mc::mix(k, mc::hashv(fit.f)), mc::mix(mc::hashv(div.d), hash_archive(arch))));
        genuine(arch, offered);
        nondominated(arch, offered);
        MC_CHECK(arch.size() == std::min<size_t>(cap, m.in.size()), "size", arch.size() << " of " << m.in.size() << " capacity " << cap);
        auto rank = [&](const Sol& s) { return std::make_pair(fit.f[id_of(s)], div.d[id_of(s)]); };
        auto kept = ids(arch);
        for (auto& s : m.in) if (!kept.count(id_of(s))) for (auto& t : arch) MC_CHECK(!(rank(t) < rank(s)), "worst", "kept " << rank(t).first << "," << rank(t).second << " dropped " << rank(s).first << "," << rank(s).second);
    }
}
MC_SCENARIO("the archive of smallest hypervolume loss")
{
    directions(2, 3);
    unsigned cap = mc::range(2, 4), steps = mc::tier(4, 5);
    double top = 1000;
    std::vector<Sol> offered;
    moeo2DMinHypervolumeArchive<Sol> arch(cap, top);
    bool lump = mc::flag();
    for (unsigned k = 0; k < steps; ++k) {
        OV v;
        v[0] = mc::choose(4), v[1] = mc::choose(4);
        offered.push_back(sol(int(k), v));
        Model m{[](const OV& a, const OV& b) { return dominates(b, a); }, false, {}};
        for (auto& s : arch) m.in.push_back(s);
        bool in = m.offer(offered.back());
        Mute mute;
        bool got;
        if (lump) { eoPop<Sol> one; one.push_back(offered.back()); got = arch(one); }
        else got = arch(offered.back());
        mc::state(mc::mix(k * 8 + cap, hash_archive(arch)));
        genuine(arch, offered);
        nondominated(arch, offered);
        MC_CHECK(arch.size() <= cap && arch.size() == std::min<size_t>(cap, m.in.size()), "capacity", arch.size() << " of " << m.in.size() << story(offered));
        auto now = ids(arch), all = m.ids();
        MC_CHECK(std::includes(all.begin(), all.end(), now.begin(), now.end()), "members", mc::show(now) << " for " << mc::show(all) << story(offered));
        MC_CHECK(got == bool(now.count(int(k))) && (in || !got), "answer", got << story(offered));
        // what each point adds
        std::sort(m.in.begin(), m.in.end(), [](const Sol& a, const Sol& b) { return a.objectiveVector()[1] < b.objectiveVector()[1]; });
        auto adds = [&](const std::vector<Sol>& f, size_t i) { return i == 0 || i + 1 == f.size() ? top : (f[i - 1].objectiveVector()[0] - f[i].objectiveVector()[0]) * (f[i + 1].objectiveVector()[1] - f[i].objectiveVector()[1]); };
        double least = top;
        for (size_t i = 0; i < m.in.size(); ++i) least = std::min(least, adds(m.in, i));
        for (size_t i = 0; i < m.in.size(); ++i) if (!now.count(id_of(m.in[i]))) MC_CHECK(adds(m.in, i) == least, "not the smallest loss", adds(m.in, i) << " rather than " << least << story(offered));
        std::vector<Sol> f(arch.begin(), arch.end());
        std::sort(f.begin(), f.end(), [](const Sol& a, const Sol& b) { return a.objectiveVector()[1] < b.objectiveVector()[1]; });
        for (size_t i = 0; i < f.size(); ++i) MC_CHECK(f[i].fitness() == adds(f, i), "contribution", f[i].fitness() << " for " << adds(f, i) << story(offered));
    }
}
template <class I> static void indexed(unsigned n, unsigned steps, unsigned values)
{
    directions(n, mc::choose(1u << n));
    I index;
    moeoIndexedArchive<Sol> arch(index);
    Model m{[](const OV& a, const OV& b) { return dominates(b, a); }, false, {}};
    history(arch, m, steps, values);
    nondominated(arch, {});
}
MC_SCENARIO("a sorted index gives the non-dominated set") { indexed<moeoQuickUnboundedArchiveIndex<Sol>>(2, mc::tier(4, 5), 3); }
MC_SCENARIO("a tree index gives the non-dominated set of two objectives") { indexed<moeoQuadTree<Sol>>(2, mc::tier(4, 5), 3); }
MC_SCENARIO("a tree index gives the non-dominated set of three objectives") { indexed<moeoQuadTree<Sol>>(3, mc::tier(4, 5), 2); }
MC_SCENARIO("a tree index after many insertions")
{
    // a front of distinct points in any order, then points that dominate several of them
    directions(3, mc::pick({7, 0, 5}));
    moeoQuadTree<Sol> index;
    moeoIndexedArchive<Sol> arch(index);
    Model m{[](const OV& a, const OV& b) { return dominates(b, a); }, false, {}};
    static const double front[6][3] = {{0, 3, 3}, {3, 0, 3}, {3, 3, 0}, {1, 2, 3}, {3, 1, 2}, {2, 3, 1}};
    static const double hit[5][3] = {{0, 0, 3}, {1, 1, 1}, {0, 2, 2}, {2, 2, 0}, {0, 0, 0}};
    auto put = [&](const double* x, int k) {
        OV v;
        for (unsigned i = 0; i < 3; ++i) v[i] = Dir::minimizing(i) ? x[i] : -x[i];
        Sol s = sol(k, v);
        bool in = m.offer(s), got = arch(s);
        mc::state(mc::mix(k, hash_archive(arch)));
        MC_CHECK(ids(arch) == m.ids() && got == in, "members", mc::show(ids(arch)) << " for " << mc::show(m.ids()) << " step " << k);
    };
    std::vector<int> left{0, 1, 2, 3, 4, 5};
    unsigned count = mc::tier(4, 6);
    for (unsigned k = 0; k < count; ++k) { unsigned i = mc::choose(left.size()); put(front[left[i]], int(k)); left.erase(left.begin() + i); }
    for (unsigned k = 0; k < 2; ++k) put(hit[mc::choose(5)], int(count + k));
}
MC_SCENARIO("the environmental archive")
{
    // SPEA2: full archives keep the non-dominated first (fitness above -1), and thin out the closest
    directions(2, 3);
    unsigned cap = mc::range(1, 2), rounds = 2;
    moeoSPEA2Archive<Sol> arch(cap);
    std::vector<Sol> offered;
    for (unsigned r = 0; r < rounds; ++r) {
        eoPop<Sol> pop;
        unsigned per = r ? mc::range(1, 2) : mc::range(1, cap + 1);
        for (unsigned k = 0; k < per; ++k) {
            Sol s(1, int(offered.size()));
            OV v;
            v[0] = mc::pick({0., 1., 3.}), v[1] = 3 - v[0];
            s.objectiveVector(v);
            int c = mc::choose(3);
            s.fitness(c == 0 ? 0. : c == 1 ? -1. : -2.);
            s.diversity(mc::flag() ? -0.25 : -0.5);
            offered.push_back(s);
            pop.push_back(s);
        }
        std::vector<Sol> all(arch.begin(), arch.end());
        bool full = arch.size() == cap;
        for (auto& s : pop) all.push_back(s);
        arch(pop);
        mc::state(mc::mix(r * 4 + cap, hash_archive(arch)));
        genuine(arch, offered);
        auto now = ids(arch);
        for (int i : now) MC_CHECK(now.count(i) == 1, "kept twice", mc::show(now));
        MC_CHECK(arch.size() == std::min<size_t>(cap, all.size()), "size", arch.size() << " capacity " << cap);
        for (int i : now) { bool known = false; for (auto& s : all) known = known || id_of(s) == i; MC_CHECK(known, "came back", i); }
        auto val = [&](const Sol& s) { return s.fitness() + s.diversity(); };
        if (full) {
            size_t front = 0;
            for (auto& s : all) front += s.fitness() > -1;
            size_t have = 0;
            for (auto& s : arch) have += s.fitness() > -1;
            MC_CHECK(have == std::min<size_t>(cap, front), "front", have << " of " << front << " capacity " << cap);
            for (auto& s : all) if (!now.count(id_of(s)) && s.fitness() <= -1) for (auto& t : arch) if (t.fitness() <= -1) MC_CHECK(val(t) >= val(s), "worst", "kept " << val(t) << " dropped " << val(s));
            if (front == all.size() && front == cap + 1) {      // one too many on the front: one of the most crowded goes
                auto near = [&](const Sol& s) {
                    std::vector<double> d;
                    for (auto& t : all) if (id_of(t) != id_of(s)) d.push_back(std::fabs(t.objectiveVector()[0] - s.objectiveVector()[0]));
                    std::sort(d.begin(), d.end());
                    return d;
                };
                for (auto& s : all) if (!now.count(id_of(s))) for (auto& t : all) MC_CHECK(near(s) <= near(t), "crowded", mc::show(near(s)) << " dropped, " << mc::show(near(t)) << " kept");
            }
        }
    }
}
MC_SCENARIO("an archive of boxes")
{
    unsigned n = mc::range(2, 3);
    directions(n, mc::choose(1u << n));
    std::vector<double> eps(n, mc::pick({0.1, 0.5}));
    moeoEpsilonHyperboxArchive<Sol> arch(eps);
    std::vector<Sol> offered;
    unsigned steps = n == 2 ? mc::tier(4, 5) : 3;
    for (unsigned k = 0; k < steps; ++k) {
        offered.push_back(sol(int(k), any_ov(n == 2 ? 3 : 2)));
        Mute mute;
        bool got = arch(offered.back());
        mc::state(mc::mix(k, hash_archive(arch)));
        genuine(arch, offered);
        MC_CHECK(arch.size() > 0, "empty", story(offered));
        auto now = ids(arch);
        for (int i : now) MC_CHECK(now.count(i) == 1, "kept twice", mc::show(now));
        nondominated(arch, offered);
        MC_CHECK(got || !now.count(int(k)), "answer", got << story(offered));
        OV ideal = arch.getIdeal(), nadir = arch.getNadir();
        for (unsigned i = 0; i < n; ++i) {
            double b = arch[0].objectiveVector()[i], w = b;
            for (auto& s : arch) { double x = s.objectiveVector()[i]; if (Dir::minimizing(i)) b = std::min(b, x), w = std::max(w, x); else b = std::max(b, x), w = std::min(w, x); }
            MC_CHECK(ideal[i] == b && nadir[i] == w, "bounds", ideal[i] << " " << nadir[i] << " for " << b << " " << w << story(offered));
        }
    }
}
