// P07: dominance-based multi-objective local search.
#include "moeo.hpp"
#include <set>
#include <map>
#include <neighborhood/moNeighbor.h>
#include <neighborhood/moIndexNeighbor.h>
#include <neighborhood/moOrderNeighborhood.h>
#include <neighborhood/moRndWithoutReplNeighborhood.h>
#include <eval/moEval.h>
#include <utils/moeoFullEvalByCopy.h>

typedef moeoBitVector<OV> BV;
struct Flip : moIndexNeighbor<BV, OV> {
    void move(BV& s) override { s[this->key] = !s[this->key]; }
};
static const unsigned BITS = 2;
static std::vector<OV> table;
static unsigned num(const BV& s) { unsigned x = 0; for (unsigned i = 0; i < s.size(); ++i) x |= unsigned(s[i]) << i; return x; }
static BV make(unsigned x, unsigned bits) { BV s(bits); for (unsigned i = 0; i < bits; ++i) s[i] = (x >> i) & 1; return s; }
// every landscape of two bits over few vectors
static uint64_t any_landscape(unsigned kinds)
{
    static const double v[4][2] = { {0, 1}, {1, 0}, {1, 1}, {0, 0} };
    directions(2, mc::pick({3, 2}));
    table.clear();
    uint64_t h = dirs();
    for (unsigned i = 0; i < (1u << BITS); ++i) { unsigned k = mc::choose(kinds); h = mc::mix(h, k); table.push_back(ov({v[k][0], v[k][1]})); }
    return h;
}
// three bits: some landscapes
static uint64_t some_landscape()
{
    static const double f[3][8][2] = {
        { {0, 3}, {1, 2}, {1, 2}, {2, 1}, {1, 2}, {2, 1}, {2, 1}, {3, 0} },     // everything on the front
        { {3, 3}, {2, 2}, {1, 3}, {2, 0}, {3, 1}, {0, 2}, {2, 2}, {1, 1} },
        { {0, 0}, {3, 1}, {1, 3}, {2, 2}, {2, 2}, {1, 2}, {2, 1}, {0, 1} },
    };
    directions(2, mc::pick({3, 0}));
    unsigned k = mc::choose(3);
    table.clear();
    for (unsigned i = 0; i < 8; ++i) table.push_back(ov({f[k][i][0], f[k][i][1]}));
    return mc::mix(dirs(), k + 100);
}
static bool dom(unsigned a, unsigned b) { return dominates(table[a], table[b]); }

struct Eval : eoEvalFunc<BV> {
    void operator()(BV& s) override { if (s.invalidObjectiveVector()) s.objectiveVector(table[num(s)]); }
};
// looks at what the explorer hands over and counts neighbours
struct IncEval : moEval<Flip> {
    std::map<unsigned, std::vector<unsigned>> asked;      // solution -> keys, in order
    void operator()(BV& s, Flip& n) override
    {
        MC_CHECK(!s.invalidObjectiveVector() && s.objectiveVector() == table[num(s)], "evaluated solution", "neighbour of a solution with another's objective vector");
        asked[num(s)].push_back(n.index());
        n.fitness(table[num(s) ^ (1u << n.index())]);
    }
};
static void honest(const char* where, const eoPop<BV>& p)
{
    for (auto& s : p) MC_CHECK(!s.invalidObjectiveVector() && s.objectiveVector() == table[num(s)], "objective vector", where << ": " << num(s) << " has another's vector");
}
struct Tools {
    Eval full;
    IncEval inc;
    moOrderNeighborhood<Flip> order;
    moRndWithoutReplNeighborhood<Flip> shuffled;
    unsigned bits;
    Tools(unsigned bits) : order(bits), shuffled(bits), bits(bits) {}
    moNeighborhood<Flip>& around(bool random) { return random ? (moNeighborhood<Flip>&)shuffled : order; }
};
enum Way { All, First, NotWorse, Some };
static moeoPopNeighborhoodExplorer<Flip>* explorer(Way w, Tools& t, bool random, unsigned number)
{
    switch (w) {
    case All: return new moeoExhaustiveNeighborhoodExplorer<Flip>(t.around(random), t.inc);
    case First: return new moeoFirstImprovingNeighborhoodExplorer<Flip>(t.around(random), t.inc);
    case NotWorse: return new moeoNoDesimprovingNeighborhoodExplorer<Flip>(t.around(random), t.inc);
    default: return new moeoSimpleSubNeighborhoodExplorer<Flip>(t.around(random), number, t.inc);
    }
}
// what the strategy must produce from the neighbours it was shown, in their order
static std::vector<unsigned> expected(Way w, unsigned from, const std::vector<unsigned>& keys, unsigned bits, unsigned number, bool& enough, bool& whole)
{
    std::vector<unsigned> out;
    std::set<unsigned> distinct(keys.begin(), keys.end());
    MC_CHECK(distinct.size() == keys.size(), "twice", "a neighbour looked at twice: " << mc::show(keys));
    for (unsigned k : keys) MC_CHECK(k < bits, "neighbour", k);
    enough = false;
    for (size_t i = 0; i < keys.size(); ++i) {
        MC_CHECK(!enough, "goes on", "more neighbours of " << from << " than the strategy needs: " << mc::show(keys));
        unsigned to = from ^ (1u << keys[i]);
        if (w == All || w == Some) out.push_back(to);
        else if (!dom(from, to)) out.push_back(to);
        if (w == First && dom(to, from)) enough = true;
        if (w == NotWorse && !dom(from, to)) enough = true;
        if (w == Some && i + 1 == number) enough = true;
    }
    whole = keys.size() == bits;
    MC_CHECK(enough || whole || (w == Some && number == 0), "stops early", "only " << mc::show(keys) << " around " << from);
    return out;
}
static void explore(unsigned bits, uint64_t h, bool all_subsets)
{
    Tools t(bits);
    Way w = Way(mc::choose(4));
    bool random = mc::flag();
    unsigned number = w == Some ? mc::range(0, bits + 1) : 0;
    eoPop<BV> src, dest;
    unsigned n = mc::range(1, 2);
    for (unsigned i = 0; i < n; ++i) {
        unsigned x = mc::choose(1u << bits);
        for (auto& s : src) mc::assume(num(s) != x);
        BV s = make(x, bits);
        s.objectiveVector(table[x]); s.fitness(7); s.diversity(7);
        src.push_back(s);
    }
    if (mc::flag()) { BV s = make(0, bits); s.objectiveVector(table[0]); s.flag(1); dest.push_back(s); }
    size_t had = dest.size();
    std::vector<unsigned> chosen;
    unsigned mask = all_subsets ? mc::choose(1u << n) : (1u << n) - 1;
    for (unsigned i = 0; i < n; ++i) if ((mask >> i) & 1) chosen.push_back(i);
    std::unique_ptr<moeoPopNeighborhoodExplorer<Flip>> ex(explorer(w, t, random, number));
    mc::rng_words({0x19999999, 0xe6666666}, 6);
    for (auto& s : src) h = mc::mix(h, num(s));
    mc::state(mc::mix(h, mc::mix(w * 8 + number, mask * 2 + random)));
    eoPop<BV> before = src;
    (*ex)(src, chosen, dest);
    mc::step();
    honest("neighbours", dest);
    MC_CHECK(src.size() == before.size(), "source", "size");
    std::vector<unsigned> want;
    for (unsigned i = 0; i < n; ++i) {
        MC_CHECK(num(src[i]) == num(before[i]) && src[i].objectiveVector() == before[i].objectiveVector(), "source", "an explored solution changed");
        bool picked = (mask >> i) & 1;
        MC_CHECK(picked || t.inc.asked[num(src[i])].empty(), "unselected", "explored " << i << " though not selected");
        if (!picked) { MC_CHECK(src[i].flag() == 0, "marked", "solution " << i << " was not selected"); continue; }
        bool enough, whole;
        auto got = expected(w, num(src[i]), t.inc.asked[num(src[i])], bits, number, enough, whole);
        want.insert(want.end(), got.begin(), got.end());
        MC_CHECK(src[i].flag() == (whole ? 1 : 0), "marked", "flag " << src[i].flag() << " after " << t.inc.asked[num(src[i])].size() << " of " << bits << " neighbours, strategy " << w);
    }
    std::vector<unsigned> have;
    for (size_t i = had; i < dest.size(); ++i) { have.push_back(num(dest[i])); MC_CHECK(dest[i].flag() == 0, "new mark", "a neighbour is born visited"); }
    std::sort(have.begin(), have.end()), std::sort(want.begin(), want.end());
    MC_CHECK(have == want, "neighbours", "strategy " << w << " got " << mc::show(have) << " want " << mc::show(want));
}
MC_SCENARIO("explorers, two bits") { explore(2, any_landscape(mc::tier(3, 4)), true); }
MC_SCENARIO("explorers, three bits") { explore(3, some_landscape(), true); }

static void nondominated(const moeoArchive<BV>& a)
{
    for (auto& s : a) for (auto& u : a) MC_CHECK(!dominates(s.objectiveVector(), u.objectiveVector()), "archive", num(s) << " dominates " << num(u));
}
struct Cont : eoContinue<BV> {
    unsigned calls = 0, limit;
    moeoArchive<BV>& arch;
    std::vector<std::string> seen;
    bool all_visited = false;
    Cont(unsigned limit, moeoArchive<BV>& a) : limit(limit), arch(a) {}
    bool operator()(const eoPop<BV>& p) override
    {
        ++calls;
        mc::step();
        MC_CHECK(!all_visited, "too late", "goes on though everything was visited");
        honest("archive", p);
        nondominated(arch);
        all_visited = true;
        uint64_t h = calls;
        for (auto& s : p) { all_visited = all_visited && s.flag() == 1; h = mc::mix(h, num(s) * 2 + s.flag()); }
        mc::state(h);
        return calls < limit;
    }
};
// complete strategies end in a set no neighbour can improve
static void local_optimum(moeoArchive<BV>& arch, unsigned bits)
{
    for (auto& s : arch) for (unsigned k = 0; k < bits; ++k) {
        unsigned to = num(s) ^ (1u << k);
        bool covered = false;
        for (auto& u : arch) covered = covered || u.objectiveVector() == table[to] || dominates(u.objectiveVector(), table[to]);
        MC_CHECK(covered, "local optimum", "neighbour " << to << " of " << num(s) << " is not covered by the archive");
    }
}
static void search(unsigned bits, uint64_t h)
{
    Tools t(bits);
    unsigned kind = mc::choose(8), limit = mc::pick({1, 2, 30});
    bool random = kind >= 2 && mc::flag(), replace = mc::flag();
    moeoUnboundedArchive<BV> arch(replace);
    Cont cont(limit, arch);
    eoPop<BV> p;
    unsigned n = mc::range(1, 2);
    for (unsigned i = 0; i < n; ++i) p.push_back(make(mc::choose(1u << bits), bits));
    if (mc::flag()) p[0].objectiveVector(table[num(p[0])]);
    std::unique_ptr<moeoPopNeighborhoodExplorer<Flip>> ex;
    std::unique_ptr<moeoUnvisitedSelect<BV>> sel;
    std::unique_ptr<moeoUnifiedDominanceBasedLS<Flip>> algo;
    static const Way ways[] = { All, All, All, All, First, First, NotWorse, Some };
    Way w = ways[kind];
    if (kind == 0) algo.reset(new moeoPLS1<Flip>(cont, t.full, arch, t.order, t.inc));
    else if (kind == 1) algo.reset(new moeoPLS2<Flip>(cont, t.full, arch, t.order, t.inc));
    else {
        ex.reset(explorer(w, t, random, 1));
        if (kind % 2) sel.reset(new moeoNumberUnvisitedSelect<BV>(1)); else sel.reset(new moeoExhaustiveUnvisitedSelect<BV>());
        algo.reset(new moeoUnifiedDominanceBasedLS<Flip>(cont, t.full, arch, *ex, *sel));
    }
    mc::rng_deviate(3, random ? 1 : 2, random ? 6 : 4, 5);
    mc::state(mc::mix(h, kind * 100 + limit));
    (*algo)(p);
    honest("population", p);
    honest("result", arch);
    nondominated(arch);
    for (auto& s : p) { bool c = false; for (auto& u : arch) c = c || u.objectiveVector() == s.objectiveVector() || dominates(u.objectiveVector(), s.objectiveVector()); MC_CHECK(c, "start lost", "the archive does not cover the start"); }
    MC_CHECK(cont.calls <= limit, "too long", cont.calls << " rounds");
    MC_CHECK(cont.calls == limit || cont.all_visited, "too early", "ended after " << cont.calls << " of " << limit << " rounds with unvisited solutions");
    for (auto& s : arch) if (s.flag() == 1) {
        // visited means that its neighbourhood was looked at completely
        std::set<unsigned> keys(t.inc.asked[num(s)].begin(), t.inc.asked[num(s)].end());
        MC_CHECK(keys.size() == bits, "marked", "solution " << num(s) << " is marked after " << keys.size() << " of " << bits << " neighbours");
    }
    if (cont.all_visited) local_optimum(arch, bits);
    // the strategies that always finish a neighbourhood or leave the solution end by themselves,
    // unless equal vectors keep replacing each other
    if (w <= First && limit == 30 && !replace) MC_CHECK(cont.all_visited, "endless", "not finished after 30 rounds, kind " << kind);
}
MC_SCENARIO("searches, two bits") { search(2, any_landscape(mc::tier(3, 4))); }
MC_SCENARIO("searches, three bits") { search(3, some_landscape()); }

MC_SCENARIO("evaluation of a neighbour on a copy")
{
    uint64_t h = any_landscape(4);
    Tools t(2);
    moeoFullEvalByCopy<Flip> by(t.full);
    BV s = make(mc::choose(4), 2);
    s.objectiveVector(table[num(s)]); s.fitness(3);
    BV before = s;
    Flip n;
    unsigned k = mc::choose(2);
    n.index(k);
    mc::state(mc::mix(h, num(s) * 2 + k));
    by(s, n);
    MC_CHECK(n.fitness() == table[num(before) ^ (1u << k)], "neighbour value", "neighbour " << k << " of " << num(before));
    MC_CHECK(num(s) == num(before) && !s.invalidObjectiveVector() && s.objectiveVector() == before.objectiveVector(), "source", "the solution was changed");
}
MC_SCENARIO("a solution without neighbours")
{
    uint64_t h = any_landscape(2);
    struct None : moNeighborhood<Flip> {
        bool hasNeighbor(BV&) override { return false; }
        void init(BV&, Flip&) override { mc::fail("no neighbour", "asked for the first of no neighbours"); }
        void next(BV&, Flip&) override { mc::fail("no neighbour", "asked for the next of no neighbours"); }
        bool cont(BV&) override { return false; }
    } none;
    Tools t(2);
    Way w = Way(mc::choose(4));
    std::unique_ptr<moeoPopNeighborhoodExplorer<Flip>> ex;
    if (w == All) ex.reset(new moeoExhaustiveNeighborhoodExplorer<Flip>(none, t.inc));
    if (w == First) ex.reset(new moeoFirstImprovingNeighborhoodExplorer<Flip>(none, t.inc));
    if (w == NotWorse) ex.reset(new moeoNoDesimprovingNeighborhoodExplorer<Flip>(none, t.inc));
    if (w == Some) ex.reset(new moeoSimpleSubNeighborhoodExplorer<Flip>(none, 1, t.inc));
    moeoUnboundedArchive<BV> arch;
    moeoExhaustiveUnvisitedSelect<BV> sel;
    Cont cont(5, arch);
    moeoUnifiedDominanceBasedLS<Flip> algo(cont, t.full, arch, *ex, sel);
    eoPop<BV> p;
    p.push_back(make(mc::choose(4), 2));
    mc::state(mc::mix(h, w * 4 + num(p[0])));
    algo(p);
    MC_CHECK(cont.calls == 1 && arch.size() == 1, "endless", cont.calls << " rounds over a solution without neighbours");
}
// hybrids: the local search as a mutation and as an updater
MC_SCENARIO("local search as a mutation")
{
    uint64_t h = any_landscape(3);
    Tools t(2);
    moeoUnboundedArchive<BV> arch;
    moeoExhaustiveNeighborhoodExplorer<Flip> ex(t.order, t.inc);
    moeoExhaustiveUnvisitedSelect<BV> sel;
    unsigned step = mc::range(1, 3), how = mc::choose(3);
    eoGenContinue<BV> gens(step);
    moeoUnifiedDominanceBasedLS<Flip> dmls(gens, t.full, arch, ex, sel);
    moeoDMLSMonOp<Flip> a(t.full, ex, sel, step, false), b(t.full, arch, ex, sel, step, false), c(dmls, arch, false);
    moeoDMLSMonOp<Flip>& op = how == 0 ? a : how == 1 ? b : c;
    for (int k = 0; k < 2; ++k) {
        BV s = make(mc::choose(4), 2);
        s.objectiveVector(table[num(s)]);
        unsigned from = num(s);
        mc::rng_grid(2, 4);
        mc::state(mc::mix(h, from * 16 + how * 4 + step));
        bool changed = op(s);
        // an operator that reports no change must leave a true objective vector
        if (!changed) MC_CHECK(!s.invalidObjectiveVector() && s.objectiveVector() == table[num(s)], "objective vector", from << " became " << num(s));
        MC_CHECK(!dom(from, num(s)), "worse", from << " became " << num(s) << " which it dominates");
    }
}
MC_SCENARIO("local search between generations")
{
    uint64_t h = any_landscape(3);
    Tools t(2);
    moeoUnboundedArchive<BV> global, arch;
    moeoExhaustiveNeighborhoodExplorer<Flip> ex(t.order, t.inc);
    moeoExhaustiveUnvisitedSelect<BV> sel;
    unsigned every = mc::range(1, 2), how = mc::choose(2);
    eoGenContinue<BV> gens(every);
    moeoDMLSGenUpdater<Flip> a(t.full, ex, sel, global, gens, 12, false), b(t.full, arch, ex, sel, global, gens, 12, false);
    for (unsigned call = 1; call <= 4; ++call) {
        BV s = make(mc::choose(4), 2);
        s.objectiveVector(table[num(s)]);
        global(s);
        size_t asked = 0, now = 0;
        for (auto& m : t.inc.asked) asked += m.second.size();
        bool open = false;
        for (auto& u : global) open = open || !u.flag();
        (how ? b : a)();
        for (auto& m : t.inc.asked) now += m.second.size();
        mc::state(mc::mix(h, call * 64 + num(s) * 8 + how * 4 + every));
        honest("archive", global);
        nondominated(global);
        if (call % every) MC_CHECK(now == asked, "not yet", "searched in generation " << call << " though every " << every);
        else local_optimum(global, 2);
    }
}
