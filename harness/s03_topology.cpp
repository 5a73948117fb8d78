// Topologies of the island model: neighbourhoods against their definitions,
// isolation of nodes in every order, rebuilding, and files.
#include "mc.hpp"
#include <smp>
#include <topology/customStochasticTopology.h>
#include <random>
#include <fstream>
#include <unistd.h>
using namespace mc;
using namespace paradiseo::smp;

typedef std::vector<std::set<unsigned>> Graph;

// the seed of the stochastic topology's own generator is a choice
static unsigned device_word = 0;
unsigned std::random_device::_M_getval() { return device_word; }

static Graph of(const AbstractTopology& t, unsigned n)
{
    Graph g(n);
    for (unsigned i = 0; i < n; ++i) {
        auto v = t.getIdNeighbors(i);
        for (unsigned x : v) {
            MC_CHECK(x < n, "neighbour exists", "node " << i << " of " << n << " has the neighbour " << x);
            MC_CHECK(g[i].insert(x).second, "neighbour twice", "node " << i << " of " << n << " names the neighbour " << x << " twice");
        }
    }
    return g;
}
static std::string text(const Graph& g)
{
    std::ostringstream o;
    for (unsigned i = 0; i < g.size(); ++i) { o << i << "->{"; for (unsigned x : g[i]) o << x << ' '; o << "} "; }
    return o.str();
}
static void same(const Graph& got, const Graph& want, const std::string& key, const std::string& when)
{
    uint64_t h = want.size();
    for (auto& s : got) h = mix(h, hashv(s));
    state(h);
    MC_CHECK(got == want, key, when << ": got " << text(got) << " instead of " << text(want));
}
static Graph without(Graph g, unsigned k)
{
    g[k].clear();
    for (auto& s : g) s.erase(k);
    return g;
}
// isolate nodes in any order (a node may be isolated again), rebuild, maybe with another size, again
static void histories(AbstractTopology& t, std::function<Graph(unsigned)> def, const std::vector<unsigned>& sizes, unsigned isolations, const std::string& what)
{
    unsigned n = pick(sizes);
    for (int round = 0; round < 2; ++round) {
        t.construct(n);
        Graph want = def(n);
        same(of(t, n), want, what, what + " with " + std::to_string(n) + " nodes" + (round ? " rebuilt" : ""));
        unsigned k = choose(std::min(n, isolations) + 1);
        std::string order;
        for (unsigned i = 0; i < k; ++i) {
            unsigned x = choose(n);
            t.isolateNode(x); want = without(want, x); order += " " + std::to_string(x);
            same(of(t, n), want, "isolation: " + what, what + " with " + std::to_string(n) + " nodes after isolating" + order);
        }
        if (!round) n = pick(sizes);
    }
    sample(what + " of " + std::to_string(n) + ": " + text(of(t, n)));
}
static std::vector<unsigned> upto(unsigned n) { std::vector<unsigned> v; for (unsigned i = 1; i <= n; ++i) v.push_back(i); return v; }

static Graph complete(unsigned n) { Graph g(n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i != j) g[i].insert(j); return g; }
static Graph ring(unsigned n) { Graph g(n); if (n > 1) for (unsigned i = 0; i < n; ++i) g[i].insert((i + 1) % n); return g; }
static Graph star(unsigned n, unsigned c) { Graph g(n); for (unsigned i = 0; i < n; ++i) if (i != c) g[i].insert(c); return g; }
static Graph cube(unsigned n) { Graph g(n); for (unsigned i = 0; i < n; ++i) for (unsigned b = 1; b < n; b <<= 1) g[i].insert(i ^ b); return g; }
static Graph grid(unsigned n, unsigned width)
{
    Graph g(n);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
        int dx = abs(int(i % width) - int(j % width)), dy = abs(int(i / width) - int(j / width));
        if (dx + dy == 1) g[i].insert(j);
    }
    return g;
}

MC_SCENARIO("complete graph") { Topology<Complete> t; histories(t, complete, upto(tier(4, 5)), tier(3, 4), "complete"); }
MC_SCENARIO("ring") { Topology<Ring> t; histories(t, ring, thorough() ? std::vector<unsigned>{2, 3, 4, 5} : std::vector<unsigned>{2, 3, 4}, tier(3, 4), "ring"); }
MC_SCENARIO("star")
{
    unsigned c = choose(4);
    Topology<Star> t;
    if (c || flag()) t.getBuilder().setCenter(c);
    std::vector<unsigned> s; for (unsigned n = c + 1; n <= std::max(c + 1, tier(4u, 5u)); ++n) s.push_back(n);
    histories(t, [=](unsigned n) { return star(n, c); }, s, tier(2, 3), "star");
}
MC_SCENARIO("a new centre counts from the next construction")
{
    unsigned n = range(2, 5), c = choose(n), d = choose(n);
    Topology<Star> t; t.getBuilder().setCenter(c); t.construct(n);
    t.getBuilder().setCenter(d);
    same(of(t, n), star(n, c), "star", "new centre set");
    t.construct(n);
    same(of(t, n), star(n, d), "star", "new centre constructed");
}
MC_SCENARIO("hypercube") { Topology<Hypercubic> t; histories(t, cube, {1, 2, 4, 8}, tier(2, 3), "hypercube"); }
MC_SCENARIO("large sizes")
{
    unsigned n = range(1, tier(40, 70));
    switch (choose(4)) {
    case 0: { Topology<Complete> t; t.construct(n); same(of(t, n), complete(n), "complete", std::to_string(n) + " nodes"); break; }
    case 1: { assume(n > 1); Topology<Ring> t; t.construct(n); same(of(t, n), ring(n), "ring", std::to_string(n) + " nodes"); break; }
    case 2: { unsigned c = choose(n); Topology<Star> t; t.getBuilder().setCenter(c); t.construct(n); same(of(t, n), star(n, c), "star", std::to_string(n) + " nodes"); break; }
    case 3: { assume((n & (n - 1)) == 0); Topology<Hypercubic> t; t.construct(n); same(of(t, n), cube(n), "hypercube", std::to_string(n) + " nodes"); break; }
    }
}
MC_SCENARIO("mesh")
{
    unsigned n = range(1, tier(40, 100)); double ratio = pick({1.0, 0.0, 0.1, 0.25, 0.4, 0.5, 0.7, 0.9}); bool isolate = n <= 9 && flag();
    Topology<Mesh> t;
    if (ratio != 1 || flag()) t.getBuilder().setRatio(ratio);
    t.construct(n);
    Graph got = of(t, n), best; double d = 1e9;
    for (unsigned h = 1; h * h <= n; ++h) if (n % h == 0) d = std::min(d, fabs(double(h) * h / n - ratio));
    bool ok = false; unsigned width = 0;
    for (unsigned h = 1; h * h <= n; ++h) if (n % h == 0 && fabs(double(h) * h / n - ratio) <= d + 1e-12) { best = grid(n, n / h); if (got == best) { ok = true; width = n / h; } }
    uint64_t hs = n; for (auto& s : got) hs = mix(hs, hashv(s)); state(hs);
    MC_CHECK(ok, "mesh", n << " nodes, ratio " << ratio << ": got " << text(got) << " instead of " << text(best));
    if (isolate) {
        Graph want = grid(n, width);
        for (int k = 0; k < 2; ++k) { unsigned x = choose(n); t.isolateNode(x); want = without(want, x); same(of(t, n), want, "isolation: mesh", "mesh after isolating " + std::to_string(x)); }
        t.construct(n); same(of(t, n), grid(n, width), "mesh", "mesh rebuilt");
    }
}

static std::string file(const std::string& body)
{
    static int k = 0; std::string name = "topo-" + std::to_string(getpid()) + "-" + std::to_string(k++ % 8);
    std::ofstream(name) << body;
    return name;
}
MC_SCENARIO("a topology from a file")
{
    unsigned n = range(1, tier(3, 3)); Graph g(n); std::string blank = pick<std::string>({" ", "   ", "\t"}), end = pick<std::string>({"\n", "\n\n", " \n"}), first = pick<std::string>({"", "\n"}), last = pick<std::string>({"\n", ""});
    std::string body = first;
    bool simple = blank == " " && end == "\n" && first.empty() && last == "\n";
    if (!simple) assume(n <= 2);
    std::ostringstream o;
    for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) { bool b = flag(); if (b) g[i].insert(j); o << (j ? blank : "") << b; } o << (i + 1 < n ? end : last); }
    CustomBooleanTopology t(file(body + o.str()));
    same(of(t, n), g, "file", "file " + body + o.str());
    histories(t, [&](unsigned) { return g; }, {n}, simple && n < 3 ? 2 : 1, "file");
}
MC_SCENARIO("a broken topology file is refused")
{
    // rows of any lengths: only square ones make a topology
    unsigned rows = range(0, 3); bool square = true; std::ostringstream o; bool stochastic = flag();
    for (unsigned i = 0; i < rows; ++i) { unsigned len = range(1, 3); square = square && len == rows; for (unsigned j = 0; j < len; ++j) o << (j ? " " : "") << "1"; o << "\n"; }
    bool thrown = false; std::string name = flag() ? file(o.str()) : "";
    if (name.empty()) { square = false; name = "there-is-no-such-file"; }
    try { if (stochastic) CustomStochasticTopology t(name); else CustomBooleanTopology t(name); } catch (std::exception&) { thrown = true; }
    state(mix(rows, thrown));
    MC_CHECK(thrown == !square, "broken file", "rows \"" << o.str() << "\" from " << name << (thrown ? " refused" : " accepted"));
}
MC_SCENARIO("a stochastic topology draws each edge with its probability")
{
    unsigned n = range(1, 2); std::vector<std::vector<double>> p(n, std::vector<double>(n));
    std::ostringstream o;
    for (auto& r : p) { for (auto& x : r) { double w = pick({0.0, 0.3, 1.0, -2.0, 7.0}); if (n == 2 && !thorough()) assume(w >= 0 && w <= 1); x = std::min(1.0, std::max(0.0, w)); o << w << " "; } o << "\n"; }
    CustomStochasticTopology t(file(o.str()));
    t.construct(n);
    int isolated = range(-1, int(n) - 1);
    if (isolated >= 0) { t.isolateNode(isolated); }
    for (int round = 0; round < 2; ++round) {
        const unsigned seeds = 600;
        std::vector<std::vector<double>> f(n, std::vector<double>(n, 0));
        for (device_word = 0; device_word < seeds; ++device_word) for (unsigned i = 0; i < n; ++i) for (unsigned x : t.getIdNeighbors(i)) { MC_CHECK(x < n, "neighbour exists", "neighbour " << x << " of " << n); f[i][x] += 1; }
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
            double want = (round == 0 && isolated >= 0 && (int(i) == isolated || int(j) == isolated)) ? 0 : p[i][j], got = f[i][j] / seeds;
            state(mix(uint64_t(f[i][j]), mix(i, j)));
            bool ok = want == 0 ? got == 0 : want == 1 ? got == 1 : fabs(got - want) < 0.08;
            MC_CHECK(ok, round ? "stochastic rebuilt" : "stochastic", "edge " << i << "->" << j << " of probability " << want << " taken " << got << " of the times" << (isolated >= 0 ? ", node " + std::to_string(isolated) + " isolated" : "") << (round ? ", rebuilt" : ""));
        }
        t.construct(n);
    }
}
