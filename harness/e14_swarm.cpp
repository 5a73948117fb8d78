// Particle swarms: topologies, velocity rules, flights and the two algorithms.
#include "common.hpp"
#include <map>
#include <set>

typedef eoRealParticle<double> Max1;
typedef eoRealParticle<eoMinimizingFitness> Min1;
typedef eoBitParticle<double> BitP;

template <class F> static double sgn();
template <> double sgn<double>() { return 1; }
template <> double sgn<eoMinimizingFitness>() { return -1; }

template <class P> static P particle(std::vector<double> x, double fit)
{
    P p(unsigned(x.size()));
    for (size_t i = 0; i < x.size(); ++i) p[i] = x[i];
    p.fitness(fit);
    p.bestPositions = p;
    p.best(fit);
    return p;
}

// ------------------------------------------------------------------ topologies
template <class P> struct Swarm
{
    typedef typename P::Fitness F;
    eoPop<P> pop;
    std::vector<std::pair<double, double>> best;      // fitness (as a gain) and position of each particle's best
    std::unique_ptr<eoTopology<P>> topo;
    int kind;
    unsigned k;
    std::set<unsigned> members(unsigned i) const
    {
        std::set<unsigned> s;
        unsigned n = unsigned(pop.size());
        if (kind == 0) for (unsigned j = 0; j < n; ++j) s.insert(j);
        if (kind == 1) {
            unsigned blocks = n / k, b = std::min(i / k, blocks - 1);
            for (unsigned j = 0; j < n; ++j) if (std::min(j / k, blocks - 1) == b) s.insert(j);
        }
        if (kind == 2) for (unsigned j = 0; j < k; ++j) s.insert((i + n * k - k / 2 + j) % n);
        return s;
    }
    void build(int kd, unsigned kk)
    {
        kind = kd; k = kk;
        if (kind == 0) topo.reset(new eoStarTopology<P>);
        if (kind == 1) topo.reset(new eoLinearTopology<P>(k));
        if (kind == 2) topo.reset(new eoRingTopology<P>(k));
    }
    // particles have the same value in every coordinate
    template <class V> static void whole(const V& x, const char* what, const char* when)
    {
        for (size_t d = 1; d < x.size(); ++d) MC_CHECK(x[d] == x[0], what, when << ": coordinate " << d << " is " << x[d] << ", the first is " << x[0]);
    }
    void judge(const char* when)
    {
        double global = -1e9;
        std::set<double> where;
        uint64_t h = 0;
        for (unsigned i = 0; i < pop.size(); ++i) {
            MC_CHECK(sgn<F>() * double(pop[i].best()) == best[i].first && pop[i].bestPositions[0] == best[i].second, "particle best",
                when << ": particle " << i << " records " << double(pop[i].best()) << " at " << pop[i].bestPositions[0]
                     << " but its best is " << sgn<F>() * best[i].first << " at " << best[i].second);
            whole(pop[i].bestPositions, "particle best:positions", when);
            global = std::max(global, best[i].first);
            h = mc::mix(h, uint64_t(best[i].first * 8 + 64));
        }
        for (unsigned i = 0; i < pop.size(); ++i) {
            double b = -1e9;
            for (unsigned j : members(i)) b = std::max(b, best[j].first);
            P& t = topo->best(i);
            whole(t, "neighbourhood best:positions", when);
            double g = sgn<F>() * double(t.fitness());
            bool at = false;
            for (unsigned j : members(i)) at = at || (best[j].first == b && best[j].second == t[0]);
            MC_CHECK(g == b && at, "neighbourhood best", when << ": topology " << kind << " size " << k << " particle " << i
                << " of " << pop.size() << " sees " << double(t.fitness()) << " at " << t[0] << " instead of " << sgn<F>() * b);
        }
        P& t = topo->globalBest();
        whole(t, "global best:positions", when);
        bool at = false;
        for (unsigned i = 0; i < pop.size(); ++i) at = at || (best[i].first == global && best[i].second == t[0]);
        MC_CHECK(sgn<F>() * double(t.fitness()) == global && at, "global best", when << ": topology " << kind << " size " << k
            << " global best " << double(t.fitness()) << " instead of " << sgn<F>() * global);
        mc::state(h);
    }
};

template <class P> static void topologies(unsigned n, unsigned dims, unsigned rounds, unsigned vals)
{
    Swarm<P> s;
    typedef typename P::Fitness F;
    int kind = mc::range(0, 2);
    unsigned k = kind == 0 ? 1 : kind == 1 ? mc::range(1, int(n) - 1) : mc::range(1, int(n));
    double where = 1;
    for (unsigned i = 0; i < n; ++i) {
        double f = mc::choose(vals);
        s.pop.push_back(particle<P>(std::vector<double>(dims, where), f));
        s.best.push_back({sgn<F>() * f, where});
        where += 1;
    }
    s.build(kind, k);
    s.topo->setup(s.pop);
    s.judge("after setup");
    bool together = rounds > 1 && mc::flag();     // all particles move before any is taken into account
    for (unsigned r = 0; r < rounds; ++r) {
        for (unsigned i = 0; i < n; ++i) {
            double f = mc::choose(vals);
            for (unsigned d = 0; d < dims; ++d) s.pop[i][d] = where;
            s.pop[i].invalidate();
            s.pop[i].fitness(f);
            if (sgn<F>() * f > s.best[i].first) s.best[i] = {sgn<F>() * f, where};
            where += 1;
            if (!together) {
                s.topo->updateNeighborhood(s.pop[i], i);
                s.judge("after one move");
            }
        }
        if (together) s.topo->updateNeighborhood(s.pop);
        s.judge("after a round");
    }
}
MC_SCENARIO("bests of every topology, maximising") { unsigned n = mc::range(2, 4); topologies<Max1>(n, mc::range(1, 2), n == 4 ? 1 : 2, 3); }
MC_SCENARIO("bests of every topology, minimising") { unsigned n = mc::range(2, 4); topologies<Min1>(n, mc::range(1, 2), n == 4 ? 1 : 2, 3); }
MC_SCENARIO("bests of larger swarms") { topologies<Max1>(mc::range(5, 6), 3, 1, 2); }
MC_SCENARIO_T("bests of larger swarms for longer") { topologies<Min1>(5, 2, 2, 2); }

// ------------------------------------------------------------------ velocity rules
static const std::vector<uint32_t> words = {0x00000000u, 0x40000000u, 0xc0000000u};
static const std::vector<double> fracs = {0, 0.25, 0.75};

struct FixedWeight : public eoWeightUpdater<double>
{
    double next = 0.5;
    void operator()(double& w) { w = next; next += 0.25; }
};
static volatile char sink[4096];
__attribute__((noinline)) static void dirty_stack(int fill)
{
    volatile char buf[4096];
    for (int i = 0; i < 4096; ++i) buf[i] = char(fill);
    for (int i = 0; i < 4096; ++i) sink[i] = buf[i];
}
template <class P> struct Rule
{
    std::unique_ptr<eoVelocity<P>> v;
    int kind;
    FixedWeight weight;
    static const int kinds = 7;
    // coefficients are given as temporaries, as the documented examples do
    __attribute__((noinline)) void build(int k, eoTopology<P>& t, eoRealVectorBounds* b, eoRealBoundModifier* m, eoRng& g)
    {
        kind = k;
        switch (k) {
            case 0: v.reset(!b ? new eoStandardVelocity<P>(t, 0.5, 1.5, 2.0, g) : !m ? new eoStandardVelocity<P>(t, 0.5, 1.5, 2.0, *b, g) : new eoStandardVelocity<P>(t, 0.5, 1.5, 2.0, *b, *m, g)); break;
            case 1: v.reset(!b ? new eoExtendedVelocity<P>(t, 0.5, 1.5, 2.0, 0.5, g) : !m ? new eoExtendedVelocity<P>(t, 0.5, 1.5, 2.0, 0.5, *b, g) : new eoExtendedVelocity<P>(t, 0.5, 1.5, 2.0, 0.5, *b, *m, g)); break;
            case 2: v.reset(!b ? new eoIntegerVelocity<P>(t, 0.5, 1.5, 2.0, g) : !m ? new eoIntegerVelocity<P>(t, 0.5, 1.5, 2.0, *b, g) : new eoIntegerVelocity<P>(t, 0.5, 1.5, 2.0, *b, *m, g)); break;
            case 3: v.reset(!b ? new eoConstrictedVelocity<P>(t, 0.25, 1.5, 2.0, g) : !m ? new eoConstrictedVelocity<P>(t, 0.25, 1.5, 2.0, *b, g) : new eoConstrictedVelocity<P>(t, 0.25, 1.5, 2.0, *b, *m, g)); break;
            case 4: v.reset(!b ? new eoFixedInertiaWeightedVelocity<P>(t, 0.5, 1.5, 2.0, g) : !m ? new eoFixedInertiaWeightedVelocity<P>(t, 0.5, 1.5, 2.0, *b, g) : new eoFixedInertiaWeightedVelocity<P>(t, 0.5, 1.5, 2.0, *b, *m, g)); break;
            case 5: v.reset(!b ? new eoVariableInertiaWeightedVelocity<P>(t, weight, 1.5, 2.0, g) : !m ? new eoVariableInertiaWeightedVelocity<P>(t, weight, 1.5, 2.0, *b, g) : new eoVariableInertiaWeightedVelocity<P>(t, weight, 1.5, 2.0, *b, *m, g)); break;
            case 6: v.reset(!b ? new eoConstrictedVariableWeightVelocity<P>(t, 0.25, weight, 1.5, 2.0, g) : !m ? new eoConstrictedVariableWeightVelocity<P>(t, 0.25, weight, 1.5, 2.0, *b, g) : new eoConstrictedVariableWeightVelocity<P>(t, 0.25, weight, 1.5, 2.0, *b, *m, g)); break;
        }
        dirty_stack(k * 17 + 3);
    }
    // velocity of one dimension for given random fractions
    double expect(double vel, double own, double near, double global, double a, double b, double c, double w) const
    {
        switch (kind) {
            case 0: case 4: return 0.5 * vel + 1.5 * a * own + 2.0 * b * near;
            case 1: return 0.5 * vel + 1.5 * a * own + 2.0 * b * near + 0.5 * c * global;
            case 2: return std::round(0.5 * vel + 1.5 * a * own + 2.0 * b * near);
            case 3: return 0.25 * (vel + 1.5 * a * own + 2.0 * b * near);
            case 5: return w * vel + 1.5 * a * own + 2.0 * b * near;
            default: return 0.25 * (w * vel + 1.5 * a * own + 2.0 * b * near);
        }
    }
};
struct Halve : public eoRealBoundModifier
{
    double top;
    void operator()(eoRealBaseVectorBounds& b, unsigned i) { b[i] = new eoRealInterval(-1, top); }
};

MC_SCENARIO("velocity follows the rule of each scheme within its bounds")
{
    typedef Max1 P;
    int kind = mc::range(0, Rule<P>::kinds - 1);
    int bounded = mc::range(0, 3);        // none, all dimensions, minimum only / maximum only, changed by a modifier
    unsigned dims = mc::range(1, 2);
    eoPop<P> pop;
    std::vector<double> p0(dims), vel(dims);
    for (unsigned d = 0; d < dims; ++d) { p0[d] = mc::pick({-1.0, 2.0}); vel[d] = mc::pick({-2.0, 0.0, 1.0}); }
    pop.push_back(particle<P>(p0, 1));
    pop.push_back(particle<P>(std::vector<double>(dims, 3.0), 5));
    pop.push_back(particle<P>(std::vector<double>(dims, -4.0), 7));
    pop.push_back(particle<P>(std::vector<double>(dims, 6.0), 2));
    for (unsigned d = 0; d < dims; ++d) { pop[0].velocities[d] = vel[d]; pop[0].bestPositions[d] = p0[d] + 1; }
    eoLinearTopology<P> topo(2);
    topo.setup(pop);
    std::set<std::string> seen;
    size_t leaves = mc::forall([&] {
        mc::rng_words(words, 6);
        eoRealInterval interval(-1, 1.5);
        eoRealBelowBound below(-1);
        eoRealAboveBound above(1.5);
        eoRealVectorBounds* b = nullptr;
        std::unique_ptr<eoRealVectorBounds> keep;
        Halve half;
        half.top = 0.5;
        if (bounded == 1) keep.reset(new eoRealVectorBounds(dims, interval));
        if (bounded == 2) keep.reset(dims == 2 ? new eoRealVectorBounds(below, above) : new eoRealVectorBounds(1, below));
        if (bounded == 3) keep.reset(new eoRealVectorBounds(dims, interval));
        b = keep.get();
        Rule<P> r;
        r.build(kind, topo, b, bounded == 3 ? &half : nullptr, eo::rng);
        P q = pop[0];
        double w = r.weight.next;
        (*r.v)(q, 0);
        MC_CHECK(q[0] == p0[0] && q.bestPositions == pop[0].bestPositions && q.fitness() == 1.0, "velocity side effect", "the velocity rule moved the particle");
        bool found = false;
        std::ostringstream got;
        for (double x : q.velocities) got << x << ' ';
        for (double a : fracs) for (double c : fracs) for (double e : (kind == 1 ? fracs : std::vector<double>{0})) {
            bool ok = true;
            for (unsigned d = 0; d < dims; ++d) {
                double n = r.expect(vel[d], 1, 3 - p0[d], -4 - p0[d], a, c, e, w);
                bool lo = bounded == 1 || bounded == 3 || (bounded == 2 && d == 0), hi = bounded == 1 || bounded == 3 || (bounded == 2 && d == 1);
                if (lo) n = std::max(n, -1.0);
                if (hi) n = std::min(n, bounded == 3 ? 0.5 : 1.5);
                ok = ok && mc::close(n, q.velocities[d]);
            }
            found = found || ok;
        }
        MC_CHECK(found, "velocity rule", "scheme " << kind << " bounds " << bounded << " gave " << got.str());
        MC_CHECK(&r.v->getTopology() == &topo, "velocity topology", "another topology is returned");
        seen.insert(got.str());
        mc::state(mc::hash(got.str()));
    });
    MC_CHECK(leaves > 0, "velocity draws", "more than 6 random words for one velocity");
    // the random weights are independent
    if (bounded == 0)
        for (double a : fracs) for (double c : fracs) {
            bool hit = false;
            for (auto& t : seen) {
                std::istringstream is(t);
                double x; is >> x;
                Rule<P> r; r.kind = kind;
                for (double e : (kind == 1 ? fracs : std::vector<double>{0}))
                    hit = hit || mc::close(x, r.expect(vel[0], 1, 3 - p0[0], -4 - p0[0], a, c, e, 0.5));
            }
            MC_CHECK(hit, "velocity independence", "scheme " << kind << " never uses weights " << a << " and " << c);
        }
}

MC_SCENARIO("velocity uses the generator it was given")
{
    typedef Max1 P;
    int kind = mc::range(0, Rule<P>::kinds - 1);
    mc::rng_off();
    eoPop<P> pop;
    for (int i = 0; i < 4; ++i) pop.push_back(particle<P>({double(i * i), 2.0 - i}, i));
    eoLinearTopology<P> topo(2);
    topo.setup(pop);
    std::vector<double> out[2];
    std::string global[2];
    for (int run = 0; run < 2; ++run) {
        eo::rng.reseed(100 + run);
        eoRng own(42);
        std::ostringstream before, after;
        eo::rng.printOn(before);
        Rule<P> r;
        r.build(kind, topo, nullptr, nullptr, own);
        P q = pop[0];
        (*r.v)(q, 0);
        eo::rng.printOn(after);
        out[run] = q.velocities;
        MC_CHECK(before.str() == after.str(), "given generator", "scheme " << kind << " drew from the global generator");
    }
    MC_CHECK(out[0] == out[1], "given generator", "scheme " << kind << " depends on the global generator");
    mc::state(kind);
}

MC_SCENARIO("decaying velocity bounds")
{
    unsigned total = mc::range(1, 4);
    double alpha = mc::pick({0.5, 1.0, 2.0});
    double lo = mc::pick({-2.0, 0.0}), hi = mc::pick({1.0, 3.0});
    eoRealVectorBounds b(2, lo, hi);
    eoValueParam<unsigned> gen(0, "generation");
    eoExpDecayingBoundModifier m(total, alpha, gen);
    for (unsigned t = 0; t <= total; ++t) {
        gen.value() = t;
        unsigned times = mc::range(1, 2);
        for (unsigned k = 0; k < times; ++k)
            for (unsigned d = 0; d < 2; ++d) m(b, d);
        double want = std::max(lo, (1 - std::pow(double(t) / total, alpha)) * hi);
        for (unsigned d = 0; d < 2; ++d)
            MC_CHECK(mc::close(b.maximum(d), want) && b.minimum(d) == lo, "decay", "at " << t << " of " << total << " the bounds are [" << b.minimum(d) << "," << b.maximum(d) << "] instead of [" << lo << "," << want << "]");
    }
    mc::state(mc::hash(std::to_string(total)) ^ uint64_t(alpha * 8 + lo * 100 + hi * 1000));
}

MC_SCENARIO("inertia weights")
{
    unsigned stop = mc::range(1, 5);
    double a = mc::pick({0.9, 0.5, 0.1}), z = mc::pick({0.1, 0.4});
    eoValueParam<unsigned> count(0, "c");
    auto up = [&] { std::unique_ptr<eoLinearDecreasingWeightUp<double, unsigned>> u(new eoLinearDecreasingWeightUp<double, unsigned>(stop + 0, a + 0, z + 0, count)); dirty_stack(5); return u; }();
    dirty_stack(77);
    for (unsigned t = 0; t <= stop; ++t) {
        count.value() = t;
        double w = -7;
        (*up)(w);
        MC_CHECK(mc::close(w, a + (z - a) * t / stop), "linear weight", "step " << t << " of " << stop << " from " << a << " to " << z << ": " << w);
        mc::state(uint64_t(w * 1000));
    }
    mc::rng_grid_edges(4, 4);
    eoRandomRealWeightUp r(z, a < z ? z : a);
    double w = -7;
    r(w);
    MC_CHECK(w >= z && w <= std::max(a, z), "random weight", w << " outside");
}

// ------------------------------------------------------------------ flights
MC_SCENARIO("a flight adds the velocity and respects the position bounds")
{
    typedef Max1 P;
    unsigned dims = mc::range(1, 3);
    int kind = mc::range(0, 3);
    P p = particle<P>(std::vector<double>(dims, 0), 4);
    for (unsigned d = 0; d < dims; ++d) { p[d] = mc::pick({-1.0, 0.5, 2.0}); p.velocities[d] = mc::pick({-3.0, 0.0, 0.25, 5.0}); }
    P q = p;
    eoRealVectorBounds b(dims, -1.5, 2.5);
    eoRealInterval tight(0, 0.5);
    eoRealNoBounds free;
    eoRealVectorBounds mixed(free, tight);
    eoStandardFlight<P> none, given(b), made(dims, -1.5, 2.5), mix(mixed);
    eoStandardFlight<P>* f[] = {&none, &given, &made, &mix};
    (*f[kind])(q);
    MC_CHECK(q.invalid(), "flight", "the fitness survived the flight");
    MC_CHECK(q.velocities == p.velocities && q.bestPositions == p.bestPositions, "flight", "velocity or best changed");
    for (unsigned d = 0; d < dims; ++d) {
        double want = p[d] + p.velocities[d];
        if (kind == 1 || kind == 2) want = std::min(2.5, std::max(-1.5, want));
        if (kind == 3 && d >= 1) want = std::min(0.5, std::max(0.0, want));
        MC_CHECK(q[d] == want, "flight", "bounds " << kind << ": " << p[d] << " + " << p.velocities[d] << " gave " << q[d]);
    }
    mc::state(mc::hashv(q));
}
MC_SCENARIO("a binary flight sets each bit with the sigmoid of its velocity")
{
    unsigned dims = mc::range(1, 2);
    unsigned slope = mc::range(1, 3);
    BitP p(dims, mc::flag(), 0.0, false);
    p.fitness(1);
    for (unsigned d = 0; d < dims; ++d) p.velocities[d] = mc::pick({-40.0, -1.0, 0.0, 0.5, 3.0, 800.0});
    std::vector<double> ones(dims, 0);
    double all = 0;
    const unsigned k = 200;
    mc::forall([&] {
        mc::rng_grid(dims == 1 ? k : 40, 4);
        BitP q = p;
        eoSigBinaryFlight<BitP> f(slope);
        f(q);
        MC_CHECK(q.invalid() && q.velocities == p.velocities, "binary flight", "fitness or velocity");
        for (unsigned d = 0; d < dims; ++d) if (q[d]) ones[d] += mc::leaf_prob();
        all += mc::leaf_prob();
    });
    for (unsigned d = 0; d < dims; ++d) {
        double want = 1 / (1 + std::exp(-p.velocities[d] / slope));
        MC_CHECK(std::abs(ones[d] / all - want) <= 1.0 / (dims == 1 ? k : 40) + 1e-9, "binary flight", "velocity " << p.velocities[d] << " slope " << slope << " gives one with probability " << ones[d] / all << " instead of " << want);
    }
    mc::state(mc::hashv(p.velocities));
}

// ------------------------------------------------------------------ whole runs
template <class P> struct Judge : public eoEvalFunc<P>
{
    std::map<std::vector<double>, double> table;
    std::map<const P*, std::vector<std::pair<double, std::vector<double>>>> history;
    unsigned vals, calls = 0;
    void operator()(P& p)
    {
        if (!p.invalid()) return;
        std::vector<double> x(p.begin(), p.end());
        auto it = table.find(x);
        if (it == table.end()) it = table.insert({x, double(mc::choose(vals))}).first;
        p.fitness(it->second);
        history[&p].push_back({sgn<typename P::Fitness>() * it->second, x});
        ++calls;
    }
};
template <class P> struct Watch : public eoContinue<P>
{
    Judge<P>& eval;
    eoTopology<P>& topo;
    unsigned left;
    std::vector<std::set<unsigned>> members;
    Watch(Judge<P>& e, eoTopology<P>& t, unsigned l) : eval(e), topo(t), left(l) {}
    std::string className() const { return "watch"; }
    bool operator()(const eoPop<P>& pop)
    {
        typedef typename P::Fitness F;
        std::vector<double> best(pop.size());
        uint64_t h = left;
        for (unsigned i = 0; i < pop.size(); ++i) {
            auto& hist = eval.history[&pop[i]];
            double b = -1e9;
            for (auto& e : hist) b = std::max(b, e.first);
            bool at = false;
            for (auto& e : hist) at = at || (e.first == b && e.second == pop[i].bestPositions);
            MC_CHECK(at && sgn<F>() * double(pop[i].best()) == b, "run: particle best", "particle " << i << " records " << double(pop[i].best()) << " after " << hist.size() << " evaluations, best " << sgn<F>() * b);
            MC_CHECK(!pop[i].invalid() && eval.table.at(std::vector<double>(pop[i].begin(), pop[i].end())) == double(pop[i].fitness()), "run: fitness", "particle " << i << " carries a wrong fitness");
            best[i] = b;
            h = mc::mix(h, uint64_t(b * 4 + 50));
        }
        for (unsigned i = 0; i < pop.size(); ++i) {
            double b = -1e9;
            for (unsigned j : members[i]) b = std::max(b, best[j]);
            MC_CHECK(sgn<F>() * double(topo.best(i).fitness()) == b, "run: neighbourhood best", "particle " << i << " sees " << double(topo.best(i).fitness()) << " instead of " << sgn<F>() * b);
        }
        mc::state(h);
        return --left > 0;
    }
};
template <class P> struct Recorder : public eoFlight<P>
{
    eoFlight<P>& real;
    eoRealVectorBounds& bounds;
    std::vector<double> lo, hi;
    Recorder(eoFlight<P>& r, eoRealVectorBounds& b) : real(r), bounds(b) {}
    void operator()(P& p)
    {
        P before = p;
        for (double v : p.velocities) MC_CHECK(v >= -1 && v <= 1, "run: velocity bounds", "velocity " << v);
        real(p);
        for (unsigned d = 0; d < p.size(); ++d)
            MC_CHECK(p[d] == before[d] + before.velocities[d], "run: move", before[d] << " + " << before.velocities[d] << " gave " << p[d]);
    }
};

template <class P> static void run(unsigned n, unsigned flights, unsigned vals, bool sync)
{
    int tkind = mc::range(0, 2);
    int rule = mc::pick({0, 3, 5});
    mc::rng_words({0x20000000u, 0xe0000000u}, 64);
    Judge<P> eval;
    eval.vals = vals;
    eoUniformGenerator<double> place(-4, 4), push(-1, 1);
    eoInitFixedLength<P> init(1, place);
    eoVelocityInitFixedLength<P> vinit(1, push);
    eoPop<P> pop;
    // the start positions are distinct
    for (unsigned i = 0; i < n; ++i) { P p(1); p[0] = 4.0 * i; p.invalidate(); pop.push_back(p); }
    Swarm<P> s;
    s.pop = pop;
    s.build(tkind, tkind == 0 ? 1 : tkind == 1 ? 1 : 2);
    eoFirstIsBestInit<P> first;
    eoInitializer<P> start(eval, vinit, first, *s.topo, pop);
    eoRealVectorBounds vb(1, -1, 1);
    Rule<P> r;
    r.build(rule, *s.topo, &vb, nullptr, eo::rng);
    eoRealVectorNoBounds nb(1);
    eoStandardFlight<P> fly(nb);
    Recorder<P> flight(fly, vb);
    Watch<P> watch(eval, *s.topo, flights);
    for (unsigned i = 0; i < n; ++i) watch.members.push_back(s.members(i));
    if (sync) { eoSyncEasyPSO<P> algo(start, watch, eval, *r.v, flight); algo(pop); }
    else { eoEasyPSO<P> algo(start, watch, eval, *r.v, flight); algo(pop); }
    MC_CHECK(watch.left == 0 && pop.size() == n, "run: length", "stopped early or changed size");
}
MC_SCENARIO("runs, one particle after the other") { run<Max1>(2, 2, 2, false); }
MC_SCENARIO("runs, one particle after the other, minimising") { run<Min1>(2, 2, 2, false); }
MC_SCENARIO("runs, all particles together") { run<Max1>(2, 2, 2, true); }
MC_SCENARIO("runs, all particles together, minimising") { run<Min1>(2, 2, 2, true); }
MC_SCENARIO_T("runs of three particles") { run<Max1>(3, 1, 3, mc::flag()); }

MC_SCENARIO("a new particle has no best yet")
{
    int fill = mc::pick({0, 1, 0x5a, 0xff});
    alignas(Max1) static char mem[sizeof(Max1)];
    memset(mem, fill, sizeof mem);
    Max1* p = new (mem) Max1(2, 1.5, 0.5, 0.0);
    bool inv = p->invalid(), invb = p->invalidBest();
    p->best(3);
    bool after = p->invalidBest();
    p->invalidateBest();
    bool again = p->invalidBest();
    std::vector<double> pos(*p), vel(p->velocities);
    p->~Max1();
    MC_CHECK(inv && invb && !after && again, "new particle", "fresh particle: invalid " << inv << " best invalid " << invb << ", after setting " << after);
    MC_CHECK(pos == std::vector<double>(2, 1.5) && vel == std::vector<double>(2, 0.5), "new particle", "position or velocity");
    mc::state(fill);
}
MC_SCENARIO("velocity initialisers")
{
    unsigned n = mc::range(0, 3);
    mc::rng_grid_edges(3, 8);
    eoUniformGenerator<double> gen(-2, 3);
    eoVelocityInitFixedLength<Max1> init(n, gen);
    Max1 p(2, 1.0);
    init(p);
    MC_CHECK(p.velocities.size() == n && p.size() == n && p.bestPositions.size() == n, "velocity init", "sizes");
    for (double v : p.velocities) MC_CHECK(v >= -2 && v <= 3, "velocity init", v);
    mc::state(mc::hashv(p.velocities));
}
