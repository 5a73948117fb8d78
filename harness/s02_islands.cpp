// Island model: migrants, endings and stopping rules under every schedule.
#include "simthread.hpp"
#include <eo>
#include <smp>
#include "common.hpp"
using namespace mc;
using namespace paradiseo::smp;

// an individual knows where it was born
struct Mig : public EO<double>
{
    int tag = 0, hops = 0;
    std::string className() const { return "Mig"; }
    void printOn(std::ostream& o) const { o << tag; }
    void readFrom(std::istream& i) { i >> tag; }
};
// every island has an objective of its own and, like eoEvalFuncPtr, skips what is evaluated
struct MEval : public eoEvalFunc<Mig> { int calls = 0, island = 0; void operator()(Mig& m) { if (!m.invalid()) return; { thr::Quiet q; ++calls; } m.fitness(m.tag * 0.5 + island * 1000); } };

// what happened, kept outside the world
typedef std::vector<int> Group;
struct Log
{
    std::vector<std::vector<Group>> sent, received; std::vector<int> finished; std::vector<int> isolated; std::vector<std::pair<unsigned, std::vector<unsigned>>> routes; std::vector<int> constructed;
    void start(unsigned n) { sent.assign(n, {}); received.assign(n, {}); finished.assign(n, 0); isolated.clear(); routes.clear(); constructed.clear(); }
};
static Log L;

// every migrant group names new numbers so that groups can be told apart
struct Chooser : public eoSelect<Mig>
{
    int island, k, n = 0; Chooser(int i, int _k) : island(i), k(_k) {}
    void operator()(const eoPop<Mig>& from, eoPop<Mig>& to)
    {
        to.clear(); Group g;
        for (int i = 0; i < k; ++i) { Mig m = from[i % from.size()]; m.tag = island * 100 + n * 10 + i + 1; m.fitness(-1); to.push_back(m); thr::Quiet q; g.push_back(m.tag); }
        ++n;
        thr::Quiet q; L.sent[island].push_back(g);
    }
};
struct Taker : public eoReplacement<Mig>
{
    int island; Taker(int i) : island(i) {}
    void operator()(eoPop<Mig>& pop, eoPop<Mig>& in)
    {
        Group g;
        for (auto& m : in) {
            THR_CHECK(!m.invalid() && m.fitness() == m.tag * 0.5 + island * 1000, "migrant evaluated", "island " << island << " receives the migrant " << m.tag << (m.invalid() ? " unevaluated" : " with a wrong fitness"));
            thr::Quiet q; g.push_back(m.tag);
        }
        if (!in.empty()) pop[pop.size() - 1] = in[0];
        thr::Quiet q; L.received[island].push_back(g);
    }
};
// says stop at the given calls: an emigration is due when the criterion says stop
struct At : public eoContinue<Mig> { std::vector<int> when; int calls = 0; At(std::vector<int> w) : when(w) {} bool operator()(const eoPop<Mig>&) { int c = calls++; return std::find(when.begin(), when.end(), c) == when.end(); } std::string className() const { return "At"; } };
struct Gens : public eoContinue<Mig> { int n, calls = 0; bool lazy; Gens(int _n, bool l) : n(_n), lazy(l) {} bool operator()(const eoPop<Mig>&) { if (lazy) std::this_thread::sleep_for(std::chrono::nanoseconds(10)); bool more = ++calls < n; if (!more) calls = 0; return more; } std::string className() const { return "Gens"; } };
static thread_local int my_island = -1;
template <class EOT> struct Wait : public eoAlgo<EOT>
{
    eoContinue<EOT>& c; eoEvalFunc<EOT>& e; int& id;
    Wait(eoContinue<EOT>& _c, eoEvalFunc<EOT>& _e, int& i) : c(_c), e(_e), id(i) {}
    void operator()(eoPop<EOT>& p) { while (c(p)) ; thr::Quiet q; ++L.finished[id]; }
};
// a topology that tells what it is asked
struct Watched : public AbstractTopology
{
    AbstractTopology& t; Watched(AbstractTopology& _t) : t(_t) {}
    std::vector<unsigned> getIdNeighbors(unsigned i) const { auto v = t.getIdNeighbors(i); thr::Quiet q; L.routes.push_back({i, v}); return v; }
    void construct(unsigned n) { t.construct(n); thr::Quiet q; L.constructed.push_back(n); }
    void isolateNode(unsigned i) { t.isolateNode(i); { thr::Quiet q; L.isolated.push_back(i); } THR_CHECK(L.finished[i], "isolation", "island " << i << " is cut off while it runs"); }
};
template <class T> static std::unique_ptr<AbstractTopology> make() { return std::unique_ptr<AbstractTopology>(new T); }
struct Plan { int gens; std::vector<int> send; int group; bool lazy = true; };
struct Site
{
    eoPop<Mig> pop; MEval eval; Gens gens; int id; Chooser who; At when; Taker take; MigPolicy<Mig> mig; std::unique_ptr<Island<Wait, Mig>> island;
    Site(int i, const Plan& p, unsigned size) : gens(p.gens, p.lazy), id(i), who(i, p.group), when(p.send), take(i)
    {
        for (unsigned k = 0; k < size; ++k) { Mig m; m.tag = 1000 + i * 10 + k; eval.island = i; eval(m); pop.push_back(m); }
        mig.push_back(PolicyElement<Mig>(who, when));
        island.reset(new Island<Wait, Mig>(pop, take, mig, gens, eval, id));
    }
};
static std::string text(const std::vector<std::vector<Group>>& g) { std::ostringstream o; for (auto& i : g) { o << "["; for (auto& x : i) { o << "("; for (int t : x) o << t << " "; o << ")"; } o << "]"; } return o.str(); }
// every group sent takes one of the routes the topology gave for its sender, and arrives whole at each stop
static void judge(const std::vector<std::unique_ptr<Site>>& s, const std::vector<size_t>& sizes)
{
    thr::Quiet q;
    unsigned n = s.size();
    std::map<Group, std::multiset<unsigned>> at;
    for (unsigned to = 0; to < n; ++to) for (auto& g : L.received[to]) at[g].insert(to);
    std::set<Group> all;
    for (unsigned from = 0; from < n; ++from) {
        std::multiset<std::multiset<unsigned>> routes, trips;
        for (auto& r : L.routes) if (r.first == from) routes.insert(std::multiset<unsigned>(r.second.begin(), r.second.end()));
        for (auto& g : L.sent[from]) { trips.insert(at[g]); all.insert(g); }
        if (routes.size() != L.sent[from].size()) thr::bad("group passed on", "island " + std::to_string(from) + " sends " + std::to_string(L.sent[from].size()) + " groups, the model asks " + std::to_string(routes.size()) + " times for its neighbours");
        if (routes != trips) thr::bad("delivery", "groups sent by island " + std::to_string(from) + ": sent " + text(L.sent) + " received " + text(L.received));
    }
    for (auto& g : at) if (!all.count(g.first)) thr::bad("delivery", "a group nobody sent arrives: sent " + text(L.sent) + " received " + text(L.received));
    for (unsigned i = 0; i < n; ++i) {
        if (L.finished[i] != 1) thr::bad("island runs", "island " + std::to_string(i) + " runs " + std::to_string(L.finished[i]) + " times");
        if (s[i]->pop.size() != sizes[i]) thr::bad("size", "island " + std::to_string(i) + " has " + std::to_string(s[i]->pop.size()) + " individuals");
    }
    std::multiset<int> iso(L.isolated.begin(), L.isolated.end());
    for (unsigned i = 0; i < n; ++i) if (iso.count(i) != 1) thr::bad("isolation", "island " + std::to_string(i) + " is isolated " + std::to_string(iso.count(i)) + " times");
    for (auto& r : L.routes) if (!r.second.empty()) mc::note("groups with " + std::to_string(r.second.size()) + " destinations");
    uint64_t h = 5; for (auto& r : L.received) { h = mix(h, 1); for (auto& g : r) h = mix(h, hashv(g)); }
    mc::state(h);
}
static void model_run(std::function<std::unique_ptr<AbstractTopology>()> topo, const std::vector<Plan>& plans, const thr::World& w, int rounds = 1)
{
    thr::run(w, [&] {
        std::unique_ptr<AbstractTopology> inner = topo(); Watched t(*inner); IslandModel<Mig> model(t); std::vector<std::unique_ptr<Site>> s; std::vector<size_t> sizes;
        for (unsigned i = 0; i < plans.size(); ++i) { s.emplace_back(new Site(i, plans[i], 2)); sizes.push_back(2); model.add(*s[i]->island); }
        for (int r = 0; r < rounds; ++r) {
            { thr::Quiet q; L.start(plans.size()); }
            THR_CHECK(!model.isRunning(), "running", "the model runs before it is started");
            model();
            THR_CHECK(!model.isRunning(), "running", "the model still runs after its end");
            THR_CHECK(L.constructed == std::vector<int>(1, int(plans.size())), "topology built", "the topology is built " << L.constructed.size() << " times");
            for (auto& x : s) THR_CHECK(x->island->isStopped(), "stopped", "an island is not stopped at the end");
            judge(s, sizes);
        }
    });
}
static std::vector<int> sends(int gens, int kind) { if (kind == 0) return {}; if (kind == 1) return {0}; std::vector<int> v; for (int i = 0; i < gens; ++i) v.push_back(i); return v; }
static thr::World world(int p, int d) { thr::World w; w.preemptions = p; w.detours = d; return w; }

MC_SCENARIO("one island") { int g = range(1, 2); model_run(make<Topology<Ring>>, {Plan{g, sends(g, choose(3)), 1}}, world(1, 1), 2); }

MC_SCENARIO("two islands, one sends")
{
    int g = range(1, 2);
    model_run(make<Topology<Complete>>, {Plan{g, {0}, 1 + int(choose(2))}, Plan{range(1, 2), {}, 1}}, world(2, tier(1, 2)));
}
MC_SCENARIO("two islands")
{
    int a = range(1, 2), b = range(1, 2), ka = range(1, 2), kb = range(1, 2);
    model_run(make<Topology<Complete>>, {Plan{a, sends(a, ka), 1}, Plan{b, sends(b, kb), 2}}, world(1, tier(1, 2)));
}
MC_SCENARIO("two islands, run twice")
{
    model_run(make<Topology<Ring>>, {Plan{1, {0, 1}, 1}, Plan{1, {0, 1}, 1}}, world(tier(0, 1), 1), 2);
}
MC_SCENARIO("three islands")
{
    int kind = choose(3);
    model_run(kind == 0 ? make<Topology<Complete>> : kind == 1 ? make<Topology<Ring>> : make<Topology<Star>>, {Plan{range(1, 2), {0}, 1}, Plan{1, sends(1, choose(2)), 1}, Plan{range(1, 2), {}, 1}}, world(1, 1));
}

// ------------------------------------------------- another topology on the way
struct Changer : public eoContinue<Mig>
{
    int gens, at, calls = 0; std::function<void()> change; Changer(int g, int a) : gens(g), at(a) {}
    bool operator()(const eoPop<Mig>&) { std::this_thread::sleep_for(std::chrono::nanoseconds(10)); if (calls == at) change(); return ++calls < gens; }
    std::string className() const { return "Changer"; }
};
MC_SCENARIO("a new topology before the run")
{
    thr::run(world(1, 1), [&] {
        { thr::Quiet q; L.start(2); }
        struct Nobody : public AbstractTopology { std::vector<unsigned> getIdNeighbors(unsigned) const { return {}; } void construct(unsigned) {} void isolateNode(unsigned) {} } nobody;
        Topology<Complete> inner; Watched t(inner); IslandModel<Mig> model(nobody);
        std::vector<std::unique_ptr<Site>> s; std::vector<size_t> sizes(2, 2);
        for (int i = 0; i < 2; ++i) { s.emplace_back(new Site(i, Plan{1, {0}, 1}, 2)); model.add(*s[i]->island); }
        model.setTopology(t);
        model();
        judge(s, sizes);
    });
}
MC_SCENARIO("a new topology during the run")
{
    int at = range(0, 1), gens = 2;
    thr::run(world(1, 1), [&] {
        { thr::Quiet q; L.start(2); }
        Topology<Complete> inner, other; Watched t(inner);
        struct Second : public AbstractTopology
        {
            AbstractTopology& t; int built = 0, asked = 0; Second(AbstractTopology& _t) : t(_t) {}
            std::vector<unsigned> getIdNeighbors(unsigned i) const { auto v = t.getIdNeighbors(i); thr::Quiet q; L.routes.push_back({i, v}); ++const_cast<Second*>(this)->asked; return v; }
            void construct(unsigned n) { t.construct(n); thr::Quiet q; ++built; }
            void isolateNode(unsigned i) { t.isolateNode(i); THR_CHECK(L.finished[i], "isolation", "island " << i << " is cut off while it runs"); thr::Quiet q; if (std::find(L.isolated.begin(), L.isolated.end(), int(i)) == L.isolated.end()) L.isolated.push_back(i); }
        } second(other);
        IslandModel<Mig> model(t);
        std::vector<std::unique_ptr<Site>> s; std::vector<size_t> sizes(2, 2);
        s.emplace_back(new Site(0, Plan{gens, {0}, 1}, 2)); s.emplace_back(new Site(1, Plan{1, {}, 1}, 2));
        // the first island changes the topology in one of its generations
        Changer c(gens, at); bool changed = false; size_t before = 0; c.change = [&] { model.setTopology(second); thr::Quiet q; changed = true; before = L.routes.size(); };
        Island<Wait, Mig> first(s[0]->pop, s[0]->take, s[0]->mig, c, s[0]->eval, s[0]->id);
        model.add(first); model.add(*s[1]->island);
        model();
        THR_CHECK(changed && second.built >= 1, "new topology built", "the new topology was never built");
        size_t after; { thr::Quiet q; after = L.routes.size() - before; }
        THR_CHECK(second.asked >= int(after), "new topology used", "the model asks " << after << " times after the change, " << second.asked << " times the new topology");
        judge(s, sizes);
    });
}
// ------------------------------------------------------------- stopping together
MC_SCENARIO("a shared stopping rule")
{
    // several islands look at their best fitness; whoever reaches the target stops everybody
    thr::region(&eo::log, sizeof eo::log, "");
    int n = range(1, 2); std::vector<std::vector<int>> fit(n); for (auto& f : fit) for (int k = 0; k < 3; ++k) f.push_back(choose(2));
    thr::run(world(tier(2, 3), 2), [&] {
        SharedFitContinue<Mig> c(1.0); bool found = false; std::vector<std::thread> ts;
        for (int i = 0; i < n; ++i) ts.emplace_back([&, i] {
            for (int k = 0; k < 3; ++k) {
                eoPop<Mig> p; Mig m; m.fitness(fit[i][k]); p.push_back(m);
                bool before; { thr::Quiet q; before = found; if (fit[i][k]) found = true; }
                bool now; bool go = c(p); { thr::Quiet q; now = found; }
                THR_CHECK(go || now, "stops too early", "an island is told to stop at its call " << k << " although nobody reached the target");
                THR_CHECK(!go || !fit[i][k], "reaching the target stops", "an island that reached the target is told to go on");
                { thr::Quiet q; } (void)before;
                if (!go) break;
            }
        });
        for (auto& t : ts) t.join();
        eoPop<Mig> p; Mig m; m.fitness(0); p.push_back(m);
        bool go = c(p); THR_CHECK(go == !found, "shared", "after the islands ended the rule says " << go << ", target reached: " << found);
    });
}
// -------------------------------------------------------------- other islands
struct Big : public EO<double> { int tag = 0; std::string className() const { return "Big"; } void printOn(std::ostream& o) const { o << tag; } void readFrom(std::istream& i) { i >> tag; } };
struct BEval : public eoEvalFunc<Big> { void operator()(Big& b) { if (b.invalid()) b.fitness(-b.tag); } };
struct BTake : public eoReplacement<Big>
{
    void operator()(eoPop<Big>&, eoPop<Big>& in)
    {
        Group g;
        for (auto& b : in) { THR_CHECK(!b.invalid() && b.fitness() == -b.tag, "migrant evaluated", "a converted migrant " << b.tag << " has not been evaluated by its new island"); thr::Quiet q; g.push_back(b.tag - 5000); }
        thr::Quiet q; L.received[1].push_back(g);
    }
};
struct BChoose : public eoSelect<Big> { void operator()(const eoPop<Big>&, eoPop<Big>& to) { to.clear(); Big b; b.tag = 5101; b.fitness(-b.tag); to.push_back(b); thr::Quiet q; L.sent[1].push_back(Group{101}); } };
struct BAt : public eoContinue<Big> { int n; bool lazy; int calls = 0; BAt(int _n, bool l) : n(_n), lazy(l) {} bool operator()(const eoPop<Big>&) { if (lazy) std::this_thread::sleep_for(std::chrono::nanoseconds(10)); return ++calls != n; } std::string className() const { return "BAt"; } };
MC_SCENARIO("islands of different kinds")
{
    int g = range(1, 2);
    thr::run(world(1, 1), [&] {
        { thr::Quiet q; L.start(2); }
        Topology<Complete> inner; Watched t(inner); IslandModel<Mig> model(t);
        std::vector<std::unique_ptr<Site>> s; s.emplace_back(new Site(0, Plan{g, {0}, 2}, 2));
        eoPop<Big> pop; Big b0; b0.tag = 7; b0.fitness(-7); pop.push_back(b0); BEval eval; BTake take; BChoose who; BAt when(1, false), gens(2, true); MigPolicy<Big> mig; mig.push_back(PolicyElement<Big>(who, when)); int id = 1;
        Island<Wait, Big, Mig> other([](Mig& m) { Big b; b.tag = m.tag + 5000; return b; }, [](Big& b) { Mig m; m.tag = b.tag - 5000; return m; }, pop, take, mig, gens, eval, id);
        model.add(*s[0]->island); model.add(other);
        model();
        { thr::Quiet q; std::vector<std::unique_ptr<Site>> two; }
        // both kinds of groups take their routes
        thr::Quiet q;
        for (unsigned from = 0; from < 2; ++from) {
            unsigned to = 1 - from; size_t routes = 0, stops = 0;
            for (auto& r : L.routes) if (r.first == from) { ++routes; stops += r.second.size(); }
            if (routes != L.sent[from].size() || stops != L.received[to].size()) thr::bad("delivery", "between different kinds: sent " + text(L.sent) + " received " + text(L.received));
            for (auto& gr : L.received[to]) if (std::find(L.sent[from].begin(), L.sent[from].end(), gr) == L.sent[from].end()) thr::bad("delivery", "between different kinds: sent " + text(L.sent) + " received " + text(L.received));
        }
        if (pop.size() != 1) thr::bad("size", "population of the other kind");
    });
}
// the wrapper shares its components between the islands: they keep no state
struct Empty : public eoContinue<Mig> { bool operator()(const eoPop<Mig>&) { return false; } std::string className() const { return "Empty"; } };
struct SEval : public eoEvalFunc<Mig> { void operator()(Mig& m) { m.fitness(m.tag * 0.5); } };
struct SInit : public eoInit<Mig> { int n = 0; void operator()(Mig& m) { m.tag = ++n; m.fitness(m.tag * 0.5); } };
struct STake : public eoReplacement<Mig> { void operator()(eoPop<Mig>& p, eoPop<Mig>& in) { for (auto& m : in) { THR_CHECK(!m.invalid() && m.fitness() == m.tag * 0.5, "migrant evaluated", "tag " << m.tag); p.back() = m; } } };
struct SChoose : public eoSelect<Mig> { void operator()(const eoPop<Mig>& p, eoPop<Mig>& to) { to.clear(); to.push_back(p[0]); } };
MC_SCENARIO("several islands from one call")
{
    unsigned n = range(1, 2), size = range(1, 2);
    thr::run(world(1, 1), [&] {
        { thr::Quiet q; L.start(3); }
        Topology<Complete> topo; Empty c, when; SEval e; SInit init; STake take; SChoose who; MigPolicy<Mig> mig; mig.push_back(PolicyElement<Mig>(who, when)); int id = 0;
        std::vector<eoPop<Mig>> pops = IslandModelWrapper<Wait, Mig>(n, topo, size, init, take, mig, c, e, id);
        THR_CHECK(pops.size() == n && L.finished[0] == int(n), "populations", pops.size() << " populations for " << n << " islands");
        for (unsigned i = 0; i < n; ++i) {
            THR_CHECK(pops[i].size() == size, "size", "population " << i << " has " << pops[i].size() << " individuals");
            THR_CHECK(size == 1 || pops[i][0].tag == int(i * size + 1), "population kept", "first individual of island " << i << " is " << pops[i][0].tag);
        }
    });
}
MC_SCENARIO("islands that evolve")
{
    // complete algorithms with their own components; migrants replace the worst
    thr::region(&eo::log, sizeof eo::log, "");
    int g = range(1, 2);
    thr::run(world(tier(0, 1), 1), [&] {
        typedef eoBit<double> Ind; struct Ev : public eoEvalFunc<Ind> { void operator()(Ind& i) { double f = 0; for (unsigned k = 0; k < i.size(); ++k) f = 2 * f + i[k]; i.fitness(f); } };
        struct Br : public eoBreed<Ind> { void operator()(const eoPop<Ind>& p, eoPop<Ind>& k) { k.clear(); for (auto& x : p) { Ind y = x; y[0] = !y[0]; y.invalidate(); k.push_back(y); } } };
        struct Al : public eoContinue<Ind> { bool operator()(const eoPop<Ind>&) { return false; } std::string className() const { return "Al"; } };
        struct Se : public eoSelect<Ind> { void operator()(const eoPop<Ind>& p, eoPop<Ind>& to) { to.clear(); to.push_back(p.best_element()); } };
        struct One { Ev e; Br b; eoPlusReplacement<Ind> r, in; eoGenContinue<Ind> c; Al a; Se s; MigPolicy<Ind> m; eoPop<Ind> pop; std::unique_ptr<Island<eoEasyEA, Ind>> island;
            One(int gens, int first) : c(gens) { for (int k = 0; k < 2; ++k) { Ind i(2, false); i[1] = first; e(i); pop.push_back(i); } m.push_back(PolicyElement<Ind>(s, a)); eoContinue<Ind>& cc = c; eoEvalFunc<Ind>& ee = e; eoBreed<Ind>& bb = b; eoReplacement<Ind>& rr = r; island.reset(new Island<eoEasyEA, Ind>(pop, in, m, cc, ee, bb, rr)); } };
        Topology<Complete> t; IslandModel<Ind> model(t); One x(g, 0), y(1, 1); model.add(*x.island); model.add(*y.island);
        model();
        for (One* o : {&x, &y}) {
            THR_CHECK(o->pop.size() == 2, "size", o->pop.size() << " individuals");
            for (auto& i : o->pop) { THR_CHECK(!i.invalid() && i.fitness() == 2 * int(i[0]) + int(i[1]), "evaluated", "individual " << i[0] << i[1]); }
            THR_CHECK(o->pop.best_element().fitness() >= (o == &x ? 2 : 3), "evolves", "best fitness " << o->pop.best_element().fitness());
        }
    });
}

// ------------------------------------- what the islands share without knowing
MC_SCENARIO("the log of the islands")
{
    thr::region(&eo::log, sizeof eo::log, "eo::log");
    thr::run(world(0, 1), [&] {
        auto work = [] { eoGenContinue<Mig> c(1); eoPop<Mig> p; c(p); };
        std::thread a(work), b(work); a.join(); b.join();
    });
}
MC_SCENARIO("the generator of the islands")
{
    thr::region(&eo::rng, sizeof eo::rng, "eo::rng"); rng_off();
    thr::run(world(0, 1), [&] {
        auto work = [] { eoBitMutation<eoBit<double>> m(0.5); eoBit<double> x(2, false); m(x); };
        std::thread a(work), b(work); a.join(); b.join();
    });
}
