// Tabu search: memories against a plain list of what was added, and every choice of the search.
#include "land.hpp"
#include <memory/moNeighborVectorTabuList.h>
#include <memory/moSolVectorTabuList.h>
#include <memory/moIndexedVectorTabuList.h>
#include <memory/moRndIndexedVectorTabuList.h>
#include <memory/moMonOpDiversification.h>
#include <memory/moBestImprAspiration.h>
#include <memory/moCountMoveMemory.h>
#include <algo/moTS.h>
#include <cstring>
#include <deque>

typedef Land<double> L; typedef L::N N; typedef L::S S;
static const std::vector<uint32_t> FOUR = {0x19999999, 0x4ccccccd, 0x99999999, 0xe6666666};

// what each memory is meant to forbid
struct Memory
{
    enum Kind { MOVES, SOLUTIONS, NUMBERED, NUMBERED_RANGE, NUMBERED_RANDOM } kind;
    unsigned size, lo, hi;                        // tenure between lo and hi
    struct Item { uint32_t what; unsigned age; };
    std::deque<Item> items;
    void clear() { items.clear(); }
    void add(uint32_t sol, uint32_t move)
    {
        if (kind == MOVES || kind == SOLUTIONS) {
            items.push_back({kind == MOVES ? move : sol, 0});
            if (items.size() > size) items.pop_front();
        } else if (move < size) {
            for (auto i = items.begin(); i != items.end();) if (i->what == move) i = items.erase(i); else ++i;
            items.push_back({move, 0});
        }
    }
    void update() { for (auto& i : items) ++i.age; }
    // 0 allowed, 1 forbidden, 2 either (a random tenure)
    int forbids(uint32_t sol, uint32_t move) const
    {
        uint32_t w = kind == SOLUTIONS ? sol ^ 1u << move : move;
        int r = 0;
        for (auto& i : items) if (i.what == w) {
            if (kind <= SOLUTIONS) { if (lo == 0 || i.age < lo) return 1; }
            else if (i.age < lo) return 1;
            else if (i.age < hi) r = 2;
        }
        return r;
    }
};
static std::unique_ptr<moTabuList<N>> build(Memory& m)
{
    switch (m.kind) {
        case Memory::MOVES: return std::unique_ptr<moTabuList<N>>(new moNeighborVectorTabuList<N>(m.size, m.lo));
        case Memory::SOLUTIONS: return std::unique_ptr<moTabuList<N>>(new moSolVectorTabuList<N>(m.size, m.lo));
        case Memory::NUMBERED: return std::unique_ptr<moTabuList<N>>(new moIndexedVectorTabuList<N>(m.size, m.lo));
        case Memory::NUMBERED_RANGE: return std::unique_ptr<moTabuList<N>>(new moIndexedVectorTabuList<N>(m.size, m.lo, m.hi));
        default: return std::unique_ptr<moTabuList<N>>(new moRndIndexedVectorTabuList<N>(m.size, m.lo, m.hi - m.lo));
    }
}
static Memory any_memory(bool short_ones)
{
    Memory m;
    m.kind = Memory::Kind(mc::choose(5));
    m.size = 1 + mc::choose(3);
    m.lo = mc::choose(short_ones ? 3 : 4);
    m.hi = m.lo + (m.kind >= Memory::NUMBERED_RANGE ? mc::choose(3) : 0);
    return m;
}
static void same(moTabuList<N>& t, Memory& m, unsigned n)
{
    for (uint32_t v = 0; v < (1u << n); ++v) for (unsigned i = 0; i < n; ++i) {
        S s = bits_of<S>(n, v);
        N x;
        x.index(s, i);
        bool got = t.check(s, x);
        int want = m.forbids(v, i);
        MC_CHECK(want == 2 || got == (want == 1), "memory", "kind " << m.kind << " size " << m.size << " tenure " << m.lo << "-" << m.hi << ": move " << i << " from " << v << (got ? " forbidden" : " allowed") << " after " << m.items.size() << " entries");
        MC_CHECK(num_of(s) == v, "memory changes the solution", "");
    }
}
MC_SCENARIO("memories forbid what was added within the tenure")
{
    unsigned n = 2 + mc::choose(2);
    Memory m = any_memory(false);
    auto t = build(m);
    mc::rng_words(FOUR, 8);
    bool started = mc::flag();                    // the search starts a memory before using it, other users may not
    S s0 = bits_of<S>(n, 0);
    if (started) { t->init(s0); }
    unsigned steps = mc::tier(n == 2 ? 4u : 3u, n == 2 ? 5u : 4u);
    for (unsigned k = 0; k < steps; ++k) {
        uint32_t v = 0;
        unsigned i = 0;
        switch (mc::choose(k ? 4 : 2)) {
            case 0: {                             // an iteration that moved
                i = mc::choose(n);
                v = m.kind == Memory::SOLUTIONS ? mc::choose(1u << n) : 0;
                S s = bits_of<S>(n, v);
                N x;
                x.index(s, i);
                t->add(s, x);
                m.add(v, i);
                t->update(s, x);
                m.update();
                break;
            }
            case 1: { S s = bits_of<S>(n, 0); N x; x.index(s, 0); t->update(s, x); m.update(); break; }
            case 2: { S s = bits_of<S>(n, 1); if (mc::flag()) t->init(s); else t->clearMemory(); m.clear(); break; }
            default: {                            // added without an update
                i = mc::choose(n);
                S s = bits_of<S>(n, 3);
                N x;
                x.index(s, i);
                t->add(s, x);
                m.add(3, i);
                break;
            }
        }
        uint64_t h = mc::mix(m.kind * 64 + m.size * 16 + m.lo * 4 + m.hi, n);
        for (auto& x : m.items) h = mc::mix(h, x.what * 16 + x.age);
        mc::state(h);
        same(*t, m, n);
    }
}
MC_SCENARIO("a memory filled, emptied and filled again")
{
    // longer histories: each phase adds moves in turn, past the room there is
    unsigned n = 3;
    Memory m;
    m.kind = Memory::Kind(mc::choose(3));
    m.size = m.kind == Memory::NUMBERED ? n : mc::range(1, 3);
    m.lo = m.hi = mc::pick({0, 2, 5});
    auto t = build(m);
    S s0 = bits_of<S>(n, 0);
    t->init(s0);
    uint64_t h = m.kind * 64 + m.size * 16 + m.lo;
    for (int phase = 0; phase < 3; ++phase) {
        unsigned adds = mc::choose(mc::tier(6, 8)), first = mc::choose(n);
        h = mc::mix(h, adds * 8 + first);
        for (unsigned k = 0; k < adds; ++k) {
            unsigned i = (first + k) % n;
            uint32_t v = m.kind == Memory::SOLUTIONS ? (first + k) % 5 : 0;
            S s = bits_of<S>(n, v);
            N x;
            x.index(s, i);
            t->add(s, x);
            m.add(v, i);
            t->update(s, x);
            m.update();
            same(*t, m, n);
        }
        if (phase == 1 && mc::flag()) t->clearMemory(); else t->init(s0);
        m.clear();
        same(*t, m, n);
    }
    mc::state(h);
}
// objects built over memory that held other data
template <class T, class... A> static T* dirty(std::vector<char>& room, unsigned char fill, A... a)
{
    room.assign(sizeof(T), char(fill));
    return new (room.data()) T(a...);
}
MC_SCENARIO("a memory used before being started")
{
    std::vector<char> room;
    unsigned size = 1 + mc::choose(3);
    unsigned char fill = mc::pick({(unsigned char)0x01, (unsigned char)0xa5});
    bool sols = mc::flag();
    Memory m{sols ? Memory::SOLUTIONS : Memory::MOVES, size, 0, 0, {}};
    moTabuList<N>* t = sols ? (moTabuList<N>*)dirty<moSolVectorTabuList<N>>(room, fill, size, 0u) : dirty<moNeighborVectorTabuList<N>>(room, fill, size, 0u);
    for (unsigned k = 0; k < 4; ++k) {
        unsigned i = sols ? 0 : mc::choose(3);
        uint32_t v = sols ? mc::choose(4) : 0;
        S s = bits_of<S>(3, v);
        N x;
        x.index(s, i);
        t->add(s, x);
        m.add(v, i);
        mc::state(mc::mix(sols, mc::mix(k * 64 + size, v * 4 + i)));
        same(*t, m, 3);
    }
    t->~moTabuList<N>();
}
MC_SCENARIO("moves that a numbered memory has no room for")
{
    // a memory for fewer moves than there are: the others are never forbidden
    unsigned size = 1 + mc::choose(2);
    Memory m{Memory::NUMBERED, size, 2, 2, {}};
    auto t = build(m);
    S s = bits_of<S>(4, 0);
    t->init(s);
    for (unsigned k = 0; k < 3; ++k) {
        N x;
        x.index(s, mc::choose(4));
        t->add(s, x);
        m.add(0, x.index());
        t->update(s, x);
        m.update();
        mc::state(mc::mix(size, k * 8 + x.index()));
        same(*t, m, 4);
    }
}
MC_SCENARIO("random tenures reach both ends")
{
    unsigned lo = 1 + mc::choose(2), extra = 1 + mc::choose(2);
    int kind = mc::choose(2);
    std::set<unsigned> seen;
    mc::forall([&] {
        Memory m{kind ? Memory::NUMBERED_RANDOM : Memory::NUMBERED_RANGE, 2, lo, lo + extra, {}};
        auto t = build(m);
        S s = bits_of<S>(2, 0);
        N x;
        x.index(s, 1);
        mc::rng_words(FOUR, 2);
        t->init(s);
        t->add(s, x);
        unsigned k = 0;
        while (t->check(s, x)) { t->update(s, x); ++k; MC_CHECK(k < 10, "memory", "never allowed again"); }
        MC_CHECK(k >= lo && k <= lo + extra, "tenure", k << " outside " << lo << "-" << lo + extra);
        seen.insert(k);
        mc::state(mc::mix(k, lo * 8 + extra * 2 + kind));
    });
    MC_CHECK(seen.count(lo) && seen.count(lo + extra - 1), "tenure range", mc::show(seen) << " for " << lo << "-" << lo + extra);
}

// ------------------------------------------------------------------ the search
// a memory that may forbid anything and an aspiration that may allow anything
struct AnyTabu : moTabuList<N>
{
    std::map<unsigned, bool> now; unsigned adds = 0, updates = 0, inits = 0; std::vector<unsigned> added; bool fresh = true;
    bool check(S&, N& x) override { if (!now.count(x.index())) now[x.index()] = mc::flag(); return now[x.index()]; }
    void init(S&) override { ++inits; now.clear(); added.clear(); }
    void add(S&, N& x) override { ++adds; added.push_back(x.index()); }
    void update(S&, N&) override { ++updates; }
    void clearMemory() override {}
};
struct AnyAspiration : moAspiration<N>
{
    std::map<unsigned, bool> now;
    void init(S&) override { now.clear(); }
    void update(S&, N&) override {}
    bool operator()(S&, N& x) override { if (!now.count(x.index())) now[x.index()] = mc::flag(); return now[x.index()]; }
};
struct AnyJump : moDiversification<N>, moIntensification<N>
{
    const L& l; bool on; std::vector<uint32_t>* visited; bool evaluated = true;
    AnyJump(const L& x, bool o, std::vector<uint32_t>* v) : l(x), on(o), visited(v) {}
    bool operator()(S& s) override
    {
        if (!on) return false;
        uint32_t v = mc::choose(1u << l.n);
        s = l.start(v, true);
        if (visited) visited->push_back(v);
        return true;
    }
    void init(S&) override {}
    void add(S&, N&) override {}
    void update(S&, N&) override {}
    void clearMemory() override {}
};
MC_SCENARIO("the best allowed neighbour is taken, whatever is forbidden")
{
    unsigned n = mc::range(1, 3);
    L land = any_land<double>(n, n == 3 ? 2 : 3);
    if (n == 3) for (unsigned i = 0; i < 8; ++i) if (i != 0 && __builtin_popcount(i) != 1) mc::assume(land.value[i] == 0);
    FullTable<double> full(land);
    NearTable<double> near(land);
    moOrderNeighborhood<N> nh(n);
    moNeighborComparator<N> nc;
    moSolNeighborComparator<N> sc;
    AnyTabu tabu;
    AnyAspiration asp;
    std::vector<uint32_t> none;
    AnyJump still(land, false, nullptr);
    uint32_t from = n == 3 ? 0 : mc::choose(1u << n);
    unsigned iters = n == 1 ? 2 : 1;
    Watch<N> w;
    w.stop_after = iters;
    uint32_t cur = from, before = from;
    double best = land.value[from];
    unsigned moves = 0;
    w.judge = [&](S& s) {
        MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", "");
        if (w.at.size() == 1) return;
        before = cur;
        cur = num_of(s);
        bool any = false;
        double top = 0;
        for (unsigned i = 0; i < n; ++i) {
            MC_CHECK(tabu.now.count(i), "neighbour not looked at", i);
            if (!tabu.now[i] || (asp.now.count(i) && asp.now[i])) { double f = land.value[before ^ 1u << i]; if (!any || f > top) top = f; any = true; }
        }
        mc::state(mc::mix(mc::hashv(land.value), mc::mix(before * 8 + cur, any)));
        if (!any) { MC_CHECK(cur == before, "moved though all is forbidden", ""); }
        else {
            MC_CHECK(__builtin_popcount(cur ^ before) == 1, "no move", "from " << before << " to " << cur);
            unsigned i = unsigned(__builtin_ctz(cur ^ before));
            MC_CHECK(!tabu.now[i] || (asp.now.count(i) && asp.now[i]), "forbidden move", i);
            MC_CHECK(land.value[cur] == top, "not the best allowed", land.value[cur] << " instead of " << top);
            ++moves;
            MC_CHECK(tabu.added.size() == moves && tabu.added.back() == i, "move not remembered", "");
            best = std::max(best, land.value[cur]);
        }
        MC_CHECK(tabu.adds == moves && tabu.updates == w.at.size() - 1, "memory calls", tabu.adds << " " << tabu.updates);
        tabu.now.clear();
        asp.now.clear();
    };
    moTS<N> ts(nh, full, near, nc, sc, w, tabu, still, still, asp);
    S s = land.start(from);
    ts(s);
    MC_CHECK(w.at.size() == iters + 1, "iterations", w.at.size() - 1);
    MC_CHECK(s.fitness() == best && land.value[num_of(s)] == best && ts.getExplorer().getBest().fitness() == best, "best lost", "");
}
template <class F> static void whole()
{
    typedef Land<F> LL; typedef typename LL::S SS; typedef typename LL::N NN;
    unsigned n = 2;
    LL land = any_land<F>(n, 3);
    FullTable<F> full(land);
    NearTable<F> near(land);
    moOrderNeighborhood<NN> nh(n);
    Memory m;
    m.kind = Memory::Kind(mc::choose(3));
    m.size = 1 + mc::choose(2);
    m.lo = mc::choose(4);
    m.hi = m.lo;
    std::unique_ptr<moTabuList<NN>> tl;
    if (m.kind == Memory::MOVES) tl.reset(new moNeighborVectorTabuList<NN>(m.size, m.lo));
    if (m.kind == Memory::SOLUTIONS) tl.reset(new moSolVectorTabuList<NN>(m.size, m.lo));
    if (m.kind == Memory::NUMBERED) { m.size = n; tl.reset(new moIndexedVectorTabuList<NN>(n, m.lo)); }
    moBestImprAspiration<NN> asp;
    Watch<NN> w;
    w.stop_after = mc::range(3, mc::tier(4, 5));
    moTS<NN> ts(nh, full, near, w, *tl, asp);
    for (unsigned run = 0; run < 2; ++run) {
        uint32_t cur = run ? 3 : mc::choose(4);
        m.clear();
        double best = land.value[cur];
        w.judge = [&](SS& s) {
            MC_CHECK(!s.invalid() && double(s.fitness()) == land.value[num_of(s)], "recorded fitness", "");
            if (w.at.size() == 1) return;
            uint32_t next = num_of(s);
            bool any = false;
            double top = 0;
            std::vector<bool> ok(n);
            for (unsigned i = 0; i < n; ++i) {
                double f = land.value[cur ^ 1u << i];
                ok[i] = !m.forbids(cur, i) || LL::better(f, best);
                if (ok[i]) { if (!any || LL::better(f, top)) top = f; any = true; }
            }
            mc::state(mc::mix(mc::hashv(land.value), mc::mix(cur * 8 + next, m.items.size() * 8 + m.kind)));
            if (!any) MC_CHECK(next == cur, "moved though all is forbidden", "");
            else {
                MC_CHECK(__builtin_popcount(cur ^ next) == 1, "no move", "from " << cur << " to " << next);
                unsigned i = unsigned(__builtin_ctz(cur ^ next));
                MC_CHECK(ok[i], "forbidden move", "run " << run << " move " << i);
                MC_CHECK(land.value[next] == top, "not the best allowed", "");
                m.add(next, i);
            }
            m.update();
            cur = next;
            if (LL::better(land.value[cur], best)) best = land.value[cur];
            MC_CHECK(double(ts.getExplorer().getBest().fitness()) == best && double(asp.getBest().fitness()) == best, "best so far", "");
        };
        SS s = land.start(cur);
        ts(s);
        MC_CHECK(land.value[num_of(s)] == best && double(s.fitness()) == best, "best lost", land.value[num_of(s)] << " returned, " << best << " visited");
    }
}
MC_SCENARIO("whole searches with real memories, maximising") { whole<double>(); }
MC_SCENARIO("whole searches with real memories, minimising") { whole<eoMinimizingFitness>(); }
MC_SCENARIO("jumps during the search")
{
    unsigned n = 1 + mc::choose(2);
    L land = any_land<double>(n, n == 2 ? 2 : 3);
    FullTable<double> full(land);
    NearTable<double> near(land);
    moOrderNeighborhood<N> nh(n);
    moNeighborComparator<N> nc;
    moSolNeighborComparator<N> sc;
    Memory m{Memory::MOVES, 2, mc::choose(3), 0, {}};
    auto t = build(m);
    moBestImprAspiration<N> asp;
    std::vector<uint32_t> visited;
    bool di = mc::flag();
    AnyJump jump(land, di, &visited), leap(land, !di, &visited);
    Watch<N> w;
    w.stop_after = 2;
    w.judge = [&](S& s) { MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", ""); visited.push_back(num_of(s)); };
    moTS<N> ts(nh, full, near, nc, sc, w, *t, leap, jump, asp);
    S s = land.start(mc::choose(1u << n));
    ts(s);
    double best = land.value[visited[0]];
    for (auto v : visited) best = std::max(best, land.value[v]);
    mc::state(mc::mix(mc::hashv(land.value), mc::hashv(visited)));
    MC_CHECK(s.fitness() == best && land.value[num_of(s)] == best, "best lost", s.fitness() << " returned, " << best << " visited");
}
struct Flip : eoMonOp<S> { bool operator()(S& s) override { uint32_t k = mc::choose(uint32_t(s.size()) + 1); if (k == s.size()) return false; s[k] = !s[k]; return true; } };
MC_SCENARIO("diversification by an operator leaves a true fitness")
{
    L land = any_land<double>(2, 3);
    FullTable<double> table(land);
    eoEvalFuncCounter<S> lazy(table);
    eoEvalFunc<S>& full = mc::flag() ? (eoEvalFunc<S>&)lazy : table;
    Flip op;
    moMonOpDiversification<N> d(op, full);
    S s = land.start(mc::choose(4), true);
    uint32_t from = num_of(s);
    d.init(s);
    bool changed = d(s);
    mc::state(mc::mix(mc::hashv(land.value), from * 8 + num_of(s)));
    MC_CHECK(changed == (num_of(s) != from), "diversification", "");
    MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", "after diversification");
}
MC_SCENARIO("simple constructors")
{
    // the time given is in seconds: one iteration with no time left
    L land = any_land<double>(2, 2);
    FullTable<double> full(land);
    NearTable<double> near(land);
    moOrderNeighborhood<N> nh(2);
    uint32_t from = mc::choose(4);
    S s = land.start(from);
    moIndexedVectorTabuList<N> tl(2, 1);
    if (mc::flag()) { moTS<N> ts(nh, full, near, 0, 2); ts(s); }
    else { moTS<N> ts(nh, full, near, 0, tl); ts(s); }
    double best = std::max(land.value[from], land.best_near(from));
    mc::state(mc::mix(from, mc::hashv(land.value)));
    MC_CHECK(s.fitness() >= best && s.fitness() == land.value[num_of(s)], "best lost", "");
}
MC_SCENARIO("counting memory")
{
    moCountMoveMemory<N> c;
    S s(2, false);
    N x;
    c.init(s);
    unsigned moves = 0, still = 0, since = 0;
    for (unsigned k = 0; k < 5; ++k) {
        switch (mc::choose(4)) {
            case 0: c.add(s, x); ++moves; since = 0; break;
            case 1: c.update(s, x); ++still; ++since; break;
            case 2: c.initCounter(); since = 0; break;
            default: if (mc::flag()) c.init(s); else c.clearMemory(); moves = still = since = 0; break;
        }
        mc::state(mc::mix(moves * 64 + still * 8 + since, k));
        MC_CHECK(c.getNbMove() == moves && c.getNbNoMove() == still && c.getCounter() == since, "counters", "");
    }
}
