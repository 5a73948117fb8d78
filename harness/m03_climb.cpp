// Local searches on every small landscape: which moves they make, where and how they end.
#include "land.hpp"
#include <perturb/moMonOpPerturb.h>
#include <perturb/moRestartPerturb.h>
#include <perturb/moNeighborhoodPerturb.h>
#include <perturb/moLocalSearchInit.h>
#include <perturb/moSolInit.h>
#include <acceptCrit/moAlwaysAcceptCrit.h>
#include <acceptCrit/moBetterAcceptCrit.h>
#include <neighborhood/moForwardVectorVNSelection.h>
#include <neighborhood/moBackwardVectorVNSelection.h>
#include <neighborhood/moRndVectorVNSelection.h>
#include <algo/moVNS.h>
#include <algo/moILS.h>
#include <set>

static const std::vector<uint32_t> TWO = {0x19999999, 0xe6666666};
static const std::vector<uint32_t> FOUR = {0x19999999, 0x4ccccccd, 0x99999999, 0xe6666666};

enum Kind { BEST, FIRST, FIRST_ON, RANDOM_BEST, NEUTRAL };

template <class F> static void climb(unsigned n, unsigned k, bool random_walk, bool again)
{
    typedef Land<F> L; typedef typename L::S S; typedef typename L::N N;
    L land = any_land<F>(n, k);
    Kind kind = Kind(mc::choose(5));
    bool weak = kind != NEUTRAL && kind != FIRST_ON && mc::flag();   // accept equal fitness too
    unsigned steps = kind == NEUTRAL ? 1 + mc::choose(3) : 0;
    unsigned stop = kind == FIRST_ON || weak ? 1 + mc::choose(3) : mc::pick({~0u, 1u});
    if (random_walk) mc::rng_words(TWO, 40); else mc::rng_words(FOUR, 20);
    FullTable<F> full(land);
    NearTable<F> near(land);
    moOrderNeighborhood<N> order(n);
    moRndWithoutReplNeighborhood<N> shuffled(n);
    moNeighborhood<N>& nh = random_walk ? (moNeighborhood<N>&)shuffled : order;
    Watch<N> w;
    w.stop_after = stop;
    w.judge = [&](S& s) { MC_CHECK(!s.invalid() && double(s.fitness()) == land.value[num_of(s)], "recorded fitness", "solution " << num_of(s)); };
    moNeighborComparator<N> nc;
    moSolNeighborComparator<N> strict;
    moEqualSolNeighborComparator<N> loose;
    moSolNeighborComparator<N>& sc = weak ? (moSolNeighborComparator<N>&)loose : strict;
    std::unique_ptr<moLocalSearch<N>> ls;
    if (kind == BEST) ls.reset(weak ? new moSimpleHC<N>(nh, full, near, w, nc, sc) : new moSimpleHC<N>(nh, full, near, w));
    if (kind == FIRST || kind == FIRST_ON) {
        ls.reset(weak ? new moFirstImprHC<N>(nh, full, near, w, nc, sc) : new moFirstImprHC<N>(nh, full, near, w));
        if (kind == FIRST_ON) static_cast<moFirstImprHCexplorer<N>&>(ls->getNeighborhoodExplorer()).alwaysContinue();
    }
    if (kind == RANDOM_BEST) ls.reset(weak ? new moRandomBestHC<N>(nh, full, near, w, nc, sc) : new moRandomBestHC<N>(nh, full, near, w));
    if (kind == NEUTRAL) ls.reset(new moNeutralHC<N>(nh, full, near, steps, w));
    for (unsigned run = 0; run < (again ? 2u : 1u); ++run) {
        uint32_t from = mc::choose(1u << n);
        S s = land.start(from, run == 0 ? false : true);
        (*ls)(s);
        MC_CHECK(w.inits == run + 1 && w.lasts == run + 1, "start and end calls", w.inits << " " << w.lasts);
        const std::vector<uint32_t>& at = w.at;
        MC_CHECK(at[0] == from, "start", "");
        MC_CHECK(at.back() == num_of(s), "end", "the search returns another solution than its last one");
        MC_CHECK(!s.invalid() && double(s.fitness()) == land.value[num_of(s)], "recorded fitness", "at the end");
        for (unsigned i = 1; i < at.size(); ++i) {
            uint32_t a = at[i - 1], b = at[i];
            double fa = land.value[a], near_best = n ? land.best_near(a) : 0;
            mc::state(mc::mix(mc::mix(kind, a * 16 + b), mc::hashv(land.value)));
            bool may = n && (L::better(near_best, fa) || ((weak || kind == NEUTRAL) && near_best == fa));
            // moved or stayed?
            if (a == b) {
                MC_CHECK(!may, "no move though one is allowed", "kind " << kind << " at " << a);
                if (kind != FIRST_ON) MC_CHECK(i + 1 == at.size(), "goes on without moving", "kind " << kind);
                continue;
            }
            MC_CHECK(__builtin_popcount(a ^ b) == 1, "jump", a << " to " << b);
            double fb = land.value[b];
            MC_CHECK(L::better(fb, fa) || ((weak || kind == NEUTRAL) && fb == fa), "move not allowed", "kind " << kind << " from " << fa << " to " << fb);
            if (kind == BEST || kind == RANDOM_BEST || kind == NEUTRAL) MC_CHECK(fb == near_best, "not the best neighbour", "kind " << kind << " from " << a << " to " << b);
            if ((kind == FIRST || kind == FIRST_ON) && !random_walk)
                for (uint32_t m = 1; m < (a ^ b); m <<= 1) MC_CHECK(!(L::better(land.value[a ^ m], fa) || (weak && land.value[a ^ m] == fa)), "not the first improving neighbour", "");
        }
        unsigned iters = unsigned(at.size()) - 1;
        bool moved_last = at.size() > 1 && at[at.size() - 2] != at.back();
        MC_CHECK(iters <= stop, "goes on after the stopping rule", iters);
        if (kind == NEUTRAL) {
            MC_CHECK(iters <= steps, "too many steps", iters << " of " << steps);
            MC_CHECK(iters == steps || iters == stop || !moved_last, "ends early", iters << " of " << steps);
        } else if (kind == FIRST_ON) MC_CHECK(iters == stop, "ends early", iters);
        else {
            MC_CHECK(iters == stop || !moved_last, "ends early", "kind " << kind << " after " << iters << " iterations");
            if (iters != stop) MC_CHECK(land.optimum(at.back()), "not a local optimum", at.back());
        }
    }
}
MC_SCENARIO("hill climbers on all landscapes of two bits, maximising") { climb<double>(2, 3, mc::flag(), false); }
MC_SCENARIO("hill climbers on all landscapes of two bits, minimising") { climb<eoMinimizingFitness>(2, 3, mc::flag(), false); }
MC_SCENARIO("hill climbers run twice") { climb<double>(2, 2, false, true); }
MC_SCENARIO_T("hill climbers run twice in random order") { climb<double>(2, 2, true, true); }
MC_SCENARIO("hill climbers on landscapes of three bits") { if (mc::flag()) climb<double>(3, 2, false, false); else climb<eoMinimizingFitness>(3, 2, false, false); }
MC_SCENARIO_T("hill climbers on landscapes of three bits and three values") { climb<eoMinimizingFitness>(3, 3, false, false); }
MC_SCENARIO("no neighbours at all")
{
    Land<double> land; land.n = 0; land.value = {1.};
    typedef Land<double>::N N;
    FullTable<double> full(land);
    NearTable<double> near(land);
    moOrderNeighborhood<N> nh(0);
    moRndWithoutReplNeighborhood<N> rn(0);
    Watch<N> w;
    std::unique_ptr<moLocalSearch<N>> ls;
    switch (mc::choose(6)) {
        case 0: ls.reset(new moSimpleHC<N>(nh, full, near, w)); break;
        case 1: ls.reset(new moFirstImprHC<N>(nh, full, near, w)); break;
        case 2: ls.reset(new moRandomBestHC<N>(nh, full, near, w)); break;
        case 3: ls.reset(new moNeutralHC<N>(nh, full, near, 3, w)); break;
        case 4: ls.reset(new moRandomNeutralWalk<N>(rn, full, near, 3, w)); break;
        default: ls.reset(new moRandomWalk<N>(rn, full, near, w)); break;
    }
    for (int run = 0; run < 2; ++run) {
        Land<double>::S s(0);
        (*ls)(s);
        mc::state(run);
        MC_CHECK(w.at.size() == 2, "goes on without neighbours", w.at.size());
        MC_CHECK(s.fitness() == 1, "recorded fitness", "");
    }
}

MC_SCENARIO("a random best climber may take every best neighbour")
{
    typedef Land<double> L; typedef L::N N;
    L land = any_land<double>(3, 2);
    uint32_t from = mc::pick({0u, 5u});
    std::set<uint32_t> got;
    int kind = mc::choose(2);
    mc::forall([&] {
        FullTable<double> full(land);
        NearTable<double> near(land);
        moOrderNeighborhood<N> nh(3);
        Watch<N> w;
        w.stop_after = 1;
        std::unique_ptr<moLocalSearch<N>> ls;
        if (kind) ls.reset(new moNeutralHC<N>(nh, full, near, 5, w)); else ls.reset(new moRandomBestHC<N>(nh, full, near, w));
        mc::rng_words(FOUR, 4);
        L::S s = land.start(from);
        (*ls)(s);
        got.insert(num_of(s));
    });
    std::set<uint32_t> want;
    double b = land.best_near(from);
    if (b > land.value[from] || (kind && b == land.value[from])) { for (unsigned i = 0; i < 3; ++i) if (land.value[from ^ 1u << i] == b) want.insert(from ^ 1u << i); } else want.insert(from);
    mc::state(mc::mix(from * 2 + kind, mc::hashv(land.value)));
    MC_CHECK(got == want, "random best choice", got.size() << " of " << want.size() << " possible");
}

// ------------------------------------------------------------------ walks
MC_SCENARIO("random and neutral walks")
{
    typedef Land<double> L; typedef L::N N;
    unsigned n = 2;
    L land = any_land<double>(n, 2);
    int kind = mc::choose(3);
    unsigned steps = 1 + mc::choose(3);
    unsigned stop = mc::pick({~0u, 2u});
    FullTable<double> full(land);
    NearTable<double> near(land);
    moRndWithReplNeighborhood<N> rn(n);
    moRndWithoutReplNeighborhood<N> wn(n);
    Watch<N> w;
    w.stop_after = kind == 1 ? stop = steps : stop;
    w.judge = [&](L::S& s) { MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", ""); };
    std::unique_ptr<moLocalSearch<N>> ls;
    if (kind == 0) ls.reset(new moRandomNeutralWalk<N>(wn, full, near, steps, w));
    if (kind == 1) ls.reset(new moRandomWalk<N>(rn, full, near, w));
    if (kind == 2) ls.reset(new moRandomWalk<N>(rn, full, near, steps));
    mc::rng_words(TWO, 24);
    for (unsigned run = 0; run < 2; ++run) {
        uint32_t from = mc::choose(4);
        L::S s = land.start(from);
        unsigned before = near.calls;
        (*ls)(s);
        MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", "");
        if (kind == 2) { MC_CHECK(near.calls - before == steps, "number of steps", near.calls - before << " instead of " << steps); MC_CHECK(__builtin_popcount(from ^ num_of(s)) % 2 == steps % 2, "number of steps", "parity"); continue; }
        unsigned iters = unsigned(w.at.size()) - 1;
        for (unsigned i = 1; i < w.at.size(); ++i) {
            uint32_t a = w.at[i - 1], b = w.at[i];
            mc::state(mc::mix(kind * 100 + a * 4 + b, mc::hashv(land.value)));
            if (kind == 1) MC_CHECK(__builtin_popcount(a ^ b) == 1, "walk step", a << " to " << b);
            else if (a != b) MC_CHECK(__builtin_popcount(a ^ b) == 1 && land.value[a] == land.value[b], "neutral step", land.value[a] << " to " << land.value[b]);
            else { MC_CHECK(land.value[a ^ 1] != land.value[a] && land.value[a ^ 2] != land.value[a], "neutral step refused", a); MC_CHECK(i == iters, "goes on without moving", ""); }
        }
        if (kind == 0) {
            bool stuck = w.at[iters] == w.at[iters - 1];
            MC_CHECK(iters <= std::min(steps, stop), "number of steps", iters);
            MC_CHECK(stuck || iters == std::min(steps, stop), "number of steps", iters << " of " << steps);
        } else MC_CHECK(iters == steps, "number of steps", iters);
    }
}
MC_SCENARIO("walks take every neighbour they may with the same probability")
{
    typedef Land<double> L; typedef L::N N;
    unsigned n = mc::range(2, 3), steps = mc::tier(2, n == 2 ? 3 : 2);
    L land = any_land<double>(n, 2);
    bool neutral = mc::flag();
    uint32_t from = mc::pick({0u, 1u});
    std::map<std::string, double> got, want;
    mc::forall([&] {
        FullTable<double> full(land);
        NearTable<double> near(land);
        moRndWithReplNeighborhood<N> rn(n);
        moRndWithoutReplNeighborhood<N> wn(n);
        Watch<N> w;
        w.stop_after = steps;
        std::unique_ptr<moLocalSearch<N>> ls;
        if (neutral) ls.reset(new moRandomNeutralWalk<N>(wn, full, near, steps, w)); else ls.reset(new moRandomWalk<N>(rn, full, near, w));
        mc::rng_grid(n == 2 ? 2 : 6, 6);
        L::S s = land.start(from);
        (*ls)(s);
        std::string t;
        for (unsigned i = 1; i < w.at.size(); ++i) if (w.at[i] != w.at[i - 1]) t += std::to_string(w.at[i]) + " ";
        got[t] += mc::leaf_prob();
        mc::step();
    });
    std::function<void(uint32_t, unsigned, double, std::string)> rec = [&](uint32_t at, unsigned k, double p, std::string t) {
        std::vector<uint32_t> to;
        for (unsigned i = 0; i < n; ++i) if (!neutral || land.value[at ^ 1u << i] == land.value[at]) to.push_back(at ^ 1u << i);
        if (k == steps || to.empty()) { want[t] += p; return; }
        for (uint32_t b : to) rec(b, k + 1, p / to.size(), t + std::to_string(b) + " ");
    };
    rec(from, 0, 1, "");
    mc::state(mc::mix(mc::hashv(land.value), from * 2 + neutral));
    for (auto& x : got) MC_CHECK(want.count(x.first), "walk:impossible", (neutral ? "neutral walk " : "walk ") << from << " -> " << x.first);
    for (auto& x : want) MC_CHECK(got.count(x.first) && mc::close(got[x.first], x.second), "walk:probability", (neutral ? "neutral walk " : "walk ") << from << " -> " << x.first << " has probability " << got[x.first] << " instead of " << x.second);
}
struct AnyInit : eoInit<Bit> { unsigned calls = 0; std::vector<uint32_t> made; void operator()(Bit& b) override { ++calls; b = bits_of<Bit>(2, mc::choose(4)); made.push_back(num_of(b)); b.invalidate(); } };
MC_SCENARIO("random search")
{
    typedef Land<double> L; typedef L::N N;
    L land = any_land<double>(2, 2);
    FullTable<double> full(land);
    AnyInit init;
    Watch<N> w;
    unsigned sol = 2 + mc::choose(3);
    w.judge = [&](L::S& s) { MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", ""); };
    w.stop_after = mc::pick({~0u, 1u});
    moRandomSearch<N> ls(init, full, sol, w);
    L::S s = land.start(mc::choose(4));
    unsigned expect = w.stop_after == 1 ? 1 : sol - 1;
    ls(s);
    mc::state(mc::mix(mc::hashv(w.at), sol));
    MC_CHECK(init.calls == expect, "number of solutions", init.calls + 1 << " for " << sol);
    for (unsigned i = 0; i < init.made.size(); ++i) MC_CHECK(w.at[i + 1] == init.made[i], "random search", "");
    // and again with the same object
    init.calls = 0; init.made.clear();
    s = land.start(0);
    ls(s);
    MC_CHECK(init.calls == expect, "number of solutions", init.calls + 1 << " for " << sol << " the second time");
}

// ------------------------------------------------------------------ iterated and variable neighbourhood search
// a search that may end anywhere stands for every local search
template <class F> struct AnyLS : moLocalSearch<moBitNeighbor<F>>
{
    typedef moBitNeighbor<F> N; typedef eoBit<F> S;
    moDummyExplorer<N> ex; moTrueContinuator<N> tc; const Land<F>& l;
    std::vector<std::pair<uint32_t, uint32_t>>& log; unsigned id;
    AnyLS(const Land<F>& x, eoEvalFunc<S>& e, std::vector<std::pair<uint32_t, uint32_t>>& g, unsigned i = 0) : moLocalSearch<N>(ex, tc, e), l(x), log(g), id(i) {}
    bool operator()(S& s) override
    {
        uint32_t a = num_of(s), b = mc::choose(1u << l.n);
        s = l.start(b, true);
        log.push_back({a + 1000 * id, b});
        return true;
    }
};
template <class F> struct AnyOp : eoMonOp<eoBit<F>>
{
    std::vector<std::pair<uint32_t, uint32_t>>& log; unsigned n, id; bool evaluated; const Land<F>* l;
    AnyOp(unsigned k, std::vector<std::pair<uint32_t, uint32_t>>& g, unsigned i = 0, const Land<F>* x = nullptr) : log(g), n(k), id(i), evaluated(x), l(x) {}
    bool operator()(eoBit<F>& s) override
    {
        uint32_t a = num_of(s), b = a ^ mc::choose(1u << n);
        for (unsigned i = 0; i < n; ++i) s[i] = b >> i & 1;     // leaves the old fitness, as operators may
        if (l) s.fitness(l->value[b]);
        log.push_back({a + 1000 * id, b});
        return a != b;
    }
};
template <class F> static void iterated()
{
    typedef Land<F> L; typedef typename L::S S; typedef typename L::N N; typedef moDummyNeighbor<S> DN;
    unsigned n = 1 + mc::choose(2);
    L land;
    land.n = n;
    for (unsigned i = 0; i < (1u << n); ++i) land.value.push_back(i < 3 ? mc::choose(n == 1 ? 3 : 2) : 2);
    std::vector<std::pair<uint32_t, uint32_t>> lsl, opl;
    FullTable<F> full(land);
    AnyLS<F> inner(land, full, lsl);
    AnyOp<F> op(n, opl);
    moMonOpPerturb<N> perturb(op, full);
    moAlwaysAcceptCrit<N> always;
    moBetterAcceptCrit<N> better;
    int how = mc::choose(4);
    unsigned iters = 1 + mc::choose(2);
    Watch<DN> w;
    w.stop_after = iters;
    w.judge = [&](S& s) { MC_CHECK(!s.invalid() && double(s.fitness()) == land.value[num_of(s)], "recorded fitness", "solution " << num_of(s)); };
    std::unique_ptr<moLocalSearch<DN>> ls;
    if (how == 0) ls.reset(new moILS<N>(inner, full, op, iters));
    if (how == 1) ls.reset(new moILS<N>(inner, full, op, w));
    if (how == 2) ls.reset(new moILS<N>(inner, full, w, perturb, always));
    if (how == 3) ls.reset(new moILS<N>(inner, full, w, perturb, better));
    for (unsigned run = 0; run < (n == 1 ? 2u : 1u); ++run) {
        lsl.clear(); opl.clear();
        uint32_t from = mc::choose(1u << n);
        S s = land.start(from);
        (*ls)(s);
        MC_CHECK(lsl.size() == iters && opl.size() == iters - 1, "number of iterations", lsl.size() << " searches and " << opl.size() << " perturbations for " << iters);
        uint32_t cur = from;
        double best = land.value[from];
        for (unsigned i = 0; i < iters; ++i) {
            uint32_t expect = cur;
            if (i) { MC_CHECK(opl[i - 1].first == cur, "perturbs another solution", opl[i - 1].first << " instead of " << cur); expect = opl[i - 1].second; }
            MC_CHECK(lsl[i].first == expect, "searches from another solution", lsl[i].first << " instead of " << expect);
            uint32_t got = lsl[i].second;
            bool take = how != 3 || L::better(land.value[got], land.value[cur]);
            if (take) cur = got;
            if (how) MC_CHECK(w.at[i + 1] == cur, "acceptance", "at " << w.at[i + 1] << " instead of " << cur);
            if (L::better(land.value[got], best)) best = land.value[got];
            mc::state(mc::mix(mc::mix(how, cur * 8 + got), mc::hashv(land.value)));
        }
        MC_CHECK(num_of(s) == cur && !s.invalid() && double(s.fitness()) == land.value[cur], "result", num_of(s) << " instead of " << cur);
        if (how == 3) MC_CHECK(land.value[num_of(s)] == best, "best lost", "");
    }
}
MC_SCENARIO("iterated local search, maximising") { iterated<double>(); }
MC_SCENARIO("iterated local search, minimising") { iterated<eoMinimizingFitness>(); }

template <class F> static void variable()
{
    typedef Land<F> L; typedef typename L::S S; typedef typename L::N N;
    L land;
    land.n = 1;
    for (unsigned i = 0; i < 2; ++i) land.value.push_back(mc::choose(3));
    unsigned size = 1 + mc::choose(2);
    bool cycle = mc::flag();
    int kind = mc::choose(2);
    bool greedy = mc::flag();
    std::vector<std::pair<uint32_t, uint32_t>> lsl, shl;
    FullTable<F> full(land);
    AnyLS<F> a(land, full, lsl, 0), b(land, full, lsl, 1);
    AnyOp<F> p(1, shl, 0), q(1, shl, 1);
    moForwardVectorVNSelection<S> fw(a, p, cycle);
    moBackwardVectorVNSelection<S> bw(a, p, cycle);
    moVectorVNSelection<S>& sel = kind ? (moVectorVNSelection<S>&)bw : fw;
    if (size == 2) sel.add(b, q);
    moAlwaysAcceptCrit<N> always;
    moBetterAcceptCrit<N> better;
    Watch<N> w;
    w.stop_after = cycle ? 2 + mc::choose(2) : 4;
    w.judge = [&](S& s) { MC_CHECK(!s.invalid() && double(s.fitness()) == land.value[num_of(s)], "recorded fitness", "solution " << num_of(s)); };
    moVNS<N> vns(sel, greedy ? (moAcceptanceCriterion<N>&)better : always, full, w);
    for (unsigned run = 0; run < (size == 1 || !cycle ? 2u : 1u); ++run) {
        lsl.clear(); shl.clear();
        uint32_t from = mc::choose(2);
        S s = land.start(from);
        vns(s);
        // the reference: go on in the list after the first iteration and after a refused move,
        // restart it after an accepted one
        uint32_t cur = from;
        double best = land.value[from];
        unsigned at = kind ? size - 1 : 0, i = 0;
        bool go = true;
        while (go) {
            MC_CHECK(i < lsl.size() && i < shl.size(), "ends early", "run " << run << ": " << lsl.size() << " iterations, more expected");
            MC_CHECK(shl[i].first % 1000 == cur && lsl[i].first % 1000 == shl[i].second, "searches from another solution", "");
            MC_CHECK(shl[i].first / 1000 == at && lsl[i].first / 1000 == at, "neighbourhood used", "iteration " << i << " of run " << run << " uses neighbourhood " << lsl[i].first / 1000 << " instead of " << at);
            uint32_t got = lsl[i].second;
            bool take = !greedy || L::better(land.value[got], land.value[cur]);
            if (take) cur = got;
            if (L::better(land.value[got], best)) best = land.value[got];
            MC_CHECK(w.at[i + 1] == cur, "acceptance", "at " << w.at[i + 1] << " instead of " << cur);
            ++i;
            mc::state(mc::mix(mc::mix(size * 2 + cycle, cur * 8 + got), mc::mix(at, mc::hashv(land.value))));
            if (take && i > 1) at = kind ? size - 1 : 0;
            else {
                bool last = kind ? at == 0 : at + 1 == size;
                if (last && !cycle) go = false;
                else at = kind ? (at + size - 1) % size : (at + 1) % size;
            }
            if (i >= w.stop_after) go = false;
        }
        MC_CHECK(lsl.size() == i, "goes on after its end", lsl.size() << " iterations instead of " << i);
        MC_CHECK(!s.invalid() && double(s.fitness()) == best && land.value[num_of(s)] == best, "best lost", land.value[num_of(s)] << " returned, " << best << " seen");
    }
}
MC_SCENARIO("variable neighbourhood search, maximising") { variable<double>(); }
MC_SCENARIO("variable neighbourhood search, minimising") { variable<eoMinimizingFitness>(); }

// ------------------------------------------------------------------ perturbations
MC_SCENARIO("perturbations leave a true fitness")
{
    typedef Land<double> L; typedef L::N N;
    L land = any_land<double>(2, 2);
    std::vector<std::pair<uint32_t, uint32_t>> opl;
    eoEvalFuncPtr<Bit, double, const Bit&>* dummy = nullptr;
    (void)dummy;
    FullTable<double> table(land);
    eoEvalFuncCounter<Bit> lazy(table);           // evaluates only what is invalid
    eoEvalFunc<Bit>& full = mc::flag() ? (eoEvalFunc<Bit>&)lazy : table;
    AnyOp<double> op(2, opl);
    uint32_t from = mc::choose(4);
    Bit s = land.start(from, true);
    N none;
    switch (mc::choose(4)) {
        case 0: {
            unsigned k = mc::choose(3);
            moMonOpPerturb<N> p(op, full, k);
            p(s);
            MC_CHECK(opl.size() == k, "number of perturbations", opl.size() << " of " << k);
            break;
        }
        case 1: {
            mc::rng_words(FOUR, 2);
            moMonOpPerturb<N> p(op, full, 1u, 3u);
            p(s);
            MC_CHECK(opl.size() >= 1 && opl.size() <= 3, "number of perturbations", opl.size() << " outside 1-3");
            break;
        }
        case 2: {
            // restarts after `threshold` iterations without a move
            unsigned threshold = mc::choose(3);
            AnyInit init;
            moRestartPerturb<N> p(init, full, threshold);
            p.init(s);
            unsigned idle = 0;
            for (unsigned i = 0; i < 4; ++i) {
                if (mc::flag()) { p.add(s, none); idle = 0; } else ++idle;
                p.update(s, none);
                unsigned before = init.calls;
                uint32_t at = num_of(s);
                // what counts as idle: iterations since the last move
                p(s);
                bool restarted = init.calls != before;
                if (!restarted) MC_CHECK(num_of(s) == at, "restart", "changed without a restart");
                if (restarted) { MC_CHECK(idle + 1 >= threshold, "restart too early", idle << " of " << threshold); idle = 0; }
                else MC_CHECK(idle <= threshold, "restart too late", idle << " of " << threshold);
                MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", "after a restart");
            }
            break;
        }
        default: {
            NearTable<double> near(land);
            moOrderNeighborhood<N> nh(2);
            moNeighborhoodPerturb<N, N> p(nh, near);
            p.init(s);
            for (unsigned i = 0; i < 3; ++i) {
                uint32_t at = num_of(s);
                p(s);
                MC_CHECK(__builtin_popcount(at ^ num_of(s)) == 1, "neighbourhood perturbation", "");
                MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", "after a perturbation");
                if (mc::flag()) p.add(s, none);
                p.update(s, none);
            }
        }
    }
    mc::state(mc::mix(num_of(s), mc::hashv(land.value)));
    MC_CHECK(!s.invalid() && s.fitness() == land.value[num_of(s)], "recorded fitness", "after a perturbation");
}
MC_SCENARIO("start solutions made by a search or copied")
{
    typedef Land<double> L; typedef L::N N;
    L land = any_land<double>(2, 3);
    FullTable<double> full(land);
    NearTable<double> near(land);
    moOrderNeighborhood<N> nh(2);
    moSimpleHC<N> hc(nh, full, near);
    AnyInit any;
    moLocalSearchInit<N> init(any, hc);
    Bit s = land.start(mc::choose(4), true);
    init(s);
    mc::state(mc::mix(num_of(s), mc::hashv(land.value)));
    MC_CHECK(land.optimum(num_of(s)) && !s.invalid() && s.fitness() == land.value[num_of(s)], "start from a search", "");
    Bit t = land.start(mc::choose(4), mc::flag());
    moSolInit<Bit> copy(t);
    copy(s);
    MC_CHECK(num_of(s) == num_of(t) && s.invalid() == t.invalid() && (t.invalid() || s.fitness() == t.fitness()), "start from a copy", "");
}
