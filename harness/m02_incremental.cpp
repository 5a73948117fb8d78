// Evaluation of neighbours against evaluation of the solution really moved to; moving back.
#include "common.hpp"
#include "memfile.hpp"
#include <mo>
#include <eval/oneMaxEval.h>
#include <eval/royalRoadEval.h>
#include <eval/nkLandscapesEval.h>
#include <eval/maxSATeval.h>
#include <eval/ubqpEval.h>
#include <eval/qapEval.h>
#include <eval/moDoubleIncrNeighborhoodEval.h>
#include <neighborhood/moEvaluatedNeighborhood.h>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitsWithReplNeighborhood.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/permutation/moSwapNeighborhood.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moTwoOptExNeighborhood.h>
#include <problems/partition/moBinaryPartitionSwapNeighborhood.h>
#include <problems/eval/moMaxSATincrEval.h>
#include <problems/eval/moNKlandscapesBitsIncrEval.h>
#include <problems/eval/moNKlandscapesIncrEval.h>
#include <problems/eval/moOneMaxBitsIncrEval.h>
#include <problems/eval/moOneMaxIncrEval.h>
#include <problems/eval/moQAPIncrEval.h>
#include <problems/eval/moRoyalRoadIncrEval.h>
#include <problems/eval/moUBQPBitsIncrEval.h>
#include <problems/eval/moUBQPSimpleIncrEval.h>
#include <problems/eval/moUBQPdoubleIncrEvaluation.h>

typedef moBitNeighbor<double> BN;
typedef moBitsNeighbor<Bit> MBN;
typedef eoInt<eoMinimizingFitness> PermMin;

template <class S> static std::string genes(const S& s) { std::ostringstream o; for (auto x : s) o << x << ' '; return o.str(); }

// one evaluation of one neighbour, judged
template <class N, class S> static void judge(moEval<N>& eval, eoEvalFunc<S>& full, S& s, N& n, const std::string& what)
{
    S before = s, moved = s;
    n.move(moved);
    moved.invalidate();
    full(moved);
    n.invalidate();
    eval(s, n);
    mc::state(mc::hash(what + genes(s) + "/" + genes(moved)));
    MC_CHECK(genes(s) == genes(before) && !s.invalid() && s.fitness() == before.fitness(), "solution altered", what << ": evaluating changed " << genes(before) << "to " << genes(s));
    MC_CHECK(!n.invalid() && mc::close(double(n.fitness()), double(moved.fitness())), "wrong prediction",
             what << ": from " << genes(before) << "to " << genes(moved) << "predicted " << double(n.fitness()) << " really " << double(moved.fitness()));
}
template <class N, class S> static void undo(S& s, N& n, const char* what)
{
    S c = s;
    n.move(c);
    bool changed = genes(c) != genes(s);
    if (changed) MC_CHECK(c.invalid(), "still valid after a move", what);
    c.fitness(5);
    n.moveBack(c);
    MC_CHECK(genes(c) == genes(s), "move back", what << ": " << genes(s) << "became " << genes(c));
    if (changed) MC_CHECK(c.invalid(), "still valid after moving back", what);
    // several moves undone in reverse
    S d = s;
    n.move(d); n.move(d); n.moveBack(d); n.moveBack(d);
    MC_CHECK(genes(d) == genes(s), "move back twice", what);
}

// all flips of one bit and of several bits, in any order of the bits
static MBN many(unsigned n)
{
    MBN x;
    uint32_t mask = mc::choose(1u << n);
    std::vector<unsigned> b;
    for (unsigned i = 0; i < n; ++i) if (mask >> i & 1) b.push_back(i);
    x.bits = b;
    x.nBits = unsigned(b.size());
    if (mc::flag()) std::reverse(x.bits.begin(), x.bits.end());
    if (mc::flag()) x.bits.push_back(0);          // room left from a larger neighbour
    return x;
}
template <class E> static void bits(E& full, moEval<BN>* one, moEval<MBN>* several, unsigned n, const char* what)
{
    // the storage behind the last bit is full of ones
    Bit s(n + 16, true);
    s.resize(n);
    uint32_t v = mc::choose(1u << n);
    for (unsigned i = 0; i < n; ++i) s[i] = v >> i & 1;
    full(s);
    if (mc::flag()) {
        BN x;
        x.index(s, mc::choose(n));
        moFullEvalByCopy<BN> copy(full);
        moFullEvalByModif<BN> modif(full);
        if (one) judge<BN, Bit>(*one, full, s, x, what);
        judge<BN, Bit>(copy, full, s, x, std::string(what) + " by copy");
        judge<BN, Bit>(modif, full, s, x, std::string(what) + " by change");
        undo(s, x, what);
    } else {
        MBN x = many(n);
        moFullEvalByCopy<MBN> copy(full);
        moFullEvalByModif<MBN> modif(full);
        if (several) judge<MBN, Bit>(*several, full, s, x, std::string(what) + " several");
        judge<MBN, Bit>(copy, full, s, x, std::string(what) + " several by copy");
        judge<MBN, Bit>(modif, full, s, x, std::string(what) + " several by change");
        undo(s, x, what);
    }
}
MC_SCENARIO("number of ones")
{
    unsigned n = mc::range(1, mc::tier(5, 6));
    oneMaxEval<Bit> full;
    moOneMaxIncrEval<BN> a;
    moOneMaxBitsIncrEval<MBN> b;
    bits(full, &a, &b, n, "ones");
}
MC_SCENARIO("blocks of ones")
{
    unsigned n = mc::range(1, mc::tier(6, 8)), k = mc::range(1, int(n));
    RoyalRoadEval<Bit> full(k);
    moRoyalRoadIncrEval<BN> a(full);
    bits(full, &a, nullptr, n, "blocks");
}
MC_SCENARIO("epistatic landscapes")
{
    unsigned n = mc::range(1, mc::tier(4, 5)), k = mc::choose(n);
    bool consecutive = mc::flag();
    mc::rng_fixed(3 + mc::choose(2));
    nkLandscapesEval<Bit> full(n, k, consecutive);
    moNKlandscapesIncrEval<BN> a(full);
    moNKlandscapesBitsIncrEval<MBN> b(full);
    bits(full, &a, &b, n, "nk");
}
static void clauses(int form)
{
    // every formula of two clauses (three for thorough) of up to two literals over two or three variables
    unsigned n = mc::range(2, 3), m = mc::range(1, 2);
    std::ostringstream o;
    o << "c text\np cnf " << n << ' ' << m << '\n';
    for (unsigned i = 0; i < m; ++i) {
        unsigned k = mc::range(1, 2);
        for (unsigned j = 0; j < k; ++j) { int v = 1 + int(mc::choose(n)); o << (mc::flag() ? -v : v) << ' '; }
        o << "0\n";
    }
    (void)form;
    MemFile f(o.str());
    MaxSATeval<Bit> full(f.path);
    moMaxSATincrEval<BN> a(full);
    Bit s = bits_of<Bit>(n, mc::choose(1u << n));
    full(s);
    BN x;
    x.index(s, mc::choose(n));
    judge<BN, Bit>(a, full, s, x, "clauses " + o.str());
}
MC_SCENARIO("clauses from a file") { clauses(0); }
MC_SCENARIO("random clauses")
{
    unsigned n = mc::range(1, 4), m = mc::range(1, 3), k = mc::range(1, std::min(3, int(n)));
    uint32_t seed = mc::choose(mc::tier(20u, 100u));
    mc::rng_fixed(seed);
    MaxSATeval<Bit> full(n, m, k);
    moMaxSATincrEval<BN> a(full);
    bits(full, &a, nullptr, n, "random clauses");
}
static std::string ubqp_text(unsigned n, bool dense, const std::vector<int>& v)
{
    std::ostringstream o;
    o << "1\n";
    if (dense) {
        o << n << '\n';
        for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) o << v[i * n + j] << ' '; o << '\n'; }
    } else {
        o << n << ' ' << n * n << '\n';
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) o << i + 1 << ' ' << j + 1 << ' ' << v[i * n + j] << '\n';
    }
    return o.str();
}
static std::vector<int> matrix(unsigned n, unsigned which)
{
    std::vector<int> v(n * n);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
        int p = int(i), q = int(j);
        switch (which) {
            case 0: v[i * n + j] = 1 << (3 * i + j) % 13; break;                 // all entries tell apart
            case 1: v[i * n + j] = i <= j ? 3 * p - 5 * q + 1 : 0; break;
            case 2: v[i * n + j] = i >= j ? -7 * p + 2 * q + 3 : 0; break;
            default: v[i * n + j] = (p * 7 + q * 11) % 5 - 2 + (p == q ? 10 : 0); break;
        }
    }
    return v;
}
MC_SCENARIO("quadratic binary problems")
{
    unsigned n = mc::range(1, mc::tier(4, 5));
    MemFile f(ubqp_text(n, mc::flag(), matrix(n, mc::choose(4))));
    UbqpEval<Bit>* full = nullptr;
    { std::string p = f.path; full = new UbqpEval<Bit>(p, 1); }
    delete full;
    std::string p = f.path, text = f.text();
    bool dense = text.find('\n', 2) < text.find(' ', 2);
    UbqpEval<Bit> ev(p, dense ? 1 : 0);
    moUBQPSimpleIncrEval<BN> a(ev);
    moUBQPBitsIncrEval<MBN> b(ev);
    bits(ev, &a, &b, n, "quadratic");
}

// ------------------------------------------------------------------ permutations
template <class S> static S perm()
{
    unsigned n = mc::range(2, mc::tier(4, 5));
    auto v = any_perm(n);
    S s(n, 0);
    for (unsigned i = 0; i < n; ++i) s[i] = int(v[i]);
    return s;
}
static std::string qap_text(unsigned n, unsigned a, unsigned b)
{
    std::ostringstream o;
    o << n << "\n\n";
    for (unsigned w : {a, b}) { auto m = matrix(n, w); for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) o << m[i * n + j] << ' '; o << '\n'; } o << '\n'; }
    return o.str();
}
MC_SCENARIO("assignment problems")
{
    PermMin s = perm<PermMin>();
    unsigned n = unsigned(s.size());
    MemFile f(qap_text(n, mc::choose(4), mc::choose(4)));
    QAPeval<PermMin> full(f.path);
    moQAPIncrEval<moIndexedSwapNeighbor<PermMin>> a(full);
    full(s);
    moIndexedSwapNeighbor<PermMin> x;
    x.index(s, mc::choose(n * (n - 1) / 2));
    judge<moIndexedSwapNeighbor<PermMin>, PermMin>(a, full, s, x, "assignment");
    undo(s, x, "numbered exchange");
    // the same move given by its two positions
    moIndexedSwapNeighbor<PermMin> y;
    y.set(s, x.first(), x.second());
    judge<moIndexedSwapNeighbor<PermMin>, PermMin>(a, full, s, y, "assignment");
}
struct Weigh : eoEvalFunc<PermMin> { void operator()(PermMin& s) override { double f = 0; for (unsigned i = 0; i < s.size(); ++i) f += (i + 1) * (i + 1) * s[i]; s.fitness(f); } };
template <class N> static void generic(PermMin& s, N& x, const char* what)
{
    Weigh full;
    full(s);
    moFullEvalByCopy<N> copy(full);
    moFullEvalByModif<N> modif(full);
    moEvalCounter<N> count(modif);
    judge<N, PermMin>(copy, full, s, x, std::string(what) + " by copy");
    judge<N, PermMin>(modif, full, s, x, std::string(what) + " by change");
    judge<N, PermMin>(count, full, s, x, std::string(what) + " counted");
    MC_CHECK(count.value() == 1, "counted evaluations", count.value());
    undo(s, x, what);
}
MC_SCENARIO("moves of permutations")
{
    PermMin s = perm<PermMin>();
    unsigned n = unsigned(s.size());
    switch (mc::choose(3)) {
        case 0: { moSwapNeighbor<PermMin> x; unsigned i = mc::choose(n); x.setIndices(i, mc::choose(n)); generic(s, x, "exchange"); break; }
        case 1: { moTwoOptExNeighbor<PermMin> x; unsigned i = mc::choose(n); x.setIndices(i, i + mc::choose(n - i)); generic(s, x, "reversal"); break; }
        default: { moShiftNeighbor<PermMin> x; x.index(s, mc::choose(n * (n - 1))); generic(s, x, "insertion"); break; }
    }
}
typedef moBinaryPartition<eoMinimizingFitness> Part;
typedef moBinaryPartitionSwapNeighbor<Part> PN;
MC_SCENARIO("moves of partitions")
{
    unsigned n = mc::range(2, 5);
    uint32_t m = mc::choose(1u << n);
    mc::assume(m && m != (1u << n) - 1);
    Part s(n);
    std::vector<size_t> in, out;
    for (unsigned i = 0; i < n; ++i) if (m >> i & 1) { s.select(i); in.push_back(i); } else out.push_back(i);
    s.fitness(4.);
    PN x(s.selected.size());
    x.set(mc::pick(out), mc::pick(in));
    Part c = s;
    x.move(c);
    MC_CHECK(c.invalid() && c.selected.size() == s.selected.size() && !(c.selected == s.selected), "partition move", "");
    c.fitness(2.);
    x.moveBack(c);
    MC_CHECK(c.invalid() && c == s, "partition back", "");
    mc::state(mc::mix(n, m));
}

// ------------------------------------------------------------------ evaluators that keep state
struct Steer : moNeighborhoodExplorer<BN>
{
    void operator()(Bit&) override {}
    void initParam(Bit&) override {}
    void updateParam(Bit&) override {}
    bool isContinue(Bit&) override { return true; }
    bool accept(Bit&) override { return true; }
    void terminate(Bit&) override {}
};
MC_SCENARIO("quadratic problem with all differences kept up to date")
{
    unsigned n = mc::range(1, 4);
    MemFile f(ubqp_text(n, true, matrix(n, mc::choose(4))));
    std::string p = f.path;
    UbqpEval<Bit> full(p, 1);
    moUBQPSimpleIncrEval<BN> simple(full);
    moUBQPdoubleIncrEvaluation<BN> all(n, simple);
    moDoubleIncrNeighborhoodEval<BN> eval(all);
    moOrderNeighborhood<BN> order(n);
    moEvaluatedNeighborhood<BN> nh(order, all);
    Steer ex;
    all.neighborhoodExplorer(ex);
    unsigned runs = 1 + mc::choose(2), steps = n == 4 ? 2 : mc::tier(3u, 4u);
    for (unsigned r = 0; r < runs; ++r) {
        Bit s = bits_of<Bit>(n, r ? mc::pick({0u, (1u << n) - 1}) : mc::choose(1u << n));
        full(s);
        all.init();                               // what a checkpoint does at the start of a run
        ex.moveApplied(r ? mc::flag() : false);   // left over from a previous run
        for (unsigned k = 0; k < steps; ++k) {
            BN x;
            nh.init(s, x);
            for (;;) {
                judge<BN, Bit>(eval, full, s, x, "kept differences");
                if (!nh.cont(s)) break;
                nh.next(s, x);
            }
            if (k + 1 == steps) break;
            unsigned mv = mc::choose(n + 1);
            if (mv == n) { ex.moveApplied(false); continue; }
            ex.getSelectedNeighbor().index(s, mv);
            eval(s, ex.getSelectedNeighbor());
            ex.move(s);
            ex.moveApplied(true);
            Bit c = s;
            c.invalidate();
            full(c);
            MC_CHECK(c.fitness() == s.fitness(), "fitness after a move", "");
        }
        if (runs == 2 && r == 0) { ex.getSelectedNeighbor().index(s, mc::choose(n)); }
    }
}
