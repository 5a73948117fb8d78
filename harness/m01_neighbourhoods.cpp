// Neighbourhood walks: which neighbours are visited, how often, and that the walk ends.
#include "common.hpp"
#include <mo>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitsWithReplNeighborhood.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/bitString/moBitFlipNeighborhood.h>
#include <problems/permutation/moSwapNeighborhood.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moTwoOptExNeighborhood.h>
#include <problems/permutation/moTwoOptExNeighbor.h>
#include <problems/partition/moBinaryPartitionSwapNeighborhood.h>
#include <neighborhood/moEvaluatedNeighborhood.h>
#include <eval/moNeighborhoodEvaluation.h>
#include <neighborhood/moForwardVectorVNSelection.h>
#include <neighborhood/moBackwardVectorVNSelection.h>
#include <neighborhood/moRndVectorVNSelection.h>
#include <map>
#include <set>

typedef moBitNeighbor<double> BN;
typedef moBitsNeighbor<Bit> MBN;
typedef std::vector<uint64_t> Trail;

static uint64_t key_of(const Bit& b) { return num_of(b); }
template <class V> static uint64_t key_perm(const V& v) { uint64_t k = 0; for (auto x : v) k = k * 16 + uint64_t(x); return k; }
static uint64_t key_of(const Perm& p) { return key_perm(p); }

// Walks at most `stop` neighbours the way the explorers do and says what each one leads to.
// With `other`, the walk alternates between two neighbour objects as searches that keep the best do.
template <class NH, class N, class S> static Trail walk(NH& nh, N& n, S s, unsigned stop, unsigned limit)
{
    Trail t;
    if (!nh.hasNeighbor(s)) return t;
    nh.init(s, n);
    for (;;) {
        S c = s;
        n.move(c);
        t.push_back(key_of(c));
        mc::state(mc::mix(mc::mix(key_of(s), key_of(c)), t.size()));
        if (t.size() >= stop) break;
        MC_CHECK(t.size() <= limit, "endless walk", "still going after " << t.size() << " neighbours");
        if (!nh.cont(s)) break;
        nh.next(s, n);
    }
    return t;
}
static std::string text(const Trail& t) { std::ostringstream o; for (auto x : t) o << std::hex << x << ' '; return o.str(); }
static void each_once(const Trail& t, const std::set<uint64_t>& want, const char* key)
{
    std::multiset<uint64_t> got(t.begin(), t.end()), w(want.begin(), want.end());
    MC_CHECK(got == w, key, "visited " << text(t) << "expected each of " << text(Trail(want.begin(), want.end())));
}
static std::set<uint64_t> one_flip(const Bit& s, unsigned first)
{
    std::set<uint64_t> r;
    for (unsigned i = 0; i < first; ++i) { Bit c = s; c[i] = !c[i]; r.insert(key_of(c)); }
    return r;
}

// ------------------------------------------------------------------ indexed bit walks
MC_SCENARIO("ordered walk over single flips")
{
    unsigned n = mc::range(1, mc::tier(6, 7));
    Bit s = bits_of<Bit>(n, mc::choose(1u << n));
    unsigned size = n;
    moOrderNeighborhood<BN> nh(size);
    BN a, b;
    unsigned cut = mc::choose(n + 1);             // an abandoned walk comes first
    if (cut) walk(nh, a, s, cut, n + 1);
    if (mc::flag()) { size = mc::choose(n + 1); nh.setNeighborhoodSize(size); }
    Bit s2 = mc::flag() ? s : bits_of<Bit>(n, mc::choose(1u << n));
    BN& who = mc::flag() ? a : b;
    Trail t = walk(nh, who, s2, ~0u, n + 1);
    each_once(t, one_flip(s2, size), "ordered walk");
    for (unsigned i = 0; i < t.size(); ++i) {
        Bit c = s2; c[i] = !c[i];
        MC_CHECK(t[i] == key_of(c), "ordered walk order", "neighbour " << i << " flips another bit");
    }
    MC_CHECK(!nh.isRandom(), "ordered walk kind", "an ordered walk says it is random");
    // a position given by the caller is where the walk goes on
    if (size > 0) {
        unsigned p = mc::choose(size);
        nh.init(s2, who);
        nh.setPosition(p);
        MC_CHECK(nh.position() == p, "position", "");
        unsigned left = 0;
        while (nh.cont(s2)) { nh.next(s2, who); ++left; MC_CHECK(who.index() == p + left, "position", "after position " << p << " comes " << who.index()); MC_CHECK(left <= n, "endless walk", ""); }
        MC_CHECK(left == size - 1 - p, "position", left << " neighbours after position " << p << " of " << size);
    }
}

MC_SCENARIO("random walk without replacement over single flips")
{
    unsigned n = mc::range(1, mc::tier(3, 4));
    Bit s = bits_of<Bit>(n, mc::pick({0u, (1u << n) - 1}));
    unsigned cut = mc::choose(n + 1);
    int resize = mc::range(-1, int(n) + 1);
    bool fresh = mc::flag();
    std::set<Trail> seen;
    unsigned size = resize < 0 ? n : unsigned(resize);
    Bit big(n + 1, false);
    for (unsigned i = 0; i < n; ++i) big[i] = s[i];
    mc::forall([&] {
        moRndWithoutReplNeighborhood<BN> nh(n);
        BN a, b;
        mc::rng_words({0x19999999, 0xe6666666}, 24);
        if (cut) { Trail t = walk(nh, a, big, cut, n + 1); std::set<uint64_t> u(t.begin(), t.end()); MC_CHECK(u.size() == t.size(), "without replacement", "a neighbour came twice: " << text(t)); }
        if (resize >= 0) nh.setNeighborhoodSize(size);
        mc::rng_words({0x19999999, 0x4ccccccd, 0x99999999, 0xe6666666}, 24);
        Trail t = walk(nh, fresh ? b : a, big, ~0u, n + 2);
        each_once(t, one_flip(big, size), "without replacement");
        MC_CHECK(nh.isRandom(), "random kind", "a random walk says it is not random");
        seen.insert(t);
    });
    uint64_t fact = 1;
    for (unsigned i = 2; i <= size; ++i) fact *= i;
    if (size <= 4) MC_CHECK(seen.size() == fact, "without replacement orders", seen.size() << " of " << fact << " orders are possible for " << size << " neighbours");
}

MC_SCENARIO("random walk with replacement over single flips")
{
    unsigned n = mc::range(1, 4);
    Bit s = bits_of<Bit>(n, mc::pick({0u, (1u << n) - 1}));
    unsigned max = mc::range(0, 3);
    int resize = mc::range(-1, int(n));
    unsigned size = resize < 0 ? n : unsigned(resize);
    unsigned cut = mc::choose(2);
    std::set<Trail> seen;
    mc::forall([&] {
        moRndWithReplNeighborhood<BN> nh(n, max);
        BN a;
        mc::rng_grid(12, 24);
        if (cut) walk(nh, a, s, cut, 8);
        if (resize >= 0) nh.setNeighborhoodSize(size);
        Trail t = walk(nh, a, s, max ? ~0u : 3u, 8);
        std::set<uint64_t> legal = one_flip(s, size);
        for (auto x : t) MC_CHECK(legal.count(x), "with replacement", "illegal neighbour in " << text(t));
        MC_CHECK(t.size() == (size ? (max ? max : 3) : 0), "with replacement count", t.size() << " visited, asked for " << max << " of " << size);
        seen.insert(t);
    });
    uint64_t want = 1;
    for (unsigned i = 0; i < (max ? max : 3); ++i) want *= size;
    if (size) MC_CHECK(seen.size() == want, "with replacement sequences", seen.size() << " of " << want);
}

// ------------------------------------------------------------------ several bits
static std::set<uint64_t> flips(const Bit& s, unsigned lo, unsigned hi)
{
    std::set<uint64_t> r;
    for (uint32_t m = 1; m < (1u << s.size()); ++m) {
        unsigned k = __builtin_popcount(m);
        if (k >= lo && k <= hi) r.insert(key_of(s) ^ m);
    }
    return r;
}
MC_SCENARIO("several bits without replacement")
{
    unsigned n = mc::range(1, mc::tier(4, 5)), d = mc::range(1, int(n));
    bool exact = mc::flag();
    Bit s = bits_of<Bit>(n, mc::pick({0u, (1u << n) - 1, 5u & ((1u << n) - 1)}));
    std::set<uint64_t> legal = flips(s, exact ? d : 1, d);
    unsigned sample = mc::choose(unsigned(legal.size()) + 2);
    unsigned want = sample == 0 || sample > legal.size() ? unsigned(legal.size()) : sample;
    unsigned cut = mc::choose(3);
    bool fresh_each = mc::flag();
    auto run = [&](unsigned draws) {
        moBitsWithoutReplNeighborhood<MBN> nh(n, d, sample, exact);
        MBN a, b;
        if (cut) walk(nh, a, s, cut, 64);
        Trail t;
        if (fresh_each) {
            // a new neighbour object at every step
            MBN f;
            MC_CHECK(nh.hasNeighbor(s), "several bits", "no neighbours");
            nh.init(s, f);
            for (;;) {
                Bit c = s;
                f.move(c);
                t.push_back(key_of(c));
                MC_CHECK(t.size() <= 64, "endless walk", "");
                if (!nh.cont(s)) break;
                MBN g;
                nh.next(s, g);
                f = g;
            }
        } else t = walk(nh, a, s, ~0u, 64);
        std::set<uint64_t> u(t.begin(), t.end());
        MC_CHECK(u.size() == t.size(), "several bits twice", text(t));
        MC_CHECK(t.size() == want, "several bits count", t.size() << " visited instead of " << want);
        for (auto x : t) MC_CHECK(legal.count(x), "several bits illegal", "from " << key_of(s) << " to " << x << " changing " << (exact ? "exactly " : "up to ") << d);
        (void)draws;
        return t;
    };
    std::set<uint64_t> firsts;
    mc::forall([&] {
        mc::rng_deviate(12, 1, 6, 3);
        Trail t = run(0);
        firsts.insert(t[0]);
    });
    if (!cut) MC_CHECK(firsts == legal || legal.size() > 12, "several bits reach", firsts.size() << " of " << legal.size() << " neighbours can come first");
}
MC_SCENARIO("several bits with replacement")
{
    unsigned n = mc::range(1, mc::tier(4, 5)), d = mc::range(1, int(n));
    bool exact = mc::flag();
    Bit s = bits_of<Bit>(n, mc::pick({0u, (1u << n) - 1}));
    std::set<uint64_t> legal = flips(s, exact ? d : 1, d), seen;
    unsigned sample = mc::choose(4);
    unsigned want = sample == 0 || sample > legal.size() ? unsigned(legal.size()) : sample;
    std::map<uint64_t, double> mass;
    mc::forall([&] {
        moBitsWithReplNeighborhood<MBN> nh(n, d, sample, exact);
        MBN a;
        mc::rng_fixed(7);
        if (want > 1) {
            Trail t = walk(nh, a, s, ~0u, 64);
            MC_CHECK(t.size() == want, "several bits count", t.size() << " visited instead of " << want);
            for (auto x : t) MC_CHECK(legal.count(x), "several bits illegal", "from " << key_of(s) << " to " << x << " changing " << (exact ? "exactly " : "up to ") << d);
        }
        mc::rng_words({0x08888888, 0x19999999, 0x2aaaaaaa, 0x4ccccccd, 0x5fffffff, 0x70000000, 0x99999999, 0xaaaaaaab, 0xc0000001, 0xe6666666, 0xfeeeeeee}, 8);
        Trail t = walk(nh, a, s, 1, 64);
        MC_CHECK(t.size() == 1 && legal.count(t[0]), "several bits illegal", "from " << key_of(s) << " to " << (t.empty() ? 0 : t[0]) << " changing " << (exact ? "exactly " : "up to ") << d);
        seen.insert(t[0]);
    });
    MC_CHECK(seen == legal, "several bits reach", seen.size() << " of " << legal.size() << " neighbours are possible");
}
MC_SCENARIO("every bit flipped with a rate")
{
    unsigned n = mc::range(1, 4);
    double rate = mc::pick({0., 0.5, 1.});
    unsigned sample = mc::range(1, 3);
    Bit s = bits_of<Bit>(n, mc::pick({0u, (1u << n) - 1}));
    std::set<uint64_t> seen;
    mc::forall([&] {
        moBitFlipNeighborhood<MBN> nh(rate, n, sample);
        MBN a;
        mc::rng_words({0x40000000, 0xc0000000}, 32);
        Trail t = walk(nh, a, s, ~0u, 8);
        MC_CHECK(t.size() == sample, "flip count", t.size() << " visited instead of " << sample);
        for (auto x : t) {
            uint64_t m = x ^ key_of(s);
            if (rate == 0) MC_CHECK(m == 0, "flip rate", "flipped with rate 0");
            if (rate == 1) MC_CHECK(m == (1u << n) - 1, "flip rate", "not all flipped with rate 1");
            seen.insert(m);
        }
    });
    if (rate == 0.5) MC_CHECK(seen.size() == (1u << n), "flip reach", seen.size() << " of " << (1u << n));
}

// ------------------------------------------------------------------ permutations
static Perm perm_of(const std::vector<size_t>& v) { Perm p(v.size(), 0); for (unsigned i = 0; i < v.size(); ++i) p[i] = int(v[i]); return p; }
template <class NH, class N, class F> static void pairs(F ref, const char* key)
{
    unsigned n = mc::range(0, mc::tier(5, 6));
    Perm s = perm_of(any_perm(n));
    NH nh;
    N a, b;
    unsigned all = n < 2 ? 0 : n * (n - 1) / 2;
    unsigned cut = mc::choose(all + 1);
    if (cut) walk(nh, a, s, cut, all + 1);
    Trail t = walk(nh, mc::flag() ? a : b, s, ~0u, all + 1);
    std::set<uint64_t> want;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) { Perm c = s; ref(c, i, j); want.insert(key_of(c)); }
    each_once(t, want, key);
}
MC_SCENARIO("all exchanges of two positions")
{
    pairs<moSwapNeighborhood<Perm>, moSwapNeighbor<Perm>>([](Perm& p, unsigned i, unsigned j) { std::swap(p[i], p[j]); }, "exchanges");
}
MC_SCENARIO("all reversals of a section")
{
    pairs<moTwoOptExNeighborhood<Perm>, moTwoOptExNeighbor<Perm>>([](Perm& p, unsigned i, unsigned j) { std::reverse(p.begin() + i, p.begin() + j + 1); }, "reversals");
}
MC_SCENARIO("numbered exchanges")
{
    unsigned n = mc::range(2, mc::tier(70, 200));
    Perm s(n, 0);
    for (unsigned i = 0; i < n; ++i) s[i] = int(i);
    moOrderNeighborhood<moIndexedSwapNeighbor<Perm>> nh(n * (n - 1) / 2);
    moIndexedSwapNeighbor<Perm> a, back;
    std::vector<char> seen(n * n, 0);
    unsigned count = 0;
    nh.init(s, a);
    for (;;) {
        unsigned f = a.first(), g = a.second();
        MC_CHECK(f < g && g < n, "numbered exchange", "number " << a.index() << " of size " << n << " is (" << f << "," << g << ")");
        MC_CHECK(!seen[f * n + g]++, "numbered exchange twice", "(" << f << "," << g << ") of size " << n);
        back.set(s, f, g);
        MC_CHECK(back.index() == a.index(), "numbered exchange inverse", "(" << f << "," << g << ") of size " << n << " has number " << back.index() << " not " << a.index());
        std::vector<size_t> touched;
        a.move(s);
        MC_CHECK(unsigned(s[f]) == g && unsigned(s[g]) == f, "numbered exchange move", "");
        for (unsigned i = 0; i < n; ++i) if (i != f && i != g) MC_CHECK(unsigned(s[i]) == i, "numbered exchange move", "another position changed");
        a.moveBack(s);
        moIndexedSwapNeighbor<Perm> c(a), d;
        d = a;
        MC_CHECK(c.first() == f && c.second() == g && c.index() == a.index() && d.first() == f && d.second() == g && d.index() == a.index(), "numbered exchange copy", "");
        mc::state(mc::mix(n, a.index()));
        ++count;
        if (!nh.cont(s)) break;
        nh.next(s, a);
    }
    MC_CHECK(count == n * (n - 1) / 2, "numbered exchange count", count);
}
static void ref_insert(Perm& p, unsigned from, unsigned before)
{
    int x = p[from];
    p.insert(p.begin() + before, x);
    p.erase(p.begin() + (from < before ? from : from + 1));
}
MC_SCENARIO("numbered insertions")
{
    unsigned n = mc::range(2, mc::tier(5, 6));
    Perm s = perm_of(any_perm(n));
    unsigned cut = mc::choose(3);
    moOrderNeighborhood<moShiftNeighbor<Perm>> nh(n * (n - 1));
    moShiftNeighbor<Perm> a, back;
    std::set<std::pair<unsigned, unsigned>> seen;
    std::set<uint64_t> got, want;
    if (cut) walk(nh, a, s, cut, 64);
    nh.init(s, a);
    for (;;) {
        unsigned f = a.first(), g = a.second();
        MC_CHECK(f < n && g <= n && g != f && g != f + 1, "insertion", "number " << a.index() << " is (" << f << "," << g << ")");
        MC_CHECK(seen.insert({f, g}).second, "insertion twice", "(" << f << "," << g << ")");
        back.set(s, f, g);
        MC_CHECK(back.index() == a.index(), "insertion inverse", "(" << f << "," << g << ") has number " << back.index() << " not " << a.index());
        Perm c = s, w = s;
        a.move(c);
        ref_insert(w, f, g);
        MC_CHECK(key_of(c) == key_of(w), "insertion move", "(" << f << "," << g << ") gives " << mc::show(c) << " not " << mc::show(w));
        got.insert(key_of(c));
        moShiftNeighbor<Perm> d(a), e;
        e = a;
        MC_CHECK(d.first() == f && d.second() == g && e.first() == f && e.second() == g && e.index() == a.index(), "insertion copy", "");
        mc::state(mc::mix(key_of(s), a.index()));
        if (!nh.cont(s)) break;
        nh.next(s, a);
        MC_CHECK(seen.size() <= n * n, "endless walk", "");
    }
    MC_CHECK(seen.size() == n * (n - 1), "insertion count", seen.size());
    for (unsigned f = 0; f < n; ++f) for (unsigned p = 0; p < n; ++p) if (p != f) { Perm c = s; int x = c[f]; c.erase(c.begin() + f); c.insert(c.begin() + p, x); want.insert(key_of(c)); }
    MC_CHECK(got == want, "insertion reach", got.size() << " of " << want.size() << " results");
}

// ------------------------------------------------------------------ partitions
typedef moBinaryPartition<eoMinimizingFitness> Part;
typedef moBinaryPartitionSwapNeighbor<Part> PN;
static uint64_t key_of(const Part& p) { uint64_t k = 0; for (auto a : p.selected) k |= 1ull << a; for (auto a : p.rejected) k |= 1ull << (16 + a); return k; }
MC_SCENARIO("all swaps between the two parts")
{
    unsigned n = mc::range(1, mc::tier(5, 7));
    uint32_t m = mc::choose(1u << n);
    Part s(n);
    for (unsigned i = 0; i < n; ++i) if (m >> i & 1) s.select(i);
    moBinaryPartitionSwapNeighborhood<Part> nh;
    PN a, b;
    unsigned ones = __builtin_popcount(m), all = ones * (n - ones);
    unsigned cut = mc::choose(all + 1);
    if (cut) walk(nh, a, s, cut, all + 1);
    Trail t = walk(nh, mc::flag() ? a : b, s, ~0u, all + 1);
    std::set<uint64_t> want;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if ((m >> i & 1) && !(m >> j & 1)) {
        uint32_t k = (m & ~(1u << i)) | 1u << j;
        want.insert(k | uint64_t(~k & ((1u << n) - 1)) << 16);
    }
    each_once(t, want, "partition");
    if (all) {
        // copies, evaluated or not, stand for the same move
        nh.init(s, a);
        if (mc::flag()) a.fitness(3.);
        PN c(a), d;
        d = a;
        MC_CHECK(c.equals(a) && d.equals(a), "partition copy", "");
        MC_CHECK(c.invalid() == a.invalid() && d.invalid() == a.invalid(), "partition copy", "copies differ in being evaluated");
        Part x = s;
        c.move(x);
        d.moveBack(x);
        MC_CHECK(key_of(x) == key_of(s), "partition back", "");
    }
}
MC_SCENARIO("partition text")
{
    unsigned n = mc::range(1, 5);
    uint32_t m = mc::choose(1u << n);
    Part s(n), r;
    for (unsigned i = 0; i < n; ++i) if (m >> i & 1) s.select(i);
    if (mc::flag()) s.fitness(2.); else s.invalidate();
    if (mc::flag()) { r = Part(3); r.select(1); r.fitness(9.); }
    std::stringstream o;
    s.printOn(o);
    r.readFrom(o);
    mc::state(mc::mix(n, m));
    MC_CHECK(key_of(r) == key_of(s), "partition text", o.str() << " reads as another partition");
    MC_CHECK(r.invalid() == s.invalid() && (s.invalid() || double(r.fitness()) == 2), "partition text", "fitness");
}

// ------------------------------------------------------------------ wrappers
struct Touch : moNeighborhoodEvaluation<BN> { int n = 0; uint64_t last = 99; void operator()(Bit& b) override { ++n; last = key_of(b); } };
MC_SCENARIO("evaluated neighbourhood walks like the one it wraps")
{
    unsigned n = mc::range(0, 4);
    Bit s = bits_of<Bit>(n, mc::choose(1u << n));
    moOrderNeighborhood<BN> nh(n);
    moRndWithoutReplNeighborhood<BN> rn(n);
    bool rnd = mc::flag();
    moNeighborhood<BN>& inner = rnd ? (moNeighborhood<BN>&)rn : nh;
    Touch e;
    moEvaluatedNeighborhood<BN> w(inner, e);
    BN a;
    mc::rng_words({0x19999999, 0x4ccccccd, 0x99999999, 0xe6666666}, 8);
    unsigned cut = mc::choose(n + 1);
    if (!rnd && cut) walk(w, a, s, cut, n + 1);
    int before = e.n;
    Trail t = walk(w, a, s, ~0u, n + 1);
    each_once(t, one_flip(s, n), "wrapped walk");
    MC_CHECK(w.isRandom() == rnd, "wrapped kind", "");
    MC_CHECK(e.n == before + (n ? 1 : 0), "wrapped evaluation", e.n - before << " evaluations of the neighbourhood in one walk");
    if (n) MC_CHECK(e.last == key_of(s), "wrapped evaluation", "evaluated for another solution");
}

// ------------------------------------------------------------------ lists of neighbourhoods
struct Mark : eoMonOp<Bit> { int id; Mark(int i = 0) : id(i) {} bool operator()(Bit&) override { return false; } };
MC_SCENARIO("a list of neighbourhoods is searched in turn")
{
    int kind = mc::choose(3);
    bool cycle = mc::flag();
    unsigned size = mc::range(1, 4);
    unsigned late = mc::choose(2);                // one more entry joins after a first walk
    Mark ls[6], sh[6];
    for (int i = 0; i < 6; ++i) { ls[i].id = i; sh[i].id = 100 + i; }
    moForwardVectorVNSelection<Bit> fw(ls[0], sh[0], cycle);
    moBackwardVectorVNSelection<Bit> bw(ls[0], sh[0], cycle);
    moRndVectorVNSelection<Bit> rd(ls[0], sh[0], cycle);
    moVectorVNSelection<Bit>& v = kind == 0 ? (moVectorVNSelection<Bit>&)fw : kind == 1 ? (moVectorVNSelection<Bit>&)bw : rd;
    for (unsigned i = 1; i < size; ++i) v.add(ls[i], sh[i]);
    Bit s(2, false);
    mc::rng_words({0x19999999, 0x4ccccccd, 0x99999999, 0xe6666666}, 12);
    for (unsigned round = 0; round < 1 + late; ++round) {
        if (round) { v.add(ls[size], sh[size]); ++size; }
        unsigned cut = round == 0 && late ? mc::choose(size) + 1 : ~0u;
        std::vector<int> got;
        v.init(s);
        for (;;) {
            Mark& l = static_cast<Mark&>(v.getLocalSearch());
            Mark& h = static_cast<Mark&>(v.getShake());
            MC_CHECK(h.id == l.id + 100, "list pairing", "search " << l.id << " with shake " << h.id);
            got.push_back(l.id);
            mc::state(mc::mix(mc::mix(kind * 2 + cycle, size), mc::mix(got.size(), l.id)));
            if (got.size() >= cut) break;
            if (!v.cont(s)) break;
            MC_CHECK(cycle || got.size() <= size, "list never ends", got.size() << " of a list of " << size);
            if (got.size() >= 2 * size) break;
            v.next(s);
        }
        if (cut != ~0u) continue;
        if (!cycle) MC_CHECK(got.size() == size, "list length", got.size() << " of " << size);
        else MC_CHECK(got.size() == 2 * size, "list cycle", "a cyclic list stopped after " << got.size());
        std::set<int> u(got.begin(), got.begin() + size);
        MC_CHECK(u.size() == size, "list once", "not every entry once: " << mc::show(got));
        for (unsigned i = 0; i < got.size(); ++i) {
            if (kind == 0) MC_CHECK(got[i] == int(i % size), "list order", mc::show(got));
            if (kind == 1) MC_CHECK(got[i] == int(size - 1 - i % size), "list order", mc::show(got));
            if (i >= size) MC_CHECK(got[i] == got[i - size], "list cycle", mc::show(got));
        }
    }
}

// ------------------------------------------------------------------ neighbours as values
MC_SCENARIO("copies of neighbours stand for the same move")
{
    unsigned n = 4;
    Bit s = bits_of<Bit>(n, mc::choose(16));
    uint32_t m = mc::choose(16), m2 = mc::choose(16);
    auto make = [&](uint32_t mask) { MBN x; x.nBits = 0; for (unsigned i = 0; i < n; ++i) if (mask >> i & 1) { x.bits.push_back(i); ++x.nBits; } return x; };
    MBN a = make(m), b = make(m2);
    bool val = mc::flag();
    if (val) a.fitness(2.5);
    MBN c(a), d = b;
    d = a;
    for (MBN* x : {&c, &d}) {
        Bit t = s;
        x->move(t);
        MC_CHECK(key_of(t) == (num_of(s) ^ m), "bits copy", "");
        MC_CHECK(x->invalid() == !val && (!val || x->fitness() == 2.5), "bits copy", "fitness");
        MC_CHECK(x->equals(a), "bits equals", "a copy differs");
    }
    MC_CHECK(a.equals(b) == (m == m2), "bits equals", m << " " << m2);
    unsigned i = mc::choose(4), j = mc::choose(4);
    BN p, q;
    p.index(s, i); q.index(s, j);
    if (val) p.fitness(1.5);
    BN r(p);
    q = p;
    MC_CHECK(r.index() == i && q.index() == i && r.invalid() == !val && q.invalid() == !val && r.equals(p), "flip copy", "");
    mc::state(mc::mix(num_of(s), m * 16 + m2));
    moSwapNeighbor<Perm> w, x;
    w.setIndices(i, j); x.setIndices(j, i);
    MC_CHECK(w.equals(x), "exchange equals", "");
    x.setIndices(i, (j + 1) % 4);
    MC_CHECK(w.equals(x) == (i == (j + 1) % 4 && i == j), "exchange equals", i << "," << j);
}
