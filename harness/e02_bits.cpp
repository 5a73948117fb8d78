// E02: bit string operators.
#include "common.hpp"
#include <contrib/MGE/VirusOp.h>
#include <contrib/MGE/eoInitVirus.h>
using namespace mc;

typedef std::vector<bool> VB;
static VB vb(const Bit& b) { return VB(b.begin(), b.end()); }

// Runs a unary operator on every bit string of the given sizes with all random
// outcomes; `legal` gives the set of outcomes the definition allows, and every
// one of them must also be reachable.
template <class Op, class Legal>
static void monop(Op& op, unsigned n, unsigned grid, unsigned limit, const char* who, Legal legal, bool all_reached = true)
{
    Bit start = any_bits<Bit>(n);
    start.fitness(42);
    std::set<uint32_t> seen;
    rng_grid(grid, limit);
    uint64_t done = forall([&] {
        Bit b = start;
        bool changed = op(b);
        MC_CHECK(b.size() == n, std::string(who) + ":size", "size " << b.size() << " instead of " << n);
        MC_CHECK(changed || vb(b) == vb(start), std::string(who) + ":flag",
                 "reported no change but " << start << " became " << b);
        MC_CHECK(legal(num_of(start), num_of(b)), std::string(who) + ":illegal", start << " became " << b);
        seen.insert(num_of(b));
        state(mix(mix(n, num_of(start)), num_of(b)));
    });
    MC_CHECK(done, std::string(who) + ":endless", "no random outcome ends the operator on " << start);
    if (all_reached)
        for (uint32_t v = 0; v < (1u << n); ++v)
            MC_CHECK(!legal(num_of(start), v) || seen.count(v), std::string(who) + ":unreachable",
                     "from " << start << " the outcome " << bits_of<Bit>(n, v) << " never occurs");
    sample(std::string(who) + " on all bit strings of length " + std::to_string(n));
}

static int dist(uint32_t a, uint32_t b) { return __builtin_popcount(a ^ b); }

MC_SCENARIO("one-bit-flip")
{
    unsigned n = range(1, tier(5, 7));
    eoOneBitFlip<Bit> op;
    monop(op, n, n, 8, "one-bit-flip", [](uint32_t a, uint32_t b) { return dist(a, b) == 1; });
}
MC_SCENARIO("det-bit-flip")
{
    unsigned n = range(1, tier(4, 6)), k = range(0, 3);
    eoDetBitFlip<Bit> op(k);
    monop(op, n, n, 8, "det-bit-flip", [&](uint32_t a, uint32_t b) { return dist(a, b) <= int(k) && (dist(a, b) - int(k)) % 2 == 0; });
}
MC_SCENARIO("det-single-bit-flip")
{
    unsigned n = range(1, tier(4, 5));
    unsigned k = range(0, n);
    eoDetSingleBitFlip<Bit> op(k);
    monop(op, n, n, 8, "det-single-bit-flip", [&](uint32_t a, uint32_t b) { return dist(a, b) == int(k); });
    op.number_bits(n - k);
    Bit b(n, false);
    rng_fixed(3);
    op(b);
    MC_CHECK(dist(num_of(b), 0) == int(n - k), "det-single-bit-flip:number", "after number_bits(" << n - k << ") flipped " << b);
}
// rate on a grid cell border, so the distribution over outcomes is exact
MC_SCENARIO("bit-mutation")
{
    unsigned n = range(1, tier(4, 5));
    bool normalize = flag();
    unsigned q = range(0, 4);                    // rate q/4
    double rate = normalize ? n * q / 4.0 : q / 4.0;
    eoBitMutation<Bit> op(rate, normalize);
    Bit start = any_bits<Bit>(n);
    std::vector<double> prob(1u << n, 0.0);
    rng_grid(4, 16);
    forall([&] {
        Bit b = start;
        bool c = op(b);
        MC_CHECK(b.size() == n, "bit-mutation:size", b);
        MC_CHECK(c || vb(b) == vb(start), "bit-mutation:flag", start << " " << b);
        prob[num_of(b)] += leaf_prob();
    });
    for (uint32_t v = 0; v < (1u << n); ++v) {
        int d = dist(v, num_of(start));
        double e = std::pow(q / 4.0, d) * std::pow(1 - q / 4.0, int(n) - d);
        MC_CHECK(close(prob[v], e, 1e-9), "bit-mutation:distribution",
                 "rate " << rate << " normalised " << normalize << " " << start << "->" << bits_of<Bit>(n, v) << " has probability " << prob[v] << " instead of " << e);
        state(mix(mix(mix(n, q), v), num_of(start) * 2 + normalize));
    }
}
MC_SCENARIO("bit-inversion")
{
    unsigned n = range(1, tier(5, 6));
    eoBitInversion<Bit> op;
    auto legal = [&](uint32_t a, uint32_t b) {
        for (unsigned i = 0; i <= n; ++i)
            for (unsigned j = i + 1; j <= n; ++j) {
                Bit x = bits_of<Bit>(n, a);
                std::reverse(x.begin() + i, x.begin() + j);
                if (num_of(x) == b) return true;
            }
        return false;
    };
    monop(op, n, n + 1, tier(4, 5), "bit-inversion", legal);
}
// the string read as a number, first bit most significant
static uint32_t value(unsigned n, uint32_t v) { uint32_t r = 0; for (unsigned i = 0; i < n; ++i) r = r * 2 + ((v >> i) & 1); return r; }
MC_SCENARIO("bit-next-prev")
{
    unsigned n = range(1, tier(6, 8));
    eoBitNext<Bit> nx; eoBitPrev<Bit> pv;
    uint32_t mask = (1u << n) - 1;
    if (flag()) monop(nx, n, 2, 4, "bit-next", [&](uint32_t a, uint32_t b) { return value(n, b) == ((value(n, a) + 1) & mask); });
    else monop(pv, n, 2, 4, "bit-prev", [&](uint32_t a, uint32_t b) { return value(n, b) == ((value(n, a) - 1) & mask); });
}

// standard-bit-mutation family: number of flipped bits within range
MC_SCENARIO("standard-bit-mutation")
{
    unsigned n = range(1, 3);
    unsigned q = range(0, 3);
    double rate = q / 4.0;
    eoStandardBitMutation<Bit> op(rate);
    monop(op, n, 4, 3 * n + 2, "standard-bit-mutation", [&](uint32_t, uint32_t) { return true; }, n < 3 && q > 0);
}
MC_SCENARIO("uniform-bit-mutation")
{
    unsigned n = range(1, tier(3, 4));
    eoUniformBitMutation<Bit> op;
    // flips random(n) bits: 0..n-1
    monop(op, n, n, 8, "uniform-bit-mutation", [&](uint32_t a, uint32_t b) { return dist(a, b) < int(n); });
}
MC_SCENARIO("conditional-bit-mutation")
{
    unsigned n = range(1, 3), q = range(1, 3);
    eoConditionalBitMutation<Bit> op(q / 4.0);
    monop(op, n, 4, 2 * n + 2, "conditional-bit-mutation", [&](uint32_t a, uint32_t b) { return dist(a, b) >= 1; }, n < 3);
}
MC_SCENARIO("shifted-bit-mutation")
{
    unsigned n = range(1, 3), q = range(1, 3);
    eoShiftedBitMutation<Bit> op(q / 4.0);
    monop(op, n, 4, 3 * n + 2, "shifted-bit-mutation", [&](uint32_t a, uint32_t b) { return dist(a, b) >= 1; }, n < 3);
}
MC_SCENARIO("fast-bit-mutation")
{
    unsigned n = range(1, 3);
    eoFastBitMutation<Bit> op(pick({1.5, 2.0}));
    monop(op, n, 4, 3 * n + 2, "fast-bit-mutation", [&](uint32_t, uint32_t) { return true; }, false);
}
MC_SCENARIO("normal-bit-mutation")
{
    unsigned n = range(2, 3);
    eoNormalBitMutation<Bit> op(pick({0.0, 1.0, 2.0}), pick({0.0, 1.0}));
    monop(op, n, 3, 3 + n + 1, "normal-bit-mutation", [&](uint32_t, uint32_t) { return true; }, false);
}
MC_SCENARIO("bucket-bit-mutation")
{
    unsigned n = 4;
    std::vector<std::vector<int>> buckets = {{0, 1}, {1, 3}, {3, 4}};
    std::vector<double> w = {1, 2, 1};
    std::vector<int> only;
    uint32_t k = choose(4);
    if (k) w = {0, 0, 0}, w[k - 1] = 1;
    eoBucketBitMutation<Bit> op(buckets, w);
    monop(op, n, 4, 8, "bucket-bit-mutation", [&](uint32_t a, uint32_t b) {
        int d = dist(a, b);
        return k ? d >= buckets[k - 1][0] && d <= buckets[k - 1][1] : d <= 4;
    }, false);
}

// ---- crossovers ----------------------------------------------------------
template <class Op, class Legal>
static void quadop(Op& op, unsigned n1, unsigned n2, unsigned grid, unsigned limit, const char* who, Legal legal, bool all_reached)
{
    Bit a = any_bits<Bit>(n1), b = any_bits<Bit>(n2);
    a.fitness(1); b.fitness(2);
    std::set<std::pair<uint32_t, uint32_t>> seen;
    rng_grid(grid, limit);
    unsigned m = std::min(n1, n2);
    uint64_t done = forall([&] {
        Bit x = a, y = b;
        bool changed = op(x, y);
        std::string w(who);
        MC_CHECK(x.size() == n1 && y.size() == n2, w + ":size", a << " x " << b << " -> " << x << " , " << y);
        MC_CHECK(changed || (vb(x) == vb(a) && vb(y) == vb(b)), w + ":flag", a << " x " << b << " -> " << x << " , " << y << " reported unchanged");
        for (unsigned i = 0; i < n1; ++i) if (i >= m) MC_CHECK(x[i] == a[i], w + ":material", a << " x " << b << " -> " << x << " , " << y);
        for (unsigned i = 0; i < n2; ++i) if (i >= m) MC_CHECK(y[i] == b[i], w + ":material", a << " x " << b << " -> " << x << " , " << y);
        for (unsigned i = 0; i < m; ++i)
            MC_CHECK((x[i] == a[i] && y[i] == b[i]) || (x[i] == b[i] && y[i] == a[i]), w + ":material",
                     a << " x " << b << " -> " << x << " , " << y);
        uint32_t sw = 0;
        MC_CHECK(legal(num_of(a), num_of(b), num_of(x), num_of(y)), w + ":illegal", a << " x " << b << " -> " << x << " , " << y);
        seen.insert(std::make_pair(num_of(x), num_of(y)));
        state(mix(mix(num_of(a), num_of(b) * 16 + n1), mix(num_of(x), num_of(y) * 16 + n2)));
    });
    MC_CHECK(done, std::string(who) + ":endless", "no random outcome ends the operator on " << a << " x " << b);
    if (all_reached)
        for (uint32_t mask = 0; mask < (1u << m); ++mask) {
            uint32_t d = (num_of(a) ^ num_of(b)) & mask, x = num_of(a) ^ d, y = num_of(b) ^ d;
            MC_CHECK(!legal(num_of(a), num_of(b), x, y) || seen.count(std::make_pair(x, y)), std::string(who) + ":unreachable",
                     a << " x " << b << " never gives " << bits_of<Bit>(n1, x));
        }
    sample(std::string(who) + " on all pairs of lengths " + std::to_string(n1) + "," + std::to_string(n2));
}
// some way to cut m positions into alternating unswapped/swapped runs with at most k cuts explains the result
static bool cuts(uint32_t a, uint32_t b, uint32_t x, uint32_t y, unsigned m, unsigned k)
{
    for (uint32_t mask = 0; mask < (1u << m); ++mask) {
        uint32_t d = (a ^ b) & mask;
        if ((a ^ d) != x || (b ^ d) != y) continue;
        unsigned c = 0;
        for (unsigned i = 1; i < m; ++i) if (((mask >> i) & 1) != ((mask >> (i - 1)) & 1)) ++c;
        if (c <= k) return true;
    }
    return false;
}
MC_SCENARIO("one-point-xover")
{
    unsigned n1 = range(1, 4), n2 = range(1, 4);
    eo1PtBitXover<Bit> op;
    unsigned m = std::min(n1, n2);
    quadop(op, n1, n2, m, 4, "one-point-xover", [&](uint32_t a, uint32_t b, uint32_t x, uint32_t y) {
        for (unsigned s = 0; s < m; ++s) {          // the first s positions exchanged
            uint32_t d = (a ^ b) & ((1u << s) - 1);
            if ((a ^ d) == x && (b ^ d) == y) return true;
        }
        return false; }, true);
}
MC_SCENARIO("uniform-xover")
{
    unsigned n = range(1, 4);
    eoUBitXover<Bit> op(pick({0.25, 0.5, 0.75}));
    quadop(op, n, n, 4, 8, "uniform-xover", [&](uint32_t, uint32_t, uint32_t, uint32_t) { return true; }, true);
}
MC_SCENARIO("n-point-xover")
{
    unsigned n1 = range(1, 4), n2 = range(1, 4), k = range(1, 4);
    assume(n1 == n2 || k <= 2);
    eoNPtsBitXover<Bit> op(k);
    quadop(op, n1, n2, std::min(n1, n2), tier(5, 6), "n-point-xover",
           [&](uint32_t a, uint32_t b, uint32_t x, uint32_t y) { return cuts(a, b, x, y, std::min(n1, n2), k); }, false);
}
MC_SCENARIO("gene-xover")
{
    unsigned g = range(1, 2), genes = range(1, g == 1 ? 4 : 2), extra = g == 2 ? range(0, 1) : 0, k = range(1, 3);
    unsigned n = g * genes + extra;
    eoBitGxOver<Bit> op(g, k);
    quadop(op, n, n, genes, 5, "gene-xover", [&](uint32_t a, uint32_t b, uint32_t x, uint32_t y) {
        unsigned want = std::min(genes, k);
        for (uint32_t m = 0; m < (1u << genes); ++m) {
            if (unsigned(__builtin_popcount(m)) != want) continue;
            uint32_t mask = 0;
            for (unsigned i = 0; i < genes; ++i) if ((m >> i) & 1) mask |= ((1u << g) - 1) << (i * g);
            uint32_t d = (a ^ b) & mask;
            if ((a ^ d) == x && (b ^ d) == y) return true;
        }
        return false; }, true);
}
// derived operators
MC_SCENARIO("adapters")
{
    unsigned n = range(1, 3);
    Bit a = any_bits<Bit>(n), b = any_bits<Bit>(n);
    a.fitness(1); b.fitness(2);
    eoUBitXover<Bit> ux; eoQuad2BinOp<Bit> bin(ux);
    eoOneBitFlip<Bit> fl; eoMon2QuadOp1<Bit> m1(fl); eoMon2QuadOp2<Bit> m2(fl);
    eoMonCloneOp<Bit> c1; eoBinCloneOp<Bit> c2; eoQuadCloneOp<Bit> c3;
    uint32_t which = choose(4);
    std::set<uint32_t> seen;
    rng_grid(6, 8);
    forall([&] {
        Bit x = a, y = b;
        if (which == 0) {
            bool c = bin(x, y);
            MC_CHECK(vb(y) == vb(b) && !y.invalid() && y.fitness() == 2, "quad2bin:const", "read-only operand changed");
            MC_CHECK(c || vb(x) == vb(a), "quad2bin:flag", a << " " << x);
            for (unsigned i = 0; i < n; ++i) MC_CHECK(x[i] == a[i] || x[i] == b[i], "quad2bin:material", a << " x " << b << " -> " << x);
            seen.insert(num_of(x));
        } else if (which == 1) {
            bool c = m1(x, y);
            MC_CHECK(c && dist(num_of(x), num_of(a)) == 1 && vb(y) == vb(b), "mon2quad:first", a << b << x << y);
            x = a;
            c = m2(x, y);
            MC_CHECK(c && dist(num_of(y), num_of(b)) == 1 && vb(x) == vb(a), "mon2quad:second", a << b << x << y);
        } else if (which == 2) {
            MC_CHECK(!c1(x) && !c2(x, y) && !c3(x, y), "clone:flag", "clone reports a change");
            MC_CHECK(vb(x) == vb(a) && vb(y) == vb(b), "clone:changed", "clone changed something");
        } else {
            eoPropCombinedMonOp<Bit> p(c1, 0.5); p.add(fl, 0.5);
            bool c = p(x);
            MC_CHECK(c == (vb(x) != vb(a)), "combined:flag", a << x);
            eoPropCombinedQuadOp<Bit> q(c3, 0.5); q.add(ux, 0.5);
            Bit z = a;
            c = q(z, y);
            MC_CHECK(c || (vb(z) == vb(a) && vb(y) == vb(b)), "combined:flag", a << x);
        }
        state(mix(mix(which, num_of(x)), mix(num_of(a), num_of(b))));
    });
    if (which == 0) for (uint32_t m = 0; m < (1u << n); ++m)
        MC_CHECK(seen.count(num_of(a) ^ ((num_of(a) ^ num_of(b)) & m)), "quad2bin:unreachable", a << " x " << b);
}

// bit strings that carry a second string of marked positions
typedef eoVirus<double> Vir;
static VB marks(const Vir& v) { VB r; for (unsigned i = 0; i < v.size(); ++i) r.push_back(v.virusBit(i)); return r; }
static unsigned ones(const VB& v) { return unsigned(std::count(v.begin(), v.end(), true)); }
static Vir any_virus(unsigned n) { Vir v(n); for (unsigned i = 0; i < n; ++i) v[i] = flag(); for (unsigned i = 0; i < n; ++i) v.virusBitSet(i, flag()); v.fitness(4); return v; }
MC_SCENARIO("virus")
{
    unsigned n = range(1, tier(3, 4)); uint32_t which = choose(6); Vir a = any_virus(n), b = which == 3 ? any_virus(n) : a; std::set<VB> genes, virus; VB ga(a.begin(), a.end()), ma = marks(a);
    VirusBitFlip<double> flip; VirusMutation<double> mut; VirusShiftMutation<double> shift; VirusTransmission<double> pass; eoBooleanGenerator gen; eoInitVirus<double> init(n, gen); eoInitVirus1bit<double> one(n, gen);
    rng_grid(which == 2 || which > 3 ? 2 : 12, 24);
    forall([&] {
        Vir x = a, y = b; if (which > 3) { x = Vir(); } bool c = which == 0 ? flip(x) : which == 1 ? mut(x) : which == 2 ? shift(x) : which == 3 ? pass(x, y) : true; if (which == 4) init(x); if (which == 5) one(x);
        MC_CHECK(x.size() == n, "virus:size", x); VB g(x.begin(), x.end()), m = marks(x); genes.insert(g); virus.insert(m); state(mix(hashv(g), hashv(m)));
        MC_CHECK(c || (g == ga && m == ma), "virus:flag", a << " -> " << x); MC_CHECK(VB(y.begin(), y.end()) == VB(b.begin(), b.end()) && marks(y) == marks(b), "virus:const", b << " -> " << y);
        unsigned dg = 0, dm = 0; for (unsigned i = 0; i < n; ++i) { dg += g[i] != ga[i]; dm += m[i] != ma[i]; if (which == 1 && g[i] != ga[i]) MC_CHECK(ma[i], "virus:mutation", "an unmarked gene changed: " << a << " -> " << x); }
        if (which == 0) MC_CHECK(dg == 0 && dm == 1, "virus:flip", a << " -> " << x);
        if (which == 1) MC_CHECK(dm == 0 && dg == (ones(ma) ? 1 : 0), "virus:mutation", a << " -> " << x);
        if (which == 2) MC_CHECK(dg == 0 && ones(m) <= ones(ma) && (ones(m) > 0) == (ones(ma) > 0), "virus:shift", a << " -> " << x);
        if (which == 3) MC_CHECK(dg == 0 && m == marks(b), "virus:transmission", a << ", " << b << " -> " << x);
        if (which > 3) MC_CHECK(x.invalid(), "virus:init", "an initial solution carries a fitness"); if (which == 5) MC_CHECK(m[0] && ones(m) == 1, "virus:init", x);
    });
    auto reached = [&](bool c, const char* key) { MC_CHECK(c, key, a << ": " << genes.size() << " strings and " << virus.size() << " sets of marks are reached"); };
    if (which == 0) reached(virus.size() == n, "virus:flip"); if (which == 1) reached(genes.size() == std::max(1u, ones(ma)), "virus:mutation"); if (which == 4) reached(genes.size() == 1u << n && virus.size() == 1u << n, "virus:init"); if (which == 5) reached(genes.size() == 1u << n, "virus:init");
    if (which == 2 && ones(ma) == 1) { unsigned at = unsigned(std::find(ma.begin(), ma.end(), true) - ma.begin()); for (unsigned t = at ? at - 1 : 0; t <= at + 1 && t < n; ++t) if (t != at) { VB w(n, false); w[t] = true; reached(virus.count(w), "virus:shift"); } }
}
