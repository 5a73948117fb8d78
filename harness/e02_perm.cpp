// E02: permutation, variable-length and integer operators.
#include "common.hpp"
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <eoVariableLengthCrossover.h>
#include <eoVariableLengthMutation.h>
#include <eoFlOrMonOp.h>
#include <eoRealToIntMonOp.h>
#include <eoRealToIntQuadOp.h>
#include <eoRealToIntInit.h>
using namespace mc;

typedef std::vector<size_t> V;
static V vv(const Perm& p) { return V(p.begin(), p.end()); }

template <class Op, class F>
static void mono(Op& op, unsigned n, unsigned limit, const char* who, F outcomes)
{
    Perm start(any_perm(n));
    start.fitness(9);
    std::set<V> legal = outcomes(vv(start)), seen;
    std::string w(who);
    rng_grid(n, limit);
    uint64_t done = forall([&] {
        Perm p = start;
        bool c = op(p);
        MC_CHECK(is_perm(p, n), w + ":not-a-permutation", show(start) << " -> " << show(p));
        MC_CHECK(c || vv(p) == vv(start), w + ":flag", show(start) << " -> " << show(p) << " reported unchanged");
        MC_CHECK(legal.count(vv(p)), w + ":illegal", show(start) << " -> " << show(p));
        seen.insert(vv(p));
        state(mix(hashv(start), hashv(p)));
    });
    MC_CHECK(done, w + ":endless", "no random outcome ends the operator on " << show(start));
    for (auto& l : legal) MC_CHECK(seen.count(l), w + ":unreachable", show(start) << " never becomes " << show(l));
    sample(w + " on all permutations of " + std::to_string(n));
}

MC_SCENARIO("swap-mutation")
{
    unsigned n = range(1, tier(4, 5)), k = range(1, 2);
    eoSwapMutation<Perm> op(k);
    mono(op, n, 2 * k + 2, "swap-mutation", [&](const V& s) {
        std::set<V> cur = {s};
        for (unsigned t = 0; t < k && n > 1; ++t) {
            std::set<V> nx;
            for (auto v : cur)
                for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) { V w = v; std::swap(w[i], w[j]); nx.insert(w); }
            cur = nx;
        }
        return cur; });
}
MC_SCENARIO("shift-mutation")
{
    unsigned n = range(1, tier(5, 6));
    eoShiftMutation<Perm> op;
    mono(op, n, 4, "shift-mutation", [&](const V& s) {
        std::set<V> r;
        if (n < 2) r.insert(s);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) {
            V w = s; size_t x = w[j]; w.erase(w.begin() + j); w.insert(w.begin() + i, x); r.insert(w); }
        return r; });
}
MC_SCENARIO("two-opt-mutation")
{
    unsigned n = range(1, tier(5, 6));
    eoTwoOptMutation<Perm> op;
    mono(op, n, 4, "two-opt-mutation", [&](const V& s) {
        std::set<V> r;
        if (n < 2) r.insert(s);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) {
            V w = s; std::reverse(w.begin() + i, w.begin() + j + 1); r.insert(w); }
        return r; });
}

template <class Op>
static void quad(Op& op, unsigned n, unsigned grid, unsigned limit, const char* who, size_t start)
{
    Perm a(any_perm(n, start)), b(any_perm(n, start));
    a.fitness(1); b.fitness(2);
    std::string w(who);
    rng_grid(grid, limit);
    std::set<V> seen;
    uint64_t done = forall([&] {
        Perm x = a, y = b;
        bool c = op(x, y);
        MC_CHECK(is_perm(x, n, start) && is_perm(y, n, start), w + ":not-a-permutation", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        MC_CHECK(c || (vv(x) == vv(a) && vv(y) == vv(b)), w + ":flag", show(a) << " x " << show(b) << " -> " << show(x));
        if (vv(a) == vv(b) && w == "pmx") MC_CHECK(vv(x) == vv(a) && vv(y) == vv(a), w + ":identical", "identical parents " << show(a) << " gave " << show(x));
        seen.insert(vv(x));
        state(mix(mix(hashv(a), hashv(b)), mix(hashv(x), hashv(y))));
    });
    MC_CHECK(done, w + ":endless", "no random outcome ends the operator on " << show(a));
    sample(w + " on all pairs of permutations of " + std::to_string(n));
}
MC_SCENARIO("order-xover")
{
    unsigned n = range(1, tier(4, 5));
    eoOrderXover<Perm> op;
    quad(op, n, n < 4 ? 6 : 12, 4, "order-xover", choose(2));
}
MC_SCENARIO("order-xover-5")
{
    eoOrderXover<Perm> op;
    Perm a(V{0, 1, 2, 3, 4}), b(any_perm(5));
    rng_grid(20, 4);
    forall([&] {
        Perm x = a, y = b;
        op(x, y);
        MC_CHECK(is_perm(x, 5) && is_perm(y, 5), "order-xover:not-a-permutation", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        // the kept segment heads the child, in order
        bool seg = false;
        for (unsigned i = 0; i < 5; ++i) if (a[i] == x[0]) seg = true;
        MC_CHECK(seg, "order-xover:segment", show(x));
        state(mix(hashv(b), hashv(x)));
    });
}
MC_SCENARIO("pmx")
{
    unsigned n = range(1, tier(4, 5));
    eoPartiallyMappedXover<Perm> op;
    quad(op, n, n, 4, "pmx", 0);
}
// definition of partially mapped crossover: the segment comes from the other parent,
// the rest keeps its place unless that duplicates
MC_SCENARIO("pmx-definition")
{
    unsigned n = tier(5, 6);
    V ident; for (unsigned i = 0; i < n; ++i) ident.push_back(i);
    Perm a(ident), b(any_perm(n));
    eoPartiallyMappedXover<Perm> op;
    unsigned p = range(0, n - 1), q = range(0, n - 1);
    assume(p < q);
    rng_script({uint32_t((p + 0.5) * 4294967296.0 / n), uint32_t((q + 0.5) * 4294967296.0 / n)});
    Perm x = a, y = b;
    op(x, y);
    auto expect = [&](const V& s, const V& o) {
        V r = s;
        for (unsigned i = p; i <= q; ++i) r[i] = o[i];
        for (unsigned i = 0; i < n; ++i) {
            if (i >= p && i <= q) continue;
            size_t v = s[i];
            for (;;) {
                unsigned k = p;
                while (k <= q && o[k] != v) ++k;
                if (k > q) break;
                v = s[k];
            }
            r[i] = v;
        }
        return r;
    };
    bool ok = (vv(x) == expect(vv(a), vv(b)) && vv(y) == expect(vv(b), vv(a)));
    MC_CHECK(ok, "pmx:definition", show(a) << " x " << show(b) << " segment " << p << ".." << q << " -> " << show(x) << " , " << show(y));
    state(mix(hashv(b), hashv(x)));
}

// ---- variable length -----------------------------------------------------
typedef eoReal<double> Vl;
static std::vector<double> genes(const Vl& v) { return std::vector<double>(v.begin(), v.end()); }
static Vl numbered(unsigned n, double from) { Vl v; for (unsigned i = 0; i < n; ++i) v.push_back(from + i); v.fitness(from); return v; }
static bool same_multiset(std::vector<double> a, std::vector<double> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
// x is a subsequence of the concatenation a then b
static bool keeps_order(const std::vector<double>& x)
{
    for (size_t i = 1; i < x.size(); ++i) if (!(x[i - 1] < x[i])) return false;
    return true;
}

struct AtomNine : public eoInit<double> { void operator()(double& d) { d = 99; } };
MC_SCENARIO("vl-add-del")
{
    unsigned n = range(0, 4), lim = range(0, 4);
    Vl a = numbered(n, 1);
    if (flag()) {
        AtomNine init;
        eoVlAddMutation<Vl> op(lim, init);
        std::set<std::vector<double>> seen;
        rng_grid(60, 3);
        forall([&] {
            Vl x = a;
            bool c = op(x);
            MC_CHECK(c == (n < lim), "vl-add:flag", "size " << n << " limit " << lim << " reported " << c);
            MC_CHECK(x.size() == (c ? n + 1 : n), "vl-add:size", x.size());
            std::vector<double> g = genes(x);
            if (c) { auto it = std::find(g.begin(), g.end(), 99.0); MC_CHECK(it != g.end(), "vl-add:atom", show(g)); g.erase(it); }
            MC_CHECK(g == genes(a), "vl-add:others", show(a) << " -> " << show(x));
            seen.insert(genes(x));
            state(mix(hashv(x), lim));
        });
        MC_CHECK(seen.size() == (n < lim ? n + 1 : 1), "vl-add:unreachable", seen.size() << " distinct insert positions for size " << n);
    } else {
        eoVlDelMutation<Vl> op(lim);
        std::set<std::vector<double>> seen;
        rng_grid(12, 3);
        forall([&] {
            Vl x = a;
            bool c = op(x);
            MC_CHECK(c == (n > lim), "vl-del:flag", "size " << n << " limit " << lim << " reported " << c);
            MC_CHECK(x.size() == (c ? n - 1 : n), "vl-del:size", x.size());
            MC_CHECK(keeps_order(genes(x)), "vl-del:others", show(a) << " -> " << show(x));
            for (double d : x) MC_CHECK(std::find(a.begin(), a.end(), d) != a.end(), "vl-del:material", show(x));
            seen.insert(genes(x));
            state(mix(hashv(x), 50 + lim));
        });
        MC_CHECK(seen.size() == (n > lim ? n : 1), "vl-del:unreachable", seen.size());
    }
}
MC_SCENARIO("vl-atom-exchange")
{
    unsigned n1 = range(0, 3), n2 = range(0, 3), mn = range(0, 2), mx = range(1, 4);
    assume(mn <= mx && n1 >= mn && n1 <= mx && n2 >= mn && n2 <= mx);
    Vl a = numbered(n1, 1), b = numbered(n2, 11);
    eoUniformAtomExchange<double> ex(0.5);
    eoVlAtomExchangeQuadOp<Vl> op(mn, mx, ex);
    rng_grid(2, n1 + n2 + 6);
    uint64_t done = forall([&] {
        Vl x = a, y = b;
        bool c = op(x, y);
        std::vector<double> all = genes(a), got = genes(x);
        for (double d : b) all.push_back(d);
        for (double d : y) got.push_back(d);
        MC_CHECK(same_multiset(all, got), "vl-exchange:material", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        MC_CHECK(c || (genes(x) == genes(a) && genes(y) == genes(b)), "vl-exchange:flag", show(x));
        if (c) MC_CHECK(x.size() >= mn && x.size() <= mx && y.size() >= mn && y.size() <= mx, "vl-exchange:limits", x.size() << "," << y.size() << " outside " << mn << ".." << mx);
        state(mix(hashv(x), hashv(y)));
    });
    MC_CHECK(done, "vl-exchange:endless", n1 << "," << n2);
}
MC_SCENARIO("vl-uniform-quad")
{
    unsigned n1 = range(0, 3), n2 = range(0, 3), mn = range(0, 2), mx = range(1, 4);
    assume(mn <= mx && n1 >= mn && n1 <= mx && n2 >= mn && n2 <= mx);
    Vl a = numbered(n1, 1), b = numbered(n2, 11);
    eoVlUniformQuadOp<Vl> op(mn, mx);
    rng_grid(2, 2 * (n1 + n2) + 2);
    uint64_t done = forall([&] {
        Vl x = a, y = b;
        bool c = op(x, y);
        std::vector<double> all = genes(a), got = genes(x);
        for (double d : b) all.push_back(d);
        for (double d : y) got.push_back(d);
        MC_CHECK(same_multiset(all, got), "vl-uniform-quad:material", show(a) << " x " << show(b) << " -> " << show(x) << " , " << show(y));
        MC_CHECK(c || (genes(x) == genes(a) && genes(y) == genes(b)), "vl-uniform-quad:flag", show(x));
        if (c) MC_CHECK(x.size() >= mn && x.size() <= mx && y.size() >= mn && y.size() <= mx, "vl-uniform-quad:limits", x.size() << "," << y.size() << " outside " << mn << ".." << mx);
        state(mix(hashv(x), hashv(y)));
    });
    MC_CHECK(done || (n1 + n2 < 2 * mn || n1 + n2 > 2 * mx), "vl-uniform-quad:endless", n1 << "," << n2);
}
MC_SCENARIO("vl-uniform-bin")
{
    unsigned n1 = range(0, 3), n2 = range(0, 3), mn = range(0, 2), mx = range(1, 4);
    assume(mn <= mx && n1 >= mn && n1 <= mx && n2 >= mn && n2 <= mx);
    Vl a = numbered(n1, 1), b = numbered(n2, 11);
    eoVlUniformBinOp<Vl> op(mn, mx);
    rng_grid(2, 2 * (n1 + n2) + 2);
    uint64_t done = forall([&] {
        Vl x = a, y = b;
        bool c = op(x, y);
        MC_CHECK(genes(y) == genes(b) && !y.invalid(), "vl-uniform-bin:const", "read-only operand changed to " << show(y));
        MC_CHECK(c || genes(x) == genes(a), "vl-uniform-bin:flag", show(a) << " x " << show(b) << " -> " << show(x) << " reported unchanged");
        std::vector<double> g = genes(x);
        MC_CHECK(keeps_order(g), "vl-uniform-bin:material", show(a) << " x " << show(b) << " -> " << show(x));
        for (double d : g) MC_CHECK(std::find(a.begin(), a.end(), d) != a.end() || std::find(b.begin(), b.end(), d) != b.end(), "vl-uniform-bin:material", show(x));
        if (c) MC_CHECK(x.size() >= mn && x.size() <= mx, "vl-uniform-bin:limits", x.size() << " outside " << mn << ".." << mx);
        state(mix(hashv(x), hashv(a)));
    });
    MC_CHECK(done, "vl-uniform-bin:endless", n1 << "," << n2);
}
struct AtomXch : public eoQuadOp<double>
{
    bool operator()(double& a, double& b) { if (!eo::rng.flip()) return false; std::swap(a, b); return true; }
};
MC_SCENARIO("vl-inner-exchange")
{
    unsigned n1 = range(0, 3), n2 = range(0, 3);
    Vl a = numbered(n1, 1), b = numbered(n2, 11);
    AtomXch ax;
    eoInnerExchangeQuadOp<Vl> op(ax, 0.5);
    rng_grid(2, 16);
    forall([&] {
        Vl x = a, y = b;
        bool c = op(x, y);
        MC_CHECK(x.size() == n1 && y.size() == n2, "inner-exchange:size", show(x));
        for (unsigned i = 0; i < std::min(n1, n2); ++i)
            MC_CHECK((x[i] == a[i] && y[i] == b[i]) || (x[i] == b[i] && y[i] == a[i]), "inner-exchange:material", show(x) << show(y));
        MC_CHECK(c == (genes(x) != genes(a)), "inner-exchange:flag", show(x));
        state(mix(hashv(x), hashv(y)));
    });
}
struct AddOne : public eoMonOp<double> { bool operator()(double& d) { if (!eo::rng.flip()) return false; d += 100; return true; } };
MC_SCENARIO("fixed-length-of-atoms")
{
    unsigned n = range(1, 3);
    Vl a = numbered(n, 1);
    AddOne ao;
    bool all = flag();
    unsigned k = range(1, 2);
    double rate = pick({0.0, 0.5, 1.0});
    eoFlOrAllMutation<Vl> opA(ao, rate);
    eoFlOrKMutation<Vl> opK(ao, k);
    rng_grid(6, 8);
    forall([&] {
        Vl x = a;
        bool c = all ? opA(x) : opK(x);
        MC_CHECK(c == (genes(x) != genes(a)), "fl-mutation:flag", show(a) << show(x));
        double total = 0;
        for (unsigned i = 0; i < n; ++i) {
            double d = x[i] - a[i];
            MC_CHECK(d == 0 || d == 100 || (!all && d == 200), "fl-mutation:material", show(x));
            total += d;
        }
        MC_CHECK(all || total <= 100 * k, "fl-mutation:count", show(x));
        MC_CHECK(!all || rate > 0 || total == 0, "fl-mutation:rate", show(x));
        state(hashv(x));
    });
}

// ---- integers through real operators -------------------------------------
typedef eoInt<double> IntSol;
MC_SCENARIO("real-to-int")
{
    long lo = pick({0L, 2L}), hi = pick({3L, 5L});
    eoIntInterval ib(lo, hi);
    unsigned n = 2;
    IntSol a(n, 0), b(n, 0);
    for (unsigned i = 0; i < n; ++i) a[i] = range(lo, hi);
    for (unsigned i = 0; i < n; ++i) b[i] = range(lo, hi);
    a.fitness(1); b.fitness(2);
    bool fold = flag();
    uint32_t which = choose(2);
    double eps = pick({0.4, 3.0, 9.0});
    rng_words({0x01000000u, 0x60000000u, 0xB0000000u, 0xFFFFFFFFu}, 8);
    if (which == 0) {
        eoUniformMutation<Real> m(eps, 0.5);
        typedef eoRealToIntMonOp<IntSol> Op;
        Op op(m, ib, fold ? Op::folds : Op::truncate);
        forall([&] {
            IntSol x = a;
            bool c = op(x);
            MC_CHECK(x.size() == n, "real-to-int-mon:size", show(x));
            MC_CHECK(c || V(x.begin(), x.end()) == V(a.begin(), a.end()), "real-to-int-mon:flag", show(a) << show(x));
            for (auto v : x) MC_CHECK(long(v) >= lo && long(v) <= hi, "real-to-int-mon:bounds", show(a) << " -> " << show(x) << " outside [" << lo << "," << hi << "]");
            for (unsigned i = 0; i < n; ++i) MC_CHECK(std::fabs(double(x[i]) - double(a[i])) <= eps + 0.5, "real-to-int-mon:range", show(a) << " -> " << show(x) << " eps " << eps);
            state(mix(hashv(a), hashv(x)));
        });
    } else {
        eoSegmentCrossover<Real> q(eps > 1 ? 0.5 : 0.0);
        typedef eoRealToIntQuadOp<IntSol> Op;
        Op op(q, ib, fold ? Op::folds : Op::truncate);
        forall([&] {
            IntSol x = a, y = b;
            bool c = op(x, y);
            MC_CHECK(c || (V(x.begin(), x.end()) == V(a.begin(), a.end()) && V(y.begin(), y.end()) == V(b.begin(), b.end())), "real-to-int-quad:flag", show(a) << show(x));
            for (auto v : x) MC_CHECK(long(v) >= lo && long(v) <= hi, "real-to-int-quad:bounds", show(a) << "x" << show(b) << " -> " << show(x));
            for (auto v : y) MC_CHECK(long(v) >= lo && long(v) <= hi, "real-to-int-quad:bounds", show(a) << "x" << show(b) << " -> " << show(y));
            for (unsigned i = 0; i < n; ++i) MC_CHECK(std::fabs(double(x[i] + y[i]) - double(a[i] + b[i])) <= 1.0 + 1e-9 || eps > 1, "real-to-int-quad:range", show(x) << show(y));
            state(mix(mix(hashv(a), hashv(x)), hashv(b)));
        });
    }
}
