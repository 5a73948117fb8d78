// Benchmark problems against their definitions.
#include "moeo.hpp"
#include "memfile.hpp"
#include <cmath>
#include <fstream>
using namespace std;
#include <eval/oneMaxEval.h>
#include <eval/royalRoadEval.h>
#include <eval/bbRoyalRoadEval.h>
#include <eval/longKPathEval.h>
#include <eval/maxSATeval.h>
#include <eval/nkLandscapesEval.h>
#include <eval/nkpLandscapesEval.h>
#include <eval/nkqLandscapesEval.h>
#include <eval/qapEval.h>
#include <eval/queenEval.h>
#include <eval/ubqpEval.h>
#include <DTLZ1Eval.h>
#include <DTLZ2Eval.h>
#include <DTLZ3Eval.h>
#include <DTLZ4Eval.h>
#include <DTLZ5Eval.h>
#include <DTLZ6Eval.h>
#include <DTLZ7Eval.h>

template <class E, class EV> static double value(EV& ev, E s)
{
    E before = s;
    ev(s);
    MC_CHECK(!s.invalid(), "no value", "the evaluation leaves the solution without a fitness");
    MC_CHECK(std::equal(s.begin(), s.end(), before.begin(), before.end()), "evaluation changes the solution", "");
    return double(s.fitness());
}
template <class E> static std::string txt(const E& s) { std::ostringstream o; for (auto x : s) o << x << ' '; return o.str(); }

// ---------------------------------------------------------------- bit strings
MC_SCENARIO("counting")
{
    unsigned n = mc::range(0, mc::tier(7, 10));
    Bit s = any_bits<Bit>(n);
    uint32_t v = num_of(s);
    mc::state(mc::mix(n, v));
    oneMaxEval<Bit> om;
    double ones = __builtin_popcount(v);
    MC_CHECK(value(om, s) == ones, "ones", txt(s));
    for (unsigned k = 1; k <= n + 1; ++k) {
        RoyalRoadEval<Bit> rr(k);
        unsigned want = 0;
        for (unsigned b = 0; (b + 1) * k <= n; ++b) { bool all = true; for (unsigned j = 0; j < k; ++j) all = all && s[b * k + j]; want += all; }
        MC_CHECK(value(rr, s) == want, "royal road", txt(s) << " blocks of " << k << " gives " << value(rr, s) << " for " << want);
        MC_CHECK(rr.blockSize() == k, "royal road", "block size");
    }
    // minimised types
    oneMaxEval<BitMin> omm; BitMin m = bits_of<BitMin>(n, v);
    MC_CHECK(value(omm, m) == ones, "ones", txt(s));
}
MC_SCENARIO("building_blocks")
{
    unsigned b = mc::range(1, 2), k = mc::range(1, mc::tier(2, 3)), t = mc::range(0, 2);
    BBRoyalRoadEval<Bit> ev(b, k);
    std::vector<std::vector<bool>> targets; std::vector<double> w;
    for (unsigned i = 0; i < t; ++i) {
        Bit g = any_bits<Bit>(k);
        std::vector<bool> tg(g.begin(), g.end());
        double x = mc::pick({1.0, 2.5, 0.25});
        targets.push_back(tg); w.push_back(x);
        ev.addTarget(tg, x);
    }
    MC_CHECK(ev.blockSize() == k && ev.nbBlocks() == b && ev.getTargets() == targets, "parameters", "");
    Bit s = any_bits<Bit>(b * k);
    double want = 0;
    for (unsigned i = 0; i < b; ++i) for (unsigned j = 0; j < t; ++j) {
        unsigned d = 0;
        for (unsigned x = 0; x < k; ++x) d += s[i * k + x] != targets[j][x];
        want += d ? 1.0 / (1 + d) : w[j];
    }
    mc::state(mc::mix(mc::mix(b * 100 + k * 10 + t, num_of(s)), uint64_t(want * 1000)));
    MC_CHECK(mc::close(value(ev, s), want, 1e-9), "building blocks", txt(s) << " gives " << value(ev, s) << " for " << want);
}
// the path built from its recursive definition
static std::vector<std::vector<bool>> path(unsigned l, unsigned k)
{
    std::vector<std::vector<bool>> p;
    if (l == 1) return {{false}, {true}};
    auto q = path(l - k, k);
    for (auto x : q) { x.insert(x.end(), k, false); p.push_back(x); }
    for (unsigned ones = 1; ones < k; ++ones) {
        auto x = q.back();
        for (unsigned j = 0; j < k; ++j) x.push_back(j < ones);
        p.push_back(x);
    }
    for (size_t i = q.size(); i-- > 0; ) { auto x = q[i]; x.insert(x.end(), k, true); p.push_back(x); }
    return p;
}
MC_SCENARIO("long_path")
{
    unsigned k = mc::range(1, 4), steps = mc::range(0, mc::tier(k == 1 ? 7 : k == 2 ? 5 : 3, k == 1 ? 11 : k == 2 ? 6 : k == 3 ? 4 : 3));
    unsigned l = 1 + k * steps;
    auto p = path(l, k);
    // the definition itself: neighbours on the path differ by one bit
    std::map<std::vector<bool>, unsigned> rank;
    for (unsigned i = 0; i < p.size(); ++i) rank[p[i]] = i;
    if (rank.size() != p.size()) mc::fail("oracle", "the path repeats a point");
    LongKPathEval<Bit> ev(k);
    uint32_t v = mc::choose(1u << l);
    Bit s = bits_of<Bit>(l, v);
    std::vector<bool> g(s.begin(), s.end());
    double want = rank.count(g) ? double(l + rank[g]) : double(l - __builtin_popcount(v));
    mc::state(mc::mix(l * 10 + k, v));
    MC_CHECK(value(ev, s) == want, "long path", txt(s) << " k " << k << " gives " << value(ev, s) << " for " << want);
    // and again after any other point was evaluated
    Bit o = bits_of<Bit>(l, ~v);
    value(ev, o);
    MC_CHECK(value(ev, s) == want, "long path history", txt(s));
}
// ---------------------------------------------------------------- NK landscapes
struct NK { unsigned n, k; std::vector<std::vector<unsigned>> link; std::vector<std::vector<double>> tab; };
static NK any_nk()
{
    NK x;
    x.n = mc::range(1, 3); x.k = mc::range(0, std::min(x.n - 1, mc::tier(1u, 2u)));
    unsigned cells = 1u << (x.k + 1);
    x.link.resize(x.n); x.tab.resize(x.n);
    unsigned shape = mc::choose(mc::tier(3, 4));
    for (unsigned i = 0; i < x.n; ++i) {
        x.link[i].push_back(i);
        if (x.k) {
            std::vector<unsigned> others;
            for (unsigned j = 0; j < x.n; ++j) if (j != i) others.push_back(j);
            if (x.k == 1) x.link[i].push_back(others[mc::choose(unsigned(others.size()))]);
            else { if (mc::flag()) std::reverse(others.begin(), others.end()); x.link[i].insert(x.link[i].end(), others.begin(), others.end()); }
        }
        for (unsigned j = 0; j < cells; ++j)
            x.tab[i].push_back(shape == 0 ? (j + 1) * 0.0625 + i * 0.25 : shape == 1 ? (j % 3) * 0.5 : shape == 2 ? (i + j) % 2 : 1.0 / (1 << (i + j)));
    }
    return x;
}
static std::string nk_text(const NK& x, const std::string& kind, const std::string& par)
{
    std::ostringstream o;
    unsigned c = mc::choose(3);
    for (unsigned i = 0; i < c; ++i) o << "c comment p NK 9 9\n";
    o << "p " << kind << " " << x.n << " " << x.k << par << "\np links\n";
    for (unsigned j = 0; j <= x.k; ++j) for (unsigned i = 0; i < x.n; ++i) o << x.link[i][j] << "\n";
    o << "p tables\n";
    for (unsigned j = 0; j < (1u << (x.k + 1)); ++j) { for (unsigned i = 0; i < x.n; ++i) o << x.tab[i][j] << " "; o << "\n"; }
    return o.str();
}
static double nk_value(const NK& x, const Bit& s)
{
    double a = 0;
    for (unsigned i = 0; i < x.n; ++i) {
        unsigned c = 0;
        for (unsigned j = 0; j <= x.k; ++j) if (s[x.link[i][j]]) c |= 1u << j;
        a += x.tab[i][c];
    }
    return a / x.n;
}
template <class EV> static NK copy_of(EV& ev)
{
    NK x; x.n = ev.N; x.k = ev.K; x.link.resize(x.n); x.tab.resize(x.n);
    for (unsigned i = 0; i < x.n; ++i) {
        x.link[i].assign(ev.links[i], ev.links[i] + x.k + 1);
        x.tab[i].assign(ev.tables[i], ev.tables[i] + (1u << (x.k + 1)));
    }
    return x;
}
template <class EV> static void same_values(EV& ev, const NK& x, const char* key)
{
    for (uint32_t v = 0; v < (1u << x.n); ++v) {
        Bit s = bits_of<Bit>(x.n, v);
        double got = value(ev, s), want = nk_value(x, s);
        mc::state(mc::mix(mc::mix(x.n * 10 + x.k, v), uint64_t(want * 1e6)));
        mc::step(1);
        MC_CHECK(mc::close(got, want, 1e-5), key, txt(s) << " N " << x.n << " K " << x.k << " gives " << got << " for " << want);
    }
}
template <class EV> static void through_a_file(EV& ev, const NK& x)
{
    MemFile f("");
    ev.save(f.path.c_str());
    EV again(f.path.c_str());
    MC_CHECK(again.N == x.n && again.K == x.k, "saved instance", "size");
    same_values(again, x, "saved instance");
    EV third; third.load(f.path);
    same_values(third, x, "saved instance");
}
MC_SCENARIO("nk_files")
{
    NK x = any_nk();
    unsigned kind = mc::choose(3);
    std::string par = kind == 0 ? "" : kind == 1 ? " 0.25" : " 4";
    MemFile f(nk_text(x, kind == 0 ? "NK" : kind == 1 ? "NKp" : "NKq", par));
    try {
        if (kind == 0) { nkLandscapesEval<Bit> ev(f.path.c_str()); same_values(ev, x, "instance file"); through_a_file(ev, x); }
        if (kind == 1) { nkpLandscapesEval<Bit> ev(f.path.c_str()); MC_CHECK(ev.p == 0.25, "instance file", "p"); same_values(ev, x, "instance file"); through_a_file(ev, x); }
        if (kind == 2) { nkqLandscapesEval<Bit> ev(f.path.c_str()); MC_CHECK(ev.q == 4, "instance file", "q"); same_values(ev, x, "instance file"); through_a_file(ev, x); }
    } catch (std::exception& e) { mc::fail("instance file refused", e.what()); }
}
static void structure(const NK& x, unsigned n, unsigned k, bool consecutive)
{
    MC_CHECK(x.n == n && x.k == k, "generated instance", "size");
    for (unsigned i = 0; i < n; ++i) {
        std::set<unsigned> s(x.link[i].begin(), x.link[i].end()), want;
        MC_CHECK(s.count(i), "generated links", "contribution " << i << " does not depend on its own bit");
        MC_CHECK(s.size() == k + 1, "generated links", "contribution " << i << " depends on " << s.size() << " bits instead of " << k + 1);
        MC_CHECK(*s.rbegin() < n, "generated links", "bit " << *s.rbegin());
        for (unsigned j = 0; j <= k; ++j) want.insert((i + j) % n);
        if (consecutive) MC_CHECK(s == want, "generated links", "contribution " << i << " is not over consecutive bits");
    }
}
MC_SCENARIO("nk_generated")
{
    unsigned n = mc::range(1, mc::tier(4, 5)), k = mc::range(0, n - 1);
    bool consecutive = mc::flag();
    unsigned kind = mc::choose(3);
    mc::rng_deviate(8, mc::tier(1, 2), n * k + 6, 5);
    double p = 0.5; unsigned q = 2 + mc::choose(2);
    NK x;
    if (kind == 0) { nkLandscapesEval<Bit> ev(n, k, consecutive); x = copy_of(ev); structure(x, n, k, consecutive); same_values(ev, x, "generated instance"); through_a_file(ev, x); }
    if (kind == 1) { nkpLandscapesEval<Bit> ev(n, k, p, consecutive); x = copy_of(ev); structure(x, n, k, consecutive); same_values(ev, x, "generated instance"); through_a_file(ev, x); }
    if (kind == 2) { nkqLandscapesEval<Bit> ev(n, k, q, consecutive); x = copy_of(ev); structure(x, n, k, consecutive); same_values(ev, x, "generated instance"); through_a_file(ev, x); }
    for (auto& t : x.tab) for (double c : t) {
        MC_CHECK(c >= 0 && (kind == 2 ? c <= 1 : c < 1), "contributions", "value " << c);
        if (kind == 2) MC_CHECK(c * (q - 1) == std::floor(c * (q - 1)), "contributions", "value " << c << " with " << q << " levels");
    }
}
// every other bit can be a partner of every bit
MC_SCENARIO("nk_partners")
{
    unsigned n = mc::range(2, 4), k = mc::range(1, n - 1);
    std::vector<std::set<unsigned>> seen(n);
    mc::forall([&] {
        mc::rng_deviate(12, 1, n * k, 5);
        nkLandscapesEval<Bit> ev(n, k);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 1; j <= k; ++j) seen[i].insert(ev.links[i][j]);
    });
    for (unsigned i = 0; i < n; ++i) {
        mc::state(mc::mix(n * 10 + k, i));
        MC_CHECK(seen[i].size() == n - 1, "partners", "bit " << i << " of " << n << " gets only " << mc::show(seen[i]));
    }
}
// the levels of neutral landscapes, one random word for all draws
MC_SCENARIO("nk_levels")
{
    unsigned cells = 240, w = mc::choose(cells);
    double u = (w + 0.5) / cells;
    mc::rng_words({uint32_t(u * 4294967296.0)}, 400);
    double p = mc::pick({0.0, 0.25, 0.8, 1.0});
    unsigned q = mc::range(2, 5);
    nkpLandscapesEval<Bit> a(2, 1, p, true);
    nkqLandscapesEval<Bit> b(2, 1, q, true);
    mc::state(mc::mix(w, q * 10 + uint64_t(p * 4)));
    for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 4; ++j) {
        double want = u < p ? 0 : u;
        MC_CHECK(mc::close(a.tables[i][j], want, 1e-6), "zero contributions", "p " << p << " draw " << u << " gives " << a.tables[i][j]);
        double level = std::floor(u * q) / (q - 1);
        MC_CHECK(mc::close(b.tables[i][j], level, 1e-9), "levels", "q " << q << " draw " << u << " gives " << b.tables[i][j]);
    }
}
// ---------------------------------------------------------------- satisfiability
static double sat_value(const std::vector<std::vector<int>>& f, const Bit& s)
{
    unsigned r = 0;
    for (auto& c : f) { bool ok = false; for (int l : c) ok = ok || (l > 0 ? bool(s[l - 1]) : !s[-l - 1]); r += ok; }
    return r;
}
static void sat_same(MaxSATeval<Bit>& ev, const std::vector<std::vector<int>>& f, unsigned n, const char* key)
{
    for (uint32_t v = 0; v < (1u << n); ++v) {
        Bit s = bits_of<Bit>(n, v);
        double got = value(ev, s), want = sat_value(f, s);
        mc::state(mc::mix(mc::mix(n, v), uint64_t(want)));
        MC_CHECK(got == want, key, txt(s) << " satisfies " << got << " for " << want);
    }
}
MC_SCENARIO("formulas")
{
    unsigned n = mc::range(1, mc::tier(2, 3)), m = mc::range(0, 2);
    std::vector<std::vector<int>> f(m);
    for (auto& c : f) for (unsigned i = 1; i <= n; ++i) { unsigned x = mc::choose(n < 3 ? 4 : 3); if (x == 1 || x == 3) c.push_back(int(i)); if (x == 2 || x == 3) c.push_back(-int(i)); }
    std::ostringstream o;
    unsigned lay = mc::choose(3);
    if (lay == 1) o << "c a comment\nc p cnf 9 9\n";
    o << "p cnf " << n << " " << m << "\n";
    for (auto& c : f) { for (int l : c) o << l << (lay == 2 ? "\n" : " "); o << "0\n"; }
    MemFile file(o.str());
    std::string path = file.path;
    MaxSATeval<Bit> ev(path);
    MC_CHECK(ev.nbVar == n && ev.nbClauses == m, "formula file", "size");
    sat_same(ev, f, n, "formula file");
    MemFile out("");
    std::string op = out.path;
    ev.save(op);
    MaxSATeval<Bit> again(op);
    sat_same(again, f, n, "saved formula");
}
MC_SCENARIO("random_formulas")
{
    unsigned n = mc::range(1, 4), m = mc::range(1, 2), k = mc::range(1, n);
    mc::rng_deviate(8, mc::tier(2, 3), 2 * m * k, 7);
    MaxSATeval<Bit> ev(n, m, k);
    std::vector<std::vector<int>> f;
    for (unsigned i = 0; i < m; ++i) {
        f.push_back(ev.clauses[i]);
        std::set<int> vars;
        for (int l : ev.clauses[i]) { MC_CHECK(l && std::abs(l) <= int(n), "random formula", "literal " << l); vars.insert(std::abs(l)); }
        MC_CHECK(ev.clauses[i].size() == k && vars.size() == k, "random formula", "clause " << mc::show(ev.clauses[i]) << " for " << k << " variables");
    }
    sat_same(ev, f, n, "random formula");
    MemFile out("");
    std::string op = out.path;
    ev.save(op);
    MaxSATeval<Bit> again(op);
    sat_same(again, f, n, "saved formula");
}
MC_SCENARIO("random_literals")
{
    unsigned n = mc::range(1, 4), k = mc::range(1, n);
    std::set<int> seen;
    mc::forall([&] { mc::rng_deviate(12, 2, 2 * k, 7); MaxSATeval<Bit> ev(n, 1, k); for (int l : ev.clauses[0]) seen.insert(l); });
    mc::state(mc::mix(n, k));
    MC_CHECK(seen.size() == 2 * n, "possible literals", "only " << mc::show(seen));
}
// ---------------------------------------------------------------- quadratic problems
MC_SCENARIO("quadratic_assignment")
{
    unsigned n = mc::range(1, mc::tier(4, 5)), shape = mc::choose(6);
    std::vector<std::vector<long>> A(n, std::vector<long>(n)), B = A;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
        A[i][j] = shape == 0 ? i * n + j : shape == 1 ? (i == j) : shape == 2 ? -long(i) + 3 * long(j) : shape == 3 ? (i < j) * 7 : shape == 4 ? 100000L * (i + 1) : long((i * 5 + j * 3) % 4);
        B[i][j] = shape == 0 ? (i + 1) * (j + 1) : shape == 1 ? i * n + j : shape == 2 ? long(i * j) - 2 : shape == 3 ? 1 + i + 10 * j : shape == 4 ? 100000L * (j + 2) : long((i + 2 * j) % 3);
    }
    std::ostringstream o;
    o << n << "\n";
    for (auto& r : A) { for (long x : r) o << x << " "; o << "\n"; }
    for (auto& r : B) { for (long x : r) o << x << " "; o << "\n"; }
    MemFile f(o.str());
    QAPeval<Perm> ev(f.path);
    MC_CHECK(ev.getNbVar() == int(n), "assignment", "size");
    auto pm = any_perm(n);
    Perm s(n, 0);
    for (unsigned i = 0; i < n; ++i) s[i] = int(pm[i]);
    double want = 0;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) want += double(A[i][j]) * double(B[pm[i]][pm[j]]);
    mc::state(mc::mix(n * 10 + shape, mc::hashv(pm)));
    MC_CHECK(value(ev, s) == want, "assignment", txt(s) << " costs " << value(ev, s) << " for " << want);
}
MC_SCENARIO("quadratic_binary")
{
    unsigned instances = mc::range(1, 2), which = mc::choose(instances), format = mc::choose(2);
    std::ostringstream o;
    o << instances << "\n";
    std::vector<std::vector<int>> Q;
    for (unsigned t = 0; t < instances; ++t) {
        unsigned n = t == which ? mc::range(1, mc::tier(3, 4)) : 2;
        unsigned shape = t == which ? mc::choose(4) : 0;
        std::vector<std::vector<int>> q(n, std::vector<int>(n, 0));
        for (unsigned i = 0; i < n; ++i) for (unsigned j = i; j < n; ++j) {
            int v = shape == 0 ? int(i * 3 + j * 5) - 4 : shape == 1 ? (i == j ? 0 : 2) : shape == 2 ? (i == j ? int(i) + 1 : 0) : -int(1 << (i + j));
            q[i][j] = v;
            q[j][i] = format == 0 || shape != 3 ? v : v + 1;   // a full matrix need not be symmetric
        }
        if (format == 0) {
            // any triangle may be listed
            bool lower = mc::flag();
            std::ostringstream e; unsigned count = 0;
            for (unsigned i = 0; i < n; ++i) for (unsigned j = i; j < n; ++j) if (q[i][j]) { ++count; e << (lower ? j + 1 : i + 1) << " " << (lower ? i + 1 : j + 1) << " " << q[i][j] << "\n"; }
            o << n << " " << count << "\n" << e.str();
        } else {
            o << n << "\n";
            for (auto& r : q) { for (int x : r) o << x << " "; o << "\n"; }
        }
        if (t == which) Q = q;
    }
    MemFile f(o.str());
    std::string path = f.path;
    UbqpEval<Bit> ev(path, format, which);
    unsigned n = unsigned(Q.size());
    MC_CHECK(ev.getNbVar() == int(n), "binary quadratic", "size");
    for (uint32_t v = 0; v < (1u << n); ++v) {
        Bit s = bits_of<Bit>(n, v);
        double want = 0;
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (s[i] && s[j]) want += Q[i][j];
        mc::state(mc::mix(mc::mix(n, v), uint64_t(want + 1000)));
        MC_CHECK(value(ev, s) == want, "binary quadratic", txt(s) << " gives " << value(ev, s) << " for " << want << " format " << format);
    }
}
MC_SCENARIO("queens")
{
    unsigned n = mc::range(1, mc::tier(6, 7));
    auto pm = any_perm(n, mc::choose(2));
    Perm s(n, 0);
    for (unsigned i = 0; i < n; ++i) s[i] = int(pm[i]);
    unsigned want = 0;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) want += std::abs(int(pm[i]) - int(pm[j])) == int(j - i);
    mc::state(mc::hashv(pm));
    queenEval<Perm> ev;
    MC_CHECK(value(ev, s) == want, "queens", txt(s) << " gives " << value(ev, s) << " for " << want);
}
// ---------------------------------------------------------------- DTLZ
static std::vector<double> dtlz(unsigned prob, const std::vector<double>& x, unsigned M, double alpha)
{
    const double pi = std::acos(-1.0);
    unsigned n = unsigned(x.size()), k = n - M + 1;
    std::vector<double> xm(x.begin() + (M - 1), x.end()), f(M);
    double g = 0;
    if (prob == 1 || prob == 3) { for (double v : xm) g += (v - .5) * (v - .5) - std::cos(20 * pi * (v - .5)); g = 100 * (k + g); }
    else if (prob == 2 || prob == 4 || prob == 5) for (double v : xm) g += (v - .5) * (v - .5);
    else if (prob == 6) for (double v : xm) g += std::pow(v, 0.1);
    else { for (double v : xm) g += v; g = 1 + 9.0 / k * g; }
    if (prob == 7) {
        double h = M;
        for (unsigned i = 0; i + 1 < M; ++i) { f[i] = x[i]; h -= x[i] / (1 + g) * (1 + std::sin(3 * pi * x[i])); }
        f[M - 1] = (1 + g) * h;
        return f;
    }
    std::vector<double> c, s;     // factors of the position variables
    for (unsigned i = 0; i + 1 < M; ++i) {
        double th = prob == 4 ? std::pow(x[i], alpha) * pi / 2 : prob < 5 || i == 0 ? x[i] * pi / 2 : pi / (4 * (1 + g)) * (1 + 2 * g * x[i]);
        c.push_back(prob == 1 ? x[i] : std::cos(th));
        s.push_back(prob == 1 ? 1 - x[i] : std::sin(th));
    }
    for (unsigned m = 0; m < M; ++m) {
        f[m] = (1 + g) * (prob == 1 ? 0.5 : 1);
        for (unsigned i = 0; i + m + 1 < M; ++i) f[m] *= c[i];
        if (m) f[m] *= s[M - 1 - m];
    }
    return f;
}
MC_SCENARIO("dtlz_problems")
{
    unsigned M = mc::range(2, mc::tier(3, 4)), n = M - 1 + mc::range(1, 2), prob = mc::range(1, 7);
    directions(M, (1u << M) - 1);
    double alpha = prob == 4 ? mc::pick({100.0, 2.0}) : 100;
    DTLZ s; std::vector<double> x;
    std::vector<double> menu = {0.0, 0.25, 0.5, 0.8, 1.0};
    for (unsigned i = 0; i < n; ++i) { double v = menu[mc::choose(mc::tier(M == 3 && n == 4 ? 4 : 5, M == 4 ? 3 : 5))]; x.push_back(v); s.push_back(v); }
    if (prob == 1) { DTLZ1Eval e; e(s); }
    if (prob == 2) { DTLZ2Eval e; e(s); }
    if (prob == 3) { DTLZ3Eval e; e(s); }
    if (prob == 4) { DTLZ4Eval e(alpha); e(s); }
    if (prob == 5) { DTLZ5Eval e; e(s); }
    if (prob == 6) { DTLZ6Eval e; e(s); }
    if (prob == 7) { DTLZ7Eval e; e(s); }
    auto want = dtlz(prob, x, M, alpha);
    MC_CHECK(!s.invalidObjectiveVector() && s.objectiveVector().size() == M, "objective vector", "");
    mc::state(mc::mix(prob * 10 + M, mc::hashv(x)));
    for (unsigned i = 0; i < M; ++i)
        MC_CHECK(mc::close(double(s.objectiveVector()[i]), want[i], 1e-6 * (1 + std::fabs(want[i]))), "DTLZ" + std::to_string(prob),
                 "objective " << i << " at " << mc::show(x) << " is " << double(s.objectiveVector()[i]) << " for " << want[i]);
}
