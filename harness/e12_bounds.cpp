// E12: bounds on reals and integers.
#include "common.hpp"
#include <utils/eoRealBounds.h>
#include <utils/eoIntBounds.h>
#include <utils/eoRealVectorBounds.h>
#include <es/eoRealInitBounded.h>
#include <es/eoEsChromInit.h>
#include <es/eoEsSimple.h>
#include <es/eoEsStdev.h>
#include <es/eoEsFull.h>
#include <memory>

static const double INF = std::numeric_limits<double>::infinity();
struct Spec { double lo, hi; };   // infinite ends mean none
static std::string text(const Spec& s) { std::ostringstream o; o.precision(17); o << "[" << s.lo << "," << s.hi << "]"; return o.str(); }

static double nearest(const Spec& s, double x) { return x < s.lo ? s.lo : x > s.hi ? s.hi : x; }
// reflect at the ends until inside
static double folded(const Spec& s, double x)
{
    if (x >= s.lo && x <= s.hi) return x;
    if (std::isinf(s.hi)) return 2 * s.lo - x;
    if (std::isinf(s.lo)) return 2 * s.hi - x;
    double w = s.hi - s.lo;
    if (w == 0) return s.lo;
    double t = std::fmod(x - s.lo, 2 * w); if (t < 0) t += 2 * w;
    return s.lo + (t <= w ? t : 2 * w - t);
}

template <class B> static void facts(const B& b, const Spec& s, const std::string& who)
{
    bool lo = !std::isinf(s.lo), hi = !std::isinf(s.hi);
    MC_CHECK(b.isMinBounded() == lo && b.isMaxBounded() == hi && b.isBounded() == (lo && hi) && b.hasNoBoundAtAll() == (!lo && !hi), "kind",
             who << " of " << text(s) << " says min " << b.isMinBounded() << " max " << b.isMaxBounded() << " both " << b.isBounded() << " none " << b.hasNoBoundAtAll());
    if (lo) MC_CHECK(double(b.minimum()) == s.lo, "ends", who << " of " << text(s) << " has minimum " << b.minimum());
    if (hi) MC_CHECK(double(b.maximum()) == s.hi, "ends", who << " of " << text(s) << " has maximum " << b.maximum());
    if (lo && hi) MC_CHECK(double(b.range()) == s.hi - s.lo, "range", who << " of " << text(s) << " has range " << b.range());
    if (!lo) { bool t = false; try { (void)b.minimum(); } catch (...) { t = true; } MC_CHECK(t, "ends", who << " of " << text(s) << " gives a minimum"); }
    if (!hi) { bool t = false; try { (void)b.maximum(); } catch (...) { t = true; } MC_CHECK(t, "ends", who << " of " << text(s) << " gives a maximum"); }
    if (!lo || !hi) { bool t = false; try { (void)b.uniform(); } catch (...) { t = true; } MC_CHECK(t, "unbounded sample", who << " of " << text(s) << " samples"); }
}
template <class B> static void probe(const B& b, const Spec& s, double x, const std::string& who)
{
    bool in = x >= s.lo && x <= s.hi;
    MC_CHECK(b.isInBounds(x) == in, "inside", who << " of " << text(s) << " says " << b.isInBounds(x) << " about " << x);
    double t = x; b.truncate(t);
    MC_CHECK(t == nearest(s, x), "truncate", who << " of " << text(s) << " truncates " << x << " to " << t);
    double f = x; b.foldsInBounds(f);
    std::ostringstream sx; sx.precision(17); sx << x << " to " << f;
    MC_CHECK(b.isInBounds(f), "fold outside", who << " of " << text(s) << " folds " << sx.str());
    if (in) MC_CHECK(f == x, "fold inside", who << " of " << text(s) << " folds " << sx.str());
    else if (std::fabs(x) <= 1e9) {
        double tol = 1e-9 * std::max(1.0, std::fabs(x));
        for (double e : { s.lo, s.hi }) if (!std::isinf(e)) tol = std::max(tol, 1e-9 * std::fabs(e));
        MC_CHECK(std::fabs(f - folded(s, x)) <= tol, "fold value", who << " of " << text(s) << " folds " << sx.str() << " instead of " << folded(s, x));
    }
    mc::state(mc::hash(text(s) + who + sx.str()));
    mc::step();
}

static std::vector<double> ends() { return { -3.7, -2, -0.1, 0, 0.1, 0.3, 1, 2.5, 1e10 }; }
static Spec any_spec(const std::vector<double>& e)
{
    int kind = mc::choose(4);
    if (kind == 0) return { -INF, INF };
    if (kind == 1) return { mc::pick(e), INF };
    if (kind == 2) return { -INF, mc::pick(e) };
    double a = mc::pick(e), b = mc::pick(e);
    mc::assume(a <= b);
    return { a, b };
}
static eoRealBounds* make(const Spec& s)
{
    bool lo = !std::isinf(s.lo), hi = !std::isinf(s.hi);
    if (lo && hi) return new eoRealInterval(s.lo, s.hi);
    if (lo) return new eoRealBelowBound(s.lo);
    if (hi) return new eoRealAboveBound(s.hi);
    return new eoRealNoBounds;
}
static std::vector<double> probes(const Spec& s)
{
    std::vector<double> v{ 0, -0.0, 1, -1, 0.5, 100, -100, 12345.678, -12345.678, 9.99e8, -9.99e8, 1.1e9, -1.1e9, 5e9, 1e300, -1e300 };
    for (double e : { s.lo, s.hi }) if (!std::isinf(e))
        for (double d : { 0.0, 0.1, 0.2, 0.25, 0.7, 1.0, 2.0, 3.3 }) { v.push_back(e + d); v.push_back(e - d); }
    for (double e : { s.lo, s.hi }) if (!std::isinf(e)) { v.push_back(std::nextafter(e, INF)); v.push_back(std::nextafter(e, -INF)); }
    if (!std::isinf(s.lo) && !std::isinf(s.hi)) {
        double w = s.hi - s.lo;
        for (int k = -12; k <= 12; ++k) for (double q : { 0.0, 0.25, 0.5, 0.9 }) v.push_back(s.lo + (k + q) * w);
        for (int k = -30; k <= 30; ++k) v.push_back(k * 0.1);
    }
    return v;
}
MC_SCENARIO("real bounds: every kind, every probe")
{
    Spec s = any_spec(ends());
    mc::rng_grid(4, 1);
    int how = mc::choose(4);
    std::unique_ptr<eoRealBounds> b(make(s));
    std::string who = "bounds";
    if (how == 1) { b.reset(b->dup()); who = "copy"; }
    if (how >= 2) {
        mc::assume(s.lo < s.hi);
        std::ostringstream o; o.precision(17); o << "[";
        if (std::isinf(s.lo)) o << "-inf"; else o << s.lo;
        o << ",";
        if (std::isinf(s.hi)) o << "+inf"; else o << s.hi;
        o << "]";
        auto* g = new eoGeneralRealBounds(o.str()); b.reset(g); who = "general bounds";
        if (how == 3) {
            auto* c = new eoGeneralRealBounds("[5,6]"); *c = *g;
            auto* d = new eoGeneralRealBounds(*c); delete c; b.reset(d); who = "copied general bounds";
        }
    }
    facts(*b, s, who);
    probe(*b, s, mc::pick(probes(s)), who);
}
MC_SCENARIO("integer bounds: every kind, every probe")
{
    std::vector<double> e{ -7, -2, -1, 0, 1, 3, 4, 3e9 };
    Spec s = any_spec(e); mc::assume(s.lo < s.hi);
    mc::rng_grid(4, 1);
    bool lo = !std::isinf(s.lo), hi = !std::isinf(s.hi);
    std::unique_ptr<eoIntBounds> b;
    if (lo && hi) b.reset(new eoIntInterval((long)s.lo, (long)s.hi));
    else if (lo) b.reset(new eoIntBelowBound((long)s.lo));
    else if (hi) b.reset(new eoIntAboveBound((long)s.hi));
    else b.reset(new eoIntNoBounds);
    std::string who = "bounds";
    int how = mc::choose(4);
    if (how == 1) { b.reset(b->dup()); who = "copy"; }
    if (how >= 2) {
        std::ostringstream o; b->printOn(o);
        auto* g = new eoGeneralIntBounds(o.str()); b.reset(g); who = "general bounds";
        if (how == 3) {
            auto* c = new eoGeneralIntBounds("[5,6]"); *c = *g;
            auto* d = new eoGeneralIntBounds(*c); delete c; b.reset(d); who = "copied general bounds";
        }
    }
    facts(*b, s, who);
    std::vector<double> v = probes(s);
    double x = mc::pick(v);
    probe(*b, s, x, who);
    if (std::fabs(x) < 1e12) {
        long i = (long)std::floor(x), t = i, f = i;
        b->truncate(t); b->foldsInBounds(f);
        MC_CHECK(double(t) == nearest(s, double(i)), "truncate integer", who << " of " << text(s) << " truncates " << i << " to " << t);
        MC_CHECK(b->isInBounds(double(f)), "fold integer outside", who << " of " << text(s) << " folds " << i << " to " << f);
        if (double(i) >= s.lo && double(i) <= s.hi) MC_CHECK(f == i, "fold integer inside", who << " of " << text(s) << " folds " << i << " to " << f);
        else if (std::labs(i) <= 1000000000) MC_CHECK(double(f) == folded(s, double(i)), "fold integer value", who << " of " << text(s) << " folds " << i << " to " << f);
    }
}

// ---- text -------------------------------------------------------------------
static std::string number(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static std::string lower(double x, bool wordy) { return std::isinf(x) ? (wordy ? "-infinity" : "-inf") : number(x); }
static std::string upper(double x, bool wordy) { return std::isinf(x) ? (wordy ? "+infinity" : "+inf") : number(x); }

MC_SCENARIO("general bounds read every written form")
{
    Spec s = any_spec({ -3.5, -1, 0, 2, 10 }); mc::assume(s.lo < s.hi);
    bool ints = mc::flag();
    if (ints) { if (!std::isinf(s.lo)) s.lo = std::floor(s.lo); if (!std::isinf(s.hi)) s.hi = std::floor(s.hi); mc::assume(s.lo < s.hi); }
    std::string sep = mc::pick(std::vector<std::string>{ ",", ";", " ", ", ", " ; " });
    bool par = mc::flag(), wordy = mc::flag(), lead = mc::flag(), stream = mc::flag();
    std::string t = std::string(lead ? " " : "") + (par ? "(" : "[") + (lead ? " " : "") + lower(s.lo, wordy) + sep + upper(s.hi, wordy) + (par ? ")" : "]");
    if (stream && sep.find(' ') != std::string::npos) mc::prune();   // a stream gives one word
    if (stream && lead) mc::prune();
    mc::state(mc::hash(t));
    try {
        if (ints) {
            eoGeneralIntBounds b(stream ? "[-4,9]" : t);
            if (stream) { std::istringstream is(t + " tail"); b.readFrom(is); std::string rest; is >> rest; MC_CHECK(rest == "tail", "text", "reading '" << t << "' leaves '" << rest << "'"); }
            facts(b, s, "int '" + t + "'");
            for (double x : { -5.0, 0.0, 5.0, 20.0 }) probe(b, s, x, "int text");
        } else {
            eoGeneralRealBounds b(stream ? "[-4,9]" : t);
            if (stream) { std::istringstream is(t + " tail"); b.readFrom(is); }
            facts(b, s, "real '" + t + "'");
            for (double x : { -5.0, 0.0, 5.5, 20.0 }) probe(b, s, x, "real text");
        }
    } catch (std::exception& e) { mc::fail("text refused", "'" + t + "' refused: " + e.what()); }
}
MC_SCENARIO("text that is not bounds is refused")
{
    std::string t = mc::pick(std::vector<std::string>{ "", " ", "3", "[", "[1", "[1]", "[1,2", "1,2", "[2,1]", "[1,1]" });
    mc::state(mc::hash(t));
    bool a = false, b = false;
    try { eoGeneralRealBounds g(t); } catch (std::exception&) { a = true; }
    try { eoGeneralIntBounds g(t); } catch (std::exception&) { b = true; }
    MC_CHECK(a && b, "bad text accepted", "'" << t << "' accepted as " << (a ? "" : "real ") << (b ? "" : "integer ") << "bounds");
}

// ---- vectors ----------------------------------------------------------------
struct Part { unsigned count; Spec s; };
static std::vector<Spec> expand(const std::vector<Part>& p) { std::vector<Spec> v; for (auto& x : p) for (unsigned i = 0; i < x.count; ++i) v.push_back(x.s); return v; }
static std::string written(const std::vector<Part>& p, const std::string& sep, bool par)
{
    std::string t;
    for (size_t i = 0; i < p.size(); ++i) {
        if (i) t += sep;
        if (p[i].count > 1) t += std::to_string(p[i].count);
        t += (par ? "(" : "[") + lower(p[i].s.lo, false) + "," + upper(p[i].s.hi, false) + (par ? ")" : "]");
    }
    return t;
}
static void vector_facts(eoRealVectorBounds& b, const std::vector<Spec>& want, const std::string& who)
{
    MC_CHECK(b.size() == want.size(), "vector size", who << " has " << b.size() << " bounds instead of " << want.size());
    bool all = true, none = true, ranges = true; double sum = 0;
    for (unsigned i = 0; i < want.size(); ++i) {
        bool lo = !std::isinf(want[i].lo), hi = !std::isinf(want[i].hi);
        all = all && lo && hi; none = none && !lo && !hi; ranges = ranges && lo && hi;
        if (ranges) sum += want[i].hi - want[i].lo;
        facts(*b[i], want[i], who + " at " + std::to_string(i));
        MC_CHECK(b.isMinBounded(i) == lo && b.isMaxBounded(i) == hi && b.isBounded(i) == (lo && hi) && b.hasNoBoundAtAll(i) == (!lo && !hi), "vector kind", who << " at " << i);
        if (lo) MC_CHECK(b.minimum(i) == want[i].lo, "vector ends", who << " at " << i << " has minimum " << b.minimum(i));
        if (hi) MC_CHECK(b.maximum(i) == want[i].hi, "vector ends", who << " at " << i << " has maximum " << b.maximum(i));
    }
    MC_CHECK(b.isBounded() == all && b.hasNoBoundAtAll() == none, "vector kind", who << " says bounded " << b.isBounded() << " unbounded " << b.hasNoBoundAtAll());
    if (ranges && !want.empty()) MC_CHECK(mc::close(b.averageRange(), sum / want.size()), "vector range", who << " has average range " << b.averageRange());
    // fold, truncate and judge whole vectors
    std::vector<double> values{ -6, -0.5, 0.5, 7.25 };
    for (unsigned r = 0; r < 8; ++r) {
        std::vector<double> x(want.size()), t, f; bool in = true;
        for (unsigned i = 0; i < x.size(); ++i) { x[i] = values[(r * (i + 1) + i) % 4]; if (x[i] < want[i].lo || x[i] > want[i].hi) in = false; }
        t = x; f = x;
        MC_CHECK(b.isInBounds(x) == in, "vector inside", who << " says " << b.isInBounds(x) << " about " << mc::show(x));
        b.truncate(t); b.foldsInBounds(f);
        for (unsigned i = 0; i < x.size(); ++i) {
            double t1 = x[i], f1 = x[i];
            b.truncate(i, t1); b.foldsInBounds(i, f1);
            MC_CHECK(t[i] == nearest(want[i], x[i]) && t1 == t[i], "vector truncate", who << " at " << i << " truncates " << x[i] << " to " << t[i] << " and " << t1);
            MC_CHECK(mc::close(f[i], folded(want[i], x[i])) && f1 == f[i], "vector fold", who << " at " << i << " folds " << x[i] << " to " << f[i] << " and " << f1);
            MC_CHECK(b.isInBounds(i, x[i]) == (x[i] >= want[i].lo && x[i] <= want[i].hi), "vector inside", who << " at " << i);
        }
        mc::state(mc::hashv(f)); mc::step();
    }
}
static Part any_part()
{
    static const std::vector<Spec> menu{ { -INF, INF }, { 1, INF }, { -INF, -1 }, { 0, 1 }, { -2, 3.5 } };
    Part p; p.count = 1 + mc::choose(3); p.s = mc::pick(menu); return p;
}
MC_SCENARIO("vector bounds read, print, copy and grow")
{
    std::vector<Part> p; int n = mc::range(1, 2);
    for (int i = 0; i < n; ++i) p.push_back(any_part());
    std::string sep = mc::pick(std::vector<std::string>{ "", ";", ",", " " }); bool par = mc::flag();
    std::string t = written(p, sep, par);
    std::vector<Spec> want = expand(p);
    eoRealVectorBounds b(t);
    vector_facts(b, want, "'" + t + "'");
    // printing and reading back
    std::ostringstream o; b.printOn(o);
    eoRealVectorBounds again(o.str());
    vector_facts(again, want, "'" + t + "' printed as '" + o.str() + "'");
    // a longer size keeps the bounds and repeats the last one
    unsigned size = unsigned(want.size()) + mc::choose(3);
    std::vector<Spec> grown = want; while (grown.size() < size) grown.push_back(want.back());
    eoRealVectorBounds copy(b);
    copy.adjust_size(size);
    vector_facts(copy, grown, "'" + t + "' adjusted to " + std::to_string(size));
    std::ostringstream o2; copy.printOn(o2);
    eoRealVectorBounds third(o2.str());
    vector_facts(third, grown, "'" + t + "' adjusted to " + std::to_string(size) + " printed as '" + o2.str() + "'");
    vector_facts(b, want, "original of the adjusted copy of '" + t + "'");
}
MC_SCENARIO("a copy survives changes of the original")
{
    std::vector<Part> p{ any_part() }, q{ any_part() };
    int ctor = mc::choose(3);
    std::unique_ptr<eoRealVectorBounds> b; std::vector<Spec> want;
    if (ctor == 0) { b.reset(new eoRealVectorBounds(written(p, ";", false))); want = expand(p); }
    if (ctor == 1) { b.reset(new eoRealVectorBounds(2, -1.0, 4.0)); want = { { -1, 4 }, { -1, 4 } }; }
    if (ctor == 2) { b.reset(new eoRealVectorBounds(std::vector<double>{ 0, -5, 1 }, std::vector<double>{ 1, 5, 3 })); want = { { 0, 1 }, { -5, 5 }, { 1, 3 } }; }
    vector_facts(*b, want, "original");
    eoRealVectorBounds c(*b);
    eoRealVectorBounds d(c);
    std::istringstream is(written(q, ";", false)); b->readFrom(is);
    // the memory of the old bounds is given other bounds
    std::vector<eoRealBounds*> filler; for (int i = 0; i < 6; ++i) { filler.push_back(new eoRealInterval(100, 200)); filler.push_back(new eoRealAboveBound(-77)); }
    vector_facts(c, want, "copy of re-read bounds");
    std::istringstream is2("[8,9]"); c.readFrom(is2);
    vector_facts(d, want, "copy of a re-read copy");
    std::vector<Spec> now = expand(q); while (now.size() < want.size()) now.push_back(now.back());
    vector_facts(*b, now, "re-read bounds");
    b.reset();
    vector_facts(d, want, "copy of deleted bounds");
    for (auto x : filler) delete x;
}
MC_SCENARIO("vector bounds built from objects")
{
    Spec s = any_spec({ -2, 0.5, 3 }), u = any_spec({ -2, 0.5, 3 }); mc::assume(s.lo < s.hi && u.lo < u.hi);
    std::unique_ptr<eoRealBounds> x(make(s)), y(make(u));
    eoRealVectorBounds two(*x, *y);
    vector_facts(two, { s, u }, "two bounds");
    unsigned dim = mc::range(1, 3);
    eoRealVectorBounds rep(dim, *x);
    vector_facts(rep, std::vector<Spec>(dim, s), "repeated bounds");
    std::ostringstream o; two.printOn(o); eoRealVectorBounds r(o.str());
    vector_facts(r, { s, u }, "two bounds printed as '" + o.str() + "'");
    eoRealVectorNoBounds no(dim);
    vector_facts(no, std::vector<Spec>(dim, { -INF, INF }), "no bounds");
}

// ---- sampling ---------------------------------------------------------------
MC_SCENARIO("samples stay inside and come from the given generator")
{
    static const std::vector<Spec> menu{ { 0, 1 }, { -2, 3.5 }, { 0.1, 0.3 }, { -7, -3 }, { 5, 1e10 } };
    Spec s = mc::pick(menu);
    int how = mc::choose(4);
    mc::rng_grid_edges(16, 4);
    eoRng other(3);
    std::unique_ptr<eoRealBounds> b(new eoRealInterval(s.lo, s.hi));
    if (how == 1) b.reset(new eoGeneralRealBounds("[" + number(s.lo) + "," + number(s.hi) + "]"));
    double v;
    if (how < 2) v = b->uniform();
    else { eoRealVectorBounds vb(3, *b); if (how == 2) v = vb.uniform(1); else { std::vector<double> all; vb.uniform(all); MC_CHECK(all.size() == 3, "sample size", all.size()); v = all[2]; } }
    MC_CHECK(v >= s.lo && v <= s.hi, "sample outside", text(s) << " sampled " << v);
    mc::state(mc::mix(mc::hash(text(s)), (uint64_t)(v * 1e6)));
}
MC_SCENARIO("integer samples stay inside and cover the range")
{
    long lo = mc::pick(std::vector<long>{ -5, 0, 2 }), w = mc::range(1, 5);
    bool general = mc::flag();
    eoIntInterval i(lo, lo + w); eoGeneralIntBounds g("[" + std::to_string(lo) + "," + std::to_string(lo + w) + "]");
    eoIntBounds& b = general ? (eoIntBounds&)g : (eoIntBounds&)i;
    std::map<long, double> seen; double sum = 0;
    mc::forall([&] {
        mc::rng_grid(60, 2);
        long v = b.random(); double u = b.uniform();
        MC_CHECK(v >= lo && v <= lo + w, "sample outside", "[" << lo << "," << lo + w << "] sampled " << v);
        MC_CHECK(u >= lo && u <= lo + w, "sample outside", "[" << lo << "," << lo + w << "] sampled " << u);
        seen[v] += mc::leaf_prob(); sum += mc::leaf_prob(); mc::state(mc::mix(v, uint64_t(u * 100)));
    });
    for (long v = lo; v < lo + w; ++v) MC_CHECK(seen[v] > 0, "sample missing", "[" << lo << "," << lo + w << "] never samples " << v);
    for (auto& a : seen) for (auto& c : seen) MC_CHECK(mc::close(a.second, c.second), "sample uneven", "[" << lo << "," << lo + w << "] samples " << a.first << " with " << a.second << " and " << c.first << " with " << c.second);
}
MC_SCENARIO("the generator argument is the one used")
{
    mc::rng_off();
    int how = mc::choose(6);
    eoRealInterval i(0, 1); eoGeneralRealBounds g("[0,1]"); eoRealVectorBounds v(2, 0.0, 1.0); eoIntInterval ii(0, 1000000); eoGeneralIntBounds ig("[0,1000000]");
    uint32_t seed = mc::pick(std::vector<uint32_t>{ 1, 2, 99 });
    auto draw = [&](eoRng& r) -> double {
        switch (how) {
            case 0: return i.uniform(r); case 1: return g.uniform(r); case 2: return v.uniform(1, r);
            case 3: { std::vector<double> x; v.uniform(x, r); return x[0] * 3 + x[1]; }
            case 4: return double(ii.random(r)) + ii.uniform(r); default: return double(ig.random(r)) + ig.uniform(r);
        }
    };
    eoRng a(seed), b(seed);
    eo::rng.reseed(5); double x = draw(a);
    eo::rng.reseed(6); double y = draw(b);
    MC_CHECK(x == y, "generator ignored", "case " << how << ": the same generator gives " << x << " and " << y);
    mc::state(mc::mix(how, uint64_t(x * 1e6)));
}
template <class E> static void init_case(const std::string& who)
{
    std::vector<Part> p;
    static const std::vector<Spec> menu{ { 0, 1 }, { -2, 3.5 }, { 0.1, 0.3 } };
    for (int i = 0; i < 2; ++i) p.push_back({ 1, mc::pick(menu) });
    eoRealVectorBounds b(written(p, ";", false));
    std::vector<Spec> want = expand(p);
    E x;
    if constexpr (std::is_same<E, Real>::value) { eoRealInitBounded<E> init(b); mc::rng_grid_edges(8, 3); init(x); }
    else { eoEsChromInit<E> init(b); mc::rng_grid_edges(4, 5); init(x); }
    MC_CHECK(x.size() == want.size(), "initialised size", who << " has " << x.size() << " values");
    for (size_t i = 0; i < x.size(); ++i) MC_CHECK(x[i] >= want[i].lo && x[i] <= want[i].hi, "initialised outside", who << " value " << i << " is " << x[i] << " in " << text(want[i]));
    MC_CHECK(x.invalid(), "initialised valid", who << " keeps a fitness");
    mc::state(mc::hashv(std::vector<long>{ long(x[0] * 1e6), long(x[1] * 1e6) }));
}
MC_SCENARIO("initialisation stays inside: real") { init_case<Real>("real"); }
MC_SCENARIO("initialisation stays inside: es simple") { init_case<eoEsSimple<double>>("es simple"); }
MC_SCENARIO("initialisation stays inside: es stdev") { init_case<eoEsStdev<double>>("es stdev"); }
MC_SCENARIO("initialisation stays inside: es full") { init_case<eoEsFull<double>>("es full"); }
