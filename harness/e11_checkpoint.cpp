// E11: checkpoints, statistics, monitors, counters.
#include "common.hpp"
#include "ind.hpp"
#include <utils/eoFDCStat.h>
#include <utils/eoPopStat.h>
#include <utils/eoScalarFitnessStat.h>
#include <utils/eoMOFitnessStat.h>
#include <utils/eoFuncPtrStat.h>
#include <utils/eoTimedMonitor.h>
#include <utils/eoFeasibleRatioStat.h>
#include <utils/eoGenCounter.h>
#include <utils/eoFileSnapshot.h>
#include <utils/eoLogMonitor.h>
#include <eoDualFitness.h>
#include <unistd.h>
#include <fstream>
#include <memory>

static clock_t cpu = 0; static time_t wall = 1000;
extern "C" clock_t clock(void) noexcept { return cpu; }
extern "C" time_t time(time_t* t) noexcept { if (t) *t = wall; return wall; }

// ---- call order -------------------------------------------------------------
static std::vector<std::string> calls;
static std::string seen(const eoPop<Bit>& p) { std::string s; for (auto& x : p) s += std::to_string(num_of(x)) + ","; return s; }
struct S : eoStat<Bit, int>
{
    std::string n; S(std::string n) : eoStat<Bit, int>(0, n), n(n) {}
    void operator()(const eoPop<Bit>& p) override { calls.push_back("stat " + n + " " + seen(p)); value()++; }
    void lastCall(const eoPop<Bit>& p) override { calls.push_back("last stat " + n + " " + seen(p)); }
};
struct SS : eoSortedStat<Bit, int>
{
    std::string n; SS(std::string n) : eoSortedStat<Bit, int>(0, n), n(n) {}
    static std::string look(const std::vector<const Bit*>& p) { std::string s; for (auto x : p) s += std::to_string(num_of(*x)) + ","; return s; }
    void operator()(const std::vector<const Bit*>& p) override { calls.push_back("sorted " + n + " " + look(p)); }
    void lastCall(const std::vector<const Bit*>& p) override { calls.push_back("last sorted " + n + " " + look(p)); }
};
struct U : eoUpdater { std::string n; U(std::string n) : n(n) {} void operator()() override { calls.push_back("updater " + n); } void lastCall() override { calls.push_back("last updater " + n); } };
struct M : eoMonitor { std::string n; M(std::string n) : n(n) {} eoMonitor& operator()() override { calls.push_back("monitor " + n); return *this; } void lastCall() override { calls.push_back("last monitor " + n); } };
struct C : eoContinue<Bit> { std::string n; bool answer = true; C(std::string n) : n(n) {} bool operator()(const eoPop<Bit>& p) override { calls.push_back("continuator " + n + " " + seen(p)); return answer; } };

MC_SCENARIO("every observer is called once, in order, on the population")
{
    calls.clear();
    C c0("0"), c1("1"); S s0("0"), s1("1"); SS o0("0"), o1("1"); U u0("0"), u1("1"); M m0("0"), m1("1");
    int ns = mc::choose(3), no = mc::choose(3), nu = mc::choose(3), nm = mc::choose(3), nc = mc::choose(2); bool chained = mc::flag();
    eoCheckPoint<Bit> cp(c0);
    if (nc) cp.add(c1);
    if (ns > 0) { if (chained) s0.addTo(cp); else cp.add(s0); } if (ns > 1) cp.add(s1);
    if (nm > 0) { if (chained) m0.addTo(cp); else cp.add(m0); } if (nm > 1) cp.add(m1);
    if (nu > 0) { if (chained) u0.addTo(cp); else cp.add(u0); } if (nu > 1) cp.add(u1);
    if (no > 0) { if (chained) o0.addTo(cp); else cp.add(o0); } if (no > 1) cp.add(o1);
    unsigned gens = mc::range(1, 2);
    for (unsigned g = 0; g < gens; ++g) {
        eoPop<Bit> p; unsigned n = mc::range(1, 3); std::vector<uint32_t> order;
        for (unsigned i = 0; i < n; ++i) { Bit b = bits_of<Bit>(3, (g + 1 + 2 * i) % 8); b.fitness(mc::choose(2)); p.push_back(b); }
        std::string now = seen(p);
        int ans = mc::choose(1 << (nc + 1)); c0.answer = ans & 1; c1.answer = nc ? ans >> 1 : true;
        calls.clear();
        bool go = cp(p);
        MC_CHECK(go == (c0.answer && c1.answer), "answer", "continuators answer " << c0.answer << (nc ? (c1.answer ? "1" : "0") : "") << ", the checkpoint answers " << go);
        MC_CHECK(seen(p) == now, "population changed", now << " became " << seen(p));
        // what has to be seen
        std::multiset<std::string> want, got(calls.begin(), calls.end());
        std::string best;
        for (int pass = 0; pass < (go ? 1 : 2); ++pass) {
            std::string l = pass ? "last " : "";
            for (int i = 0; i < ns; ++i) want.insert(l + "stat " + std::to_string(i) + " " + now);
            for (int i = 0; i < nu; ++i) want.insert(l + "updater " + std::to_string(i));
            for (int i = 0; i < nm; ++i) want.insert(l + "monitor " + std::to_string(i));
            if (!pass) for (int i = 0; i <= nc; ++i) want.insert("continuator " + std::to_string(i) + " " + now);
        }
        // sorted statistics: any order of equal individuals
        for (auto it = got.begin(); it != got.end();) if (it->find("sorted ") != std::string::npos) {
            std::vector<uint32_t> ids; std::string t = it->substr(it->rfind(' ') + 1), w; for (char ch : t) if (ch == ',') { ids.push_back(std::stoul(w)); w.clear(); } else w += ch;
            std::multiset<uint32_t> a(ids.begin(), ids.end()), b; for (auto& x : p) b.insert(num_of(x));
            MC_CHECK(a == b, "sorted population", now << " sorted as " << t);
            auto f = [&](uint32_t id) { for (auto& x : p) if (num_of(x) == id) return x.fitness(); return -1.0; };
            for (size_t i = 0; i + 1 < ids.size(); ++i) MC_CHECK(f(ids[i]) >= f(ids[i + 1]), "sorted order", now << " sorted as " << t);
            it = got.erase(it);
        } else ++it;
        long sorted = std::count_if(calls.begin(), calls.end(), [](const std::string& s) { return s.find("sorted ") == 0; }), lasts = std::count_if(calls.begin(), calls.end(), [](const std::string& s) { return s.find("last sorted ") == 0; });
        MC_CHECK(sorted == no && lasts == (go ? 0 : no), "sorted calls", sorted << " calls and " << lasts << " last calls of " << no << " sorted statistics");
        MC_CHECK(want == got, "calls", "calls are " << mc::show(calls) << " population " << now);
        // statistics, then updaters, then monitors, then continuators, then last calls
        auto rank = [](const std::string& s) { return s.find("last") == 0 ? 5 : s[0] == 's' ? 1 : s[0] == 'u' ? 2 : s[0] == 'm' ? 3 : 4; };
        for (size_t i = 0; i + 1 < calls.size(); ++i) MC_CHECK(rank(calls[i]) <= rank(calls[i + 1]), "order", calls[i + 1] << " called after " << calls[i]);
        for (auto& c : calls) mc::state(mc::hash(c)); mc::step(calls.size());
    }
}

// ---- statistics -------------------------------------------------------------
template <class T> static double raw(const T& x) { return double(x.fitness()); }
template <class T> static void stats_case(const std::string& who)
{
    static const std::vector<double> menu{ 0, 0.1, -1.5, 7, 1e6 };
    unsigned n = mc::range(1, mc::tier(4, 5)); std::vector<double> f(n); for (auto& x : f) x = mc::pick(menu);
    eoPop<T> p; for (double x : f) { T e; e.fitness(x); p.push_back(e); } std::vector<const T*> sp; p.sort(sp);
    std::vector<double> q = f; std::sort(q.begin(), q.end()); if (sign<T>() < 0) std::reverse(q.begin(), q.end());   // worst first
    std::string what = who + " " + mc::show(f);
    double sum = 0; for (double x : f) sum += x; double mean = sum / n;
    { eoAverageStat<T> s; s(p); MC_CHECK(mc::close(double(s.value()), mean), "average", what << ": average " << double(s.value()) << " instead of " << mean); }
    { eoBestFitnessStat<T> s; s(p); MC_CHECK(double(s.value()) == q[n - 1], "best", what << ": best " << double(s.value())); }
    if (n > 1) {
        double v = 0; for (double x : f) v += (x - mean) * (x - mean); double sd = std::sqrt(v / (n - 1));
        eoSecondMomentStats<T> s; s(p);
        double scale = 0; for (double x : f) scale = std::max(scale, std::fabs(x));
        MC_CHECK(mc::close(s.value().first, mean), "moments average", what << ": average " << s.value().first);
        MC_CHECK(std::fabs(s.value().second - sd) <= 1e-6 * std::max(1.0, scale), "standard deviation", what << ": deviation " << s.value().second << " instead of " << sd);
    }
    for (unsigned k = 0; k < n; ++k) {
        eoNthElementFitnessStat<T> s(k); s(sp); MC_CHECK(double(s.value()) == q[n - 1 - k], "nth best", what << ": element " << k << " has " << double(s.value()));
        eoNthElementStat<T> t{ int(k) }; t(p); MC_CHECK(double(t.value()) == q[k], "nth", what << ": element " << k << " has " << double(t.value()));
    }
    { eoNthElementFitnessStat<T> s(n); bool t = false; try { s(sp); } catch (std::exception&) { t = true; } MC_CHECK(t, "nth outside", what << ": element " << n << " was given"); }
    for (double r : { 0.0, 0.25, 0.5, 0.9 }) { eoNthElementStat<T> s(r); s(p); MC_CHECK(double(s.value()) == q[size_t(std::floor(n * r))], "quantile", what << ": quantile " << r << " is " << double(s.value())); }
    { eoInterquartileRangeStat<T> s; s(p); MC_CHECK(mc::close(std::fabs(double(s.value())), std::fabs(q[n / 4 * 3] - q[n / 4])), "interquartile range", what << ": range " << double(s.value())); }
    { eoScalarFitnessStat<T> s; s(sp); std::vector<double> w(q.rbegin(), q.rend()); MC_CHECK(s.value() == w, "all fitnesses", what << ": " << mc::show(s.value())); }
    { eoRealInterval in(-1, 5); eoRealVectorBounds b(1, in); eoScalarFitnessStat<T> s("x", b); s(sp); for (unsigned i = 0; i < n; ++i) MC_CHECK(s.value()[i] == std::min(5.0, std::max(-1.0, q[n - 1 - i])), "bounded fitnesses", what << ": " << mc::show(s.value())); }
    { eoFitnessStat<T> s; s(sp); for (unsigned i = 0; i < n; ++i) MC_CHECK(double(s.value()[i]) == q[n - 1 - i], "fitness vector", what); }
    for (unsigned i = 0; i < n; ++i) MC_CHECK(raw(p[i]) == f[i], "population changed", what);
    mc::state(mc::hashv(f)); mc::step(10);
}
MC_SCENARIO("fitness statistics, maximising") { stats_case<Max>("max"); }
MC_SCENARIO("fitness statistics, minimising") { stats_case<Min>("min"); }
MC_SCENARIO("best individual ever")
{
    eoBestIndividualStat<Bit> s; double best = -1e9; uint32_t id = 0;
    for (int g = 0; g < 3; ++g) {
        eoPop<Bit> p; for (int i = 0; i < 2; ++i) { Bit b = bits_of<Bit>(3, uint32_t(g * 2 + i)); b.fitness(mc::choose(3)); p.push_back(b); }
        const Bit& x = p.best_element(); if (x.fitness() > best) { best = x.fitness(); id = num_of(x); }
        s(p);
        MC_CHECK(s.value().fitness() == best && s.value().fitness() >= p[0].fitness() && s.value().fitness() >= p[1].fitness(), "best ever", "best " << s.value().fitness() << " instead of " << best << " (" << id << ")");
        mc::state(mc::mix(num_of(s.value()), uint64_t(best)));
    }
}
MC_SCENARIO("distances and correlations")
{
    unsigned n = mc::range(1, 3), len = mc::range(1, 3); eoPop<Bit> p; std::vector<Real> r;
    for (unsigned i = 0; i < n; ++i) { Bit b = any_bits<Bit>(len); b.fitness(mc::choose(3)); p.push_back(b); }
    auto ham = [&](const Bit& a, const Bit& b) { double d = 0; for (unsigned k = 0; k < len; ++k) d += a[k] != b[k]; return d; };
    double tot = 0; for (auto& a : p) for (auto& b : p) tot += ham(a, b);
    std::string what; for (auto& b : p) what += std::to_string(num_of(b)) + "(" + std::to_string(int(b.fitness())) + ") ";
    { eoDistanceStat<Bit> s; s(p); MC_CHECK(mc::close(s.value(), tot / (double(n) * n * len)), "diversity", what << ": " << s.value()); s(p); MC_CHECK(mc::close(s.value(), tot / (double(n) * n * len)), "diversity again", what << ": " << s.value()); }
    { eoAverageSizeStat<Bit> s; s(p); MC_CHECK(s.value() == len, "average size", s.value()); }
    eoHammingDistance<Bit> h; eoQuadDistance<Bit> qd; eoL1Distance<Bit> l1; eoFitnessDistance<Bit> fd;
    for (auto& a : p) for (auto& b : p) {
        MC_CHECK(h(a, b) == ham(a, b) && mc::close(qd(a, b), std::sqrt(ham(a, b))) && l1(a, b) == ham(a, b) && fd(a, b) == std::fabs(a.fitness() - b.fitness()), "distance", what);
    }
    for (int known = 0; known < 2; ++known) {
        Bit opt = bits_of<Bit>(len, 1); opt.fitness(5);
        eoFDCStat<Bit> s = known ? eoFDCStat<Bit>(h, opt) : eoFDCStat<Bit>(h);
        s(p);
        // correlation between fitness and distance to the best (any of the best ones)
        bool ok = false, defined = false; double got = s.value();
        for (auto& b : p) {
            if (!known && b.fitness() != p.best_element().fitness()) continue;
            double ad = 0, af = 0; std::vector<double> d; for (auto& x : p) { d.push_back(ham(x, known ? opt : b)); ad += d.back(); af += x.fitness(); }
            ad /= n; af /= n; double sd = 0, sf = 0, c = 0; for (unsigned i = 0; i < n; ++i) { sd += (d[i] - ad) * (d[i] - ad); sf += (p[i].fitness() - af) * (p[i].fitness() - af); c += (d[i] - ad) * (p[i].fitness() - af); }
            if (sd < 1e-12 || sf < 1e-12) { ok = true; continue; }
            defined = true; if (mc::close(got, c / std::sqrt(sd * sf))) ok = true;
        }
        MC_CHECK(ok, "fitness distance correlation", what << ": " << got << (defined ? "" : " (undefined)"));
    }
    mc::state(mc::hash(what));
}
MC_SCENARIO("dumps, feasible ratio and function statistics")
{
    unsigned n = mc::range(1, 3), many = mc::choose(5); eoPop<Bit> p; for (unsigned i = 0; i < n; ++i) { Bit b = bits_of<Bit>(3, i + 1); b.fitness(mc::choose(3)); p.push_back(b); }
    unsigned want = many && many < n ? many : n;
    auto line = [](const Bit& b) { std::ostringstream o; o << b; return o.str(); };
    { eoPopStat<Bit> s(many); s(p); s(p); std::string v = s.value(); for (unsigned i = 0; i < n; ++i) MC_CHECK((v.find(line(p[i]) + "\n") != std::string::npos) == (i < want), "dump", "dump of " << many << " of " << n << ": " << v); MC_CHECK((unsigned)std::count(v.begin(), v.end(), '\n') == want + 2, "dump lines", v); }
    { eoSortedPopStat<Bit> s(many); std::vector<const Bit*> sp; p.sort(sp); s(sp); s(sp); std::string v; for (unsigned i = 0; i < want; ++i) v += line(*sp[i]) + "\n"; MC_CHECK(s.value() == v, "sorted dump", s.value()); }
    typedef eoBit<eoMaximizingDualFitness> D; eoPop<D> d; unsigned ok = 0; for (unsigned i = 0; i < n; ++i) { D b(2, false); bool f = mc::flag(); ok += f; b.fitness(eoMaximizingDualFitness(i, f)); d.push_back(b); }
    { eoFeasibleRatioStat<D> s; s(d); MC_CHECK(mc::close(s.value(), double(ok) / n), "feasible ratio", ok << " of " << n << ": " << s.value()); }
    for (auto& b : d) {
        // what statistics compute with: the operands stay, the result keeps the feasibility of both
        eoMaximizingDualFitness f = b.fitness(), g = d[0].fitness(), sum = f + 2., less = f - 2., half = f / 2., both = f + g, diff = f - g;
        MC_CHECK(f == b.fitness() && g == d[0].fitness(), "dual operand", f.value());
        MC_CHECK(sum.value() == b.fitness().value() + 2 && less.value() == b.fitness().value() - 2 && half.value() == b.fitness().value() / 2, "dual arithmetic", sum.value() << " " << less.value() << " " << half.value());
        MC_CHECK(both.value() == f.value() + g.value() && diff.value() == f.value() - g.value() && both.is_feasible() == (f.is_feasible() && g.is_feasible()) && diff.is_feasible() == both.is_feasible() && sum.is_feasible() == f.is_feasible(), "dual arithmetic of two", both.value() << " " << diff.value());
        f += 2.; MC_CHECK(f == sum, "dual added", f.value()); f -= g; MC_CHECK(f.value() == sum.value() - g.value(), "dual subtracted", f.value()); f /= 4.; MC_CHECK(f.value() == (sum.value() - g.value()) / 4, "dual divided", f.value());
    }
    struct F { static double size(const eoPop<Bit>& p) { return double(p.size()); } }; struct G : eoUF<const eoPop<Bit>&, double> { double operator()(const eoPop<Bit>& p) override { return p.size() * 2.0; } } g;
    eoFunctorStore store; auto& a = makeFuncPtrStat<Bit, double>(&F::size, store); auto& b = makeFunctorStat<Bit, double>(g, store); a(p); b(p);
    MC_CHECK(a.value() == n && b.value() == 2.0 * n, "function statistic", a.value() << " " << b.value());
    mc::state(mc::mix(n, mc::mix(many, ok)));
}

// ---- monitors, counters -----------------------------------------------------
static std::string content(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
MC_SCENARIO("file monitors write one line per call")
{
    std::string f = "mon.txt"; { std::ofstream o(f); o << "old\n"; }
    bool keep = mc::flag(), header = mc::flag(), over = mc::flag(); std::string delim = mc::pick(std::vector<std::string>{ " ", ";" });
    unsigned np = mc::range(1, 2), n = mc::choose(4);
    eoValueParam<int> a(0, "first"); eoValueParam<double> b(0, "second");
    eoFileMonitor m(f, delim, keep, header, over); m.add(a); if (np > 1) m.add(b);
    std::string want = keep ? "old\n" : "";
    for (unsigned i = 0; i < n; ++i) {
        a.value() = mc::choose(2) + 3 * i; b.value() = 0.5 * i; m();
        if (header && !keep && !over && i == 0) want += "first" + (np > 1 ? delim + "second" : "") + "\n";
        std::string line = std::to_string(a.value()) + (np > 1 ? delim + b.getValue() : "") + "\n";
        want = over ? line : want + line;
        MC_CHECK(content(f) == want, "file monitor", "keep " << keep << " header " << header << " overwrite " << over << ": '" << content(f) << "' instead of '" << want << "'");
    }
    MC_CHECK(content(f) == want, "file monitor", "keep " << keep << " header " << header << " overwrite " << over << " after " << n << " calls: '" << content(f) << "' instead of '" << want << "'");
    unlink(f.c_str()); mc::state(mc::hash(want));
}
MC_SCENARIO("stream monitors write the current values")
{
    bool names = mc::flag(); unsigned n = mc::range(1, 3); std::ostringstream o; eoValueParam<int> a(0, "first"), b(0, "second");
    eoOStreamMonitor m(o, "\t", 8, ' ', names); m.add(a); m.add(b);
    for (unsigned i = 0; i < n; ++i) {
        a.value() = 10 + mc::choose(3); b.value() = 100 + i; std::string before = o.str(); m();
        std::string add = o.str().substr(before.size()), last; std::istringstream is(add); std::vector<std::string> lines; while (std::getline(is, last)) lines.push_back(last);
        MC_CHECK(lines.size() == (i ? 1u : 2u), "lines", "'" << add << "'");
        std::string x, y; { std::string l = lines.back(); l.erase(std::remove(l.begin(), l.end(), ' '), l.end()); std::istringstream w(l); w >> x >> y; }
        MC_CHECK(x == (names ? "first:" : "") + std::to_string(a.value()) && y == (names ? "second:" : "") + std::to_string(b.value()), "stream monitor", "'" << lines.back() << "'");
        if (!i) { std::istringstream h(lines[0]); h >> x >> y; MC_CHECK(x == "first" && y == "second", "stream header", "'" << lines[0] << "'"); }
        mc::state(mc::hash(add));
    }
}
MC_SCENARIO("snapshots write every vector at the requested rate")
{
    // the constructor removes old files of its own directory: the directory is inside the scratch directory of the run
    unsigned freq = mc::range(1, 3), nv = mc::range(1, 3), start = mc::choose(2), n = mc::range(1, 4);
    eoFileSnapshot s("snap", freq, "gen", " ", start);
    std::vector<std::unique_ptr<eoValueParam<std::vector<double>>>> v; for (unsigned i = 0; i < nv; ++i) { v.emplace_back(new eoValueParam<std::vector<double>>(std::vector<double>(), "v")); s.add(*v.back()); }
    bool refused = false; eoValueParam<double> bad(0, "bad"); try { s.add(bad); } catch (std::exception&) { refused = true; } MC_CHECK(refused, "snapshot type", "a scalar was accepted");
    for (unsigned g = 0; g < n; ++g) {
        for (unsigned i = 0; i < nv; ++i) v[i]->value() = { 1.0 * g + 10 * i, 2.5 + i };
        s();
        bool should = (start + g) % freq == 0; std::string f = s.getFileName();
        MC_CHECK((access(f.c_str(), F_OK) == 0) == should && s.hasChanged() == should, "snapshot rate", "frequency " << freq << " start " << start << " call " << g);
        if (should) {
            std::ostringstream w; for (unsigned k = 0; k < 2; ++k) { if (nv == 1) w << k << " " << v[0]->value()[k] << "\n"; else { for (unsigned i = 0; i < nv; ++i) w << v[i]->value()[k] << " "; w << "\n"; } }
            MC_CHECK(content(f) == w.str(), "snapshot content", "'" << content(f) << "' instead of '" << w.str() << "'"); unlink(f.c_str());
        }
        mc::state(mc::mix(g, mc::mix(freq, nv)));
    }
    rmdir("snap");
}
MC_SCENARIO("counters and timed monitors")
{
    unsigned start = mc::choose(3), n = mc::range(1, 5);
    eoGenCounter g(start); unsigned long c = 5; eoIncrementor<unsigned long> inc(c, 3); eoIncrementorParam<unsigned> ip("x", 2), ip2("y", 10, 4);
    for (unsigned i = 0; i < n; ++i) { g(); inc(); ip(); ip2(); MC_CHECK(g.value() == start + i && c == 5 + 3 * (i + 1) && ip.value() == 2 * (i + 1) && ip2.value() == 10 + 4 * (i + 1), "counter", g.value() << " " << c << " " << ip.value() << " " << ip2.value()); }
    cpu = 1000000; unsigned secs = mc::range(1, 2); eoTimedMonitor t(secs); calls.clear(); M m("t"); t.add(m); clock_t last = 0; bool first = true; size_t want = 0;
    for (unsigned i = 0; i < n; ++i) { cpu += clock_t(mc::choose(3)) * (CLOCKS_PER_SEC / 2 + 1); t(); if (first || (cpu - last) >= clock_t(secs * CLOCKS_PER_SEC)) { ++want; last = cpu; first = false; } MC_CHECK(calls.size() == want, "timed monitor", calls.size() << " calls instead of " << want); mc::state(mc::mix(want, cpu)); }
}

// Timers: whole seconds are reported, the rest is carried to the next measure.
#include <sys/resource.h>
#include <sys/time.h>
#include <utils/eoTimer.h>
static long user_us = 0, sys_us = 0, real_us = 0;
extern "C" int getrusage(__rusage_who_t, struct rusage* r) noexcept { memset(r, 0, sizeof *r); r->ru_utime.tv_sec = user_us / 1000000; r->ru_utime.tv_usec = user_us % 1000000; r->ru_stime.tv_sec = sys_us / 1000000; r->ru_stime.tv_usec = sys_us % 1000000; return 0; }
extern "C" int gettimeofday(struct timeval* t, void*) noexcept { t->tv_sec = real_us / 1000000; t->tv_usec = real_us % 1000000; return 0; }
MC_SCENARIO("timers add up to the elapsed time")
{
    using namespace mc;
    user_us = pick({0, 900000, 5999999}); sys_us = pick({0, 999999}); real_us = pick({0, 300000});
    eoTimerStat st; st.forceDoMeasure();
    unsigned n = range(1, 3); long u = 0, s = 0; long gu = 0, gs = 0; double w = 0;
    for (unsigned i = 0; i < n; ++i) {
        st.start("x");
        long du = pick({0, 200000, 1000000, 2600000}), ds = pick({0, 500001}), dw = pick({0, 800000, 1250000});
        user_us += du; sys_us += ds; real_us += dw; u += du; s += ds;
        st.stop("x");
        auto& t = st.stats()["x"];
        MC_CHECK(t.utime.size() == i + 1 && t.stime.size() == i + 1 && t.wtime.size() == i + 1, "timer", "number of measures");
        gu += t.utime[i]; gs += t.stime[i]; w = t.wtime[i];
        state(mix(mix(user_us, sys_us), mix(real_us, i)));
        MC_CHECK(gu == u / 1000000, "timer", "user time adds up to " << gu << " s after " << u << " us");
        MC_CHECK(gs == s / 1000000, "timer", "system time adds up to " << gs << " s after " << s << " us");
        MC_CHECK(close(w, dw / 1e6, 1e-9), "timer", "wall clock " << w << " for " << dw << " us");
        user_us += pick({0, 700000});      // time nobody measures
    }
    st.clear(); MC_CHECK(st.stats().empty(), "timer", "not cleared");
}

MC_SCENARIO("one statistic for the feasible, one for the others")
{
    typedef eoBit<eoMaximizingDualFitness> D;
    struct Sum : public eoUF<const eoPop<D>&, double> { unsigned calls = 0; double scale; Sum(double s) : scale(s) {} double operator()(const eoPop<D>& p) { ++calls; double s = 0; for (auto& d : p) s = 10 * s + d.fitness().value(); return scale * s; } };
    Sum good(1), bad(-1);
    eoFunctorStat<D, double> gs(good, "good"), bs(bad, "bad");
    std::string sep = mc::flag() ? " " : ";";
    eoDualStatSwitch<eoFunctorStat<D, double>> both(gs, bs, sep);
    eoDualPopSplit<D> split;
    MC_CHECK(both.value() == "?" + sep + "?" && both.longName() == "good" + sep + "bad", "split statistic", both.value() << " called " << both.longName());
    uint64_t h = 0;
    unsigned gc = 0, bc = 0;
    // two populations one after the other
    for (unsigned t = 0; t < 2; ++t) {
        eoPop<D> p;
        unsigned n = mc::range(0, mc::tier(3, 4));
        double g = 0, b = 0; unsigned gn = 0;
        std::vector<double> order, others;
        for (unsigned i = 0; i < n; ++i) {
            bool ok = mc::flag();
            D d(1, false);
            d.fitness(eoMaximizingDualFitness(i + 1, ok));
            p.push_back(d);
            if (ok) { g = 10 * g + i + 1; ++gn; order.push_back(i + 1); } else { b = 10 * b + i + 1; others.push_back(i + 1); }
            h = mc::mix(h, 2 * i + ok);
        }
        h = mc::mix(h, 100 + n);
        both(p);
        split(p);
        std::ostringstream want;
        if (gn) { want << g; ++gc; } else want << "?";
        want << sep;
        if (gn < n) { want << -b; ++bc; } else want << "?";
        MC_CHECK(both.value() == want.str(), "split statistic", "says " << both.value() << " instead of " << want.str());
        MC_CHECK(good.calls == gc && bad.calls == bc, "split statistic", "computed " << good.calls << " and " << bad.calls << " times");
        order.insert(order.end(), others.begin(), others.end());
        std::vector<double> merged, halves;
        for (auto& d : split.merge()) merged.push_back(d.fitness().value());
        for (auto& d : split.feasible()) halves.push_back(d.fitness().value());
        for (auto& d : split.unfeasible()) halves.push_back(d.fitness().value());
        MC_CHECK(split.feasible().size() == gn && halves == order && merged == order && p.size() == n, "split population", mc::show(merged) << " for " << mc::show(order));
    }
    mc::state(h);
}
