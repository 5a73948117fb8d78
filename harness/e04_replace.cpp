// E04: replacement, merge, reduce and split.
#include "ind.hpp"
#include <eoReduceSplit.h>
#include <eoReduceMergeReduce.h>
#include <eoMGGReplacement.h>
#include <eoG3Replacement.h>
#include <eoSurviveAndDie.h>
using namespace mc;
typedef std::vector<int> V;

static V cat(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static V first(V a, size_t n) { a.resize(std::min(n, a.size())); return a; }
static V rest(const V& a, size_t n) { return V(a.begin() + std::min(n, a.size()), a.end()); }

// parents are numbered from 0, offspring from 100
template <class T> struct Case
{
    V pf, of; eoPop<T> par, off;
    Case(int pmin, int pmax, int omin, int omax, int vmax)
    {
        pf = any_fit(pmin, pmax, vmax); of = any_fit(omin, omax, vmax);
        par = make_pop<T>(pf); off = make_pop<T>(of, 100);
    }
    // every member of `p` is a parent or an offspring with its own fitness, and no individual occurs twice
    void members(const eoPop<T>& p, const std::string& who) const
    {
        std::set<int> seen;
        for (auto& x : p) {
            bool known = x.id >= 100 ? x.id - 100 < int(of.size()) : x.id >= 0 && x.id < int(pf.size());
            MC_CHECK(known && !x.invalid(), who + ":foreign", "the result holds an individual that was neither parent nor offspring");
            MC_CHECK(double(x.fitness()) == (x.id >= 100 ? of[x.id - 100] : pf[x.id]), who + ":fitness", "individual " << x.id << " changed its fitness");
            MC_CHECK(seen.insert(x.id).second, who + ":twice", "individual " << x.id << " occurs twice; parents " << show(pf) << " offspring " << show(of));
        }
    }
    void size(const eoPop<T>& p, size_t n, const std::string& who) const
    {
        MC_CHECK(p.size() == n, who + ":size", "population of " << p.size() << " instead of " << n << "; parents " << show(pf) << " offspring " << show(of));
    }
    void equal(const eoPop<T>& p, const V& want, const std::string& who) const
    {
        V a = sorted<T>(fits(p)), b = sorted<T>(want);
        MC_CHECK(a == b, who + ":survivors", "parents " << show(pf) << " offspring " << show(of) << " gave " << show(a) << " instead of " << show(b));
        state(mix(mix(hash(who), hashv(a)), mix(hashv(pf), hashv(of))));
    }
    int best(const V& f) const { return sign<T>() * sorted<T>(f)[0]; }
};
// distribution of the surviving fitness values
typedef std::map<V, double> Dist;
static void compare(const Dist& got, const Dist& want, const std::string& who, double eps = 1e-9)
{
    Dist all(got);
    all.insert(want.begin(), want.end());
    for (auto& x : all) {
        double g = got.count(x.first) ? got.at(x.first) : 0, w = want.count(x.first) ? want.at(x.first) : 0;
        MC_CHECK(std::fabs(g - w) <= eps, who + ":probability", "survivors " << show(x.first) << " have probability " << g << " instead of " << w);
    }
}

template <class T> static void basic()
{
    Case<T> c(1, 3, 0, 4, 2);
    size_t n = c.pf.size(), m = c.of.size();
    eoPop<T> p = c.par, o = c.off;
    int which = range(0, 3);
    quiet();
    rng_fixed(1);
    bool thrown = false;
    if (which == 0) {
        eoGenerationalReplacement<T> r; r(p, o);
        c.members(p, "generational"); c.size(p, m, "generational"); c.equal(p, c.of, "generational");
        for (auto& x : p) MC_CHECK(x.id >= 100, "generational:parent", "a parent survived");
    } else if (which == 1) {
        eoPlusReplacement<T> r; r(p, o);
        c.members(p, "plus"); c.size(p, n, "plus"); c.equal(p, first(sorted<T>(cat(c.pf, c.of)), n), "plus");
    } else if (which == 2) {
        eoCommaReplacement<T> r;
        try { r(p, o); } catch (eoException&) { thrown = true; } catch (std::exception&) { thrown = true; }
        MC_CHECK(thrown == (m < n), "comma:refuse", "with " << n << " parents and " << m << " offspring");
        if (!thrown) {
            c.members(p, "comma"); c.size(p, n, "comma"); c.equal(p, first(sorted<T>(c.of), n), "comma");
            for (auto& x : p) MC_CHECK(x.id >= 100, "comma:parent", "a parent survived");
        }
    } else {
        eoSSGAWorseReplacement<T> r;
        try { r(p, o); } catch (std::exception&) { thrown = true; }
        MC_CHECK(thrown == (m > n), "ssga-worse:refuse", "with " << n << " parents and " << m << " offspring");
        if (!thrown) { c.members(p, "ssga-worse"); c.size(p, n, "ssga-worse"); c.equal(p, cat(first(sorted<T>(c.pf), n - m), c.of), "ssga-worse"); }
    }
    step();
    sample("plus, comma, generational and worst replacement for every parent and offspring fitness vector");
}
MC_SCENARIO("basic") { basic<Max>(); }
MC_SCENARIO("basic-min") { basic<Min>(); }

// survivors of an EP tournament, by brute force over all competitors
template <class T> static Dist ep_model(const V& f, size_t keep, unsigned t)
{
    size_t n = f.size(), per = 1, all = 1;
    for (unsigned i = 0; i < t; ++i) per *= n;
    for (size_t i = 0; i < n; ++i) all *= per;
    Dist d;
    for (size_t k = 0; k < all; ++k) {
        size_t x = k;
        std::vector<std::pair<double, int>> s;
        for (size_t i = 0; i < n; ++i) {
            double sc = 0;
            for (unsigned j = 0; j < t; ++j, x /= n) { int a = sign<T>() * f[i], b = sign<T>() * f[x % n]; sc += a > b ? 1 : a == b ? .5 : 0; }
            s.push_back({sc, sign<T>() * f[i]});
        }
        std::sort(s.rbegin(), s.rend());
        V v; for (size_t i = 0; i < keep; ++i) v.push_back(sign<T>() * s[i].second);
        d[sorted<T>(v)] += 1.0 / all;
    }
    return d;
}
template <class T> static void ep()
{
    Case<T> c(1, 2, 1, tier(1, 2), 2);
    size_t n = c.pf.size(), m = c.of.size();
    rng_grid(unsigned(n + m), 16);
    Dist got;
    uint64_t ends = forall([&] {
        eoPop<T> p = c.par, o = c.off;
        eoEPReplacement<T> r(2);
        r(p, o);
        c.members(p, "ep"); c.size(p, n, "ep");
        got[sorted<T>(fits(p))] += leaf_prob();
        step();
    });
    MC_CHECK(ends, "ep:endless", "");
    compare(got, ep_model<T>(cat(c.of, c.pf), n, 2), "ep");
    for (auto& x : got) state(mix(hashv(x.first), mix(hashv(c.pf), hashv(c.of))));
}
MC_SCENARIO("ep") { ep<Max>(); }
MC_SCENARIO("ep-min") { ep<Min>(); }

// one removal by an inverse tournament of two
template <class T> static Dist loser_model(const V& f, double r, bool distinct)
{
    Dist d; size_t n = f.size();
    auto without = [&](size_t i) { V v(f); v.erase(v.begin() + i); return sorted<T>(v); };
    double w = 1.0 / (distinct ? n * (n - 1) : n * n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            if (distinct && i == j) continue;
            bool iWorse = sign<T>() * f[i] < sign<T>() * f[j];
            d[without(iWorse ? i : j)] += w * r;
            d[without(iWorse ? j : i)] += w * (1 - r);
        }
    return d;
}
template <class T> static void ssga_tournament()
{
    Case<T> c(1, tier(3, 4), 0, 2, 2);
    size_t n = c.pf.size(), m = c.of.size();
    assume(m <= n);
    bool det = flag();
    double rate = det ? 1 : pick({0.75, 1.0});
    int t = det ? range(2, 3) : 0;
    std::string who = det ? "ssga-det" : "ssga-stoch";
    rng_grid(det ? unsigned(std::max<size_t>(n, 2)) : m > 1 ? 4 : 12, det ? 9 : 6);
    V ps = sorted<T>(c.pf);
    bool unique_best = n == 1 || ps[0] != ps[1];
    Dist got; double mass = 0;
    quiet();
    uint64_t ends = forall([&] {
        Mute mute;
        eoPop<T> p = c.par, o = c.off;
        if (det) { eoSSGADetTournamentReplacement<T> r(t); r(p, o); }
        else { eoSSGAStochTournamentReplacement<T> r(rate); r(p, o); }
        c.members(p, who); c.size(p, n, who);
        V left; size_t offs = 0; bool best = false;
        for (auto& x : p) { if (x.id >= 100) ++offs; else { left.push_back(c.pf[x.id]); best |= c.pf[x.id] == ps[0]; } }
        MC_CHECK(offs == m, who + ":offspring", offs << " of " << m << " offspring entered the population");
        if (det && m < n) MC_CHECK(best || (!unique_best && m > 1), who + ":best", "the best of " << show(c.pf) << " was eliminated");
        got[sorted<T>(left)] += leaf_prob(); mass += leaf_prob();
        state(mix(hashv(sorted<T>(left)), mix(hashv(c.pf), m)));
        step();
    });
    MC_CHECK(ends, who + ":endless", "never ends");
    if (m == 1 && n > 1 && (!det || t == 2)) {
        for (auto& x : got) x.second /= mass;
        compare(got, loser_model<T>(c.pf, rate, det), who, det ? 0.01 : 1e-9);
    }
}
MC_SCENARIO("ssga-tournaments") { ssga_tournament<Max>(); }
MC_SCENARIO("ssga-tournaments-min") { ssga_tournament<Min>(); }

template <class T> static void weak_elitist()
{
    Case<T> c(1, 3, 1, 3, 2);
    size_t n = c.pf.size(), m = c.of.size();
    int which = range(0, 2);
    assume(which == 0 || (which == 1 ? m >= n : m <= n));
    rng_fixed(1);
    eoGenerationalReplacement<T> g; eoCommaReplacement<T> co; eoSSGAWorseReplacement<T> w;
    eoReplacement<T>& in = which == 0 ? static_cast<eoReplacement<T>&>(g) : which == 1 ? static_cast<eoReplacement<T>&>(co) : w;
    eoPop<T> p1 = c.par, o1 = c.off, p = c.par, o = c.off;
    in(p1, o1);
    eoWeakElitistReplacement<T> r(in);
    r(p, o);
    c.members(p, "weak-elitist"); c.size(p, p1.size(), "weak-elitist");
    V inner = sorted<T>(fits(p1));
    int champ = sorted<T>(c.pf)[0];
    if (sign<T>() * champ > sign<T>() * inner[0]) inner.back() = champ;
    c.equal(p, inner, "weak-elitist");
    step();
}
MC_SCENARIO("weak-elitist") { weak_elitist<Max>(); }
MC_SCENARIO("weak-elitist-min") { weak_elitist<Min>(); }

template <class T> static void rmr()
{
    Case<T> c(1, 3, 1, 3, 2);
    size_t n = c.pf.size(), m = c.of.size();
    unsigned elite = range(0, int(n)), rp = range(0, 3), ro = range(1, int(m));
    bool strong = flag();
    assume(rp <= n - elite);
    assume(rp + ro >= (strong ? n - elite : n));
    quiet();
    rng_fixed(1);
    eoTruncate<T> tr; eoLinearTruncate<T> lt;
    // eoHowMany(0) is a rate of 0
    eoReduceMergeReduce<T> r(eoHowMany(int(elite)), strong, eoHowMany(int(rp)), tr, eoHowMany(int(ro)), lt, tr);
    eoPop<T> p = c.par, o = c.off;
    r(p, o);
    std::string who = strong ? "strong-elitism" : "weak-elitism";
    c.members(p, who); c.size(p, n, who);
    V ps = sorted<T>(c.pf), os = sorted<T>(c.of);
    V merged = sorted<T>(cat(first(rest(ps, elite), rp), first(os, ro)));
    if (strong) {
        c.equal(p, cat(first(ps, elite), first(merged, n - elite)), who);
    } else {
        V f = first(merged, n), got = sorted<T>(fits(p));
        if (elite == 0) c.equal(p, f, who);
        else {
            MC_CHECK(sign<T>() * got[0] >= sign<T>() * ps[0], who + ":best", "best parent " << ps[0] << " best survivor " << got[0]);
            if (sign<T>() * ps[0] <= sign<T>() * f[elite - 1]) c.equal(p, f, who);
            // elite parents better than every other survivor must all be there
            size_t k = 0;
            while (k < elite && sign<T>() * ps[k] > sign<T>() * f[0]) ++k;
            for (size_t i = 0; i < k; ++i)
                MC_CHECK(got[i] == ps[i], who + ":elite", elite << " elite of " << show(ps) << " against " << show(f) << " left " << show(got));
            if (2 * elite <= n + 1) {                 // nobody better than the elite is overwritten
                V want(f); size_t s = 0;
                while (s < elite && sign<T>() * ps[s] > sign<T>() * f[elite - 1]) ++s;
                for (size_t i = 0; i < s; ++i) want[n - 1 - i] = ps[i];
                c.equal(p, want, who);
            }
        }
    }
    step();
    sample("elitism by reduce, merge, reduce with all counts");
}
MC_SCENARIO("reduce-merge-reduce") { rmr<Max>(); }
MC_SCENARIO("reduce-merge-reduce-min") { rmr<Min>(); }

// G3: some N parents leave, the best N of them and the offspring come back
template <class T> static void g3()
{
    Case<T> c(2, 4, 0, 3, 2);
    size_t n = c.pf.size(); int k = range(1, 2);
    quiet();
    rng_grid(4, 8);
    forall([&] {
        eoPop<T> p = c.par, o = c.off;
        eoG3Replacement<T> r{eoHowMany(k)};
        r(p, o);
        c.members(p, "g3"); c.size(p, n, "g3");
        V got = sorted<T>(fits(p));
        bool ok = false;
        for (unsigned mask = 0; mask < (1u << n) && !ok; ++mask) {
            if (__builtin_popcount(mask) != k) continue;
            V out, in;
            for (size_t i = 0; i < n; ++i) (mask >> i & 1 ? out : in).push_back(c.pf[i]);
            ok = sorted<T>(cat(in, first(sorted<T>(cat(out, c.of)), k))) == got;
        }
        MC_CHECK(ok, "g3:survivors", "parents " << show(c.pf) << " offspring " << show(c.of) << " gave " << show(got));
        MC_CHECK(c.best(got) >= c.best(c.pf), "g3:best", "the best parent was lost");
        state(mix(hashv(got), mix(hashv(c.pf), hashv(c.of))));
        step();
    });
}
MC_SCENARIO("g3") { g3<Max>(); }
MC_SCENARIO("g3-min") { g3<Min>(); }

// MGG: N parents leave, the best offspring and N-1 of the others come back
template <class T> static void mgg()
{
    Case<T> c(2, 4, 1, tier(2, 3), 2);
    size_t n = c.pf.size(); int k = range(2, 2);
    quiet();
    rng_grid(12, 8);
    forall([&] {
        eoPop<T> p = c.par, o = c.off;
        eoMGGReplacement<T> r(eoHowMany(k), 2);
        r(p, o);
        c.members(p, "mgg"); c.size(p, n, "mgg");
        bool has = false;
        int bo = sorted<T>(c.of)[0];
        size_t parents = 0;
        for (auto& x : p) { has |= x.id >= 100 && c.of[x.id - 100] == bo; parents += x.id < 100; }
        MC_CHECK(has, "mgg:best-offspring", "the best offspring of " << show(c.of) << " did not survive");
        MC_CHECK(parents >= n - k, "mgg:parents", "only " << parents << " of " << n << " parents are left");
        state(mix(hashv(sorted<T>(fits(p))), mix(hashv(c.pf), hashv(c.of))));
        step();
    });
}
MC_SCENARIO("mgg") { mgg<Max>(); }
MC_SCENARIO("mgg-min") { mgg<Min>(); }

template <class T> static void sad()
{
    Case<T> c(1, 3, 1, 3, 2);
    int n = int(c.pf.size()), m = int(c.of.size());
    int sp = range(0, n), dp = range(0, 2), so = range(0, m), dof = range(0, 2);
    assume(sp + so <= n);
    int dpe = std::min(dp, n - sp), doe = std::min(dof, m - so);
    V ps = sorted<T>(c.pf), os = sorted<T>(c.of);
    V pool = sorted<T>(cat(V(ps.begin() + sp, ps.end() - dpe), V(os.begin() + so, os.end() - doe)));
    int want = n - sp - so;
    quiet();
    rng_fixed(1);
    eoPop<T> p = c.par, o = c.off;
    eoDeterministicSaDReplacement<T> r(sp, dp, so, dof, false);
    bool thrown = false;
    try { r(p, o); } catch (std::exception&) { thrown = true; }
    MC_CHECK(thrown == (int(pool.size()) < want), "survive-and-die:refuse", "left " << pool.size() << " needed " << want);
    if (thrown) return;
    c.members(p, "survive-and-die"); c.size(p, n, "survive-and-die");
    c.equal(p, cat(cat(first(ps, sp), first(os, so)), first(pool, want)), "survive-and-die");
    step();
}
MC_SCENARIO("survive-and-die") { sad<Max>(); }
MC_SCENARIO("survive-and-die-min") { sad<Min>(); }

template <class T> static void merges()
{
    Case<T> c(1, 4, 0, 2, 2);
    size_t n = c.pf.size();
    int which = range(0, 3);
    eoPop<T> o = c.off;
    const eoPop<T>& p = c.par;
    quiet();
    rng_fixed(1);
    if (which == 0) {
        int k = range(1, 5); bool thrown = false;
        eoElitism<T> e(k, false);
        try { e(p, o); } catch (std::exception&) { thrown = true; }
        MC_CHECK(thrown == (k > int(n)), "elitism:refuse", "elite of " << k << " from " << n);
        if (!thrown) { c.members(o, "elitism"); c.equal(o, cat(first(sorted<T>(c.pf), k), c.of), "elitism"); }
    } else if (which == 1) {
        int q = range(0, 4); eoElitism<T> e(q / 4.0); e(p, o);
        c.members(o, "elitism-rate"); c.equal(o, cat(first(sorted<T>(c.pf), size_t(q / 4.0 * n)), c.of), "elitism-rate");
    } else if (which == 2) { eoNoElitism<T> e; e(p, o); c.members(o, "no-elitism"); c.equal(o, c.of, "no-elitism"); }
    else { eoPlus<T> e; e(p, o); c.members(o, "plus-merge"); c.equal(o, cat(c.pf, c.of), "plus-merge"); }
    for (size_t i = 0; i < n; ++i) MC_CHECK(p[i].id == int(i), "merge:source", "the parents were reordered");
    step();
}
MC_SCENARIO("merges") { merges<Max>(); }
MC_SCENARIO("merges-min") { merges<Min>(); }

template <class T> static void reduces()
{
    Case<T> c(1, 4, 0, 0, 2);
    int n = int(c.pf.size()), k = range(0, 5), which = range(0, 4);
    std::unique_ptr<eoReduce<T>> r;
    static const char* names[] = {"truncate", "linear-truncate", "random-reduce", "det-tournament-truncate", "stoch-tournament-truncate"};
    std::string who = names[which];
    quiet();
    if (which == 0) r.reset(new eoTruncate<T>);
    if (which == 1) r.reset(new eoLinearTruncate<T>);
    if (which == 2) r.reset(new eoRandomReduce<T>);
    if (which == 3) r.reset(new eoDetTournamentTruncate<T>(2));
    if (which == 4) r.reset(new eoStochTournamentTruncate<T>(0.75));
    assume(which < 3 || n < 4 || k > n - 2);
    rng_grid(which == 3 ? 4 : which == 4 && k < n - 1 ? 3 : 12, which == 4 ? 9 : which == 3 ? 8 : 3);
    V s = sorted<T>(c.pf);
    std::map<std::set<int>, double> subsets;
    double mass = 0;
    forall([&] {
        eoPop<T> p = c.par;
        bool thrown = false;
        Mute mute;
        try { (*r)(p, k); } catch (std::exception&) { thrown = true; }
        MC_CHECK(thrown == (k > n), who + ":refuse", "reduction of " << n << " to " << k << (thrown ? " refused" : " accepted"));
        mass += leaf_prob();
        if (thrown) return;
        c.members(p, who); c.size(p, k, who);
        if (which < 2) c.equal(p, first(s, k), who);
        std::set<int> ids; for (auto& x : p) ids.insert(x.id);
        subsets[ids] += leaf_prob();
        if (which == 3 && k >= 1) MC_CHECK(sorted<T>(fits(p))[0] == s[0] , who + ":best", "the best of " << show(c.pf) << " was eliminated");
        state(mix(which, hashv(fits(p))));
        step();
    });
    if (which == 2 && k <= n) {
        double cn = 1; for (int i = 0; i < k; ++i) cn = cn * (n - i) / (i + 1);
        MC_CHECK(subsets.size() == size_t(cn + .5), who + ":reach", subsets.size() << " subsets of " << cn << " can survive");
        for (auto& x : subsets) MC_CHECK(close(x.second, 1 / cn), who + ":uniform", "a subset survives with probability " << x.second << " instead of " << 1 / cn);
    }
    if (which == 4 && k == n - 1 && n > 1) {
        Dist got;
        for (auto& x : subsets) { V f; for (int i : x.first) f.push_back(c.pf[i]); got[sorted<T>(f)] += x.second / mass; }
        compare(got, loser_model<T>(c.pf, 0.75, false), who, 1e-9);
    }
}
MC_SCENARIO("reduces") { reduces<Max>(); }
MC_SCENARIO("reduces-min") { reduces<Min>(); }

// rates outside ]0.5, 1] (a low one becomes a little more than a half) and tournaments of fewer than two are replaced by the nearest sensible ones
template <class T> static void tournament_limits()
{
    V f = {choose(3), choose(3)};
    int which = range(0, 4);
    double rate = pick({0.0, 0.25, 0.5, 0.55, 0.8, 1.0, 1.5});
    double used = rate > 1 ? 1 : rate <= 0.5 ? 0.525 : rate;
    static const char* names[] = {"stoch-truncate-limits", "stoch-split-limits", "ssga-stoch-limits", "det-truncate-limits", "det-split-limits"};
    std::string who = names[which];
    quiet();
    unsigned t = which > 2 ? range(0, 2) : 0;
    assume(which < 3 || rate == 1.0);
    eoPop<T> par = make_pop<T>(f), off = make_pop<T>({1}, 100);
    bool ret = flag();
    assume(!ret || which == 1 || which == 4);
    rng_grid(which < 3 ? 20 : 4, which < 3 ? 3 : 8);
    Dist got; double mass = 0;
    uint64_t ends = forall([&] {
        Mute mute;
        eoPop<T> p = par, o = off, out;
        if (which == 0) { eoStochTournamentTruncate<T> r(rate); r(p, 1); }
        if (which == 1) { eoStochTournamentTruncateSplit<T> r(rate, eoHowMany(1), ret); r(p, out); }
        if (which == 2) { eoSSGAStochTournamentReplacement<T> r(rate); r(p, o); }
        if (which == 3) { eoDetTournamentTruncate<T> r(t); r(p, 1); }
        if (which == 4) { eoDetTournamentTruncateSplit<T> r(t, eoHowMany(1), ret); r(p, out); }
        V left;
        for (auto& x : p) if (x.id < 100) left.push_back(int(double(x.fitness())));
        MC_CHECK(left.size() == 1 && out.size() == ret, who + ":size", left.size() << " of two individuals are left");
        got[left] += leaf_prob(); mass += leaf_prob();
        state(mix(which, mix(hashv(left), hashv(f))));
        step();
    });
    MC_CHECK(ends, who + ":endless", "never ends");
    for (auto& x : got) x.second /= mass;
    compare(got, loser_model<T>(f, which < 3 ? used : 1, which > 2), who, which < 3 && rate <= 0.5 ? 0.03 : 1e-6);
}
MC_SCENARIO("tournament limits") { tournament_limits<Max>(); }
MC_SCENARIO("tournament limits-min") { tournament_limits<Min>(); }

template <class T> static void splits()
{
    Case<T> c(1, 4, 0, 0, 2);
    int n = int(c.pf.size()), k = range(1, 5), which = range(0, 5);
    bool ret = flag();
    std::unique_ptr<eoReduceSplit<T>> r;
    static const char* names[] = {"truncate-split", "linear-truncate-split", "random-split", "linear-random-split", "det-tournament-split", "stoch-tournament-split"};
    std::string who = names[which];
    quiet();
    eoHowMany h(k);
    if (which == 0) r.reset(new eoTruncateSplit<T>(h, ret));
    if (which == 1) r.reset(new eoLinearTruncateSplit<T>(h, ret));
    if (which == 2) r.reset(new eoRandomSplit<T>(h, ret));
    if (which == 3) r.reset(new eoLinearRandomSplit<T>(h, ret));
    if (which == 4) r.reset(new eoDetTournamentTruncateSplit<T>(2, h, ret));
    if (which == 5) r.reset(new eoStochTournamentTruncateSplit<T>(0.75, h, ret));
    assume(which < 4 || n < 4);
    rng_grid(which < 4 ? 4 : 3, which < 4 ? 4 : 9);
    V s = sorted<T>(c.pf);
    uint64_t ends = forall([&] {
        eoPop<T> p = c.par, out;
        if (ret && n < 3) { out.resize(1); out[0].id = 100; out[0].fitness(0); }      // eliminated individuals are added
        size_t had = out.size();
        bool thrown = false;
        try { (*r)(p, out); } catch (std::exception&) { thrown = true; }
        MC_CHECK(thrown == (k > n), who + ":refuse", "eliminating " << k << " of " << n << (thrown ? " refused" : " accepted"));
        if (thrown) return;
        c.members(p, who); c.size(p, n - k, who); c.size(out, had + (ret ? k : 0), who);
        std::set<int> ids;
        for (auto& x : p) ids.insert(x.id);
        for (auto& x : out) if (x.id < 100) { MC_CHECK(x.id >= 0 && ids.insert(x.id).second && double(x.fitness()) == c.pf[x.id], who + ":partition", "individual " << x.id << " is both kept and eliminated"); }
        if (ret) MC_CHECK(int(ids.size()) == n, who + ":partition", "kept and eliminated individuals are not the whole population");
        if (which < 2) c.equal(p, first(s, n - k), who);
        if (which == 4 && k < n) MC_CHECK(sorted<T>(fits(p))[0] == s[0], who + ":best", "the best of " << show(c.pf) << " was eliminated");
        state(mix(which, mix(hashv(fits(p)), hashv(fits(out)))));
        step();
    });
    MC_CHECK(ends, who + ":endless", "never ends");
}
MC_SCENARIO("splits") { splits<Max>(); }
MC_SCENARIO("splits-min") { splits<Min>(); }
