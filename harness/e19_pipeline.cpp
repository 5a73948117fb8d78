// E19: views of a population, populators and operator containers.
#include "ind.hpp"
#include <map>
using namespace mc;

template <class F> struct Job : public EO<F>
{
    int id;
    std::string log;                     // what was done to it
    Job() : id(-1) {}
    void printOn(std::ostream& o) const { o << id; }
};
typedef Job<double> J;
typedef Job<eoMinimizingFitness> JMin;
template <class T> static eoPop<T> jobs(const std::vector<int>& f, int base = 0)
{
    eoPop<T> p; p.resize(f.size());
    for (size_t i = 0; i < f.size(); ++i) { p[i].id = base + int(i); p[i].fitness(f[i]); }
    return p;
}
template <class T> static std::string ids(const eoPop<T>& p)
{
    std::string s;
    for (auto& x : p) s += std::to_string(x.id) + x.log + (x.invalid() ? "? " : " ");
    return s;
}

// ------------------------------------------------------------------ views
template <class T> static void views()
{
    std::vector<int> f = any_fit(1, tier(5, 6), 2);
    int n = int(f.size());
    eoPop<T> p = jobs<T>(f), was = p;
    const eoPop<T>& cp = p;
    std::vector<int> s = sorted<T>(f);
    quiet();
    auto member = [&](const T* x, const eoPop<T>& in) { return !in.empty() && x >= &in[0] && x < &in[0] + in.size(); };
    auto whole = [&](const std::vector<const T*>& v, const char* who) {
        std::set<const T*> seen(v.begin(), v.end());
        MC_CHECK(int(v.size()) == n && int(seen.size()) == n, std::string(who) + ":members", "a view of " << n << " individuals names " << seen.size() << " of them in " << v.size() << " places");
        for (const T* x : v) MC_CHECK(member(x, p), std::string(who) + ":foreign", "a view names an individual outside the population");
    };
    auto same = [&](const char* who) { MC_CHECK(ids(p) == ids(was), std::string(who) + ":altered", "looking changed " << ids(was) << "to " << ids(p)); };
    auto permuted = [&](const eoPop<T>& q, const char* who) {
        std::set<int> seen;
        for (auto& x : q) { MC_CHECK(x.id >= 0 && x.id < n && !x.invalid() && double(x.fitness()) == f[x.id], std::string(who) + ":foreign", ids(q)); seen.insert(x.id); }
        MC_CHECK(int(q.size()) == n && int(seen.size()) == n, std::string(who) + ":members", ids(q));
    };
    std::vector<const T*> v(choose(2) * 7, (const T*)0);
    cp.sort(v); whole(v, "sorted view");
    for (int i = 0; i < n; ++i) MC_CHECK(double(v[i]->fitness()) == s[i], "sorted view", "place " << i << " of " << show(f) << " has " << double(v[i]->fitness()));
    same("sorted view");
    for (int k = 0; k < n; ++k) {
        MC_CHECK(double(cp.nth_element_fitness(k)) == s[k], "n-th fitness", "number " << k << " of " << show(f) << " is said to be " << double(cp.nth_element_fitness(k)));
        cp.nth_element(k, v); whole(v, "n-th view");
        MC_CHECK(double(v[k]->fitness()) == s[k], "n-th view", "number " << k << " of " << show(f) << " is said to be " << double(v[k]->fitness()));
        for (int i = 0; i < n; ++i) MC_CHECK(i < k ? sign<T>() * v[i]->fitness() >= sign<T>() * s[k] : sign<T>() * v[i]->fitness() <= sign<T>() * s[k], "n-th view:sides", show(f));
        same("n-th view");
        eoPop<T> q = p;
        auto it = q.nth_element(k);
        permuted(q, "n-th element");
        MC_CHECK(it - q.begin() == k && double(it->fitness()) == s[k], "n-th element", "number " << k << " of " << show(f));
        for (int i = 0; i < n; ++i) MC_CHECK(i < k ? sign<T>() * q[i].fitness() >= sign<T>() * s[k] : sign<T>() * q[i].fitness() <= sign<T>() * s[k], "n-th element:sides", show(f));
        step();
    }
    MC_CHECK(member(&cp.best_element(), p) && double(cp.best_element().fitness()) == s[0] && double(p.it_best_element()->fitness()) == s[0], "best", show(f) << " best " << double(cp.best_element().fitness()));
    MC_CHECK(member(&cp.worse_element(), p) && double(cp.worse_element().fitness()) == s[n - 1] && double(p.it_worse_element()->fitness()) == s[n - 1], "worst", show(f) << " worst " << double(cp.worse_element().fitness()));
    same("best and worst");
    eoPop<T> q = p; q.sort(); permuted(q, "sort");
    for (int i = 0; i < n; ++i) MC_CHECK(double(q[i].fitness()) == s[i], "sort", "place " << i << " of " << show(f) << " has " << double(q[i].fitness()));
    std::ostringstream os; cp.sortedPrintOn(os);
    std::istringstream is(os.str()); int m = -1, x; is >> m;
    MC_CHECK(m == n, "sorted text", os.str());
    for (int i = 0; i < n; ++i) MC_CHECK(is >> x && x >= 0 && x < n && f[x] == s[i], "sorted text", show(f) << " is written " << os.str());
    eoPop<T> a = p, b = jobs<T>(std::vector<int>(choose(3), 1), 50);
    std::string ta = ids(a), tb = ids(b);
    a.swap(b);
    MC_CHECK(ids(a) == tb && ids(b) == ta, "swap", ta << "and " << tb << "become " << ids(a) << "and " << ids(b));
    q.invalidate();
    for (auto& y : q) MC_CHECK(y.invalid(), "invalidate", "an individual is still evaluated");
    state(hashv(f));
}
MC_SCENARIO("views of a population, maximising") { views<J>(); }
MC_SCENARIO("views of a population, minimising") { views<JMin>(); }
MC_SCENARIO("nobody is the best of nobody")
{
    const eoPop<J> p;
    bool thrown = false;
    quiet();
    try { p.best_element(); } catch (std::exception&) { thrown = true; }
    MC_CHECK(thrown, "best of nobody", "the best of an empty population was given");
    step(); state(1);
}
MC_SCENARIO("shuffles are uniform")
{
    unsigned n = range(0, tier(4, 5));
    eoPop<J> p = jobs<J>(std::vector<int>(n, 1));
    const eoPop<J>& cp = p;
    bool view = flag();
    rng_grid(n > 3 ? 12 : 6, 5);
    if (n == 5) rng_grid(60, 5);
    std::map<std::string, double> seen;
    forall([&] {
        std::string s;
        if (view) { std::vector<const J*> v; cp.shuffle(v); for (auto x : v) s += std::to_string(x->id); }
        else { eoPop<J> q = p; q.shuffle(); for (auto& x : q) s += std::to_string(x.id); }
        MC_CHECK(ids(p) == ids(jobs<J>(std::vector<int>(n, 1))), "shuffle:altered", "");
        std::string t = s; std::sort(t.begin(), t.end());
        MC_CHECK(t == std::string("01234").substr(0, n), "shuffle:members", s);
        seen[s] += leaf_prob(); step();
    });
    double all = 1; for (unsigned i = 2; i <= n; ++i) all *= i;
    MC_CHECK(seen.size() == size_t(all), "shuffle:reach", seen.size() << " orders of " << n);
    for (auto& x : seen) MC_CHECK(close(x.second, 1 / all), "shuffle:uniform", "the order " << x.first << " has probability " << x.second);
    state(mix(n, view));
}
struct Numbered : eoInit<J> { int next; Numbered(int i) : next(i) {} void operator()(J& j) { j.id = next++; j.invalidate(); } };
MC_SCENARIO("populations grow by initialised individuals")
{
    unsigned n = range(0, 4), to = range(0, 6);
    Numbered in(10), more(100);
    eoPop<J> p(n, in);
    MC_CHECK(p.size() == n && in.next == int(10 + n), "initialised", p.size() << " of " << n);
    for (unsigned i = 0; i < n; ++i) { MC_CHECK(p[i].id == int(10 + i), "initialised", ids(p)); p[i].fitness(i); }
    std::string was = ids(p);
    bool thrown = false;
    quiet();
    try { p.append(to, more); } catch (std::exception&) { thrown = true; }
    MC_CHECK(thrown == (to < n), "grow:refuse", "growing from " << n << " to " << to << (thrown ? " refused" : " accepted"));
    if (thrown) { MC_CHECK(ids(p) == was, "grow:refuse", "a refused growth changed the population"); return; }
    MC_CHECK(p.size() == to && more.next == int(100 + to - n), "grow", p.size() << " instead of " << to);
    for (unsigned i = 0; i < to; ++i) MC_CHECK(i < n ? p[i].id == int(10 + i) && !p[i].invalid() && double(p[i].fitness()) == i : p[i].id == int(100 + i - n), "grow", ids(p));
    step(); state(mix(n, to));
}

// ------------------------------------------------------------------ populators
struct Pick : eoSelectOne<J>
{
    unsigned setups = 0, calls = 0; const eoPop<J>* seen = 0;
    void setup(const eoPop<J>& p) { ++setups; seen = &p; }
    const J& operator()(const eoPop<J>& p) { ++calls; seen = &p; return p[calls % 2 ? p.size() - 1 : 0]; }
};
MC_SCENARIO("a populator is a list with a place in it")
{
    unsigned n = range(0, tier(2, 3)), had = range(0, 2);
    bool sel = flag();
    assume(!sel || n);
    eoPop<J> src = jobs<J>(std::vector<int>(n, 1)), dest = jobs<J>(std::vector<int>(had, 1), 20);
    if (flag()) dest.reserve(12);
    std::string before = ids(src);
    Pick pick;
    std::unique_ptr<eoPopulator<J>> it;
    if (sel) it.reset(new eoSelectivePopulator<J>(src, dest, pick)); else it.reset(new eoSeqPopulator<J>(src, dest));
    std::vector<int> model; for (unsigned i = 0; i < had; ++i) model.push_back(20 + i);
    size_t at = had, taken = 0;
    J extra = jobs<J>({1}, 90)[0];
    unsigned len = tier(5, 6);
    std::string done;
    for (unsigned k = 0; k < len; ++k) {
        unsigned op = choose(6);
        done += "*+irs<"[op];
        if (op == 0) {
            bool thrown = false; int got = -1;
            try { got = (**it).id; } catch (eoPopulator<J>::OutOfIndividuals&) { thrown = true; }
            bool want = at == model.size() && !sel && taken == n;
            if (at == model.size() && !want) { ++taken; model.push_back(sel ? (taken % 2 ? int(n) - 1 : 0) : int(taken - 1)); }
            MC_CHECK(thrown == want, "populator:out", done << " of " << n << (thrown ? " ran out" : " did not run out"));
            if (!thrown) MC_CHECK(got == model[at], "populator:read", done << " of " << n << " reads " << got << " instead of " << model[at]);
        }
        if (op == 1) { ++*it; if (at < model.size()) ++at; }
        if (op == 2) { it->insert(extra); model.insert(model.begin() + at, extra.id); ++extra.id; }
        if (op == 3) it->reserve(int(range(0, 3)));
        if (op == 4) {
            bool thrown = false; int got = -1;
            try { got = it->select().id; } catch (eoPopulator<J>::OutOfIndividuals&) { thrown = true; }
            bool want = !sel && taken == n;
            if (!want) { ++taken; MC_CHECK(!thrown && got == (sel ? (taken % 2 ? int(n) - 1 : 0) : int(taken - 1)), "populator:select", done << " of " << n << " selects " << got); }
            else MC_CHECK(thrown, "populator:out", done << " of " << n << " did not run out");
        }
        if (op == 5) { unsigned to = choose(unsigned(model.size()) + 1); it->seekp(to); at = to; }
        std::string m; for (int i : model) m += std::to_string(i) + " ";
        MC_CHECK(ids(dest) == m, "populator:list", done << " of " << n << " gives " << ids(dest) << "instead of " << m);
        MC_CHECK(it->tellp() == at && it->exhausted() == (at == model.size()), "populator:place", done << " of " << n << " is at " << it->tellp() << " instead of " << at);
        step();
    }
    MC_CHECK(ids(src) == before && &it->source() == &src && &it->offspring() == &dest, "populator:source", ids(src));
    if (sel) MC_CHECK(pick.setups == 1 && pick.calls == taken && pick.seen == &src, "populator:selector", pick.setups << " preparations and " << pick.calls << " selections for " << taken);
    state(mix(hashv(model), at));
}

// ------------------------------------------------------------------ operators in containers
static const char* LETTER = "abcdefgh";
struct Mon : eoMonOp<J> { char c; bool r; Mon(char c_, bool r_) : c(c_), r(r_) {} bool operator()(J& a) { a.log += c; return r; } };
struct Bin : eoBinOp<J> { char c; bool r; Bin(char c_, bool r_) : c(c_), r(r_) {} bool operator()(J& a, const J& b) { a.log += c; a.log += std::to_string(b.id) + b.log; return r; } };
struct Quad : eoQuadOp<J> { char c; bool r; Quad(char c_, bool r_) : c(c_), r(r_) {} bool operator()(J& a, J& b) { a.log += c; b.log += char(toupper(c)); return r; } };
// as many new individuals as it says, whatever was there
struct Gen : eoGenOp<J>
{
    char c; unsigned k; Gen(char c_, unsigned k_) : c(c_), k(k_) {}
    unsigned max_production() { return k; }
    std::string className() const { return "Gen"; }
    void apply(eoPopulator<J>& p) { for (unsigned i = 0; i < k; ++i) { J& x = *p; x.log += c; if (i + 1 < k) ++p; } }
};
// the same, on plain lists
struct Todo { int kind; bool r; char c; };
struct M
{
    struct X { int id; std::string log; bool invalid; };
    std::vector<X> v; size_t at; int next, n;
    X take() { if (next >= n) throw 1; X x; x.id = next++; x.invalid = false; return x; }
    X& here() { if (at == v.size()) v.push_back(take()); return v[at]; }
    void apply(const Todo& t)
    {
        if (t.kind == 0) { X& a = here(); a.log += t.c; a.invalid |= t.r; }
        if (t.kind == 1) { here(); X b = take(); X& a = v[at]; a.log += t.c + std::to_string(b.id) + b.log; a.invalid |= t.r; }
        if (t.kind == 2) { here(); size_t i = at; if (at < v.size()) ++at; here(); v[i].log += t.c; v[at].log += char(toupper(t.c)); v[i].invalid |= t.r; v[at].invalid |= t.r; }
        if (t.kind >= 3) for (int i = 0; i < t.kind; ++i) { here().log += t.c; if (i + 1 < t.kind && at < v.size()) ++at; }
    }
    std::string text() const { std::string s; for (auto& x : v) s += std::to_string(x.id) + x.log + (x.invalid ? "? " : " "); return s; }
};
struct Ops
{
    std::vector<Todo> t; std::vector<std::unique_ptr<eoOp<J>>> o;
    void add(int kind, bool r)
    {
        char c = LETTER[t.size()];
        t.push_back(Todo{kind, r, c});
        if (kind == 0) o.emplace_back(new Mon(c, r));
        if (kind == 1) o.emplace_back(new Bin(c, r));
        if (kind == 2) o.emplace_back(new Quad(c, r));
        if (kind >= 3) o.emplace_back(new Gen(c, unsigned(kind)));
    }
};
typedef std::map<std::string, double> Outcomes;
static void compare(const Outcomes& got, const Outcomes& want, const std::string& who)
{
    for (auto& x : got) MC_CHECK(want.count(x.first), who + ":impossible", "[" << x.first << "] cannot happen");
    for (auto& x : want) MC_CHECK(got.count(x.first) && close(got.at(x.first), x.second), who + ":probability", "[" << x.first << "] has probability " << (got.count(x.first) ? got.at(x.first) : 0) << " instead of " << x.second);
}
// each operator in turn goes over the individuals from where the pipeline started (taking one if there is none), acting with its rate
static void sequence(const Ops& ops, const std::vector<double>& rate, size_t i, size_t pos, bool fresh, M m, double p, Outcomes& out)
{
    if (p == 0) return;
    if (i == ops.t.size()) { out[m.text() + "/" + std::to_string(m.at)] += p; return; }
    if (fresh) m.at = pos;
    for (int act = 0; act < 2; ++act) {
        M x = m;
        double q = p * (act ? rate[i] : 1 - rate[i]);
        if (q == 0) continue;
        if (act) { try { x.apply(ops.t[i]); } catch (int) { out[x.text() + "/out"] += q; continue; } }
        if (x.at < x.v.size()) ++x.at;
        sequence(ops, rate, x.at == x.v.size() ? i + 1 : i, pos, x.at == x.v.size(), x, q, out);
    }
}
static void container(bool proportional, unsigned least, unsigned most, unsigned n, bool roomy)
{
    Ops ops; std::vector<double> rate;
    unsigned k = range(least, most);
    for (unsigned i = 0; i < k; ++i) {
        int kind = choose(4);
        ops.add(kind, kind < 3 && flag());
        rate.push_back(proportional ? pick({1.0, 2.0}) : pick({0.0, 0.5, 1.0}));
    }
    double total = 0; for (double r : rate) total += r;
    unsigned had = choose(2);
    eoPop<J> src = jobs<J>(std::vector<int>(n, 1));
    Outcomes got, want;
    rng_grid(proportional ? unsigned(total) : 2, 24);
    uint64_t ends = forall([&] {
        eoSequentialOp<J> seq; eoProportionalOp<J> prop;
        eoOpContainer<J>& op = proportional ? static_cast<eoOpContainer<J>&>(prop) : seq;
        for (unsigned i = 0; i < k; ++i) op.add(*ops.o[i], rate[i]);
        unsigned most = 0;
        for (auto& t : ops.t) most = std::max(most, t.kind == 2 ? 2u : t.kind == 3 ? 3u : 1u);
        MC_CHECK(op.max_production() >= most, "container:production", "says it makes at most " << op.max_production());
        eoPop<J> dest = jobs<J>(std::vector<int>(had, 1), 20);
        dest.shrink_to_fit();
        if (roomy) dest.reserve(30);
        eoSeqPopulator<J> it(src, dest);
        std::string end;
        try { op(it); end = std::to_string(it.tellp()); } catch (eoPopulator<J>::OutOfIndividuals&) { end = "out"; }
        got[ids(dest) + "/" + end] += leaf_prob();
        state(hash(ids(dest)));
        step();
    });
    MC_CHECK(ends, "container:endless", "never ends");
    M m; m.at = had; m.next = 0; m.n = int(n);
    for (unsigned i = 0; i < had; ++i) m.v.push_back(M::X{20 + int(i), "", false});
    if (!proportional) sequence(ops, rate, 0, had, true, m, 1, want);
    else for (unsigned i = 0; i < k; ++i) {
        M x = m;
        try { x.apply(ops.t[i]); if (x.at < x.v.size()) ++x.at; } catch (int) {}
        want[x.text() + "/" + std::to_string(x.at)] += rate[i] / total;
    }
    compare(got, want, proportional ? "proportional" : "sequential");
}
MC_SCENARIO("operators one after the other") { container(false, 1, tier(2, 3), range(0, 4), false); }
MC_SCENARIO("operators one after the other, with room") { container(false, 1, 2, 8, true); }
MC_SCENARIO("one operator out of several") { container(true, 1, tier(3, 4), range(0, 4), flag()); }

// ------------------------------------------------------------------ the standard pair of crossover and mutation
static std::string letters(const std::vector<M::X>& v) { M m; m.v = v; return m.text(); }
// every pair is crossed with one rate, then everybody mutated with another
static void pairs(std::vector<M::X> v, size_t from, size_t to, double pc, double pm, bool rc, bool rm, Outcomes& out)
{
    size_t n = to - from, k = n / 2;
    for (unsigned c = 0; c < (1u << k); ++c)
        for (unsigned m = 0; m < (1u << n); ++m) {
            std::vector<M::X> w(v);
            double p = 1;
            for (size_t i = 0; i < k; ++i) {
                p *= c >> i & 1 ? pc : 1 - pc;
                if (c >> i & 1) { w[from + 2 * i].log += 'a'; w[from + 2 * i + 1].log += 'A'; w[from + 2 * i].invalid |= rc; w[from + 2 * i + 1].invalid |= rc; }
            }
            for (size_t i = 0; i < n; ++i) { p *= m >> i & 1 ? pm : 1 - pm; if (m >> i & 1) { w[from + i].log += 'b'; w[from + i].invalid |= rm; } }
            if (p > 0) out[letters(w)] += p;
        }
}
static std::vector<M::X> numbered(unsigned n, int base) { std::vector<M::X> v; for (unsigned i = 0; i < n; ++i) v.push_back(M::X{base + int(i), "", false}); return v; }
MC_SCENARIO("transforms cross the pairs, then mutate everybody")
{
    unsigned n = range(0, tier(4, 5));
    double pc = pick({0.0, 0.5, 1.0}), pm = pick({0.0, 0.5, 1.0});
    bool rc = flag(), rm = flag();
    int which = range(0, 3);
    eoPop<J> src = jobs<J>(std::vector<int>(n, 1));
    Quad x('a', rc); Mon m('b', rm);
    Outcomes got, want;
    rng_grid(2, 16);
    forall([&] {
        eoPop<J> p = src;
        double c = pc, u = pm;
        if (which == 0) { eoSGATransform<J> t(x, pc, m, pm); t(p); }
        if (which == 1) { eoDynSGATransform<J> t(x, pc, m, pm); t(p); }
        if (which == 2) { c = 1 - pc; u = 1 - pm; eoDynSGATransform<J> t(x, &c, m, &u); c = pc; u = pm; t(p); }
        if (which == 3) { eoDynSGATransform<J> t(x, 1 - pc, m, 1 - pm); t.PCrossHandle() = pc; t.PMutHandle() = pm; t(p); }
        got[ids(p)] += leaf_prob(); state(hash(ids(p))); step();
    });
    pairs(numbered(n, 0), 0, n, pc, pm, rc, rm, want);
    compare(got, want, "transform");
}
MC_SCENARIO("the standard operators take two parents or one")
{
    unsigned had = range(0, 1);
    bool rc = flag(), rm = flag(), weighted = flag();
    Quad x('a', rc); Mon m('b', rm);
    eoPop<J> src = jobs<J>(std::vector<int>(3, 1));
    Outcomes got, want;
    double pc = pick({0.0, 0.5, 1.0}), pm = pick({0.0, 0.5, 1.0}), wc = 1;
    if (weighted) { wc = pick({0.0, 1.0, 2.0}); pc = pick({0.0, 1.0, 2.0}); pm = pick({0.0, 1.0}); }
    double total = wc + pc + pm;
    assume(!weighted || total > 0);
    rng_grid(weighted ? unsigned(total) : 2, 12);
    forall([&] {
        eoPop<J> dest = jobs<J>(std::vector<int>(had, 1), 20);
        dest.shrink_to_fit();
        eoSeqPopulator<J> it(src, dest);
        std::unique_ptr<eoGenOp<J>> op;
        if (weighted) op.reset(new eoPropGAGenOp<J>(wc, x, pc, m, pm)); else op.reset(new eoSGAGenOp<J>(x, pc, m, pm));
        (*op)(it);
        MC_CHECK(it.exhausted() && op->max_production() >= dest.size() - had, "standard operator:place", "stops at " << it.tellp() << " of " << dest.size());
        got[ids(dest)] += leaf_prob(); state(hash(ids(dest))); step();
    });
    std::vector<M::X> v = numbered(had, 20), w = numbered(2, 0);
    v.insert(v.end(), w.begin(), w.end());
    if (!weighted) pairs(v, had, had + 2, pc, pm, rc, rm, want);
    else {
        if (pc > 0) { std::vector<M::X> y(v); y[had].log = "a"; y[had + 1].log = "A"; y[had].invalid = y[had + 1].invalid = rc; want[letters(y)] += pc / total; }
        v.pop_back();
        if (wc > 0) want[letters(v)] += wc / total;
        if (pm > 0) { v[had].log = "b"; v[had].invalid = rm; want[letters(v)] += pm / total; }
    }
    compare(got, want, weighted ? "weighted operator" : "standard operator");
}
MC_SCENARIO("combined operators share by their rates")
{
    unsigned kind = choose(3);
    unsigned k = range(1, 3);
    std::vector<double> w; double total = 0;
    for (unsigned i = 0; i < k; ++i) { w.push_back(pick({1.0, 2.0, 3.0})); total += w.back(); }
    bool r[3]; for (unsigned i = 0; i < k; ++i) r[i] = flag();
    std::vector<Mon> ms; std::vector<Bin> bs; std::vector<Quad> qs;
    for (unsigned i = 0; i < k; ++i) { ms.emplace_back(LETTER[i], r[i]); bs.emplace_back(LETTER[i], r[i]); qs.emplace_back(LETTER[i], r[i]); }
    quiet();
    Outcomes got, want;
    rng_grid(unsigned(total), 4);
    forall([&] {
        J a = jobs<J>({1})[0], b = jobs<J>({1}, 1)[0];
        bool c;
        if (kind == 2) { eoPropCombinedQuadOp<J> op(qs[0], w[0]); for (unsigned i = 1; i < k; ++i) op.add(qs[i], w[i]); c = op(a, b); }
        else if (kind == 1) { eoPropCombinedBinOp<J> op(bs[0], w[0]); for (unsigned i = 1; i < k; ++i) op.add(bs[i], w[i]); c = op(a, b); }
        else { eoPropCombinedMonOp<J> op(ms[0], w[0]); for (unsigned i = 1; i < k; ++i) op.add(ms[i], w[i]); c = op(a); }
        got[a.log + b.log + (c ? "1" : "0")] += leaf_prob(); step();
    });
    for (unsigned i = 0; i < k; ++i) want[std::string(1, LETTER[i]) + (kind == 2 ? std::string(1, char(toupper(LETTER[i]))) : kind == 1 ? "1" : "") + (r[i] ? "1" : "0")] += w[i] / total;
    compare(got, want, "combined");
    state(mix(hashv(w), kind));
}
