// Program trees: construction, editing, evaluation, printing, initialisation and variation.
// Trees are compared with a plain recursive structure built and changed beside them.
#include "common.hpp"
#include <gp/eoParseTree.h>
#include <gp/eoParseTreeOp.h>
#include <gp/eoParseTreeDepthInit.h>
#include <gp/eoStParseTreeOp.h>
#include <gp/eoStParseTreeDepthInit.h>
#include <list>
#include <set>

// x y: values, n: one argument, + -: two, f: three, g: four; B b: logical values, <: compares, i: if
static int arity_of(char c)
{
    switch (c) {
        case 'n': case '!': case 'h': return 1;
        case '+': case '-': case '<': case '=': return 2;
        case 'f': case 'i': return 3;
        case 'g': return 4;
        default: return 0;
    }
}
static int type_of(char c) { return std::string("Bb!<=").find(c) != std::string::npos; }
static int arg_type(char c, int i)
{
    if (c == '!' || c == '=' || c == 'h') return 1;     // h turns a logical value into a number
    if (c == 'i') return i == 0;
    return 0;
}
static double value(char c, const double* a)
{
    switch (c) {
        case 'x': return 2;
        case 'y': return 5;
        case 'n': return -a[0] * 3;
        case '+': return a[0] + a[1];
        case '-': return a[0] - 2 * a[1];
        case 'f': return a[0] + 10 * a[1] + 100 * a[2];
        case 'g': return a[0] + 7 * a[1] + 49 * a[2] + 343 * a[3];
        default: return 1;
    }
}
struct N
{
    char c;
    N(char k = 'x') : c(k) {}
    int arity() const { return arity_of(c); }
    int type() const { return type_of(c); }
    int type(int i) const { return arg_type(c, i); }
    void randomize() {}
    bool operator==(const N& o) const { return c == o.c; }
    template <class It> void operator()(double& v, It args) const
    {
        double a[4] = {0, 0, 0, 0};
        for (int i = 0; i < arity(); ++i) args[i].apply(a[i]);
        v = value(c, a);
    }
    template <class It> void operator()(double& v, It args, double x) const
    {
        double a[4] = {0, 0, 0, 0};
        for (int i = 0; i < arity(); ++i) args[i].apply(a[i], x);
        v = c == 'x' ? x : value(c, a);
    }
};
std::ostream& operator<<(std::ostream& o, const N& n) { return o << n.c; }
std::istream& operator>>(std::istream& i, N& n) { return i >> n.c; }

typedef eoParseTree<double, N> Tree;
typedef gp_parse_tree::parse_tree<N>::subtree Sub;

struct Ref
{
    char c = 'x';
    std::vector<Ref> k;
    bool operator==(const Ref& o) const { return c == o.c && k == o.k; }
    bool operator!=(const Ref& o) const { return !(*this == o); }
    bool operator<(const Ref& o) const { return text() < o.text(); }
    unsigned size() const { unsigned s = 1; for (auto& x : k) s += x.size(); return s; }
    unsigned depth() const { unsigned d = 0; for (auto& x : k) d = std::max(d, x.depth()); return d + 1; }
    unsigned cumulative() const { unsigned s = size(); for (auto& x : k) s += x.cumulative(); return s; }
    std::string text() const
    {
        std::string s(1, c);
        if (!k.empty()) { s += '('; for (auto& x : k) s += x.text(); s += ')'; }
        return s;
    }
    double eval(double x = 2) const
    {
        double a[4] = {0, 0, 0, 0};
        for (size_t i = 0; i < k.size(); ++i) a[i] = k[i].eval(x);
        return c == 'x' ? x : value(c, a);
    }
    bool formed() const
    {
        if (int(k.size()) != arity_of(c)) return false;
        for (auto& x : k) if (!x.formed()) return false;
        return true;
    }
    bool typed(int want) const
    {
        if (type_of(c) != want) return false;
        for (size_t i = 0; i < k.size(); ++i) if (!k[i].typed(arg_type(c, int(i)))) return false;
        return true;
    }
    // nodes in the order of the index: last argument first, root last
    void nodes(std::vector<Ref*>& v)
    {
        for (size_t i = k.size(); i-- > 0;) k[i].nodes(v);
        v.push_back(this);
    }
    Ref& at(size_t i) { std::vector<Ref*> v; nodes(v); return *v[i]; }
    void preorder(std::list<N>& l) const { l.push_front(N(c)); for (auto& x : k) x.preorder(l); }
    bool has(const Ref& r) const { if (*this == r) return true; for (auto& x : k) if (x.has(r)) return true; return false; }
};

// reads a real tree and recounts everything on the way
static Ref read_sub(const Sub& s, const Sub* parent, bool& ok)
{
    Ref r;
    r.c = (*s).c;
    if (s.get_parent() != parent) ok = false;
    for (int i = 0; i < s.arity(); ++i) r.k.push_back(read_sub(s[i], &s, ok));
    if (s.size() != r.size() || s.depth() != r.depth() || s.cumulative_size() != r.cumulative()) ok = false;
    if (s.end() - s.begin() != s.arity()) ok = false;
    return r;
}
static Ref examine(const Tree& t, const char* key)
{
    bool ok = true;
    Ref r = read_sub(t.back(), nullptr, ok);
    MC_CHECK(ok, key, "size, depth or parent of a node of " << r.text() << " is wrong (size " << t.size() << " depth " << t.depth() << ")");
    MC_CHECK(t.size() == r.size() && t.depth() == r.depth(), key, "tree " << r.text() << " reports size " << t.size() << " depth " << t.depth());
    MC_CHECK(r.formed(), key, "a node has not as many children as its arity");
    // index and iteration visit every node once
    std::vector<Ref*> v;
    r.nodes(v);
    Tree& m = const_cast<Tree&>(t);
    auto it = t.begin();
    auto e = t.ebegin();
    auto im = m.begin();
    for (size_t i = 0; i < v.size(); ++i, ++it, ++e, ++im) {
        MC_CHECK(it != t.end() && (*t[i]).c == v[i]->c && (**it).c == v[i]->c && (*e).c == v[i]->c && &*im == &m[i], key,
            "node " << i << " of " << r.text());
    }
    MC_CHECK(it == t.end() && e == t.eend() && im == m.end(), key, "iteration over " << r.text() << " goes on");
    mc::state(mc::hash(r.text()));
    return r;
}
static Tree make(const Ref& r)
{
    std::list<N> l;
    r.preorder(l);
    gp_parse_tree::parse_tree<N> p(l.begin(), l.end());
    return Tree(p);
}
static Ref any_ref(const std::string& letters, unsigned& budget)
{
    // the budget counts the nodes still allowed, one of them reserved for this node
    std::string ok;
    for (char c : letters) if (arity_of(c) + 1u <= budget) ok += c;
    Ref r;
    r.c = ok[mc::choose(uint32_t(ok.size()))];
    unsigned n = arity_of(r.c);
    budget -= 1 + n;
    for (unsigned i = 0; i < n; ++i) {
        unsigned b = budget + 1;
        Ref x = any_ref(letters, b);
        budget = b;
        r.k.push_back(x);
    }
    return r;
}
static Ref any_tree(const std::string& letters, unsigned size)
{
    unsigned b = size;
    return any_ref(letters, b);
}
static std::vector<Ref> all_trees(const std::string& letters, unsigned size)
{
    std::set<Ref> s;
    std::function<std::vector<Ref>(unsigned)> gen = [&](unsigned n) {
        std::vector<Ref> out;
        for (char c : letters) {
            unsigned a = arity_of(c);
            if (a == 0 && n == 1) { Ref r; r.c = c; out.push_back(r); }
            if (a == 0 || n < a + 1) continue;
            std::vector<std::pair<Ref, unsigned>> part;
            Ref root; root.c = c;
            part.push_back({root, n - 1});
            for (unsigned i = 0; i < a; ++i) {
                std::vector<std::pair<Ref, unsigned>> next;
                for (auto& p : part)
                    for (unsigned m = 1; m <= p.second; ++m)
                        for (auto& kid : gen(m)) {
                            auto q = p;
                            q.first.k.push_back(kid);
                            q.second -= m;
                            next.push_back(q);
                        }
                part.swap(next);
            }
            for (auto& p : part) if (p.second == 0) out.push_back(p.first);
        }
        return out;
    };
    std::vector<Ref> r;
    for (unsigned n = 1; n <= size; ++n) for (auto& x : gen(n)) r.push_back(x);
    return r;
}

MC_SCENARIO("a tree equals the sequence it is built from, its copy and its text")
{
    Ref r = any_tree("xyn+-fg", mc::tier(5u, 6u));
    Tree t = make(r);
    MC_CHECK(examine(t, "built") == r, "built", "built " << r.text());
    double v = 0, w = 0;
    t.apply(v);
    t.apply(w, 3.0);
    MC_CHECK(v == r.eval(2) && w == r.eval(3), "value", "value of " << r.text() << " is " << v << " and " << w);
    Tree c(t);
    MC_CHECK(examine(c, "copy") == r && c == t && !(c != t), "copy", "copy of " << r.text());
    // written and read
    bool has = mc::flag();
    if (has) t.fitness(2.5);
    std::ostringstream os;
    os << t;
    std::istringstream is(os.str());
    Tree u = make(any_tree("x+", 3));
    u.fitness(1);
    is >> u;
    MC_CHECK(examine(u, "text") == r && u.invalid() == !has && (!has || u.fitness() == 2.5), "text", r.text() << " written as " << os.str());
    // pushed one node at a time, arguments first
    Tree q;
    q.clear();
    MC_CHECK(q.empty(), "clear", "a cleared tree is not empty");
    std::list<N> l;
    r.preorder(l);
    for (auto& n : l) q.push_back(n);
    MC_CHECK(q.valid() && examine(q, "pushed") == r, "pushed", r.text() << " pushed node by node");
    c.clear();
    MC_CHECK(c.empty() && examine(t, "kept") == r, "clear", "clearing a copy changed the original");
}

MC_SCENARIO("assignment and equality of trees")
{
    static std::vector<Ref> all = all_trees("xyn+f", 4);
    const Ref& a = all[mc::choose(uint32_t(all.size()))];
    const Ref& b = all[mc::choose(uint32_t(all.size()))];
    Tree x = make(a), y = make(b);
    MC_CHECK((x == y) == (a == b) && (x != y) == (a != b), "equal", a.text() << " and " << b.text());
    if (mc::flag()) {
        x.swap(y);
        MC_CHECK(examine(x, "swap") == b && examine(y, "swap") == a, "swap", "swap of " << a.text() << " and " << b.text());
    } else {
        x = y;
        MC_CHECK(examine(x, "assign") == b && examine(y, "assign") == b && x == y, "assign", a.text() << " := " << b.text());
    }
}

// every history of edits of one tree from nodes of itself, of another tree, and single nodes
MC_SCENARIO("editing keeps size, depth and parents right")
{
    static std::vector<Ref> all = all_trees("xn+f", 4);
    Ref r = all[mc::choose(uint32_t(all.size()))];
    Ref o;
    {
        Ref y, n, x;
        y.c = 'y'; n.c = 'n'; n.k.push_back(y); x.c = '+'; x.k.push_back(n); x.k.push_back(y);
        o = x;
    }
    Tree t = make(r), other = make(o);
    unsigned steps = mc::tier(2u, 3u);
    for (unsigned s = 0; s < steps; ++s) {
        unsigned i = mc::choose(uint32_t(t.size()));
        switch (mc::choose(4)) {
            case 0: {
                unsigned j = mc::choose(uint32_t(t.size()));
                t[i] = t[j];
                Ref copy = r.at(j);
                r.at(i) = copy;
                break;
            }
            case 1: {
                unsigned j = mc::choose(uint32_t(other.size()));
                t[i] = other[j];
                r.at(i) = o.at(j);
                break;
            }
            case 2: {
                // another label of the same arity
                Ref& x = r.at(i);
                char c = x.k.empty() ? 'y' : x.k.size() == 2 ? '-' : x.c;
                t[i] = N(c);
                x.c = c;
                break;
            }
            case 3: {
                unsigned j = mc::choose(uint32_t(other.size()));
                t[i].swap(other[j]);
                std::swap(r.at(i), o.at(j));
                break;
            }
        }
        mc::assume(r.size() <= 14);
        MC_CHECK(examine(t, "edit") == r, "edit", "expected " << r.text());
        MC_CHECK(examine(other, "edit source") == o, "edit source", "expected " << o.text());
    }
    // the weighted choice of nodes gives every node a share equal to its size
    std::map<const Sub*, unsigned> hits;
    for (size_t w = 0; w < t.back().cumulative_size(); ++w) ++hits[&t.back().select_cumulative(w)];
    for (size_t i = 0; i < t.size(); ++i)
        MC_CHECK(hits[&t[i]] == t[i].size(), "weighted", "node " << i << " of " << r.text() << " has share " << hits[&t[i]]);
}

// ------------------------------------------------------------------ initialisation
static std::vector<N> nodes_of(const std::string& s)
{
    std::vector<N> v;
    for (char c : s) v.push_back(N(c));
    return v;
}
static bool all_leaves_at(const Ref& r, unsigned d)
{
    if (r.k.empty()) return d == 1;
    for (auto& x : r.k) if (!all_leaves_at(x, d - 1)) return false;
    return true;
}

MC_SCENARIO("initialisation respects the depth and reaches every tree")
{
    std::string letters = mc::pick({std::string("x"), std::string("xy"), std::string("x+"), std::string("+x"), std::string("nx"), std::string("xn+"), std::string("+ynx"), std::string("xf")});
    bool inner = letters.find_first_of("n+f") != std::string::npos;
    unsigned depth = mc::range(1, 3);
    bool grow = mc::flag();
    if (!grow && !inner && depth > 1) mc::prune();
    if (letters == "xf" && depth == 3) mc::prune();
    if (letters == "+ynx" && depth == 3) mc::prune();
    std::vector<N> set = nodes_of(letters);
    std::set<Ref> seen;
    unsigned k = letters.size() == 3 ? 6 : unsigned(letters.size()) * 2;
    std::string terminals, others;
    for (char c : letters) (arity_of(c) ? others : terminals) += c;
    mc::forall([&] {
        mc::rng_grid(k, 7);
        eoParseTreeDepthInit<double, N> init(depth, set, grow);
        Tree t = make(any_tree("x", 1));
        init(t);
        Ref r = examine(t, "init");
        MC_CHECK(t.depth() <= depth, "init depth", r.text() << " with depth limit " << depth);
        MC_CHECK(grow || all_leaves_at(r, depth), "full depth", r.text() << " is not full at depth " << depth);
        for (char c : r.text()) MC_CHECK(c == '(' || c == ')' || letters.find(c) != std::string::npos, "init letters", r.text());
        seen.insert(r);
    });
    // the trees the definition allows (with a bounded number of nodes)
    std::vector<Ref> want;
    for (auto& r : all_trees(letters, 7)) {
        if (r.depth() > depth) continue;
        if (!grow && !all_leaves_at(r, depth)) continue;
        want.push_back(r);
    }
    for (auto& r : want) MC_CHECK(seen.count(r), "reachable", r.text() << " is never made at depth " << depth << (grow ? " grow" : " full") << " from " << letters);
}

MC_SCENARIO("ramped initialisation uses both methods at every depth")
{
    unsigned depth = mc::range(2, 5);
    bool grow = mc::flag();
    std::vector<N> set = nodes_of("xn");
    // a fixed choice of the last node makes the deepest tree of the current depth
    mc::rng_words({0xffffffffu}, 1000);
    eoParseTreeDepthInit<double, N> init(depth, set, grow, true);
    std::map<unsigned, unsigned> count;
    unsigned rounds = 3;
    for (unsigned i = 0; i < rounds * 2 * (depth - 1); ++i) {
        Tree t;
        init(t);
        Ref r = examine(t, "ramped");
        MC_CHECK(r.depth() <= depth && r.depth() >= 2, "ramped depth", r.text());
        ++count[r.depth()];
    }
    for (unsigned d = 2; d <= depth; ++d) MC_CHECK(count[d] == 2 * rounds, "ramped share", "depth " << d << " of " << depth << " used " << count[d] << " times");
    // a terminal first: grow may stop at once, full may not
    mc::rng_words({0u}, 1000);
    eoParseTreeDepthInit<double, N> low(depth, set, grow, true);
    unsigned small = 0, full = 0;
    for (unsigned i = 0; i < rounds * 2 * (depth - 1); ++i) {
        Tree t;
        low(t);
        Ref r = examine(t, "ramped");
        (r.size() == 1 ? small : full)++;
    }
    MC_CHECK(small == full, "ramped methods", small << " grown and " << full << " full trees");
    // the obsolete function fills a population of exactly the size asked for
    unsigned n = mc::range(0, 9);
    eoPop<Tree> pop;
    std::streambuf* old = std::cerr.rdbuf(nullptr);
    eoInitRampedHalfAndHalf(pop, n, depth, set);
    std::cerr.rdbuf(old);
    MC_CHECK(pop.size() == n, "ramped population", pop.size() << " for " << n);
    if (n) {
        // the same number of trees of each depth, half of them full (terminals come first)
        std::streambuf* err = std::cerr.rdbuf(nullptr);
        unsigned each = mc::range(1, 2), parts = 2 * (depth - 1);
        mc::rng_words({0u}, 1000);
        eoPop<Tree> some;
        eoInitRampedHalfAndHalf(some, each * parts, depth, set);
        std::cerr.rdbuf(err);
        std::map<unsigned, unsigned> by;
        for (auto& t : some) ++by[t.depth()];
        MC_CHECK(some.size() == each * parts && by[1] == each * parts / 2, "ramped population:grown", by[1] << " grown trees of " << some.size());
        for (unsigned d = 2; d <= depth; ++d) MC_CHECK(by[d] == each, "ramped population:full", by[d] << " full trees of depth " << d << " of " << some.size());
    }
    for (auto& t : pop) MC_CHECK(t.depth() <= depth, "ramped population", "too deep");
}

// ------------------------------------------------------------------ variation
static Ref pruned(Ref r, unsigned max, bool& cut)
{
    cut = r.size() > max;
    return r;
}
static void judge(const Ref& got, const Ref& want, unsigned max, const char* key, const std::string& what)
{
    MC_CHECK(got.size() <= std::max(1u, max), key, what << " gave " << got.text() << " of size " << got.size() << ", limit " << max);
    bool cut;
    pruned(want, max, cut);
    (void)cut;
}
// does one of the wanted results explain what was got?
static bool explains(const Ref& got, const Ref& want, unsigned max)
{
    return want.size() <= max ? got == want : want.has(got);
}

struct Given : public eoInit<Tree>
{
    std::vector<Ref> from;
    Ref last;
    int calls = 0;
    void operator()(Tree& t) { if (++calls > 2) mc::prune(); last = from[mc::choose(uint32_t(from.size()))]; t = make(last); t.invalidate(); }
};

MC_SCENARIO("subtree crossover exchanges two subtrees within the size limit")
{
    static std::vector<Ref> all = all_trees("xyn+", 4);
    static std::vector<Ref> more = all_trees("xf", 4);
    static bool once = [] { all.insert(all.end(), more.begin() + 1, more.end()); return true; }();
    (void)once;
    Ref a = all[mc::choose(uint32_t(all.size()))], b = all[mc::choose(uint32_t(all.size()))];
    unsigned max = mc::pick({1u, 2u, 3u, 4u, 5u, 50u});
    std::set<std::pair<unsigned, unsigned>> wanted;
    std::set<std::string> seen;
    mc::forall([&] {
        mc::rng_grid(12, 4);
        Tree x = make(a), y = make(b);
        x.fitness(1); y.fitness(2);
        eoSubtreeXOver<double, N> op(max);
        bool changed = op(x, y);
        Ref p = examine(x, "crossover"), q = examine(y, "crossover");
        judge(p, a, max, "crossover size", "crossover");
        judge(q, b, max, "crossover size", "crossover");
        MC_CHECK(changed || (p == a && q == b), "crossover flag", "a change is not reported");
        bool found = false;
        for (unsigned i = 0; i < a.size() && !found; ++i)
            for (unsigned j = 0; j < b.size() && !found; ++j) {
                Ref u = a, v = b;
                std::swap(u.at(i), v.at(j));
                found = explains(p, u, max) && explains(q, v, max);
            }
        MC_CHECK(found, "crossover result", a.text() << " x " << b.text() << " limit " << max << " gave " << p.text() << " and " << q.text());
        seen.insert(p.text() + " " + q.text());
    });
    if (max == 50)
        for (unsigned i = 0; i < a.size(); ++i)
            for (unsigned j = 0; j < b.size(); ++j) {
                Ref u = a, v = b;
                std::swap(u.at(i), v.at(j));
                MC_CHECK(seen.count(u.text() + " " + v.text()), "crossover choice", "exchange of " << i << " and " << j << " of " << a.text() << " and " << b.text() << " never happens");
            }
}

static const std::vector<Ref>& small_trees() { static std::vector<Ref> v = all_trees("xyn+f", 4); return v; }
static const std::vector<Ref>& init_trees() { static std::vector<Ref> v = all_trees("xn+", 3); return v; }

template <class Op, class Want>
static void mutation(const char* key, Op make_op, Want want, bool all_reached)
{
    const std::vector<Ref>& all = small_trees();
    Ref a = all[mc::choose(uint32_t(all.size()))];
    unsigned max = mc::pick({1u, 2u, 3u, 4u, 50u});
    std::set<std::string> seen;
    std::set<std::string> should;
    mc::forall([&] {
        // four words give every index of a draw among one to four
        mc::rng_words({0x19999999u, 0x4ccccccdu, 0x99999999u, 0xe6666666u}, 5);
        Tree x = make(a);
        x.fitness(1);
        Given init;
        init.from = init_trees();
        auto op = make_op(init, max);
        bool changed = (*op)(x);
        Ref p = examine(x, key);
        judge(p, a, max, key, key);
        MC_CHECK(changed || p == a, key, "a change is not reported");
        std::vector<Ref> w = want(a, init.last);
        bool found = false;
        for (auto& r : w) { found = found || explains(p, r, max); if (r.size() <= max) should.insert(r.text()); }
        MC_CHECK(found, key, a.text() << " limit " << max << " new tree " << init.last.text() << " gave " << p.text());
        seen.insert(p.text());
    });
    if (all_reached) for (auto& s : should) MC_CHECK(seen.count(s), key, a.text() << ": " << s << " is never made");
}
static std::vector<Ref> grafts(const Ref& a, Ref n, std::function<bool(const Ref&)> from, std::function<bool(const Ref&)> to)
{
    std::vector<Ref> out;
    Ref base = a;
    for (unsigned i = 0; i < a.size(); ++i) {
        if (!from(base.at(i))) continue;
        for (unsigned j = 0; j < n.size(); ++j) {
            if (!to(n.at(j))) continue;
            Ref r = a;
            r.at(i) = n.at(j);
            out.push_back(r);
        }
    }
    return out;
}
static bool any_node(const Ref&) { return true; }
static bool leaf(const Ref& r) { return r.k.empty(); }
static bool inner(const Ref& r) { return !r.k.empty(); }

MC_SCENARIO("branch mutation")
{
    mutation("branch", [](eoInit<Tree>& i, unsigned m) { return std::make_unique<eoBranchMutation<double, N>>(i, m); },
        [](const Ref& a, const Ref& n) { return grafts(a, n, any_node, any_node); }, true);
}
MC_SCENARIO("expansion mutation")
{
    mutation("expansion", [](eoInit<Tree>& i, unsigned m) { return std::make_unique<eoExpansionMutation<double, N>>(i, m); },
        [](const Ref& a, const Ref& n) { return grafts(a, n, leaf, inner); }, true);
}
MC_SCENARIO("collapse mutation")
{
    mutation("collapse", [](eoInit<Tree>& i, unsigned m) { return std::make_unique<eoCollapseSubtreeMutation<double, N>>(i, m); },
        [](const Ref& a, const Ref& n) { return a.size() == 1 ? grafts(a, n, any_node, leaf) : grafts(a, n, inner, leaf); }, true);
}
MC_SCENARIO("point mutation keeps the shape")
{
    const std::vector<Ref>& all = small_trees();
    Ref a = all[mc::choose(uint32_t(all.size()))];
    std::vector<N> set = nodes_of("x+yn-f");
    std::set<std::string> seen, should;
    for (unsigned i = 0; i < a.size(); ++i)
        for (auto& n : set) {
            Ref r = a;
            if (arity_of(r.at(i).c) != n.arity()) continue;
            r.at(i).c = n.c;
            should.insert(r.text());
        }
    mc::forall([&] {
        mc::rng_grid(12, 3);
        Tree x = make(a);
        eoPointMutation<double, N> op(set);
        bool changed = op(x);
        Ref p = examine(x, "point");
        MC_CHECK(should.count(p.text()) && (changed || p == a), "point", a.text() << " gave " << p.text());
        seen.insert(p.text());
    });
    for (auto& s : should) MC_CHECK(seen.count(s), "point", a.text() << ": " << s << " is never made");
}
MC_SCENARIO("hoist mutation returns a subtree")
{
    const std::vector<Ref>& all = small_trees();
    Ref a = all[mc::choose(uint32_t(all.size()))];
    std::set<std::string> seen, should;
    for (unsigned i = 0; i < a.size(); ++i) { Ref r = a; should.insert(r.at(i).text()); }
    mc::forall([&] {
        mc::rng_grid(12, 3);
        Tree x = make(a);
        eoHoistMutation<double, N> op;
        bool changed = op(x);
        Ref p = examine(x, "hoist");
        MC_CHECK(should.count(p.text()) && (changed || p == a), "hoist", a.text() << " gave " << p.text());
        seen.insert(p.text());
    });
    for (auto& s : should) MC_CHECK(seen.count(s), "hoist", a.text() << ": " << s << " is never made");
}

// ------------------------------------------------------------------ strongly typed trees
static const std::string typed_letters = "xB!<ih";
static std::vector<Ref> typed_trees(unsigned size, int type)
{
    std::vector<Ref> v;
    for (auto& r : all_trees(typed_letters, size)) if (r.typed(type)) v.push_back(r);
    return v;
}

MC_SCENARIO("strongly typed initialisation")
{
    unsigned depth = mc::range(1, 3);
    int type = mc::range(0, 1);
    bool grow = mc::flag();
    std::string letters = mc::pick({std::string("xB<!"), std::string("x+<"), std::string("xBhi")});
    // every type asked for must be able to end
    if (letters == "x+<" && type == 1 && depth == 1) mc::prune();
    if (!grow && (letters == "xB<!" || (letters == "xBhi")) && depth > 1) mc::prune();
    std::set<Ref> seen;
    mc::forall([&] {
        mc::rng_grid(6, mc::tier(7, 8));
        eoStParseTreeDepthInit<double, N> init(depth, nodes_of(letters), type, grow);
        Tree t;
        init(t);
        Ref r = examine(t, "typed init");
        MC_CHECK(r.typed(type), "typed init", r.text() << " is not of type " << type);
        MC_CHECK(r.depth() <= depth && (grow || all_leaves_at(r, depth)), "typed depth", r.text() << " at depth " << depth);
        seen.insert(r);
    });
    for (auto& r : all_trees(letters, 5))
        if (r.typed(type) && r.depth() <= depth && (grow || all_leaves_at(r, depth)))
            MC_CHECK(seen.count(r), "typed reachable", r.text() << " of type " << type << " is never made at depth " << depth << (grow ? " grow" : " full") << " from " << letters);
}
MC_SCENARIO("strongly typed crossover keeps the types")
{
    int ta = mc::range(0, 1), tb = mc::range(0, 1);
    static std::vector<Ref> all[2] = {typed_trees(4, 0), typed_trees(4, 1)};
    Ref a = all[ta][mc::choose(uint32_t(all[ta].size()))], b = all[tb][mc::choose(uint32_t(all[tb].size()))];
    bool common = false;
    for (unsigned i = 0; i < a.size(); ++i)
        for (unsigned j = 0; j < b.size(); ++j) common = common || type_of(a.at(i).c) == type_of(b.at(j).c);
    mc::rng_words({0x19999999u, 0x4ccccccdu, 0x99999999u, 0xe6666666u}, 5);
    Tree x = make(a), y = make(b);
    eoStSubtreeXOver<double, N> op(50);
    op(x, y);
    Ref p = examine(x, "typed crossover"), q = examine(y, "typed crossover");
    MC_CHECK(p.typed(ta) && q.typed(tb), "typed crossover", a.text() << " and " << b.text() << " gave " << p.text() << " and " << q.text());
    bool found = !common && p == a && q == b;
    for (unsigned i = 0; i < a.size() && !found; ++i)
        for (unsigned j = 0; j < b.size() && !found; ++j) {
            Ref u = a, v = b;
            if (type_of(u.at(i).c) != type_of(v.at(j).c)) continue;
            std::swap(u.at(i), v.at(j));
            found = u == p && v == q;
        }
    MC_CHECK(found, "typed crossover result", a.text() << " and " << b.text() << " gave " << p.text() << " and " << q.text());
}
MC_SCENARIO("strongly typed mutations keep the types")
{
    int type = mc::range(0, 1);
    static std::vector<Ref> all[2] = {typed_trees(4, 0), typed_trees(4, 1)};
    Ref a = all[type][mc::choose(uint32_t(all[type].size()))];
    Tree x = make(a);
    unsigned kind = mc::choose(3);
    Given init;
    static std::vector<Ref> news[2] = {typed_trees(3, 0), typed_trees(3, 1)};
    init.from = news[type];
    mc::rng_grid(12, 4);
    std::vector<N> set = nodes_of("xyBb!<=ihn+");
    eoStBranchMutation<double, N> branch(init, 50);
    eoStPointMutation<double, N> point(set);
    eoStHoistMutation<double, N> hoist(init, 50);
    eoMonOp<Tree>* op[] = {&branch, &point, &hoist};
    (*op[kind])(x);
    Ref p = examine(x, "typed mutation");
    MC_CHECK(p.typed(type), "typed mutation", a.text() << " gave " << p.text() << " by " << (kind == 0 ? "branch" : kind == 1 ? "point" : "hoist"));
    if (kind == 2) MC_CHECK(a.has(p), "typed hoist", a.text() << " gave " << p.text());
    if (kind == 1) MC_CHECK(p.size() == a.size(), "typed point", a.text() << " gave " << p.text());
}
