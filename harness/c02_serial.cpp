// Text serialisation of values.
#include "mc.hpp"
#include <list>
#include <map>
#include <memory>
#include <cfloat>
#include <climits>
#include <serial/eoSerial.h>
#include <utils/eoTimer.h>
using namespace mc;
using namespace eoserial;

static std::string text(const Entity& e) { std::ostringstream o; e.print(o); return o.str(); }
static bool same(const Entity* a, const Entity* b)
{
    if (!a || !b) return a == b;
    if (auto s = dynamic_cast<const String*>(a)) { auto t = dynamic_cast<const String*>(b); return t && (const std::string&)*s == (const std::string&)*t; }
    if (auto s = dynamic_cast<const Array*>(a)) {
        auto t = dynamic_cast<const Array*>(b); if (!t || t->size() != s->size()) return false;
        for (size_t i = 0; i < s->size(); ++i) if (!same((*s)[i], (*t)[i])) return false;
        return true;
    }
    auto s = dynamic_cast<const Object*>(a), t = dynamic_cast<const Object*>(b);
    if (!s || !t || s->size() != t->size()) return false;
    for (auto& kv : *s) { auto f = t->find(kv.first); if (f == t->end() || !same(kv.second, f->second)) return false; }
    return true;
}
static void round_trip(const Object& o, const char* key)
{
    std::string t = text(o);
    std::unique_ptr<Object> p(Parser::parse(t));
    state(hash(t));
    MC_CHECK(same(&o, p.get()), key, "'" << t << "' is read as '" << (p ? text(*p) : std::string("nothing")) << "'");
    MC_CHECK(text(*p) == t, key, "printed again it differs");
}
static std::string any_text(unsigned maxlen)
{
    static const char alpha[] = {'"', '\\', 'a', ',', ' ', '}', ']', ':', '\n', '{', '[', '\t'};
    unsigned n = range(0, maxlen); std::string s;
    for (unsigned i = 0; i < n; ++i) s += alpha[choose(n > 3 ? 5 : sizeof alpha)];
    return s;
}
MC_SCENARIO("every short string as a value, key and element")
{
    std::string s = any_text(tier(4, 6));
    Object o;
    switch (choose(6)) {
    case 0: o.add("k", make(s)); break;
    case 1: o.add(s, make(std::string("v"))); break;
    case 2: o.add("k", make(s)); o.add("z", make(std::string("v"))); break;
    case 3: { Array* a = new Array; a->push_back(make(s)); a->push_back(make(std::string(""))); a->push_back(make(s)); o.add("k", a); break; }
    case 4: { Object* i = new Object; i->add(s, make(s)); o.add("k", i); o.add("l", make(std::string("v"))); break; }
    default: { Array* a = new Array; Object* i = new Object; i->add("x", make(s)); a->push_back(i); a->push_back(make(s)); o.add(s, a); }
    }
    round_trip(o, "string");
}
MC_SCENARIO("a pair of strings")
{
    std::string a = any_text(2), b = any_text(tier(1, 2));
    Object o; Array* r = new Array; r->push_back(make(a)); r->push_back(make(b)); o.add(a, r); if (b != a) o.add(b, make(a));
    round_trip(o, "pair");
}
static Entity* any_tree(unsigned depth)
{
    static const std::vector<std::string> leaf = {"", "a", "}\"", "\\"};
    unsigned kind = depth ? choose(3) : 0;
    if (kind == 0) return make(leaf[choose(depth > 1 ? 2 : 4)]);
    unsigned n = range(0, 2);
    if (kind == 1) { Array* a = new Array; for (unsigned i = 0; i < n; ++i) a->push_back(any_tree(depth - 1)); return a; }
    Object* o = new Object; for (unsigned i = 0; i < n; ++i) o->add(i ? "b" : "", any_tree(depth - 1)); return o;
}
MC_SCENARIO("nested values")
{
    Object o; unsigned n = range(0, 2);
    if (n >= 1) o.add("x", any_tree(2));
    if (n == 2) o.add("y", any_tree(tier(1, 2)));
    round_trip(o, "nested");
}
MC_SCENARIO("blanks between tokens do not matter")
{
    static const std::vector<std::string> blank = {"", " ", "\n", "\t", "\r\n", " \t "};
    static const std::vector<std::string> tok = {"{", "\"k\"", ":", "\"v w\"", ",", "\"l\"", ":", "[", "\"1\"", ",", "{", "\"m\"", ":", "\"\"", "}", "]", "}"};
    std::vector<unsigned> gap(tok.size() + 1, choose(2));
    unsigned a = choose(unsigned(gap.size())), b = choose(unsigned(gap.size())), c = tier(0u, 1u) ? choose(unsigned(gap.size())) : a;
    assume(a <= b && (c == a || b <= c));
    gap[a] = choose(6); if (b != a) gap[b] = choose(6); if (c != a && c != b) gap[c] = choose(6);
    std::string t;
    for (size_t i = 0; i < tok.size(); ++i) t += blank[gap[i]] + tok[i];
    t += blank[gap.back()];
    std::unique_ptr<Object> p(Parser::parse(t));
    state(hash(t));
    Object o; o.add("k", make(std::string("v w"))); Array* r = new Array; r->push_back(make(std::string("1"))); Object* i = new Object; i->add("m", make(std::string(""))); r->push_back(i); o.add("l", r);
    MC_CHECK(p && same(&o, p.get()), "blanks", "'" << t << "' is read as '" << (p ? text(*p) : std::string("nothing")) << "'");
}
// escapes as documented: a backslash stands before a quote or another backslash
MC_SCENARIO("escapes in text are understood")
{
    std::string raw = any_text(tier(4, 5)), esc;
    for (char c : raw) { if (c == '"' || c == '\\') esc += '\\'; esc += c; }
    std::unique_ptr<Object> p(Parser::parse("{\"" + esc + "\":\"" + esc + "\",\"end\":[\"" + esc + "\"]}"));
    state(hash(esc));
    MC_CHECK(p && p->count(raw) && p->count("end") && p->size() == (raw == "end" ? 1u : 2u), "escapes", "'" << esc << "'");
    auto s = dynamic_cast<String*>((*p)[raw]); auto a = dynamic_cast<Array*>((*p)["end"]);
    MC_CHECK(s && *s == raw && a && a->size() == 1 && *static_cast<String*>((*a)[0]) == raw, "escapes", "'" << esc << "'");
}
// ------------------------------------------------------------------ typed values
template <class T> static bool eq(const T& a, const T& b) { return a == b; }
template <class T> static void typed(const T& v, const char* key)
{
    Object o; o.add("k", pack(v)); o.add("other", make(std::string("x")));
    std::string t = text(o); state(hash(t));
    std::unique_ptr<Object> p(Parser::parse(t));
    T w = T(); unpack(*p, "k", w);
    MC_CHECK(eq(v, w), key, t);
}
template <class T> static void everywhere(const std::vector<T>& menu, const char* key)
{
    T a = menu[choose(unsigned(menu.size()))], b = menu[choose(unsigned(menu.size()))];
    unsigned n = range(0, 2);
    std::vector<T> v; if (n > 0) v.push_back(a); if (n > 1) v.push_back(b);
    switch (choose(7)) {
    case 0: typed(a, key); break;
    case 1: typed(v, key); break;
    case 2: typed(std::list<T>(v.begin(), v.end()), key); break;
    case 3: { std::map<std::string, T> m; if (n > 0) m[""] = a; if (n > 1) m["b"] = b; typed(m, key); break; }
    case 4: { std::vector<std::vector<T>> vv(1, v); if (n > 1) vv.push_back(std::vector<T>()); vv.push_back(v); typed(vv, key); break; }
    case 5: { std::map<std::string, std::vector<T>> m; m["x"] = v; m["y"]; typed(m, key); break; }
    default: {
        Object o; o.add("k", makeArray<std::vector<T>, MakeAlgorithm>(v)); o.add("s", make(a));
        std::unique_ptr<Object> p(Parser::parse(text(o)));
        std::vector<T> w; T c = T();
        unpackArray<std::vector<T>, Array::UnpackAlgorithm>(*p, "k", w); unpack(*p, "s", c);
        state(hash(text(o)));
        MC_CHECK(v == w && a == c, key, text(o));
        if (n == 2) { T d = T(); unpack(*static_cast<Array*>((*p)["k"]), 1, d); MC_CHECK(d == b, key, text(o)); }
    }
    }
}
MC_SCENARIO("integers") { everywhere<int>({0, 1, -1, INT_MAX, INT_MIN, 1000000}, "int"); }
MC_SCENARIO("long integers") { everywhere<long>({0, LONG_MAX, LONG_MIN, 4294967296L}, "long"); }
MC_SCENARIO("unsigned integers") { everywhere<unsigned long>({0, ULONG_MAX, 7}, "unsigned"); }
MC_SCENARIO("real numbers") { everywhere<double>({0.0, -0.5, 0.1, 1.0 / 3, 2.0 / 3, 123456789.123456789, DBL_MAX, -DBL_MIN, DBL_EPSILON, 1 + DBL_EPSILON, std::nextafter(0.1, 1), 1e22, 5e-324}, "double"); }
MC_SCENARIO("booleans") { typed(flag(), "bool"); }
MC_SCENARIO("single precision numbers") { everywhere<float>({0.f, 0.1f, 1.f / 3, FLT_MAX, FLT_MIN, std::nextafter(1.f, 2.f)}, "float"); }
MC_SCENARIO("strings in containers") { everywhere<std::string>({"", "a b", "\"", "\\", "}", ", ", "\\\"", "1"}, "text"); }

struct Item : Persistent
{
    std::string name; std::vector<double> v; int n = 0;
    void unpack(const Object* o) { eoserial::unpack(*o, "name", name); v.clear(); eoserial::unpack(*o, "v", v); eoserial::unpack(*o, "n", n); }
    Object* pack() const { Object* o = new Object; o->add("name", make(name)); o->add("v", eoserial::pack(v)); o->add("n", make(n)); return o; }
    bool operator==(const Item& i) const { return name == i.name && v == i.v && n == i.n; }
};
static Item any_item() { Item i; i.name = pick(std::vector<std::string>{"", "x", "\"]"}); i.n = pick({0, -7}); for (unsigned k = range(0, 2); k > 0; --k) i.v.push_back(pick({0.1, 3.0})); return i; }
MC_SCENARIO("user objects in objects and arrays")
{
    Item a = any_item(), b = any_item();
    Object o; o.add("a", &a);
    std::vector<Item> v; unsigned n = range(0, 2); if (n > 0) v.push_back(a); if (n > 1) v.push_back(b);
    o.add("v", makeArray<std::vector<Item>, SerializablePushAlgorithm>(v));
    o.add("w", pack(v)); std::map<std::string, Item> m; m["i"] = b; o.add("m", pack(m));
    std::string t = text(o); state(hash(t));
    std::unique_ptr<Object> p(Parser::parse(t));
    Item c, d; std::vector<Item> w, x; std::map<std::string, Item> q;
    unpackObject(*p, "a", c); unpack(*p, "a", d);
    unpackArray<std::vector<Item>, Array::UnpackObjectAlgorithm>(*p, "v", w); unpack(*p, "w", x); unpack(*p, "m", q);
    MC_CHECK(c == a && d == a && w == v && x == v && q.size() == 1 && q["i"] == b, "user objects", t);
    if (n == 2) { Item e; unpackObject(*static_cast<Array*>((*p)["v"]), 1, e); MC_CHECK(e == b, "user objects", t); }
}
MC_SCENARIO("time statistics")
{
    eoTimerStat s; unsigned n = range(0, 2);
    for (unsigned i = 0; i < n; ++i) {
        auto& x = s.stats()[i ? "send \"b\"" : ""];
        for (unsigned k = range(0, 2); k > 0; --k) { x.utime.push_back(pick({0L, LONG_MAX})); x.stime.push_back(pick({1L, -2L})); x.wtime.push_back(pick({0.1, 1.0 / 3})); }
    }
    Object o; o.add("t", &s);
    std::unique_ptr<Object> p(Parser::parse(text(o)));
    eoTimerStat r; if (flag()) r.stats()["old"].utime.push_back(3);
    unpackObject(*p, "t", r);
    state(hash(text(o)));
    MC_CHECK(r.stats().size() == n, "time statistics", text(o));
    for (auto& kv : s.stats()) { auto& x = r.stats()[kv.first]; MC_CHECK(x.utime == kv.second.utime && x.stime == kv.second.stime && x.wtime == kv.second.wtime, "time statistics", text(o)); }
}
