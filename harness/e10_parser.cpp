// E10: command line, parameter file and parameter values.
#include "common.hpp"
#include <utils/eoParser.h>
#include <utils/eoHowMany.h>
#include <sys/mman.h>
#include <unistd.h>
#include <memory>

// a parameter file that exists only in memory
struct MemFile
{
    int fd; std::string path;
    MemFile(const std::string& text)
    {
        fd = memfd_create("params", 0);
        if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) { perror("memfd"); exit(2); }
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    ~MemFile() { close(fd); }
};
struct Args
{
    std::vector<std::string> text; std::vector<char*> argv;
    Args(std::vector<std::string> t) : text(t) { text.insert(text.begin(), "prog"); for (auto& s : text) argv.push_back(&s[0]); argv.push_back(nullptr); }
    unsigned argc() const { return unsigned(text.size()); }
};

// the reference: what a list of words gives
struct Given { bool there = false; std::string value; };
struct Words
{
    std::map<std::string, Given> by_param;              // by long name of a known parameter
    std::vector<std::string> unknown;                   // as written, without value
    static const std::vector<std::pair<std::string, char>>& known()
    {
        static const std::vector<std::pair<std::string, char>> k{ { "size", 's' }, { "rate", 'r' }, { "name", 'n' }, { "verbose", 'v' }, { "count", 0 }, { "help", 'h' }, { "stopOnUnknownParam", 0 } };
        return k;
    }
    void word(const std::string& w)
    {
        if (w.size() < 2 || w[0] != '-') return;
        std::string name, value; bool is_long = w[1] == '-';
        if (is_long) { size_t e = w.find('='); name = w.substr(2, e == std::string::npos ? e : e - 2); value = e == std::string::npos ? "" : w.substr(e + 1); }
        else { name = w.substr(1, 1); value = w.size() == 2 ? "1" : w[2] == '=' ? w.substr(3) : w.substr(2); }
        for (auto& k : known()) if (is_long ? k.first == name : (k.second && name[0] == k.second)) { by_param[k.first].there = true; by_param[k.first].value = value; return; }
        unknown.push_back((is_long ? "--" : "-") + name);
    }
};
struct Values { int size = 10; double rate = 0.5; std::string name = "none"; bool verbose = false; unsigned count = 7; };
static Values expected(const Words& w)
{
    Values v; auto get = [&](const char* n) -> const Given* { auto i = w.by_param.find(n); return i == w.by_param.end() ? nullptr : &i->second; };
    if (auto g = get("size")) v.size = std::stoi(g->value);
    if (auto g = get("rate")) v.rate = std::stod(g->value);
    if (auto g = get("name")) v.name = g->value;
    if (auto g = get("verbose")) v.verbose = g->value != "0";
    if (auto g = get("count")) v.count = unsigned(std::stoul(g->value));
    return v;
}
struct Registered
{
    eoValueParam<int>* size; eoValueParam<double>* rate; eoValueParam<std::string>* name; eoValueParam<bool>* verbose; eoValueParam<unsigned>* count;
    Registered(eoParser& p, bool backwards, bool viaGet)
    {
        for (int k = 0; k < 5; ++k) switch (backwards ? 4 - k : k) {
            case 0: size = viaGet ? &p.getORcreateParam(10, "size", "the size", 's', "First") : &p.createParam(10, "size", "the size", 's', "First"); break;
            case 1: rate = viaGet ? &p.getORcreateParam(0.5, "rate", "the rate -s=99 # --name=bad", 'r', "First") : &p.createParam(0.5, "rate", "the rate -s=99 # --name=bad", 'r', "First"); break;
            case 2: name = viaGet ? &p.getORcreateParam(std::string("none"), "name", "the name", 'n', "Second") : &p.createParam(std::string("none"), "name", "the name", 'n', "Second"); break;
            case 3: verbose = viaGet ? &p.getORcreateParam(false, "verbose", "say more", 'v') : &p.createParam(false, "verbose", "say more", 'v'); break;
            case 4: count = viaGet ? &p.getORcreateParam(7u, "count", "no short form", 0, "Second") : &p.createParam(7u, "count", "no short form", 0, "Second"); break;
        }
    }
};
static void compare(eoParser& p, Registered& r, const Words& w, const std::string& who)
{
    Values v = expected(w);
    MC_CHECK(r.size->value() == v.size && p.valueOf<int>("size") == v.size && p.get("size") == std::to_string(v.size), "value of size", who << ": size is " << r.size->value() << " instead of " << v.size);
    MC_CHECK(r.rate->value() == v.rate && p.valueOf<double>("rate") == v.rate, "value of rate", who << ": rate is " << r.rate->value() << " instead of " << v.rate);
    MC_CHECK(r.name->value() == v.name && p.valueOf<std::string>("name") == v.name, "value of name", who << ": name is " << r.name->value() << " instead of " << v.name);
    MC_CHECK(r.verbose->value() == v.verbose, "value of verbose", who << ": verbose is " << r.verbose->value());
    MC_CHECK(r.count->value() == v.count, "value of count", who << ": count is " << r.count->value() << " instead of " << v.count);
    for (auto& k : Words::known()) {
        auto i = w.by_param.find(k.first); bool there = i != w.by_param.end();
        MC_CHECK(p.isItThere(k.first) == there, "presence", who << ": " << k.first << (there ? " was given but is not there" : " was not given but is there"));
    }
    mc::state(mc::hash(std::to_string(v.size) + v.name + std::to_string(v.rate) + std::to_string(v.count) + (v.verbose ? "v" : "")));
    mc::step();
}
static void report(eoParser& p, const Words& w, const std::string& who)
{
    auto h = w.by_param.find("help"); bool help = h != w.by_param.end() && h->second.value != "0";
    auto s = w.by_param.find("stopOnUnknownParam"); bool stop = s == w.by_param.end() || s->second.value != "0";
    bool want = help || (stop && !w.unknown.empty());
    bool got = p.userNeedsHelp();
    MC_CHECK(got == want, "report", who << ": needs help is " << got << " instead of " << want);
    if (got && !help) {
        std::ostringstream o; p.printHelp(o);
        for (auto& u : w.unknown) MC_CHECK(o.str().find("Unknown parameter: " + u + " ") != std::string::npos, "unknown not named", who << ": " << u << " not reported in '" << o.str() << "'");
    }
    if (got && help) {
        std::ostringstream o; p.printHelp(o);
        for (auto& k : Words::known()) MC_CHECK(o.str().find("--" + k.first) != std::string::npos, "help incomplete", who << ": " << k.first << " not in the help");
    }
}
static const std::vector<std::string>& menu()
{
    static const std::vector<std::string> m{ "--size=1", "-s=2", "-s3", "--rate=0.25", "-r=0.75", "--name=a=b", "-n=c", "-v", "--verbose", "--verbose=0", "--count=9", "#-s=50", "word", "--other=1", "-z" };
    return m;
}
MC_SCENARIO("the last value given counts, the command line over the file")
{
    bool backwards = mc::flag(), viaGet = mc::flag();
    unsigned nf = mc::choose(mc::tier(2, 3)), na = mc::range(0, mc::tier(3 - int(nf), 3));
    std::vector<std::string> fw, aw;
    for (unsigned i = 0; i < nf; ++i) fw.push_back(mc::pick(menu()));
    for (unsigned i = 0; i < na; ++i) aw.push_back(mc::pick(menu()));
    std::string file; for (auto& x : fw) file += x + (x[0] == '#' ? "\n" : "   # comment -s=60 --rate=0.1\n");
    Words w; for (auto& x : fw) w.word(x); for (auto& x : aw) w.word(x);
    MemFile f("# parameters\n" + file);
    unsigned at = nf ? mc::choose(na + 1) : 0;
    std::vector<std::string> args = aw; if (nf) args.insert(args.begin() + at, "@" + f.path);
    Args a(args);
    std::string who = "file " + mc::show(fw) + " arguments " + mc::show(aw);
    eoParser p(a.argc(), a.argv.data(), "test");
    Registered r(p, backwards, viaGet);
    compare(p, r, w, who);
    report(p, w, who);
    // written and read back
    std::ostringstream o; p.printOn(o);
    MemFile f2(o.str());
    Args a2({ "@" + f2.path });
    eoParser p2(a2.argc(), a2.argv.data(), "test");
    Registered r2(p2, !backwards, false);
    Words known = w; known.unknown.clear();
    // the parameters of the parser itself are written too
    compare(p2, r2, known, who + " written as '" + o.str() + "'");
    report(p2, known, who + " read back");
}
MC_SCENARIO("values read later reach the registered parameters")
{
    unsigned n1 = mc::range(0, 1), n2 = mc::range(1, 2);
    std::vector<std::string> w1, w2;
    for (unsigned i = 0; i < n1; ++i) w1.push_back(mc::pick(menu()));
    for (unsigned i = 0; i < n2; ++i) w2.push_back(mc::pick(menu()));
    Words w; for (auto& x : w1) w.word(x); for (auto& x : w2) w.word(x);
    Args a(w1);
    eoParser p(a.argc(), a.argv.data());
    Registered r(p, mc::flag(), false);
    std::string text; for (auto& x : w2) text += x + "\n";
    int section = mc::choose(3);
    if (section == 1) text = "\\section{Parser}\n" + text + "\\section{Other}\n--size=77\n-n=bad\n";
    if (section == 2) text = "\\section{Other}\n--size=77\n-n=bad\n\\section{Parser}\n" + text;
    std::istringstream is(text);
    p.readFrom(is);
    compare(p, r, w, "first " + mc::show(w1) + " later " + mc::show(w2));
}
MC_SCENARIO("missing required parameters are reported")
{
    bool reqA = mc::flag(), reqB = mc::flag(); int giveA = mc::choose(3), giveB = mc::choose(3);
    std::vector<std::string> args;
    if (giveA) args.push_back(giveA == 1 ? "--alpha=4" : "-a=4");
    if (giveB) args.push_back(giveB == 1 ? "--beta=5" : "-b=5");
    Args a(args);
    eoParser p(a.argc(), a.argv.data());
    auto& x = p.createParam(1, "alpha", "first", 'a', "", reqA); auto& y = p.createParam(2, "beta", "second", 'b', "", reqB);
    bool missA = reqA && !giveA, missB = reqB && !giveB;
    bool need = p.userNeedsHelp();
    MC_CHECK(need == (missA || missB), "required", "required " << reqA << reqB << " given " << giveA << giveB << ": needs help is " << need);
    std::ostringstream o; if (need) p.printHelp(o);
    MC_CHECK((o.str().find("alpha missing") != std::string::npos) == missA && (o.str().find("beta missing") != std::string::npos) == missB, "required not named", "'" << o.str() << "'");
    MC_CHECK(x.value() == (giveA ? 4 : 1) && y.value() == (giveB ? 5 : 2), "required value", x.value() << " " << y.value());
    mc::state(mc::hash(o.str()));
}
MC_SCENARIO("a missing parameter file is an error")
{
    Args a({ mc::flag() ? "@/proc/self/fd/does-not-exist" : "@" });
    bool thrown = false; try { eoParser p(a.argc(), a.argv.data()); } catch (std::exception&) { thrown = true; }
    MC_CHECK(thrown, "missing file accepted", a.text[1]);
    mc::state(mc::hash(a.text[1]));
}
MC_SCENARIO("prefixes keep parameters apart")
{
    bool g1 = mc::flag(), g2 = mc::flag(), g0 = mc::flag();
    std::vector<std::string> args; if (g0) args.push_back("--size=1"); if (g1) args.push_back("--onesize=2"); if (g2) args.push_back("--twosize=3");
    Args a(args);
    eoParser p(a.argc(), a.argv.data());
    auto& x = p.createParam(10, "size", "d"); p.setPrefix("one"); auto& y = p.createParam(10, "size", "d"); auto& y2 = p.getORcreateParam(55, "size", "d");
    p.setPrefix("two"); auto& z = p.createParam(10, "size", "d"); p.resetPrefix();
    MC_CHECK(x.value() == (g0 ? 1 : 10) && y.value() == (g1 ? 2 : 10) && z.value() == (g2 ? 3 : 10) && &y == &y2, "prefix", x.value() << " " << y.value() << " " << z.value());
    MC_CHECK(!p.userNeedsHelp(), "prefix unknown", "a prefixed parameter is reported unknown");
    mc::state(mc::mix(x.value(), mc::mix(y.value(), z.value())));
}
MC_SCENARIO("wrong names and types are refused")
{
    Args a({ "--size=3" }); eoParser p(a.argc(), a.argv.data()); auto& x = p.createParam(1, "size", "d");
    bool t1 = false, t2 = false, t3 = false;
    try { p.valueOf<int>("sizes"); } catch (eoMissingParamException&) { t1 = true; }
    try { p.valueOf<double>("size"); } catch (eoWrongParamTypeException&) { t2 = true; }
    try { p.getValueParam<int>("siz"); } catch (eoMissingParamException&) { t3 = true; }
    MC_CHECK(t1 && t2 && t3, "wrong access", t1 << t2 << t3);
    auto& y = p.getORcreateParam(9, "size", "d"); MC_CHECK(&x == &y && y.value() == 3, "get or create", y.value());
    auto& q = p.getValueParam<int>("size"); MC_CHECK(&q == &x, "get", q.value());
    mc::state(1);
}

// ---- values -----------------------------------------------------------------
template <class T> static void round_trip(const T& v, const T& start, const std::string& key)
{
    eoValueParam<T> a(v, "x"), b(start, "x");
    b.setValue(a.getValue());
    MC_CHECK(b.value() == v, key, key << " written as '" << a.getValue() << "' reads back as '" << b.getValue() << "'");
    eoValueParam<T> c(start, "x"); c.value() = v;
    MC_CHECK(c.getValue() == a.getValue() && a.defValue() == a.getValue(), key, key << " prints '" << c.getValue() << "' or '" << a.getValue() << "', default '" << a.defValue() << "'");
    mc::state(mc::hash(key + a.getValue()));
}
MC_SCENARIO("a value written is the value read")
{
    std::vector<double> n{ 0, 1, -1, 0.5, 1.5, -2.25, 100, 1e-5, 123456, 0.3 };
    switch (mc::choose(8)) {
        case 0: round_trip<int>(mc::pick(std::vector<int>{ 0, 1, -1, 2147483647, -2147483647 - 1 }), 5, "int"); break;
        case 1: round_trip<unsigned>(mc::pick(std::vector<unsigned>{ 0, 1, 4294967295u }), 5, "unsigned"); break;
        case 2: round_trip<double>(mc::pick(n), 5, "double"); break;
        case 3: round_trip<bool>(mc::flag(), mc::flag(), "bool"); break;
        case 4: round_trip<std::string>(mc::pick(std::vector<std::string>{ "a", "a=b", "[0,1]", "x(1,2)" }), "other", "string"); break;
        case 5: round_trip<std::pair<double, double>>({ mc::pick(n), mc::pick(n) }, { 3, 4 }, "pair"); break;
        case 6: { std::vector<double> v(mc::choose(4)); for (auto& x : v) x = mc::pick(n); round_trip<std::vector<double>>(v, { 7, 7, 7, 7, 7 }, "vector"); break; }
        default: { std::vector<std::vector<double>> v(mc::choose(3)); for (auto& x : v) { x.resize(mc::choose(3)); for (auto& y : x) y = mc::pick({ 0.0, 1.5, -2.0 }); } round_trip<std::vector<std::vector<double>>>(v, { { 1 }, { 2, 3 } }, "matrix"); break; }
    }
}
MC_SCENARIO("vectors are read with every delimiter")
{
    std::vector<double> v(mc::range(1, 3)); for (auto& x : v) x = mc::pick({ 0.5, 1.5, -2.0, 30.0 });
    std::string sep = mc::pick(std::vector<std::string>{ ",", ";", " ", ", ", " ; " });
    std::ostringstream o; o << v.size(); for (double x : v) o << sep << x;
    eoValueParam<std::vector<double>> p(std::vector<double>{ 1, 2 }, "x"); p.setValue(o.str());
    MC_CHECK(p.value() == v, "vector text", "'" << o.str() << "' read as '" << p.getValue() << "'");
    mc::state(mc::hash(o.str()));
}
MC_SCENARIO("a vector parameter survives the parameter file")
{
    std::vector<double> v(mc::range(1, 3)); for (auto& x : v) x = mc::pick({ 0.5, 1.5, 30.0 });
    std::ostringstream o; o << "--vec=" << v.size(); for (double x : v) o << "," << x;
    Args a({ o.str() }); eoParser p(a.argc(), a.argv.data());
    auto& q = p.createParam(std::vector<double>{ 9 }, "vec", "a vector");
    MC_CHECK(q.value() == v, "vector argument", o.str() << " read as '" << q.getValue() << "'");
    std::ostringstream w; p.printOn(w); MemFile f(w.str());
    Args a2({ "@" + f.path }); eoParser p2(a2.argc(), a2.argv.data());
    auto& q2 = p2.createParam(std::vector<double>{ 9 }, "vec", "a vector");
    mc::state(mc::hash(o.str()));
    MC_CHECK(q2.value() == v, "vector file", o.str() << " written and read back as '" << q2.getValue() << "'");
}
MC_SCENARIO("how many: written, read and computed")
{
    int kind = mc::choose(3); unsigned size = mc::range(0, 12);
    eoHowMany h, back(3);
    double rate = 0; int count = 0;
    if (kind == 0) { rate = mc::pick({ 0.0, 0.25, 0.5, 1.0, 1.5, 7.0 }); h = eoHowMany(rate); }
    if (kind == 1) { count = mc::pick({ 1, 2, 5 }); h = eoHowMany(count); }
    if (kind == 2) { count = mc::pick({ -1, -2, -5 }); h = eoHowMany(count); }
    auto number = [&](eoHowMany& x) -> long { try { return x(size); } catch (std::exception&) { return -1; } };
    long want = kind == 0 ? long(std::ceil(rate * size)) : kind == 1 ? count : (long(size) + count < 0 ? -1 : long(size) + count);
    MC_CHECK(number(h) == want, "how many", "rate " << rate << " count " << count << " of " << size << " gives " << number(h) << " instead of " << want);
    std::ostringstream o; h.printOn(o); std::istringstream is(o.str());
    try { back.readFrom(is); } catch (std::exception& e) { mc::fail("how many text", "'" + o.str() + "' refused: " + e.what()); return; }
    MC_CHECK(number(back) == want, "how many text", "'" << o.str() << "' of " << size << " gives " << number(back) << " instead of " << want);
    mc::state(mc::mix(want, mc::hash(o.str())));
}
MC_SCENARIO("parametrised names split into name and arguments")
{
    std::vector<std::string> args(mc::choose(4)); for (auto& x : args) x = mc::pick(std::vector<std::string>{ "a", "12", "0.5", "long-word" });
    std::string sep = mc::pick(std::vector<std::string>{ ",", ", ", " ", " , " }); bool close = mc::flag(), pad = mc::flag();
    std::string t = "Name";
    if (!args.empty()) { t += pad ? "( " : "("; for (size_t i = 0; i < args.size(); ++i) t += (i ? sep : "") + args[i]; if (close) t += pad ? " )" : ")"; }
    eoParamParamType p(t);
    MC_CHECK(p.first == "Name" && p.second == args, "split", "'" << t << "' is '" << p.first << "' and " << mc::show(p.second));
    std::ostringstream o; p.printOn(o); std::istringstream is(o.str()); eoParamParamType q("x(y,z)"); q.readFrom(is);
    MC_CHECK(q.first == p.first && q.second == p.second, "split text", "'" << o.str() << "' is '" << q.first << "' and " << mc::show(q.second));
    mc::state(mc::hash(t));
}
