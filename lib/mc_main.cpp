#include "mc.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fstream>
#include <chrono>
#ifndef MC_NO_EO
#include <utils/eoRNG.h>
#include <utils/eoLogger.h>
#endif

namespace eo {
#ifndef MC_NO_EO
uint32_t (*verif_rand)() = 0;
#endif
}

namespace mc
{
namespace
{
struct Choice { uint32_t n, c; };
std::vector<Choice> path;               // of the current execution
size_t pos = 0;
bool nested = false;                    // inside forall
std::vector<Choice> npath;
size_t npos = 0;
double nprob = 1, nmass = 0;
bool replaying = false;
bool in_exec = false;
std::vector<uint32_t> replay_choices;
bool is_thorough = false;
uint64_t n_exec = 0, n_pruned = 0, n_edges = 0, n_steps = 0, n_words = 0, n_states_lost = 0;
std::unordered_set<uint64_t> states;
std::vector<std::string> samples;
std::map<std::string, uint64_t> notes;
std::vector<Violation> violations;
bool verbose = false;

// shared with the driver: [0]=executions, [1]=depth, [2..] choices (n<<32|c)
volatile uint64_t* shm = 0;
const size_t SHM_MAX = 60000;

struct Rng
{
    int mode = 0;           // 0 off 1 menu 2 deviate 3 fixed 4 script
    std::vector<uint32_t> menu;
    unsigned limit = 64, used = 0, devs = 0, d = 0, span = 0;
    uint64_t s = 0;
    bool script_prune = true;
} R;

uint32_t base_word()
{
    R.s += 0x9E3779B97F4A7C15ull;
    uint64_t z = R.s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return uint32_t((z ^ (z >> 31)) >> 16);
}

uint32_t hook()
{
    ++n_words;
    unsigned k = R.used++;
    switch (R.mode) {
    case 1:
        if (k >= R.limit) throw Prune();
        return R.menu[choose(uint32_t(R.menu.size()))];
    case 2: {
        uint32_t b = base_word();
        if (k < R.span && R.devs < R.d) {
            uint32_t c = choose(uint32_t(R.menu.size() + 1));
            if (c) { ++R.devs; return R.menu[c - 1]; }
        }
        if (k > R.limit) throw Prune();
        return b; }
    case 3:
        if (k > R.limit) throw Prune();
        return base_word();
    case 4:
        if (k < R.menu.size()) return R.menu[k];
        if (R.script_prune) throw Prune();
        return base_word();
    }
    return 0;
}

void arm(int mode)
{
    R.mode = mode; R.used = 0; R.devs = 0;
#ifndef MC_NO_EO
    eo::rng.clearCache();
    eo::verif_rand = mode ? hook : 0;
#endif
}
} // anonymous

std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
Register::Register(const char* n, Body b, int t) { registry().push_back(Scenario{n, b, t}); }
bool thorough() { return is_thorough; }

uint32_t choose(uint32_t n)
{
    if (n == 0) { fprintf(stderr, "mc: choose(0)\n"); _exit(3); }
    if (n == 1) return 0;
    ++n_edges;
    uint32_t c;
    if (nested) {
        if (npos < npath.size()) {
            if (npath[npos].n != n) { fprintf(stderr, "mc: nested enumeration is not deterministic\n"); _exit(5); }
        } else npath.push_back(Choice{n, 0});
        nprob /= n;
        return npath[npos++].c;
    }
    if (replaying) {
        c = pos < replay_choices.size() ? replay_choices[pos] : 0;
        if (c >= n) { fprintf(stderr, "mc: replay diverged at %zu (%u >= %u)\n", pos, c, n); _exit(4); }
        ++pos;
    } else if (pos < path.size()) {
        if (path[pos].n != n) {
            fprintf(stderr, "mc: scenario is not deterministic at depth %zu (%u vs %u)\n", pos, path[pos].n, n);
            _exit(5);
        }
        c = path[pos++].c;
    } else {
        path.push_back(Choice{n, 0}); ++pos; c = 0;
    }
    if (shm && pos < SHM_MAX) { shm[2 + pos - 1] = (uint64_t(n) << 32) | c; shm[1] = pos; }
    return c;
}

void prune() { throw Prune(); }
bool fresh() { return !replaying && !nested && pos >= path.size(); }
uint64_t path_hash()
{
    uint64_t h = 3;
    for (size_t i = 0; i < pos; ++i) h = mix(h, replaying ? (i < replay_choices.size() ? replay_choices[i] : 0) : path[i].c);
    return h;
}

uint64_t forall(const std::function<void()>& f)
{
    if (nested) { fprintf(stderr, "mc: forall inside forall\n"); _exit(5); }
    struct Guard { Guard() { nested = true; } ~Guard() { nested = false; } } g;
    npath.clear(); nmass = 0;
    uint64_t leaves = 0;
    for (;;) {
        npos = 0; nprob = 1;
#ifndef MC_NO_EO
        eo::rng.clearCache();
#endif
        R.used = 0; R.devs = 0;
        try { f(); ++leaves; ++n_exec; }
        catch (Prune&) { nmass += nprob; ++n_pruned; }
        if (shm) shm[0] = n_exec + n_pruned;
        npath.resize(std::min(npos, npath.size()));
        while (!npath.empty() && npath.back().c + 1 >= npath.back().n) npath.pop_back();
        if (npath.empty()) break;
        ++npath.back().c;
    }
    return leaves;
}
double leaf_prob() { return nprob; }
double pruned_mass() { return nmass; }

static std::vector<uint32_t> grid(unsigned k)
{
    std::vector<uint32_t> w;
    for (unsigned i = 0; i < k; ++i)
        w.push_back(uint32_t((double(i) + 0.5) * 4294967296.0 / k));
    return w;
}
void rng_grid(unsigned k, unsigned limit) { R.menu = grid(k); R.limit = limit; arm(1); }
void rng_grid_edges(unsigned k, unsigned limit)
{
    R.menu = grid(k); R.menu.insert(R.menu.begin(), 0u); R.menu.push_back(0xFFFFFFFFu);
    R.limit = limit; arm(1);
}
void rng_words(const std::vector<uint32_t>& w, unsigned limit) { R.menu = w; R.limit = limit; arm(1); }
void rng_deviate(unsigned k, unsigned d, unsigned span, uint32_t seed)
{
    R.menu = grid(k); R.d = d; R.span = span; R.s = 0x12345678ull * (seed + 1); R.limit = 2000000; arm(2);
}
void rng_fixed(uint32_t seed) { R.s = 0x12345678ull * (seed + 1); R.limit = 20000000; arm(3); }
void rng_script(const std::vector<uint32_t>& w, bool p) { R.menu = w; R.script_prune = p; R.s = 99; arm(4); }
void rng_off() { arm(0); }
unsigned rng_used() { return R.used; }
void rng_reset_used() { R.used = 0; }

void state(uint64_t f) { if (states.size() < 8000000) states.insert(f); else ++n_states_lost; }
void step(uint64_t n) { n_steps += n; }
void sample(const std::string& t) { if (samples.size() < 4 && (n_exec < 2 || n_exec % 97 == 0)) samples.push_back(t); }
void note(const std::string& k, uint64_t n) { notes[k] += n; }
void observe(const std::string& w) { if (replaying || verbose) fprintf(stderr, "  %s\n", w.c_str()); }
void fail(const std::string& key, const std::string& msg)
{
    for (auto& v : violations)
        if (v.key == key) { ++v.count; throw Stop(); }
    Violation v; v.key = key; v.msg = msg; v.count = 1;
    if (replaying) v.choices = replay_choices;
    else for (size_t i = 0; i < pos; ++i) v.choices.push_back(path[i].c);
    violations.push_back(v);
    if (replaying) fprintf(stderr, "FAIL key=%s : %s\n", key.c_str(), msg.c_str());
    throw Stop();
}

static std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

static void one(Body b)
{
    pos = 0;
    R.mode = 0; R.used = 0; R.devs = 0;
#ifndef MC_NO_EO
    eo::verif_rand = 0;
    eo::rng.clearCache();
#endif
    in_exec = true;
    if (shm) shm[1] = 0;
    try { b(); ++n_exec; }
    catch (Prune&) { ++n_pruned; }
    catch (Stop&) { ++n_exec; }
    catch (std::exception& e) {
        ++n_exec;
        try { fail(std::string("exception:") + typeid(e).name(), std::string("exception left the library: ") + e.what()); }
        catch (Stop&) {}
    }
    in_exec = false;
    if (shm) shm[0] = n_exec + n_pruned;
#ifndef MC_NO_EO
    eo::verif_rand = 0;
#endif
}
} // mc

using namespace mc;

static void write_out(const char* out, const std::string& scen, bool complete)
{
    std::ofstream o(out);
    o << "{\"scenario\":\"" << esc(scen) << "\",\"executions\":" << n_exec << ",\"pruned\":" << n_pruned
      << ",\"edges\":" << n_edges << ",\"steps\":" << n_steps << ",\"words\":" << n_words
      << ",\"states\":" << states.size() << ",\"states_lost\":" << n_states_lost
      << ",\"complete\":" << (complete ? "true" : "false") << ",\"notes\":{";
    bool f = true;
    for (auto& p : notes) { o << (f ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; f = false; }
    o << "},\"samples\":[";
    f = true;
    for (auto& s : samples) { o << (f ? "" : ",") << "\"" << esc(s) << "\""; f = false; }
    o << "],\"violations\":[";
    f = true;
    for (auto& v : violations) {
        o << (f ? "" : ",") << "{\"key\":\"" << esc(v.key) << "\",\"msg\":\"" << esc(v.msg) << "\",\"count\":" << v.count << ",\"choices\":[";
        for (size_t i = 0; i < v.choices.size(); ++i) o << (i ? "," : "") << v.choices[i];
        o << "]}"; f = false;
    }
    o << "]}\n";
}

int main(int argc, char** argv)
{
    std::string scen; const char* out = 0; const char* trace = 0; const char* replay = 0; const char* after = 0;
    bool list = false; double seconds = 0;
    const auto began = std::chrono::steady_clock::now();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "--scenario") scen = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--trace") trace = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--after") after = argv[++i];
        else if (a == "--limit") seconds = atof(argv[++i]);
        else if (a == "--thorough") is_thorough = true;
        else if (a == "--verbose") verbose = true;
    }
    if (list) {
        for (auto& s : registry()) if (!s.thoroughOnly || is_thorough) printf("%s\n", s.name.c_str());
        return 0;
    }
    struct rlimit rl; rl.rlim_cur = 0; rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#if !defined(MC_NO_MEMLIMIT) && !defined(__SANITIZE_ADDRESS__)
    rl.rlim_cur = rl.rlim_max = rlim_t(6) << 30; setrlimit(RLIMIT_AS, &rl);
#endif
    Body body = 0;
    for (auto& s : registry()) if (s.name == scen) body = s.body;
    if (!body) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 3; }
    if (trace) {
        int fd = open(trace, O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, (SHM_MAX + 8) * 8)) return 3;
        void* p = mmap(0, (SHM_MAX + 8) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 3;
        shm = (volatile uint64_t*)p;
    }
    std::ios_base::sync_with_stdio(true);
#ifndef MC_NO_EO
    eo::log << eo::setlevel(eo::quiet);
#endif
    if (replay) {
        std::ifstream in(replay);
        uint32_t c; replaying = true;
        while (in >> c) replay_choices.push_back(c);
        one(body);
        if (out) write_out(out, scen, false);
        return violations.empty() ? 0 : 1;
    }
    bool more = true, skip = false;
    if (after) {            // go on behind an execution that brought the process down
        std::ifstream in(after);
        uint64_t v;
        while (in >> v) path.push_back(Choice{uint32_t(v >> 32), uint32_t(v)});
        pos = path.size(); skip = true;
    }
    while (more) {
        if (!skip) one(body);
        skip = false;
        // next element of the tree, depth first
        path.resize(pos < path.size() ? pos : path.size());
        more = false;
        while (!path.empty()) {
            if (path.back().c + 1 < path.back().n) { ++path.back().c; more = true; break; }
            path.pop_back();
        }
        if (violations.size() >= 40) break;
        if (seconds > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - began).count() > seconds) break;
    }
    bool complete = !more;
    if (out) write_out(out, scen, complete);
    else {
        printf("%s: exec=%llu pruned=%llu edges=%llu states=%zu violations=%zu\n", scen.c_str(),
               (unsigned long long)n_exec, (unsigned long long)n_pruned, (unsigned long long)n_edges, states.size(), violations.size());
        for (auto& v : violations) printf("  VIOL %s x%llu : %s\n", v.key.c_str(), (unsigned long long)v.count, v.msg.c_str());
        for (auto& p : notes) printf("  note %s = %llu\n", p.first.c_str(), (unsigned long long)p.second);
    }
    return violations.empty() ? 0 : 1;
}
