// E09: the random generator.
#include "common.hpp"
#include <utils/rnd_generators.h>
#include <utils/eoRndGenerators.h>

// ---- the raw sequence -------------------------------------------------------
// Matsumoto and Nishimura's generator with the seeding of its first publication
struct Reference
{
    uint32_t mt[624]; int i;
    Reference(uint32_t seed)
    {
        mt[0] = seed;
        for (int k = 1; k < 624; ++k) mt[k] = 69069u * mt[k - 1];
        i = 624;
    }
    uint32_t operator()()
    {
        if (i >= 624) {
            uint32_t old[624]; memcpy(old, mt, sizeof mt);
            for (int k = 0; k < 624; ++k) {
                uint32_t next = k + 1 < 624 ? old[k + 1] : mt[0];
                uint32_t far = k + 397 < 624 ? old[k + 397] : mt[k + 397 - 624];
                uint32_t y = (old[k] & 0x80000000u) | (next & 0x7fffffffu);
                mt[k] = far ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0u);
            }
            i = 0;
        }
        uint32_t y = mt[i++];
        y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u;
        return y ^ (y >> 18);
    }
};
static const std::vector<uint32_t> seeds{ 0, 1, 2, 3, 42, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 123456789u };
MC_SCENARIO("raw words follow the reference generator")
{
    uint32_t seed = mc::pick(seeds);
    unsigned skip = mc::pick(std::vector<unsigned>{ 0, 1, 623, 624, 625, 700 });
    bool re = mc::flag();
    eoRng r(re ? 77 : seed);
    if (re) { for (unsigned i = 0; i < skip; ++i) r.rand(); r.reseed(seed); }
    Reference ref((2 * seed) | 1);
    for (int i = 0; i < 2000; ++i) {
        uint32_t a = r.rand(), b = ref();
        MC_CHECK(a == b, "sequence", "seed " << seed << " word " << i << " is " << a << " instead of " << b);
        mc::state(mc::mix(seed, a));
    }
    mc::step(2000);
}
MC_SCENARIO("reseeding and clearing repeats every kind of draw")
{
    eoRng r(5);
    uint32_t seed = mc::pick(seeds);
    unsigned before = mc::range(0, 3);
    for (unsigned i = 0; i < before; ++i) r.normal();
    std::vector<double> a[2];
    for (int k = 0; k < 2; ++k) {
        r.reseed(seed); r.clearCache();
        for (int i = 0; i < 700; ++i) { a[k].push_back(r.normal()); a[k].push_back(r.uniform()); a[k].push_back(r.random(10)); if (i % 3) a[k].push_back(r.negexp(2)); }
    }
    MC_CHECK(a[0] == a[1], "repeat", "two sequences from seed " << seed << " differ");
}
// every way of drawing
static double draw(eoRng& r, unsigned kind)
{
    switch (kind) {
    case 0: return r.rand();
    case 1: return r.uniform();
    case 2: return r.normal();
    case 3: return r.normal(1.5);
    case 4: return r.normal(3, 0.5);
    case 5: return r.negexp(2);
    case 6: return r.random(7);
    case 7: return r.flip(0.3);
    case 8: return r.uniform(2, 5);
    case 9: return r.binomial(5, 0.4);
    default: return r.powerlaw(1, 10, 2.5);
    }
}
MC_SCENARIO("saving anywhere and loading continues the same sequence")
{
    uint32_t seed = mc::pick({ 1u, 42u, 0xFFFFFFFFu });
    eoRng a(seed), b(3);
    unsigned words = mc::pick(std::vector<unsigned>{ 0, 1, 2, 311, 622, 623, 624, 625, 1247, 1248, 1249 });
    for (unsigned i = 0; i < words; ++i) a.rand();
    unsigned normals = mc::range(0, 3);
    for (unsigned i = 0; i < normals; ++i) a.normal();
    if (mc::flag()) b.normal();                          // the target has a pending deviate of its own
    unsigned used = mc::choose(2) * 630;
    for (unsigned i = 0; i < used; ++i) b.rand();
    std::stringstream s;
    if (mc::flag()) s.precision(3);
    s << a;
    b.readFrom(s);
    MC_CHECK(!s.fail(), "load:fail", "the saved text could not be read");
    unsigned kind = mc::choose(11);
    for (int i = 0; i < 1300; ++i) {
        double x = draw(a, i == 0 ? kind : i % 11), y = draw(b, i == 0 ? kind : i % 11);
        MC_CHECK(x == y, "load", "draw " << i << " after loading (seed " << seed << ", " << words << " words, " << normals << " normals): " << y << " instead of " << x);
    }
    mc::state(mc::mix(mc::mix(words, normals), mc::mix(seed, kind)));
    mc::step(1300);
}

// ---- ranges and probabilities over the words -------------------------------
MC_SCENARIO("uniform values stay in their half-open range")
{
    mc::rng_grid_edges(64, 1);
    switch (mc::choose(4)) {
    case 0: { double u = rng.uniform(); MC_CHECK(u >= 0 && u < 1, "uniform", u); break; }
    case 1: { double m = mc::pick({ 0.0, 1e-3, 0.5, 1.0, 3.0, 1e9, 1e200 }); double u = rng.uniform(m); MC_CHECK(u >= 0 && (u < m || m == 0), "uniform:m", u << " of " << m); break; }
    case 2: { double lo = mc::pick({ -3.0, -1.0, 0.0, 0.25, 10.0 }), w = mc::pick({ 0.5, 1.0, 7.0 }); double u = rng.uniform(lo, lo + w); MC_CHECK(u >= lo && u < lo + w, "uniform:range", u << " of [" << lo << "," << lo + w << ")"); break; }
    default: { uint32_t m = mc::pick({ 1u, 2u, 3u, 7u, 10u, 1000u, 65536u, 0x7FFFFFFFu, 0xFFFFFFFFu }); uint32_t x = rng.random(m); MC_CHECK(x < m, "random", x << " of " << m); break; }
    }
}
MC_SCENARIO("integers are equally likely")
{
    uint32_t m = mc::range(1, 12), cells = 24;
    mc::rng_grid(m * cells, 1);
    std::vector<unsigned> n(m, 0);
    mc::forall([&] { uint32_t x = rng.random(m); MC_CHECK(x < m, "random", x << " of " << m); ++n[x]; });
    for (uint32_t i = 0; i < m; ++i) MC_CHECK(n[i] == cells, "random:prob", i << " of " << m << " came " << n[i] << " times in " << m * cells);
    std::vector<int> v; for (uint32_t i = 0; i < m; ++i) v.push_back(10 + i);
    std::map<int, unsigned> c;
    bool cst = mc::flag();
    mc::forall([&] { const std::vector<int>& k = v; ++c[cst ? rng.choice(k) : rng.choice(v)]; });
    for (uint32_t i = 0; i < m; ++i) MC_CHECK(c[10 + i] == cells, "choice", "element " << i << " of " << m << " came " << c[10 + i] << " times");
}
MC_SCENARIO("coins have their bias")
{
    unsigned k = 20;
    mc::rng_grid(k, 8);
    unsigned num = mc::range(0, k);
    double p = num / double(k);
    unsigned heads = 0;
    mc::forall([&] { heads += rng.flip(p); });
    MC_CHECK(heads == num, "flip", "probability " << p << " gave " << heads << " of " << k);
    heads = 0;
    mc::forall([&] { heads += rng.flip(); });
    MC_CHECK(heads == k / 2, "flip:default", heads);
    eoBooleanGenerator<> g(float(p + 1e-3));
    heads = 0;
    mc::forall([&] { heads += g(); });
    MC_CHECK(heads == num, "generator:boolean", "probability " << p << " gave " << heads << " of " << k);
}
MC_SCENARIO("certain and impossible coins")
{
    mc::rng_grid_edges(8, 1);
    bool sure = mc::flag();
    MC_CHECK(rng.flip(sure ? 1.0 : 0.0) == sure, "flip:sure", "flip(" << sure << ")");
}
MC_SCENARIO("binomial distribution")
{
    unsigned n = mc::range(0, 4), num = mc::range(0, 4);
    mc::rng_grid(4, 4);
    double p = num / 4.0;
    std::vector<double> pr(n + 1, 0);
    mc::forall([&] { unsigned x = rng.binomial(n, p); MC_CHECK(x <= n, "binomial:range", x << " of " << n); pr[x] += mc::leaf_prob(); });
    for (unsigned k = 0; k <= n; ++k) {
        double c = 1; for (unsigned i = 0; i < k; ++i) c = c * (n - i) / (i + 1);
        double want = c * std::pow(p, k) * std::pow(1 - p, n - k);
        MC_CHECK(mc::close(pr[k], want), "binomial", "P(" << k << ") of (" << n << "," << p << ") is " << pr[k] << " instead of " << want);
    }
}
template <class T> static void roulette()
{
    unsigned n = mc::range(1, 4);
    std::vector<T> w; unsigned sum = 0; std::vector<unsigned> num;
    for (unsigned i = 0; i < n; ++i) { unsigned x = mc::range(0, 3); num.push_back(x); sum += x; w.push_back(T(x) * T(mc::thorough() ? 0.1 : 0.25)); }
    if (!sum) mc::prune();
    bool given = mc::flag();
    T total = 0; for (T x : w) total += x;
    mc::rng_grid(sum * 4, 1);
    std::vector<unsigned> c(n, 0);
    mc::forall([&] {
        int i = given ? rng.roulette_wheel(w, total) : rng.roulette_wheel(w);
        MC_CHECK(i >= 0 && unsigned(i) < n, "roulette:range", i << " of " << n);
        ++c[i];
    });
    for (unsigned i = 0; i < n; ++i) MC_CHECK(c[i] == 4 * num[i], "roulette", "weights " << mc::show(num) << ": " << i << " came " << c[i] << " times in " << sum * 4);
}
MC_SCENARIO("weighted choice, double") { roulette<double>(); }
MC_SCENARIO("weighted choice, float") { roulette<float>(); }
template <class T> static void roulette_edges()
{
    unsigned n = mc::range(1, 12);
    T base = mc::pick(std::vector<T>{ T(0.1), T(0.3), T(1.0) / T(3.0), T(0.7), T(1e-5), T(1e5) / T(7) });
    unsigned shape = mc::choose(4);
    std::vector<T> w;
    for (unsigned i = 0; i < n; ++i) {
        T x = base;
        if (shape == 1) x = base * T(i + 1); else if (shape == 2) x = base / T(i + 1); else if (shape == 3) x = i % 2 ? base : T(0);
        w.push_back(x);
    }
    if (shape == 3 && n < 2) mc::prune();
    mc::rng_grid_edges(8, 1);
    int i = rng.roulette_wheel(w);
    MC_CHECK(i >= 0 && unsigned(i) < n, "roulette:end", "position " << i << " of " << n << " weights " << mc::show(w));
    MC_CHECK(w[i] > 0, "roulette:zero", "position " << i << " has weight 0 in " << mc::show(w));
}
MC_SCENARIO("weighted choice at the extreme words, double") { roulette_edges<double>(); }
MC_SCENARIO("weighted choice at the extreme words, float") { roulette_edges<float>(); }

MC_SCENARIO("normal deviates")
{
    // both halves of the polar method over a fine grid: moments of the law
    mc::rng_grid(mc::tier(200u, 600u), 2);
    double s[5] = { 0, 0, 0, 0, 0 }, mass = 0, cross = 0;
    mc::forall([&] {
        double a = rng.normal(), b = rng.normal(), p = mc::leaf_prob();
        mass += p; s[1] += p * (a + b) / 2; s[2] += p * (a * a + b * b) / 2; s[4] += p * (a * a * a * a + b * b * b * b) / 2; cross += p * a * b;
    });
    MC_CHECK(std::fabs(s[1] / mass) < 0.01, "normal:mean", s[1] / mass);
    MC_CHECK(std::fabs(s[2] / mass - 1) < 0.02, "normal:variance", s[2] / mass);
    MC_CHECK(std::fabs(s[4] / mass - 3) < 0.2, "normal:kurtosis", s[4] / mass);
    MC_CHECK(std::fabs(cross / mass) < 0.01, "normal:cross", cross / mass);
}
MC_SCENARIO("normal deviates with mean and deviation")
{
    mc::rng_grid(12, 4);
    eoNormalGenerator<double> g(2.0);
    std::vector<uint32_t> w;
    double m = mc::pick({ -1.0, 0.0, 5.0 }), sd = mc::pick({ 0.5, 2.0 });
    unsigned how = mc::choose(3);
    double x = how == 0 ? rng.normal(sd) : how == 1 ? rng.normal(m, sd) : g();
    double y = rng.normal();            // the other half of the same pair
    MC_CHECK(std::isfinite(x) && std::isfinite(y), "normal:finite", x);
    double z = how == 0 ? x / sd : how == 1 ? (x - m) / sd : x / 2.0;
    // both come from one point in the unit disc: z^2+y^2 = -2 ln r^2, with the words known
    MC_CHECK(z * z + y * y > 0 && z * z + y * y < 100, "normal:pair", z << " " << y);
    mc::rng_reset_used();
}
MC_SCENARIO("scaling of normal deviates")
{
    uint32_t w1 = mc::pick({ 0x10000000u, 0x60000000u, 0x90000000u, 0xE0000000u }), w2 = mc::pick({ 0x20000000u, 0x70000000u, 0xB0000000u });
    double m = mc::pick({ -1.0, 0.0, 5.0 }), sd = mc::pick({ 0.5, 2.0 });
    auto with = [&](int how) { mc::rng_script({ w1, w2, w1, w2, w1, w2 }); eoNormalGenerator<double> g(sd);
        return how == 0 ? rng.normal() : how == 1 ? rng.normal(sd) : how == 2 ? rng.normal(m, sd) : how == 3 ? g() : eo::normal(); };
    try {
        double z = with(0);
        MC_CHECK(mc::close(with(1), sd * z), "normal:sd", "normal(sd)");
        MC_CHECK(mc::close(with(2), m + sd * z), "normal:msd", "normal(mean,sd)");
        MC_CHECK(mc::close(with(3), sd * z), "normal:generator", "generator");
        MC_CHECK(with(4) == z, "normal:global", "eo::normal");
    } catch (mc::Prune&) { mc::note("rejected pair"); }
}
MC_SCENARIO("exponential deviates")
{
    double mean = mc::pick({ 0.5, 1.0, 4.0 });
    mc::rng_grid(mc::tier(4000u, 40000u), 1);
    double s = 0, s2 = 0; bool gen = mc::flag();
    eoNegExpGenerator<double> g(mean);
    mc::forall([&] { double x = gen ? g() : rng.negexp(mean); MC_CHECK(x >= 0, "negexp:range", x); s += x * mc::leaf_prob(); s2 += x * x * mc::leaf_prob(); });
    MC_CHECK(std::fabs(s - mean) < 0.01 * mean, "negexp:mean", s << " instead of " << mean);
    MC_CHECK(std::fabs(s2 - 2 * mean * mean) < 0.05 * mean * mean, "negexp:second", s2);
}
MC_SCENARIO("power law deviates stay in their range")
{
    double lo = mc::pick({ 0.5, 1.0, 2.0 }), hi = lo * mc::pick({ 2.0, 10.0 }), g = mc::pick({ 0.5, 1.5, 2.5 });
    mc::rng_grid_edges(50, 1);
    double below = 0, mid = (lo + hi) / 2, total = 0;
    mc::forall([&] {
        double x = rng.powerlaw(lo, hi, g);
        MC_CHECK(x >= lo * (1 - 1e-9) && x <= hi * (1 + 1e-9), "powerlaw:range", x << " of [" << lo << "," << hi << "]");
        total += 1; below += x < mid;
    });
    double want = (std::pow(mid, 1 - g) - std::pow(lo, 1 - g)) / (std::pow(hi, 1 - g) - std::pow(lo, 1 - g));
    MC_CHECK(std::fabs(below / total - want) < 0.05, "powerlaw:law", "P(x < " << mid << ") is " << below / total << " instead of " << want);
}

// ---- generators -------------------------------------------------------------
template <class T> static void gen_range(T lo, T hi, const char* key)
{
    mc::rng_grid_edges(30, 1);
    std::map<T, unsigned> c;
    bool two = lo != T(0) || mc::flag();
    eoUniformGenerator<T> g1(hi), g2(two ? lo : T(0), hi);
    uniform_generator<T> u1(hi), u2(two ? lo : T(0), hi);
    unsigned which = mc::choose(3);
    if (which == 2 && lo != T(0)) mc::prune();
    mc::forall([&] {
        T x = which == 0 ? (two ? g2() : g1()) : which == 1 ? (two ? u2() : u1()) : eo::random<T>(hi);
        MC_CHECK(x >= lo && x < hi, key, x << " of [" << lo << "," << hi << ")");
        ++c[x];
    });
}
MC_SCENARIO("uniform generators stay in their half-open range")
{
    switch (mc::choose(4)) {
    case 0: gen_range<int>(mc::pick({ -3, 0, 2 }), mc::pick({ 3, 5 }), "generator:int"); break;
    case 1: gen_range<double>(mc::pick({ -1.5, 0.0, 2.0 }), mc::pick({ 2.5, 4.0 }), "generator:double"); break;
    case 2: gen_range<unsigned>(mc::pick({ 0u, 2u }), mc::pick({ 3u, 5u }), "generator:unsigned"); break;
    default: gen_range<long>(mc::pick({ 0L, 2L }), mc::pick({ 3L, 5L }), "generator:long"); break;
    }
}
MC_SCENARIO("integer generators give every value equally often")
{
    int lo = mc::range(-2, 2), n = mc::range(1, 5);
    mc::rng_grid(n * 6, 1);
    std::map<int, unsigned> c;
    unsigned which = mc::choose(3);
    eoUniformGenerator<int> g(lo, lo + n); random_generator<int> rg(n); 
    mc::forall([&] { int x = which == 0 ? g() : which == 1 ? eo::random<int>(lo, lo + n) : lo + rg(); ++c[x]; });
    for (int x = lo; x < lo + n; ++x) MC_CHECK(c[x] == 6, "generator:prob", x << " came " << c[x] << " times in " << n * 6);
    MC_CHECK(int(c.size()) == n, "generator:values", "values outside the range");
}
MC_SCENARIO("boolean generators")
{
    mc::rng_grid(10, 1);
    unsigned which = mc::choose(3), heads = 0;
    eoUniformGenerator<bool> g; boolean_generator b(0.3f); eoBooleanGenerator<> d;
    mc::forall([&] { heads += which == 0 ? g() : which == 1 ? b() : d(); });
    MC_CHECK(heads == (which == 1 ? 3u : 5u), "generator:bool", which << " gave " << heads << " of 10");
}
MC_SCENARIO("index functor")
{
    unsigned m = mc::range(1, 6);
    mc::rng_grid(m * 5, 1);
    UF_random_generator<unsigned> f(m); bool given = mc::flag();
    std::vector<unsigned> n(m, 0);
    mc::forall([&] { unsigned x = given ? f(m) : f(); MC_CHECK(x < m, "index:range", x << " of " << m); ++n[x]; });
    for (unsigned i = 0; i < m; ++i) MC_CHECK(n[i] == 5, "index:prob", i << " came " << n[i] << " times");
}
