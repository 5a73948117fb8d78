// Small landscapes given by a table, and a continuator that watches a local search.
#pragma once
#include "common.hpp"
#include <mo>
#include <problems/bitString/moBitNeighbor.h>
#include <functional>

template <class F> struct Land
{
    typedef eoBit<F> S;
    typedef moBitNeighbor<F> N;
    unsigned n;
    std::vector<double> value;
    static bool minimising() { return F(1.) < F(0.); }
    // a better than b
    static bool better(double a, double b) { return minimising() ? a < b : a > b; }
    double best_near(uint32_t v) const { double b = value[v ^ 1]; for (unsigned i = 1; i < n; ++i) if (better(value[v ^ 1u << i], b)) b = value[v ^ 1u << i]; return b; }
    bool optimum(uint32_t v) const { return n == 0 || !better(best_near(v), value[v]); }
    S start(uint32_t v, bool valid = false) const { S s = bits_of<S>(n, v); if (valid) s.fitness(value[v]); return s; }
};
// every table of n bits over k values is one choice
template <class F> inline Land<F> any_land(unsigned n, unsigned k)
{
    Land<F> l;
    l.n = n;
    for (unsigned i = 0; i < (1u << n); ++i) l.value.push_back(mc::choose(k));
    return l;
}
template <class F> struct FullTable : eoEvalFunc<eoBit<F>>
{
    const Land<F>& l; unsigned calls = 0;
    FullTable(const Land<F>& x) : l(x) {}
    void operator()(eoBit<F>& s) override { ++calls; s.fitness(l.value[num_of(s)]); }
};
template <class F> struct NearTable : moEval<moBitNeighbor<F>>
{
    const Land<F>& l; unsigned calls = 0;
    NearTable(const Land<F>& x) : l(x) {}
    void operator()(eoBit<F>& s, moBitNeighbor<F>& n) override { ++calls; n.fitness(l.value[num_of(s) ^ 1u << n.index()]); }
};
// records the solution at every iteration
template <class N> struct Watch : moContinuator<N>
{
    typedef typename N::EOT S;
    std::vector<uint32_t> at;                      // start, then after every iteration
    unsigned inits = 0, lasts = 0;
    unsigned stop_after = ~0u;                     // iterations
    std::function<void(S&)> judge;
    void init(S& s) override { ++inits; at.clear(); at.push_back(num_of(s)); if (judge) judge(s); }
    bool operator()(S& s) override { at.push_back(num_of(s)); if (judge) judge(s); return at.size() - 1 < stop_after; }
    void lastCall(S&) override { ++lasts; }
};
