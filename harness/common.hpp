// Types and generators shared by the harnesses.
#pragma once
#include <mc.hpp>
#include <eo>
#include <ga.h>
#include <es.h>

typedef eoBit<double> Bit;
typedef eoBit<eoMinimizingFitness> BitMin;
typedef eoReal<double> Real;
typedef eoInt<double> Perm;

// every bit string of length n is one choice
template <class B> inline B any_bits(unsigned n)
{
    B b(n, false);
    uint32_t v = mc::choose(1u << n);
    for (unsigned i = 0; i < n; ++i) b[i] = (v >> i) & 1;
    return b;
}
template <class B> inline B bits_of(unsigned n, uint32_t v)
{
    B b(n, false);
    for (unsigned i = 0; i < n; ++i) b[i] = (v >> i) & 1;
    return b;
}
template <class B> inline uint32_t num_of(const B& b)
{
    uint32_t v = 0;
    for (unsigned i = 0; i < b.size(); ++i) if (b[i]) v |= 1u << i;
    return v;
}
// the k-th permutation of start..start+n-1, k chosen
inline std::vector<size_t> any_perm(unsigned n, size_t start = 0)
{
    std::vector<size_t> rest, r;
    for (unsigned i = 0; i < n; ++i) rest.push_back(start + i);
    while (!rest.empty()) {
        uint32_t k = mc::choose(uint32_t(rest.size()));
        r.push_back(rest[k]);
        rest.erase(rest.begin() + k);
    }
    return r;
}
template <class V> inline bool is_perm(const V& v, size_t n, size_t start = 0)
{
    if (v.size() != n) return false;
    std::vector<int> seen(n, 0);
    for (auto x : v) {
        if (size_t(x) < start || size_t(x) >= start + n) return false;
        if (seen[size_t(x) - start]++) return false;
    }
    return true;
}
inline void quiet()
{
    eo::log << eo::setlevel(eo::quiet);
}
// hides standard output of chatty constructors
struct Mute
{
    std::streambuf* o; std::ostringstream s;
    Mute() : o(std::cout.rdbuf(s.rdbuf())) {}
    ~Mute() { std::cout.rdbuf(o); }
};
