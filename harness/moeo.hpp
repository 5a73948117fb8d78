// Objective vectors of any small size and direction, solutions with an identity.
#pragma once
#include "common.hpp"
#include <moeo>

typedef moeoObjectiveVectorTraits Dir;
typedef moeoRealObjectiveVector<Dir> OV;
typedef moeoIntVector<OV> Sol;                    // one gene: the identity

inline void directions(unsigned n, unsigned minimised)
{
    Mute m;
    std::vector<bool> b;
    for (unsigned i = 0; i < n; ++i) b.push_back((minimised >> i) & 1);
    Dir::setup(n, b);
}
inline unsigned any_directions(unsigned lo, unsigned hi)
{
    unsigned n = mc::range(lo, hi);
    directions(n, mc::choose(1u << n));
    return n;
}
// number and directions of the objectives
inline uint64_t dirs() { uint64_t h = Dir::nObjectives(); for (unsigned i = 0; i < Dir::nObjectives(); ++i) h = 2 * h + Dir::minimizing(i); return h; }
inline OV any_ov(unsigned k)
{
    OV v;
    for (unsigned i = 0; i < v.size(); ++i) v[i] = mc::choose(k);
    return v;
}
inline OV ov(std::vector<double> x) { return OV(x); }
inline int id_of(const Sol& s) { return s[0]; }
inline Sol sol(int id, const OV& v) { Sol s(1, id); s.objectiveVector(v); return s; }
// a strictly better than b on objective i
template <class V> inline bool better(const V& a, const V& b, unsigned i) { return Dir::minimizing(i) ? double(a[i]) < double(b[i]) : double(a[i]) > double(b[i]); }
template <class V> inline bool dominates(const V& a, const V& b)
{
    bool some = false;
    for (unsigned i = 0; i < a.size(); ++i) { if (better(b, a, i)) return false; some = some || better(a, b, i); }
    return some;
}
inline uint64_t hash_pop(const eoPop<Sol>& p)
{
    uint64_t h = p.size();
    for (auto& s : p) for (double x : s.objectiveVector()) h = mc::mix(h, uint64_t(x * 1000 + 7));
    return h;
}
inline eoPop<Sol> any_solutions(unsigned lo, unsigned hi, unsigned k)
{
    eoPop<Sol> p;
    unsigned m = mc::range(lo, hi);
    for (unsigned i = 0; i < m; ++i) p.push_back(sol(int(i), any_ov(k)));
    return p;
}
inline std::string show_ov(const OV& v) { return mc::show(std::vector<double>(v)); }
inline std::string show_pop(const eoPop<Sol>& p) { std::string s = "{"; for (auto& x : p) s += show_ov(x.objectiveVector()) + " "; return s + "}"; }
