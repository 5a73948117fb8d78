// Minimal individuals: a fitness and an identity.
#pragma once
#include "common.hpp"

template <class F> struct Ind : public EO<F>
{
    int id;
    Ind() : id(-1) {}
};
typedef Ind<double> Max;
typedef Ind<eoMinimizingFitness> Min;
template <class T> inline int sign() { return std::is_same<typename T::Fitness, eoMinimizingFitness>::value ? -1 : 1; }

template <class T> inline eoPop<T> make_pop(const std::vector<int>& f, int base = 0)
{
    eoPop<T> p;
    p.resize(f.size());
    for (size_t i = 0; i < f.size(); ++i) { p[i].id = base + int(i); p[i].fitness(f[i]); }
    return p;
}
inline std::vector<int> any_fit(int nmin, int nmax, int vmax)
{
    int n = mc::range(nmin, nmax);
    std::vector<int> f;
    for (int i = 0; i < n; ++i) f.push_back(mc::range(0, vmax));
    return f;
}
// best first
template <class T> inline std::vector<int> sorted(std::vector<int> f)
{
    std::sort(f.begin(), f.end(), [](int a, int b) { return sign<T>() * a > sign<T>() * b; });
    return f;
}
template <class T> inline std::vector<int> fits(const eoPop<T>& p)
{
    std::vector<int> f;
    for (auto& x : p) f.push_back(int(double(x.fitness())));
    return f;
}
