// Factorisations of covariance matrices (uBLAS version).
#include "mc.hpp"
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/symmetric.hpp>
#include <boost/numeric/ublas/lu.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <boost/numeric/ublas/triangular.hpp>
#include <cmath>
namespace ublas = boost::numeric::ublas;
#define WITH_BOOST 1
#include <utils/edoCholesky.h>
using namespace mc;

// V = A A^T for every small matrix A of integers: all shapes of semi-definite matrices, with exact entries
template <class C> static void factor()
{
    unsigned n = range(1, tier(2, 3));
    std::vector<std::vector<double>> a(n, std::vector<double>(n, 0.0)), v = a;
    std::vector<double> vals = n == 3 ? std::vector<double>{-1, 0, 2} : std::vector<double>{-2, -1, 0, 1, 3};
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) a[i][j] = pick(vals);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) for (unsigned k = 0; k < n; ++k) v[i][j] += a[i][k] * a[j][k];
    double det = n == 1 ? v[0][0] : n == 2 ? v[0][0] * v[1][1] - v[0][1] * v[0][1]
        : v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
    assume(det > 0.5);
    typename C::CovarMat m(n);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) m(i, j) = v[i][j];
    C c;
    typename C::FactorMat L = c(m);
    uint64_t h = n; for (auto& r : v) h = mix(h, hashv(r)); state(h);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
        double s = 0; for (unsigned k = 0; k < n; ++k) s += L(i, k) * L(j, k);
        MC_CHECK(std::fabs(s - v[i][j]) < 1e-6, "factorisation", "entry " << i << j << " is " << s << " for " << v[i][j]);
        if (j > i) MC_CHECK(L(i, j) == 0, "factorisation", "not triangular");
    }
}
MC_SCENARIO("factor LLT") { factor<cholesky::CholeskyLLT<double>>(); }
MC_SCENARIO("factor LLT abs") { factor<cholesky::CholeskyLLTabs<double>>(); }
MC_SCENARIO("factor LLT zero") { factor<cholesky::CholeskyLLTzero<double>>(); }
MC_SCENARIO("factor LDLT") { factor<cholesky::CholeskyLDLT<double>>(); }
