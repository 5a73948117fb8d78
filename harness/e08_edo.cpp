// Same seed, same run: distributions.
#define E08_OF "distributions"
#include "e08.hpp"
#include <edo>
#include <Eigen/Dense>
typedef eoReal<double> R;
static eoPop<R> pop() { eoPop<R> p; for (unsigned k = 0; k < 6; ++k) { R r; for (unsigned i = 0; i < 2; ++i) r.push_back(0.5 * ((k * 7 + i * 3) % 5) - 1); r.fitness(-double(k)); p.push_back(r); } return p; }
static void show(std::ostream& o, const R& r) { for (double d : r) o << d << " "; o << ";"; }
PART("uniform samples") { edoBounderNo<R> no; edoUniform<R> d(R(2, -1.0), R(2, 3.0)); edoSamplerUniform<R> s(no); for (int i = 0; i < 4; ++i) show(out, s(d)); }
PART("normal samples") { edoBounderNo<R> no; edoNormalMono<R> d(R(2, 1.0), R(2, 2.0)); edoSamplerNormalMono<R> s(no); for (int i = 0; i < 4; ++i) show(out, s(d)); }
PART("correlated samples") { edoBounderNo<R> no; edoEstimatorNormalMulti<R> e; eoPop<R> p = pop(); edoNormalMulti<R> d = e(p); edoSamplerNormalMulti<R> s(no); for (int i = 0; i < 4; ++i) show(out, s(d)); }
PART("adaptive samples") { edoBounderNo<R> no; edoNormalAdaptive<R> d(2); edoEstimatorNormalAdaptive<R> e(d); eoPop<R> p = pop(); edoSamplerNormalAdaptive<R> s(no); for (int g = 0; g < 3; ++g) { e(p); for (auto& x : p) { x = s(d); x.fitness(-x[0] * x[0] - x[1]); show(out, x); } } }
PART("bounded samples") { edoBounderUniform<R> u(R(2, -0.5), R(2, 0.5)); edoNormalMono<R> d(R(2, 1.0), R(2, 2.0)); edoSamplerNormalMono<R> s(u); for (int i = 0; i < 4; ++i) show(out, s(d)); }
PART("bits from a distribution") { typedef eoBit<double> Bt; edoBinomial<Bt> d(std::vector<double>{0.2, 0.5, 0.8, 0.5, 0.5, 0.5}); edoSamplerBinomial<Bt> s; for (int i = 0; i < 4; ++i) out << s(d); }
struct Ev : public eoEvalFunc<R> { void operator()(R& r) { r.fitness(-r[0] * r[0] - r[1] * r[1]); } };
PART("estimation of distribution")
{
    Ev e; eoPopLoopEval<R> pe(e); eoDetSelect<R> sel(0.5); edoEstimatorNormalMulti<R> est; edoBounderNo<R> no; edoSamplerNormalMulti<R> sam(no); eoPlusReplacement<R> rep; eoGenContinue<R> gc(3); edoDummyContinue<edoNormalMulti<R>> dc;
    edoAlgoStateless<edoNormalMulti<R>> a(pe, sel, est, sam, rep, gc, dc); eoPop<R> p = pop(); a(p); for (auto& x : p) show(out, x);
}
PART("covariance adaptation")
{
    Ev e; eoPopLoopEval<R> pe(e); edoNormalAdaptive<R> d(2); eoRankMuSelect<R> sel(3); edoEstimatorNormalAdaptive<R> est(d); edoBounderNo<R> no; edoSamplerNormalAdaptive<R> sam(no); eoCommaReplacement<R> rep; eoGenContinue<R> gc(3); edoDummyContinue<edoNormalAdaptive<R>> dc;
    edoAlgoAdaptive<edoNormalAdaptive<R>> a(d, pe, sel, est, sam, rep, gc, dc); eoPop<R> p = pop(); a(p); for (auto& x : p) show(out, x);
}
