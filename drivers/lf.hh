// Local functions over the mock grid with uninterpreted ingredients, and what they have to evaluate to
#include "mockbasis.hh"
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
using namespace Dune::Functions; using namespace mock;
namespace BF = Dune::Functions::BasisFactory;
#define O(n) extern "C" void o_##n()
using DR = Dune::FieldMatrix<double,1,1>;
inline double val(double x) { return x; } inline double val(const Coord& x) { return x[0]; } inline double val(const DR& x) { return x[0][0]; }
template<int K> using Rg = std::conditional_t<(K == 0), double, std::conditional_t<(K == 1), Coord, DR>>;
// a differentiable function with two derivatives
template<int K> struct Fn { long a; auto operator()(const Coord& x) const { return Rg<K>(feval(100 + K, a, x[0])); } friend Fn<K+1> derivative(const Fn& f) requires (K < 2) { return Fn<K+1>{f.a + 1}; } };
inline GridView gv(int tag = 7) { return GridView{tag}; }
// a bound local function of its own: value depends on whether, where and how often it was bound
template<int K> struct LFn { long a; Element e; bool b = false;
  auto operator()(const Coord& x) const { return Rg<K>(feval(200 + K, a + 1000*e.id + (b ? 7 : 0), x[0])); }
  void bind(const Element& x) { e = x; b = true; } void unbind() { b = false; } bool bound() const { return b; } const Element& localContext() const { return e; }
  friend LFn<K+1> derivative(const LFn& f) requires (K < 2) { return LFn<K+1>{f.a + 1, f.e, f.b}; } };
inline double lfn(int K, long a, long id, double x) { return feval(200 + K, a + 1000*id + 7, x); }
template<int K> struct GFn { using EntitySet = GridViewEntitySet<mock::GridView,0>; long a; EntitySet es;
  auto operator()(const Coord& x) const { return Rg<K>(feval(300 + K, a, x[0])); }
  const EntitySet& entitySet() const { return es; }
  friend LFn<K> localFunction(const GFn& f) { return LFn<K>{f.a + 2}; }
  friend GFn<K+1> derivative(const GFn& f) requires (K < 2) { return GFn<K+1>{f.a + 1, f.es}; } };
// coefficient vector: value of the coefficient with a given index; the second argument distinguishes updates
struct Coeff { using value_type = double; long a; template<class I> double operator[](const I& i) const { double r = 0; long h = a; for (std::size_t k = 0; k < i.size(); ++k) h = h*131 + (long)i[k]; return feval(800, h, 0); } };

// --- the kinds of local functions: make() creates a grid function, value(id,x) is what its local function is on element id
struct KAnalytic { static auto make() { return makeAnalyticGridViewFunction(Fn<0>{sym(9)}, gv()); } static double value(long id, double x) { return feval(100, sym(9), feval(901, id, x)); } static double dvalue(long id, double x) { return feval(101, sym(9) + 1, feval(901, id, x)); } };
struct KAnalyticD { static auto make() { return derivative(makeAnalyticGridViewFunction(Fn<0>{sym(9)}, gv())); } static double value(long id, double x) { return feval(101, sym(9) + 1, feval(901, id, x)); } static double dvalue(long id, double x) { return feval(102, sym(9) + 2, feval(901, id, x)); } };
struct Outer { double operator()(double a, double b) const { return feval(110, sym(10), a) + 2*feval(111, sym(10), b); } };
struct KComposed { static auto make() { return makeComposedGridFunction(Outer(), GFn<0>{sym(9), {gv()}}, makeAnalyticGridViewFunction(Fn<0>{sym(11)}, gv())); } static double value(long id, double x) { return Outer()(lfn(0, sym(9) + 2, id, x), feval(100, sym(11), feval(901, id, x))); } };
using P0 = Pre<0,1,2>;
using DB = DefaultGlobalBasis<P0>;
struct KDiscrete { static auto make() { return DiscreteGlobalBasisFunction<DB,Coeff,HierarchicNodeToRangeMap,double>(DB(gv()), Coeff{sym(12)}, HierarchicNodeToRangeMap()); }
  static double co(long id, int i) { return feval(800, sym(12)*131 + (long)P0::digit(id, i, 0), 0); }
  static double value(long id, double x) { double r = 0; for (int i = 0; i < 2; ++i) r += co(id, i)*feval(500, i, x); return r; }
  static double dvalue(long id, double x) { double r = 0; for (int i = 0; i < 2; ++i) r += co(id, i)*feval(520, i, x); return r*feval(904, id, x); } };
struct KDiscreteD { static auto make() { return derivative(KDiscrete::make()); }
  static double value(long id, double x) { double r = 0; for (int i = 0; i < 2; ++i) r += KDiscrete::co(id, i)*feval(520, i, x); return r*feval(904, id, x); } };
// level 1 view, function on level 0
struct KCoarse1 { static constexpr int level = 1; static auto make() { return CoarseFunctionOnFineGridView<GFn<0>,GridView>(GFn<0>{sym(9), {gv(100)}}, gv(101)); } static double value(long id, double x) { return lfn(0, sym(9) + 2, ieval(911, id, 0), feval(901, ieval(910, id, 0), x)); } static double dvalue(long id, double x) { return lfn(1, sym(9) + 3, ieval(911, id, 0), feval(901, ieval(910, id, 0), x)); } };
struct KCoarse0 { static constexpr int level = 0; static auto make() { return CoarseFunctionOnFineGridView<GFn<0>,GridView>(GFn<0>{sym(9), {gv(100)}}, gv(101)); } static double value(long id, double x) { return lfn(0, sym(9) + 2, id, x); } static double dvalue(long id, double x) { return lfn(1, sym(9) + 3, id, x); } };
struct KCoarse2 { static constexpr int level = 2; static auto make() { return CoarseFunctionOnFineGridView<GFn<0>,GridView>(GFn<0>{sym(9), {gv(100)}}, gv(102)); } static double value(long id, double x) { long f = ieval(911, id, 0); return lfn(0, sym(9) + 2, ieval(911, f, 0), feval(901, ieval(910, f, 0), feval(901, ieval(910, id, 0), x))); } static double dvalue(long id, double x) { long f = ieval(911, id, 0); return lfn(1, sym(9) + 3, ieval(911, f, 0), feval(901, ieval(910, f, 0), feval(901, ieval(910, id, 0), x))); } };
struct KFine0 { static constexpr int level = 1; static auto make() { return FineFunctionOnCoarseGridView<GFn<0>,GridView>(GFn<0>{sym(9), {gv(101)}}, gv(100)); } static double value(long id, double x) { return lfn(0, sym(9) + 2, id, x); } static double dvalue(long id, double x) { return lfn(1, sym(9) + 3, id, x); } };
#ifdef FINECASE
// the child the point is in, or that is closest to it
inline double inFine(long& id) { constexpr int c[5] = {0, 1, 0, 1, 0}; id = ieval(930 + c[FINECASE], id, 0); return Geo::inChild[FINECASE][c[FINECASE]]; }
struct KFine1 { static constexpr int level = 0; static auto make() { return FineFunctionOnCoarseGridView<GFn<0>,GridView>(GFn<0>{sym(9), {gv(101)}}, gv(100)); } static double value(long id, double x) { double y = inFine(id); return lfn(0, sym(9) + 2, id, y); } static double dvalue(long id, double x) { double y = inFine(id); return lfn(1, sym(9) + 3, id, y); } };
struct KFine2 { static constexpr int level = 0; static auto make() { return FineFunctionOnCoarseGridView<GFn<0>,GridView>(GFn<0>{sym(9), {gv(102)}}, gv(100)); } static double value(long id, double x) { inFine(id); double y = inFine(id); return lfn(0, sym(9) + 2, id, y); } static double dvalue(long id, double x) { inFine(id); double y = inFine(id); return lfn(1, sym(9) + 3, id, y); } };
#endif
struct KFaceNormal { static auto make() { return FaceNormalGridFunction<GridView>(gv()); } };
template<class K> constexpr int levelOf() { if constexpr (requires { K::level; }) return K::level; else return 0; }
template<class K> Element el(int k) { return Element{sym(k), levelOf<K>()}; }
#define X0 symd(5)
template<class K, class L> void isAt(const L& l, int k) {
  CHECKM("bound() reports that the local function is bound", l.bound());
  CHECKM("localContext() is the element bound to last", l.localContext().id == sym(k));
  if constexpr (requires { K::value(0L, 0.0); }) CHECKM("the value is that of the function on the bound element", same(val(l(Coord(X0))), K::value(sym(k), X0)));
}
