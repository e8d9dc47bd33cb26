// C09: views and local functions made from one shared object, and their binding and evaluation, write nothing into the shared object.
#include "bases.hh"
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/istl/bvector.hh>
using namespace Dune::Functions;
template<class GV, class F> using PB_t = std::decay_t<decltype(std::declval<F>()(std::declval<const GV&>()))>;
template<class GV, class F> using GB_t = DefaultGlobalBasis<PB_t<GV,F>>;
template<class N> void evalTree(const N& node, std::size_t* out) {
  if constexpr (requires { node.finiteElement(); }) { auto& fe = node.finiteElement(); using T = typename std::decay_t<decltype(fe)>::Traits::LocalBasisType::Traits; std::vector<typename T::RangeType> v; std::vector<typename T::JacobianType> J; typename T::DomainType x(0); fe.localBasis().evaluateFunction(x, v); fe.localBasis().evaluateJacobian(x, J); *out += v.size() + J.size(); constexpr int d = T::dimDomain; 
    if constexpr (requires { fe.localBasis().partial(std::array<unsigned,d>{}, x, v); }) { std::array<unsigned,d> o{}; o[0] = 1; fe.localBasis().partial(o, x, v); *out += v.size(); }
    if constexpr (requires { fe.localBasis().template evaluate<1>(std::array<int,1>{}, x, v); }) { fe.localBasis().template evaluate<1>(std::array<int,1>{0}, x, v); *out += v.size(); }
    if constexpr (requires { typename T::HessianType; }) { std::vector<typename T::HessianType> H; if constexpr (requires { fe.localBasis().evaluateHessian(x, H); }) { fe.localBasis().evaluateHessian(x, H); *out += H.size(); } } *out += fe.localCoefficients().localKey(0).index(); }
  else { if constexpr (requires { node.child(Dune::Indices::_0); }) evalTree(node.child(Dune::Indices::_0), out); else evalTree(node.child(0), out); }
}
#define X(n, GV, ...) \
  using F_##n = decltype(__VA_ARGS__); using B_##n = GB_t<GV,F_##n>; using L_##n = typename B_##n::LocalView; using E_##n = typename GV::Codim<0>::Entity; \
  extern "C" void w_use_lv_##n(const B_##n* b, const E_##n& e, std::size_t* out) { auto lv = b->localView(); lv.bind(e); *out = lv.index(0)[0] + lv.size() + lv.maxSize() + b->dimension() + b->size(); evalTree(lv.tree(), out); lv.unbind(); }
// a local function made from a shared grid function
#define GF(n, T, E) extern "C" void w_use_##n(const T* f, const E& e, const E::Geometry::LocalCoordinate& x, void (*use)(double)) { auto lf = localFunction(*f); lf.bind(e); use(*(const double*)(const void*)&static_cast<const decltype(lf(x))&>(lf(x))); auto l2 = lf; l2.unbind(); lf.unbind(); }
#if PART==0
LEAF_BASES_A(X)
#elif PART==1
LEAF_BASES_B(X)
#elif PART==2
LEAF_BASES_C(X)
#elif PART==3
COMPOSED_BASES_A(X)
#elif PART==4
COMPOSED_BASES_B(X)
#elif PART==5
#include "gridfunctions.hh"
GF(dgf, DGF, E) GF(ddgf, DDGF, E) GF(agf, AGF, E) GF(fnf, FNF, E) GF(cgf, CGF, E) GF(cff, CFF, E) GF(ffc, FFC, E)
extern "C" void w_use_slv(const SB* b, const E& e, std::size_t* out) { auto lv = b->localView(); lv.bind(e); *out = lv.index(0)[0] + lv.size(); }
#endif
