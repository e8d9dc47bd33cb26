// C04: copies of bound objects are independent of, and equivalent to, their source.
#include "bases.hh"
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/common/geometryinancestor.hh>
#include <dune/istl/bvector.hh>
using namespace Dune::Functions;
template<class GV, class F> using PB_t = std::decay_t<decltype(std::declval<F>()(std::declval<const GV&>()))>;
template<class GV, class F> using GB_t = DefaultGlobalBasis<PB_t<GV,F>>;

template<class T, class M> void assignFrom(T* src, T* dst, const M& mk) {
  if constexpr (std::is_copy_assignable_v<T>) { new(dst) T(mk()); *dst = *src; } else new(dst) T(*src);
}
#define CP(n, T, Src, E, mk) \
  extern "C" void w_copy_##n(T* src, T* dst, const Src& s, const E& e) { new(src) T(mk); src->bind(e); new(dst) T(*src); } \
  extern "C" void w_move_##n(T* src, T* dst, const Src& s, const E& e) { new(src) T(mk); src->bind(e); new(dst) T(std::move(*src)); } \
  extern "C" void w_asgn_##n(T* src, T* dst, const Src& s, const E& e) { new(src) T(mk); src->bind(e); assignFrom(src, dst, [&]{ return mk; }); }

#define X(n, GV, ...) \
  using F_##n = decltype(__VA_ARGS__); using B_##n = GB_t<GV,F_##n>; using L_##n = typename B_##n::LocalView; using E_##n = typename GV::Codim<0>::Entity; \
  CP(lv_##n, L_##n, B_##n, E_##n, s.localView())
#if PART==0
LEAF_BASES_A(X)
#elif PART==1
LEAF_BASES_B(X)
#elif PART==2
LEAF_BASES_C(X)
#elif PART==3
COMPOSED_BASES_A(X)
#elif PART==4
COMPOSED_BASES_B(X)
#elif PART==5
#include "gridfunctions.hh"
CP(slv, SLV, SB, E, s.localView())
CP(dgf, DLF, DGF, E, localFunction(s))
CP(ddgf, DDL, DDGF, E, localFunction(s))
CP(agf, ALF, AGF, E, localFunction(s))
CP(fnf, FNL, FNF, E, localFunction(s))
CP(cgf, CGL, CGF, E, localFunction(s))
CP(ffc, FFCL, FFC, E, localFunction(s))
template<class T, class S, class EE> void cpOnly(T* src, T* dst, const S& s, const EE& e) { new(src) T(localFunction(s)); src->bind(e); new(dst) T(*src); }
extern "C" void w_copy_cff(CFFL* src, CFFL* dst, const CFF& s, const E& e) { cpOnly(src, dst, s, e); }
extern "C" void w_copy_gia(GIA* src, GIA* dst, const GIA& s, const E& e) { new(src) GIA(); src->bind(e, Inc()); new(dst) GIA(*src); }
extern "C" void w_copy_giae(GIA* src, GIA* dst, const GIA& s, const E& e, const E& e2) { new(src) GIA(); src->bind(e, Inc()); new(dst) GIA(*src, e2); }
#endif
