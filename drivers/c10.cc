// C10: interpolate() assigns exactly the marked coefficients, each with the interpolation functional of its own basis
// function applied to the range component of its node, on its own element
#define CDIGITS
#include "lf.hh"
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/common/tuplevector.hh>
using namespace Dune::Indices;
template<class M> std::size_t slot(const M& m) { std::size_t s = 0; for (std::size_t k = 0; k < m.size(); ++k) s = s*16 + m[k]; return s; }
constexpr int NV = 272;
struct Vec { double v[NV]; int resized = 0;
  template<class B> void resize(const B& b) { ++resized; for (int k = 0; k < 24; ++k) v[k] = feval(860, k, 0); for (int k = 0; k < 24 && k + 256 < NV; ++k) v[256 + k] = feval(860, 256 + k, 0); }
  template<class M> requires requires(M m) { m.size(); } double& operator[](const M& m) { return v[slot(m)]; } template<class M> requires requires(M m) { m.size(); } const double& operator[](const M& m) const { return v[slot(m)]; } };
#ifndef MARKED
#define MARKED 0x0b35
#endif
constexpr bool marked(std::size_t s) { return (MARKED >> (s % 13)) & 1; }
struct Mask { template<class M> requires requires(M m) { m.size(); } bool operator[](const M& m) const { return marked(slot(m)); } };
// s: coefficient, y: its interpolated value
template<bool mask> void entry(const Vec& v, std::size_t s, double y) {
  CHECKM("coefficients not marked are left alone, the marked ones hold the interpolated value", same(v.v[s], (!mask || marked(s)) ? y : feval(860, s, 0)));
}
template<bool mask, class B, class F, class... A> void run(const B& b, Vec& v, const F& f, A&&... a) {
  if constexpr (mask) interpolate(b, v, f, Mask(), a...); else interpolate(b, v, f, a...);
  CHECKM("the vector is resized exactly once, before it is written", v.resized == 1);
}
inline double at(int K, int i) { return feval(540 + K, i, 0); }
inline double dat(int K, int i) { return feval(560 + K, i, 0); }
inline double gfv(long id, int K, int i) {
#ifdef LI_DERIVATIVE
  return lfn(0, sym(9) + 2, id, at(K,i)) + 3*lfn(1, sym(9) + 3, id, dat(K,i));
#else
  return lfn(0, sym(9) + 2, id, at(K,i));
#endif
}
inline double anv(long id, int K, int i) {
#ifdef LI_DERIVATIVE
  return feval(100, sym(9), feval(901, id, at(K,i))) + 3*feval(101, sym(9) + 1, feval(901, id, dat(K,i)));
#else
  return feval(100, sym(9), feval(901, id, at(K,i)));
#endif
}
using PA = Pre<0,1,2>; using PB = Pre<1,1,1>;
template<bool mask> void leafGF() { DefaultGlobalBasis<PA> b(gv()); Vec v; run<mask>(b, v, GFn<0>{sym(9), {gv()}}); for (int e = 0; e < 2; ++e) for (int i = 0; i < 2; ++i) entry<mask>(v, 2*e + i, gfv(sym(80+e), 0, i)); REACHED(1); }
template<bool mask> void leafFn() { DefaultGlobalBasis<PA> b(gv()); Vec v; run<mask>(b, v, Fn<0>{sym(9)}); for (int e = 0; e < 2; ++e) for (int i = 0; i < 2; ++i) entry<mask>(v, 2*e + i, anv(sym(80+e), 0, i)); REACHED(2); }
O(leafgf) { leafGF<false>(); } O(leafgfm) { leafGF<true>(); } O(leaffn) { leafFn<false>(); } O(leaffnm) { leafFn<true>(); }
#ifndef LI_DERIVATIVE
using V2 = Dune::FieldVector<double,2>;
struct F2 { V2 operator()(const Coord& x) const { return {feval(400, sym(9), x[0]), feval(401, sym(9), x[0])}; } };
inline double f2(int c, long id, int K, int i) { return feval(400 + c, sym(9), feval(901, id, at(K,i))); }
template<class IMS, bool mask, bool dyn> void power() {
  using B = std::conditional_t<dyn, DynamicPowerPreBasis<IMS,PA>, PowerPreBasis<IMS,PA,2>>;
  DefaultGlobalBasis<B> b([]{ if constexpr (dyn) return B(2, PA(gv())); else return B(PA(gv())); }()); Vec v; run<mask>(b, v, F2());
  for (int e = 0; e < 2; ++e) for (int i = 0; i < 2; ++i) for (int c = 0; c < 2; ++c) {
    int k = 2*e + i; std::size_t s = 0; if constexpr (std::is_same_v<IMS,BF::FlatInterleaved>) s = 2*k + c; if constexpr (std::is_same_v<IMS,BF::BlockedInterleaved>) s = 16*k + c; if constexpr (std::is_same_v<IMS,BF::BlockedLexicographic>) s = 16*c + k;
    if (s < 24) entry<mask>(v, s, f2(c, sym(80+e), 0, i)); }
  REACHED(3);
}
O(pfi) { power<BF::FlatInterleaved,false,false>(); } O(pfim) { power<BF::FlatInterleaved,true,false>(); } O(pfidm) { power<BF::FlatInterleaved,true,true>(); } O(pbl) { power<BF::BlockedLexicographic,true,false>(); } O(pbi) { power<BF::BlockedInterleaved,true,false>(); } O(pbid) { power<BF::BlockedInterleaved,false,true>(); }
// composite of a power of A and B: range is a tuple of a vector and a number
using TV = PowerPreBasis<BF::FlatInterleaved, PA, 2>; using TH = CompositePreBasis<BF::BlockedLexicographic, TV, PB>;
using RT = Dune::TupleVector<V2,double>;
struct FT { RT operator()(const Coord& x) const { return {V2{feval(400, sym(9), x[0]), feval(401, sym(9), x[0])}, feval(402, sym(9), x[0])}; } };
template<bool mask> void comp() {
  DefaultGlobalBasis<TH> b(TV{PA{gv()}}, PB{gv()}); Vec v; run<mask>(b, v, FT());
  for (int e = 0; e < 2; ++e) { for (int i = 0; i < 2; ++i) for (int c = 0; c < 2; ++c) entry<mask>(v, 2*(2*e + i) + c, f2(c, sym(80+e), 0, i)); entry<mask>(v, 16 + e, f2(2, sym(80+e), 1, 0)); }
  REACHED(4);
}
O(comp) { comp<false>(); } O(compm) { comp<true>(); }
// subspace basis: only the coefficients of the subspace are written
template<bool mask> void sub() {
  DefaultGlobalBasis<TH> b(TV{PA{gv()}}, PB{gv()}); Vec v; run<mask>(subspaceBasis(b, _0), v, F2());
  for (int e = 0; e < 2; ++e) { for (int i = 0; i < 2; ++i) for (int c = 0; c < 2; ++c) entry<mask>(v, 2*(2*e + i) + c, f2(c, sym(80+e), 0, i)); CHECKM("coefficients outside of the subspace are left alone", same(v.v[16 + e], feval(860, 16 + e, 0))); }
  REACHED(5);
}
O(sub) { sub<false>(); } O(subm) { sub<true>(); }
O(subsub) {
  DefaultGlobalBasis<TH> b(TV{PA{gv()}}, PB{gv()}); Vec v; run<true>(subspaceBasis(subspaceBasis(b, _0), 1), v, Fn<0>{sym(9)});
  for (int e = 0; e < 2; ++e) { for (int i = 0; i < 2; ++i) { entry<true>(v, 2*(2*e + i) + 1, anv(sym(80+e), 0, i)); CHECKM("coefficients outside of the subspace are left alone", same(v.v[2*(2*e + i)], feval(860, 2*(2*e + i), 0))); } CHECKM("coefficients outside of the subspace are left alone", same(v.v[16 + e], feval(860, 16 + e, 0))); }
  REACHED(6);
}
O(subb) { DefaultGlobalBasis<TH> b(TV{PA{gv()}}, PB{gv()}); Vec v; run<true>(subspaceBasis(b, _1), v, Fn<0>{sym(9)}); for (int e = 0; e < 2; ++e) { entry<true>(v, 16 + e, anv(sym(80+e), 1, 0)); for (int k = 0; k < 4; ++k) CHECKM("coefficients outside of the subspace are left alone", same(v.v[4*e + k], feval(860, 4*e + k, 0))); } REACHED(7); }
// a user defined map from nodes to range entries
struct Swap { template<class N, class TP, class R> auto operator()(const N&, const TP& p, R&& y) const { return y[1 - p[0]]; } };
O(ntre) { DefaultGlobalBasis<PowerPreBasis<BF::FlatInterleaved,PA,2>> b(PA{gv()}); Vec v; run<true>(b, v, F2(), Swap()); for (int e = 0; e < 2; ++e) for (int i = 0; i < 2; ++i) for (int c = 0; c < 2; ++c) entry<true>(v, 2*(2*e + i) + c, f2(1 - c, sym(80+e), 0, i)); REACHED(8); }
#endif
