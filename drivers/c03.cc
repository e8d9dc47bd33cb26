// C03: the type-erased interfaces behave exactly like the function they were built from.
#include "mock.hh"
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/localfunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/gridfunctions/gridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/gridviewentityset.hh>
using namespace Dune::Functions;
using mock::Coord; using mock::Element;
using DR = Dune::FieldMatrix<double,1,1>;
inline double val(double x) { return x; } inline double val(const Coord& x) { return x[0]; } inline double val(const DR& x) { return x[0][0]; }
using ES = GridViewEntitySet<mock::GridView,0>;
template<int S> struct Pad { char c[S]; }; template<> struct Pad<0> {};

template<int K> using R = std::conditional_t<(K < 2), Coord, DR>;
static long live;
struct Count { Count() { ++live; } Count(const Count&) { ++live; } Count(Count&&) noexcept { ++live; } ~Count() { --live; } Count& operator=(const Count&) = default; };

// plain differentiable functions with three derivatives
template<int K, int S> struct F : Pad<S>, Count { long a; F(long a) : a(a) {}
  auto operator()(const Coord& x) const { if constexpr (K == 0) return feval(100, a, x[0]); else return R<K>(feval(100 + K, a, x[0])); }
  friend F<K+1,S> derivative(const F& f) requires (K < 2) { return F<K+1,S>(f.a + 1); } };
template<int S> struct G : Pad<S>, Count { long a; G(long a) : a(a) {} double operator()(const Coord& x) const { return feval(140, a, x[0]); } };
template<int K, int S> struct LF : Pad<S>, Count { long a; Element e; bool b = false; LF(long a) : a(a) {}
  auto operator()(const Coord& x) const { double v = feval(200 + K, a + 1000*e.id + (b ? 7 : 0), x[0]); if constexpr (K == 0) return v; else return R<K>(v); }
  void bind(const Element& x) { e = x; b = true; } void unbind() { b = false; } bool bound() const { return b; } const Element& localContext() const { return e; }
  friend LF<1,S> derivative(const LF& f) requires (K < 1) { LF<1,S> d(f.a + 1); d.e = f.e; d.b = f.b; return d; } };
template<int K, int S> struct GF : Pad<S>, Count { long a; ES es; GF(long a, int tag) : a(a), es(mock::GridView{tag}) {}
  auto operator()(const Coord& x) const { double v = feval(300 + K, a, x[0]); if constexpr (K == 0) return v; else return R<K>(v); }
  const ES& entitySet() const { return es; }
  friend LF<K,S> localFunction(const GF& f) { return LF<K,S>(f.a + 2); }
  friend GF<1,S> derivative(const GF& f) requires (K < 1) { return GF<1,S>(f.a + 1, f.es.gridView().tag); } };

#define O(n) extern "C" void o_##n()
using DFun = DifferentiableFunction<double(Coord)>;
using LFun = LocalFunction<double(Coord), Element>;
using GFun = GridFunction<double(Coord), ES>;
using GVF = GridViewFunction<double(Coord), mock::GridView>;

template<class X> void isF(const X& f, long a) { CHECKM("evaluation is that of the wrapped function", same(val(f(Coord(symd(5)))), feval(100, a, symd(5)))); }
template<class X> void isDF(const X& f, long a) { CHECKM("derivative is that of the wrapped function", same(val(f(Coord(symd(5)))), feval(101, a, symd(5)))); }
#define END(n) CHECKM("no wrapped function is leaked or destroyed twice", live == 0); REACHED(n)
template<int S> void dctor() { live = 0; { DFun f{F<0,S>(sym(1))}; CHECK(bool(f)); isF(f, sym(1)); } END(10); }
template<int S> void dctorl() { live = 0; { const F<0,S> k(sym(4)); DFun c(k); isF(c, sym(4)); isF(k, sym(4)); } END(11); }
template<int S> void dderiv() { live = 0; { DFun f{F<0,S>(sym(1))}; auto d = derivative(f); isDF(d, sym(1) + 1); isF(f, sym(1)); } END(12); }
template<int S> void dderiv2() { live = 0; { DFun f{F<0,S>(sym(1))}; auto d = derivative(derivative(f)); CHECK(same(val(d(Coord(symd(5)))), feval(102, sym(1) + 2, symd(5)))); } END(13); }
template<int S> void dcopy() { live = 0; { DFun f{F<0,S>(sym(1))}; { DFun g(std::as_const(f)); isF(g, sym(1)); } isF(f, sym(1)); } END(14); }
template<int S> void dmove() { live = 0; { DFun f{F<0,S>(sym(1))}; DFun g(std::move(f)); isF(g, sym(1)); } END(15); }
template<int S> void dasgn() { live = 0; { DFun f{F<0,S>(sym(1))}; DFun h{F<0,S>(sym(2))}; h = std::as_const(f); isF(h, sym(1)); isF(f, sym(1)); } END(16); }
template<int S> void dmasgn() { live = 0; { DFun f{F<0,S>(sym(1))}; DFun h{F<0,S>(sym(2))}; h = std::move(f); isF(h, sym(1)); } END(17); }
template<int S> void ddef() { live = 0; { DFun d; CHECKM("a default constructed wrapper is empty", !d); DFun f{F<0,S>(sym(1))}; d = std::as_const(f); CHECK(bool(d)); isF(d, sym(1)); } END(18); }
template<int S> void dempty() { live = 0; { DFun f{F<0,S>(sym(1))}; DFun d; f = std::as_const(d); CHECKM("assigning an empty wrapper empties the target", !f); DFun e(std::as_const(d)); CHECK(!e); } END(19); }
template<int S> void noderiv() {
  live = 0;
  { bool thrown = false; DFun f{G<S>(sym(1))}; CHECK(same(val(f(Coord(symd(5)))), feval(140, sym(1), symd(5))));
    try { auto d = derivative(f); } catch (const Dune::NotImplemented&) { thrown = true; }
    CHECKM("asking for a missing derivative fails", thrown); }
  REACHED(2);
}
template<class L> void isL(const L& f, long a, long id, bool b) {
  CHECKM("bound() is that of the wrapped local function", f.bound() == b); CHECKM("localContext() is that of the wrapped local function", f.localContext().id == id);
  CHECKM("evaluation is that of the wrapped local function", same(val(f(Coord(symd(5)))), feval(200, a + 1000*id + (b ? 7 : 0), symd(5)))); }
template<class L> void isDL(const L& f, long a, long id, bool b) {
  CHECKM("the derivative is bound like the local function", f.bound() == b && f.localContext().id == id);
  CHECKM("the derivative is that of the wrapped local function", same(val(f(Coord(symd(5)))), feval(201, a + 1000*id + (b ? 7 : 0), symd(5)))); }
template<int S> void lbind() { live = 0; { LFun f{LF<0,S>(sym(1))}; CHECKM("a new local function is unbound", !f.bound()); f.bind(Element{sym(2)}); isL(f, sym(1), sym(2), true); } END(20); }
template<int S> void lrebind() { live = 0; { LFun f{LF<0,S>(sym(1))}; f.bind(Element{sym(2)}); f.bind(Element{sym(3)}); isL(f, sym(1), sym(3), true); f.unbind(); isL(f, sym(1), sym(3), false); } END(21); }
template<int S> void lderiv() { live = 0; { LFun f{LF<0,S>(sym(1))}; f.bind(Element{sym(2)}); auto d = derivative(f); isDL(d, sym(1) + 1, sym(2), true); } END(22); }
template<int S> void lcopy() { live = 0; { LFun f{LF<0,S>(sym(1))}; f.bind(Element{sym(2)}); LFun g(std::as_const(f)); g.bind(Element{sym(3)}); isL(f, sym(1), sym(2), true); isL(g, sym(1), sym(3), true); } END(23); }
template<int S> void lasgn() { live = 0; { LFun f{LF<0,S>(sym(1))}; f.bind(Element{sym(2)}); LFun g{LF<0,S>(sym(4))}; g = std::as_const(f); f.unbind(); isL(g, sym(1), sym(2), true); isL(f, sym(1), sym(2), false); } END(24); }
template<int S> void lmove() { live = 0; { LFun f{LF<0,S>(sym(1))}; f.bind(Element{sym(2)}); LFun g(std::move(f)); isL(g, sym(1), sym(2), true); } END(25); }
template<class GX> void isG(const GX& f, long a, int tag) { CHECKM("evaluation is that of the wrapped grid function", same(val(f(Coord(symd(5)))), feval(300, a, symd(5)))); CHECKM("the entity set is that of the wrapped grid function", f.entitySet().gridView().tag == tag); }
template<class GX, int S> void gctor() { live = 0; { GX f{GF<0,S>(sym(1), 17)}; isG(f, sym(1), 17); } END(30); }
template<class GX, int S> void gcopy() { live = 0; { GX f{GF<0,S>(sym(1), 17)}; GX g(std::as_const(f)); isG(g, sym(1), 17); isG(f, sym(1), 17); } END(31); }
template<class GX, int S> void gasgn() { live = 0; { GX f{GF<0,S>(sym(1), 17)}; GX g{GF<0,S>(sym(2), 18)}; g = std::as_const(f); isG(g, sym(1), 17); } END(32); }
template<class GX, int S> void glocal() { live = 0; { GX f{GF<0,S>(sym(1), 17)}; auto l = localFunction(f); CHECKM("a new local function is unbound", !l.bound()); l.bind(Element{sym(3)}); isL(l, sym(1) + 2, sym(3), true); } END(33); }
template<class GX, int S> void glocal2() { live = 0; { GX f{GF<0,S>(sym(1), 17)}; auto l = localFunction(f); l.bind(Element{sym(3)}); auto l2 = localFunction(f); CHECKM("local functions of one grid function are independent", !l2.bound()); isL(l, sym(1) + 2, sym(3), true); } END(34); }
template<class GX, int S> void gderiv() { live = 0; { GX f{GF<0,S>(sym(1), 17)}; auto d = derivative(f); CHECKM("the derivative is that of the wrapped grid function", same(val(d(Coord(symd(5)))), feval(301, sym(1) + 1, symd(5)))); CHECK(d.entitySet().gridView().tag == 17); } END(35); }
template<class GX, int S> void gdlocal() { live = 0; { GX f{GF<0,S>(sym(1), 17)}; auto d = derivative(f); auto dl = localFunction(d); dl.bind(Element{sym(4)}); isDL(dl, sym(1) + 3, sym(4), true); } END(36); }
template<class GX, int S> void gdefault() { live = 0; { GX e; CHECK(!e); GX f{GF<0,S>(sym(1), 17)}; e = std::as_const(f); isG(e, sym(1), 17); } END(37); }
// every bind() and unbind() reaches the wrapped function, also repeated ones
static long binds, unbinds;
template<int S> struct LC : LF<0,S> { using LF<0,S>::LF; void bind(const Element& x) { ++binds; LF<0,S>::bind(x); } void unbind() { ++unbinds; LF<0,S>::unbind(); } };
template<int S> void lcount() { live = binds = unbinds = 0; { LFun f{LC<S>(sym(1))}; f.bind(Element{sym(2)}); CHECKM("every bind() reaches the wrapped local function", binds == 1); f.bind(Element{sym(2)}); CHECKM("every bind() reaches the wrapped local function", binds == 2 && unbinds == 0); } END(26); }
template<int S> void lcount2() { live = binds = unbinds = 0; { LFun f{LC<S>(sym(1))}; f.bind(Element{sym(2)}); f.unbind(); CHECKM("every unbind() reaches the wrapped local function", unbinds == 1); f.bind(Element{sym(2)}); CHECKM("every bind() reaches the wrapped local function", binds == 2 && unbinds == 1); } END(27); }
#define SB(f) O(f##_small) { f<0>(); } O(f##_big) { f<100>(); }
#define GSB(f) O(f##_small) { f<GFun,0>(); } O(f##_big) { f<GFun,100>(); } O(f##_vsmall) { f<GVF,0>(); } O(f##_vbig) { f<GVF,100>(); }
#if PART==0
SB(dctor) SB(dctorl) SB(dderiv) SB(dderiv2) SB(dcopy) SB(dmove) SB(dasgn) SB(dmasgn) SB(ddef) SB(dempty) SB(noderiv)
#elif PART==1
SB(lbind) SB(lrebind) SB(lderiv) SB(lcopy) SB(lasgn) SB(lmove) SB(lcount) SB(lcount2)
#elif PART==2
GSB(gctor) GSB(gcopy) GSB(gasgn) GSB(glocal)
#elif PART==3
GSB(glocal2) GSB(gderiv) GSB(gdlocal) GSB(gdefault)
#else
struct U { long a; double operator()(const Coord& x) const { return feval(150, a, x[0]); } };
template<int K> struct V { long a; R<K> operator()(const Coord& x) const { return R<K>(feval(160 + K, a, x[0])); } };
O(callables) {
  auto f = makeDifferentiableFunctionFromCallables(SignatureTag<double(Coord)>(), U{sym(1)}, V<1>{sym(2)}, V<2>{sym(3)});
  auto c = [](const auto& f) { CHECKM("the k-th callable is the k-th derivative", same(val(f(Coord(symd(5)))), feval(150, sym(1), symd(5)))); auto d = derivative(f); CHECK(same(val(d(Coord(symd(5)))), feval(161, sym(2), symd(5)))); auto dd = derivative(d); CHECK(same(val(dd(Coord(symd(5)))), feval(162, sym(3), symd(5))));
    bool t = false; try { auto d3 = derivative(dd); } catch (const Dune::NotImplemented&) { t = true; } CHECKM("a missing derivative is reported", t); };
  c(f); auto g = f; c(g); DFun h(f); c(h); REACHED(5);
}
O(typeinfo) { DFun f{F<0,0>(sym(1))}; CHECK(&f.target_type() == &typeid(F<0,0>)); DFun g{F<0,100>(sym(1))}; CHECK(&g.target_type() == &typeid(F<0,100>)); DFun h(g); CHECK(&h.target_type() == &typeid(F<0,100>)); REACHED(6); }
#endif
