// C14: container descriptors describe the index tree of their basis, and containers made from them have exactly that structure
#if PART>=11
#include "flatset.hh"
#endif
#include "mockbasis.hh"
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
using namespace Dune::Functions; using namespace mock;
namespace BF = Dune::Functions::BasisFactory; namespace CD = Dune::Functions::ContainerDescriptors;
#define O(n) extern "C" void o_##n()
using FI = BF::FlatInterleaved; using FL = BF::FlatLexicographic; using BL = BF::BlockedLexicographic; using BI = BF::BlockedInterleaved;
using D0 = std::make_index_sequence<0>;
constexpr auto MSG = "size() of the (sub-)descriptor is the size of the basis for this prefix";
template<class D> inline constexpr int kind = 0;                                        // Unknown
template<> inline constexpr int kind<CD::Value> = 1;
template<class... C> inline constexpr int kind<CD::Tuple<C...>> = 2;
template<class C, std::size_t n> inline constexpr int kind<CD::Array<C,n>> = 3;
template<class C> inline constexpr int kind<CD::Vector<C>> = 4;
template<class C, std::size_t n> inline constexpr int kind<CD::UniformArray<C,n>> = 5;
template<class C> inline constexpr int kind<CD::UniformVector<C>> = 6;
template<class C, std::size_t n> constexpr std::size_t staticSize(const CD::UniformArray<C,n>*) { return n; }
template<class C, std::size_t n> constexpr std::size_t staticSize(const CD::Array<C,n>*) { return n; }
template<class... C> constexpr std::size_t staticSize(const CD::Tuple<C...>*) { return sizeof...(C); }
// the descriptor d at prefix p of basis b
template<int lv, class B, class D, class X> void tree(const B& b, const D& d, const X& p) {
  constexpr int k = kind<std::decay_t<D>>;
  static_assert(k != 0, "PROPERTY: the descriptor of a basis of power and composite nodes over flat leaves is known");
  if constexpr (k == 1) CHECKM(MSG, b.size(p) == 0);
  else if constexpr (k == 2 || k == 3) {
    constexpr std::size_t n = staticSize((const std::decay_t<D>*)0);
    CHECKM(MSG, b.size(p) == n && d.size() == n);
    Dune::Hybrid::forEach(std::make_index_sequence<n>(), [&](auto i) { auto q = p; q.push_back(i); tree<lv+1>(b, d[i], q); });
  } else {
    std::size_t n = d.size();
    CHECKM(MSG, b.size(p) == n);
    if constexpr (k == 4) for (std::size_t i = 0; i < n; ++i) { auto q = p; q.push_back(i); tree<lv+1>(b, d[i], q); }
    // uniform children: the sizes may not depend on the digit
    else { const std::size_t i = (std::size_t)sym(20+lv) & 0xff; if (i < n) { auto q = p; q.push_back(i); tree<lv+1>(b, d[i], q); } }
  }
}
template<class B> void whole(const B& b) { tree<0>(b, b.containerDescriptor(), typename B::SizePrefix{}); REACHED(1); }
// mock leaf whose sizes do not depend on anything but the grid view
using A = Pre<0,1,2>; using Q = Pre<1,1,1>;
inline GridView g() { return GridView{7}; }
template<class IMS, int C, class S> PowerPreBasis<IMS,S,C> pw(S s) { return PowerPreBasis<IMS,S,C>(s); }
template<class IMS, class S> DynamicPowerPreBasis<IMS,S> dy(std::size_t n, S s) { return DynamicPowerPreBasis<IMS,S>(n, s); }
template<class IMS, class... S> CompositePreBasis<IMS,S...> co(S... s) { return CompositePreBasis<IMS,S...>(s...); }
template<class P> DefaultGlobalBasis<P> gb(P p) { return DefaultGlobalBasis<P>(p); }
#if PART < 8
// sub tree kinds
#if PART==0
auto sub() { return A(g()); }                                    // flat
#elif PART==1
auto sub() { return pw<BL,2>(A(g())); }                           // uniform array
#elif PART==2
auto sub() { return dy<BL>(2, A(g())); }                           // uniform vector of flat vectors
#elif PART==3
auto sub() { return co<BL>(A(g()), Q(g())); }                     // array
#elif PART==4
auto sub() { return co<BL>(A(g()), pw<BI,2>(Q(g()))); }             // tuple
#elif PART==5
auto sub() { return pw<BI,2>(A(g())); }                           // vector of arrays
#elif PART==6
auto sub() { return co<BL>(pw<BI,2>(A(g())), pw<BI,2>(Q(g()))); }     // array of vectors of arrays
#elif PART==7
auto sub() { return dy<FL>(2, co<BL>(A(g()), Q(g()))); }           // vector of flat vectors
#endif
O(pfi) { whole(gb(pw<FI,3>(sub()))); }
O(pfl) { whole(gb(pw<FL,3>(sub()))); }
O(pbl) { whole(gb(pw<BL,3>(sub()))); }
O(pbi) { whole(gb(pw<BI,3>(sub()))); }
O(pbl1) { whole(gb(pw<BL,1>(sub()))); }
O(pfl1) { whole(gb(pw<FL,1>(sub()))); }
#if PART != 4
O(dfi) { whole(gb(dy<FI>(3, sub()))); }
O(dfl) { whole(gb(dy<FL>(3, sub()))); }
#else
// the number of differently structured children is not known at compile time
template<class B> void wholeIfKnown(const B& b) { if constexpr (kind<decltype(b.containerDescriptor())> != 0) whole(b); else { CHECK(b.size() == 6); REACHED(2); } }
O(dfi) { wholeIfKnown(gb(dy<FI>(3, sub()))); }
O(dfl) { wholeIfKnown(gb(dy<FL>(3, sub()))); }
#endif
O(dbl) { whole(gb(dy<BL>(3, sub()))); }
O(dbi) { whole(gb(dy<BI>(3, sub()))); }
O(cbl) { whole(gb(co<BL>(sub(), Q(g())))); }
O(cbl2) { whole(gb(co<BL>(sub(), sub(), pw<BI,2>(Q(g()))))); }
O(cpp) { whole(gb(co<BL>(pw<BI,2>(sub()), dy<BL>(2, sub())))); }
#elif PART==8
O(cfl) { whole(gb(co<FL>(A(g()), Q(g())))); }
O(cfl3) { whole(gb(co<FL>(A(g()), Q(g()), A(g())))); }
O(cflp) { whole(gb(co<FL>(pw<FI,2>(A(g())), dy<FL>(2, Q(g()))))); }
O(deep) { whole(gb(pw<BI,2>(pw<BI,3>(pw<BL,2>(A(g())))))); }
O(sub) { auto b = gb(co<BL>(pw<BI,2>(A(g())), Q(g()))); auto s = subspaceBasis(b, Dune::Indices::_0); whole(s); }
O(free) { auto p = pw<BI,2>(A(g())); auto d = containerDescriptor(p); CHECK(d.size() == p.size() && d[0].size() == 2); struct No {}; static_assert(kind<decltype(containerDescriptor(No{}))> == 0); REACHED(1); }
#elif PART>=11
// periodic bases: flat, every class of identified indices is one index
struct Raw : A { using A::A; static constexpr std::size_t N = 4; std::size_t size() const { return N; } template<class P> std::size_t size(const P& p) const { return p.size() == 0 ? N : 0; } std::size_t dimension() const { return N; } };
template<int set> void periodic() {
  constexpr int P[6][2] = {{0,1},{2,0},{0,3},{1,2},{3,1},{2,3}};
  BF::Experimental::PeriodicIndexSet s; for (int k = 5; k >= 0; --k) if (set >> k & 1) s.unifyIndexPair(P[k][0], P[k][1]);
  int cls[4] = {0,1,2,3}; for (int r = 0; r < 4; ++r) for (int k = 0; k < 6; ++k) if (set >> k & 1) { int a = P[k][0], b = P[k][1]; int m = cls[a] < cls[b] ? cls[a] : cls[b]; cls[a] = cls[b] = m; }
  std::size_t n = 0; for (int i = 0; i < 4; ++i) n += cls[i] == i;
  auto t = BF::Experimental::periodic([](const GridView& gv) { return Raw(gv); }, s)(g());
  using X = Dune::ReservedVector<std::size_t,2>; std::size_t img[4];
  for (std::size_t i = 0; i < 4; ++i) { X m{i}; t.transformIndex(m); img[i] = m[0]; CHECKM("indices are flat and below the size", m.size() == 1 && img[i] < n); }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) CHECKM("exactly the identified indices share a global index", (img[i] == img[j]) == (cls[i] == cls[j]));
  CHECKM("size and dimension are the number of classes", t.size() == n && t.dimension() == n && t.size(X{0}) == 0 && t.containerDescriptor().size() == n);
  REACHED(1);
}
#define PER(k) O(pub##k) { periodic<k>(); }
#define PER8(k) PER(k##0) PER(k##1) PER(k##2) PER(k##3) PER(k##4) PER(k##5) PER(k##6) PER(k##7)
#if PART==11
PER8(00) PER8(01) PER8(02) PER8(03)
#else
PER8(04) PER8(05) PER8(06) PER8(07)
#endif
#elif PART==9
// containers
constexpr auto CM = "the container has the structure of the descriptor"; constexpr auto CV = "every entry is a copy of the default value";
template<class D, class C> void container(const D& d, C& c, double v) {
  constexpr int k = kind<std::decay_t<D>>;
  if constexpr (k == 1) { if constexpr (std::is_same_v<C,double>) CHECKM(CV, same(c, v)); else CHECKM(CM, false); }
  else if constexpr (!requires { c.size(); }) CHECKM(CM, false);
  else if constexpr (k == 2) { constexpr std::size_t n = staticSize((const std::decay_t<D>*)0); CHECKM(CM, c.size() == n); Dune::Hybrid::forEach(std::make_index_sequence<n>(), [&](auto i) { container(d[i], c[i], v); }); }
  else { CHECKM(CM, c.size() == d.size()); for (std::size_t i = 0; i < d.size(); ++i) container(d[i], c[i], v); }
}
template<class D> void made(const D& d) { auto c = makeContainer<double>(d, symd(1)); container(d, c, symd(1)); auto z = makeContainer<double>(d); container(d, z, 0); REACHED(1); }
inline auto uv(std::size_t n) { return CD::FlatVector(n); }
O(value) { made(CD::Value{}); }
O(flat) { made(uv(3)); }
O(flata) { made(CD::FlatArray<3>{}); }
O(flat1) { made(CD::FlatArray<1>{}); }
O(empty) { made(uv(0)); }
O(arr) { made(CD::Array<CD::FlatVector,2>{uv(1), uv(3)}); }
O(arr1) { made(CD::Array<CD::FlatVector,1>{uv(2)}); }
O(vec) { made(CD::Vector<CD::FlatVector>{uv(2), uv(0), uv(1)}); }
O(uvec) { made(CD::UniformVector<CD::FlatArray<2>>(2)); }
O(uarr) { made(CD::UniformArray<CD::FlatVector,2>(uv(3))); }
O(tup) { made(CD::makeDescriptor(uv(2), CD::FlatArray<2>{}, CD::Value{})); }
O(nest) { made(CD::makeDescriptor(CD::UniformVector<CD::FlatArray<2>>(2), CD::Array<CD::FlatVector,2>{uv(1), uv(2)})); }
O(nest2) { made(CD::UniformArray<CD::Vector<CD::FlatVector>,2>(CD::Vector<CD::FlatVector>{uv(2), uv(1)})); }
O(nest3) { made(CD::Array<CD::UniformArray<CD::FlatVector,2>,2>{CD::UniformArray<CD::FlatVector,2>(uv(1)), CD::UniformArray<CD::FlatVector,2>(uv(2))}); }
O(nest4) { made(CD::UniformVector<CD::UniformVector<CD::FlatVector>>(2, CD::UniformVector<CD::FlatVector>(1, uv(2)))); }
O(nest5) { made(CD::UniformArray<CD::UniformArray<CD::FlatArray<2>,1>,2>()); }
O(tt) { made(CD::makeDescriptor(CD::makeDescriptor(uv(1), CD::Value{}), CD::makeDescriptor(CD::Value{}, uv(2)))); }
O(unknown) { bool thrown = false; try { makeContainer<double>(CD::Unknown{}, 0.0); } catch (const Dune::NotImplemented&) { thrown = true; } CHECKM("an unknown descriptor is rejected", thrown); REACHED(1); }
#else
constexpr auto CM = "the container has the structure of the descriptor"; constexpr auto CV = "every entry is zero";
template<class D, class C> void istl(const D& d, C& c) {
  constexpr int k = kind<std::decay_t<D>>;
  if constexpr (k == 1) { if constexpr (std::is_same_v<C,double>) CHECKM(CV, c == 0.0); else CHECKM(CM, false); }
  else if constexpr (!requires { c.size(); }) CHECKM(CM, false);
  else if constexpr (k == 2) { constexpr std::size_t n = staticSize((const std::decay_t<D>*)0); CHECKM(CM, c.size() == n); Dune::Hybrid::forEach(std::make_index_sequence<n>(), [&](auto i) { istl(d[i], c[i]); }); }
  else { CHECKM(CM, c.size() == d.size()); for (std::size_t i = 0; i < d.size(); ++i) istl(d[i], c[i]); }
}
template<class D> void made(const D& d) { auto c = makeISTLVector<double>(d); istl(d, c); REACHED(1); }
inline auto uv(std::size_t n) { return CD::FlatVector(n); }
O(ivalue) { made(CD::Value{}); }
O(iflat) { made(uv(3)); }
O(iflata) { made(CD::FlatArray<3>{}); }
O(iflat1) { made(CD::FlatArray<1>{}); }
O(iempty) { made(uv(0)); }
O(iarr) { made(CD::Array<CD::FlatVector,2>{uv(1), uv(3)}); }
O(iarr1) { made(CD::Array<CD::FlatVector,1>{uv(2)}); }
O(iarrv) { made(CD::Array<CD::Value,2>{}); }
O(iarrv1) { made(CD::Array<CD::Value,1>{}); }
O(iarra) { made(CD::Array<CD::FlatArray<2>,2>{}); }
O(ivec) { made(CD::Vector<CD::FlatVector>{uv(2), uv(0), uv(1)}); }
O(iveca) { made(CD::Vector<CD::FlatArray<2>>(3)); }
O(ivecv) { made(CD::Vector<CD::Value>(3)); }
O(iuvec) { made(CD::UniformVector<CD::FlatArray<2>>(2)); }
O(iuvec2) { made(CD::UniformVector<CD::FlatVector>(2, uv(3))); }
O(iuarr) { made(CD::UniformArray<CD::FlatVector,2>(uv(3))); }
O(iuarr1) { made(CD::UniformArray<CD::FlatVector,1>(uv(3))); }
O(iuarra1) { made(CD::UniformArray<CD::FlatArray<2>,1>()); }
O(itup) { made(CD::makeDescriptor(uv(2), CD::UniformVector<CD::FlatArray<2>>(3))); }
O(inest) { made(CD::makeDescriptor(CD::UniformVector<CD::FlatArray<2>>(2), CD::Array<CD::FlatVector,2>{uv(1), uv(2)})); }
O(inest2) { made(CD::UniformArray<CD::Vector<CD::FlatArray<2>>,2>(CD::Vector<CD::FlatArray<2>>(2))); }
O(inest3) { made(CD::Array<CD::UniformArray<CD::FlatVector,2>,2>{CD::UniformArray<CD::FlatVector,2>(uv(1)), CD::UniformArray<CD::FlatVector,2>(uv(2))}); }
O(inest4) { made(CD::UniformVector<CD::UniformVector<CD::FlatVector>>(2, CD::UniformVector<CD::FlatVector>(1, uv(2)))); }
O(iunknown) { bool thrown = false; try { makeISTLVector<double>(CD::Unknown{}); } catch (const Dune::NotImplemented&) { thrown = true; } CHECKM("an unknown descriptor is rejected", thrown); REACHED(1); }
#endif
