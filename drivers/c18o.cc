// C18: orientation of the Raviart-Thomas, BDM and Nedelec functions: which variant of the local finite element an element sees
#define CONCRETE
#include "numbering.hh"
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
template<class P> P mk(long cfg) { typename P::GridView gv; gv.cfg = cfg; return P(gv); }
template<class Tr, class L, class E> std::type_identity<L> lfeOf(const Impl::GlobalValuedLocalFiniteElement<Tr,L,E>&);
template<class FE> struct Wrap { std::shared_ptr<FE> p; template<class L> Wrap(L l) : p(std::make_shared<FE>(FE(l))) {} };
// facets: all functions of facet k of an element are flipped relative to those its neighbour sees: one of the two has the bit set.
// (either of the two conventions is fine, functions of the boundary are not shared)
template<class Pre, class L> void facets(T t, long cfg) {
  auto pre = mk<Pre>(cfg); auto node = pre.makeNode(); constexpr int dim = Pre::GridView::dimension; Element<dim> e{t, cfg}; node.bind(e);
  auto&& fe = node.finiteElement(); using GFE = std::remove_cvref_t<decltype(fe)>; using LFE = typename decltype(lfeOf(fe))::type;
  Dune::FieldVector<double,dim> x; for (int i = 0; i < dim; ++i) x[i] = symd(i); std::vector<Dune::FieldVector<double,dim>> y; fe.localBasis().evaluateFunction(x, y);
  int larger = 0, smaller = 0; for (int k = 0; k < nsub(t, 1); ++k) { int s = cfg >> (8 + 2*k) & 3; larger |= (s == 2) << k; smaller |= (s == 1) << k; }
  auto is = [&](int b) { Wrap<std::conditional_t<std::is_abstract_v<LFE>, Dune::LocalFiniteElementVirtualImp<L>, LFE>> l{L(b)}; GFE g; g.bind(*l.p, e); std::vector<Dune::FieldVector<double,dim>> z; g.localBasis().evaluateFunction(x, z);
    bool r = y.size() == z.size(); for (std::size_t i = 0; i < y.size() && i < z.size(); ++i) for (int j = 0; j < dim; ++j) r &= same(y[i][j], z[i][j]); return r; };
  CHECKM("of two neighbours exactly one sees the functions of the common facet flipped", is(larger) | is(smaller));
  REACHED(1);
}
template<class Pre, class L> void edges(T t, long cfg) {
  auto pre = mk<Pre>(cfg); auto node = pre.makeNode(); constexpr int dim = Pre::GridView::dimension; Element<dim> e{t, cfg}; node.bind(e);
  auto&& fe = node.finiteElement(); using GFE = std::remove_cvref_t<decltype(fe)>; using LFE = typename decltype(lfeOf(fe))::type;
  Dune::FieldVector<double,dim> x; for (int i = 0; i < dim; ++i) x[i] = symd(i); std::vector<Dune::FieldVector<double,dim>> y; fe.localBasis().evaluateFunction(x, y);
  int down = 0, up = 0; for (int k = 0; k < ne[t]; ++k) { auto v = [&](int j) { return cfg >> (24 + 3*ev[t][k][j]) & 7; }; down |= (v(0) > v(1)) << k; up |= (v(0) < v(1)) << k; }
  auto is = [&](int b) { LFE l{L(b)}; GFE g; g.bind(l, e); std::vector<Dune::FieldVector<double,dim>> z; g.localBasis().evaluateFunction(x, z);
    bool r = y.size() == z.size(); for (std::size_t i = 0; i < y.size() && i < z.size(); ++i) for (int j = 0; j < dim; ++j) r &= same(y[i][j], z[i][j]); return r; };
  CHECKM("the direction of an edge function depends on the global numbers of its end points only", is(down) | is(up));
  REACHED(1);
}
// facet states as a number to the base of 3; vertex numbers as decimal digits
constexpr long F(int s) { long r = 0; for (int k = 0; k < 6; ++k, s /= 3) r |= long(s % 3) << 2*k; return makeId(r, 0b111'110'101'100'011'010'001'000); }
constexpr long V(long s) { long r = 0; for (int k = 0; k < 8; ++k, s /= 10) r |= (s % 10) << 3*k; return makeId(0b10'01'00'10'01'00, r); }
using D = double;
#define A(n, cfg, P, t, ...) O(n) { facets<P, __VA_ARGS__>(t, F(cfg)); }
#define B(n, cfg, P, t, ...) O(n) { edges<P, __VA_ARGS__>(t, V(cfg)); }
#define A6(P, t, ...) A(P##_0,0,P,t,__VA_ARGS__) A(P##_1,26*27+26,P,t,__VA_ARGS__) A(P##_2,5*27+11,P,t,__VA_ARGS__) A(P##_3,8*27+19,P,t,__VA_ARGS__) A(P##_4,15*27+6,P,t,__VA_ARGS__) A(P##_5,13*27+7,P,t,__VA_ARGS__)
#define A3(P, t, ...) A(P##_2,5*27+11,P,t,__VA_ARGS__) A(P##_3,8*27+19,P,t,__VA_ARGS__) A(P##_5,13*27+7,P,t,__VA_ARGS__)
#define B2(P, t, ...) B(P##_0,3210,P,t,__VA_ARGS__) B(P##_3,1320,P,t,__VA_ARGS__)
#define B2b(P, t, ...) B(P##_2,2013,P,t,__VA_ARGS__) B(P##_5,123,P,t,__VA_ARGS__)
#define B6t(P, t, ...) B(P##_0,210,P,t,__VA_ARGS__) B(P##_1,120,P,t,__VA_ARGS__) B(P##_2,201,P,t,__VA_ARGS__) B(P##_3,21*1,P,t,__VA_ARGS__) B(P##_4,102,P,t,__VA_ARGS__) B(P##_5,12,P,t,__VA_ARGS__)
#define B6q(P, t, ...) B(P##_0,3210,P,t,__VA_ARGS__) B(P##_1,1230,P,t,__VA_ARGS__) B(P##_2,2013,P,t,__VA_ARGS__) B(P##_3,1320,P,t,__VA_ARGS__) B(P##_4,3102,P,t,__VA_ARGS__) B(P##_5,123,P,t,__VA_ARGS__)
template<T t, int k> using RT = RaviartThomasPreBasis<GVT<t>,k>; template<T t> using RTM = RaviartThomasPreBasis<GVT<tri,quad>,0>; template<T t, int k> using BDM = BrezziDouglasMariniPreBasis<GVT<t>,k>; template<T t> using NED = NedelecPreBasis<GVT<t>,double,1,1>;
using RTtri0 = RT<tri,0>; using RTtri1 = RT<tri,1>; using RTq0 = RT<quad,0>; using RTq1 = RT<quad,1>; using RTq2 = RT<quad,2>; using RTT0 = RT<tet,0>; using RTh0 = RT<hex,0>; using BDt1 = BDM<tri,1>; using BDt2 = BDM<tri,2>; using BDq1 = BDM<quad,1>; using RTmix = RaviartThomasPreBasis<GVT<tri,quad>,0>; using NEt = NED<tri>; using NEq = NED<quad>; using NET = NED<tet>; using RTh1 = RT<hex,1>; using BDq2 = BDM<quad,2>;
#if PART==0
A6(RTtri0,tri,Dune::RT02DLocalFiniteElement<D,D>)
#elif PART==1
A6(RTtri1,tri,Dune::RT12DLocalFiniteElement<D,D>)
#elif PART==2
A6(RTq0,quad,Dune::RT0Cube2DLocalFiniteElement<D,D>)
#elif PART==3
A6(RTq1,quad,Dune::RT1Cube2DLocalFiniteElement<D,D>)
#elif PART==4
A6(RTT0,tet,Dune::RT03DLocalFiniteElement<D,D>)
#elif PART==5
A6(RTh0,hex,Dune::RT0Cube3DLocalFiniteElement<D,D>)
#elif PART==6
A6(BDt1,tri,Dune::BDM1Simplex2DLocalFiniteElement<D,D>)
#elif PART==7
A6(BDq1,quad,Dune::BDM1Cube2DLocalFiniteElement<D,D>)
#elif PART==8
B6t(NEt,tri,Dune::Nedelec1stKindSimplexLocalFiniteElement<D,D,2,1>)
#elif PART==9
B6q(NEq,quad,Dune::Nedelec1stKindCubeLocalFiniteElement<D,D,2,1>)
#elif PART==10
B2(NET,tet,Dune::Nedelec1stKindSimplexLocalFiniteElement<D,D,3,1>)
#elif PART==11
B2b(NET,tet,Dune::Nedelec1stKindSimplexLocalFiniteElement<D,D,3,1>)
#elif PART==12
A(RTmix_0,0,RTmix,tri,Dune::RT02DLocalFiniteElement<D,D>) A(RTmix_5,13*27+7,RTmix,tri,Dune::RT02DLocalFiniteElement<D,D>)
#elif PART==13
A(RTmix_0,0,RTmix,quad,Dune::RT0Cube2DLocalFiniteElement<D,D>) A(RTmix_5,13*27+7,RTmix,quad,Dune::RT0Cube2DLocalFiniteElement<D,D>)
#elif PART==14
A3(RTq2,quad,Dune::RT2Cube2DLocalFiniteElement<D,D>)
#elif PART==15
A3(BDq2,quad,Dune::BDM2Cube2DLocalFiniteElement<D,D>)
#elif PART==16
A3(RTh1,hex,Dune::RT1Cube3DLocalFiniteElement<D,D>)
#elif PART==17
A3(BDt2,tri,Dune::BDM2Simplex2DLocalFiniteElement<D,D>)
#endif
