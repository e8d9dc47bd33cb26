// C20: which transformation the nodes, discrete functions and face normals use
#define SYMGEO
#define CONCRETE
#include "numbering.hh"
#include <dune/common/diagonalmatrix.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
template<int dim> using X = Dune::FieldVector<double,dim>;
template<int dim> X<dim> pt(int k = 0) { X<dim> x; for (int i = 0; i < dim; ++i) x[i] = symd(k + i); return x; }
// boundary facets only, vertices in increasing order: the unmodified variant
template<bool contra, class Pre, class L> void node(T t) {
  typename Pre::GridView gv; gv.cfg = makeId(0, 0b011'010'001'000); Pre pre(gv); auto n = pre.makeNode(); constexpr int dim = Pre::GridView::dimension; Element<dim> e{t, gv.cfg}; n.bind(e); auto g = e.geometry();
  L l(0); auto x = pt<dim>(); std::vector<X<dim>> v, w; n.finiteElement().localBasis().evaluateFunction(x, v); l.localBasis().evaluateFunction(x, w);
  CHECKM("the node has the functions of the local finite element", v.size() == w.size());
  for (std::size_t f = 0; f < w.size(); ++f) for (int j = 0; j < dim; ++j) { double r = 0; for (int k = 0; k < dim; ++k) r += (contra ? g.J(j, k, x) : g.JI(k, j, x))*w[f][k]; if (contra) r /= g.integrationElement(x); CHECKM("the functions are those of the local finite element under the Piola transformation that keeps the normal (tangential) traces", same(v[f][j], r)); }
  REACHED(1);
}
template<class Pre, class L> void nodeV(T t) {
  typename Pre::GridView gv; gv.cfg = makeId(0, 0b011'010'001'000); Pre pre(gv); auto n = pre.makeNode(); constexpr int dim = Pre::GridView::dimension; Element<dim> e{t, gv.cfg}; n.bind(e);
  auto l = std::make_shared<Dune::LocalFiniteElementVirtualImp<L>>(L(0)); Dune::Functions::Impl::GlobalValuedLocalFiniteElement<Dune::Functions::Impl::ContravariantPiolaTransformator, Dune::LocalFiniteElementVirtualInterface<typename L::Traits::LocalBasisType::Traits>, Element<dim>> r; r.bind(*l, e);
  auto x = pt<dim>(); std::vector<X<dim>> v, w; n.finiteElement().localBasis().evaluateFunction(x, v); r.localBasis().evaluateFunction(x, w);
  CHECKM("the node has the functions of the local finite element", v.size() == w.size());
  for (std::size_t f = 0; f < w.size(); ++f) for (int j = 0; j < dim; ++j) CHECKM("the functions are those of the local finite element under the Piola transformation that keeps the normal traces", same(v[f][j], w[f][j]));
  REACHED(1);
}
template<int dim, T t> void normal(X<dim> x, int f) {
  using GV = GVT<t>; GV gv; FaceNormalGridFunction<GV> fn(gv); auto lf = localFunction(fn); Element<dim> e{t, sym(31)}; lf.bind(e); auto g = e.geometry(); auto n = RefElement<dim>{t}.integrationOuterNormal(f);
  X<dim> r; for (int i = 0; i < dim; ++i) { r[i] = 0; for (int j = 0; j < dim; ++j) r[i] += g.JI(j, i, x)*n[j]; } r /= r.two_norm(); auto y = lf(x); for (int i = 0; i < dim; ++i) CHECKM("the normal is the outer unit normal of the face closest to the point", same(y[i], r[i])); REACHED(1);
}
using D = double; template<T t, int k> using RT = RaviartThomasPreBasis<GVT<t>,k>; template<T t, int k> using BDM = BrezziDouglasMariniPreBasis<GVT<t>,k>; template<T t> using NED = NedelecPreBasis<GVT<t>,double,1,1>;
#if PART==0
O(rt) { node<true,RT<tri,0>,Dune::RT02DLocalFiniteElement<D,D>>(tri); } O(rtq) { node<true,RT<quad,1>,Dune::RT1Cube2DLocalFiniteElement<D,D>>(quad); }
O(rtT) { node<true,RT<tet,0>,Dune::RT03DLocalFiniteElement<D,D>>(tet); }
#elif PART==1
O(bd) { nodeV<BDM<tri,1>,Dune::BDM1Simplex2DLocalFiniteElement<D,D>>(tri); } O(bdq) { nodeV<BDM<quad,1>,Dune::BDM1Cube2DLocalFiniteElement<D,D>>(quad); }
#elif PART==2
O(ne) { node<false,NED<tri>,Dune::Nedelec1stKindSimplexLocalFiniteElement<D,D,2,1>>(tri); } O(neq) { node<false,NED<quad>,Dune::Nedelec1stKindCubeLocalFiniteElement<D,D,2,1>>(quad); }
#elif PART==3
O(t0) { normal<2,tri>(X<2>{0.375,0.125}, 0); } O(t1) { normal<2,tri>(X<2>{0.125,0.375}, 1); } O(t2) { normal<2,tri>(X<2>{0.4375,0.4375}, 2); } O(t3) { normal<2,tri>(X<2>{0.25,0.5}, 2); }
O(q0) { normal<2,quad>(X<2>{0.125,0.5}, 0); } O(q1) { normal<2,quad>(X<2>{0.875,0.25}, 1); } O(q2) { normal<2,quad>(X<2>{0.375,0.25}, 2); } O(q3) { normal<2,quad>(X<2>{0.5,0.75}, 3); }
O(T0) { normal<3,tet>(X<3>{0.25,0.25,0.125}, 0); } O(T1) { normal<3,tet>(X<3>{0.25,0.125,0.25}, 1); } O(T2) { normal<3,tet>(X<3>{0.0625,0.25,0.25}, 2); } O(T3) { normal<3,tet>(X<3>{0.3125,0.3125,0.3125}, 3); }
O(h0) { normal<3,hex>(X<3>{0.125,0.25,0.75}, 0); } O(h1) { normal<3,hex>(X<3>{0.875,0.25,0.75}, 1); } O(h2) { normal<3,hex>(X<3>{0.25,0.125,0.75}, 2); } O(h3) { normal<3,hex>(X<3>{0.25,0.8125,0.75}, 3); } O(h4) { normal<3,hex>(X<3>{0.25,0.75,0.125}, 4); } O(h5) { normal<3,hex>(X<3>{0.25,0.75,0.875}, 5); }
#endif
#if PART>=4
namespace BF = Dune::Functions::BasisFactory;
template<class V> struct Coeff { using value_type = V; template<class I> V operator[](const I& i) const { long h = 5; for (std::size_t k = 0; k < i.size(); ++k) h = h*131 + (long)i[k]; if constexpr (std::is_same_v<V,double>) return feval(800, h, 0); else { V r; for (std::size_t k = 0; k < r.size(); ++k) r[k] = feval(801 + k, h, 0); return r; } } };
template<class J> double en(const J& j, int r, int k) { if constexpr (requires { j[0][0][0]; }) return j[r][0][k]; else if constexpr (requires { j[0][0]; }) return j[r][k]; else return j[k]; }
// rows: number of components, comp(row, i): coefficient of function i of the scalar leaf for this row
template<class V, class Range, class B, class C> void grad(const B& basis, T t, long cfg, int rows, C comp) {
  constexpr int dim = B::GridView::dimension; DiscreteGlobalBasisFunction<B,Coeff<V>,HierarchicNodeToRangeMap,Range> f(basis, Coeff<V>{}, HierarchicNodeToRangeMap()); Element<dim> e{t, cfg}; auto x = pt<dim>(); auto g = e.geometry();
  auto df = derivative(f); auto lf = localFunction(df); lf.bind(e); auto lv = basis.localView(); lv.bind(e); auto y = lf(x);
  auto&& leaf = [&]() -> auto&& { if constexpr (requires { lv.tree().child(0); }) return lv.tree().child(0); else return lv.tree(); }(); std::vector<Dune::FieldMatrix<double,1,dim>> d; leaf.finiteElement().localBasis().evaluateJacobian(x, d);
  for (int r = 0; r < rows; ++r) for (int k = 0; k < dim; ++k) { double s = 0; for (int l = 0; l < dim; ++l) { double q = 0; for (std::size_t i = 0; i < d.size(); ++i) q += comp(lv, r, i)*d[i][0][l]; s += q*g.JI(l, k, x); } CHECKM("the derivative of a discrete function is the derivative with respect to global coordinates", same(en(y, r, k), s)); }
  auto lf2 = localFunction(f); lf2.bind(e); auto dl = derivative(lf2); auto z = dl(x); for (int r = 0; r < rows; ++r) for (int k = 0; k < dim; ++k) CHECKM("the derivative of the local function is the local function of the derivative", same(en(z, r, k), en(y, r, k)));
  REACHED(1);
}
constexpr long CFG = makeId(0, 0b111'110'101'100'011'010'001'000); const auto scalar = [](auto& lv, int, std::size_t i) { return Coeff<double>{}[lv.index(i)]; }; const auto pow_ = [](auto& lv, int r, std::size_t i) { return Coeff<double>{}[lv.index(lv.tree().child(r).localIndex(i))]; }; const auto vec_ = [](auto& lv, int r, std::size_t i) { return Coeff<X<2>>{}[lv.index(i)][r]; };
template<T t> GVT<t> gv_() { GVT<t> gv; gv.cfg = CFG; return gv; }
template<class P> auto G(P p) { return DefaultGlobalBasis(std::move(p)); }
#endif
#if PART==4
O(g2) { grad<double,double>(G(LagrangePreBasis<GVT<tri>,1>(gv_<tri>())), tri, CFG, 1, scalar); }
O(g2v) { grad<X<2>,X<2>>(G(LagrangePreBasis<GVT<tri>,1>(gv_<tri>())), tri, CFG, 2, vec_); }
#elif PART==5
O(g2p) { auto gv = gv_<tri>(); grad<double,X<2>>(G(BF::power<2>(BF::lagrange<1>(), BF::flatInterleaved())(gv)), tri, CFG, 2, pow_); }
O(g2q) { grad<double,double>(G(LagrangePreBasis<GVT<quad>,1>(gv_<quad>())), quad, CFG, 1, scalar); }
#elif PART==6
O(g3) { grad<double,double>(G(LagrangePreBasis<GVT<tet>,1>(gv_<tet>())), tet, CFG, 1, scalar); }
O(g3p) { auto gv = gv_<tet>(); grad<double,X<3>>(G(BF::power<3>(BF::lagrange<1>(), BF::blockedLexicographic())(gv)), tet, CFG, 3, pow_); }
#endif
