// C20: transformation of shape functions, derivatives and normals to global coordinates
#define SYMGEO
#include "m2.hh"
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/diagonalmatrix.hh>
#include "mock3.hh"
#include <dune/localfunctions/common/localkey.hh>
#include <dune/localfunctions/common/localbasis.hh>
#include <dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh>
using namespace mock3; using namespace refel; using namespace Dune::Functions;
#define O(n) extern "C" void o_##n()
constexpr int NF = 2;
template<int dim> using X = Dune::FieldVector<double,dim>;
template<int dim> X<dim> pt(int k = 0) { X<dim> x; for (int i = 0; i < dim; ++i) x[i] = symd(k + i); return x; }
// the local-valued element: uninterpreted vector valued functions
template<int dim> struct LB { using Traits = Dune::LocalBasisTraits<double,dim,X<dim>,double,dim,X<dim>,Dune::FieldMatrix<double,dim,dim>>; unsigned size() const { return NF; } unsigned order() const { return sym(20); }
  static double v(int f, int j, const X<dim>& x) { return feval(100 + 10*f + j, 0, Geo<dim>::at(x)); } static double d(int f, int j, int k, const X<dim>& x) { return feval(200 + 100*f + 10*j + k, 0, Geo<dim>::at(x)); }
  void evaluateFunction(const X<dim>& x, std::vector<X<dim>>& out) const { out.resize(NF); for (int f = 0; f < NF; ++f) for (int j = 0; j < dim; ++j) out[f][j] = v(f, j, x); }
  void evaluateJacobian(const X<dim>& x, std::vector<Dune::FieldMatrix<double,dim,dim>>& out) const { out.resize(NF); for (int f = 0; f < NF; ++f) for (int j = 0; j < dim; ++j) for (int k = 0; k < dim; ++k) out[f][j][k] = d(f, j, k, x); } };
template<int dim> struct LC { unsigned size() const { return NF; } Dune::LocalKey localKey(int) const { return {0, 0, 0}; } };
template<int dim> struct LI { template<class F, class C> void interpolate(const F& f, std::vector<C>& out) const { out.resize(NF); auto y = f(pt<dim>(3)); auto z = f(pt<dim>(6)); for (int i = 0; i < NF; ++i) { out[i] = 0; for (int j = 0; j < dim; ++j) out[i] += feval(400 + 10*i, j, y[j]) + feval(401 + 10*i, j, z[j]); } } };
template<int dim> struct LFE { struct Traits { using LocalBasisType = LB<dim>; using LocalCoefficientsType = LC<dim>; using LocalInterpolationType = LI<dim>; }; LB<dim> b; LC<dim> c; LI<dim> i; const LB<dim>& localBasis() const { return b; } const LC<dim>& localCoefficients() const { return c; } const LI<dim>& localInterpolation() const { return i; } std::size_t size() const { return NF; } Dune::GeometryType type() const { return gts[dim == 2 ? tri : tet]; } };
#ifdef DIAGONAL
#define USED(i, j) (i == j)
#else
#define USED(i, j) true
#endif
template<int dim> double ent(const Geo<dim>& g, bool inv, int i, int j, const X<dim>& x) {
  return inv ? g.JI(i, j, x) : g.J(i, j, x); }
// expected entry (row j) of the transformed vector w
template<bool contra, int dim> double fwd(const Geo<dim>& g, int j, const X<dim>& x, const X<dim>& w) { double r = 0; for (int l = 0; l < dim; ++l) if (USED(j, l)) r += (contra ? ent(g, false, j, l, x) : ent(g, true, l, j, x))*w[l]; return contra ? r/g.integrationElement(x) : r; }
template<bool contra, int dim> X<dim> bwd(const Geo<dim>& g, const X<dim>& x, const X<dim>& w) { X<dim> r; for (int j = 0; j < dim; ++j) { r[j] = 0; for (int l = 0; l < dim; ++l) if (USED(j, l)) r[j] += (contra ? ent(g, true, j, l, x) : ent(g, false, l, j, x))*w[l]; if (contra) r[j] *= g.integrationElement(x); } return r; }
template<int dim> auto prior(int n) { return std::vector<X<dim>>(n, pt<dim>(9)); }
template<bool contra, int dim> void piola(int prev) {
  using Tr = std::conditional_t<contra, Impl::ContravariantPiolaTransformator, Impl::CovariantPiolaTransformator>;
  using E = Element<dim>; LFE<dim> l; E e0{dim == 2 ? tri : tet, sym(30)}, e{dim == 2 ? tri : tet, sym(31)}; Impl::GlobalValuedLocalFiniteElement<Tr,LFE<dim>,E> fe; if (prev & 1) fe.bind(l, e0); fe.bind(l, e);
  auto g = e.geometry(); auto x = pt<dim>(); const auto& b = fe.localBasis();
  CHECKM("size, order, type and coefficients are those of the local-valued element", fe.size() == NF && b.size() == NF && b.order() == (unsigned)sym(20) && fe.type() == l.type() && &fe.localCoefficients() == &l.c);
  std::vector<X<dim>> v; if (prev & 2) v = prior<dim>(3); b.evaluateFunction(x, v); CHECKM("one value per function", v.size() == NF);
  for (int f = 0; f < NF; ++f) { X<dim> w; for (int j = 0; j < dim; ++j) w[j] = LB<dim>::v(f, j, x); for (int j = 0; j < dim; ++j) CHECKM("values are Piola transformed", same(v[f][j], fwd<contra>(g, j, x, w))); }
  std::vector<Dune::FieldMatrix<double,dim,dim>> d; b.evaluateJacobian(x, d); CHECKM("one Jacobian per function", d.size() == NF);
  for (int f = 0; f < NF; ++f) for (int k = 0; k < dim; ++k) { X<dim> w; for (int j = 0; j < dim; ++j) w[j] = LB<dim>::d(f, j, k, x); for (int j = 0; j < dim; ++j) CHECKM("derivatives of the transformed functions with respect to local coordinates are Piola transformed", same(d[f][j][k], fwd<contra>(g, j, x, w))); }
  std::array<unsigned,dim> o{}; auto p = v; b.partial(o, x, p); CHECKM("one partial derivative per function", p.size() == NF); for (int f = 0; f < NF; ++f) for (int j = 0; j < dim; ++j) CHECKM("partial derivatives of order zero are the values", same(p[f][j], v[f][j]));
  for (int k = 0; k < dim; ++k) { o = {}; o[k] = 1; p.clear(); b.partial(o, x, p); CHECKM("one partial derivative per function", p.size() == NF); for (int f = 0; f < NF; ++f) for (int j = 0; j < dim; ++j) CHECKM("partial derivatives of order one are the entries of the Jacobian", same(p[f][j], d[f][j][k])); }
  REACHED(1);
}
template<bool contra, int dim> void interp() {
  using Tr = std::conditional_t<contra, Impl::ContravariantPiolaTransformator, Impl::CovariantPiolaTransformator>;
  using E = Element<dim>; LFE<dim> l; E e{dim == 2 ? tri : tet, sym(31)}; Impl::GlobalValuedLocalFiniteElement<Tr,LFE<dim>,E> fe; fe.bind(l, e); auto g = e.geometry();
  auto val = [](const X<dim>& x) { X<dim> r; for (int j = 0; j < dim; ++j) r[j] = feval(600 + j, 0, Geo<dim>::at(x)); return r; };
  std::vector<double> c, r; fe.localInterpolation().interpolate(val, c); l.i.interpolate([&](const X<dim>& x) { return bwd<contra>(g, x, val(x)); }, r);
  CHECKM("one coefficient per function", c.size() == NF); for (int i = 0; i < NF; ++i) CHECKM("the interpolation functionals are applied to the inversely transformed function", same(c[i], r[i])); REACHED(1);
}
template<bool contra, int dim> void orders(unsigned o0, unsigned o1) {
  using Tr = std::conditional_t<contra, Impl::ContravariantPiolaTransformator, Impl::CovariantPiolaTransformator>;
  using E = Element<dim>; LFE<dim> l; E e{dim == 2 ? tri : tet, sym(31)}; Impl::GlobalValuedLocalFiniteElement<Tr,LFE<dim>,E> fe; fe.bind(l, e); std::array<unsigned,dim> o{}; o[0] = o0; o[1] = o1; std::vector<X<dim>> p; bool ok = false;
  try { fe.localBasis().partial(o, pt<dim>(), p); } catch (const Dune::NotImplemented&) { ok = true; } CHECKM("partial derivatives that are not available are refused", ok); REACHED(1);
}
#if PART==0
O(c2) { piola<true,2>(0); } O(c2r) { piola<true,2>(3); } O(v2) { piola<false,2>(0); } O(v2r) { piola<false,2>(3); }
O(ci2) { interp<true,2>(); } O(vi2) { interp<false,2>(); } O(co2) { orders<true,2>(2, 0); } O(vo2) { orders<false,2>(1, 1); }
#elif PART==1
O(c3) { piola<true,3>(0); } O(v3) { piola<false,3>(3); } O(ci3) { interp<true,3>(); } O(vi3) { interp<false,3>(); } O(co3) { orders<true,3>(0, 2); } O(vo3) { orders<false,3>(1, 1); }
#endif
