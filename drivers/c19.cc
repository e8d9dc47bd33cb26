// C19: finite elements with derivative degrees of freedom
#define CONCRETE
#define AFFGEO
#if ELEMENT==1
#define MOCK3_PRESENT(q) && g == 2 && (q == refel::point || q == refel::line || q == refel::tri)
#endif
#include "m2.hh"
#if defined(VERIF_CONST) || defined(CONSTSIZES)
// two more elements, so that vertices have different mesh sizes
#define NELEM(n) 3
#define ELID(cfg, k) ((k) == 0 ? (cfg) : (k) == 1 ? 0 + (0b101'100'011'000L << 24) : 2 + (0b111'110'101'001L << 24))
#endif
#if defined(VERIF_CONST) && !defined(GEOM)
#define GEOM (VERIF_CONST%4)
#endif
#ifdef GEOM
// constant affine maps
inline constexpr double AFFT[][3][3] = {{{1,0,0},{0,1,0},{0,0,1}}, {{2,1,0.5},{0.5,3,-1},{0.25,0.5,1.5}}, {{-1,2,1},{3,0.5,0.25},{0.5,-2,1}}, {{0.25,-1,0},{-2,-0.5,1},{1,0,-3}}};
inline double AFF(int i, int j) { return AFFT[GEOM][i][j]; } inline double AFFB(int i) { return 3*GEOM + i; }
#define AFFVOL(id) ((GEOM == 0 ? 1 : 0.25*GEOM + 1.75) + 2*((id) & 0xff))
#else
inline double AFF(int i, int j) { return symd(40 + 3*i + j); } inline double AFFB(int i) { return symd(50 + i); }
#define AFFVOL(id) symd(60 + ((id) & 0xff))
#endif
#include "numbering.hh"
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#if ELEMENT==0
constexpr T topo_ = tri; using Pre = MorleyPreBasis<GVT<tri>,double>; constexpr int NF = 6;
#elif ELEMENT==1
constexpr T topo_ = tri; using Pre = ArgyrisPreBasis<GVT<tri>,double>; constexpr int NF = 21;
#elif ELEMENT==2
constexpr T topo_ = line; using Pre = CubicHermitePreBasis<GVT<line>,double>; constexpr int NF = 4;
#elif ELEMENT==3
constexpr T topo_ = tri; using Pre = CubicHermitePreBasis<GVT<tri>,double>; constexpr int NF = 10;
#elif ELEMENT==4
constexpr T topo_ = tri; using Pre = CubicHermitePreBasis<GVT<tri>,double,true>; constexpr int NF = 9;
#elif ELEMENT==5
constexpr T topo_ = tet; using Pre = CubicHermitePreBasis<GVT<tet>,double>; constexpr int NF = 20;
#endif
constexpr int dim = dimOf[topo_]; using X = Dune::FieldVector<double,dim>; using V1 = std::vector<Dune::FieldVector<double,1>>; using VJ = std::vector<Dune::FieldMatrix<double,1,dim>>; using VH = std::vector<Dune::FieldMatrix<double,dim,dim>>;
constexpr long CFG(long v) { return makeId(0, v); }
inline X pt(int k = 0) { X x; for (int i = 0; i < dim; ++i) x[i] = symd(k + i)
#ifdef VERIF_CONST
/64
#endif
; return x; }
template<class F> void withNode(long v, F f) { typename Pre::GridView gv; gv.cfg = CFG(v); Pre pre(gv); auto n = pre.makeNode(); Element<dim> e{topo_, gv.cfg}; n.bind(e); f(n, e); }
inline bool near(double a, double b) { double d = a - b; return d < 1e-10 && d > -1e-10; }
#define O(n) extern "C" void o_##n()
#ifdef PARTIAL
// partial derivatives are the entries of values, Jacobians and Hessians, at every point
O(partial) { withNode(0b011'010'001'000, [](auto& n, auto& e) { auto&& b = n.finiteElement().localBasis(); auto x = pt(); V1 v, p; VJ j; VH h; b.evaluateFunction(x, v); b.evaluateJacobian(x, j); b.evaluateHessian(x, h); CHECKM("one entry per function", v.size() == NF && j.size() == NF && h.size() == NF);
  std::array<unsigned,dim> o{}; b.partial(o, x, p); CHECKM("one entry per function", p.size() == NF); for (int i = 0; i < NF; ++i) CHECKM("partial derivatives of order zero are the values", same(p[i][0], v[i][0]));
  for (int k = 0; k < dim; ++k) { o = {}; o[k] = 1; p.clear(); b.partial(o, x, p); CHECKM("one entry per function", p.size() == NF); for (int i = 0; i < NF; ++i) CHECKM("partial derivatives of order one are the entries of the Jacobian", same(p[i][0], j[i][0][k])); }
  for (int k = 0; k < dim; ++k) for (int l = 0; l <= k; ++l) { o = {}; ++o[k]; ++o[l]; b.partial(o, x, p); for (int i = 0; i < NF; ++i) CHECKM("partial derivatives of order two are the entries of the Hessian", same(p[i][0], h[i][k][l]) && same(h[i][k][l], h[i][l][k])); }
  REACHED(1); }); }
#endif
#ifdef DUAL
// shape functions and their derivatives at the nodes, evaluated once
constexpr int NV = dim+1, NC = ELEMENT == 3 ? 1 : ELEMENT == 5 ? 4 : ELEMENT < 2 ? 3 : 0;
inline X node(int k) { X x(0.0); if (k < NV) { if (k) x[k-1] = 1; return x; } k -= NV; refel::RefElement<dim> r{topo_}; return ELEMENT == 3 ? r.position(0, 0) : ELEMENT == 5 ? r.position(k, 1) : r.position(k, 1); }
struct Table { double v[NV+NC][NF], j[NV+NC][NF][dim], h[NV][NF][dim][dim]; };
template<class LB> void fill(const LB& b, Table& t) { for (int k = 0; k < NV+NC; ++k) { auto x = node(k);
    if (k < NV || ELEMENT == 3 || ELEMENT == 5) { V1 v; b.evaluateFunction(x, v); CHECKM("one value per function", v.size() == NF); for (int i = 0; i < NF; ++i) t.v[k][i] = v[i][0]; }
    if (k < NV || ELEMENT < 2) { VJ v; b.evaluateJacobian(x, v); CHECKM("one Jacobian per function", v.size() == NF); for (int i = 0; i < NF; ++i) for (int d = 0; d < dim; ++d) t.j[k][i][d] = v[i][0][d]; }
    if (k < NV && ELEMENT == 1) { VH v; b.evaluateHessian(x, v); CHECKM("one Hessian per function", v.size() == NF); for (int i = 0; i < NF; ++i) for (int d = 0; d < dim; ++d) for (int e = 0; e < dim; ++e) t.h[k][i][d][e] = v[i][d][e]; } } }
inline bool at(const X& x, int k) { auto y = node(k); for (int i = 0; i < dim; ++i) if (x[i] - y[i] > 1e-12 || y[i] - x[i] > 1e-12) return false; return true; }
template<int K, class LB> struct Fun { const LB* b; const Table* t; int j; Geo<dim> g;
  auto operator()(const X& x) const { if constexpr (K == 0) { for (int k = 0; k < NV+NC; ++k) if ((k < NV || ELEMENT == 3 || ELEMENT == 5) && at(x, k)) return t->v[k][j]; V1 v; b->evaluateFunction(x, v); return v[j][0]; }
    else if constexpr (K == 1) { for (int k = 0; k < NV+NC; ++k) if ((k < NV || ELEMENT < 2) && at(x, k)) { Dune::FieldMatrix<double,1,dim> m; for (int d = 0; d < dim; ++d) m[0][d] = t->j[k][j][d]; return m*g.jacobianInverse(x); } VJ v; b->evaluateJacobian(x, v); return v[j]*g.jacobianInverse(x); }
    else { for (int k = 0; k < NV; ++k) if (ELEMENT == 1 && at(x, k)) { Dune::FieldMatrix<double,dim,dim> m; for (int d = 0; d < dim; ++d) for (int e = 0; e < dim; ++e) m[d][e] = t->h[k][j][d][e]; return g.jacobianInverseTransposed(x)*(m*g.jacobianInverse(x)); } VH v; b->evaluateHessian(x, v); return g.jacobianInverseTransposed(x)*(v[j]*g.jacobianInverse(x)); } }
  friend Fun<K+1,LB> derivative(const Fun& f) requires (K < 2) { return {f.b, f.t, f.j, f.g}; } };
inline void dual(long v) { withNode(v, [=](auto& n, auto& e) { auto&& fe = n.finiteElement(); auto&& b = fe.localBasis(); Table t; fill(b, t); for (int j = ELEMENT == 1 ? 3*DUAL : 0; j < (ELEMENT == 1 ? 3*DUAL+3 : NF); ++j) { Fun<0,std::remove_cvref_t<decltype(b)>> f{&b, &t, j, e.geometry()}; std::vector<double> c; fe.localInterpolation().interpolate(f, c); CHECKM("one functional per function", c.size() == NF);
  for (int i = 0; i < NF; ++i) CHECKM("the functionals of the interpolation are dual to the shape functions", near(c[i], i == j)); } REACHED(1); }); }
O(dual) { dual(0b011'010'001'000); }
#endif

#ifdef FUNCTIONALS
// the functionals, applied to an uninterpreted function, are quantities of the global function and of the sub-entity only
#ifdef VERIF_CONST
inline double ft(int tag, const X& x) { double r = tag; for (int i = 0; i < dim; ++i) r = 1.25*r + (i+1)*x[i]; return 3 + r*r/16; }
#else
inline double ft(int tag, const X& x) { double r = x[0]; for (int i = 1; i < dim; ++i) r = 16*r + x[i]; return feval(tag, 0, r); }
#endif
template<int K> struct Any { auto operator()(const X& x) const { if constexpr (K == 0) return ft(1, x); else if constexpr (K == 1) { Dune::FieldMatrix<double,1,dim> m; for (int d = 0; d < dim; ++d) m[0][d] = ft(10 + d, x); return m; } else { Dune::FieldMatrix<double,dim,dim> m; for (int d = 0; d < dim; ++d) for (int e = 0; e < dim; ++e) m[d][e] = ft(20 + (d < e ? 4*d + e : 4*e + d), x); return m; } }
  friend Any<K+1> derivative(const Any&) requires (K < 2) { return {}; } };
// the same function with gradients as vectors
template<int K> struct AnyV : Any<K> { friend AnyV<K+1> derivative(const AnyV&) requires (K < 2) { return {}; } };
template<> struct AnyV<1> { X operator()(const X& x) const { X m; for (int d = 0; d < dim; ++d) m[d] = ft(10 + d, x); return m; } friend AnyV<2> derivative(const AnyV&) { return {}; } };
inline bool eq(double a, double b) {
#ifdef VERIF_CONST
  return same(a, b);
#else
  double d = a - b; return d == 0;
#endif
}
template<class A> bool sameOrder(const A& a, const A& b) { for (int i = 0; i < dim; ++i) if (a[i] != b[i]) return false; return true; }
inline void functionals(long v) { withNode(v, [=](auto& n, auto& e) { auto&& fe = n.finiteElement(); Any<0> f; std::vector<double> c; const auto& li = fe.localInterpolation(); const auto& lc = fe.localCoefficients(); li.interpolate(f, c); std::vector<double> cv; li.interpolate(AnyV<0>{}, cv); CHECKM("gradients may be vectors or one-row matrices", cv.size() == c.size()); for (int i = 0; i < NF; ++i) CHECKM("gradients may be vectors or one-row matrices", same(c[i], cv[i])); CHECKM("one functional per function", c.size() == NF && lc.size() == NF && fe.size() == NF);
  refel::RefElement<dim> r{topo_}; Geo<dim> g = e.geometry(); constexpr auto V = "values of the function at vertices", D = "derivatives are those of the function in global coordinates, scaled with the mesh size at the vertex", N = "normal derivatives at edge midpoints refer to the edge's global orientation", C = "values of the function at centers", DESC = "descriptors say which derivative a functional evaluates";
  for (int i = 0; i < NF; ++i) { auto k = lc.localKey(i); int s = k.subEntity(); auto&& d = li.functionalDescriptor(i); bool pd = d.isPartialDerivative(), nd = d.isNormalDerivative(); std::array<unsigned,dim> o{};
    if (int(k.codim()) == dim && ELEMENT != 0) { X x = r.position(s, dim); int i0 = i - int(k.index());   // the functions of a vertex are consecutive
      if (k.index() == 0) { CHECKM(V, eq(c[i], f(x))); CHECKM(DESC, !pd && !nd && sameOrder(d.partialDerivativeOrder(), o)); }
      else if (int(k.index()) <= dim) { int a = k.index() - 1; o[a] = 1; CHECKM(D, eq(c[i]*ft(10, x), c[i0+1]*ft(10 + a, x))); CHECKM(DESC, pd && !nd && sameOrder(d.partialDerivativeOrder(), o)); }
      else { int q = int(k.index()) - dim - 1, a = q == 2, b = q > 0; ++o[a]; ++o[b]; CHECKM(D, eq(c[i]*ft(10, x)*ft(10, x), c[i0+1]*c[i0+1]*ft(20 + 4*a + b, x))); CHECKM(DESC, pd && !nd && sameOrder(d.partialDerivativeOrder(), o)); } }
    else if (int(k.codim()) == dim) { CHECKM(V, eq(c[i], f(r.position(s, dim)))); CHECKM(DESC, !pd && !nd && sameOrder(d.partialDerivativeOrder(), o)); }
    else if (ELEMENT < 2) { int a = r.subEntity(s, 1, 0, dim), b = r.subEntity(s, 1, 1, dim); if (mock3::vertexId(e.id, a) > mock3::vertexId(e.id, b)) std::swap(a, b); X m = r.position(s, 1), t = g.global(r.position(b, dim)) - g.global(r.position(a, dim));
      CHECKM(N, eq(c[i]*t.two_norm(), -t[1]*ft(10, m) + t[0]*ft(11, m))); CHECKM(DESC, !pd && nd && d.normalDerivativeOrder() == 1); }
    else { CHECKM(C, eq(c[i], f(r.position(s, k.codim())))); CHECKM(DESC, !pd && !nd); } }
  REACHED(1); }); }
O(functionals_0) { functionals(0b011'010'001'000); }
O(functionals_1) { functionals(0b011'000'010'001); }
#if ELEMENT < 2
O(functionals_2) { functionals(0b011'001'000'010); }
O(functionals_3) { functionals(0b011'010'000'001); }
O(functionals_4) { functionals(0b011'001'010'000); }
O(functionals_5) { functionals(0b011'000'001'010); }
#endif
#endif
#ifdef STENCIL
// Jacobians are the derivatives of the values and Hessians those of the Jacobians, at every point: central difference formulas which are exact for polynomials of this degree
constexpr int W[] = {45, -9, 1};
O(stencil) { withNode(0b011'010'001'000, [](auto& n, auto& e) { auto&& b = n.finiteElement().localBasis(); auto x = pt(); VJ j; VH h; b.evaluateJacobian(x, j); b.evaluateHessian(x, h); CHECKM("the degree is at most five", b.order() <= 5); CHECKM("one entry per function", j.size() == NF && h.size() == NF);
  for (int d = 0; d < dim; ++d) { double s[NF] = {}, t[NF][dim] = {};
    for (int k = 1; k <= 3; ++k) for (int sg = -1; sg <= 1; sg += 2) { auto y = x; y[d] += sg*k; V1 v; VJ w; b.evaluateFunction(y, v); b.evaluateJacobian(y, w); CHECKM("one entry per function", v.size() == NF && w.size() == NF); for (int i = 0; i < NF; ++i) { s[i] += sg*W[k-1]*v[i][0]; for (int c = 0; c < dim; ++c) t[i][c] += sg*W[k-1]*w[i][0][c]; } }
    for (int i = 0; i < NF; ++i) { CHECKM("Jacobians are the derivatives of the values", same(s[i], 60*j[i][0][d])); for (int c = 0; c < dim; ++c) CHECKM("Hessians are the derivatives of the Jacobians", same(t[i][c], 60*h[i][c][d])); } }
  REACHED(1); }); }
#endif

#ifdef CONSTSIZES
// element 1 with vertices 0,1,2(,3), element 0 with vertices 0,3,4(,5), element 2 with vertices 1,5,6(,7)
O(meshsize) { typename Pre::GridView gv; gv.cfg = CFG(0b011'010'001'000); Dune::MultipleCodimMultipleGeomTypeMapper<typename Pre::GridView> m(gv, Dune::mcmgVertexLayout()); auto h = Impl::computeAverageSubEntityMeshSize<double>(m);
  CHECKM("one mesh size per vertex", h.size() == m.size()); constexpr auto M = "the mesh size of a vertex is the root of the average volume of the elements around it"; constexpr int D = dim;
  const int n[][8] = {{3,6,2,1,1,4,4,-1}, {3,6,2,1,1,4,4,-1}, {3,6,2,3,1,5,4,4}};   // adjacent elements (bits) of each vertex
  if constexpr (D > 1) for (int v = 0; v < 8; ++v) { int b = n[D-1][v]; if (b < 0) continue; double s = 0; int k = 0; for (int e = 0; e < 3; ++e) if (b >> e & 1) { s += AFFVOL(e); ++k; } CHECKM(M, same(h[v], std::pow(s/k, 1./D))); }
  REACHED(1); }
#endif
