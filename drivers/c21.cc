// C21: every function the B-spline basis hands out on an element is the B-spline with the global number of its index,
// restricted to the element: values, derivatives, second derivatives, supports and numbering.
#include "m2.hh"
#include <cmath>
#include <vector>
#include <algorithm>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
using namespace Dune::Functions;
#define O(n) extern "C" void o_##n()
// a structured grid: element id is its index
template<int dim> struct GV {
  static constexpr int dimension = dim, dimensionworld = dim; using ctype = double;
  struct Element { int id = -1; bool operator==(const Element& o) const { return id == o.id; } };
  struct IndexSet { using IndexType = std::size_t; std::size_t index(const Element& e) const { return e.id; } template<int cd> std::size_t index(const Element& e) const { return e.id; } };
  template<int cd> struct Codim { using Entity = Element; };
  using Grid = GV;
  int n = 0; IndexSet is;
  const IndexSet& indexSet() const { return is; } std::size_t size(int codim) const { return n; } std::size_t size(Dune::GeometryType) const { return n; }
};
constexpr int ND = 5;
constexpr double kn[ND] = {0, 1, 2.5, 3, 5};
struct Poly { double c[6] = {}; };
// the full knot vector
struct Knots { double t[16] = {}; int n = 0; };
static constexpr Knots knots(const double* k, int n, int p, bool open) { Knots r; if (open) for (int i = 0; i < p; ++i) r.t[r.n++] = k[0]; for (int i = 0; i < n; ++i) r.t[r.n++] = k[i]; if (open) for (int i = 0; i < p; ++i) r.t[r.n++] = k[n-1]; return r; }
// B-spline j of order p on the span [t_mu, t_mu+1] as a polynomial in x - t_mu, by its definition
static constexpr Poly spline(const Knots& K, int j, int p, int mu) {
  Poly r; if (p == 0) { r.c[0] = j == mu; return r; }
  double o = K.t[mu], a = K.t[j+p] - K.t[j], b = K.t[j+p+1] - K.t[j+1];
  if (a > 0) { Poly q = spline(K, j, p-1, mu); for (int i = 0; i < 5; ++i) { r.c[i] += q.c[i]*(o - K.t[j])/a; r.c[i+1] += q.c[i]/a; } }
  if (b > 0) { Poly q = spline(K, j+1, p-1, mu); for (int i = 0; i < 5; ++i) { r.c[i] += q.c[i]*(K.t[j+p+1] - o)/b; r.c[i+1] -= q.c[i]/b; } }
  return r;
}
static constexpr Poly diff(const Poly& q) { Poly r; for (int i = 1; i < 6; ++i) r.c[i-1] = i*q.c[i]; return r; }
struct Ref { Poly q[3][6][3]; double h[3] = {}; };   // direction, local number, derivative with respect to the coordinate
static inline double ev(const Poly& q, double x) { int n = 5; while (n > 0 && q.c[n] == 0) --n; double r = q.c[n]; for (int i = n - 1; i >= 0; --i) r = r*x + q.c[i]; return r; }
static constexpr double ab(double x) { return x < 0 ? -x : x; }
constexpr double lo[3] = {-1, 0.5, 2}, up[3] = {2, 4.5, 3}; constexpr unsigned el[3] = {3, 4, 2};
// UNI: uniform knot vectors given by the bounding box, with a different number of elements per direction
template<int dim, int p, bool open, bool uni> struct Case {
  static constexpr int n(int d) { return uni ? el[d] : ND - 1; }
  static constexpr Knots K(int d) { if constexpr (uni) { double k[8] = {}; for (int i = 0; i <= n(d); ++i) k[i] = lo[d] + i*(up[d] - lo[d])/n(d); return knots(k, n(d) + 1, p, open); } else return knots(kn, ND, p, open); }
  static auto make() {
    GV<dim> gv; gv.n = 1; for (int d = 0; d < dim; ++d) gv.n *= n(d);
    if constexpr (uni) { Dune::FieldVector<double,dim> l, u; std::array<unsigned,dim> e; for (int d = 0; d < dim; ++d) { l[d] = lo[d]; u[d] = up[d]; e[d] = el[d]; } return DefaultGlobalBasis<BSplinePreBasis<GV<dim>>>(gv, l, u, e, (unsigned)p, open); }
    else return DefaultGlobalBasis<BSplinePreBasis<GV<dim>>>(gv, std::vector<double>(kn, kn + ND), (unsigned)p, open);
  }
  // e: the elements to bind, one after the other; obligations for the last one
  template<int... e> static void run() {
    auto b = make(); constexpr int N[3] = {K(0).n - p - 1, dim > 1 ? K(dim > 1).n - p - 1 : 1, dim > 2 ? K(dim > 2 ? 2 : 0).n - p - 1 : 1};
    CHECKM("dimension() and size() count all B-splines", b.dimension() == N[0]*N[1]*N[2] && b.size() == N[0]*N[1]*N[2]);
    auto lv = b.localView(); (lv.bind(typename GV<dim>::Element{e}), ...); constexpr int ee[] = {e...}; constexpr int id = ee[sizeof...(e) - 1];
    CHECKM("the view is bound to the element", lv.element().id == id && lv.tree().element().id == id);
    int mu[3] = {}, first[3] = {}, cnt[3] = {1,1,1}, r = id, total = 1;
    for (int d = 0; d < dim; ++d) { int ix = r % n(d); r /= n(d); mu[d] = ix + (open ? p : 0); first[d] = mu[d] > p ? mu[d] - p : 0; int last = mu[d] < N[d] ? mu[d] : N[d] - 1; cnt[d] = last - first[d] + 1; total *= cnt[d]; }
    constexpr Ref R = [] { Ref R; const Knots k[3] = {K(0), K(dim > 1), K(dim > 2 ? 2 : 0)}; int r = id; for (int d = 0; d < dim; ++d) { int m = r % n(d) + (open ? p : 0); r /= n(d); R.h[d] = k[d].t[m+1] - k[d].t[m]; int f = m > p ? m - p : 0; for (int l = 0; l <= p; ++l) if (f + l < N[d]) { R.q[d][l][0] = spline(k[d], f + l, p, m); R.q[d][l][1] = diff(R.q[d][l][0]); R.q[d][l][2] = diff(R.q[d][l][1]); } } return R; }();
    auto& fe = lv.tree().finiteElement();
    CHECKM("all B-splines whose support meets the element are handed out", lv.size() == total && fe.size() == total && fe.localBasis().size() == total && fe.localCoefficients().size() == total && lv.maxSize() >= total);
    CHECKM("the order is that of the B-splines", fe.localBasis().order() == p);
    // keys: the functions attached to a face of the element (and its corners) are those at this end of the lattice; order >= 1
    if constexpr (p >= 1 && dim <= 2) { bool two = true; for (int d = 0; d < dim; ++d) two &= cnt[d] > 1;
      if (two) for (int i = 0; i < total; ++i) {
        auto k = fe.localCoefficients().localKey(i); int r = i, c = 0, s = 0, ix = 0, m = 1; bool at[3][2] = {};
        for (int d = 0; d < dim; ++d) { int l = r % cnt[d]; r /= cnt[d]; at[d][0] = l == 0; at[d][1] = l == cnt[d] - 1; if (at[d][0] || at[d][1]) ++c; else { ix += m*(l - 1); m *= cnt[d] - 2; } }
        if (c == dim) for (int d = 0; d < dim; ++d) s += at[d][1] << d; else if (c == 1) s = at[0][0] ? 0 : at[0][1] ? 1 : at[1][0] ? 2 : 3;
        CHECKM("each function is attached to the vertex, edge or interior it belongs to, with consecutive indices", int(k.codim()) == c && int(k.subEntity()) == s && int(k.index()) == ix);
      } }
#ifdef NOEVAL
    for (int i = 0; i < total; ++i) { int g[3], r = i; for (int d = 0; d < 3; ++d) { g[d] = first[d] + r % cnt[d]; r /= cnt[d]; } CHECKM("function i has the index of the i-th B-spline of the element", lv.index(i).size() == 1 && lv.index(i)[0] == (g[2]*N[1] + g[1])*N[0] + g[0]); }
    REACHED(1); return;
#else
    Dune::FieldVector<double,dim> x; for (int d = 0; d < dim; ++d) x[d] = symd(d);
    std::vector<Dune::FieldVector<double,1>> v; 
#ifndef ONLYDERIVATIVES
    std::vector<Dune::FieldMatrix<double,1,dim>> J;
    fe.localBasis().evaluateFunction(x, v); fe.localBasis().evaluateJacobian(x, J);
    CHECK(v.size() == total && J.size() == total);
    int i = 0;
    for (int c = 0; c < cnt[2]; ++c) for (int bb = 0; bb < cnt[1]; ++bb) for (int a = 0; a < cnt[0]; ++a, ++i) {
      int l[3] = {a, bb, c}, g[3]; double val = 1, der[3] = {1,1,1};
      for (int d = 0; d < 3; ++d) g[d] = first[d] + l[d];
      CHECKM("function i has the index of the i-th B-spline of the element", lv.index(i).size() == 1 && lv.index(i)[0] == (g[2]*N[1] + g[1])*N[0] + g[0]);
      for (int d = 0; d < dim; ++d) { auto& q = R.q[d][l[d]]; double h = R.h[d], X = x[d]*h; val *= ev(q[0], X); for (int f = 0; f < dim; ++f) der[f] *= d == f ? h*ev(q[1], X) : ev(q[0], X); }
      CHECKM("function i is the B-spline of its index on the element", same(v[i][0], val));
      for (int f = 0; f < dim; ++f) CHECKM("the Jacobian is that of the B-spline in local coordinates", same(J[i][0][f], der[f]));
    }
#endif
#ifdef SECOND
    for (int s = 0; s < dim; ++s) {
#ifdef ONLYDERIVATIVES
      if (s != ONLYDERIVATIVES) continue;
#endif
      fe.localBasis().template evaluate<1>(std::array<int,1>{s}, x, v); CHECK(v.size() == total);
      for (int i = 0; i < total; ++i) { double der = 1; int r = i; for (int d = 0; d < dim; ++d) { int l = r % cnt[d]; r /= cnt[d]; auto& q = R.q[d][l]; double h = R.h[d], X = x[d]*h; der *= d == s ? h*ev(q[1], X) : ev(q[0], X); } CHECKM("first derivatives are those of the B-spline in local coordinates", same(v[i][0], der)); }
      for (int t = 0; t < dim; ++t) {
        fe.localBasis().template evaluate<2>(std::array<int,2>{s, t}, x, v); CHECK(v.size() == total);
        for (int i = 0; i < total; ++i) { double der = 1; int r = i; for (int d = 0; d < dim; ++d) { int l = r % cnt[d]; r /= cnt[d]; double h = R.h[d], X = x[d]*h; if (d == s) der *= h; if (d == t) der *= h; der *= ev(R.q[d][l][(d == s) + (d == t)], X); } CHECKM("second derivatives are those of the B-spline in local coordinates", same(v[i][0], der)); }
      }
    }
#endif
    REACHED(1);
#endif
  }
};
#define ALL1(n, ...) O(n##0) { __VA_ARGS__::template run<0>(); } O(n##1) { __VA_ARGS__::template run<3,1>(); } O(n##2) { __VA_ARGS__::template run<2>(); } O(n##3) { __VA_ARGS__::template run<0,3>(); }
#define P PORDER
#if PART==0
ALL1(open1d, Case<1,P,true,false>)
ALL1(closed1d, Case<1,P,false,false>)
O(unia) { Case<1,P,true,true>::run<0>(); } O(unib) { Case<1,P,false,true>::run<1>(); } O(unic) { Case<1,P,true,true>::run<2>(); }
// the factory is independent of the knot vector it was given
O(factory) { std::vector<double> k(kn, kn + ND); auto f = BasisFactory::bSpline(k, PORDER); k[1] = 0.5; k[2] = 0.75; k[3] = 4; GV<1> gv; gv.n = ND - 1;
  auto b = makeBasis(gv, f); auto lv = b.localView(); lv.bind(GV<1>::Element{1}); std::vector<Dune::FieldVector<double,1>> v; double x = symd(0); lv.tree().finiteElement().localBasis().evaluateFunction(x, v);
  constexpr auto K = knots(kn, ND, PORDER, true); CHECKM("the factory uses the knots it was given", b.dimension() == K.n - PORDER - 1 && v.size() == PORDER + 1);
  constexpr Ref R = [] { Ref R; constexpr auto K = knots(kn, ND, PORDER, true); for (int l = 0; l <= PORDER; ++l) R.q[0][l][0] = spline(K, 1 + l, PORDER, 1 + PORDER); return R; }();
  for (int l = 0; l <= PORDER; ++l) CHECKM("the factory uses the knots it was given", same(v[l][0], ev(R.q[0][l][0], x*1.5))); REACHED(1); }
O(factoryclosed) { GV<1> gv; gv.n = ND - 1; auto b = makeBasis(gv, BasisFactory::bSpline(std::vector<double>(kn, kn + ND), PORDER, false)); CHECKM("without open ends there are as many B-splines as knots allow", b.dimension() == ND - PORDER - 1); auto c = makeBasis(gv, BasisFactory::bSpline(std::vector<double>(kn, kn + ND), PORDER)); CHECKM("open knot vectors are the default", c.dimension() == ND + PORDER - 1); REACHED(1); }
#elif PART==1
O(open2da) { Case<2,P,true,false>::run<0>(); } O(open2db) { Case<2,P,true,false>::run<0,6>(); } O(open2dc) { Case<2,P,true,false>::run<15>(); } O(open2dd) { Case<2,P,true,false>::run<3>(); }
#elif PART==2
O(uni2da) { Case<2,P,true,true>::run<0>(); } O(uni2db) { Case<2,P,true,true>::run<7>(); } O(uni2dc) { Case<2,P,true,true>::run<3,11>(); } O(closed2d) { Case<2,P,false,true>::run<5>(); }
#elif PART==4
O(deriv2d) { Case<2,P,true,false>::run<0,6>(); }
#elif PART==3
O(open3d) { Case<3,P,true,true>::run<17>(); }
#endif
