// C13: analytic functions: values and derivatives of polynomials, monomial sets and trigonometric functions
#include "m2.hh"
#include <complex>
#include <cmath>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/monomialset.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
using namespace Dune::Functions;
#define O(n) extern "C" void o_##n()
constexpr auto VAL = "the value is the sum of coefficient times monomial";
constexpr auto DVAL = "the derivative is the sum of exponent times coefficient times monomial";
// K: number type; integers are exact
template<class K> K num(int k) { return K(sym(k)); }
// Horner evaluation of the d-th derivative
template<class K, class A> K horner(const A& c, int n, int d, K x) {
  if (n - d <= 0) return K(0);
  auto f = [&](int i) { K w = c[i]; for (int j = 0; j < d; ++j) w = w * K(i - j); return w; };
  K y = f(n-1); for (int i = n - 2; i >= d; --i) { y *= x; y += f(i); }
  return y;
}
template<class P, class K, class A> void poly(const P& p, const A& c, int n) {
  const K x = num<K>(7);
  CHECKM(VAL, p(x) == horner<K>(c, n, 0, x));
  auto dp = derivative(p); CHECKM(DVAL, dp(x) == horner<K>(c, n, 1, x));
  auto ddp = derivative(dp); CHECKM(DVAL, ddp(x) == horner<K>(c, n, 2, x));
  auto d3 = derivative(ddp); CHECKM(DVAL, d3(x) == horner<K>(c, n, 3, x));
  auto q = p; CHECKM("copies are the same function", q(x) == horner<K>(c, n, 0, x));
}
template<class K, int n> void vec() { std::vector<K> v(n); K c[n+1]; for (int i = 0; i < n; ++i) c[i] = v[i] = num<K>(i); poly<Polynomial<K>,K>(Polynomial<K>(v), c, n); REACHED(1); }
template<class K, int n> void arr() { std::array<K,n> v; K c[n+1]; for (int i = 0; i < n; ++i) c[i] = v[i] = num<K>(i); poly<Polynomial<K,std::array<K,n>>,K>(Polynomial<K,std::array<K,n>>(v), c, n); REACHED(2); }
template<class K, int... i> void seq() { const int c[sizeof...(i)+1] = {i..., 0}; poly<Polynomial<K,std::integer_sequence<int,i...>>,K>(Polynomial<K,std::integer_sequence<int,i...>>(std::integer_sequence<int,i...>()), c, sizeof...(i)); REACHED(3); }
#if PART==0
O(v0) { vec<long,0>(); } O(v1) { vec<long,1>(); } O(v2) { vec<long,2>(); } O(v3) { vec<long,3>(); } O(v4) { vec<long,4>(); } O(v5) { vec<long,5>(); }
O(a0) { arr<long,0>(); } O(a1) { arr<long,1>(); } O(a2) { arr<long,2>(); } O(a3) { arr<long,3>(); } O(a4) { arr<long,4>(); } O(a5) { arr<long,5>(); }
O(s0) { seq<long>(); } O(s1) { seq<long,5>(); } O(s2) { seq<long,0,3>(); } O(s3) { seq<long,-1,0,7>(); } O(s4) { seq<long,0,2,0,-4>(); } O(s5) { seq<long,1,0,0,0,3>(); } O(s6) { seq<long,1,0,0,0,0>(); }
O(t) { std::tuple c(std::integral_constant<int,2>(), num<long>(1), std::integral_constant<int,0>(), num<long>(3), std::integral_constant<int,-1>()); long e[5] = {2, num<long>(1), 0, num<long>(3), -1}; poly<Polynomial<long,decltype(c)>,long>(Polynomial<long,decltype(c)>(c), e, 5); REACHED(4); }
O(t0) { std::tuple<> c; long e[1] = {0}; poly<Polynomial<long,std::tuple<>>,long>(Polynomial<long,std::tuple<>>(c), e, 0); REACHED(4); }
O(ctad) { Polynomial p({num<long>(0), num<long>(1)}); static_assert((std::is_same_v<decltype(p),Polynomial<long,std::vector<long>>>), "PROPERTY: deduced from an initializer list"); long c[2] = {num<long>(0), num<long>(1)}; poly<decltype(p),long>(p, c, 2); REACHED(5); }
O(make) { auto p = makePolynomial<long>(std::array<int,3>{(int)sym(0), (int)sym(1), (int)sym(2)}); long x = num<long>(7); CHECKM(VAL, p(x) == ((long)(int)sym(2)*x + (int)sym(1))*x + (int)sym(0)); REACHED(6); }
O(makeil) { auto p = makePolynomial<long>({(int)sym(0), (int)sym(1), (int)sym(2)}); static_assert((std::is_same_v<decltype(p),Polynomial<long,std::vector<int>>>), "PROPERTY: the coefficients are stored with their type"); long x = num<long>(7); CHECKM(VAL, p(x) == ((long)(int)sym(2)*x + (int)sym(1))*x + (int)sym(0)); REACHED(6); }
O(makeil2) { auto p = makePolynomial<long>({num<long>(0), num<long>(1)}); long x = num<long>(7); CHECKM(VAL, p(x) == num<long>(1)*x + num<long>(0)); REACHED(6); }
// the derivative does not change when the function is assigned
O(indep) { Polynomial<long> p(std::vector<long>{num<long>(0), num<long>(1), num<long>(2)}); auto dp = derivative(p); p = Polynomial<long>(std::vector<long>{num<long>(3)}); long x = num<long>(7); CHECKM("the derivative is independent of its function", dp(x) == num<long>(2)*2*x + num<long>(1)); CHECKM("assignment replaces the function", p(x) == num<long>(3)); REACHED(7); }
O(coef) { const std::array<long,3> c{num<long>(0), num<long>(1), num<long>(2)}; Polynomial<long,std::array<long,3>> p(c); CHECKM("coefficients() are the coefficients", p.coefficients()[0] == c[0] && p.coefficients()[1] == c[1] && p.coefficients()[2] == c[2]); auto d = derivative(p); CHECK(d.coefficients().size() == 2 && d.coefficients()[0] == c[1] && d.coefficients()[1] == 2*c[2]); REACHED(8); }
#elif PART==1
inline double pw(double x, int e) { double y = 1; for (int i = 0; i < e; ++i) y *= x; return y; }
constexpr auto MV = "each component is its monomial"; constexpr auto MD = "the Jacobian has the partial derivatives of the monomials"; constexpr auto MH = "the Hessian has the second partial derivatives of the monomials";
inline bool eq(double a, double b) { return a == b || same(a, b); }
template<int dim, int N> void mono() {
  using M = MonomialSet<double,dim,N>; M m; Dune::FieldVector<double,dim> x; for (int i = 0; i < dim; ++i) x[i] = symd(i);
  constexpr auto e = M::exponents();
  // exponents() enumerates all multi-indices up to the degree exactly once, degree by degree
  int cnt = 1; for (int i = 1; i <= dim; ++i) cnt = cnt * (N + i) / i;
  CHECKM("the number of monomials", M::size == cnt && int(e.size()) == cnt);
  for (int k = 0; k < cnt; ++k) { int d = 0; for (int i = 0; i < dim; ++i) d += e[k][i]; CHECKM("degrees are bounded", d <= N); if (k) { int d0 = 0; for (int i = 0; i < dim; ++i) d0 += e[k-1][i]; CHECKM("monomials are ordered by degree", d0 <= d); } for (int l = 0; l < k; ++l) { int df = 0; for (int i = 0; i < dim; ++i) df += e[k][i] != e[l][i]; CHECKM("monomials are distinct", df > 0); } }
  auto y = m(x); auto D = derivative(m); auto J = D(x); auto H = derivative(D)(x);
  CHECK(int(y.size()) == cnt && int(J.N()) == cnt && int(J.M()) == dim && int(H.size()) == cnt);
  for (int k = 0; k < cnt; ++k) {
    auto part = [&](int a, int b) { double w = 1; for (int i = 0; i < dim; ++i) if (int(e[k][i]) < (a == i) + (b == i)) return 0.0; int cf = 1; for (int i = 0; i < dim; ++i) { int d = (a == i) + (b == i); for (int j = 0; j < d; ++j) cf *= e[k][i] - j; } w = cf; for (int i = 0; i < dim; ++i) w *= pw(x[i], e[k][i] - (a == i) - (b == i)); return w; };
    CHECKM(MV, eq(y[k], part(-1,-1)));
    for (int a = 0; a < dim; ++a) { CHECKM(MD, eq(J[k][a], part(a,-1))); for (int b = 0; b < dim; ++b) CHECKM(MH, eq(H[k][a][b], part(a,b))); }
  }
  REACHED(1);
}
#define MO(d) O(m##d##0) { mono<d,0>(); } O(m##d##1) { mono<d,1>(); } O(m##d##2) { mono<d,2>(); } O(m##d##3) { mono<d,3>(); }
MO(1) MO(2) MO(3) O(m14) { mono<1,4>(); } O(m15) { mono<1,5>(); } O(m24) { mono<2,4>(); }
#else
template<int s, int c> void trig() {
  TrigonometricFunction<double,s,c> f; double x = symd(1); auto df = derivative(f); auto ddf = derivative(df);
  CHECKM("value", same(f(x), s*std::sin(x) + c*std::cos(x))); CHECKM("derivative", same(df(x), -c*std::sin(x) + s*std::cos(x))); CHECKM("second derivative", same(ddf(x), -s*std::sin(x) + (-c)*std::cos(x))); REACHED(1);
}
O(t10) { trig<1,0>(); } O(t01) { trig<0,1>(); } O(t11) { trig<1,1>(); } O(t23) { trig<2,-3>(); } O(t32) { trig<-3,2>(); }
#endif
