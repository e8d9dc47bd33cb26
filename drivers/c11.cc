// C11: multi-index access, resize and assignment of the vector backend
#include "m2.hh"
#include <dune/common/tuplevector.hh>
#include <dune/common/reservedvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/common/overflowarray.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/functionspacebases/flatvectorview.hh>
using namespace Dune::Functions; using namespace Dune::Indices;
#define O(n) extern "C" void o_##n()
template<int n> using MI = Dune::ReservedVector<std::size_t,n>;
template<int n> using SMI = StaticMultiIndex<std::size_t,n>;
using FV1 = Dune::FieldVector<double,1>; using FV2 = Dune::FieldVector<double,2>; using FV3 = Dune::FieldVector<double,3>;
inline std::size_t u(int k, std::size_t n) { return (std::size_t)sym(k) % n; }
#define SAMEREF(msg, a, b) CHECKM(msg, (const void*)&(a) == (const void*)&(b))
constexpr auto ACC = "operator[] refers to the entry with these digits";
// entries of backends refer to the entry of the vector, also of constant vectors
template<class V, class M, class E> void acc(V& v, const M& m, const E& e) {
  auto b = istlVectorBackend(v); SAMEREF(ACC, b[m], e); const auto& cb = b; SAMEREF(ACC, cb[m], e);
  auto c = istlVectorBackend(std::as_const(v)); SAMEREF(ACC, c[m], e);
}
#if PART==0
O(vec) { std::vector<double> v(3); auto i = u(1,3); acc(v, MI<1>{i}, v[i]); acc(v, SMI<1>{i}, v[i]); REACHED(1); }
O(arr) { std::array<double,3> v; auto i = u(1,3); acc(v, MI<1>{i}, v[i]); REACHED(1); }
O(fv) { FV3 v; auto i = u(1,3); acc(v, MI<1>{i}, v[i]); REACHED(1); }
O(vecarr) { std::vector<std::array<double,2>> v(3); auto i = u(1,3), j = u(2,2); acc(v, MI<2>{i,j}, v[i][j]); acc(v, MI<3>{i,j}, v[i][j]); acc(v, SMI<2>{i,j}, v[i][j]); REACHED(1); }
O(arrvec) { std::array<std::vector<double>,2> v{std::vector<double>(2), std::vector<double>(3)}; auto j = u(2,2); acc(v, MI<2>{0,j}, v[0][j]); acc(v, MI<2>{1,j}, v[1][j]); REACHED(1); }
O(pad) { std::vector<FV1> v(3); auto i = u(1,3); acc(v, MI<1>{i}, v[i][0]); std::vector<std::array<FV1,2>> w(3); acc(w, MI<2>{i,1}, w[i][1][0]); acc(w, MI<1>{i}, w[i][0][0]); REACHED(1); }
O(bv) { Dune::BlockVector<double> v(3); auto i = u(1,3); acc(v, MI<1>{i}, v[i]); REACHED(1); }
O(bvf) { Dune::BlockVector<FV2> v(3); auto i = u(1,3), j = u(2,2); acc(v, MI<2>{i,j}, v[i][j]); REACHED(1); }
O(bvbv) { Dune::BlockVector<Dune::BlockVector<double>> v(2); v[0].resize(2); v[1].resize(3); auto j = u(2,2); acc(v, MI<2>{0,j}, v[0][j]); acc(v, MI<2>{1,j}, v[1][j]); REACHED(1); }
using MT = Dune::MultiTypeBlockVector<Dune::BlockVector<FV2>, Dune::BlockVector<FV1>>;
O(mt0) { MT v; v[_0].resize(3); v[_1].resize(2); auto i = u(1,3), j = u(2,2); acc(v, MI<3>{0,i,j}, v[_0][i][j]); REACHED(1); }
O(mt1) { MT v; v[_0].resize(3); v[_1].resize(2); auto i = u(1,2); acc(v, MI<3>{1,i}, v[_1][i][0]); acc(v, MI<3>{1,i,0}, v[_1][i][0]); REACHED(1); }
using TV = Dune::TupleVector<std::array<double,2>, Dune::TupleVector<std::array<FV1,3>, FV2, double>>;
O(tv) { TV v; auto i = u(1,2), j = u(2,3); acc(v, MI<3>{0,i}, v[_0][i]); acc(v, MI<3>{1,0,j}, v[_1][_0][j][0]); acc(v, MI<3>{1,1,i}, v[_1][_1][i]); acc(v, MI<3>{1,2}, v[_1][_2]); REACHED(1); }
// resolveStaticMultiIndex: prefix of static and dynamic digits
O(tp) { TV v; auto i = u(1,2); using Dune::TypeTree::treePath; SAMEREF("resolveStaticMultiIndex", resolveStaticMultiIndex(v, treePath()), v); SAMEREF("resolveStaticMultiIndex", resolveStaticMultiIndex(v, treePath(_1)), v[_1]); SAMEREF("resolveStaticMultiIndex", resolveStaticMultiIndex(v, treePath(_1,_1,i)), v[_1][_1][i]); SAMEREF("resolveStaticMultiIndex", resolveStaticMultiIndex(v, treePath(_0,i)), v[_0][i]); REACHED(1); }
O(fin) { std::array<std::array<FV2,2>,3> v; auto i = u(1,3), j = u(2,2); auto final = callableCheck([](auto&& c) -> std::void_t<decltype(c.two_norm())> {}); SAMEREF("resolveDynamicMultiIndex stops at final entries", resolveDynamicMultiIndex(v, MI<2>{i,j}, final), v[i][j]); REACHED(1); }
O(hyb) { Dune::TupleVector<std::array<double,2>, std::array<double,3>> v; auto i = u(1,2), j = u(2,3); SAMEREF("hybridMultiIndexAccess", (hybridMultiIndexAccess<double&>(v, SMI<2>{0,i})), v[_0][i]); SAMEREF("hybridMultiIndexAccess", (hybridMultiIndexAccess<double&>(v, SMI<2>{1,j})), v[_1][j]); REACHED(1); }
O(hia) { Dune::TupleVector<int,int,int> t{1,2,3}; int* r[3] = {&t[_0], &t[_1], &t[_2]}; for (std::size_t i = 0; i < 3; ++i) hybridIndexAccess(t, i, [&](auto& x) { CHECKM("hybridIndexAccess visits the entry", &x == r[i]); x = 7; }); CHECK(t[_0] == 7 && t[_1] == 7 && t[_2] == 7); REACHED(1); }
#elif PART==1
// sizes: root 3, children of i: S[i], children of (i,j): T
template<int D> struct SP { using SizePrefix = MI<4>; std::size_t n; std::size_t s[4]; std::size_t t = 0; std::size_t size(const SizePrefix& p) const { return p.size() == 0 ? n : p.size() == 1 ? (D > 1 ? s[p[0]] : 0) : p.size() == 2 ? (D > 2 ? t : 0) : 0; } };
template<class V, class S> void rs(V& v, const S& s) { auto b = istlVectorBackend(v); b.resize(s); }
constexpr auto RES = "after resize() the vector has the sizes of the size provider";
constexpr auto THR = "a vector that cannot be given the size is rejected with a RangeError";
template<class V, class S> bool throws(V& v, const S& s) { try { rs(v, s); } catch (const Dune::RangeError&) { return true; } return false; }
#if SUB==0
O(rvec) { std::vector<double> v; rs(v, SP<1>{3}); CHECKM(RES, v.size() == 3); rs(v, SP<1>{2}); CHECKM(RES, v.size() == 2); REACHED(1); }
O(rvv) { std::vector<std::vector<double>> v; rs(v, SP<2>{3,{2,0+1,3}}); CHECKM(RES, v.size() == 3 && v[0].size() == 2 && v[1].size() == 1 && v[2].size() == 3); REACHED(1); }
O(rva) { std::vector<std::array<double,2>> v; rs(v, SP<2>{3,{2,2,2}}); CHECKM(RES, v.size() == 3); REACHED(1); }
O(rbv) { Dune::BlockVector<FV2> v; rs(v, SP<2>{3,{2,2,2}}); CHECKM(RES, v.size() == 3); REACHED(1); }
O(tarr) { std::array<double,2> v; CHECKM(THR, throws(v, SP<1>{3})); CHECKM("a vector of the right size is accepted", !throws(v, SP<1>{2})); REACHED(1); }
O(tsc) { std::vector<double> v; CHECKM(THR, throws(v, SP<2>{2,{1,1}})); REACHED(1); }
O(tz) { std::vector<std::vector<double>> v; CHECKM("an empty entry for a scalar coefficient is rejected with a RangeError", throws(v, SP<1>{2})); REACHED(1); }
O(kz) { std::vector<std::vector<double>> v(2); v[0].resize(1); v[1].resize(2); CHECKM("entries for a scalar coefficient keep their size", !throws(v, SP<1>{2}) && v[0].size() == 1 && v[1].size() == 2); REACHED(1); }
O(pv) { std::vector<FV1> v; CHECKM("implicitly padded entries are accepted", !throws(v, SP<1>{3}) && v.size() == 3); REACHED(1); }
#endif
#if SUB==1
O(rav) { std::array<std::vector<double>,3> v; rs(v, SP<2>{3,{2,1,3}}); CHECKM(RES, v[0].size() == 2 && v[1].size() == 1 && v[2].size() == 3); REACHED(1); }
#endif
#if SUB==2
O(rmt) { Dune::MultiTypeBlockVector<Dune::BlockVector<FV1>, Dune::BlockVector<FV1>> v; rs(v, SP<3>{2,{2,3},1}); CHECKM(RES, v[_0].size() == 2 && v[_1].size() == 3); REACHED(1); }
#endif
#if SUB==3
O(rmt2) { Dune::MultiTypeBlockVector<std::vector<double>, std::vector<double>> v; rs(v, SP<2>{2,{2,3}}); CHECKM(RES, v[_0].size() == 2 && v[_1].size() == 3); REACHED(1); }
#endif
#if SUB==4
O(rvva) { std::vector<std::vector<std::array<double,2>>> v; rs(v, SP<3>{2,{1,3},2}); CHECKM(RES, v.size() == 2 && v[0].size() == 1 && v[1].size() == 3); REACHED(1); }
#endif
#if SUB==5
O(tva) { std::vector<std::array<double,2>> v; CHECKM(THR, throws(v, SP<2>{2,{2,3}})); CHECKM("a vector of the right size is accepted", !throws(v, SP<2>{2,{2,2}})); REACHED(1); }
#endif
#if SUB==6
O(tmt) { Dune::MultiTypeBlockVector<Dune::BlockVector<FV1>, Dune::BlockVector<FV2>> v; CHECKM(THR, throws(v, SP<3>{2,{2,3},1})); REACHED(1); }
#endif
#elif PART==2
O(as1) { std::vector<double> v{1,2,3}; auto b = istlVectorBackend(v); b = symd(1); for (auto& x : v) CHECKM("assignment sets all entries", same(x, symd(1))); REACHED(1); }
O(as2) { std::array<FV2,2> v; auto b = istlVectorBackend(v); b = symd(1); for (auto& x : v) for (auto& y : x) CHECKM("assignment sets all entries", same(y, symd(1))); REACHED(1); }
O(as3) { Dune::TupleVector<std::vector<FV2>, std::array<double,2>> v; v[_0].resize(2); auto b = istlVectorBackend(v); b = symd(1); for (auto& x : v[_0]) for (auto& y : x) CHECKM("assignment sets all entries", same(y, symd(1))); for (auto& y : v[_1]) CHECKM("assignment sets all entries", same(y, symd(1))); REACHED(1); }
O(as4) { std::vector<double> v{1,2,3}, w{symd(1), symd(2)}; auto b = istlVectorBackend(v); b = istlVectorBackend(std::as_const(w)); CHECKM("assignment of a backend copies the vector", v.size() == 2 && same(v[0], symd(1)) && same(v[1], symd(2))); w[0] = 5; CHECKM("the copy is independent", same(v[0], symd(1))); REACHED(1); }
O(as5) { Dune::BlockVector<FV2> v(2), w(2); w[1][1] = symd(3); auto b = istlVectorBackend(v); b = w; CHECKM("assignment of a vector copies the vector", same(v[1][1], symd(3)) && v.size() == 2); REACHED(1); }
O(ref) { std::vector<double> v(2); auto b = istlVectorBackend(v); SAMEREF("vector() is the wrapped vector", b.vector(), v); SAMEREF("vector() is the wrapped vector", std::as_const(b).vector(), v); auto c = b; SAMEREF("copies refer to the same vector", c.vector(), v); REACHED(1); }
// flat views number the scalar entries in lexicographic order
O(f1) { double d; SAMEREF("flat view", flatVectorView(d)[0], d); CHECK(flatVectorView(d).size() == 1); REACHED(1); }
O(f2) { FV3 v; auto i = u(1,3); SAMEREF("flat view", flatVectorView(v)[i], v[i]); CHECK(flatVectorView(v).size() == 3); REACHED(1); }
O(f3) { Dune::FieldMatrix<double,2,3> v; for (std::size_t i = 0; i < 2; ++i) for (std::size_t j = 0; j < 3; ++j) SAMEREF("flat view", flatVectorView(v)[3*i+j], v[i][j]); CHECK(flatVectorView(v).size() == 6); REACHED(1); }
O(f4) { std::array<FV2,3> v; for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 2; ++j) SAMEREF("flat view", flatVectorView(v)[2*i+j], v[i][j]); CHECK(flatVectorView(v).size() == 6); REACHED(1); }
O(f5) { std::array<Dune::FieldMatrix<double,3,2>,2> v; for (std::size_t k = 0; k < 2; ++k) for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 2; ++j) SAMEREF("flat view", flatVectorView(v)[6*k+2*i+j], v[k][i][j]); CHECK(flatVectorView(v).size() == 12); REACHED(1); }
O(f6) { std::array<std::array<FV3,2>,2> v; for (std::size_t k = 0; k < 2; ++k) for (std::size_t i = 0; i < 2; ++i) for (std::size_t j = 0; j < 3; ++j) SAMEREF("flat view", flatVectorView(v)[6*k+3*i+j], v[k][i][j]); CHECK(flatVectorView(v).size() == 12); REACHED(1); }
O(f7) { std::array<double,3> v{symd(1),symd(2),symd(3)}; auto f = flatVectorView(std::move(v)); CHECKM("flat view of a temporary", same(f[0], symd(1)) && same(f[2], symd(3))); const auto w = v; SAMEREF("flat view", flatVectorView(w)[1], w[1]); REACHED(1); }
O(f8) { std::vector<double> v(3); auto i = u(1,3); SAMEREF("flat view", flatVectorView(v)[i], v[i]); CHECK(flatVectorView(v).size() == 3); REACHED(1); }
#endif
