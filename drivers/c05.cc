// C05: index merging of power, dynamic power and composite bases: every basis function of every child gets the
// documented merged multi-index, and size(prefix), dimension(), containerDescriptor() describe the same index tree.
#include "mockbasis.hh"
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
using namespace Dune::Functions; using namespace mock;
namespace BF = Dune::Functions::BasisFactory; namespace CD = Dune::Functions::ContainerDescriptors;
#define O(n) extern "C" void o_##n()
using FI = BF::FlatInterleaved; using FL = BF::FlatLexicographic; using BL = BF::BlockedLexicographic; using BI = BF::BlockedInterleaved;
// the documented merged index of function i of child c, for children with W digits
template<class IMS, class P, int W, class M> void expectIndex(const M& m, std::size_t c, std::size_t C, long id, int i) {
  constexpr bool blocked = std::is_same_v<IMS,BL> || std::is_same_v<IMS,BI>;
  CHECKM("length of the merged multi-index", m.size() == W + blocked);
  if constexpr (std::is_same_v<IMS,FI>) CHECKM("FlatInterleaved: first digit is childDigit*children + child", m[0] == P::digit(id,i,0)*C + c);
  if constexpr (std::is_same_v<IMS,FL>) CHECKM("FlatLexicographic: first digit is childDigit + child*childSize", m[0] == P::digit(id,i,0) + c*P::sz(0,0));
  if constexpr (std::is_same_v<IMS,BL>) CHECKM("BlockedLexicographic: first digit is the child", m[0] == c);
  if constexpr (std::is_same_v<IMS,BI>) CHECKM("BlockedInterleaved: last digit is the child", m[W] == c);
  constexpr int from = !blocked, shift = std::is_same_v<IMS,BL>;
  for (int d = from; d < W; ++d) CHECKM("the other digits are those of the child", m[d + shift] == P::digit(id,i,d));
}
template<class Sub, class IMS, int C, bool dyn> auto makePower() {
  if constexpr (dyn) return DefaultGlobalBasis<DynamicPowerPreBasis<IMS, Sub>>(std::size_t(C), Sub(GridView{7}));
  else return DefaultGlobalBasis<PowerPreBasis<IMS, Sub, C>>(Sub(GridView{7}));
}
template<class IMS, int C, int W, bool dyn> void powerIdx() {
  using P = Pre<0,W,2>;
  auto b = makePower<P,IMS,C,dyn>();
  auto lv = b.localView(); Element e{sym(1)}; lv.bind(e);
  CHECKM("the local view holds all children", lv.size() == 2*C && lv.tree().size() == 2*C && lv.tree().degree() == C);
  for (int c = 0; c < C; ++c) { CHECK(lv.tree().child(c).size() == 2); for (int i = 0; i < 2; ++i) { CHECKM("local indices of the children are consecutive", lv.tree().child(c).localIndex(i) == 2*c + i); expectIndex<IMS,P,W>(lv.index(lv.tree().child(c).localIndex(i)), c, C, sym(1), i); } }
  REACHED(1);
}
template<int n> using SP = Dune::ReservedVector<std::size_t,n>;
// q: digits of a child's prefix, c: child
template<class IMS, int C, int W, bool dyn> void powerSize() {
  using P = Pre<0,W,2>; constexpr bool blocked = std::is_same_v<IMS,BL> || std::is_same_v<IMS,BI>;
  auto b = makePower<P,IMS,C,dyn>(); using X = typename decltype(b)::SizePrefix;
  const std::size_t n = P::sz(0,0), p = (std::size_t)sym(3) & 0xffff, q = (std::size_t)sym(4) & 0xffff, r = (std::size_t)sym(5) & 0xffff;
  CHECKM("dimension() is the sum of the children's", b.dimension() == C*P(GridView{7}).dimension());
  CHECKM("maxSize() is the sum of the children's", b.preBasis().maxNodeSize() == 2*C);
  CHECKM("size() equals size of the empty prefix", b.size() == b.size(X{}) && b.size() == b.preBasis().size());
  if constexpr (std::is_same_v<IMS,FI>) { CHECKM("root size", b.size() == C*n); CHECKM("size of a first level prefix", b.size(X{p}) == (W == 1 ? 0 : P::sz(1, p/C))); if constexpr (W > 1) CHECKM("size of a leaf prefix is zero", b.size(X{p,q}) == 0); }
  if constexpr (std::is_same_v<IMS,FL>) { CHECKM("root size", b.size() == C*n); CHECKM("size of a first level prefix", b.size(X{p}) == (W == 1 ? 0 : P::sz(1, p%n))); if constexpr (W > 1) CHECKM("size of a leaf prefix is zero", b.size(X{p,q}) == 0); }
  if constexpr (std::is_same_v<IMS,BL>) { CHECKM("root size", b.size() == C); for (std::size_t c = 0; c < C; ++c) { CHECKM("size of a first level prefix", b.size(X{c}) == n); CHECKM("size of a second level prefix", b.size(X{c,p}) == (W == 1 ? 0 : P::sz(1,p))); if constexpr (W > 1) CHECKM("size of a leaf prefix is zero", b.size(X{c,p,q}) == 0); } }
  if constexpr (std::is_same_v<IMS,BI>) { CHECKM("root size", b.size() == n); CHECKM("size of a first level prefix", b.size(X{p}) == (W == 1 ? C : P::sz(1,p))); CHECKM("size of a second level prefix", b.size(X{p,q}) == (W == 1 ? 0 : C)); if constexpr (W > 1) CHECKM("size of a leaf prefix is zero", b.size(X{p,q,r}) == 0); }
  REACHED(2);
}
// the container descriptor of a basis over flat children describes the same index tree
template<class D> constexpr std::size_t dsize(const D& d) { return Dune::Hybrid::size(d); }
template<class IMS, int C, bool dyn> void powerDesc() {
  using P = Pre<0,1,2>;
  auto b = makePower<P,IMS,C,dyn>(); auto d = b.containerDescriptor(); const std::size_t n = P::sz(0,0);
  CHECKM("the descriptor has the root size of the basis", dsize(d) == b.size());
  if constexpr (std::is_same_v<IMS,FI> || std::is_same_v<IMS,FL>) CHECKM("a flat basis has a flat descriptor", dsize(d) == C*n && std::is_same_v<std::decay_t<decltype(d)>, CD::FlatVector>);
  if constexpr (std::is_same_v<IMS,BL>) { CHECK(dsize(d) == C); for (std::size_t c = 0; c < C; ++c) CHECKM("blocks have the size of the child", dsize(d[c]) == n); }
  if constexpr (std::is_same_v<IMS,BI>) { CHECK(dsize(d) == n); CHECKM("blocks have one entry per child", dsize(d[0]) == C); }
  REACHED(3);
}
// indices() writes exactly one index per local basis function and returns the end of the written range
template<class B> void range(const B& b, std::size_t n) {
  using X = Dune::ReservedVector<std::size_t, B::PreBasis::multiIndexBufferSize>; X a[12]; for (auto& x : a) x.clear();
  auto lv = b.localView(); lv.bind(Element{sym(1)}); auto it = b.preBasis().indices(lv.tree(), a + 1);
  CHECKM("indices() returns the end of the written range", it == a + 1 + n);
  CHECKM("indices() does not write outside of the range", a[0].size() == 0 && a[n+1].size() == 0);
  for (std::size_t i = 0; i < n; ++i) CHECKM("indices() writes all indices", a[i+1].size() > 0);
  REACHED(4);
}
template<class IMS, int C, int W, bool dyn> void powerRange() { range(makePower<Pre<0,W,2>,IMS,C,dyn>(), 2*C); }
#define PW(n, IMS) O(n##2) { powerIdx<IMS,2,1,DYN>(); } O(n##3) { powerIdx<IMS,3,1,DYN>(); } O(n##w2) { powerIdx<IMS,2,2,DYN>(); } O(n##w3) { powerIdx<IMS,3,2,DYN>(); } \
  O(n##s2) { powerSize<IMS,2,1,DYN>(); } O(n##s3) { powerSize<IMS,3,1,DYN>(); } O(n##t2) { powerSize<IMS,2,2,DYN>(); } O(n##t3) { powerSize<IMS,3,2,DYN>(); } O(n##d2) { powerDesc<IMS,2,DYN>(); } O(n##d3) { powerDesc<IMS,3,DYN>(); } O(n##1) { powerIdx<IMS,1,1,DYN>(); } O(n##s1) { powerSize<IMS,1,2,DYN>(); } O(n##r2) { powerRange<IMS,2,1,DYN>(); } O(n##r3) { powerRange<IMS,3,2,DYN>(); }
#if PART==0
#define DYN false
PW(pfi,FI) PW(pfl,FL)
#elif PART==1
#define DYN false
PW(pbl,BL) PW(pbi,BI)
#elif PART==2
#define DYN true
PW(dfi,FI) PW(dfl,FL)
#elif PART==3
#define DYN true
PW(dbl,BL) PW(dbi,BI)
#elif PART==4
// composite: children with different tags, local sizes and index lengths
template<class IMS, int W0, int W1, int W2> struct Comp {
  using P0 = Pre<0,W0,2>; using P1 = Pre<1,W1,1>; using P2 = Pre<2,W2,3>;
  using B = DefaultGlobalBasis<CompositePreBasis<IMS,P0,P1,P2>>;
  static B make() { GridView g{7}; return B(P0(g), P1(g), P2(g)); }
  template<int c, int N, class P, int W, class LV> static void child(const LV& lv, std::size_t loc, std::size_t off) {
    auto& nd = lv.tree().child(Dune::index_constant<c>()); CHECK(nd.size() == N);
    for (int i = 0; i < N; ++i) {
      CHECKM("local indices of the children are consecutive", nd.localIndex(i) == loc + i);
      auto& m = lv.index(nd.localIndex(i)); constexpr bool bl = std::is_same_v<IMS,BL>;
      CHECKM("length of the merged multi-index", m.size() == W + bl);
      if constexpr (bl) { CHECKM("BlockedLexicographic: first digit is the child", m[0] == c); for (int d = 0; d < W; ++d) CHECKM("the other digits are those of the child", m[d+1] == P::digit(sym(1), i, d)); }
      else { CHECKM("FlatLexicographic: first digit is childDigit + size of the previous children", m[0] == P::digit(sym(1), i, 0) + off); for (int d = 1; d < W; ++d) CHECKM("the other digits are those of the child", m[d] == P::digit(sym(1), i, d)); }
    }
  }
  static void idx() {
    auto b = make(); auto lv = b.localView(); lv.bind(Element{sym(1)});
    CHECKM("the local view holds all children", lv.size() == 6);
    child<0,2,P0,W0>(lv, 0, 0); child<1,1,P1,W1>(lv, 2, P0::sz(0,0)); child<2,3,P2,W2>(lv, 3, P0::sz(0,0) + P1::sz(0,0));
    REACHED(1);
  }
  static void sizes() {
    auto b = make(); using X = typename B::SizePrefix; GridView g{7};
    const std::size_t p = (std::size_t)sym(3) & 0xffff, q = (std::size_t)sym(4) & 0xffff, n0 = P0::sz(0,0), n1 = P1::sz(0,0), n2 = P2::sz(0,0);
    CHECKM("dimension() is the sum of the children's", b.dimension() == P0(g).dimension() + P1(g).dimension() + P2(g).dimension());
    CHECKM("maxSize() is the sum of the children's", b.preBasis().maxNodeSize() == 6);
    if constexpr (std::is_same_v<IMS,BL>) {
      CHECKM("root size", b.size() == 3);
      CHECKM("size of a first level prefix is that of the child", b.size(X{0}) == n0 && b.size(X{1}) == n1 && b.size(X{2}) == n2);
      CHECKM("size of a second level prefix", b.size(X{0,p}) == (W0 == 1 ? 0 : P0::sz(1,p)) && b.size(X{1,p}) == (W1 == 1 ? 0 : P1::sz(1,p)) && b.size(X{2,p}) == (W2 == 1 ? 0 : P2::sz(1,p)));
      if constexpr (W1 > 1) CHECKM("size of a leaf prefix is zero", b.size(X{1,p,q}) == 0);
    } else {
      CHECKM("root size", b.size() == n0 + n1 + n2);
      std::size_t s = b.size(X{p}), e = 0;
      if (p < n0) e = W0 == 1 ? 0 : P0::sz(1,p); else if (p - n0 < n1) e = W1 == 1 ? 0 : P1::sz(1,p-n0); else if (p - n0 - n1 < n2) e = W2 == 1 ? 0 : P2::sz(1,p-n0-n1);
      CHECKM("size of a first level prefix is that of the child it belongs to", s == e);
    }
    REACHED(2);
  }
};
template<class IMS> void compDesc() {
  using K = Comp<IMS,1,1,1>; auto b = K::make(); auto d = b.containerDescriptor();
  const std::size_t n0 = K::P0::sz(0,0), n1 = K::P1::sz(0,0), n2 = K::P2::sz(0,0);
  CHECKM("the descriptor has the root size of the basis", dsize(d) == b.size());
  if constexpr (std::is_same_v<IMS,FL>) CHECKM("a flat basis has a flat descriptor", dsize(d) == n0 + n1 + n2 && std::is_same_v<std::decay_t<decltype(d)>, CD::FlatVector>);
  else { using namespace Dune::Indices; CHECKM("blocks have the size of the child", dsize(d[_0]) == n0 && dsize(d[_1]) == n1 && dsize(d[_2]) == n2); }
  REACHED(3);
}
O(cfl) { Comp<FL,1,1,1>::idx(); } O(cbl) { Comp<BL,1,1,1>::idx(); } O(cflw) { Comp<FL,2,2,2>::idx(); } O(cblw) { Comp<BL,2,2,2>::idx(); } O(cflm) { Comp<FL,1,2,1>::idx(); } O(cblm) { Comp<BL,1,2,1>::idx(); } O(cblm2) { Comp<BL,2,1,2>::idx(); }
O(cfls) { Comp<FL,1,1,1>::sizes(); } O(cbls) { Comp<BL,1,1,1>::sizes(); } O(cflws) { Comp<FL,2,2,2>::sizes(); } O(cblws) { Comp<BL,2,2,2>::sizes(); } O(cflms) { Comp<FL,1,2,1>::sizes(); } O(cblms) { Comp<BL,1,2,1>::sizes(); }
O(cflr) { range(Comp<FL,1,1,1>::make(), 6); } O(cblr) { range(Comp<BL,1,2,1>::make(), 6); }
O(cfld) { compDesc<FL>(); } O(cbld) { compDesc<BL>(); }
#else
// nested trees
using A = Pre<0,1,2>; using Bq = Pre<1,1,1>;
using V = PowerPreBasis<BI,A,2>; using TH = CompositePreBasis<BL,V,Bq>;
O(nest_th) {   // composite(power<2>(A, blockedInterleaved), B, blockedLexicographic)
  GridView g{7}; DefaultGlobalBasis<TH> b(V{A{g}}, Bq{g}); auto lv = b.localView(); lv.bind(Element{sym(1)}); using namespace Dune::Indices;
  CHECK(lv.size() == 5);
  for (int c = 0; c < 2; ++c) for (int i = 0; i < 2; ++i) { auto& nd = lv.tree().child(_0, c); CHECKM("local indices of the children are consecutive", nd.localIndex(i) == 2*c + i); auto& m = lv.index(nd.localIndex(i)); CHECKM("nested merging composes", m.size() == 3 && m[0] == 0 && m[1] == A::digit(sym(1), i, 0) && m[2] == c); }
  auto& nd = lv.tree().child(_1); CHECKM("local indices of the children are consecutive", nd.localIndex(0) == 4); auto& m = lv.index(4); CHECKM("nested merging composes", m.size() == 2 && m[0] == 1 && m[1] == Bq::digit(sym(1), 0, 0));
  REACHED(1);
}
O(nest_th_size) {
  GridView g{7}; DefaultGlobalBasis<TH> b(V{A{g}}, Bq{g}); using X = decltype(b)::SizePrefix; const std::size_t p = (std::size_t)sym(3) & 0xffff, q = (std::size_t)sym(4) & 0xffff;
  CHECK(b.size() == 2); CHECK(b.size(X{0}) == A::sz(0,0)); CHECK(b.size(X{1}) == Bq::sz(0,0)); CHECK(b.size(X{0,p}) == 2); CHECK(b.size(X{1,p}) == 0); CHECK(b.size(X{0,p,q}) == 0); CHECK(b.dimension() == 2*A(g).dimension() + Bq(g).dimension());
  auto d = b.containerDescriptor(); using namespace Dune::Indices; CHECKM("the descriptor of a nested basis describes its index tree", dsize(d) == 2 && dsize(d[_0]) == A::sz(0,0) && dsize(d[_0][0]) == 2 && dsize(d[_1]) == Bq::sz(0,0));
  REACHED(2);
}
using CC = CompositePreBasis<FL,A,Bq>; using PC = PowerPreBasis<FI,CC,2>;
O(nest_pc) {   // power<2>(composite(A,B,flatLexicographic), flatInterleaved)
  GridView g{7}; DefaultGlobalBasis<PC> b(CC{A{g}, Bq{g}}); auto lv = b.localView(); lv.bind(Element{sym(1)}); using namespace Dune::Indices;
  for (int c = 0; c < 2; ++c) { for (int i = 0; i < 2; ++i) { auto& nd = lv.tree().child(c).child(_0); CHECK(nd.localIndex(i) == 3*c + i); CHECKM("nested merging composes", lv.index(nd.localIndex(i))[0] == 2*A::digit(sym(1), i, 0) + c); }
    auto& nd = lv.tree().child(c).child(_1); CHECK(nd.localIndex(0) == 3*c + 2); CHECKM("nested merging composes", lv.index(nd.localIndex(0))[0] == 2*(Bq::digit(sym(1), 0, 0) + A::sz(0,0)) + c); }
  REACHED(3);
}
O(nest_pc_size) { GridView g{7}; DefaultGlobalBasis<PC> b(CC{A{g}, Bq{g}}); CHECK(b.size() == 2*(A::sz(0,0) + Bq::sz(0,0))); CHECK(b.dimension() == 2*(A(g).dimension() + Bq(g).dimension())); CHECK(b.containerDescriptor().size() == b.size()); REACHED(4); }
using DD = DynamicPowerPreBasis<BL,PowerPreBasis<FL,A,2>>;
O(nest_dd) {
  GridView g{7}; DefaultGlobalBasis<DD> b(std::size_t(2), PowerPreBasis<FL,A,2>{A{g}}); auto lv = b.localView(); lv.bind(Element{sym(1)});
  for (int c = 0; c < 2; ++c) for (int k = 0; k < 2; ++k) for (int i = 0; i < 2; ++i) { auto& nd = lv.tree().child(c).child(k); CHECK(nd.localIndex(i) == 4*c + 2*k + i); auto& m = lv.index(nd.localIndex(i)); CHECKM("nested merging composes", m[0] == c && m[1] == A::digit(sym(1), i, 0) + k*A::sz(0,0)); }
  REACHED(5);
}
// tree indices: the nodes of the local tree are numbered consecutively in depth first pre-order
O(treeindex) {
  GridView g{7}; DefaultGlobalBasis<TH> b(V{A{g}}, Bq{g}); auto lv = b.localView(); using namespace Dune::Indices;
  CHECKM("tree indices are a consecutive pre-order numbering", lv.tree().treeIndex() == 0 && lv.tree().child(_0).treeIndex() == 1 && lv.tree().child(_0,0).treeIndex() == 2 && lv.tree().child(_0,1).treeIndex() == 3 && lv.tree().child(_1).treeIndex() == 4);
  REACHED(6);
}
// rebinding: indices, sizes and element are those of the last element
O(rebind) {
  GridView g{7}; DefaultGlobalBasis<TH> b(V{A{g}}, Bq{g}); auto lv = b.localView(); CHECK(!lv.bound()); lv.bind(Element{sym(1)}); lv.bind(Element{sym(2)}); using namespace Dune::Indices;
  CHECK(lv.bound() && lv.element().id == sym(2) && lv.size() == 5);
  CHECKM("after rebinding all indices are those of the new element", lv.index(lv.tree().child(_0,1).localIndex(1))[1] == A::digit(sym(2), 1, 0) && lv.index(4)[1] == Bq::digit(sym(2), 0, 0) && lv.tree().child(_0,1).element().id == sym(2));
  lv.unbind(); CHECK(!lv.bound()); REACHED(7);
}
#endif
