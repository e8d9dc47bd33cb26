// C06: global bases, local views, subspace bases and index transformations hand through exactly what the pre-basis says.
#include "mockbasis.hh"
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
using namespace Dune::Functions; using namespace mock; using namespace Dune::Indices;
namespace BF = Dune::Functions::BasisFactory; namespace CD = Dune::Functions::ContainerDescriptors;
#define O(n) extern "C" void o_##n()
static long S(int k) { return sym(k) & 0xffff; }
// a pre-basis all of whose answers depend on the grid view and on the grid view at the time of the last index initialisation
template<int K, int MIN, int W, int N> struct TPre {
  using GridView = mock::GridView; using size_type = std::size_t; using Node = mock::Node<K,N>;
  static constexpr size_type maxMultiIndexSize = W, minMultiIndexSize = MIN, multiIndexBufferSize = W;
  GridView gv; int ini = -1; long par = 0;
  TPre(const GridView& g) : gv(g) {} TPre(const GridView& g, long p) : gv(g), par(p) {}
  void initializeIndices() { ini = gv.tag; } const GridView& gridView() const { return gv; } void update(const GridView& g) { gv = g; ini = -2; }
  Node makeNode() const { return {}; }
  static size_type val(int what, long gv, long ini, long par, long a) { return ieval(600 + 10*K + what, ieval(1, gv, ini) ^ par << 20, a) & 0xffff; }
  size_type v(int what, long a) const { return val(what, gv.tag, ini, par, a); }
  size_type size() const { return v(0, 0); }
  template<class P> size_type size(const P& p) const { size_type r = v(1, p.size()); for (std::size_t d = 0; d < p.size(); ++d) r ^= v(2 + d, p[d]); return p.size() ? r : size(); }
  size_type dimension() const { return v(6, 0); } size_type maxNodeSize() const { return v(7, 0) & 7; }
  static int len(int i) { return i % 2 ? W : MIN; }
  template<class Nd, class It> It indices(const Nd& n, It it) const { for (int i = 0; i < N; ++i, ++it) { auto&& m = *it; m.resize(len(i)); for (int d = 0; d < len(i); ++d) m[d] = v(8 + d, n.element().id*16 + i); } return it; }
  auto containerDescriptor() const { return CD::FlatVector(size()); }
};
template<int K, int MIN, int W, int N> struct TPreND : TPre<K,MIN,W,N> { using TPre<K,MIN,W,N>::TPre; private: using TPre<K,MIN,W,N>::containerDescriptor; };
template<class B> void answers(const B& b, long g, long par) {
  using P = typename B::PreBasis; using X = typename B::SizePrefix; const std::size_t p = S(3), q = S(4);
  CHECKM("the pre-basis is updated and its indices are initialised", b.preBasis().gv.tag == g && b.preBasis().ini == g && b.preBasis().par == par);
  CHECKM("gridView() is that of the pre-basis", &b.gridView() == &b.preBasis().gridView() && b.gridView().tag == g);
  CHECKM("dimension() is that of the pre-basis", b.dimension() == P::val(6, g, g, par, 0));
  CHECKM("size() is that of the pre-basis", b.size() == P::val(0, g, g, par, 0));
  CHECKM("size(prefix) is that of the pre-basis", b.size(X{}) == P::val(0, g, g, par, 0) && b.size(X{p}) == (P::val(1, g, g, par, 1) ^ P::val(2, g, g, par, p)));
  if constexpr (P::multiIndexBufferSize > 1) CHECKM("size(prefix) is that of the pre-basis", b.size(X{p,q}) == (P::val(1, g, g, par, 2) ^ P::val(2, g, g, par, p) ^ P::val(3, g, g, par, q)));
  CHECKM("the root basis of a basis is the basis itself", &b.rootBasis() == &b && b.prefixPath().size() == 0);
}
template<class LV, class B> void bound(const LV& lv, const B& b, long g, long par, long e) {
  using P = typename B::PreBasis; constexpr int W = P::maxMultiIndexSize, N = 3;
  CHECKM("a bound view knows its element", lv.bound() && lv.element().id == e && lv.tree().element().id == e);
  CHECKM("size() of a view is that of its tree", lv.size() == N && lv.tree().size() == N);
  CHECKM("maxSize() is the maximal node size of the pre-basis", lv.maxSize() == (P::val(7, g, g, par, 0) & 7));
  CHECKM("a view refers to its basis", &lv.globalBasis() == &b && &lv.rootLocalView() == &lv);
  for (int i = 0; i < N; ++i) { auto& m = lv.index(i); CHECKM("length of the indices is that of the pre-basis", m.size() == P::len(i)); for (int d = 0; d < P::len(i); ++d) CHECKM("indices are those of the pre-basis for the bound element", m[d] == P::val(8 + d, g, g, par, e*16 + i)); CHECKM("local indices are consecutive", lv.tree().localIndex(i) == i); }
}
template<class P> void basis() {
  const int g = S(0), h = S(1);
  { DefaultGlobalBasis<P> b{GridView{g}}; answers(b, g, 0); }
  { DefaultGlobalBasis<P> b{GridView{g}, sym(5)}; answers(b, g, sym(5)); }
  { DefaultGlobalBasis<P> b{P(GridView{g}, sym(5))}; answers(b, g, sym(5)); }
  { auto b = BF::makeBasis(GridView{g}, [](const auto& gv) { return P(gv, sym(6)); }); answers(b, g, sym(6)); static_assert(std::is_same_v<decltype(b), DefaultGlobalBasis<P>>); }
  { DefaultGlobalBasis b(GridView{g}, [](const auto& gv) { return P(gv, sym(6)); }); answers(b, g, sym(6)); }
  { DefaultGlobalBasis<P> b{GridView{g}, sym(5)}; b.update(GridView{h}); answers(b, h, sym(5)); const auto& c = b; CHECKM("preBasis() is the stored pre-basis", &c.preBasis() == &b.preBasis()); }
  REACHED(1);
}
template<class P> void view() {
  const int g = S(0), h = S(1); const long e = S(2), f = S(3);
  DefaultGlobalBasis<P> b{GridView{g}, sym(5)};
  auto lv = b.localView();
  CHECKM("a new view is unbound", !lv.bound() && &lv.globalBasis() == &b);
  lv.bind(Element{e}); bound(lv, b, g, sym(5), e);
  lv.bind(Element{f}); bound(lv, b, g, sym(5), f);
  lv.unbind(); CHECKM("unbind() unbinds", !lv.bound());
  lv.bind(Element{e}); bound(lv, b, g, sym(5), e);
  // a view created and bound after the update sees the updated basis; so does one that is rebound
  b.update(GridView{h}); auto lw = b.localView(); CHECK(!lw.bound()); lw.bind(Element{f}); bound(lw, b, h, sym(5), f);
  lv.bind(Element{e}); bound(lv, b, h, sym(5), e);
  REACHED(2);
}
// two views do not influence each other
template<class P> void twoViews() {
  const int g = S(0); const long e = S(2), f = S(3);
  DefaultGlobalBasis<P> b{GridView{g}}; auto lv = b.localView(), lw = b.localView();
  lv.bind(Element{e}); lw.bind(Element{f}); bound(lv, b, g, 0, e); bound(lw, b, g, 0, f);
  lw.unbind(); bound(lv, b, g, 0, e); CHECK(!lw.bound());
  REACHED(3);
}
#if PART==3
// elements with different numbers of functions; paths of run time indices
template<int K> struct VNode : mock::Node<K,3> { void bind(const Element& e) { this->e_ = &e; this->setSize(1 + e.ord); } };
struct VPre : TPre<4,1,2,3> { using TPre::TPre; using Node = VNode<4>; Node makeNode() const { return {}; } size_type maxNodeSize() const { return 3; }
  template<class Nd, class It> It indices(const Nd& n, It it) const { for (std::size_t i = 0; i < n.size(); ++i, ++it) { auto&& m = *it; m.resize(len(i)); for (int d = 0; d < len(i); ++d) m[d] = v(8 + d, n.element().id*16 + i); } return it; } };
template<class LV> void vbound(const LV& lv, int g, long e, int n) {
  CHECKM("size() is that of the bound element", lv.bound() && lv.element().id == e && lv.size() == n && lv.maxSize() == 3);
  for (int i = 0; i < n; ++i) { auto& m = lv.index(i); CHECKM("length of the indices is that of the pre-basis", m.size() == VPre::len(i)); for (int d = 0; d < VPre::len(i); ++d) CHECKM("indices are those of the pre-basis for the bound element", m[d] == VPre::val(8 + d, g, g, 0, e*16 + i)); }
}
template<int a, int b, int c> void varying() {
  const int g = S(0); DefaultGlobalBasis<VPre> bs{GridView{g}}; auto lv = bs.localView(); int n[] = {a, b, c}; long e[] = {sym(1), sym(2), sym(3)};
  for (int k = 0; k < 3; ++k) { Element x{e[k]}; x.ord = n[k] - 1; lv.bind(x); vbound(lv, g, e[k], n[k]); }
  lv.unbind(); CHECK(!lv.bound()); Element x{e[1]}; x.ord = n[1] - 1; lv.bind(x); vbound(lv, g, e[1], n[1]);
  auto lw = lv; vbound(lw, g, e[1], n[1]); x = Element{e[0]}; x.ord = n[0] - 1; lw.bind(x); vbound(lw, g, e[0], n[0]); vbound(lv, g, e[1], n[1]);
  REACHED(1);
}
O(vary123) { varying<1,2,3>(); } O(vary321) { varying<3,2,1>(); } O(vary131) { varying<1,3,1>(); } O(vary313) { varying<3,1,3>(); }
using A = Pre<0,1,2>;
// a subspace of three levels: the path is joined in the right order
O(nested3) {
  using M = DefaultGlobalBasis<PowerPreBasis<BF::BlockedLexicographic, DynamicPowerPreBasis<BF::BlockedLexicographic, PowerPreBasis<BF::FlatLexicographic, A, 2>>, 3>>;
  GridView g{7}; M b(DynamicPowerPreBasis<BF::BlockedLexicographic, PowerPreBasis<BF::FlatLexicographic, A, 2>>(2, PowerPreBasis<BF::FlatLexicographic, A, 2>(A(g))));
  auto s = subspaceBasis(b, 2); auto t = subspaceBasis(s, 1); auto u = subspaceBasis(t, 0); auto w = subspaceBasis(s, 1, 0);
  CHECKM("paths are joined from the root", u.prefixPath().size() == 3 && u.prefixPath()[0] == 2 && u.prefixPath()[1] == 1 && u.prefixPath()[2] == 0 && &u.rootBasis() == &b);
  CHECKM("paths are joined from the root", w.prefixPath().size() == 3 && w.prefixPath()[0] == 2 && w.prefixPath()[1] == 1 && w.prefixPath()[2] == 0 && &w.rootBasis() == &b);
  auto lv = u.localView(); lv.bind(Element{sym(1)}); CHECKM("the tree is the subtree of the root tree at the prefix path", &lv.tree() == &lv.rootLocalView().tree().child(2).child(1).child(0) && lv.tree().localIndex(1) == 21);
  REACHED(3);
}
#elif PART==0
#define LV(n, ...) O(basis##n) { basis<__VA_ARGS__>(); } O(view##n) { view<__VA_ARGS__>(); } O(two##n) { twoViews<__VA_ARGS__>(); }
using P11 = TPre<0,1,1,3>; using P22 = TPre<1,2,2,3>; using P12 = TPre<2,1,2,3>; using P13 = TPre<3,1,3,3>;
LV(1,P11) LV(2,P22) LV(12,P12) LV(13,P13)
O(desc) { const int g = S(0); DefaultGlobalBasis<P11> b{GridView{g}}; CHECKM("the container descriptor is that of the pre-basis", b.containerDescriptor().size() == P11::val(0, g, g, 0, 0)); REACHED(4); }
using ND = TPreND<0,1,1,3>;
O(nodesc) { DefaultGlobalBasis<ND> b{GridView{7}}; CHECKM("the descriptor of a pre-basis without descriptor is unknown", std::is_same_v<decltype(b.containerDescriptor()), CD::Unknown>); REACHED(5); }
#elif PART==1
// subspace bases
using A = Pre<0,1,2>; using Q = Pre<1,1,1>; using V = PowerPreBasis<BF::BlockedInterleaved,A,2>; using TH = CompositePreBasis<BF::BlockedLexicographic,V,Q>; using B = DefaultGlobalBasis<TH>;
static B make() { GridView g{7}; return B(V{A{g}}, Q{g}); }
template<class S, class... I> void subspace(const B& b, const S& s, I... is) {
  using X = typename B::SizePrefix; const std::size_t p = ::S(3) & 1, q = ::S(4);
  CHECKM("a subspace basis refers to the root basis", &s.rootBasis() == &b);
  CHECKM("grid view, size and dimension of a subspace basis are those of the root basis", &s.gridView() == &b.gridView() && s.size() == b.size() && s.dimension() == b.dimension());
  CHECKM("size(prefix) of a subspace basis is that of the root basis", s.size(X{}) == b.size(X{}) && s.size(X{p}) == b.size(X{p}) && s.size(X{p,q}) == b.size(X{p,q}));
  CHECKM("the descriptor of a subspace basis is that of the root basis", Dune::Hybrid::size(s.containerDescriptor()) == Dune::Hybrid::size(b.containerDescriptor()) && std::is_same_v<decltype(s.containerDescriptor()), decltype(b.containerDescriptor())>);
  auto path = Dune::TypeTree::treePath(is...); CHECKM("the prefix path is the given one", s.prefixPath() == path && s.prefixPath().size() == sizeof...(I));
  auto lv = s.localView(); CHECKM("a new view is unbound", !lv.bound() && &lv.globalBasis() == &s && &lv.rootLocalView().globalBasis() == &b);
  for (long e : {sym(1), sym(2)}) {
    lv.bind(Element{e}); CHECKM("a bound view knows its element", lv.bound() && lv.element().id == e && lv.rootLocalView().bound() && lv.rootLocalView().element().id == e);
    CHECKM("the tree is the subtree of the root tree at the prefix path", (const void*)&lv.tree() == (const void*)&Dune::TypeTree::child(lv.rootLocalView().tree(), path));
    CHECKM("size and maxSize are those of the root view", lv.size() == 5 && lv.maxSize() == lv.rootLocalView().maxSize() && lv.maxSize() == 5);
    auto rv = b.localView(); rv.bind(Element{e});
    for (int i = 0; i < 5; ++i) { CHECKM("indices are those of the root view", lv.index(i).size() == rv.index(i).size()); for (std::size_t d = 0; d < rv.index(i).size(); ++d) CHECKM("indices are those of the root view", lv.index(i)[d] == rv.index(i)[d]); }
  }
  lv.unbind(); CHECKM("unbind() unbinds", !lv.bound() && !lv.rootLocalView().bound());
}
O(sub0) { auto b = make(); subspace(b, subspaceBasis(b, _0), _0); REACHED(1); }
O(sub1) { auto b = make(); subspace(b, subspaceBasis(b, _1), _1); REACHED(1); }
O(sub00) { auto b = make(); subspace(b, subspaceBasis(b, _0, 0), _0, 0); subspace(b, subspaceBasis(b, _0, 1), _0, 1); REACHED(1); }
O(subpath) { auto b = make(); subspace(b, subspaceBasis(b, Dune::TypeTree::treePath(_0, 1)), _0, 1); REACHED(1); }
O(subroot) { auto b = make(); subspace(b, subspaceBasis(b)); REACHED(1); }
O(nested) { auto b = make(); auto s = subspaceBasis(b, _0); auto t = subspaceBasis(s, 1); subspace(b, t, _0, 1); CHECKM("a subspace of a subspace is a subspace of the root basis", std::is_same_v<decltype(t)::RootBasis, B>); REACHED(2); }
O(nestedctor) { auto b = make(); auto s = subspaceBasis(b, _0); SubspaceBasis t(s, Dune::TypeTree::treePath(1)); subspace(b, t, _0, 1); REACHED(2); }
O(nestedroot) { auto b = make(); auto s = subspaceBasis(b); auto t = subspaceBasis(s, _1); subspace(b, t, _1); REACHED(2); }
// the basis of a subspace basis may be updated: a rebound view sees it
O(update) { using P = TPre<0,1,1,3>; const int g = S(0), h = S(1); DefaultGlobalBasis<P> b{GridView{g}}; auto s = subspaceBasis(b); auto lv = s.localView(); b.update(GridView{h}); CHECKM("a subspace basis follows its root basis", s.gridView().tag == h && s.size() == P::val(0,h,h,0,0) && s.dimension() == P::val(6,h,h,0,0));
  lv.bind(Element{sym(2)}); for (int i = 0; i < 3; ++i) CHECKM("a subspace basis follows its root basis", lv.index(i)[0] == P::val(8,h,h,0,sym(2)*16+i)); REACHED(4); }
#else
// index transformations: applied exactly once to every index of the raw pre-basis
template<int MIN, int W, int OUT> void transformed() {
  using P = TPre<0,MIN,W,3>; const int g = S(0), h = S(1); const long e = S(2);
  auto raw = [](const auto& gv) { return P(gv, sym(5)); };
  auto trafo = [](auto&& m, const auto& pb) { static_assert(std::is_same_v<std::decay_t<decltype(pb)>, P>); std::size_t n = m.size(), a = m[0]; m.resize(OUT); m[0] = (ieval(40, a, ieval(41, pb.ini, pb.par)) & 0xffff) + n*65536; for (int d = 1; d < OUT; ++d) m[d] = ieval(42, a, d) & 0xffff; };
  auto size = [](const auto& p, const auto& pb) -> std::size_t { static_assert(std::is_same_v<std::decay_t<decltype(pb)>, P>); std::size_t r = ieval(43, p.size(), ieval(41, pb.ini, pb.par)); for (std::size_t d = 0; d < p.size(); ++d) r ^= ieval(44, p[d], d); return r; };
  auto desc = [](const auto& pb) { return CD::FlatVector(pb.v(5, 0)); };
  constexpr std::size_t MO = OUT;
  auto go = [&](auto t, bool known) {
    auto f = BF::Experimental::transformIndices(raw, t);
    auto b = BF::makeBasis(GridView{g}, f); using B = decltype(b); using TP = typename B::PreBasis; using X = typename B::SizePrefix;
    static_assert(TP::maxMultiIndexSize == OUT && TP::minMultiIndexSize == OUT && TP::multiIndexBufferSize == (W > OUT ? W : OUT), "PROPERTY: digit bounds of a transformed pre-basis");
    for (int u = 0; u < 2; ++u) {
      const int k = u ? h : g; if (u) b.update(GridView{h});
      auto& pb = b.preBasis().rawPreBasis(); const auto& cpb = std::as_const(b).preBasis().rawPreBasis();
      CHECKM("the raw pre-basis is updated and initialised", pb.gv.tag == k && pb.ini == k && pb.par == sym(5) && &pb == &cpb);
      CHECKM("the grid view is that of the raw pre-basis", &b.gridView() == &pb.gridView());
      CHECKM("the node size is that of the raw pre-basis", b.preBasis().maxNodeSize() == pb.maxNodeSize());
      CHECKM("dimension is given by the transformation", b.dimension() == pb.dimension());
      const std::size_t c = ieval(41, k, sym(5)), p = S(3), q = S(4);
      CHECKM("size is given by the transformation", b.size() == ieval(43, 0, c) && b.size(X{}) == ieval(43, 0, c) && b.size(X{p}) == (ieval(43, 1, c) ^ ieval(44, p, 0)));
      if constexpr (TP::multiIndexBufferSize > 1) CHECKM("size is given by the transformation", b.size(X{p,q}) == (ieval(43, 2, c) ^ ieval(44, p, 0) ^ ieval(44, q, 1)));
      if constexpr (requires { b.containerDescriptor().size(); }) CHECKM("the descriptor is given by the transformation", b.containerDescriptor().size() == pb.v(5, 0));
      CHECKM("the descriptor is given by the transformation or unknown", known != std::is_same_v<decltype(b.containerDescriptor()), CD::Unknown>);
      auto lv = b.localView(); lv.bind(Element{e}); CHECK(lv.size() == 3);
      for (int i = 0; i < 3; ++i) { std::size_t a = P::val(8, k, k, sym(5), e*16 + i); auto& m = lv.index(i);
        CHECKM("the transformation is applied exactly once to every raw index", m.size() == OUT && m[0] == (ieval(40, a, c) & 0xffff) + P::len(i)*65536); for (int d = 1; d < OUT; ++d) CHECKM("the transformation gives all digits", m[d] == (ieval(42, a, d) & 0xffff)); }
      Dune::ReservedVector<std::size_t, TP::multiIndexBufferSize> a[6]; for (auto& x : a) x.clear(); auto it = b.preBasis().indices(lv.tree(), a + 1);
      CHECKM("indices() returns the end of the written range and writes nothing else", it == a + 4 && a[0].size() == 0 && a[4].size() == 0 && a[5].size() == 0);
    }
  };
  go(BF::Experimental::indexTransformation(trafo, size, desc, Dune::index_constant<MO>(), Dune::index_constant<MO>()), true);
  go(BF::Experimental::indexTransformation(trafo, size, Dune::index_constant<MO>(), Dune::index_constant<MO>()), false);
  REACHED(1);
}
O(trafo11) { transformed<1,1,1>(); } O(trafo12) { transformed<1,1,2>(); } O(trafo22) { transformed<2,2,2>(); } O(trafo21) { transformed<2,2,1>(); } O(trafov1) { transformed<1,2,1>(); } O(trafov2) { transformed<1,2,2>(); }
// factories build the pre-basis they name, from the children they are given, on the grid view they are given
using P0 = TPre<0,1,1,3>; using P1 = TPre<1,1,1,2>;
static auto f0(long p) { return [p](const auto& gv) { return P0(gv, p); }; } static auto f1(long p) { return [p](const auto& gv) { return P1(gv, p); }; }
template<class P> static bool is(const P& p, int g, long par) { return p.gv.tag == g && p.par == par; }
#define IMS(X) X(BlockedInterleaved,blockedInterleaved) X(BlockedLexicographic,blockedLexicographic) X(FlatInterleaved,flatInterleaved) X(FlatLexicographic,flatLexicographic)
#define POW(T,f) O(power_##f) { const int g = S(0); auto p = BF::power<3>(f0(sym(5)), BF::f())(GridView{g}); CHECKM("power builds a power pre-basis of the given strategy", std::is_same_v<decltype(p), PowerPreBasis<BF::T, P0, 3>>); CHECKM("on the given grid view from the given child", is(p.subPreBasis(), g, sym(5)) && p.gridView().tag == g && p.children() == 3); REACHED(1); } \
  O(dynpower_##f) { const int g = S(0); auto p = BF::power(f0(sym(5)), 2, BF::f())(GridView{g}); CHECKM("power builds a dynamic power pre-basis of the given strategy", std::is_same_v<decltype(p), DynamicPowerPreBasis<BF::T, P0>>); CHECKM("on the given grid view from the given child", is(p.subPreBasis(), g, sym(5)) && p.gridView().tag == g && p.children() == 2); REACHED(1); }
IMS(POW)
#define COMP(T,f) O(comp_##f) { const int g = S(0); auto p = BF::composite(f0(sym(5)), f1(sym(6)), f0(sym(7)), BF::f())(GridView{g}); CHECKM("composite builds a composite pre-basis of the given strategy and children", std::is_same_v<decltype(p), CompositePreBasis<BF::T, P0, P1, P0>>); CHECKM("on the given grid view from the given children in their order", is(p.subPreBasis(_0), g, sym(5)) && is(p.subPreBasis(_1), g, sym(6)) && is(p.subPreBasis(_2), g, sym(7)) && p.gridView().tag == g); REACHED(1); }
COMP(BlockedLexicographic,blockedLexicographic) COMP(FlatLexicographic,flatLexicographic)
O(deprecated) { const int g = S(0); auto p = BF::power<3>(f0(sym(5)))(GridView{g}); auto c = BF::composite(f0(sym(5)), f1(sym(6)))(GridView{g}); auto d = BF::power(f0(sym(5)), 3)(GridView{g});
  CHECKM("default merging strategies", std::is_same_v<decltype(p), PowerPreBasis<BF::BlockedInterleaved, P0, 3>> && std::is_same_v<decltype(d), DynamicPowerPreBasis<BF::BlockedInterleaved, P0>> && std::is_same_v<decltype(c), CompositePreBasis<BF::BlockedLexicographic, P0, P1>>);
  CHECKM("on the given grid view from the given children", is(p.subPreBasis(), g, sym(5)) && is(d.subPreBasis(), g, sym(5)) && d.children() == 3 && is(c.subPreBasis(_0), g, sym(5)) && is(c.subPreBasis(_1), g, sym(6))); REACHED(1); }
// factories are reusable and copy what they need: the factory of an lvalue child, called twice
O(reuse) { auto c = f0(sym(5)); auto f = BF::power<2>(c, BF::flatLexicographic()); auto h = BF::composite(c, f, BF::blockedLexicographic()); auto p = h(GridView{(int)S(0)}), q = h(GridView{(int)S(1)});
  CHECKM("a factory can be called repeatedly", is(p.subPreBasis(_0), S(0), sym(5)) && is(q.subPreBasis(_0), S(1), sym(5)) && is(p.subPreBasis(_1).subPreBasis(), S(0), sym(5)) && is(q.subPreBasis(_1).subPreBasis(), S(1), sym(5))); REACHED(2); }
// update() and initializeIndices() of composed pre-bases reach every child
template<class B, class... C> void upd(B& b, int g, const C&... cs) { CHECKM("grid view is the updated one", b.gridView().tag == g); bool all = (... && (cs.gv.tag == g && cs.ini == g)); CHECKM("every child is updated and initialised", all); }
O(updpower) { auto b = BF::makeBasis(GridView{(int)S(0)}, BF::power<2>(f0(1), BF::flatLexicographic())); upd(b, S(0), b.preBasis().subPreBasis()); b.update(GridView{(int)S(1)}); upd(b, S(1), b.preBasis().subPreBasis()); REACHED(3); }
O(upddyn) { auto b = BF::makeBasis(GridView{(int)S(0)}, BF::power(f0(1), 2, BF::blockedLexicographic())); upd(b, S(0), b.preBasis().subPreBasis()); b.update(GridView{(int)S(1)}); upd(b, S(1), b.preBasis().subPreBasis()); REACHED(3); }
O(updcomp) { auto b = BF::makeBasis(GridView{(int)S(0)}, BF::composite(f0(1), BF::power<2>(f1(2), BF::flatInterleaved()), f1(3), BF::flatLexicographic())); auto& p = b.preBasis(); upd(b, S(0), p.subPreBasis(_0), p.subPreBasis(_1).subPreBasis(), p.subPreBasis(_2)); b.update(GridView{(int)S(1)}); upd(b, S(1), p.subPreBasis(_0), p.subPreBasis(_1).subPreBasis(), p.subPreBasis(_2)); REACHED(3); }
#endif
