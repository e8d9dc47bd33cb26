// C17: sub-domains and their interfaces; DOFs of sub-entities and of the boundary
#include "mock2stub.hh"
#include <dune/functions/common/subdomain.hh>
#if PART>3
#include "mock2basis.hh"
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
namespace F = Dune::Functions; namespace BF = Dune::Functions::BasisFactory;
#endif
namespace X = Dune::Functions::Experimental;
using namespace mock2;
#define O(n) extern "C" void o_##n()
using SD = X::SubDomain<GridView>;
template<int... order> struct Seq { static constexpr bool has(int e) { return ((order == e) || ... || false); }
  static constexpr bool hasSub(int g, int c) { for (int e = 0; e < NE; ++e) if (has(e)) for (int k = 0; k < nsub[shape[e]][c]; ++k) if (sub(e, k, c) == g) return true; return false; }
  static constexpr int count(int c) { int n = 0; for (int g = 0; g < total[c]; ++g) n += hasSub(g, c); return n; }
  static constexpr int countEl(int s) { int n = 0; for (int e = 0; e < NE; ++e) n += has(e) && shape[e] == s; return n; }
  static void fill(SD& sd) { (sd.insertElement(Element{order}), ...); } };
constexpr auto IDX = "indices are consecutive, start at zero and are unique per geometry type";
template<class S, class IS> void indexSet(const IS& is) {
  for (int e = 0; e < NE; ++e) CHECKM("an element is contained if and only if it was inserted", is.contains(Element{e}) == S::has(e));
  CHECKM("size(codim) counts the entities of the sub-domain", is.size(0) == S::count(0) && is.size(1) == S::count(1) && is.size(2) == S::count(2));
  CHECKM("size(type) counts the entities of the sub-domain", is.size(Dune::GeometryTypes::triangle) == S::countEl(0) && is.size(Dune::GeometryTypes::quadrilateral) == S::countEl(1) && is.size(Dune::GeometryTypes::line) == S::count(1) && is.size(Dune::GeometryTypes::vertex) == S::count(2) && is.size(Dune::GeometryTypes::tetrahedron) == 0);
  // per type: slots
  int owner[4][8]; for (auto& o : owner) for (int& x : o) x = -1;
  long idx[3][8]; for (auto& o : idx) for (long& x : o) x = -1;
  for (int e = 0; e < NE; ++e) if (S::has(e)) for (int c = 0; c < 3; ++c) for (int k = 0; k < nsub[shape[e]][c]; ++k) {
    int g = sub(e, k, c); std::size_t i = is.subIndex(Element{e}, k, c); int t = c ? c - 1 : 2 + shape[e];
    CHECKM(IDX, i < is.size(RefElement{shape[e]}.type(k, c)));
    CHECKM("an entity has the same index from all its elements", idx[c][g] == -1 || idx[c][g] == long(i));
    if (idx[c][g] == -1) { CHECKM(IDX, owner[t][i] == -1); owner[t][i] = g; idx[c][g] = i; }
    if (c == 0) CHECKM("index(e) is subIndex(e,0,0)", is.index(Element{e}) == i && is.template index<0>(Element{e}) == i); CHECKM("both forms of subIndex agree", is.template subIndex<0>(Element{e}, k, c) == i);
  }
  constexpr auto TY = "types(codim) lists each present type once";
  for (int c = 0; c < 3; ++c) { auto t = is.types(c); int n = c == 0 ? (S::countEl(0) > 0) + (S::countEl(1) > 0) : S::count(c) > 0; CHECKM(TY, int(t.size()) == n);
    bool tri = false, quad = false; for (const auto& x : t) { if (c) CHECKM(TY, x == RefElement{0}.type(0, c)); else { if (x == RefElement{0}.type()) { CHECKM(TY, !tri && S::countEl(0)); tri = true; } else { CHECKM(TY, x == RefElement{1}.type() && !quad && S::countEl(1)); quad = true; } } } }
}
template<class S> void view(const SD& sd) {
  auto gv = sd.gridView(); auto gv2 = gv;
  CHECKM("the grid view refers to the sub-domain's index set", &gv.indexSet() == &sd.indexSet() && &gv2.indexSet() == &sd.indexSet());
  for (int c = 0; c < 3; ++c) CHECKM("sizes of the grid view are those of the index set", gv.size(c) == int(sd.indexSet().size(c))); CHECKM("sizes of the grid view are those of the index set", gv.size(Dune::GeometryTypes::triangle) == S::countEl(0));
  CHECKM("the host grid view is kept", gv.hostGridView().tag == 77 && sd.hostGridView().tag == 77);
  for (int e = 0; e < NE; ++e) CHECKM("contains() of domain and view agree with the inserted elements", sd.contains(Element{e}) == S::has(e) && gv.contains(Element{e}) == S::has(e));
  int want = 0; auto next = [&] { while (want < NE && !S::has(want)) ++want; };
  constexpr auto EL = "the element range visits the inserted elements in the host's order, once each";
  next(); for (auto&& e : elements(gv)) { CHECKM(EL, want < NE && e.id == want); ++want; next();
    int k = 0; for (auto&& is : intersections(gv, e)) { CHECKM("the intersections are those of the host grid view", is.e == e.id && is.k == k); ++k; } CHECKM("the intersections are those of the host grid view", k == nsub[shape[e.id]][1]); } CHECKM(EL, want == NE);
#ifdef TEMPORARY
  static_assert(!std::is_reference_v<decltype(*gv.template begin<0>())>, "PROPERTY: the element iterator does not return a reference to a temporary of the host iterator");
#endif
  want = 0; next(); for (auto&& e : elements(gv, Dune::Partitions::all)) { CHECKM(EL, want < NE && e.id == want); ++want; next(); } CHECKM(EL, want == NE);
}
template<int... o> void domain() { using S = Seq<o...>; GridView gv; gv.tag = 77; SD sd(gv); S::fill(sd); indexSet<S>(sd.indexSet()); view<S>(sd); REACHED(1); }
// a copy of a sub-domain is one of its own
template<int a, int b> void domainCopy() { using S = Seq<a>; GridView gv; gv.tag = 77; SD sd(gv); S::fill(sd); SD cp(sd); cp.insertElement(Element{b}); indexSet<S>(sd.indexSet()); indexSet<Seq<a,b>>(cp.indexSet()); view<Seq<a,b>>(cp); REACHED(1); }
template<class A, class B> void interface() {
  GridView gv; SD a(gv), b(gv); A::fill(a); B::fill(b); X::SubDomainInterface<SD,SD> f(a, b); X::SubDomainSkeleton<SD> sk(a);
  for (int e = 0; e < NE; ++e) for (int k = 0; k < nsub[shape[e]][1]; ++k) { Intersection is{e, k}; int o = neighbor_[e][k];
    bool ab = o >= 0 && A::has(e) && B::has(o), ba = o >= 0 && B::has(e) && A::has(o);
    CHECKM("contains(): inside and outside are in A and B, in any order", f.contains(is) == (ab || ba));
    if (ab || ba) CHECKM("isOriented(): inside in A, outside in B", f.isOriented(is) == ab);
    CHECKM("skeleton: inside and outside are in the sub-domain", sk.contains(is) == (o >= 0 && A::has(e) && A::has(o))); }
  constexpr auto IT = "the interface range visits each intersection from A to B once";
  int we = 0, wk = -1; auto next = [&] { while (true) { ++wk; if (wk >= nsub[shape[we]][1]) { ++we; wk = 0; } if (we >= NE) return; if (A::has(we) && neighbor_[we][wk] >= 0 && B::has(neighbor_[we][wk])) return; } };
  next(); for (auto&& is : f) { CHECKM(IT, we < NE && is.e == we && is.k == wk); next(); } CHECKM(IT, we >= NE);
  REACHED(1); }
#define T(n, ...) O(n) { domain<__VA_ARGS__>(); }
#if PART==0
T(d0, ) T(d1, 0) T(d2, 1) T(d3, 2) T(d4, 0,1) T(d5, 1,0)
#elif PART==1
T(d6, 1,2) T(d7, 2,0) T(d8, 0,0) T(d9, 2,1,2) O(cp01) { domainCopy<0,1>(); } O(cp22) { domainCopy<2,2>(); }
#elif PART==2
T(d10, 0,1,2) T(d11, 2,0,1) T(d12, 1,2,0,1)
#elif PART==3
#define I(n, A, B) O(n) { interface<Seq<A>,Seq<B>>(); }
#define C ,
I(i0, 0, 1) I(i1, 1, 0) I(i2, 0 C 1, 2) I(i3, 2, 0) I(i4, , 0) I(i5, 0, ) I(i6, 1, 0 C 2) I(i7, 0 C 2, 1) I(i8, 0 C 1, 1 C 2) I(i9, 0 C 1 C 2, 0 C 1 C 2)
// queries of entities outside of the sub-domain
O(x0) { GridView gv; SD sd(gv); sd.insertElement(Element{0}); bool ok = false; try { sd.indexSet().index(Element{1}); } catch (...) { ok = true; } CHECKM("index() of an entity outside throws", ok); REACHED(1); }
O(x1) { GridView gv; SD sd(gv); sd.insertElement(Element{0}); bool ok = false; try { sd.indexSet().subIndex(Element{1}, 2, 1); } catch (...) { ok = true; } CHECKM("subIndex() of an entity outside throws", ok); REACHED(1); }
O(x2) { GridView gv; SD sd(gv); sd.insertElement(Element{0}); std::size_t i = sd.indexSet().subIndex(Element{1}, 1, 1); CHECKM("a shared edge is contained", i == sd.indexSet().subIndex(Element{0}, 1, 1)); REACHED(1); }
#else
// the leaves of a tree in order, as (K, local offset)
template<int... K> struct Leaves {
  static constexpr int n = sizeof...(K); static constexpr int k[] = {K...};
  static constexpr int size(int q, int s) { int r = 0, p = 0; ((p++ == q ? r = fesize<K>(s) : 0), ...); return r; }
  static constexpr std::array<int,2> key(int q, int s, int i) { std::array<int,2> r{}; int p = 0; ((p++ == q ? (r = fekey<K>(s, i), 0) : 0), ...); return r; }
  static constexpr int total(int s) { int r = 0; for (int q = 0; q < n; ++q) r += size(q, s); return r; }
  // is the DOF with local index l in the closure of sub-entity (j,c)?
  static constexpr bool in(int s, int j, int c, int l) { for (int q = 0; q < n; ++q) { if (l < size(q, s)) { auto x = key(q, s, l); return subIn(s, j, c, x[0], x[1]); } l -= size(q, s); } return false; }
};
template<class L, class R> void range(const R& r, int s, int j, int c) {
  constexpr auto DF = "the range holds the DOFs of the closure of the sub-entity, once each";
  int cnt = 0; for (int l = 0; l < L::total(s); ++l) { bool in = L::in(s, j, c, l); cnt += in; CHECKM("contains() tells whether a DOF belongs to the closure of the sub-entity", r.contains(l) == in); }
  CHECKM(DF, int(r.size()) == cnt);
  bool seen[40] = {}; int k = 0; for (auto l : r) { CHECKM(DF, int(l) < L::total(s) && L::in(s, j, c, int(l)) && !seen[l]); seen[l] = true; CHECKM("operator[] is the i-th entry of the range", r[k] == l); ++k; } CHECKM(DF, k == cnt);
}
template<class B> auto basis(const B& factory) { GridView gv; gv.tag = 77; return F::DefaultGlobalBasis(factory(gv)); }
template<class L, class B> void subEntities(const B& f) {
  auto b = basis(f); auto lv = b.localView(); lv.bind(Element{0}); auto d = F::subEntityDOFs(b);
  range<L>(d.bind(lv, 1, 1), 1, 1, 1); range<L>(d.bind(lv, 3, 2), 1, 3, 2); range<L>(d, 1, 3, 2);
  lv.bind(Element{2}); range<L>(d.bind(lv, Intersection{2, 1}), 0, 1, 1);
  range<L>(F::subEntityDOFs(lv, 0, 0), 0, 0, 0); range<L>(F::subEntityDOFs(lv, 2, 2), 0, 2, 2); range<L>(F::subEntityDOFs(lv, Intersection{2, 2}), 0, 2, 1);
  REACHED(1); }
// every (element, boundary intersection, DOF) is visited exactly once
template<class L> struct Visit { int n[NE][4][40] = {};
  void done() { for (int e = 0; e < NE; ++e) for (int k = 0; k < nsub[shape[e]][1]; ++k) for (int l = 0; l < L::total(shape[e]); ++l) CHECKM("exactly the DOFs of the closure of each boundary intersection are visited", n[e][k][l] == (neighbor_[e][k] == -1 && L::in(shape[e], k, 1, l))); } };
template<class L, class B> void boundary3(const B& f) { auto b = basis(f); Visit<L> v;
  F::forEachBoundaryDOF(b, [&](auto l, auto&& lv, auto&& is) { CHECKM("the local view is bound to the inside of the intersection", lv.bound() && lv.element() == is.inside()); CHECKM("the local index is valid", l < lv.size()); CHECKM("only boundary intersections are visited", is.boundary()); ++v.n[is.e][is.k][l]; });
  v.done(); REACHED(1); }
template<class L, class B> void boundary2(const B& f) { auto b = basis(f); int n[NE][40] = {};
  F::forEachBoundaryDOF(b, [&](auto l, auto&& lv) { CHECKM("the local index is valid", lv.bound() && l < lv.size()); ++n[lv.element().id][l]; });
  for (int e = 0; e < NE; ++e) for (int l = 0; l < L::total(shape[e]); ++l) { int m = 0; for (int k = 0; k < nsub[shape[e]][1]; ++k) m += neighbor_[e][k] == -1 && L::in(shape[e], k, 1, l); CHECKM("exactly the boundary DOFs are visited", (n[e][l] > 0) == (m > 0)); } REACHED(1); }
template<class L, int K, class B> void boundary1(const B& f) { auto b = basis(f); int n[NE][40] = {};
  F::forEachBoundaryDOF(b, [&](auto&& mi) { int g = int(mi[0]); CHECKM("the global index is that of a DOF", g/1000 == K); ++n[g/100%10][g%100]; });
  for (int e = 0; e < NE; ++e) for (int l = 0; l < L::total(shape[e]); ++l) { int m = 0; for (int k = 0; k < nsub[shape[e]][1]; ++k) m += neighbor_[e][k] == -1 && L::in(shape[e], k, 1, l); CHECKM("exactly the global indices of boundary DOFs are visited", (n[e][l] > 0) == (m > 0)); } REACHED(1); }
#define PW2 BF::power<2>(pre<1>(), BF::flatLexicographic())
#define CMP BF::composite(pre<0>(), BF::power<2>(pre<1>(), BF::flatLexicographic()), pre<3>(), BF::flatLexicographic())
#if PART==4
O(s0) { subEntities<Leaves<0>>(pre<0>()); } O(s1) { subEntities<Leaves<1>>(pre<1>()); } O(s2) { subEntities<Leaves<2>>(pre<2>()); } O(s3) { subEntities<Leaves<3>>(pre<3>()); } O(s4) { subEntities<Leaves<4>>(pre<4>()); }
#elif PART==5
O(sp) { subEntities<Leaves<1,1>>(PW2); } O(sc) { subEntities<Leaves<0,1,1,3>>(CMP); }
#elif PART==6
O(b30) { boundary3<Leaves<0>>(pre<0>()); } O(b31) { boundary3<Leaves<1>>(pre<1>()); } O(b20) { boundary2<Leaves<0>>(pre<0>()); } O(b11) { boundary1<Leaves<1>,1>(pre<1>()); } O(b10) { boundary1<Leaves<0>,0>(pre<0>()); }
#elif PART==7
O(b3p) { boundary3<Leaves<1,1>>(PW2); } O(b3s) { auto b = basis(PW2); auto sb = F::subspaceBasis(b, 1); int n[NE][40] = {};
  F::forEachBoundaryDOF(sb, [&](auto l, auto&& lv, auto&& is) { CHECKM("only the DOFs of the subspace are visited", int(l) >= nsub[shape[is.e]][1] && int(l) < 2*nsub[shape[is.e]][1]); ++n[is.e][l]; });
  for (int e = 0; e < NE; ++e) for (int k = 0; k < nsub[shape[e]][1]; ++k) CHECKM("all boundary DOFs of the subspace are visited", n[e][nsub[shape[e]][1] + k] == (neighbor_[e][k] == -1)); REACHED(1); }
#elif PART==8
// a basis restricted to a sub-domain next to one on the whole domain: (restricted power<2> of K1, then K0)
using Out = Leaves<0>; using In = Leaves<1,1,0>;
template<class B> void restricted(const B& b, const SD& sd, int e, bool in) {
  auto lv = b.localView(); lv.bind(Element{e}); int s = shape[e], n = nsub[s][1];
  auto check = [&](const auto& lv, int e, bool in) { int n = nsub[shape[e]][1]; const auto& t = lv.tree(); const auto& r = t.child(Dune::Indices::_0); const auto& o = t.child(Dune::Indices::_1);
    constexpr auto SZ = "the restricted node has functions on the elements of the sub-domain only";
    CHECKM(SZ, int(r.size()) == (in ? 2*n : 0) && r.empty() == !in && int(r.child(0).size()) == (in ? n : 0) && int(r.child(1).size()) == (in ? n : 0));
    CHECKM("the functions of the other nodes follow those of the restricted one", int(lv.size()) == (in ? 3*n : n) && int(o.size()) == n && int(o.localIndex(0)) == (in ? 2*n : 0));
    if (in) for (int c = 0; c < 2; ++c) for (int i = 0; i < n; ++i) { auto m = lv.index(r.child(c).localIndex(i)); CHECKM("the indices of the restricted node are those of the sub-domain basis", m[0] == 0 && m[1] == gidx(1, e, i) + 5000*c); }
    for (int i = 0; i < n; ++i) { auto m = lv.index(o.localIndex(i)); CHECKM("the indices of the other nodes do not depend on the restriction", m[0] == 1 && m[1] == gidx(0, e, i)); }
    CHECKM("the node knows its sub-domain", &r.subDomain() == &sd); };
  check(lv, e, in);
  // rebinding in and out
  lv.bind(Element{1}); check(lv, 1, true); lv.bind(Element{e}); check(lv, e, in);
  // DOFs of sub-entities skip the empty node
  auto d = F::subEntityDOFs(lv, 1, 1); if (in) range<In>(d, s, 1, 1); else range<Out>(d, s, 1, 1);
}
template<int k> auto restrictedTest() { GridView gv; gv.tag = 77; SD sd(gv); sd.insertElement(Element{1}); if (k == 2) sd.insertElement(Element{0});
  F::DefaultGlobalBasis b(BF::composite(X::BasisFactory::restrict(BF::power<2>(pre<1>(), BF::flatLexicographic()), sd), pre<0>(), BF::blockedLexicographic())(gv));
  const auto& p = b.preBasis().subPreBasis(Dune::Indices::_0);
  CHECKM("the restricted pre-basis lives on the whole grid view, its sub-domain basis on the sub-domain", p.gridView().tag == 77 && &p.subDomainPreBasis().gridView().indexSet() == &sd.indexSet());
  CHECKM("sizes are those of the sub-domain basis", p.size() == 10000 && p.dimension() == 10000 && int(p.maxNodeSize()) == 2*fesize<1>(1));
  restricted(b, sd, 0, k == 2); REACHED(1); }
// the same with the restricted node behind one on the whole domain
template<int k> auto restrictedBehind() { GridView gv; SD sd(gv); sd.insertElement(Element{1});
  F::DefaultGlobalBasis b(BF::composite(pre<0>(), X::BasisFactory::restrict(BF::power<2>(pre<1>(), BF::flatLexicographic()), sd), pre<3>(), BF::blockedLexicographic())(gv));
  auto lv = b.localView(); lv.bind(Element{1 - k}); int n = nsub[shape[1-k]][1]; if (k == 1) { lv.bind(Element{1}); lv.bind(Element{0}); }
  const auto& t = lv.tree(); const auto& r = t.child(Dune::Indices::_1);
  CHECKM("offsets are those of consecutive numbering", int(r.localIndex(0)) == n && int(r.child(0).localIndex(0)) == n && int(r.child(1).localIndex(0)) == (k ? n : 2*n) && int(t.child(Dune::Indices::_2).localIndex(0)) == (k ? n : 3*n) && int(lv.size()) == (k ? n + 1 : 3*n + 1)); REACHED(1); }
O(rb0) { restrictedBehind<0>(); } O(rb1) { restrictedBehind<1>(); }
O(r1) { restrictedTest<1>(); } O(r2) { restrictedTest<2>(); }
#endif
#endif
