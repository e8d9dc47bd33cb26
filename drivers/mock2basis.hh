// Leaf pre-bases on the two-dimensional mock grid with given local keys; global index of function i of element e: tag K, e, i.
#ifndef VERIF_MOCK2BASIS_HH
#define VERIF_MOCK2BASIS_HH
#include "mock2.hh"
#include <dune/localfunctions/common/localkey.hh>
#include <dune/localfunctions/common/localfiniteelementtraits.hh>
#include <dune/localfunctions/common/localbasis.hh>
#include <dune/functions/functionspacebases/nodes.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
namespace mock2 {
// K=0: vertices; 1: edges; 2: edges first, then vertices backwards, then two in the interior; 3: interior; 4: one per edge, two per vertex, interleaved
template<int K> constexpr int fesize(int s) { int n = nsub[s][1]; return K == 0 || K == 1 ? n : K == 2 ? 2*n + 2 : K == 3 ? 1 : 3*n; }
template<int K> constexpr std::array<int,2> fekey(int s, int i) { int n = nsub[s][1];   // sub-entity, codim
  if (K == 0) return {i, 2}; if (K == 1) return {i, 1}; if (K == 3) return {0, 0};
  if (K == 2) return i < n ? std::array<int,2>{i, 1} : i < 2*n ? std::array<int,2>{2*n - 1 - i, 2} : std::array<int,2>{0, 0};
  return i % 3 == 1 ? std::array<int,2>{i/3, 1} : std::array<int,2>{i/3, 2}; }
template<int K> struct FE {
  struct LB { using Traits = Dune::LocalBasisTraits<double,2,Coord,double,1,Dune::FieldVector<double,1>,Dune::FieldMatrix<double,1,2>>; int s; unsigned size() const { return fesize<K>(s); } unsigned order() const { return 1; } };
  struct LC { int s; std::size_t size() const { return fesize<K>(s); } Dune::LocalKey localKey(std::size_t i) const { auto k = fekey<K>(s, int(i)); return Dune::LocalKey(k[0], k[1], 0); } };
  struct LI {};
  using Traits = Dune::LocalFiniteElementTraits<LB, LC, LI>;
  int s = 0; LB lb{0}; LC lc{0}; LI li;
  const LB& localBasis() const { return lb; } const LC& localCoefficients() const { return lc; } const LI& localInterpolation() const { return li; }
  unsigned size() const { return fesize<K>(s); } Dune::GeometryType type() const { return RefElement{s}.type(); }
};
template<int K> struct Node : Dune::Functions::LeafBasisNode {
  using Element = mock2::Element; using FiniteElement = FE<K>;
  const Element* e_ = nullptr; FiniteElement fe;
  const Element& element() const { return *e_; }
  const FiniteElement& finiteElement() const { return fe; }
  void bind(const Element& e) { e_ = &e; fe.s = fe.lb.s = fe.lc.s = shape[e.id]; this->setSize(fesize<K>(shape[e.id])); }
};
constexpr std::size_t gidx(int K, int e, int i) { return 1000*K + 100*e + i; }
template<int K, class GV = mock2::GridView> struct Pre {
  using GridView = GV; using size_type = std::size_t; using Node = mock2::Node<K>;
  static constexpr size_type maxMultiIndexSize = 1, minMultiIndexSize = 1, multiIndexBufferSize = 1;
  GridView gv; Pre(const GridView& g) : gv(g) {}
  void initializeIndices() {} const GridView& gridView() const { return gv; } void update(const GridView& g) { gv = g; }
  Node makeNode() const { return {}; }
  size_type size() const { return 5000; } template<class P> size_type size(const P& p) const { return p.size() ? 0 : 5000; }
  size_type dimension() const { return 5000; } size_type maxNodeSize() const { return fesize<K>(1); }
  template<class Nd, class It> It indices(const Nd& n, It it) const { for (std::size_t i = 0; i < n.size(); ++i, ++it) *it = {{gidx(K, n.element().id, int(i))}}; return it; }
  auto containerDescriptor() const { return Dune::Functions::ContainerDescriptors::FlatVector(5000); }
};
template<int K> auto pre() { return [](const auto& gv) { return Pre<K, std::decay_t<decltype(gv)>>(gv); }; }
}
#endif
