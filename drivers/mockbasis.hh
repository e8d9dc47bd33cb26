// A leaf pre-basis on the mock grid: shape functions, interpolation and global indices are uninterpreted functions.
#ifndef VERIF_MOCKBASIS_HH
#define VERIF_MOCKBASIS_HH
#include "mock.hh"
#include <vector>
#include <dune/common/reservedvector.hh>
#include <dune/localfunctions/common/localkey.hh>
#include <dune/localfunctions/common/localfiniteelementtraits.hh>
#include <dune/localfunctions/common/localbasis.hh>
#include <dune/functions/functionspacebases/nodes.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
namespace mock {
inline double num(double x) { return x; } inline double num(const Coord& x) { return x[0]; } inline double num(const Dune::FieldMatrix<double,1,1>& x) { return x[0][0]; }
template<int K, int N> struct FE {
  struct LB {
    using Traits = Dune::LocalBasisTraits<double,1,Coord,double,1,Dune::FieldVector<double,1>,Dune::FieldMatrix<double,1,1>>;
    unsigned size() const { return N; } unsigned order() const { return 1; }
    void evaluateFunction(const Coord& x, std::vector<Dune::FieldVector<double,1>>& out) const { out.resize(N); for (int i = 0; i < N; ++i) out[i] = feval(500 + K, i, x[0]); }
    void evaluateJacobian(const Coord& x, std::vector<Dune::FieldMatrix<double,1,1>>& out) const { out.resize(N); for (int i = 0; i < N; ++i) out[i] = feval(520 + K, i, x[0]); }
  };
  struct LC { std::size_t size() const { return N; } Dune::LocalKey localKey(std::size_t i) const { return Dune::LocalKey(i % 2, 1, i / 2); } };
  // interpolation functional i: value at an uninterpreted point, scaled by an uninterpreted weight
  struct LI { template<class F, class C> void interpolate(const F& f, std::vector<C>& out) const { out.resize(N); for (int i = 0; i < N; ++i) out[i] = f(Coord(feval(540 + K, i, 0))); } };
#ifdef LI_DERIVATIVE
  struct DI { template<class F, class C> void interpolate(const F& f, std::vector<C>& out) const { out.resize(N); auto df = derivative(f); for (int i = 0; i < N; ++i) out[i] = f(Coord(feval(540 + K, i, 0))) + 3*num(df(Coord(feval(560 + K, i, 0)))); } };
#define LI DI
#endif
  using Traits = Dune::LocalFiniteElementTraits<LB, LC, LI>;
  LB lb; LC lc; LI li;
  const LB& localBasis() const { return lb; } const LC& localCoefficients() const { return lc; } const LI& localInterpolation() const { return li; }
  unsigned size() const { return N; } Dune::GeometryType type() const { return Dune::GeometryTypes::line; }
};
template<int K, int N> struct Node : Dune::Functions::LeafBasisNode {
  using Element = mock::Element; using FiniteElement = FE<K,N>;
  const Element* e_ = nullptr; FiniteElement fe;
  const Element& element() const { return *e_; }
  const FiniteElement& finiteElement() const { return fe; }
  void bind(const Element& e) { e_ = &e; this->setSize(N); }
};
// K: tag, W: number of index digits, N: local size
template<int K, int W, int N> struct Pre {
  using GridView = mock::GridView; using size_type = std::size_t; using Node = mock::Node<K,N>;
  static constexpr size_type maxMultiIndexSize = W, minMultiIndexSize = W, multiIndexBufferSize = W;
  GridView gv; Pre(const GridView& g) : gv(g) {}
  void initializeIndices() {} const GridView& gridView() const { return gv; } void update(const GridView& g) { gv = g; }
  Node makeNode() const { return {}; }
  static size_type digit(long id, int i, int d) { return (size_type)ieval(600 + K*10 + d, id, i) & 0xffff; }
#ifdef CDIGITS
  // consecutive numbering of the elements' functions in the last digit
  static size_type dig(const Element& e, int i, int d) { return d + 1 == W ? e.ord*N + i : e.ord; }
#else
  static size_type dig(const Element& e, int i, int d) { return digit(e.id, i, d); }
#endif
  static size_type sz(int d, long p) { return (size_type)ieval(700 + K*10 + d, p, 0) & 0xffff | 1; }
  size_type size() const { return sz(0, 0); }
  template<class P> size_type size(const P& p) const {
    if (p.size() == 0) return sz(0, 0);
    if constexpr (W > 1) if (p.size() == 1) return sz(1, p[0]);
    if (p.size() > W) return sz(9, 0);     // never asked for
    return 0; }
  size_type dimension() const { return (size_type)ieval(790 + K, 0, 0) & 0xffff; }
  size_type maxNodeSize() const { return N; }
  template<class Nd, class It> It indices(const Nd& n, It it) const { for (int i = 0; i < N; ++i, ++it) { auto&& m = *it; m.resize(W); for (int d = 0; d < W; ++d) m[d] = dig(n.element(), i, d); } return it; }
  auto containerDescriptor() const { if constexpr (W == 1) return Dune::Functions::ContainerDescriptors::FlatVector(size()); else return Dune::Functions::ContainerDescriptors::Unknown{}; }
};
}
#endif
