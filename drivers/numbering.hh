// the numbering obligations of a leaf basis on the one-element mock grid
#ifndef VERIF_NUMBERING_HH
#define VERIF_NUMBERING_HH
#include "mock3.hh"
#include <dune/common/reservedvector.hh>
#ifdef CONCRETE
#define EID(k) (pre.gridView().cfg)
#else
#define EID(k) sym(k)
#endif
namespace Dune::Functions {}
using namespace mock3; using namespace Dune::Functions; using namespace refel;
#define O(n) extern "C" void o_##n()
using MI = std::array<std::size_t,1>;
// SHARED: functions of sub-entities are shared; otherwise all belong to the element
template<class Pre, bool SHARED = true> void numbering(Pre pre) {
  using GV = typename Pre::GridView; constexpr int dim = GV::dimension; using Ty = std::remove_cvref_t<decltype([]<class X>(mock3::GridView<X>) { return X{}; }(GV{}))>;
  pre.initializeIndices(); auto node = pre.makeNode();
  int block[NT]; for (int& b : block) b = -1;
  constexpr auto CNT = "sub-entities of one geometry type have the same number of functions";
  for (int q = 0; q < Ty::n; ++q) { const T t = Ty::t[q]; Element<dim> e{t, EID(1)}; node.bind(e); const auto& lc = node.finiteElement().localCoefficients();
    CHECKM("the node has the functions of its finite element", node.size() == lc.size() && node.size() == node.finiteElement().size() && &node.element() == &e && node.finiteElement().type() == e.type());
    CHECKM("maxNodeSize() is a bound of the size of the node", node.size() <= pre.maxNodeSize());
    for (int c = 0; c <= dim; ++c) for (int s = 0; s < nsub(t, c); ++s) { int n = 0; if (SHARED) { for (std::size_t i = 0; i < lc.size(); ++i) n += int(lc.localKey(i).subEntity()) == s && int(lc.localKey(i).codim()) == c; } else if (c == 0) n = int(lc.size());
      T u = topoSub(t, s, c); CHECKM(CNT, block[u] < 0 || block[u] == n); block[u] = n; } }
  std::size_t off[NT] = {}, total = 0; for (int c = 0; c <= dim; ++c) for (int q = 0; q < NT; ++q) if (dimOf[q] == dim - c && block[q] > 0) { off[q] = total; total += block[q]*SZE(0, q, dim); }
  CHECKM("dimension() is the number of functions of all entities", pre.dimension() == total && pre.size() == total);
  CHECKM("a flat basis has one level", pre.size(Dune::ReservedVector<std::size_t,1>{}) == total && pre.size(Dune::ReservedVector<std::size_t,1>{std::size_t(sym(9))}) == 0 && pre.containerDescriptor().size() == total);
  for (int q = 0; q < Ty::n; ++q) { const T t = Ty::t[q]; Element<dim> e{t, EID(2)}; node.bind(e); const auto& lc = node.finiteElement().localCoefficients();
    MI idx[128]; auto end = pre.indices(node, &idx[0]); CHECKM("indices() returns the end of the written range", end == &idx[0] + lc.size());
    int p[128];
    for (std::size_t i = 0; i < lc.size(); ++i) { auto k = lc.localKey(i); T u = SHARED ? topoSub(t, k.subEntity(), k.codim()) : t;
      std::size_t base = off[u] + block[u]*(SHARED ? SI(e.id, k.subEntity(), CV(k.codim(), dim)) : SI(e.id, 0, 0)); bool found = false;
      for (int j = 0; j < block[u]; ++j) if (idx[i][0] == base + j) { p[i] = j; found = true; break; }
      CHECKM("the index of a function is in the block of its sub-entity", found);
      for (std::size_t j = 0; j < i; ++j) if (!SHARED || (lc.localKey(j).subEntity() == k.subEntity() && lc.localKey(j).codim() == k.codim())) CHECKM("functions of one sub-entity have different indices", p[j] != p[i]); } }
  REACHED(1);
}
template<T... t> using GVT = mock3::GridView<Types<t...>>;
#endif
