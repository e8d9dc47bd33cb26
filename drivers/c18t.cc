// C18: the Taylor-Hood basis has the structure composite(power<dim>(lagrange<2>, interleaved), lagrange<1>, blockedLexicographic)
#include "numbering.hh"
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
template<T t, bool HI> void taylorHood() {
  using GV = GVT<t>; constexpr int dim = dimOf[t]; GV gv; using namespace Dune::Indices;
  DefaultGlobalBasis<TaylorHoodPreBasis<GV,HI>> b(gv); LagrangePreBasis<GV,1> p1(gv); LagrangePreBasis<GV,2> p2(gv); p1.initializeIndices(); p2.initializeIndices(); auto n1 = p1.makeNode(); auto n2 = p2.makeNode();
  const std::size_t s1 = p1.size(), s2 = p2.size();
  CHECKM("dimension of the Taylor-Hood basis", b.dimension() == dim*s2 + s1);
  using SP = typename decltype(b)::SizePrefix;
  CHECKM("sizes of the Taylor-Hood basis", b.size() == 2 && b.size(SP{}) == 2 && b.size(SP{0}) == (HI ? s2 : dim*s2) && b.size(SP{1}) == s1 && b.size(SP{1, std::size_t(sym(5))}) == 0 && b.size(SP{0, std::size_t(sym(5))}) == (HI ? dim : 0));
  if constexpr (HI) CHECKM("size below a velocity component", b.size(SP{0, std::size_t(sym(5)), 0}) == 0);
  auto d = b.preBasis().containerDescriptor();
  CHECKM("container descriptor of the Taylor-Hood basis", d.size() == 2 && d[_0].size() == (HI ? s2 : dim*s2) && d[_1].size() == s1);
  if constexpr (HI) CHECKM("container descriptor of a velocity component", d[_0][0].size() == dim);
  Element<dim> e{t, sym(1)}; auto lv = b.localView(); lv.bind(e); n1.bind(e); n2.bind(e); MI i1[128], i2[128]; p1.indices(n1, &i1[0]); p2.indices(n2, &i2[0]);
  CHECKM("local size of the Taylor-Hood basis", lv.size() == dim*n2.size() + n1.size() && lv.size() <= lv.maxSize());
  const auto& tree = lv.tree();
  for (int c = 0; c < dim; ++c) { CHECKM("the velocity nodes have the quadratic functions", tree.child(_0, c).size() == n2.size());
    for (std::size_t i = 0; i < n2.size(); ++i) { auto m = lv.index(tree.child(_0, c).localIndex(i)); CHECKM("index of a velocity function", m.size() == (HI ? 3 : 2) && m[0] == 0); if constexpr (HI) CHECKM("index of a velocity function", m[1] == i2[i][0] && int(m[2]) == c); else CHECKM("index of a velocity function", m[1] == dim*i2[i][0] + c); } }
  CHECKM("the pressure node has the linear functions", tree.child(_1).size() == n1.size());
  for (std::size_t i = 0; i < n1.size(); ++i) { auto m = lv.index(tree.child(_1).localIndex(i)); CHECKM("index of a pressure function", m.size() == 2 && m[0] == 1 && m[1] == i1[i][0]); }
  REACHED(1);
}
#if PART==0
O(tht) { taylorHood<tri,false>(); }
#elif PART==1
O(thtH) { taylorHood<tri,true>(); }
#elif PART==2
O(thq) { taylorHood<quad,false>(); }
#elif PART==3
O(thqH) { taylorHood<quad,true>(); }
#endif
