// C01: update(gridView) leaves nothing derived from the previous grid view.
// w_ctor_<n>: which state of a pre-basis depends on the grid view at all
// w_upd_<n>:  state after update to a new grid view
#include "bases.hh"
template<class GV, class F> using PB_t = std::decay_t<decltype(std::declval<F>()(std::declval<const GV&>()))>;
template<class GV, class F> using GB_t = Dune::Functions::DefaultGlobalBasis<PB_t<GV,F>>;

#define X(n, GV, ...) \
  using F_##n = decltype(__VA_ARGS__); \
  extern "C" void w_ctor_##n(PB_t<GV,F_##n>* b, const GV& gv, const F_##n& fac) { new(b) PB_t<GV,F_##n>(fac(gv)); b->initializeIndices(); } \
  extern "C" void w_upd_##n(PB_t<GV,F_##n>& b, const GV& gv) { b.update(gv); b.initializeIndices(); }
#define XG(n, GV, ...) \
  using G_##n = decltype(__VA_ARGS__); \
  extern "C" void w_ctor_gb##n(GB_t<GV,G_##n>* b, const GV& gv, const G_##n& fac) { new(b) GB_t<GV,G_##n>(gv, fac); } \
  extern "C" void w_upd_gb##n(GB_t<GV,G_##n>& b, const GV& gv) { b.update(gv); }
#if PART==0
LEAF_BASES_A(X)
#elif PART==1
LEAF_BASES_B(X)
#elif PART==2
LEAF_BASES_C(X)
#elif PART==3
COMPOSED_BASES_A(X)
#elif PART==4
COMPOSED_BASES_B(X)
#elif PART==5
XG(lagrange2, GV2, BF::lagrange<2>())
XG(argyris, GV2, BF::argyris())
XG(nested, GV2, BF::composite(BF::power<2>(BF::lagrange<2>(), BF::flatInterleaved()), BF::lagrange<1>(), BF::blockedLexicographic()))
// restriction to a sub domain: two sources of grid data
struct SD { GV2 gridView() const; };
template<class F> using RPB = std::decay_t<decltype(Dune::Functions::Experimental::RestrictedPreBasis(std::declval<const GV2&>(), std::declval<F>()(std::declval<const GV2&>()), std::declval<const SD&>()))>;
using FL = decltype(BF::lagrange<2>());
extern "C" void w_ctor_restricted(RPB<FL>* b, const GV2& gv, const FL& fac, const SD& sd) { new(b) RPB<FL>(gv, fac(sd.gridView()), sd); b->initializeIndices(); }
extern "C" void w_upd_restricted(RPB<FL>& b, const GV2& gv) { b.update(gv); b.initializeIndices(); }
// index transformation
struct Tr { static constexpr std::size_t minIndexSize=1, maxIndexSize=1; template<class MI, class P> void transformIndex(MI&, const P&) const; template<class Pre, class P> std::size_t size(const Pre&, const P&) const; template<class P> std::size_t dimension(const P&) const; template<class P> auto containerDescriptor(const P&) const { return Dune::Functions::ContainerDescriptors::Unknown{}; } };
using TIP = Dune::Functions::Experimental::TransformedIndexPreBasis<PB_t<GV2,FL>, Tr>;
extern "C" void w_ctor_transformed(TIP* b, const GV2& gv, const FL& fac) { new(b) TIP(fac(gv), Tr()); b->initializeIndices(); }
extern "C" void w_upd_transformed(TIP& b, const GV2& gv) { b.update(gv); b.initializeIndices(); }
#endif
