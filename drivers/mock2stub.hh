// Stand-ins for dune-geometry's reference elements and dune-grid's entity mapper: those of the mock grid.
// Their include guards keep the originals out.
#ifndef VERIF_MOCK2STUB_HH
#define VERIF_MOCK2STUB_HH
#include <dune/grid/common/gridenums.hh>
#include "mock2.hh"
#define DUNE_GEOMETRY_REFERENCEELEMENTS_HH
#define DUNE_GRID_COMMON_MCMGMAPPER_HH
namespace Dune {
template<class ctype, int dim> mock2::RefElement referenceElement(const GeometryType& t) { return {t.isCube() ? 1 : 0}; }
template<class ctype, int dim> struct ReferenceElements { using ReferenceElement = mock2::RefElement; static ReferenceElement general(const GeometryType& t) { return {t.isCube() ? 1 : 0}; } };
template<class GV> struct MultipleCodimMultipleGeomTypeMapper {
  GV gv;
  template<class L> MultipleCodimMultipleGeomTypeMapper(const GV& g, L layout) : gv(g) {}
  static constexpr int off[3] = {0, mock2::NE, mock2::NE + mock2::NEDGE};
  std::size_t index(const mock2::Element& e) const { return e.id; }
  std::size_t subIndex(const mock2::Element& e, int i, unsigned c) const { return off[c] + mock2::sub(e.id, i, c); }
  std::size_t size() const { return mock2::NE + mock2::NEDGE + mock2::NVERT; }
};
}
#endif
