// A two-dimensional mock grid: a quadrilateral and two triangles, all topology in constant tables.
//   2---3---5      edge 1 is shared by elements 0 and 1, edge 5 by elements 1 and 2,
//   |   |\  |      edge 6 is neither a boundary nor has it a neighbour, all other edges are boundary
//   0---1--4
#ifndef VERIF_MOCK2_HH
#define VERIF_MOCK2_HH
#include "m2.hh"
#include <array>
#include <cstddef>
#include <iterator>
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/type.hh>
#include <dune/grid/common/gridenums.hh>
namespace mock2 {
using Coord = Dune::FieldVector<double,2>;
// reference elements: shape 0 triangle, 1 quadrilateral
constexpr int nsub[2][3] = {{1,3,3},{1,4,4}};
constexpr int edgeVert[2][4][2] = {{{0,1},{0,2},{1,2},{0,0}},{{0,2},{1,3},{0,1},{2,3}}};
// is sub-entity (j,cc) contained in sub-entity (i,c)?
constexpr bool subIn(int s, int i, int c, int j, int cc) {
  if (c == 0) return i == 0 && j >= 0 && j < nsub[s][cc];
  if (cc < c) return false;
  if (cc == c) return i == j;
  return edgeVert[s][i][0] == j || edgeVert[s][i][1] == j; }
struct SubEntities { int s, i, c, cc; bool contains(std::size_t j) const { return subIn(s, i, c, int(j), cc); } };
constexpr Dune::GeometryType types[4] = {Dune::GeometryTypes::triangle, Dune::GeometryTypes::quadrilateral, Dune::GeometryTypes::line, Dune::GeometryTypes::vertex};
struct RefElement {
  int s;
  int size(int c) const { return nsub[s][c]; }
  const Dune::GeometryType& type(int i, int c) const { return types[c ? c + 1 : s]; }
  const Dune::GeometryType& type() const { return types[s]; }
  SubEntities subEntities(int i, int c, int cc) const { return {s, i, c, cc}; }
  int subEntity(int i, int c, int j, int cc) const { return c == 0 ? j : cc == c ? i : edgeVert[s][i][j]; }
  int size(int i, int c, int cc) const { return c == 0 ? nsub[s][cc] : cc == c ? 1 : 2; }
};
constexpr int NE = 3, NEDGE = 8, NVERT = 6;
constexpr int shape[NE] = {1, 0, 0};
constexpr int vert[NE][4] = {{0,1,2,3},{1,4,3,-1},{4,5,3,-1}};
constexpr int edge[NE][4] = {{0,1,2,3},{4,1,5,-1},{6,5,7,-1}};
constexpr int neighbor_[NE][4] = {{-1,1,-1,-1},{-1,0,2,-1},{-2,1,-1,-1}};   // -1 boundary, -2 nothing
constexpr int sub(int e, int i, int c) { return c == 0 ? e : c == 1 ? edge[e][i] : vert[e][i]; }
constexpr int total[3] = {NE, NEDGE, NVERT};
struct Geo { using LocalCoordinate = Coord; using GlobalCoordinate = Coord; static constexpr int mydimension = 2, coorddimension = 2; int id; };
struct Seed { int id; };
struct Element {
  using Geometry = Geo; using LocalGeometry = Geo; using EntitySeed = Seed;
  static constexpr int dimension = 2, mydimension = 2, codimension = 0;
  int id = 0;
  Dune::GeometryType type() const { return RefElement{shape[id]}.type(); }
  Geo geometry() const { return {id}; }
  unsigned subEntities(unsigned c) const { return nsub[shape[id]][c]; }
  bool hasBoundaryIntersections() const { for (int k = 0; k < nsub[shape[id]][1]; ++k) if (neighbor_[id][k] == -1) return true; return false; }
  Seed seed() const { return {id}; }
  bool operator==(const Element& o) const { return id == o.id; }
};
inline RefElement referenceElement(const Element& e) { return {shape[e.id]}; }
struct Intersection {
  int e, k;
  bool boundary() const { return neighbor_[e][k] == -1; }
  bool neighbor() const { return neighbor_[e][k] >= 0; }
  Element inside() const { return {e}; }
  Element outside() const { CHECKM("outside() is only called on intersections with a neighbour", neighbor()); return {neighbor_[e][k]}; }
  int indexInInside() const { return k; }
  int indexInOutside() const { int o = neighbor_[e][k]; for (int j = 0; j < nsub[shape[o]][1]; ++j) if (edge[o][j] == edge[e][k]) return j; return -1; }
  bool operator==(const Intersection& o) const { return e == o.e && k == o.k; }
};
template<class T> struct It {
  using value_type = T; using reference = const T&; using difference_type = std::ptrdiff_t; using pointer = const T*; using iterator_category = std::forward_iterator_tag;
  T t;
  const T& operator*() const { return t; } const T* operator->() const { return &t; }
  It& operator++() { if constexpr (requires { t.id; }) ++t.id; else ++t.k; return *this; }
  It operator++(int) { auto r = *this; ++*this; return r; }
  bool operator==(const It& o) const { return t == o.t; } bool operator!=(const It& o) const { return !(t == o.t); }
};
// dereferences to a temporary, or not
#ifdef TEMPORARY
struct Iterator : It<Element> { using reference = Element; Element operator*() const { return t; } Iterator& operator++() { ++t.id; return *this; } };
struct IntersectionIterator : It<Intersection> { using reference = Intersection; Intersection operator*() const { return t; } IntersectionIterator& operator++() { ++t.k; return *this; } };
#else
using Iterator = It<Element>;
using IntersectionIterator = It<Intersection>;
#endif
struct Grid { static constexpr int dimension = 2, dimensionworld = 2; using ctype = double; template<int cd> struct Codim { using Entity = Element; using EntitySeed = Seed; using Geometry = Geo; using LocalGeometry = Geo; }; };
struct IndexSet {
  using IndexType = std::size_t;
  std::size_t index(const Element& e) const { return e.id; }
  std::size_t subIndex(const Element& e, int i, unsigned c) const { return sub(e.id, i, c); }
  std::size_t size(int c) const { return total[c]; }
};
struct GridView {
  enum { dimension = 2, dimensionworld = 2 };
  using Grid = mock2::Grid; using ctype = double; using IndexSet = mock2::IndexSet; using Intersection = mock2::Intersection; using IntersectionIterator = mock2::IntersectionIterator;
  template<int cd> struct Codim { using Entity = Element; using Geometry = Geo; using Iterator = mock2::Iterator; using EntitySeed = Seed; template<Dune::PartitionIteratorType pit> struct Partition { using Iterator = mock2::Iterator; }; };
  int tag = 0;
  template<int cd> Iterator begin() const { Iterator i; i.t.id = 0; return i; } template<int cd> Iterator end() const { Iterator i; i.t.id = NE; return i; }
  template<int cd, Dune::PartitionIteratorType pit> Iterator begin() const { Iterator i; i.t.id = 0; return i; } template<int cd, Dune::PartitionIteratorType pit> Iterator end() const { Iterator i; i.t.id = NE; return i; }
  IntersectionIterator ibegin(const Element& e) const { IntersectionIterator i; i.t = {e.id, 0}; return i; } IntersectionIterator iend(const Element& e) const { IntersectionIterator i; i.t = {e.id, nsub[shape[e.id]][1]}; return i; }
  bool contains(const Element& e) const { return true; }
  int size(int c) const { return total[c]; }
  IndexSet indexSet() const { return {}; }
  struct Range { Iterator b, e; Iterator begin() const { return b; } Iterator end() const { return e; } };
  friend Range elements(const GridView& gv) { return {gv.begin<0>(), gv.end<0>()}; }
  struct IRange { IntersectionIterator b, e; IntersectionIterator begin() const { return b; } IntersectionIterator end() const { return e; } };
  friend IRange intersections(const GridView& gv, const Element& e) { return {gv.ibegin(e), gv.iend(e)}; }
};
}
#endif
