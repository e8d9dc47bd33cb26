// A minimal grid whose geometry and topology are uninterpreted functions.
#ifndef VERIF_MOCK_HH
#define VERIF_MOCK_HH
#include "m2.hh"
#include <array>
#include <cstddef>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/type.hh>
namespace mock {
using Coord = Dune::FieldVector<double,1>;
struct Geo {
  using LocalCoordinate = Coord; using GlobalCoordinate = Coord; using ctype = double;
  using Jacobian = Dune::FieldMatrix<double,1,1>; using JacobianInverse = Dune::FieldMatrix<double,1,1>; using JacobianInverseTransposed = Dune::FieldMatrix<double,1,1>; using JacobianTransposed = Dune::FieldMatrix<double,1,1>;
  static constexpr int mydimension = 1, coorddimension = 1;
  long id = -1; int ch = -1;
  Coord global(const Coord& x) const { return Coord(feval(901, id, x[0])); }
#ifdef FINECASE
  // the local coordinate in child ch of an element: fixed, inside the unit interval or not
  static constexpr double inChild[5][2] = {{0.5, 1.5}, {-0.5, 0.25}, {1.25, -0.5}, {2.0, 1.125}, {1.0, 0.0}};
  Coord local(const Coord& x) const { return ch >= 0 ? Coord(inChild[FINECASE][ch]) : Coord(feval(902, id, x[0])); }
#else
  Coord local(const Coord& x) const { return Coord(feval(902, id, x[0])); }
#endif
  Jacobian jacobian(const Coord& x) const { return Jacobian(feval(903, id, x[0])); }
  Jacobian jacobianTransposed(const Coord& x) const { return Jacobian(feval(903, id, x[0])); }
  Jacobian jacobianInverse(const Coord& x) const { return Jacobian(feval(904, id, x[0])); }
  Jacobian jacobianInverseTransposed(const Coord& x) const { return Jacobian(feval(904, id, x[0])); }
  double integrationElement(const Coord& x) const { return feval(905, id, x[0]); }
  Coord center() const { return Coord(feval(906, id, 0)); }
};
struct Seed { long id; };
struct Element {
  using Geometry = Geo; using LocalGeometry = Geo; using EntitySeed = Seed;
  static constexpr int dimension = 1, mydimension = 1, codimension = 0;
  long id = -1; int lv = 0; int ch = -1; int ord = 0;   // ord: position in the iteration over the grid view
  Geo geometry() const { return Geo{id}; }
  Geo geometryInFather() const { return Geo{ieval(910, id, 0), ch}; }
  Element father() const { return Element{ieval(911, id, 0), lv - 1}; }
  bool hasFather() const { return ieval(912, id, 0) & 1; }
  int level() const { return lv; }
  Dune::GeometryType type() const { return Dune::GeometryTypes::line; }
  Seed seed() const { return {id}; }
  unsigned subEntities(unsigned c) const { return c == 0 ? 1 : 2; }
  bool operator==(const Element& o) const { return id == o.id; }
  bool operator!=(const Element& o) const { return id != o.id; }
};
// the two children of an element
struct Children { struct It { Element e; int k; Element operator*() const { return Element{ieval(930 + k, e.id, 0), e.lv + 1, k}; } It& operator++() { ++k; return *this; } bool operator!=(const It& o) const { return k != o.k; } bool operator==(const It& o) const { return k == o.k; } }; Element e; It begin() const { return {e, 0}; } It end() const { return {e, 2}; } };
inline Children descendantElements(const Element& e, int maxLevel) { return {e}; }
// a grid view of N elements with ids sym(80), sym(81), ...
struct Iterator {
  using value_type = Element; using reference = Element; using difference_type = std::ptrdiff_t; using pointer = const Element*; using iterator_category = std::forward_iterator_tag;
  int k; int tag;
  Element operator*() const { Element e{sym(80 + k)}; e.ord = k; return e; }
  Iterator& operator++() { ++k; return *this; }
  Iterator operator++(int) { auto r = *this; ++k; return r; }
  bool operator==(const Iterator& o) const { return k == o.k; }
  bool operator!=(const Iterator& o) const { return k != o.k; }
};
struct Grid { static constexpr int dimension = 1, dimensionworld = 1; using ctype = double; template<int cd> struct Codim { using Entity = Element; using EntitySeed = Seed; using Geometry = Geo; }; };
struct IndexSet {
  using IndexType = std::size_t;
  int tag;
  template<class E> std::size_t index(const E& e) const { return ieval(920, tag, e.id); }
  template<class E> std::size_t subIndex(const E& e, int i, unsigned codim) const { return ieval(921 + 10*codim + i, tag, e.id); }
  std::size_t size(int codim) const { return ieval(925, tag, codim); }
};
struct GridView {
  static constexpr int dimension = 1, dimensionworld = 1;
  using Grid = mock::Grid; using ctype = double; using IndexSet = mock::IndexSet;
  template<int cd> struct Codim { using Entity = Element; using Geometry = Geo; using Iterator = mock::Iterator; using EntitySeed = Seed; };
  int tag = 0; int n = 2;
  template<int cd> Iterator begin() const { return {0, tag}; }
  template<int cd> Iterator end() const { return {n, tag}; }
  // grid views with tag 100+l are the level grid views
  bool contains(const Element& e) const { return tag >= 100 ? e.lv == tag - 100 : ieval(914, tag, e.id) & 1; }
  std::size_t size(int codim) const { return ieval(915, tag, codim); }
  IndexSet indexSet() const { return {tag}; }
  struct Range { Iterator b, e; Iterator begin() const { return b; } Iterator end() const { return e; } };
  friend Range elements(const GridView& gv) { return {gv.begin<0>(), gv.end<0>()}; }
};
}
#endif
