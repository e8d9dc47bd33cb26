// Reference elements as constant tables (Dune numbering), and a stand-in for dune-geometry's ones built on them.
#ifndef VERIF_REFEL_HH
#define VERIF_REFEL_HH
#include "m2.hh"
#include <array>
#include <cstddef>
#include <iterator>
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/type.hh>
namespace refel {
// topologies
enum T { point, line, tri, quad, tet, hex, prism, pyramid, NT };
constexpr int dimOf[NT] = {0, 1, 2, 2, 3, 3, 3, 3};
constexpr Dune::GeometryType gts[NT] = {Dune::GeometryTypes::vertex, Dune::GeometryTypes::line, Dune::GeometryTypes::triangle, Dune::GeometryTypes::quadrilateral, Dune::GeometryTypes::tetrahedron, Dune::GeometryTypes::hexahedron, Dune::GeometryTypes::prism, Dune::GeometryTypes::pyramid};
constexpr T topo(const Dune::GeometryType& g) { return g.dim() == 0 ? point : g.dim() == 1 ? line : g.dim() == 2 ? (g.isTriangle() ? tri : quad) : g.isTetrahedron() ? tet : g.isHexahedron() ? hex : g.isPrism() ? prism : pyramid; }
constexpr int nv[NT] = {1, 2, 3, 4, 4, 8, 6, 5};
constexpr int ne[NT] = {0, 1, 3, 4, 6, 12, 9, 8};
constexpr int ev[NT][12][2] = {{}, {{0,1}}, {{0,1},{0,2},{1,2}}, {{0,2},{1,3},{0,1},{2,3}}, {{0,1},{0,2},{1,2},{0,3},{1,3},{2,3}},
  {{0,4},{1,5},{2,6},{3,7},{0,2},{1,3},{0,1},{2,3},{4,6},{5,7},{4,5},{6,7}}, {{0,3},{1,4},{2,5},{0,1},{0,2},{1,2},{3,4},{3,5},{4,5}}, {{0,2},{1,3},{0,1},{2,3},{0,4},{1,4},{2,4},{3,4}}};
constexpr int nf[NT] = {0, 0, 1, 1, 4, 6, 5, 5};
constexpr int fv[NT][6][4] = {{}, {}, {{0,1,2,-1}}, {{0,1,2,3}}, {{0,1,2,-1},{0,1,3,-1},{0,2,3,-1},{1,2,3,-1}},
  {{0,2,4,6},{1,3,5,7},{0,1,4,5},{2,3,6,7},{0,1,2,3},{4,5,6,7}}, {{0,1,3,4},{0,2,3,5},{1,2,4,5},{0,1,2,-1},{3,4,5,-1}}, {{0,1,2,3},{0,2,4,-1},{1,3,4,-1},{0,1,4,-1},{2,3,4,-1}}};
constexpr double pos[NT][8][3] = {{}, {{0},{1}}, {{0,0},{1,0},{0,1}}, {{0,0},{1,0},{0,1},{1,1}}, {{0,0,0},{1,0,0},{0,1,0},{0,0,1}},
  {{0,0,0},{1,0,0},{0,1,0},{1,1,0},{0,0,1},{1,0,1},{0,1,1},{1,1,1}}, {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,0,1},{0,1,1}}, {{0,0,0},{1,0,0},{0,1,0},{1,1,0},{0,0,1}}};
// number of sub-entities of codimension c, topology of one, its j-th vertex
constexpr int nsub(T t, int c) { int d = dimOf[t] - c; return c == 0 ? 1 : d == 0 ? nv[t] : d == 1 ? ne[t] : nf[t]; }
constexpr T topoSub(T t, int i, int c) { int d = dimOf[t] - c; return c == 0 ? t : d == 0 ? point : d == 1 ? line : fv[t][i][3] < 0 ? tri : quad; }
constexpr int vertexOf(T t, int i, int c, int j) { int d = dimOf[t] - c; return c == 0 ? j : d == 0 ? i : d == 1 ? ev[t][i][j] : fv[t][i][j]; }
constexpr bool hasVertex(T t, int i, int c, int v) { for (int j = 0; j < nv[topoSub(t, i, c)]; ++j) if (vertexOf(t, i, c, j) == v) return true; return false; }
constexpr bool within(T t, int i, int c, int j, int cc) { if (cc < c || j < 0 || j >= nsub(t, cc)) return false; for (int q = 0; q < nv[topoSub(t, j, cc)]; ++q) if (!hasVertex(t, i, c, vertexOf(t, j, cc, q))) return false; return true; }
// j-th sub-entity of codimension cc of sub-entity (i,c)
constexpr int subsub(T t, int i, int c, int j, int cc) {
  if (c == 0) return j; if (cc == c) return i; if (cc == dimOf[t]) return vertexOf(t, i, c, j);
  T f = topoSub(t, i, c); int a = vertexOf(t, i, c, ev[f][j][0]), b = vertexOf(t, i, c, ev[f][j][1]);
  for (int e = 0; e < ne[t]; ++e) if (ev[t][e][0] + ev[t][e][1] == a + b && (ev[t][e][0] == a || ev[t][e][1] == a)) return e;
  return -1; }
constexpr int nsubsub(T t, int i, int c, int cc) { return nsub(topoSub(t, i, c), cc - c); }
struct SubEntities {
  T t; int i, c, cc;
  struct It { using value_type = unsigned; using reference = unsigned; using difference_type = std::ptrdiff_t; using pointer = void; using iterator_category = std::random_access_iterator_tag; T t; int i, c, cc, j = 0;
    unsigned operator*() const { return subsub(t, i, c, j, cc); } unsigned operator[](std::ptrdiff_t k) const { return subsub(t, i, c, j + int(k), cc); } It& operator++() { ++j; return *this; } It operator++(int) { auto r = *this; ++j; return r; } It& operator--() { --j; return *this; } It& operator+=(std::ptrdiff_t k) { j += int(k); return *this; } It& operator-=(std::ptrdiff_t k) { j -= int(k); return *this; }
    It operator+(std::ptrdiff_t k) const { auto r = *this; r.j += int(k); return r; } It operator-(std::ptrdiff_t k) const { auto r = *this; r.j -= int(k); return r; } std::ptrdiff_t operator-(const It& o) const { return j - o.j; } bool operator==(const It& o) const { return j == o.j; } bool operator!=(const It& o) const { return j != o.j; } bool operator<(const It& o) const { return j < o.j; } };
  using iterator = It; using const_iterator = It;
  It begin() const { return {t, i, c, cc, 0}; } It end() const { return {t, i, c, cc, nsubsub(t, i, c, cc)}; } std::size_t size() const { return nsubsub(t, i, c, cc); }
  bool contains(std::size_t j) const { return within(t, i, c, int(j), cc); }
};
template<int dim> struct RefElement {
  using Coordinate = Dune::FieldVector<double,dim>;
  T t;
  int size(int c) const { return nsub(t, c); } int size(int i, int c, int cc) const { return nsubsub(t, i, c, cc); }
  const Dune::GeometryType& type(int i, int c) const { return gts[topoSub(t, i, c)]; } const Dune::GeometryType& type() const { return gts[t]; }
  SubEntities subEntities(int i, int c, int cc) const { return {t, i, c, cc}; } int subEntity(int i, int c, int j, int cc) const { return subsub(t, i, c, j, cc); }
  // simplices and cubes only
  Coordinate integrationOuterNormal(int f) const { Coordinate r(0); if (t == hex || t == quad || t == line) r[t == line ? 0 : f/2] = t == line ? (f == 0 ? -1 : 1) : (f % 2 ? 1 : -1); else if (f < dim) r[dim - 1 - f] = dim == 3 ? -0.5 : -1; else for (int d = 0; d < dim; ++d) r[d] = dim == 3 ? 0.5 : 1; return r; }
  Coordinate position(int i, int c) const { Coordinate r(0); int n = nv[topoSub(t, i, c)]; for (int j = 0; j < n; ++j) for (int d = 0; d < dim; ++d) r[d] += pos[t][vertexOf(t, i, c, j)][d]; for (int d = 0; d < dim; ++d) r[d] /= n; return r; }
};
}
#define DUNE_GEOMETRY_REFERENCEELEMENTS_HH
namespace Dune {

namespace Transitional { template<class ctype, int dim> using ReferenceElement = refel::RefElement<dim>; }
template<class ctype, int dim> using ReferenceElement_ = refel::RefElement<dim>;
template<class ctype, int dim> struct ReferenceElements { using ReferenceElement = refel::RefElement<dim>;
  static ReferenceElement general(const GeometryType& t) { return {refel::topo(t)}; } static ReferenceElement simplex() { return {refel::topo(GeometryTypes::simplex(dim))}; } static ReferenceElement cube() { return {refel::topo(GeometryTypes::cube(dim))}; } };
template<class ctype, int dim> refel::RefElement<dim> referenceElement(const GeometryType& t) { return {refel::topo(t)}; }
}
#endif
