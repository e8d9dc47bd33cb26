// A grid of one element of a given topology; indices, ids and sizes are uninterpreted functions.
#ifndef VERIF_MOCK3_HH
#define VERIF_MOCK3_HH
#include "refel.hh"
#include <dune/geometry/dimension.hh>
#include <dune/grid/common/gridenums.hh>
#include <dune/grid/common/capabilities.hh>
namespace mock3 {
using refel::T; using refel::dimOf;
#ifdef SYMGEO
// every quantity of the geometry is an uninterpreted function of the element and the position
template<int dim> struct Geo { using LocalCoordinate = Dune::FieldVector<double,dim>; using GlobalCoordinate = LocalCoordinate; using ctype = double; static constexpr int mydimension = dim, coorddimension = dim;
#ifdef DIAGONAL
  using Jacobian = Dune::DiagonalMatrix<double,dim>;
#else
  using Jacobian = Dune::FieldMatrix<double,dim,dim>;
#endif
  using JacobianInverse = Jacobian; using JacobianInverseTransposed = Jacobian; using JacobianTransposed = Jacobian;
  T t; long id; static double at(const LocalCoordinate& x) { double r = feval(968, 0, x[0]); for (int i = 1; i < dim; ++i) r = feval(968, i, r + x[i]); return r; }
  double J(int i, int j, const LocalCoordinate& x) const { return feval(970 + 10*i + j, id, at(x)); } double JI(int i, int j, const LocalCoordinate& x) const { return feval(1010 + 10*i + j, id, at(x)); }
  template<class F> static Jacobian mat(F f) { Jacobian r(0); for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { if constexpr (std::is_same_v<Jacobian, Dune::FieldMatrix<double,dim,dim>>) r[i][j] = f(i, j); else if (i == j) r[i][i] = f(i, i); } return r; }
  LocalCoordinate global(const LocalCoordinate& x) const { LocalCoordinate r; for (int i = 0; i < dim; ++i) r[i] = feval(1050 + i, id, at(x)); return r; } LocalCoordinate local(const LocalCoordinate& x) const { LocalCoordinate r; for (int i = 0; i < dim; ++i) r[i] = feval(1060 + i, id, at(x)); return r; } bool affine() const { return true; }
  Jacobian jacobian(const LocalCoordinate& x) const { return mat([&](int i, int j) { return J(i, j, x); }); } Jacobian jacobianTransposed(const LocalCoordinate& x) const { return mat([&](int i, int j) { return J(j, i, x); }); } Jacobian jacobianInverse(const LocalCoordinate& x) const { return mat([&](int i, int j) { return JI(i, j, x); }); } Jacobian jacobianInverseTransposed(const LocalCoordinate& x) const { return mat([&](int i, int j) { return JI(j, i, x); }); }
  double integrationElement(const LocalCoordinate& x) const { return feval(1070, id, at(x)); } LocalCoordinate corner(int i) const { return global(refel::RefElement<dim>{t}.position(i, dim)); } LocalCoordinate center() const { return global(refel::RefElement<dim>{t}.position(0, 0)); } Dune::GeometryType type() const { return refel::gts[t]; } int corners() const { return refel::nv[t]; } double volume() const { return feval(1071, id, 0); } };
#define GEO_OF_ELEMENT {t, id}
#elif defined(AFFGEO)
// an affine map with entries AFF(i,j) and offset AFFB(i)
template<int dim> struct Geo { using LocalCoordinate = Dune::FieldVector<double,dim>; using GlobalCoordinate = LocalCoordinate; using ctype = double; static constexpr int mydimension = dim, coorddimension = dim;
  using Jacobian = Dune::FieldMatrix<double,dim,dim>; using JacobianInverse = Jacobian; using JacobianInverseTransposed = Jacobian; using JacobianTransposed = Jacobian;
  T t; long id = 0; static Jacobian mat(bool tr) { Jacobian r; for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) r[i][j] = tr ? AFF(j, i) : AFF(i, j); return r; } static Jacobian inv(bool tr) { auto r = mat(tr); r.invert(); return r; }
  LocalCoordinate global(const LocalCoordinate& x) const { LocalCoordinate r; for (int i = 0; i < dim; ++i) { r[i] = AFFB(i); for (int j = 0; j < dim; ++j) r[i] += AFF(i, j)*x[j]; } return r; } bool affine() const { return true; }
  Jacobian jacobian(const LocalCoordinate&) const { return mat(false); } Jacobian jacobianTransposed(const LocalCoordinate&) const { return mat(true); } Jacobian jacobianInverse(const LocalCoordinate&) const { return inv(false); } Jacobian jacobianInverseTransposed(const LocalCoordinate&) const { return inv(true); }
  double integrationElement(const LocalCoordinate&) const { return std::abs(mat(false).determinant()); } LocalCoordinate corner(int i) const { return global(refel::RefElement<dim>{t}.position(i, dim)); } LocalCoordinate center() const { return global(refel::RefElement<dim>{t}.position(0, 0)); } Dune::GeometryType type() const { return refel::gts[t]; } int corners() const { return refel::nv[t]; } double volume() const { return AFFVOL(id); } };
#define GEO_OF_ELEMENT {t, id}
#else
template<int dim> struct Geo { using LocalCoordinate = Dune::FieldVector<double,dim>; using GlobalCoordinate = LocalCoordinate; using ctype = double; static constexpr int mydimension = dim, coorddimension = dim;
  using Jacobian = Dune::FieldMatrix<double,dim,dim>; using JacobianInverse = Jacobian; using JacobianInverseTransposed = Jacobian; using JacobianTransposed = Jacobian;
  static Jacobian one() { Jacobian r(0); for (int i = 0; i < dim; ++i) r[i][i] = 1; return r; }
  T t; LocalCoordinate global(const LocalCoordinate& x) const { return x; } LocalCoordinate local(const LocalCoordinate& x) const { return x; } bool affine() const { return true; }
  Jacobian jacobian(const LocalCoordinate&) const { return one(); } Jacobian jacobianTransposed(const LocalCoordinate&) const { return one(); } Jacobian jacobianInverse(const LocalCoordinate&) const { return one(); } Jacobian jacobianInverseTransposed(const LocalCoordinate&) const { return one(); }
  double integrationElement(const LocalCoordinate&) const { return 1; } LocalCoordinate corner(int i) const { return refel::RefElement<dim>{t}.position(i, dim); } LocalCoordinate center() const { return refel::RefElement<dim>{t}.position(0, 0); } Dune::GeometryType type() const { return refel::gts[t]; } int corners() const { return refel::nv[t]; } double volume() const { return 1; } };
#define GEO_OF_ELEMENT {t}
#endif
// id: which element; perm: number of the vertex renumbering it sees its vertex ids through
template<int dim> struct Element {
  using Geometry = Geo<dim>; using LocalGeometry = Geo<dim>; struct EntitySeed { long id; }; static constexpr int dimension = dim, mydimension = dim, codimension = 0;
  T t = T(); long id = 0; int k = 0;
  Dune::GeometryType type() const { return refel::gts[t]; } Geometry geometry() const { return GEO_OF_ELEMENT; } unsigned subEntities(unsigned c) const { return refel::nsub(t, c); } int level() const { return 0; } EntitySeed seed() const { return {id}; }
  bool operator==(const Element& o) const { return id == o.id; }
};
template<int dim> refel::RefElement<dim> referenceElement(const Element<dim>& e) { return {e.t}; }
template<int dim> refel::RefElement<dim> referenceElement(const Geo<dim>& e) { return {e.t}; }
#ifdef CONCRETE
// elements and vertices have constant indices (three elements per type, the one visited has index 1); bits of the id:
// from 8: state of facet k in two bits: 0 boundary, 1 neighbour with smaller index, 2 neighbour with larger index; from 24: vertex indices, three bits each
inline std::size_t SI(long id, int i, int c) { return c == 0 ? id & 0xff : c == 9 ? id >> (24 + 3*i) & 7 : (std::size_t)ieval(960, id, i*4 + c) & 0xffffff; }
inline constexpr long makeId(long facets, long vertices = 0) { return 1 + (facets << 8) + (vertices << 24); }
inline long vertexId(long id, int v) { return id >> (24 + 3*v) & 7; }
#if defined(VERIF_CONST) || defined(CONSTSIZES)
inline std::size_t SZ(int tag, int topology) { return 8; }
#else
inline std::size_t SZ(int tag, int topology) { return (std::size_t)ieval(961, tag, topology) & 0xffffff; }
#endif
#else
// index of a sub-entity among those of its geometry type
inline std::size_t SI(long id, int i, int c) { return (std::size_t)ieval(960, id, i*4 + c) & 0xffffff; }
inline std::size_t SZ(int tag, int topology) { return (std::size_t)ieval(961, tag, topology) & 0xffffff; }
#ifdef VERTEXORDER
// bits of the id: vertex ids, three bits each
inline long vertexId(long id, int v) { return id >> 3*v & 7; }
#else
inline long vertexId(long id, int v) { return ieval(962, id, v); }
#endif
#endif
#ifdef CONCRETE
inline int CV(int c, int dim) { return c == dim ? 9 : c; } inline std::size_t SZE(int tag, int q, int dim) { return dimOf[q] == dim ? 3 : SZ(tag, q); }
#else
inline int CV(int c, int dim) { return c; } inline std::size_t SZE(int tag, int q, int dim) { return SZ(tag, q); }
#endif
// TT: topologies of the elements of the grid
template<T... TT> struct Types { static constexpr int n = sizeof...(TT); static constexpr T t[n] = {TT...}; static constexpr int dim = dimOf[t[0]];
  static constexpr bool has(T q, int c) { bool r = false; for (T x : t) for (int i = 0; i < refel::nsub(x, c); ++i) r = r || refel::topoSub(x, i, c) == q; return r; } };
template<class Ty> struct IndexSet { using IndexType = std::size_t; static constexpr int dim = Ty::dim, dimension = Ty::dim; int tag = 0;
  std::size_t index(const Element<dim>& e) const { return SI(e.id, 0, 0); } template<int cc> std::size_t index(const Element<dim>& e) const { return SI(e.id, 0, 0); }
  std::size_t subIndex(const Element<dim>& e, int i, unsigned c) const { return SI(e.id, i, CV(c, dim)); }
  std::size_t size(const Dune::GeometryType& g) const { T q = refel::topo(g); return Ty::has(q, dim - g.dim()) ? SZE(tag, q, dim) : 0; }
  std::size_t size(int c) const { std::size_t r = 0; for (int q = 0; q < refel::NT; ++q) if (dimOf[q] == dim - c && Ty::has(T(q), c)) r += SZE(tag, q, dim); return r; }
  std::vector<Dune::GeometryType> types(int c) const { std::vector<Dune::GeometryType> r; r.reserve(4); for (int q = 0; q < refel::NT; ++q) if (dimOf[q] == dim - c && Ty::has(T(q), c)) r.push_back(refel::gts[q]); return r; } };
template<class Ty> struct IdSet { static constexpr int dimension = Ty::dim; using IdType = long; long subId(const Element<dimension>& e, int i, unsigned c) const { return c == dimension ? vertexId(e.id, i) : ieval(963, e.id, i*4 + c); } };
template<class Ty> inline const IdSet<Ty> theIdSet{};
template<class Ty> struct Grid { static constexpr int dimension = Ty::dim, dimensionworld = Ty::dim; using ctype = double; template<int cd> struct Codim { using Entity = Element<dimension>; using Geometry = Geo<dimension>; using LocalGeometry = Geo<dimension>; struct EntitySeed {}; };
  using GlobalIdSet = IdSet<Ty>; const GlobalIdSet& globalIdSet() const { return theIdSet<Ty>; } };
template<class Ty> inline const Grid<Ty> theGrid{};
template<class Ty> inline const IndexSet<Ty> theIndexSets[2] = {{0}, {1}};
#ifdef CONCRETE
template<int dim> struct Intersection { T t; long id; int k; int state() const { return id >> (8 + 2*k) & 3; } bool neighbor() const { return state() != 0; } bool boundary() const { return !neighbor(); } Element<dim> inside() const { return {t, id}; }
  Element<dim> outside() const { CHECKM("outside() is only called on intersections with a neighbour", neighbor()); return {t, state() == 2 ? 2 : 0}; } int indexInInside() const { return k; } int indexInOutside() const { return int(ieval(966, id, k)); } using GlobalCoordinate = Dune::FieldVector<double,dim>; };
#else
// facets: neighbour flags and indices are uninterpreted
template<int dim> struct Intersection { T t; long id; int k; bool neighbor() const { return ieval(964, id, k) & 1; } bool boundary() const { return !neighbor(); } Element<dim> inside() const { return {t, id}; } Element<dim> outside() const { return {t, ieval(965, id, k)}; } int indexInInside() const { return k; } int indexInOutside() const { return int(ieval(966, id, k)); }
  using GlobalCoordinate = Dune::FieldVector<double,dim>; };
#endif
#ifdef CONCRETE
#ifndef ELID
#define ELID(cfg, k) (cfg)
#endif
#ifndef NELEM
#define NELEM(n) n
#endif
#else
#define NELEM(n) n
#define ELID(cfg, k) sym(80 + k)
#endif
template<class Ty> struct GridView {
  static constexpr int dimension = Ty::dim, dimensionworld = Ty::dim; using Grid = mock3::Grid<Ty>; using ctype = double; using IndexSet = mock3::IndexSet<Ty>; using Intersection = mock3::Intersection<dimension>;
  struct It { using value_type = Element<dimension>; using reference = value_type; using difference_type = std::ptrdiff_t; using pointer = void; using iterator_category = std::forward_iterator_tag; int k; long cfg; Element<dimension> operator*() const { return {Ty::t[k % Ty::n], ELID(cfg, k), k}; } It& operator++() { ++k; return *this; } bool operator==(const It& o) const { return k == o.k; } bool operator!=(const It& o) const { return k != o.k; } };
  template<int cd> struct Codim { using Entity = Element<dimension>; using Geometry = Geo<dimension>; using Iterator = It; struct EntitySeed {}; };
  int tag = 0; long cfg = 0;
  const Grid& grid() const { return theGrid<Ty>; } const IndexSet& indexSet() const { return theIndexSets<Ty>[tag]; }
  std::size_t size(int c) const { return indexSet().size(c); } std::size_t size(const Dune::GeometryType& g) const { return indexSet().size(g); } 
#ifdef CONCRETE
  bool contains(const Element<dimension>& e) const { return true; }
#else
  bool contains(const Element<dimension>& e) const { return ieval(967, tag, e.id) & 1; }
#endif

  template<int cd> It begin() const { return {0, cfg}; } template<int cd> It end() const { return {NELEM(Ty::n), cfg}; }
  struct Range { friend class GridView; It b, e; It begin() const { return b; } It end() const { return e; } }; friend Range elements(const GridView& gv) { return {{0, gv.cfg}, {NELEM(Ty::n), gv.cfg}}; }
  struct IRange { T t; long id; struct J { T t; long id; int k; Intersection operator*() const { return {t, id, k}; } J& operator++() { ++k; return *this; } bool operator!=(const J& o) const { return k != o.k; } }; J begin() const { return {t, id, 0}; } J end() const { return {t, id, refel::nsub(t, 1)}; } }; friend IRange intersections(const GridView&, const Element<dimension>& e) { return {e.t, e.id}; }
};
}
namespace Dune::Capabilities { template<refel::T t> struct hasSingleGeometryType<mock3::Grid<mock3::Types<t>>> { static const bool v = true; static const unsigned topologyId = refel::gts[t].id(); };
template<refel::T t, refel::T... s> struct hasSingleGeometryType<mock3::Grid<mock3::Types<t,s...>>> { static const bool v = false; static const unsigned topologyId = ~0u; };
template<refel::T t> struct hasSingleGeometryType<const mock3::Grid<mock3::Types<t>>> : hasSingleGeometryType<mock3::Grid<mock3::Types<t>>> {}; }
namespace Dune { using mock3::referenceElement; }
// the mapper: consecutive numbering of blocks, by codimension, then geometry type
#define DUNE_GRID_COMMON_MCMGMAPPER_HH
namespace Dune {
#ifndef MOCK3_PRESENT
#define MOCK3_PRESENT(q)
#endif
struct MCMGLayout { int n[refel::NT] = {}; template<class F> requires(!std::is_same_v<std::decay_t<F>, MCMGLayout>) MCMGLayout(F&& f) : f_{} { for (int g = 1; g <= 3; ++g) for (int q = 0; q < refel::NT; ++q) if (refel::dimOf[q] <= g MOCK3_PRESENT(q)) f_[g][q] = int(f(refel::gts[q], g)); } int f_[4][refel::NT]; std::size_t operator()(GeometryType t, int g) const { return f_[g][refel::topo(t)]; } };

inline MCMGLayout mcmgElementLayout() { return MCMGLayout([](GeometryType gt, int dimgrid) { return int(gt.dim()) == dimgrid; }); }
inline MCMGLayout mcmgVertexLayout() { return MCMGLayout([](GeometryType gt, int dimgrid) { return gt.dim() == 0; }); }
template<int d> MCMGLayout mcmgLayout(Dim<d>) { return MCMGLayout([](GeometryType gt, int dimgrid) { return gt.dim() == d; }); }
template<class GV> struct MultipleCodimMultipleGeomTypeMapper { using GridView = GV; using Index = std::size_t; using size_type = std::size_t;
  GV gv; MCMGLayout l; static constexpr int dim = GV::dimension;
  MultipleCodimMultipleGeomTypeMapper(const GV& g, const MCMGLayout& ly) : gv(g), l(ly) {}
  std::size_t offset(int c, refel::T q) const { std::size_t r = 0; for (int cc = 0; cc <= dim; ++cc) for (int p = 0; p < refel::NT; ++p) if (refel::dimOf[p] == dim - cc && (cc < c || (cc == c && p < q))) r += l.f_[dim][p]*gv.size(refel::gts[p]); return r; }
  template<class E> std::size_t index(const E& e) const { return offset(0, e.t) + l.f_[dim][e.t]*gv.indexSet().index(e); }
  template<class E> std::size_t subIndex(const E& e, int i, unsigned c) const { auto q = refel::topoSub(e.t, i, c); return offset(c, q) + l.f_[dim][q]*gv.indexSet().subIndex(e, i, c); }
  std::size_t size() const { std::size_t r = 0; for (int p = 0; p < refel::NT; ++p) if (refel::dimOf[p] <= dim) r += l.f_[dim][p]*gv.size(refel::gts[p]); return r; }
  const MCMGLayout& layout() const { return l; } const GV& gridView() const { return gv; } void update(const GV& g) { gv = g; } };
}
#endif
