// C18: face orientation of the Lagrange bases of order > 2: the index of a function only depends on the position of its node relative to the global vertex ids
#define VERTEXORDER
#include "numbering.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
// interior lattice points of a topology of dimension < 3 as weights of its vertices (barycentric; two Cartesian coordinates for squares), in the order of the local finite elements
struct Points { int n = 0; int w[64][3] = {}; };
constexpr Points points(T u, int k) { Points r; auto add = [&](int a, int b, int c) { r.w[r.n][0] = a; r.w[r.n][1] = b; r.w[r.n][2] = c; ++r.n; };
  if (u == line) for (int i = 1; i < k; ++i) add(k - i, i, 0);
  if (u == tri) for (int j = 1; j < k; ++j) for (int i = 1; i + j < k; ++i) add(k - i - j, i, j);
  if (u == quad) for (int j = 1; j < k; ++j) for (int i = 1; i < k; ++i) add(i, j, 0);
  return r; }
constexpr int interior(T u, int k) { return u == point ? 1 : u == tet ? (k-1)*(k-2)*(k-3)/6 : u == hex ? (k-1)*(k-1)*(k-1) : points(u, k).n; }
// expected index in the block of the sub-entity: the one of the corresponding point after mapping the vertex with the smallest id to vertex 0 and its neighbour with the smaller id to vertex 1
constexpr int expected(T t, int s, int c, int k, long id, int index) {
  T u = topoSub(t, s, c); if (u == point || c == 0) return index;
  auto g = [&](int j) { return id >> 3*vertexOf(t, s, c, j) & 7; }; auto p = points(u, k); const auto& w = p.w[index]; int v[3] = {};
  if (u == quad) { int m = 0; for (int j = 1; j < 4; ++j) if (g(j) < g(m)) m = j;
    int x = m & 1 ? k - w[0] : w[0], y = m & 2 ? k - w[1] : w[1];      // distances from the smallest vertex in the two directions
    if (g(m ^ 1) < g(m ^ 2)) { v[0] = x; v[1] = y; } else { v[0] = y; v[1] = x; } }
  else { int n = nv[u], o[3] = {0, 1, 2}; for (int i = 0; i < n; ++i) for (int j = 0; j + 1 < n; ++j) if (g(o[j+1]) < g(o[j])) { int h = o[j]; o[j] = o[j+1]; o[j+1] = h; } for (int i = 0; i < n; ++i) v[i] = w[o[i]]; }
  for (int j = 0; j < p.n; ++j) if (p.w[j][0] == v[0] && p.w[j][1] == v[1] && p.w[j][2] == v[2]) return j;
  return -1; }
template<T t, int k, long id> struct Table { static constexpr auto make() { std::array<std::array<std::array<int,64>,12>,4> r{}; for (int c = 0; c <= dimOf[t]; ++c) for (int s = 0; s < nsub(t, c); ++s) for (int i = 0; i < interior(topoSub(t, s, c), k) && i < 64; ++i) r[c][s][i] = expected(t, s, c, k, id, i); return r; } static constexpr auto v = make(); };
template<T t, int k, int K, long... ids> void orient() {
  using Pre = LagrangePreBasis<GVT<t>,K>; constexpr int dim = dimOf[t];
  Pre pre = [] { if constexpr (K < 0) return Pre(GVT<t>{}, k); else return Pre(GVT<t>{}); }(); pre.initializeIndices(); auto node = pre.makeNode();
  std::size_t off[NT] = {}, total = 0; for (int c = 0; c <= dim; ++c) for (int q = 0; q < NT; ++q) if (dimOf[q] == dim - c && Types<t>::has(T(q), c)) { off[q] = total; total += interior(T(q), k)*SZE(0, q, dim); }
  [&]<long... id>(std::integer_sequence<long, id...>) { ([&] { Element<dim> e{t, id}; node.bind(e); const auto& lc = node.finiteElement().localCoefficients(); MI idx[128]; pre.indices(node, &idx[0]);
    for (std::size_t i = 0; i < lc.size(); ++i) { auto a = lc.localKey(i); T u = topoSub(t, a.subEntity(), a.codim());
      CHECKM("the index of a function depends on the position of its node relative to the global vertex ids only", idx[i][0] == off[u] + interior(u, k)*SI(id, a.subEntity(), CV(a.codim(), dim)) + Table<t, k, id>::v[a.codim()][a.subEntity()][a.index()]); } }(), ...); }(std::integer_sequence<long, ids...>());
  REACHED(1);
}
constexpr long P(long s) { long r = 0; for (int k = 0; k < 8; ++k, s /= 10) r |= (s % 10) << 3*k; return r; }
#define Q(n, k, t, ...) O(n) { orient<t, k, k, __VA_ARGS__>(); }
#define QD(n, k, t, ...) O(n) { orient<t, k, -1, __VA_ARGS__>(); }
#if PART==0
Q(t3, 3, tri, P(210), P(120), P(201), P(21), P(102), P(12))
Q(t4, 4, tri, P(210), P(120), P(201), P(21), P(102), P(12))
QD(td4, 4, tri, P(210), P(120), P(201))
Q(T3, 3, tet, P(3210), P(1230), P(2013), P(1320), P(3102), P(123))
#elif PART==1
Q(q3_0, 3, quad, P(3210))
Q(q3_1, 3, quad, P(1230))
Q(q3_2, 3, quad, P(2013))
#elif PART==2
Q(q3_0, 3, quad, P(1320))
Q(q3_1, 3, quad, P(3102))
#elif PART==3
Q(T4_0, 4, tet, P(123), P(132), P(213), P(231))
Q(T4_1, 4, tet, P(312), P(321), P(1023), P(1032))
#elif PART==4
Q(T4_2, 4, tet, P(1203), P(1230), P(1302), P(1320))
Q(T4_3, 4, tet, P(2013), P(2031), P(2103), P(2130))
#elif PART==5
Q(T4_4, 4, tet, P(2301), P(2310), P(3012), P(3021))
Q(T4_5, 4, tet, P(3102), P(3120), P(3201), P(3210))
#elif PART==6
Q(T5, 5, tet, P(132), P(1203), P(2130), P(3201))
#elif PART==7
Q(h3_0, 3, hex, P(5721643), P(75316042), P(34721056), P(51072346))
#elif PART==8
Q(h3_1, 3, hex, P(17035642), P(25364107), P(51632704), P(6317524))
#elif PART==9
Q(h3_2, 3, hex, P(42306175), P(56027314), P(60437125), P(46271530))
#elif PART==10
Q(h3_3, 3, hex, P(46531270), P(24750613), P(1372564), P(42716530))
#elif PART==11
Q(h3_4, 3, hex, P(63451072), P(10234576), P(76152304), P(3126457))
#elif PART==12
Q(h3_5, 3, hex, P(74362501), P(60573241), P(30756241), P(34102657))
#elif PART==13
Q(h3_6, 3, hex, P(62051743), P(3572146), P(71506342))
#elif PART==14
Q(h4_0, 4, hex, P(75316042), P(34721056))
#endif
