// C16: the small containers behave like the standard sequence of the same operations, from every reachable state
#include "m2.hh"
#include <utility>
#include <cassert>
#include <dune/functions/common/reserveddeque.hh>
#include <dune/functions/common/overflowarray.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/common/densevectorview.hh>
#include <dune/common/fvector.hh>
using namespace Dune::Functions;
#define O(n) extern "C" void o_##n()
// the sequence the container has to represent
struct Model { long v[16]; int b = 8, n = 0;
  void pb(long x) { v[b + n++] = x; } void pf(long x) { v[--b] = x; ++n; } void ob() { if (n) --n; } void of() { if (n) { ++b; --n; } } void clr() { n = 0; } long operator[](int i) const { return v[b + i]; } };
constexpr auto SEQ = "the container holds the elements in the order of the operations";
template<class C> void eq(C& c, const Model& m, int cap) {
  CHECKM("size() and empty()", int(c.size()) == m.n && c.empty() == (m.n == 0));
  CHECKM("capacity() and max_size()", int(c.capacity()) == cap && int(c.max_size()) == cap);
  const C& cc = c;
  for (int i = 0; i < m.n; ++i) { CHECKM(SEQ, c[i] == m[i]); CHECKM("const access is access to the same element", &cc[i] == &c[i]); for (int j = 0; j < i; ++j) CHECKM("elements are distinct objects", &c[i] != &c[j]); }
  if (m.n) CHECKM("front() and back() are the first and the last element", &c.front() == &c[0] && &c.back() == &c[m.n-1] && &cc.front() == &c[0] && &cc.back() == &c[m.n-1]);
  int k = 0; for (auto it = c.begin(); it != c.end(); ++it, ++k) CHECKM("iteration visits all elements in order", k < m.n && &*it == &c[k]); CHECKM("iteration visits all elements in order", k == m.n);
  k = 0; for (auto& x : cc) { CHECKM("iteration visits all elements in order", k < m.n && &x == &c[k]); ++k; } CHECKM("iteration visits all elements in order", k == m.n);
  CHECKM("end() is begin() + size()", c.end() - c.begin() == m.n && cc.end() - cc.begin() == m.n);
}
template<class C> void same(C& a, const Model& m) { CHECKM("copies hold the same elements", int(a.size()) == m.n); for (int i = 0; i < m.n; ++i) CHECKM("copies hold the same elements", a[i] == m[i]); }
// copies are independent
template<class C> void copies(C& c, const Model& m) {
  C d(c); same(d, m); C a; a = c; same(a, m); C mv(std::move(d)); same(mv, m);
  if (m.n) { c[0] = sym(60); CHECKM("copies are independent", a[0] == m[0] && mv[0] == m[0]); c[0] = m[0]; }
}
#define CAP(n) template<class C> void state(C& c, Model& m, int first, int size)
// reach the state with given first slot and size
template<int n> void state(ReservedDeque<long,n>& c, Model& m, int first, int size) {
  for (int r = 0; r < first; ++r) { c.push_back(sym(30 + r)); c.pop_front(); }
  for (int k = 0; k < size; ++k) { c.push_back(sym(k)); m.pb(sym(k)); }
}
template<int n, int first, int size, int op> void deque1() {
  ReservedDeque<long,n> c; Model m; state(c, m, first, size); eq(c, m, n);
  if constexpr (op == 0 && size < n) { c.push_back(sym(20)); m.pb(sym(20)); }
  if constexpr (op == 1 && size < n) { c.push_front(sym(20)); m.pf(sym(20)); }
  if constexpr (op == 2) { c.pop_back(); m.ob(); }
  if constexpr (op == 3) { c.pop_front(); m.of(); }
  if constexpr (op == 4) { c.clear(); m.clr(); }
  if constexpr (op == 5) { std::size_t s = size/2; c.resize(s); m.n = s; }
  if constexpr (op == 6) copies(c, m);
  eq(c, m, n);
  // the state after the operation can be continued
  if (m.n < n) { c.push_front(sym(21)); m.pf(sym(21)); }
  if (m.n < n) { c.push_back(sym(22)); m.pb(sym(22)); }
  eq(c, m, n);
}
template<int n, int op> void deque() { [&]<std::size_t... k>(std::index_sequence<k...>) { (deque1<n, k % n, k / n, op>(), ...); }(std::make_index_sequence<n*(n+1)>()); REACHED(1); }
#if PART==0
O(d20) { deque<2,0>(); } O(d21) { deque<2,1>(); } O(d22) { deque<2,2>(); } O(d23) { deque<2,3>(); } O(d24) { deque<2,4>(); } O(d25) { deque<2,5>(); } O(d26) { deque<2,6>(); }
O(d10) { deque<1,0>(); } O(d11) { deque<1,1>(); } O(d12) { deque<1,2>(); } O(d13) { deque<1,3>(); } O(d14) { deque<1,4>(); } O(d16) { deque<1,6>(); }
#elif PART==1
O(d30) { deque<3,0>(); } O(d31) { deque<3,1>(); } O(d32) { deque<3,2>(); } O(d33) { deque<3,3>(); } O(d34) { deque<3,4>(); } O(d35) { deque<3,5>(); } O(d36) { deque<3,6>(); }
#elif PART==2
O(dil) { ReservedDeque<long,3> c{sym(0), sym(1)}; Model m; m.pb(sym(0)); m.pb(sym(1)); eq(c, m, 3); c.push_back(sym(2)); m.pb(sym(2)); eq(c, m, 3); c.pop_front(); m.of(); eq(c, m, 3); c.push_back(sym(3)); m.pb(sym(3)); eq(c, m, 3); REACHED(1); }
O(dil2) { ReservedDeque<long,2> c{sym(0)}; Model m; m.pb(sym(0)); c.push_front(sym(1)); m.pf(sym(1)); eq(c, m, 2); REACHED(1); }
O(dempty) { ReservedDeque<long,2> c; Model m; eq(c, m, 2); c.pop_front(); c.pop_back(); eq(c, m, 2); c.push_back(sym(1)); m.pb(sym(1)); eq(c, m, 2); REACHED(1); }
// all elements of a full deque: pops from both ends
O(dends) { ReservedDeque<long,3> c; Model m; for (int i = 0; i < 3; ++i) { c.push_front(sym(i)); m.pf(sym(i)); } eq(c, m, 3); c.pop_back(); m.ob(); eq(c, m, 3); c.push_front(sym(5)); m.pf(sym(5)); eq(c, m, 3); c.pop_front(); c.pop_front(); m.of(); m.of(); eq(c, m, 3); c.push_back(sym(6)); m.pb(sym(6)); eq(c, m, 3); REACHED(1); }
// overflow arrays: base array of B entries, capacity N
template<int B, int N, int size, int op> void over1() {
  using C = OverflowArray<std::array<long,B>,N>; C c; Model m; for (int k = 0; k < size; ++k) { c.push_back(sym(k)); m.pb(sym(k)); } eq(c, m, N);
  if constexpr (op == 0 && size < N) { c.push_back(sym(20)); m.pb(sym(20)); }
  if constexpr (op == 1 && size < N) { c.push_front(sym(20)); m.pf(sym(20)); }
  if constexpr (op == 2 && size > 0) { c.pop_back(); m.ob(); }
  if constexpr (op == 4) { c.clear(); m.clr(); }
  if constexpr (op == 5) { c.resize(size/2); m.n = size/2; eq(c, m, N); if (size < N) { c.resize(size + 1); c[size] = sym(40); for (int i = size/2; i < size; ++i) c[i] = sym(41 + i); for (int i = size/2; i < size; ++i) m.pb(sym(41 + i)); m.pb(sym(40)); } }
  if constexpr (op == 6) copies(c, m);
  if constexpr (op == 7) { C d(c); CHECKM("equal elements compare equal", c == d); if constexpr (size < N) { d.push_back(sym(1)); CHECKM("arrays of different size are different", !(c == d) && !(d == c)); } if constexpr (size > 0) { C e(c); e[size-1] = sym(size-1) + 1; CHECKM("arrays with a different element are different", !(c == e)); e[size-1] = sym(size-1); e[0] = sym(0) + 1; CHECKM("arrays with a different element are different", !(c == e)); C f(c); f.pop_back(); CHECKM("arrays of different size are different", !(c == f) && !(f == c)); } }
  if constexpr (op == 8) { const std::array<long,B>& b = c; for (int i = 0; i < B && i < m.n; ++i) CHECKM("the base array holds the first elements", &b[i] == &c[i]); }
  eq(c, m, N);
  if (m.n < N) { c.push_back(sym(22)); m.pb(sym(22)); eq(c, m, N); }
}
template<int B, int N, int op> void over() { [&]<std::size_t... k>(std::index_sequence<k...>) { (over1<B, N, k, op>(), ...); }(std::make_index_sequence<N+1>()); REACHED(1); }
#define OV(B,N) O(o##B##N##0) { over<B,N,0>(); } O(o##B##N##1) { over<B,N,1>(); } O(o##B##N##2) { over<B,N,2>(); } O(o##B##N##4) { over<B,N,4>(); } O(o##B##N##5) { over<B,N,5>(); } O(o##B##N##6) { over<B,N,6>(); } O(o##B##N##7) { over<B,N,7>(); } O(o##B##N##8) { over<B,N,8>(); }
OV(1,3) OV(2,3) OV(3,3) OV(2,4)
O(oil) { OverflowArray<std::array<long,2>,4> c{sym(0), sym(1), sym(2)}; Model m; for (int i = 0; i < 3; ++i) m.pb(sym(i)); eq(c, m, 4); REACHED(1); }
O(ofill) { OverflowArray<std::array<long,2>,4> c{sym(0), sym(1), sym(2)}; const auto& cc = c; CHECK(cc.size() == 3); REACHED(1); }
#else
// static multi-indices
using S1 = StaticMultiIndex<std::size_t,1>; using S3 = StaticMultiIndex<std::size_t,3>;
O(s1) { S1 m{(std::size_t)sym(1)}; const S1& c = m; const std::size_t& r = c; CHECKM("a single digit converts to a reference to it", &r == &m[0]); std::size_t& w = m; CHECKM("a single digit converts to a reference to it", &w == &m[0]); w = sym(2); CHECK(m[0] == (std::size_t)sym(2)); static_assert(S1::size() == 1 && S1::max_size() == 1 && std::tuple_size_v<S1> == 1); REACHED(1); }
O(s3) { static_assert(S3::size() == 3 && S3::max_size() == 3 && std::tuple_size_v<S3> == 3); S3 a{(std::size_t)sym(1), (std::size_t)sym(2), (std::size_t)sym(3)}; S3 b = a; CHECKM("equal multi-indices have equal hashes", std::hash<S3>()(a) == std::hash<S3>()(b) && hash_value(a) == std::hash<S3>()(b)); REACHED(1); }
O(s1h) { S1 a{(std::size_t)sym(1)}, b{(std::size_t)sym(1)}; CHECKM("equal multi-indices have equal hashes", std::hash<S1>()(a) == std::hash<S1>()(b)); REACHED(1); }
#endif
