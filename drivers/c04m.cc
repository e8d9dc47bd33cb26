// C04: copies of local functions and local views are independent of their source, for every state of source and target
#include "lf.hh"
template<class F> auto local(const F& f) { if constexpr (requires { f.localView(); }) return f.localView(); else return localFunction(f); }
struct LVK;
template<class L> void viewIsAt(const L& l, int k);
template<class L, class K> void stateIs(const L& l, int k) { if (k) { if constexpr (std::is_same_v<K,LVK>) viewIsAt(l, k); else isAt<K>(l, k); } else CHECKM("bound() reports that the object is unbound", !l.bound()); }
// a local function in a buffer that is overwritten when it is destroyed
template<class L> struct Box { alignas(L) unsigned char s[sizeof(L)]; L* p; template<class F> Box(const F& f) { p = new(s) L(local(f)); } void kill() { p->~L(); for (auto& b : s) b = 0x7b; } };
// move: source is moved from (only destroyed afterwards); s, t: element source and target are bound to (0: unbound)
template<class K, class L> void use(L& c, Box<L>& b, int s, bool move) {
  stateIs<L,K>(c, s);
  if (!move) { b.p->bind(el<K>(3)); stateIs<L,K>(c, s); b.p->unbind(); stateIs<L,K>(c, s); }
  b.kill(); stateIs<L,K>(c, s);
  c.bind(el<K>(4)); stateIs<L,K>(c, 4);
}
template<class K, bool move, int s> void construct() {
  auto f = K::make(); using L = decltype(local(f)); Box<L> b(f); if (s) b.p->bind(el<K>(s));
  if constexpr (move) { L c(std::move(*b.p)); use<K>(c, b, s, true); } else { L c(*b.p); use<K>(c, b, s, false); } REACHED(1);
}
template<class K, bool move, int s, int t> void assign() {
  auto f = K::make(); using L = decltype(local(f));
  if constexpr (std::is_copy_assignable_v<L>) { Box<L> b(f); if (s) b.p->bind(el<K>(s)); L c = local(f); if (t) c.bind(el<K>(t)); if constexpr (move) c = std::move(*b.p); else c = *b.p; use<K>(c, b, s, move); }
  REACHED(2);
}
// the copy is changed, the source is not
template<class K, int s> void source() {
  auto f = K::make(); auto l = local(f); if (s) l.bind(el<K>(s)); { auto c = l; c.bind(el<K>(3)); stateIs<decltype(l),K>(l, s); c.unbind(); stateIs<decltype(l),K>(l, s); } stateIs<decltype(l),K>(l, s); REACHED(3);
}
template<class K, int s> void self() {
  auto f = K::make(); auto l = local(f); if (s) l.bind(el<K>(s));
  if constexpr (std::is_copy_assignable_v<decltype(l)>) { auto& r = l; l = r; } stateIs<decltype(l),K>(l, s); l.bind(el<K>(4)); stateIs<decltype(l),K>(l, 4); REACHED(4);
}
#define CP(K) O(ccb_##K) { construct<K,false,1>(); } O(ccu_##K) { construct<K,false,0>(); } O(mcb_##K) { construct<K,true,1>(); } O(mcu_##K) { construct<K,true,0>(); } \
  O(cabb_##K) { assign<K,false,1,2>(); } O(cabu_##K) { assign<K,false,1,0>(); } O(caub_##K) { assign<K,false,0,2>(); } O(mabb_##K) { assign<K,true,1,2>(); } O(mabu_##K) { assign<K,true,1,0>(); } O(maub_##K) { assign<K,true,0,2>(); } O(srcb_##K) { source<K,1>(); } O(srcu_##K) { source<K,0>(); } O(selfb_##K) { self<K,1>(); }
#ifdef KIND
#define CPX(K) CP(K)
CPX(KIND)
#else
// local views
using FB = DefaultGlobalBasis<PowerPreBasis<BF::BlockedInterleaved, Pre<0,1,2>, 2>>;
struct LVK { static auto make() { return FB(Pre<0,1,2>(gv())); } };
template<class L> void viewIsAt(const L& l, int k) {
  CHECKM("bound() reports that the local view is bound", l.bound());
  CHECKM("element() is the element bound to last", l.element().id == sym(k));
  CHECKM("size() is that of the bound element", l.size() == 4);
  for (int c = 0; c < 2; ++c) { CHECKM("the nodes are bound to the element", l.tree().child(c).element().id == sym(k)); CHECKM("the nodes refer to the element of their own local view", &l.tree().child(c).element() == &l.element()); for (int i = 0; i < 2; ++i) { auto m = l.index(l.tree().child(c).localIndex(i)); CHECKM("the indices are those of the bound element", m[0] == (Pre<0,1,2>::digit(sym(k), i, 0)) && m[1] == c); } }
}
CP(LVK)
#endif
