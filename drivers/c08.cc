// C08: life cycle of local functions
#include "lf.hh"
template<class K> void life() {
  auto f = K::make(); auto l = localFunction(f); CHECKM("a new local function is unbound", !l.bound());
  l.bind(el<K>(1)); isAt<K>(l, 1); REACHED(1);
}
template<class K> void rebind() { auto f = K::make(); auto l = localFunction(f); l.bind(el<K>(1)); l.bind(el<K>(2)); isAt<K>(l, 2); REACHED(2); }
template<class K> void unbind() { auto f = K::make(); auto l = localFunction(f); l.bind(el<K>(1)); l.unbind(); CHECKM("bound() reports that the local function is unbound", !l.bound()); l.bind(el<K>(2)); isAt<K>(l, 2); REACHED(3); }
template<class K> void two() { auto f = K::make(); auto l = localFunction(f); auto m = localFunction(f); l.bind(el<K>(1)); CHECKM("local functions of one function are independent", !m.bound()); m.bind(el<K>(2)); isAt<K>(l, 1); isAt<K>(m, 2); REACHED(4); }
// a local function obtained from a function that no longer exists
template<class K> void outlive() {
  using F = decltype(K::make()); alignas(F) unsigned char s[sizeof(F)];
  auto p = new(s) F(K::make()); auto l = localFunction(*p); p->~F(); for (auto& b : s) b = 0x7b;
  l.bind(el<K>(1)); isAt<K>(l, 1); REACHED(5);
}
template<class K> struct D { static double value(long id, double x) { return K::dvalue(id, x); } };
// derivatives: of the function, of an unbound and of a bound local function
template<class K> void dglobal() { auto f = K::make(); auto d = derivative(f); auto l = localFunction(d); CHECKM("a new local function is unbound", !l.bound()); l.bind(el<K>(1)); isAt<D<K>>(l, 1); REACHED(6); }
template<class K> void dunbound() { auto f = K::make(); auto l = localFunction(f); auto d = derivative(l); CHECKM("the derivative of an unbound local function is unbound", !d.bound()); d.bind(el<K>(1)); CHECKM("the local function stays unbound", !l.bound()); isAt<D<K>>(d, 1); REACHED(7); }
template<class K> void dbound() { auto f = K::make(); auto l = localFunction(f); l.bind(el<K>(1)); auto d = derivative(l); isAt<D<K>>(d, 1); isAt<K>(l, 1); l.bind(el<K>(2)); isAt<D<K>>(d, 1); d.bind(el<K>(3)); isAt<K>(l, 2); isAt<D<K>>(d, 3); REACHED(8); }
template<class K> void dunbind() { auto f = K::make(); auto l = localFunction(f); l.bind(el<K>(1)); l.unbind(); auto d = derivative(l); CHECKM("the derivative of an unbound local function is unbound", !d.bound()); d.bind(el<K>(2)); isAt<D<K>>(d, 2); d.unbind(); CHECKM("unbind() unbinds the derivative", !d.bound()); REACHED(9); }
// rebinding to an element of another refinement level: A and B describe the function on elements of the two levels
template<class K, class A, class B> void levels() { auto f = K::make(); auto l = localFunction(f); l.bind(el<A>(1)); l.bind(el<B>(2)); isAt<B>(l, 2); l.bind(el<A>(3)); isAt<A>(l, 3); REACHED(10); }
template<class K, class A, class B> void dlevels() { auto f = K::make(); auto l = localFunction(f); l.bind(el<A>(1)); auto d = derivative(l); l.bind(el<B>(2)); isAt<D<A>>(d, 1); d.bind(el<B>(2)); isAt<B>(l, 2); isAt<D<B>>(d, 2); d.bind(el<A>(3)); isAt<D<A>>(d, 3); REACHED(11); }
#define BASIC(n) O(life_##n) { life<n>(); } O(rebind_##n) { rebind<n>(); } O(unbind_##n) { unbind<n>(); } O(two_##n) { two<n>(); }
#define ALL(n) BASIC(n) O(outlive_##n) { outlive<n>(); }
#define DER(n) O(dglobal_##n) { dglobal<n>(); } O(dunbound_##n) { dunbound<n>(); } O(dbound_##n) { dbound<n>(); } O(dunbind_##n) { dunbind<n>(); }
#if PART==0
ALL(KAnalytic) ALL(KAnalyticD) BASIC(KComposed) ALL(KFaceNormal)
#elif PART==1
ALL(KDiscrete)
#elif PART==2
ALL(KDiscreteD)
#elif PART==3
ALL(KCoarse0) ALL(KCoarse1)
#elif PART==4
ALL(KCoarse2)
#elif PART==5
ALL(KFine0)
#elif PART==6
ALL(KFine1) ALL(KFine2)
#elif PART==7
DER(KAnalytic) DER(KAnalyticD) 
#elif PART==8
DER(KDiscrete)
#elif PART==9
DER(KCoarse0) DER(KCoarse1)
#elif PART==10
DER(KCoarse2)
#elif PART==11
DER(KFine0)
#elif PART==12
DER(KFine1) DER(KFine2)
#elif PART==13
O(lv01) { levels<KCoarse2,KCoarse0,KCoarse1>(); } O(lv12) { levels<KCoarse2,KCoarse1,KCoarse2>(); } O(lv20) { levels<KCoarse2,KCoarse2,KCoarse0>(); }
#elif PART==14
O(dlv01) { dlevels<KCoarse2,KCoarse0,KCoarse1>(); } O(dlv12) { dlevels<KCoarse2,KCoarse1,KCoarse2>(); } O(dlv20) { dlevels<KCoarse2,KCoarse2,KCoarse0>(); }
#elif PART==15
O(lf) { levels<KFine1,KFine0,KFine1>(); } O(lg) { levels<KFine1,KFine1,KFine0>(); } O(dlf) { dlevels<KFine1,KFine0,KFine1>(); } O(dlg) { dlevels<KFine1,KFine1,KFine0>(); }
#endif
