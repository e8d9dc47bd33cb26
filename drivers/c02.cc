// C02: PolymorphicSmallObject / type erasure: every wrapped object is destroyed exactly once,
// copies are independent and equal, moves transfer, in every combination of storage modes.
#include "m2.hh"
#include <cstdlib>
#include <utility>
#include <new>
#include <dune/functions/common/polymorphicsmallobject.hh>

static long ctors, dtors, news, dels, bad; static bool failing;
// a copy that fails
struct Failure {};
struct Base {
  long value; bool big;
  Base(long v, bool b) : value(v), big(b) { ++ctors; }
  Base(const Base& o) : value(o.value), big(o.big) { if (failing) throw Failure(); ++ctors; }
  Base(Base&& o) noexcept : value(o.value), big(o.big) { o.value = -1; ++ctors; }
  ~Base() { ++dtors; }
  Base* clone() const;
  Base* clone(void* b) const;
  Base* move(void* b);
  static void* operator new(std::size_t n) { ++news; return std::malloc(n); }
  static void* operator new(std::size_t, void* p) { return p; }
  static void operator delete(void* p) { ++dels; std::free(p); }
};
struct Small : Base { Small(long v) : Base(v, false) {} };
struct Big : Base { Big(long v) : Base(v, true) {} char pad[128]; };
inline Base* Base::clone() const { if (!big) ++bad; return new Big(static_cast<const Big&>(*this)); }
inline Base* Base::clone(void* b) const { if (big) ++bad; return new (b) Small(static_cast<const Small&>(*this)); }
inline Base* Base::move(void* b) { if (big) ++bad; return new (b) Small(std::move(static_cast<Small&>(*this))); }

using PSO = Dune::Functions::PolymorphicSmallObject<Base, 32>;

// mode 0: empty, 1: small, 2: big
template<int M> struct Init;
template<> struct Init<0> { PSO o; Init(long) {} };
template<> struct Init<1> { PSO o; Init(long v) : o(Small(v)) {} };
template<> struct Init<2> { PSO o; Init(long v) : o(Big(v)) {} };

template<int M> void expect(const PSO& o, long v) {
  CHECKM("an empty wrapper stays empty and a filled one filled", bool(o) == (M != 0));
  if constexpr (M != 0) {
    CHECKM("the stored object keeps its value", o.get().value == v);
    CHECKM("the stored object keeps its type", o.get().big == (M == 2));
    CHECKM("small objects live in the buffer, large ones do not", o.bufferUsed() == (M == 1));
  }
}
inline void begin() { failing = false; ctors = dtors = news = dels = bad = 0; }
inline void balanced(int n) {
  CHECKM("every wrapped object is destroyed exactly once", ctors == dtors);
  CHECKM("every dynamically allocated wrapper is freed exactly once", news == dels);
  CHECKM("clone/move use the storage the object needs", bad == 0);
  REACHED(n);
}
#define O(n) extern "C" void o_##n()
template<int M> void life() { begin(); { Init<M> a(sym(1)); expect<M>(a.o, sym(1)); } balanced(1); }
template<int M> void copy() { begin(); { Init<M> a(sym(1)); { PSO b(std::as_const(a.o)); expect<M>(b, sym(1)); if constexpr (M != 0) { b.get().value = sym(2); CHECKM("a copy has its own object", &b.get() != &a.o.get()); } expect<M>(a.o, sym(1)); } expect<M>(a.o, sym(1)); } balanced(2); }
template<int M> void move() { begin(); { Init<M> a(sym(1)); PSO b(std::move(a.o)); expect<M>(b, sym(1)); } balanced(3); }
template<int M, int N> void casgn() { begin(); { Init<M> a(sym(1)); Init<N> b(sym(2)); PSO& r = (a.o = std::as_const(b.o)); CHECKM("assignment returns the target", &r == &a.o); expect<N>(a.o, sym(2)); expect<N>(b.o, sym(2)); if constexpr (N != 0) { a.o.get().value = sym(3); CHECKM("a copy has its own object", &a.o.get() != &b.o.get()); } expect<N>(b.o, sym(2)); } balanced(4); }
template<int M, int N> void masgn() { begin(); { Init<M> a(sym(1)); Init<N> b(sym(2)); PSO& r = (a.o = std::move(b.o)); CHECKM("assignment returns the target", &r == &a.o); expect<N>(a.o, sym(2)); } balanced(5); }
template<int M> void self() { begin(); { Init<M> a(sym(1)); PSO& r = a.o; a.o = r; expect<M>(a.o, sym(1)); } balanced(6); }
// the moved-from wrapper can be assigned again
template<int M, int N> void reuse() { begin(); { Init<M> a(sym(1)); PSO b(std::move(a.o)); Init<N> c(sym(2)); a.o = std::as_const(c.o); expect<N>(a.o, sym(2)); expect<M>(b, sym(1)); } balanced(7); }
// a failing copy propagates the exception, leaks nothing and leaves both wrappers destructible
template<int M, int N> void fail() { begin(); { Init<M> a(sym(1)); Init<N> b(sym(2)); bool caught = false; failing = true; try { a.o = std::as_const(b.o); } catch (Failure&) { caught = true; } failing = false; CHECKM("a failing copy is reported", caught == (N != 0)); expect<N>(b.o, sym(2)); } balanced(8); }
template<int N> void cfail() { begin(); { Init<N> b(sym(2)); bool caught = false; failing = true; try { PSO a(std::as_const(b.o)); } catch (Failure&) { caught = true; } failing = false; CHECKM("a failing copy is reported", caught == (N != 0)); expect<N>(b.o, sym(2)); } balanced(9); }
#define ONE(f) O(f##0) { f<0>(); } O(f##1) { f<1>(); } O(f##2) { f<2>(); }
#define TWO(f) O(f##00) { f<0,0>(); } O(f##01) { f<0,1>(); } O(f##02) { f<0,2>(); } O(f##10) { f<1,0>(); } O(f##11) { f<1,1>(); } O(f##12) { f<1,2>(); } O(f##20) { f<2,0>(); } O(f##21) { f<2,1>(); } O(f##22) { f<2,2>(); }
ONE(life) ONE(copy) ONE(move) TWO(casgn) TWO(masgn) ONE(self) TWO(reuse) TWO(fail) ONE(cfail)
// any size and alignment of the stored type: the object is suitably aligned, lies completely inside the storage it was given and is not
// overlapped by the wrapper's own data
template<int P, int A> struct alignas(A) Fill : Base { char pad[P]; Fill(long v, char c) : Base(v, false) { for (auto& x : pad) x = c; }
  static void* operator new(std::size_t n) { ++news; return std::aligned_alloc(A, n); }
  static void* operator new(std::size_t, void* p) { return p; } };
template<int P, int A> void fits() {
  begin();
  { using F = Fill<P,A>; PSO o{F(sym(1), char(sym(2)))};
    const char *b = reinterpret_cast<const char*>(&o), *p = reinterpret_cast<const char*>(&static_cast<F&>(o.get()));
    if (o.bufferUsed()) {
      CHECKM("an object in the buffer lies inside of the wrapper", p - b >= 0 && p - b + sizeof(F) <= sizeof(PSO));
      CHECKM("an object in the buffer is suitably aligned", alignof(PSO) % alignof(F) == 0 && (p - b) % alignof(F) == 0);
    }
    CHECKM("a stored object does not overlap the wrapper's own data", bool(o) && &static_cast<F&>(o.get()) == (const void*)p && o.get().value == sym(1)); }
  CHECKM("every wrapped object is destroyed exactly once", ctors == dtors); CHECKM("every dynamically allocated wrapper is freed exactly once", news == dels); REACHED(10);
}
O(fit1) { fits<1,8>(); } O(fit15) { fits<15,8>(); } O(fit16) { fits<16,8>(); } O(fit17) { fits<17,8>(); } O(fit24) { fits<24,8>(); } O(fit25) { fits<25,8>(); } O(fit32) { fits<32,8>(); } O(fit40) { fits<40,8>(); } O(fit48) { fits<48,8>(); }
O(fita16) { fits<16,16>(); } O(fita17) { fits<17,16>(); } O(fita32) { fits<8,32>(); }
using PSO1 = Dune::Functions::PolymorphicSmallObject<Base, 128>;
template<int P, int A> void fits128() {
  begin();
  { using F = Fill<P,A>; PSO1 o{F(sym(1), char(sym(2)))};
    const char *b = reinterpret_cast<const char*>(&o), *p = reinterpret_cast<const char*>(&static_cast<F&>(o.get()));
    if (o.bufferUsed()) {
      CHECKM("an object in the buffer lies inside of the wrapper", p - b >= 0 && p - b + sizeof(F) <= sizeof(PSO1));
      CHECKM("an object in the buffer is suitably aligned", alignof(PSO1) % alignof(F) == 0 && (p - b) % alignof(F) == 0);
    }
    CHECKM("a stored object does not overlap the wrapper's own data", bool(o) && o.get().value == sym(1)); }
  CHECKM("every wrapped object is destroyed exactly once", ctors == dtors); CHECKM("every dynamically allocated wrapper is freed exactly once", news == dels); REACHED(11);
}
O(fitb16) { fits128<16,16>(); } O(fitb32) { fits128<16,32>(); } O(fitb64) { fits128<16,64>(); } O(fitb128) { fits128<16,128>(); } O(fitbl) { fits128<112,16>(); } O(fitbm) { fits128<113,16>(); }
