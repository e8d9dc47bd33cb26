// Obligation witnesses: CHECK(cond) must be eliminated by the compiler's value
// analysis (SSA value numbering, constant propagation, dead-branch elimination)
// for every value of the symbolic inputs sym(k).
#ifndef VERIF_M2_HH
#define VERIF_M2_HH
#include <config.h>
extern "C" {
  [[noreturn]] void VIOLATED(int line, const char* what) noexcept;
  void REACHED(int line) noexcept;
#ifdef VERIF_CONST
  // a concrete instance used only to confirm an undischarged obligation
  static inline constexpr long sym(int k) noexcept { constexpr long t[][8] = {{3,5,2,7,11,4,9,6},{0,1,2,3,4,5,6,7},{1,1,1,1,1,1,1,1},{7,0,5,0,3,0,2,1},{12,40,17,23,31,19,37,29}}; return t[VERIF_CONST][k&7] + (VERIF_CONST==2 ? 0 : (k>>3)*13); }
#else
  long sym(int k) noexcept __attribute__((const));
#endif
#ifdef VERIF_CONST
  static inline constexpr double symd(int k) noexcept { return double(sym(k)); }
  // an uninterpreted function of (tag, a, x)
  static inline constexpr double feval(long tag, long a, double x) noexcept { return double(tag)*7 + double(a % 97)*31 + x*3; }
  static inline constexpr long ieval(long tag, long a, long x) noexcept { return tag*7 + a*31 + x*3; }
#else
  double symd(int k) noexcept __attribute__((const));
  double feval(long tag, long a, double x) noexcept __attribute__((const));
  long ieval(long tag, long a, long x) noexcept __attribute__((const));
#endif
}
// equality of values (NaN and signed zero are not distinguished from themselves); constant instances are compared up to rounding
#ifdef VERIF_CONST
inline bool same(double a, double b) { double d = a < b ? b - a : a - b, s = (a < 0 ? -a : a) + (b < 0 ? -b : b); return d <= 1e-9*(1 + s) || a == b || (a != a && b != b); }
#else
inline bool same(double a, double b) { long x, y; __builtin_memcpy(&x, &a, 8); __builtin_memcpy(&y, &b, 8); return x == y; }
#endif
#define CHECK(...) do { if (!(__VA_ARGS__)) VIOLATED(__LINE__, #__VA_ARGS__); } while(0)
#define CHECKM(msg, ...) do { if (!(__VA_ARGS__)) VIOLATED(__LINE__, msg); } while(0)
#define REACH() REACHED(__LINE__)
#endif
