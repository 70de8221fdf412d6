// C32: the elementary functions and constants of cmath against the library
// they come from: -DBASE=std or -DBASE=gcem (with the stand-in for gcem).
#include <embedded/constexpr_math/functions.h> // first: it has to bring along what it needs
#include <embedded/constexpr_math/constants.h>
#include "verif.h"
#include <limits>
#include <type_traits>
using namespace verif;
namespace cm = embedded::cmath;
#ifndef GCEM
#define GCEM 0
#endif
#if GCEM
namespace base = gcem;
#else
namespace base = std;
#endif

template <class T> static std::vector<T> values(bool th) {
  typedef std::numeric_limits<T> L;
  std::vector<T> v;
  auto both = [&](T x) { v.push_back(x), v.push_back(-x); };
  both(T(0));
  for (T x : {T(1), T(0.5L), T(2), T(3), T(10), T(0.1L), T(1) / T(3), T(0.75L), T(1.5L), T(2.5L), T(0.7071067811865475244L), T(2.718281828459045235L), T(3.14159265358979323846L),
              T(1.57079632679489661923L), T(0.785398163397448309616L), T(6.25L), T(7), T(20), T(33.3L), T(80), T(100), T(170.5L), T(1000), T(1e5L), T(1e-3L), T(1e-7L), T(1e-20L), T(1e20L)})
    both(x);
  for (T x : {L::max(), L::min(), L::denorm_min(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, L::infinity()}) both(x);
  both(L::quiet_NaN());
  for (int i = 0; i < (th ? 400 : 60); ++i) both(T(i) * T(0.0625L) + T(0.03125L)); // quarters, halves and between
  for (int e = L::min_exponent + 1; e < L::max_exponent; e += th ? 3 : (L::max_exponent > 2000 ? 911 : 31)) both(std::ldexp(T(1.25L), e));
  return v;
}
template <> std::vector<int> values<int>(bool) { return {0, 1, -1, 2, -2, 3, 4, 5, 7, 9, 10, -10, 16, 33, 100, -100, 1000, 65536, 2147483647, -2147483647}; }
template <> std::vector<long long> values<long long>(bool) { return {0, 1, -1, 2, 4, 10, -10, 100, 1ll << 40, -(1ll << 40)}; }
template <> std::vector<unsigned> values<unsigned>(bool) { return {0u, 1u, 2u, 4u, 10u, 100u, 65536u}; }

template <class A, class B> static bool same(A const& a, B const& b) {
  return std::is_same<A, B>::value && ((a != a && b != b) || (a == b && std::signbit((long double)a) == std::signbit((long double)b)));
}
static unsigned long long cases;
static void bad(char const* f, char const* type, long double x, long double y, long double got, long double want) {
  V_FAIL(strf("%s:%s", f, type), "%s(%.21Lg, %.21Lg) for %s is %.21Lg, and %.21Lg in the underlying library", f, x, y, type, got, want);
}

template <class T> static void unary(char const* type, bool th) {
#define F1(f)                                                                                                                                    \
  {                                                                                                                                              \
    static_assert(std::is_same<decltype(cm::f(T())), decltype(base::f(T()))>::value, "the result type of " #f);                                  \
    for (T x : values<T>(th)) {                                                                                                                  \
      ++beat(), ++cases;                                                                                                                         \
      auto const g = cm::f(x);                                                                                                                   \
      auto const w = base::f(x);                                                                                                                 \
      if (!same(g, w)) bad(#f, type, x, 0, g, w);                                                                                                \
    }                                                                                                                                            \
    R().distinct_n++;                                                                                                                            \
  }
  F1(acos) F1(acosh) F1(asin) F1(asinh) F1(atan) F1(atanh) F1(ceil) F1(cos) F1(cosh) F1(erf) F1(exp) F1(expm1) F1(floor) F1(lgamma) F1(log) F1(log10)
  F1(log1p) F1(log2) F1(round) F1(sin) F1(sinh) F1(sqrt) F1(tan) F1(tanh) F1(tgamma) F1(trunc)
}
template <class T> static void absolute(char const* type, bool th) {
  F1(abs)
}
template <class T> static void sign(char const* type, bool th) {
  F1(signbit)
#undef F1
}
template <class A, class B> static void binary(char const* type, bool th) {
#define F2(f)                                                                                                                                    \
  {                                                                                                                                              \
    static_assert(std::is_same<decltype(cm::f(A(), B())), decltype(base::f(A(), B()))>::value, "the result type of " #f);                        \
    for (A x : values<A>(th))                                                                                                                    \
      for (B y : values<B>(th)) {                                                                                                                \
        ++beat(), ++cases;                                                                                                                       \
        auto const g = cm::f(x, y);                                                                                                              \
        auto const w = base::f(x, y);                                                                                                            \
        if (!same(g, w)) bad(#f, type, x, y, g, w);                                                                                              \
      }                                                                                                                                          \
    R().distinct_n++;                                                                                                                            \
  }
  F2(atan2) F2(fmod) F2(pow) F2(copysign)
}
// in every language mode the standard's: the first of equivalent operands
template <class T> static void extremes(char const* type, bool th) {
  for (T const& x : values<T>(th))
    for (T const& y : values<T>(th)) {
      ++cases;
      T const a = x, b = y;
      auto const lo = cm::min(a, b);
      auto const hi = cm::max(a, b);
      T const wl = b < a ? b : a, wh = a < b ? b : a;
      if (!same(lo, wl)) bad("min", type, x, y, lo, wl);
      if (!same(hi, wh)) bad("max", type, x, y, hi, wh);
#if !GCEM
      if (&cm::min(a, b) != (b < a ? &b : &a)) V_FAIL(strf("min-ref:%s", type), "min(%.21Lg, %.21Lg) is the wrong one of its operands", (long double)a, (long double)b);
      if (&cm::max(a, b) != (a < b ? &b : &a)) V_FAIL(strf("max-ref:%s", type), "max(%.21Lg, %.21Lg) is the wrong one of its operands", (long double)a, (long double)b);
#endif
    }
  R().distinct_n += 2;
}
template <class T> static void pi(char const* type, T want) {
  static_assert(std::is_same<decltype(cm::pi<T>()), T>::value && noexcept(cm::pi<T>()), "pi");
  constexpr T p = cm::pi<T>();
  ++cases;
  if (p != want) V_FAIL(strf("pi:%s", type), "pi is %.21Lg for %s", (long double)p, type);
}

#ifndef __clang__
// the same in constant expressions
#define CE(f, x)                                                                                                                                 \
  static_assert(cm::f(x) == base::f(x) && cm::f(float(x)) == base::f(float(x)) && cm::f((long double)(x)) == base::f((long double)(x)), #f " in a constant expression")
CE(acos, 0.25); CE(acosh, 1.75); CE(asin, -0.625); CE(asinh, 0.8); CE(atan, 3.5); CE(atanh, 0.3); CE(ceil, 1.25); CE(cos, 1.1); CE(cosh, 0.7); CE(erf, 0.4);
CE(exp, 2.25); CE(expm1, 0.01); CE(floor, -1.25); CE(log, 7.5); CE(log10, 55.0); CE(log1p, 0.02); CE(log2, 9.0); CE(round, 2.5); CE(sin, 0.6);
CE(sinh, 0.9); CE(sqrt, 2.0); CE(tan, 0.3); CE(tanh, 0.2); CE(tgamma, 3.5); CE(trunc, -2.75); CE(abs, -3.25); CE(signbit, -1.0);
static_assert(cm::pow(2.5, 3.25) == base::pow(2.5, 3.25) && cm::pow(2.5f, 3) == base::pow(2.5f, 3) && cm::atan2(1.0, -2.0) == base::atan2(1.0, -2.0) &&
                  cm::fmod(7.5, 2.0) == 1.5 && cm::copysign(2.0, -1.0) == -2.0, "functions of two arguments in a constant expression");
static_assert(cm::min(3, 4) == 3 && cm::min(4, 3) == 3 && cm::max(3, 4) == 4 && cm::max(4, 3) == 4, "extremes in a constant expression");
#endif

int main(int argc, char** argv) {
  init(argc, argv);
  bool const th = R().thorough;
  unary<float>("float", th), unary<double>("double", th), unary<long double>("long double", th), unary<int>("int", th), unary<long long>("long long", th);
  absolute<float>("float", th), absolute<double>("double", th), absolute<long double>("long double", th), absolute<int>("int", th), absolute<long long>("long long", th);
  sign<float>("float", th), sign<double>("double", th), sign<long double>("long double", th);
  binary<float, float>("float", th), binary<double, double>("double", th), binary<long double, long double>("long double", false);
  binary<double, int>("double and int", th), binary<float, int>("float and int", th), binary<int, int>("int", th), binary<double, unsigned>("double and unsigned", th);
  extremes<float>("float", th), extremes<double>("double", th), extremes<long double>("long double", false), extremes<int>("int", th), extremes<long long>("long long", th);
  pi<float>("float", 0x1.921fb6p+1f), pi<double>("double", 0x1.921fb54442d18p+1), pi<long double>("long double", 0xc.90fdaa22168c235p-2L);
  R().evaluations += cases;
  R().sample("the standard's " "or gcem's results, bit for bit, for every function, argument and type");
  R().finish();
}
