// Stand-in for the gcem library, which is a submodule that is not in the tree:
// its interface (function templates, results of the promoted type) over the
// standard library's functions, which gcc evaluates in constant expressions.
#pragma once
#include <cmath>
#include <limits>
#include <type_traits>

namespace gcem {
template <class T> using return_t = typename std::conditional<std::is_integral<T>::value, double, T>::type;
template <class... T> using common_t = typename std::common_type<T...>::type;
template <class... T> using common_return_t = return_t<common_t<T...>>;

#define GCEM_STUB_1(name)                                                                          \
  template <class T> constexpr return_t<T> name(T const x) noexcept { return ::std::name(static_cast<return_t<T>>(x)); }
#define GCEM_STUB_2(name)                                                                          \
  template <class T1, class T2> constexpr common_return_t<T1, T2> name(T1 const x, T2 const y) noexcept {        \
    return ::std::name(static_cast<common_return_t<T1, T2>>(x), static_cast<common_return_t<T1, T2>>(y));        \
  }
GCEM_STUB_1(acos) GCEM_STUB_1(acosh) GCEM_STUB_1(asin) GCEM_STUB_1(asinh) GCEM_STUB_1(atan) GCEM_STUB_1(atanh)
GCEM_STUB_1(ceil) GCEM_STUB_1(cos) GCEM_STUB_1(cosh) GCEM_STUB_1(erf) GCEM_STUB_1(exp) GCEM_STUB_1(expm1)
GCEM_STUB_1(floor) GCEM_STUB_1(lgamma) GCEM_STUB_1(log) GCEM_STUB_1(log10) GCEM_STUB_1(log1p) GCEM_STUB_1(log2)
GCEM_STUB_1(round) GCEM_STUB_1(sin) GCEM_STUB_1(sinh) GCEM_STUB_1(sqrt) GCEM_STUB_1(tan) GCEM_STUB_1(tanh)
GCEM_STUB_1(tgamma) GCEM_STUB_1(trunc)
GCEM_STUB_2(atan2) GCEM_STUB_2(fmod) GCEM_STUB_2(pow)
#undef GCEM_STUB_1
#undef GCEM_STUB_2

template <class T> constexpr T abs(T const x) noexcept { return x == T(0) ? T(0) : x < T(0) ? -x : x; }
template <class T> constexpr bool signbit(T const x) noexcept { return __builtin_signbit(static_cast<return_t<T>>(x)) != 0; }
template <class T1, class T2> constexpr T1 copysign(T1 const x, T2 const y) noexcept { return signbit(x) != signbit(y) ? -x : x; }
template <class T1, class T2> constexpr common_t<T1, T2> max(T1 const x, T2 const y) noexcept { return x < y ? y : x; }
template <class T1, class T2> constexpr common_t<T1, T2> min(T1 const x, T2 const y) noexcept { return y < x ? y : x; }
template <class T1, class T2> constexpr return_t<T1> lmgamma(T1 const a, T2 const p) noexcept {
  return p <= 1 ? lgamma(a) : ::std::log(return_t<T1>(3.14159265358979323846L)) * (static_cast<return_t<T1>>(p) - 1) / 2 + lgamma(a) +
                                  lmgamma(a - return_t<T1>(0.5), p - 1);
}
} // namespace gcem
