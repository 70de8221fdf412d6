// A second translation unit that includes everything, in the opposite order, and
// uses the same instantiations.
#ifndef MATH
#define MATH 1
#endif
#ifdef __clang__ // its standard library functions are not constant expressions
#define KEPT static const
#else
#define KEPT static constexpr
#endif
#include <embedded/varint.h>
#include <embedded/utility/integer_sequence.h>
#include <embedded/typelist.h>
#include <embedded/type_traits/is_invocable.h>
#include <embedded/type_traits/conjunction.h>
#include <embedded/type_traits.h>
#if MATH
#include "stub/fpm.h"
#include <embedded/signal/sos.h>
#include <embedded/signal/poly.h>
#include <embedded/signal/filter.h>
#include <embedded/signal/debug_filter_coefs.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/bessel.h>
#include <embedded/ostream_ops.h>
#include <embedded/constexpr_math/vector.h>
#include <embedded/constexpr_math/poly.h>
#include <embedded/constexpr_math/functions.h>
#include <embedded/constexpr_math/convolve.h>
#include <embedded/constexpr_math/constants.h>
#include <embedded/constexpr_math/complex.h>
#include <embedded/constexpr_math.h>
#include <sstream>
#endif
#include <embedded/preprocessor.h>
#include <embedded/mutex.h>
#include <embedded/move_wrapper.h>
#include <embedded/function.h>
#include <embedded/config.h>
#include <embedded/circular_buffer_adapter.h>
#include <string>

static int plain(int i) { return i + 100; }
#if MATH
namespace es = embedded::signal;
KEPT auto kept = es::iirfilter<double>(1000).lowpass(es::butterworth<3>(), 100).sos<double>();
LIBEMB_DEBUG_FILTER_COEFS_NAME(kept, "kept too");
#endif
std::string second_unit();
std::string second_unit() {
  std::string s;
  int mem[3] = {1, 2, 3};
  embedded::circular_buffer_adapter<int> a(mem, 3, 2, 2);
  a.push_back(9);
  for (int i : a) s += std::to_string(i) + " ";
  embedded::function<int(int)> f(plain), g, h([](int i) { return i * 2; });
  g = static_cast<embedded::function<int(int)>&&>(f);
  s += std::to_string(bool(f)) + std::to_string(g(1)) + " " + std::to_string(h(21)) + " ";
  uint8_t buf[10];
  s += std::to_string(embedded::varint::encode(300, buf, buf + 10) - buf) + " ";
  embedded::move_wrapper<std::string> w(std::string("w"));
  s += *w + " " + std::to_string(embedded::conjunction<>::value) + " " + std::to_string(embedded::make_index_sequence<4>::size());
#if MATH
  std::ostringstream os;
  auto i = kept.instance();
  os.precision(6);
  os << " " << i(1) << " " << embedded::cmath::complex<double>(1, -2) << embedded::cmath::vector<float, 2>{1.f, 2.f};
  s += os.str();
#endif
  return s;
}
