// C30: everything the output operators print, read back by a parser of its own,
// for all combinations of values from a list, sizes, nestings and stream states.
// -DPART=0 complex numbers  1 vectors and arrays  2 sections, filters and zero-pole-gain descriptions
#include "verif.h"
#include <cmath>
#include <iomanip>
#include <limits>
#include <sstream>
// the third-party fixed point type the header knows about
namespace fpm {
template <typename B, typename I, unsigned F> class fixed {
 public:
  constexpr fixed() noexcept : v_(0) {}
  template <class T> constexpr explicit fixed(T x) noexcept : v_(static_cast<B>(x * (1 << F) + (x < 0 ? T(-0.5) : T(0.5)))) {}
  constexpr B raw_value() const noexcept { return v_; }
  constexpr explicit operator double() const noexcept { return static_cast<double>(v_) / (1 << F); }

 private:
  B v_;
};
} // namespace fpm
#include <embedded/ostream_ops.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
using namespace verif;
namespace es = embedded::signal;
namespace cm = embedded::cmath;

// ------------------------------------------------------------ stream states
struct State {
  int precision;
  std::ios_base::fmtflags flags;
};
static std::vector<State> states() {
  typedef std::ios_base I;
  std::vector<State> s;
  I::fmtflags const fl[] = {I::fmtflags(0), I::fixed, I::scientific, I::fixed | I::scientific};
  I::fmtflags const ex[] = {I::fmtflags(0), I::showpos, I::uppercase, I::showpoint, I::showpos | I::uppercase | I::showpoint, I::left, I::internal | I::boolalpha};
  for (int p : {21, 17, 9, 6, 1, 0})
    for (auto f : fl)
      for (auto e : ex) s.push_back({p, f | e});
  return s;
}
static State cur;
static void set(std::ostream& os) {
  os.flags(cur.flags | std::ios_base::dec | std::ios_base::skipws);
  os.precision(cur.precision);
}
template <class T> static std::string print(T const& x) {
  std::ostringstream os;
  set(os);
  std::ostream& r = os << x;
  std::ostringstream as;
  set(as);
  if (&r != &os) V_FAIL("stream", "the operator does not return its stream%s", "");
  if (os.flags() != as.flags() || os.precision() != as.precision() || os.fill() != as.fill() || os.width() != 0 || !os.good())
    V_FAIL("stream state", "after printing '%s' the stream is in another state", os.str().c_str());
  return os.str();
}

// ------------------------------------------------------------ the parser
struct Parser {
  char const* p;
  bool ok;
  void space() {
    while (*p == ' ') ++p;
  }
  bool eat(char c) {
    space();
    if (*p != c) return ok = false;
    ++p;
    return true;
  }
  bool sees(char c) {
    space();
    return *p == c;
  }
  char const* number(long double& v) { // a number with at most one sign
    space();
    char* e;
    char const* b = p;
    v = std::strtold(p, &e);
    if (e == p) ok = false;
    p = e;
    return b;
  }
};

static bool same(long double a, long double b) { return a == b ? std::signbit(a) == std::signbit(b) : std::isnan(a) && std::isnan(b) && std::signbit(a) == std::signbit(b); }

// reads a T and compares it with what was printed: as exactly as the stream prints single numbers
template <class T, bool = std::is_floating_point<T>::value, bool = std::is_integral<T>::value> struct Reader;
template <class T> struct Reader<T, true, false> {
  static void read(Parser& s, T const& x) {
    long double v, w;
    s.number(v);
    std::ostringstream os;
    set(os);
    os << x; // the standard library's
    w = std::strtold(os.str().c_str(), nullptr);
    if (!same(v, w)) s.ok = false;
    bool const exact = (cur.flags & std::ios_base::floatfield) == (std::ios_base::fixed | std::ios_base::scientific) || (cur.precision >= std::numeric_limits<T>::max_digits10 && !(cur.flags & std::ios_base::fixed));
    if (exact && !same(T(v), x)) s.ok = false;
    R().evaluations++;
  }
};
template <class T> struct Reader<T, false, true> {
  static void read(Parser& s, T const& x) {
    long double v;
    s.number(v);
    if (v != (long double)x) s.ok = false;
    R().evaluations++;
  }
};
template <class B, class I, unsigned F> struct Reader<fpm::fixed<B, I, F>, false, false> {
  static void read(Parser& s, fpm::fixed<B, I, F> const& x) {
    Reader<double>::read(s, static_cast<double>(x));
    s.eat('(');
    Reader<B>::read(s, x.raw_value());
    s.eat(')');
  }
};
template <class T> struct Reader<cm::complex<T>, false, false> {
  static void read(Parser& s, cm::complex<T> const& x) {
    Reader<T>::read(s, x.real());
    s.space();
    if (*s.p != '+' && *s.p != '-') s.ok = false;
    Reader<T>::read(s, x.imag());
    if (*s.p != 'j') s.ok = false;
    else ++s.p;
  }
};
template <class V> static void list(Parser& s, V const& x, std::size_t n) {
  s.eat('[');
  for (std::size_t i = 0; i < n && s.ok; ++i) {
    if (i) s.eat(',');
    Reader<typename std::decay<decltype(x[0])>::type>::read(s, x[i]);
  }
  s.eat(']');
}
template <class T, std::size_t N> struct Reader<cm::vector<T, N>, false, false> {
  static void read(Parser& s, cm::vector<T, N> const& x) { list(s, x, N); }
};
template <class T, std::size_t N> struct Reader<std::array<T, N>, false, false> {
  static void read(Parser& s, std::array<T, N> const& x) { list(s, x, N); }
};
static void name(Parser& s) { // whatever names the next part
  s.space();
  while (*s.p && !strchr("+-0123456789[]{},", *s.p)) ++s.p;
}
template <class T> struct Reader<es::sos_section<T>, false, false> {
  static void read(Parser& s, es::sos_section<T> const& x) {
    s.eat('{');
    name(s);
    Reader<cm::vector<T, 3>>::read(s, x.b());
    s.eat(',');
    name(s);
    Reader<cm::vector<T, 3>>::read(s, x.a());
    s.eat('}');
  }
};
template <std::size_t Z, std::size_t P, class F> struct Reader<es::detail::zpk_value<Z, P, F>, false, false> {
  typedef es::detail::zpk_value<Z, P, F> V;
  static void read(Parser& s, V const& x) {
    s.eat('{');
    name(s);
    Reader<cm::vector<cm::complex<F>, Z>>::read(s, x.zeros());
    s.eat(',');
    name(s);
    Reader<cm::vector<cm::complex<F>, P>>::read(s, x.poles());
    s.eat(',');
    s.space();
    while (*s.p && *s.p != '=' && *s.p != ':') ++s.p; // the gain may print as a word
    if (*s.p) ++s.p;
    Reader<F>::read(s, x.gain());
    s.eat('}');
  }
};

static std::string cur_text;
static void describe(char* o, size_t n) { snprintf(o, n, "'%s' precision %d flags %x", cur_text.c_str(), cur.precision, unsigned(cur.flags)); }

template <class T> static void check(T const& x, char const* what) {
  std::string const text = print(x);
  cur_text = text;
  Parser s = {text.c_str(), true};
  Reader<T>::read(s, x);
  if (!s.ok || *s.p) {
    cur.precision = cur.precision;
    State const keep = cur;
    cur = {21, std::ios_base::fmtflags(0)};
    std::string const full = print(x);
    cur = keep;
    V_FAIL(what, "%s: printed '%s' with precision %d and flags %x, which does not read back as itself (otherwise printed %s)", what, text.c_str(), cur.precision, unsigned(cur.flags), full.c_str());
  }
  R().distinct_n++;
  ++beat();
}

template <class T> static std::vector<T> values(bool all) {
  typedef std::numeric_limits<T> L;
  std::vector<T> v{T(0), T(-0.), T(1), T(-1), T(2.5), T(-0.375L), T(1) / 3, T(-2) / 3, T(1e-5L), T(-123456789)};
  if (all)
    for (T x : {T(3.14159265358979323846L), T(1e20L), T(9.9999999999L), T(0.99999999999999999L), L::min(), L::denorm_min(), L::max(), L::infinity(), L::quiet_NaN(), L::epsilon(), T(1e15L), T(1234567.890625L)}) {
      v.push_back(x);
      v.push_back(-x);
    }
  return v;
}

template <class T> static void complexes(char const* what) {
  auto const v = values<T>(true);
  for (T re : v)
    for (T im : v) check(cm::complex<T>(re, im), what);
  R().sample(strf("%s: all %zu pairs", what, v.size() * v.size()));
}

// all vectors of length N over the values
template <class T, std::size_t N> struct Tuples {
  template <class Fn> static void each(std::vector<T> const& v, Fn fn) {
    std::array<T, N> a{};
    go(v, a, 0, fn);
  }
  template <class Fn> static void go(std::vector<T> const& v, std::array<T, N>& a, std::size_t k, Fn& fn) {
    if (k == N) return fn(a);
    for (T const& x : v) {
      a[k] = x;
      go(v, a, k + 1, fn);
    }
  }
};
template <class T, std::size_t N, std::size_t... I> static cm::vector<T, N> vec(std::array<T, N> const& a, embedded::index_sequence<I...>) { return cm::vector<T, N>{a[I]...}; }
template <class T, std::size_t N> static cm::vector<T, N> vec(std::array<T, N> const& a) { return vec<T, N>(a, embedded::make_index_sequence<N>{}); }
template <class T, std::size_t N> struct Check {
  void operator()(std::array<T, N> const& a) const {
    check(a, "array");
    check(vec(a), "vector");
  }
};
template <class T, std::size_t N> static void vectors(std::vector<T> const& v) { Tuples<T, N>::each(v, Check<T, N>()); }
template <class T> static std::vector<T> pick(std::vector<T> v, std::size_t n) {
  if (v.size() > n) v.resize(n);
  return v;
}
template <class T> static void scalars() {
  auto const v = values<T>(true);
  vectors<T, 1>(v);
  vectors<T, 2>(v);
  vectors<T, 3>(pick(v, 10));
  vectors<T, 4>(pick(v, 5));
  vectors<T, 7>(pick(v, 2));
  std::array<T, 0> e{};
  check(e, "empty array");
  check(cm::vector<T, 0>(), "empty vector");
  R().sample(strf("all vectors of lengths 0 to 4 and 7 of %zu byte values", sizeof(T)));
}
template <class T> static void nested() {
  typedef cm::complex<T> C;
  std::vector<C> c;
  for (T re : pick(values<T>(false), 4))
    for (T im : pick(values<T>(false), 4)) c.push_back(C(re, im));
  vectors<C, 1>(c);
  vectors<C, 2>(c);
  vectors<C, 3>(pick(c, 6));
  check(cm::vector<C, 0>(), "empty vector of complex numbers");
  std::vector<cm::vector<T, 2>> vv;
  for (T a : {T(0), T(-0.), T(-1.5L)})
    for (T b : {T(0), T(-0.), T(7)}) vv.push_back(cm::vector<T, 2>{a, b});
  for (auto const& a : vv) {
    check(cm::vector<cm::vector<T, 2>, 1>{a}, "vector of one vector");
    check(std::array<cm::vector<T, 2>, 1>{{a}}, "array of one vector");
    for (auto const& b : vv) {
      check(cm::vector<cm::vector<T, 2>, 2>{a, b}, "vector of vectors");
      check(std::array<cm::vector<T, 2>, 2>{{a, b}}, "array of vectors");
      check(std::array<std::array<T, 2>, 2>{{{{a[0], a[1]}}, {{b[0], b[1]}}}}, "array of arrays");
      check(cm::vector<std::array<T, 2>, 2>{std::array<T, 2>{{a[0], a[1]}}, std::array<T, 2>{{b[0], b[1]}}}, "vector of arrays");
      check(cm::vector<cm::vector<cm::vector<T, 2>, 2>, 2>{cm::vector<cm::vector<T, 2>, 2>{a, b}, cm::vector<cm::vector<T, 2>, 2>{b, a}}, "vectors three deep");
    }
  }
  check(cm::vector<cm::vector<T, 0>, 2>{cm::vector<T, 0>(), cm::vector<T, 0>()}, "vector of empty vectors");
  check(std::array<std::array<T, 0>, 3>{}, "array of empty arrays");
  check(std::array<std::array<C, 2>, 2>{}, "array of arrays of complex numbers");
}

template <std::size_t Z, std::size_t P, class F> static void zpk() {
  typedef es::detail::zpk_value<Z, P, F> V;
  F const g[] = {F(0), F(-0.), F(1), F(-2.5L), std::numeric_limits<F>::infinity(), F(1e-7L)};
  for (int m = 0; m < 8; ++m) {
    std::array<cm::complex<F>, Z> z{};
    std::array<cm::complex<F>, P> p{};
    for (std::size_t i = 0; i < Z; ++i) z[i] = cm::complex<F>((m & 1 ? -1 : 1) * F(i) / 3, (m & 2 ? -1 : 1) * F(i % 2 ? 0 : 1.25L));
    for (std::size_t i = 0; i < P; ++i) p[i] = cm::complex<F>((m & 2 ? -1 : 1) * F(7 * i + 1) / 9, (m & 4 ? -1 : 1) * F(i % 2 ? 0 : 0.1L));
    for (F k : g) check(V(vec(z), vec(p), k), "zeros, poles and gain");
  }
}
template <class F> static void zpks() {
  zpk<0, 0, F>();
  zpk<0, 1, F>();
  zpk<1, 0, F>();
  zpk<1, 1, F>();
  zpk<2, 1, F>();
  zpk<1, 3, F>();
  zpk<3, 3, F>();
  zpk<4, 4, F>();
  zpk<0, 5, F>();
  zpk<5, 2, F>();
}
template <class T> static void sections() {
  typedef cm::complex<double> C;
  double const v[] = {0, 1, -1, 0.75, -2.25, 1. / 3};
  for (double a : v)
    for (double b : v)
      for (double c : v)
        for (double d : v)
          for (double g : {1., -1., 0.3}) check(es::sos_section<T>(cm::vector<C, 2>{C(a, b), C(a, -b)}, cm::vector<C, 2>{C(c, d), C(c, -d)}, g), "section");
}
template <class T> static void filters() {
  auto const f = es::iirfilter<double>(8000).highpass(es::chebyshev1<5>(1), 900);
  check(f.template sos<T>().sos(), "sections of a filter");
  check(f.template sos<T>(es::sos_gain::distribute).sos(), "sections of a filter");
  check(es::iirfilter<double>(8000).lowpass(es::butterworth<2>(), 900).template sos<T>().sos(), "section of a filter");
}
template <class T> static void polynomials() {
  auto const p = es::iirfilter<double>(8000).highpass(es::chebyshev1<5>(1), 900).template poly<T>();
  check(p.a(), "polynomial");
  check(p.b(), "polynomial");
}

int main(int argc, char** argv) {
  init(argc, argv);
  crumb().fmt = describe;
  for (State const& s : states()) {
    cur = s;
    if (!R().thorough && ((s.precision != 21 && s.precision != 6 && s.precision != 1) || (s.flags & (std::ios_base::internal | std::ios_base::left)) ||
                                  ((s.flags & std::ios_base::showpoint) && !(s.flags & std::ios_base::showpos))))
      continue;
#if PART == 0
    complexes<float>("complex<float>");
    complexes<double>("complex<double>");
    complexes<long double>("complex<long double>");
#elif PART == 1
    scalars<float>();
    scalars<double>();
    scalars<long double>();
    nested<float>();
    nested<double>();
    nested<long double>();
    vectors<int, 3>({0, 5, -7, 2147483647});
    vectors<unsigned, 3>({0u, 5u, 4294967295u});
    vectors<long long, 2>({0, -1, 1LL << 62});
    typedef fpm::fixed<int, long long, 16> Fix;
    vectors<Fix, 1>({Fix(0.), Fix(1.), Fix(-1.5), Fix(0.3)});
    vectors<Fix, 3>({Fix(0.), Fix(1.), Fix(-1.5), Fix(0.3)});
    check(std::array<cm::vector<Fix, 2>, 2>{{vec(std::array<Fix, 2>{{Fix(1.), Fix(-2.)}}), vec(std::array<Fix, 2>{{Fix(.5), Fix(2.)}})}}, "array of vectors of fixed point");
#else
    zpks<float>();
    zpks<double>();
    zpks<long double>();
    sections<float>();
    sections<double>();
    sections<long double>();
    sections<fpm::fixed<int, long long, 16>>();
    filters<float>();
    filters<double>();
    filters<long double>();
    filters<fpm::fixed<int, long long, 24>>();
    polynomials<float>();
    polynomials<double>();
    polynomials<long double>();
#endif
  }
  R().finish();
}
