// C26: everything evaluated twice: by the compiler in a constant expression and
// by the program on values the compiler cannot see.
// -DPART=0: designs of a family (-DFAM=0..3) -DLO -DHI; -DPART=1: functions,
// complex numbers, vectors and polynomials; -DPART=2: integers
#include "verif.h"
#include <cmath>
#include <limits>
#include <type_traits>
#include <embedded/constexpr_math.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
using namespace verif;
namespace es = embedded::signal;
namespace cm = embedded::cmath;

template <class T> static T opaque(T x) {
  asm volatile("" : "+m"(x));
  return x;
}
template <class T> struct Name;
template <> struct Name<float> { static char const* s() { return "float"; } };
template <> struct Name<double> { static char const* s() { return "double"; } };
template <> struct Name<long double> { static char const* s() { return "long double"; } };

static std::string at_case;
static double worst;
static void describe(char* o, size_t n) { snprintf(o, n, "%s", at_case.c_str()); }

// a and b differ by at most tol (an absolute bound)
template <class T> static void near(T a, T b, long double tol, char const* what, int i) {
  R().evaluations++;
  if (std::isnan(a) && std::isnan(b)) return;
  if (a == b) return;
  long double const d = std::fabs((long double)a - (long double)b);
  if (tol > 0 && std::isfinite(d)) worst = std::max(worst, double(d / tol));
  if (!(d <= tol)) V_FAIL(what, "%s: %s %d is %.21Lg as a constant and %.21Lg at run time (they may differ by %.3Lg)", at_case.c_str(), what, i, (long double)a, (long double)b, tol);
}

typedef long double LD;
#if PART == 0
// tolerated: so many units in the last place of the design precision per order
#define SLACK 16
template <int F, std::size_t N, class P> struct Family;
template <std::size_t N, class P> struct Family<0, N, P> {
  static constexpr es::butterworth<N> make(P) { return es::butterworth<N>(); }
};
template <std::size_t N, class P> struct Family<1, N, P> {
  static constexpr es::chebyshev1<N, P> make(P r) { return es::chebyshev1<N, P>(r); }
};
template <std::size_t N, class P> struct Family<2, N, P> {
  static constexpr es::chebyshev2<N, P> make(P r) { return es::chebyshev2<N, P>(r * 20); }
};
template <std::size_t N, class P> struct Family<3, N, P> {
  static constexpr es::bessel<N> make(P) { return es::bessel<N>(); }
};
static char const* const FAMILY[] = {"butterworth", "chebyshev1", "chebyshev2", "bessel"};

template <class P, int C> struct Params;
#define PARAMS(c, fs_, f_, r_)                          \
  template <class P> struct Params<P, c> {              \
    static constexpr P fs() { return P(fs_); }          \
    static constexpr P f() { return P(fs_ * f_); }      \
    static constexpr P r() { return P(r_); }            \
  };
PARAMS(0, 1000.0L, 0.04L, 1.0L)
PARAMS(1, 44100.0L, 0.25L, 0.3L)
PARAMS(2, 3.0L, 0.41L, 2.5L)
PARAMS(3, 8000.0L, 0.123L, 0.01L)
PARAMS(4, 1.0L, 0.3L, 3.0L)
PARAMS(5, 192000.0L, 0.0101L, 0.5L)
PARAMS(6, 48000.0L, 0.4701L, 0.1L)
PARAMS(7, 2.0L, 0.2L, 1.7L)

static long double choose(int n, int k) { return k == 0 ? 1 : choose(n, k - 1) * (n - k + 1) / k; }
static long double tolerance(long double ep, long double ef, int n) {
  return std::max(ep * SLACK * n, ef * 2); // of the design's precision, and of rounding to the coefficients' type
}

template <class P, class F, int N> static void polys(es::poly_design<F, N> const& c, es::poly_design<F, N> const& r) {
  long double const t = tolerance(std::numeric_limits<P>::epsilon(), std::numeric_limits<F>::epsilon(), N);
  auto const ca = c.a(), ra = r.a(), cb = c.b(), rb = r.b();
  for (int k = 0; k <= N; ++k) {
    near(ca[k], ra[k], t * choose(N, k), "feedback coefficient", k);
    near(cb[k], rb[k], t * choose(N, k) * std::fabs((long double)cb[0]), "feed-forward coefficient", k);
  }
}
template <class P, class F, int N> static void sections(es::sos_design<F, N> const& c, es::sos_design<F, N> const& r, int form) {
  long double const t = tolerance(std::numeric_limits<P>::epsilon(), std::numeric_limits<F>::epsilon(), N);
  static char const* const A[] = {"feedback coefficient (section/coefficient)", "feedback coefficient (distributed, section/coefficient)"};
  static char const* const B[] = {"feed-forward coefficient (section/coefficient)", "feed-forward coefficient (distributed, section/coefficient)"};
  for (int s = 0; s < (N + 1) / 2; ++s) {
    auto const ca = c.sos()[s].a(), ra = r.sos()[s].a(), cb = c.sos()[s].b(), rb = r.sos()[s].b();
    for (int k = 0; k < 3; ++k) {
      near(ca[k], ra[k], t * 2, A[form], 10 * s + k);
      near(cb[k], rb[k], t * 2 * std::fabs((long double)cb[0]), B[form], 10 * s + k);
    }
  }
}
#define ONE(which, HP)                                                                                                                     \
  template <class P, class F, int N, int C> static void which() {                                                                          \
    typedef Params<P, C> Q;                                                                                                                \
    typedef Family<FAM, N, P> Fam;                                                                                                         \
    constexpr auto zc = es::iirfilter<P>(Q::fs()).which(Fam::make(Q::r()), Q::f());                                                        \
    constexpr auto pc = zc.template poly<F>();                                                                                             \
    constexpr auto sc = zc.template sos<F>();                                                                                              \
    constexpr auto dc = zc.template sos<F>(es::sos_gain::distribute);                                                                      \
    auto const zr = es::iirfilter<P>(opaque(Q::fs())).which(Fam::make(opaque(Q::r())), opaque(Q::f()));                                    \
    at_case = strf("%s order %d " #which ", rate %Lg cutoff %Lg, designed in %s for %s", FAMILY[FAM], N, (long double)Q::fs(), (long double)Q::f(), \
                   Name<P>::s(), Name<F>::s());                                                                                            \
    polys<P, F, N>(pc, zr.template poly<F>());                                                                                             \
    sections<P, F, N>(sc, zr.template sos<F>(), 0);                                                                                        \
    sections<P, F, N>(dc, zr.template sos<F>(es::sos_gain::distribute), 1);                                                                \
    R().distinct_n += 3;                                                                                                                   \
    ++beat();                                                                                                                              \
  }
ONE(lowpass, 0)
ONE(highpass, 1)

template <class P, class F, int N, int C> struct Cases {
  static void go() {
    lowpass<P, F, N, C>();
    highpass<P, F, N, C>();
    Cases<P, F, N, C - 1>::go();
  }
};
template <class P, class F, int N> struct Cases<P, F, N, -1> {
  static void go() {}
};
template <class P, class F, int N, bool = (N <= HI)> struct Orders {
  static void go() {
    Cases<P, F, N, CASES - 1>::go();
    Orders<P, F, N + 1>::go();
  }
};
template <class P, class F, int N> struct Orders<P, F, N, false> {
  static void go() {}
};
static void part() {
  Orders<TP, TF, LO>::go();
  R().sample(strf("%s, orders %d to %d, last: %s", FAMILY[FAM], LO, HI, at_case.c_str()));
}
#elif PART == 1
// ------------------------------------------------------------ functions
// arguments as constants: sixteenths
template <class T, int I> struct Arg {
  static constexpr T v() { return T(I) / 16; }
};
template <class T> static void ulps(T c, T r, int n, char const* what, int i) { near(c, r, n * std::numeric_limits<T>::epsilon() * std::max(std::fabs((long double)c), (long double)std::numeric_limits<T>::min()), what, i); }

#define FUNCTION(name, lo, hi)                                                                       \
  template <class T, int I, bool = (I <= (hi)*16)> struct F_##name {                                 \
    static void go() {                                                                               \
      constexpr T c = cm::name(Arg<T, I>::v());                                                      \
      ulps(c, T(cm::name(opaque(Arg<T, I>::v()))), 4, #name, I);                                     \
      R().distinct_n++;                                                                              \
      F_##name<T, I + 1>::go();                                                                      \
    }                                                                                                \
  };                                                                                                 \
  template <class T, int I> struct F_##name<T, I, false> {                                           \
    static void go() {}                                                                              \
  };
FUNCTION(sin, -8, 8)
FUNCTION(cos, -8, 8)
FUNCTION(tan, -4, 4)
FUNCTION(exp, -10, 10)
FUNCTION(sqrt, 0, 16)
FUNCTION(log, 1, 16)
FUNCTION(sinh, -4, 4)
FUNCTION(cosh, -4, 4)
FUNCTION(tanh, -4, 4)
FUNCTION(asin, -1, 1)
FUNCTION(acos, -1, 1)
FUNCTION(atan, -8, 8)
FUNCTION(asinh, -8, 8)
FUNCTION(acosh, 1, 16)
FUNCTION(log2, 1, 8)
FUNCTION(log10, 1, 8)
FUNCTION(log1p, 0, 8)
FUNCTION(expm1, -4, 4)
FUNCTION(abs, -4, 4)
FUNCTION(floor, -4, 4)
FUNCTION(ceil, -4, 4)
FUNCTION(round, -4, 4)
FUNCTION(trunc, -4, 4)
template <class T, int I, int J> static void powers() {
  constexpr T c = cm::pow(Arg<T, I>::v(), Arg<T, J>::v()), d = cm::atan2(Arg<T, I>::v(), Arg<T, J>::v()), e = cm::fmod(Arg<T, I>::v(), Arg<T, J>::v()), m = cm::min(Arg<T, I>::v(), Arg<T, J>::v()), n = cm::max(Arg<T, I>::v(), Arg<T, J>::v()), p = cm::pow(Arg<T, I>::v(), J);
  T const a = opaque(Arg<T, I>::v()), b = opaque(Arg<T, J>::v());
  ulps(c, cm::pow(a, b), 4, "pow", I * 1000 + J);
  ulps(p, T(cm::pow(a, opaque(J))), 4, "pow", I * 1000 + J);
  ulps(d, cm::atan2(a, b), 4, "atan2", I * 1000 + J);
  ulps(e, cm::fmod(a, b), 4, "fmod", I * 1000 + J);
  ulps(m, cm::min(a, b), 0, "min", I * 1000 + J);
  ulps(n, cm::max(a, b), 0, "max", I * 1000 + J);
  R().distinct_n += 5;
}
template <class T, int I> static void powers_of() {
  powers<T, I, 1>();
  powers<T, I, 2>();
  powers<T, I, 5>();
  powers<T, I, 8>();
  powers<T, I, 16>();
  powers<T, I, 24>();
  powers<T, I, 37>();
  powers<T, I, 48>();
}
// ------------------------------------------------------------ complex numbers
template <class T> static void ulps(cm::complex<T> const& c, cm::complex<T> const& r, int n, char const* what, int i) {
  long double const m = std::max(std::fabs((long double)c.real()), std::fabs((long double)c.imag()));
  near(c.real(), r.real(), n * std::numeric_limits<T>::epsilon() * m, what, i);
  near(c.imag(), r.imag(), n * std::numeric_limits<T>::epsilon() * m, what, i);
}
template <class T> static cm::complex<T> hide(cm::complex<T> const& z) { return cm::complex<T>(opaque(z.real()), opaque(z.imag())); }
template <class T, int A, int B, int D, int E> static void complexes() {
  typedef cm::complex<T> C;
  constexpr C x(Arg<T, A>::v(), Arg<T, B>::v()), y(Arg<T, D>::v(), Arg<T, E>::v());
  constexpr C sum = x + y, dif = x - y, prd = x * y, quo = x / y, neg = -x, con = x.conj(), ex = exp(x), sc = y.real() * x, ad = y.real() + x, su = y.real() - x, dr = x / y.imag(), rd = x.real() / y;
  constexpr T no = x.norm(), ab = x.abs(), di = x.distance(y);
  constexpr bool eq = x == y || !(x == x), re = x.is_real();
  C const p = hide(x), q = hide(y);
  int const k = ((A + 50) * 100 + B + 50) * 10 + D;
  ulps(sum, p + q, 0, "complex sum", k);
  ulps(dif, p - q, 0, "complex difference", k);
  ulps(prd, p * q, 2, "complex product", k);
  ulps(quo, p / q, 4, "complex quotient", k);
  ulps(neg, -p, 0, "complex negation", k);
  ulps(con, p.conj(), 0, "conjugate", k);
  ulps(ex, exp(p), 8, "complex exponential", k);
  ulps(sc, q.real() * p, 0, "scaled complex", k);
  ulps(ad, q.real() + p, 0, "real plus complex", k);
  ulps(su, q.real() - p, 0, "real minus complex", k);
  ulps(dr, p / q.imag(), 1, "complex by real", k);
  ulps(rd, p.real() / q, 4, "real by complex", k);
  ulps(no, p.norm(), 2, "norm", k);
  ulps(ab, p.abs(), 4, "absolute value", k);
  ulps(di, p.distance(q), 4, "distance", k);
  if (eq != (p == q || !(p == hide(x))) || re != p.is_real()) V_FAIL("complex comparison", "complex comparison differs for %d", k);
  R().evaluations += 2;
  R().distinct_n += 17;
}
template <class T, int A, int B> static void complexes_of() {
  complexes<T, A, B, 16, 16>();
  complexes<T, A, B, 0, -16>();
  complexes<T, A, B, -5, 7>();
  complexes<T, A, B, 3, -160>();
  complexes<T, A, B, A + 1, B + 2>();
  complexes<T, A, B, -31, 1>();
}
// ------------------------------------------------------------ vectors
template <class T> struct Gen {
  T scale;
  constexpr T operator()(std::size_t i) const { return scale * T(int(i * 7 % 11) - 5) / T(3) + scale * T(i % 2) / T(8); }
};
template <class T> struct Less {
  constexpr bool operator()(T const& a, T const& b) const { return a < b; }
  constexpr bool operator()(T const& a) const { return a < T(0); }
};
template <class T, std::size_t N> static void ulps(cm::vector<T, N> const& c, cm::vector<T, N> const& r, int n, char const* what) {
  for (std::size_t i = 0; i < N; ++i) ulps(c[i], r[i], n, what, int(N * 100 + i));
}
template <class T, std::size_t N> static void vectors() {
  typedef cm::vector<T, N> V;
  constexpr V x = V::create(Gen<T>{T(1)}), y = V::create(Gen<T>{T(0.7L)});
  constexpr V neg = -x, sc = T(0.3L) * x, ex = exp(y), so = x.sort(Less<T>());
  constexpr T pr = prod(y);
  constexpr auto ap = x.append(y);
  constexpr auto sub = x.template subvector<N / 2, (N + 1) / 2>();
  constexpr auto con = cm::convolve_full(x, y);
  constexpr auto pol = cm::poly(y);
  constexpr bool eq = x == y, es_ = x == V::create(Gen<T>{T(1)});
  constexpr std::size_t mi = x.argmin(Less<T>()), ct = x.count(Less<T>());
  V const p = V::create(Gen<T>{opaque(T(1))}), q = V::create(Gen<T>{opaque(T(0.7L))});
  ulps(x, p, 0, "vector");
  ulps(neg, -p, 0, "negated vector");
  ulps(sc, opaque(T(0.3L)) * p, 0, "scaled vector");
  ulps(ex, exp(q), 4, "exponentials of a vector");
  ulps(so, p.sort(Less<T>()), 0, "sorted vector");
  ulps(pr, prod(q), 2, "product", N);
  ulps(ap, p.append(q), 0, "appended vectors");
  ulps(sub, p.template subvector<N / 2, (N + 1) / 2>(), 0, "part of a vector");
  auto const con2 = cm::convolve_full(p, q);
  auto const pol2 = cm::poly(q);
  for (std::size_t i = 0; i < con.size(); ++i) near(con[i], con2[i], N * 30 * std::numeric_limits<T>::epsilon(), "convolution", int(i));
  for (std::size_t i = 0; i < pol.size(); ++i) near(pol[i], pol2[i], std::pow(2.4L, (long double)N) * std::numeric_limits<T>::epsilon(), "polynomial", int(i));
  if (eq != (p == q) || es_ != (p == V::create(Gen<T>{opaque(T(1))})) || mi != p.argmin(Less<T>()) || ct != p.count(Less<T>())) V_FAIL("vector comparison", "comparison, smallest element or count differs for size %zu", N);
  R().evaluations += 4;
  R().distinct_n += 13;
}
template <class T> struct Grid {
  template <int A> static void row() {
    complexes_of<T, A, 0>();
    complexes_of<T, A, 16>();
    complexes_of<T, A, -3>();
    complexes_of<T, A, -40>();
    complexes_of<T, A, 1>();
  }
};
template <class T> static void type() {
  at_case = Name<T>::s();
  F_sin<T, -8 * 16>::go();
  F_cos<T, -8 * 16>::go();
  F_tan<T, -4 * 16>::go();
  F_exp<T, -10 * 16>::go();
  F_sqrt<T, 0>::go();
  F_log<T, 17>::go();
  F_sinh<T, -4 * 16>::go();
  F_cosh<T, -4 * 16>::go();
  F_tanh<T, -4 * 16>::go();
  F_asin<T, -16>::go();
  F_acos<T, -16>::go();
  F_atan<T, -8 * 16>::go();
  F_asinh<T, -8 * 16>::go();
  F_acosh<T, 16>::go();
  F_log2<T, 17>::go();
  F_log10<T, 17>::go();
  F_log1p<T, 1>::go();
  F_expm1<T, -4 * 16>::go();
  F_abs<T, -4 * 16>::go();
  F_floor<T, -4 * 16>::go();
  F_ceil<T, -4 * 16>::go();
  F_round<T, -4 * 16>::go();
  F_trunc<T, -4 * 16>::go();
  constexpr T pi = cm::pi<T>();
  ulps(pi, T(3.14159265358979323846264338327950288L), 0, "pi", 0);
  ulps(pi, cm::pi<T>(), 0, "pi", 1);
  powers_of<T, 1>();
  powers_of<T, 5>();
  powers_of<T, 16>();
  powers_of<T, 33>();
  powers_of<T, 100>();
  Grid<T>::template row<0>();
  Grid<T>::template row<16>();
  Grid<T>::template row<-16>();
  Grid<T>::template row<7>();
  Grid<T>::template row<-55>();
  vectors<T, 1>();
  vectors<T, 2>();
  vectors<T, 3>();
  vectors<T, 4>();
  vectors<T, 7>();
  vectors<T, 12>();
  vectors<T, 20>();
}
static void part() {
  type<TP>();
  R().sample(strf("all functions on sixteenths, complex pairs, vectors in %s", Name<TP>::s()));
}
#elif PART == 2
#include <embedded/utility/integer_sequence.h>
#include <embedded/varint.h>
using embedded::varint;
template <class T> static void same(T a, T b, char const* what, long double v) {
  R().evaluations++;
  R().distinct_n++;
  if (a != b) V_FAIL(what, "%s of %.21Lg is %.21Lg as a constant and %.21Lg at run time", what, v, (long double)a, (long double)b);
}
template <class T, bool Signed> struct Fold;
template <class T> struct Fold<T, true> {
  template <T V> static void go() {
    typedef typename std::make_unsigned<T>::type U;
    constexpr U u = varint::zig_zag_encode(V);
    same(u, varint::zig_zag_encode(opaque<T>(V)), "zig_zag_encode", V);
  }
};
template <class T> struct Fold<T, false> {
  template <T V> static void go() {
    typedef typename std::make_signed<T>::type S;
    constexpr S v = varint::zig_zag_decode(V);
    same(v, varint::zig_zag_decode(opaque<T>(V)), "zig_zag_decode", V);
  }
};
template <class T, T V> static void value() {
  constexpr std::size_t n = varint::size(V);
  same(n, varint::size(opaque<T>(V)), "size", V);
  Fold<T, std::is_signed<T>::value>::template go<V>();
}
// every power of two, its neighbours, their complements
template <class T, int I, bool End = (I >= 8 * int(sizeof(T)))> struct Lattice {
  static void go() {
    typedef typename std::make_unsigned<T>::type U;
    constexpr U p = U(U(1) << I);
    value<T, T(p)>(), value<T, T(p - 1)>(), value<T, T(p + 1)>(), value<T, T(U(~p))>(), value<T, T(U(~p) - 1)>(), value<T, T(U(p | (p >> 3)))>();
    Lattice<T, I + 1>::go();
  }
};
template <class T, int I> struct Lattice<T, I, true> {
  static void go() {}
};
template <class T, int I, bool End = (I >= 256)> struct All {
  static void go() {
    value<T, T(I)>();
    All<T, I + 1>::go();
  }
};
template <class T, int I> struct All<T, I, true> {
  static void go() {}
};
template <std::size_t N> static void lengths() {
  constexpr std::size_t a = embedded::make_index_sequence<N>::size(), b = embedded::make_index_range<3, N + 3>::size(), c = embedded::make_integer_sequence<int, N>::size();
  same(a, N, "size of a sequence", N), same(b, N, "size of a range", N), same(c, N, "size of a sequence", N);
  typename embedded::make_index_sequence<N> s;
  same(s.size(), N, "size of a sequence", N);
}
static void part() {
  All<int8_t, 0>::go();
  All<uint8_t, 0>::go();
  Lattice<int16_t, 0>::go();
  Lattice<uint16_t, 0>::go();
  Lattice<int32_t, 0>::go();
  Lattice<uint32_t, 0>::go();
  Lattice<int64_t, 0>::go();
  Lattice<uint64_t, 0>::go();
  Lattice<long, 0>::go();
  Lattice<unsigned long long, 0>::go();
  Lattice<wchar_t, 0>::go();
  Lattice<char16_t, 0>::go();
  lengths<0>(), lengths<1>(), lengths<2>(), lengths<64>(), lengths<255>(), lengths<256>(), lengths<257>(), lengths<300>();
  R().sample("sizes and foldings of all 8 bit values, of powers of two and their neighbours, lengths of sequences");
}
#endif

int main(int argc, char** argv) {
  init(argc, argv);
  crumb().fmt = describe;
  part();
  R().notes.push_back(strf("largest difference: %.3g of what is tolerated", worst));
  R().finish();
}
