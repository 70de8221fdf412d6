// C20: complex arithmetic against exact or higher precision references.
#include "verif.h"
#include <cmath>
#include <embedded/constexpr_math.h>
#include <limits>
#include <quadmath.h>
#include <type_traits>
using namespace verif;
using embedded::cmath::complex;
using embedded::cmath::vector;
typedef __float128 Q;

template <class T> struct Name;
template <> struct Name<float> { static char const* s() { return "float"; } };
template <> struct Name<double> { static char const* s() { return "double"; } };
template <> struct Name<long double> { static char const* s() { return "long double"; } };

template <class T> static std::string show(complex<T> const& z) { return strf("(%.20Lg%+.20Lgi)", (long double)z.real(), (long double)z.imag()); }
static Q absq(Q x) { return x < 0 ? -x : x; }

// keeps the compiler from evaluating the operation itself
template <class T> static T opaque(T x) {
  asm volatile("" : "+m"(x));
  return x;
}

template <class T> struct Test {
  typedef complex<T> C;
  static Q eps() { return std::numeric_limits<T>::epsilon(); }
  // intermediates are exact if they are integers (after scaling) below this
  static bool exact(Q x) { return absq(x) * 256 < 1 / eps() && x * 256 == floorq(x * 256); }

  static void bad(char const* op, C const& a, C const& b, C const& got, Q re, Q im) {
    V_FAIL(strf("%s:%s", op, Name<T>::s()), "%s: %s with %s, %s is %s, should be (%.20Lg%+.20Lgi)", Name<T>::s(), op, show(a).c_str(), show(b).c_str(), show(got).c_str(),
           (long double)re, (long double)im);
  }
  // exact results must be exact, others right within tol (an absolute bound)
  static void want(char const* op, C const& a, C const& b, C const& got, Q re, Q im, bool ex, Q tre, Q tim) {
    R().evaluations++;
    if (ex) {
      R().distinct_n++;
      if (!((Q)got.real() == re && (Q)got.imag() == im)) bad(op, a, b, got, re, im);
    } else if (!(absq((Q)got.real() - re) <= tre) || !(absq((Q)got.imag() - im) <= tim))
      bad(op, a, b, got, re, im);
  }
  static void unary(C const& a) {
    Q const x = a.real(), y = a.imag(), tiny = std::numeric_limits<T>::min();
    want("negation", a, a, -a, -x, -y, true, 0, 0);
    want("conj", a, a, a.conj(), x, -y, true, 0, 0);
    Q const n = x * x + y * y;
    want("norm", a, a, C(a.norm()), n, 0, exact(x * x) && exact(y * y) && exact(n), 4 * eps() * n + tiny, 0);
    Q const r = sqrtq(n);
    want("abs", a, a, C(a.abs()), r, 0, exact(n) && exact(x * x) && exact(y * y) && r * 16 == floorq(r * 16) , 4 * eps() * r + sqrtq(tiny) * 4, 0);
    if (a.is_real() != (y == 0)) V_FAIL("is_real", "is_real of %s is %d", show(a).c_str(), a.is_real());
    if (!(a == a)) V_FAIL("equal", "%s is not equal to itself", show(a).c_str());
    if (!(a == C(a.real(), a.imag())) || !(a == C(a))) V_FAIL("equal", "%s is not equal to a copy", show(a).c_str());
    if (a.imag() == 0 && (!(a == C(a.real())) || !(C(a.real()) == a))) V_FAIL("equal", "%s is not equal to its real part", show(a).c_str());
    C const d;
    if (!(d.real() == 0 && d.imag() == 0 && d.is_real())) V_FAIL("default", "a default constructed complex number is not zero");
    C const w(a.real());
    if (!(w.real() == a.real() && w.imag() == 0)) V_FAIL("real", "a complex number made from a real one is %s", show(w).c_str());
  }
  static void division(char const* op, C const& a, C const& b, C const& got, Q ar, Q ai, Q br, Q bi) {
    Q const n = br * br + bi * bi;
    if (n == 0) return;
    Q const re = (ar * br + ai * bi) / n, im = (ai * br - ar * bi) / n;
    Q const tr = 6 * eps() * (absq(ar * br) + absq(ai * bi)) / n + 4 * std::numeric_limits<T>::min(), ti = 6 * eps() * (absq(ai * br) + absq(ar * bi)) / n + 4 * std::numeric_limits<T>::min();
    want(op, a, b, got, re, im, false, tr, ti);
    R().distinct_n++;
  }
  static void binary(C const& a, C const& b) {
    ++beat();
    Q const ar = a.real(), ai = a.imag(), br = b.real(), bi = b.imag();
    C const a0 = a, b0 = b;
    want("a+b", a, b, a + b, ar + br, ai + bi, exact(ar + br) && exact(ai + bi) && exact(ar) && exact(ai), eps() * absq(ar + br), eps() * absq(ai + bi));
    want("a-b", a, b, a - b, ar - br, ai - bi, exact(ar - br) && exact(ai - bi) && exact(ar) && exact(ai), eps() * absq(ar - br), eps() * absq(ai - bi));
    bool const ex = exact(ar * br) && exact(ai * bi) && exact(ar * bi) && exact(ai * br);
    Q const tiny = 4 * std::numeric_limits<T>::min();
    want("a*b", a, b, a * b, ar * br - ai * bi, ar * bi + ai * br, ex, 3 * eps() * (absq(ar * br) + absq(ai * bi)) + tiny,
         3 * eps() * (absq(ar * bi) + absq(ai * br)) + tiny);
    division("a/b", a, b, a / b, ar, ai, br, bi);
    T const x = a.real();
    want("x+b", a, b, x + b, ar + br, bi, exact(ar + br) && exact(ar) && exact(br), eps() * absq(ar + br), 0);
    want("x-b", a, b, x - b, ar - br, -bi, exact(ar - br) && exact(ar) && exact(br), eps() * absq(ar - br), 0);
    want("x*b", a, b, x * b, ar * br, ar * bi, exact(ar * br) && exact(ar * bi), eps() * absq(ar * br) + tiny, eps() * absq(ar * bi) + tiny);
    division("x/b", a, b, x / b, ar, 0, br, bi);
    T const y = b.real();
    if (y != 0) division("a/x", a, b, a / y, ar, ai, br, 0);
    Q const dr = ar - br, di = ai - bi, n = dr * dr + di * di, d = sqrtq(n);
    bool const exd = exact(ar) && exact(br) && exact(ai) && exact(bi) && exact(dr * dr) && exact(di * di) && exact(n) && d * 16 == floorq(d * 16);
    want("distance", a, b, C(a.distance(b)), d, 0, exd, 6 * eps() * d + sqrtq(tiny) * 4, 0);
    if ((a == b) != (ar == br && ai == bi)) V_FAIL("equal", "%s == %s is %d", show(a).c_str(), show(b).c_str(), a == b);
    if (!(a == a0 && b == b0)) V_FAIL("operands", "an operation changed its operands");
  }
  static void exponential(C const& a) {
    Q const x = a.real(), y = a.imag(), e = expq(x), re = e * cosq(y), im = e * sinq(y);
    C const got = exp(a);
    R().distinct_n++;
    want("exp", a, a, got, re, im, false, 4 * eps() * absq(re) + std::numeric_limits<T>::min(), 4 * eps() * absq(im) + std::numeric_limits<T>::min());
  }
  static bool near(T a, T b) { return absq((Q)a - b) <= 4 * eps() * absq(b); }
  static bool near(C const& a, C const& b) { return near(a.real(), b.real()) && near(a.imag(), b.imag()); }
  template <int N> static void vectors(std::vector<C> const& zs) {
    for (size_t s = 0; s < zs.size(); ++s) {
      struct Get {
        std::vector<C> const& z;
        size_t s;
        C operator()(int i) const { return z[(s + i * 5) % z.size()]; }
      };
      auto const v = vector<C, N>::create(Get{zs, s});
      vector<T, N> const re = real(v), im = imag(v), no = norm(v), ab = abs(v);
      auto const ex = exp(v), neg = -v, sc = T(3) * v, sh = T(2) + v, dv = v / T(4);
      for (int i = 0; i < N; ++i) {
        C const z = Get{zs, s}(i);
        R().evaluations++;
        if (!(re[i] == z.real() && im[i] == z.imag() && near(no[i], z.norm()) && near(ab[i], z.abs())))
          V_FAIL(strf("vector:%s:%d", Name<T>::s(), N), "component %d of a vector of complex numbers: real %Lg imag %Lg norm %Lg abs %Lg for %s", i, (long double)re[i], (long double)im[i],
                 (long double)no[i], (long double)ab[i], show(z).c_str());
        bool const small = z.real() < 50 && z.imag() < 1000; // no overflow
        if (!((!small || near(ex[i], exp(z))) && neg[i] == -z && near(sc[i], T(3) * z) && near(sh[i], T(2) + z) && near(dv[i], z / T(4))))
          V_FAIL(strf("vector-ops:%s:%d", Name<T>::s(), N), "an operation on a vector of complex numbers differs from the scalar one for %s", show(z).c_str());
      }
    }
  }

  // values near the limits of the type: what needs no rounding beyond that of the parts
  static void extreme(C const& a, C const& b) {
    R().evaluations += 7;
    R().distinct_n++;
    ++beat();
    T const ar = opaque(a.real()), ai = opaque(a.imag()), br = opaque(b.real()), bi = opaque(b.imag());
    if ((a == b) != (ar == br && ai == bi)) V_FAIL("equal", "%s == %s is %d", show(a).c_str(), show(b).c_str(), a == b);
    if (a.is_real() != (ai == 0)) V_FAIL("is_real", "is_real of %s is %d", show(a).c_str(), a.is_real());
    auto same = [](T x, T y) { return x == y || (x != x && y != y); };
    auto must = [&](char const* op, C const& g, T re, T im) {
      if (!same(g.real(), re) || !same(g.imag(), im)) bad(op, a, b, g, re, im);
    };
    must("a+b", a + b, ar + br, ai + bi);
    must("a-b", a - b, ar - br, ai - bi);
    must("x+b", ar + b, ar + br, bi);
    must("x-b", ar - b, ar - br, -bi);
    must("-a", -a, -ar, -ai);
    must("conj", a.conj(), ar, -ai);
    T const big = std::numeric_limits<T>::max();
    auto finite = [&](T x) { return x >= -big && x <= big; };
    if (finite(ar) && finite(br) && finite(bi)) must("x*b", ar * b, ar * br, ar * bi);
  }

  static void run(bool th) {
    typedef std::numeric_limits<T> L_;
    T const rt = T(sqrtq(Q(L_::min())));
    T const ext[] = {T(0), -T(0), L_::denorm_min(), -L_::denorm_min(), L_::min(), 2 * L_::min(), rt, rt / 4, -rt / 4, rt * rt * 3, T(1), -T(1), T(1) + L_::epsilon(),
                     1 / rt, 4 / rt, -4 / rt, L_::max(), -L_::max(), L_::max() / 2, L_::infinity(), -L_::infinity(), L_::quiet_NaN()};
    for (T p : ext)
      for (T q : ext)
        for (T r : ext)
          for (T s : ext) extreme(C(opaque(p), opaque(q)), C(opaque(r), opaque(s)));
    T const in[] = {T(0), T(1), T(-1), T(2), T(-3), T(4), T(0.5L), T(-0.25L), T(-0.0L), T(5), T(-12), T(100)};
    // not exactly representable products, sums and quotients
    T const rnd[] = {T(0.1L), T(-1) / T(3), T(1e10L), T(-1e-10L), T(3.14159265358979323846L), T(7), T(-49), T(0), T(1) + std::numeric_limits<T>::epsilon(), T(1e-3L), T(123456.789L)};
    std::vector<C> zi, zr;
    for (T x : in)
      for (T y : in) zi.push_back(C(opaque(x), opaque(y)));
    for (T x : rnd)
      for (T y : rnd) zr.push_back(C(opaque(x), opaque(y)));
    size_t const ni = zi.size();
    for (C const& a : zi) {
      unary(a);
      for (C const& b : zi) binary(a, b);
    }
    for (C const& a : zr) {
      unary(a);
      for (C const& b : zr) binary(a, b);
      for (size_t i = 0; i < ni; i += th ? 1 : 3) {
        binary(a, zi[i]);
        binary(zi[i], a);
      }
    }
    // denormal imaginary parts are not zero
    unary(C(T(1), std::numeric_limits<T>::denorm_min()));
    unary(C(T(1), -std::numeric_limits<T>::denorm_min()));
    // all small integer pairs
    int const L = th ? 12 : 7;
    for (int a = -L; a <= L; ++a)
      for (int b = -L; b <= L; ++b)
        for (int c = -L; c <= L; ++c)
          for (int d = -L; d <= L; ++d) binary(C(T(a), T(b)), C(T(c), T(d)));
    // Pythagorean triples and their scalings
    for (int a = -60; a <= 60; ++a)
      for (int b = -60; b <= 60; ++b) unary(C(T(a) / 4, T(b) / 4));
    Q const pi = M_PIq;
    for (int k = -48; k <= 48; ++k)
      for (int e = -24; e <= 24; ++e) {
        exponential(C(T(e) / 4, T(pi * k / 12)));
        exponential(C(T(e) / 3, T(k) / 5));
      }
    for (T x : rnd)
      if (x < 50 && x > -50)
        for (T y : rnd)
          if (y < 1000 && y > -1000) exponential(C(x, y));
    vectors<1>(zi);
    vectors<2>(zr);
    vectors<5>(zi);
    vectors<0>(zi);
    R().sample(strf("%s: %zu exact and %zu inexact operands and all pairs of them, integer pairs up to %d", Name<T>::s(), zi.size(), zr.size(), L));
  }
};

// ------------------------------------------- the same in constant expressions
template <class T> struct Results {
  T v[24];
};
template <class T> constexpr Results<T> results(complex<T> a, complex<T> b) {
  return Results<T>{{(a + b).real(), (a + b).imag(), (a - b).real(), (a - b).imag(), (a * b).real(), (a * b).imag(), (a / b).real(), (a / b).imag(), (a.real() / b).real(),
                     (a.real() / b).imag(), (a / b.real()).real(), (a / b.real()).imag(), (-a).real(), a.conj().imag(), a.norm(), a.abs(), a.distance(b), exp(b).real(), exp(b).imag(),
                     (a.real() - b).real(), (a.real() + b).real(), T(a == b), T(a.is_real()), (a.real() * b).imag()}};
}
#define PAIRS(X)                                                                                                                        \
  X(0, 1.0L, 2.0L, 3.0L, -4.0L)                                                                                                         \
  X(1, 0.1L, -0.3L, 0.7L, 1.9L)                                                                                                         \
  X(2, -5.0L, 12.0L, 1.0L, 0.0L)                                                                                                        \
  X(3, 3.0L, 4.0L, -0.5L, 3.14159265358979323846264L)                                                                                   \
  X(4, 1e10L, 1e-10L, 2.0L, -7.0L)                                                                                                      \
  X(5, -1.0L, -1.0L, -1.0L, -1.0L)                                                                                                      \
  X(6, 0.3333333333333333333333L, 2.718281828459045L, 9.0L, 0.1L)
#define X(i, a, b, c, d)                                                                                   \
  constexpr Results<float> cf##i = results(complex<float>(float(a), float(b)), complex<float>(float(c), float(d))); \
  constexpr Results<double> cd##i = results(complex<double>(double(a), double(b)), complex<double>(double(c), double(d))); \
  constexpr Results<long double> cl##i = results(complex<long double>(a, b), complex<long double>(c, d));
PAIRS(X)
#undef X
template <class T> static void compare(Results<T> const& ce, T a, T b, T c, T d) {
  Results<T> const rt = results(complex<T>(opaque(a), opaque(b)), complex<T>(opaque(c), opaque(d)));
  for (int i = 0; i < 24; ++i) {
    R().evaluations++;
    R().distinct_n++;
    Q const x = ce.v[i], y = rt.v[i];
    if (!(absq(x - y) <= 4 * (Q)std::numeric_limits<T>::epsilon() * absq(x)))
      V_FAIL(strf("constexpr:%s:%d", Name<T>::s(), i), "%s: result %d is %.20Lg in a constant expression and %.20Lg at run time", Name<T>::s(), i, (long double)x, (long double)y);
  }
}
constexpr auto ce_re = real(vector<complex<double>, 2>{complex<double>(1, 2), complex<double>(3, 4)});
constexpr auto ce_im = imag(vector<complex<double>, 2>{complex<double>(1, 2), complex<double>(3, 4)});
constexpr auto ce_no = norm(vector<complex<double>, 2>{complex<double>(1, 2), complex<double>(3, 4)});
constexpr auto ce_ab = abs(vector<complex<double>, 2>{complex<double>(1, 2), complex<double>(3, 4)});
static_assert(ce_re[1] == 3 && ce_im[0] == 2 && ce_no[1] == 25 && ce_ab[1] == 5, "component-wise operations in constant expressions");
static_assert(complex<float>(2, 3) * complex<float>(4, -5) == complex<float>(23, 2), "");
static_assert(complex<double>(3, 4).abs() == 5 && complex<double>(3, 4).distance(complex<double>(0, 8)) == 5, "");
static_assert(complex<double>(1, -0.0).is_real() && !complex<double>(0, 1e-300).is_real(), "");

int main(int argc, char** argv) {
  init(argc, argv);
  bool th = R().thorough;
  Test<float>::run(th);
  Test<double>::run(th);
  Test<long double>::run(th);
#define X(i, a, b, c, d)                                         \
  compare<float>(cf##i, float(a), float(b), float(c), float(d)); \
  compare<double>(cd##i, a, b, c, d);                            \
  compare<long double>(cl##i, a, b, c, d);
  PAIRS(X)
  R().finish();
}
