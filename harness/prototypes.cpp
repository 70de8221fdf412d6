// C21: analog prototypes of every order, parameter and type against their
// definitions in 113 bit arithmetic; Bessel poles against Newton's method in
// 200 digits.  -DFAM=0..3 -DLO -DHI
#include "sigref.h"
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <functional>
#if FAM == 3
#include "besselref.h"
#endif
using namespace verif;
using namespace ref;
namespace es = embedded::signal;

template <class T> struct Name;
template <> struct Name<float> { static char const* s() { return "float"; } };
template <> struct Name<double> { static char const* s() { return "double"; } };
template <> struct Name<long double> { static char const* s() { return "long double"; } };
static char const* const FAMILY[] = {"butterworth", "chebyshev1", "chebyshev2", "bessel"};

template <class T> static T opaque(T x) {
  asm volatile("" : "+m"(x));
  return x;
}
static std::string show(C z) { return strf("(%.20Lg%+.20Lgi)", (long double)z.re, (long double)z.im); }

template <class V> static Roots roots(V const& v) {
  Roots r;
  for (std::size_t i = 0; i < v.size(); ++i) r.push_back(C(v[i].real(), v[i].imag()));
  return r;
}

struct Judge {
  std::string who;
  std::string key;
  // got must be want up to order, each within its tolerance
  void match(char const* what, Roots const& got, Roots const& want, std::vector<Q> const& tol) const {
    if (got.size() != want.size()) {
      V_FAIL(key + ":" + what + ":number", "%s has %zu %s, should have %zu", who.c_str(), got.size(), what, want.size());
      return;
    }
    std::vector<bool> used(want.size());
    for (C const& g : got) {
      R().evaluations++;
      std::size_t best = want.size();
      for (std::size_t i = 0; i < want.size(); ++i)
        if (!used[i] && (best == want.size() || abs(g - want[i]) < abs(g - want[best]))) best = i;
      if (!(abs(g - want[best]) <= tol[best]))
        V_FAIL(key + ":" + what, "%s: %s is none of its %s; the nearest left is %s, the tolerance %.3Lg", who.c_str(), show(g).c_str(), what,
               show(want[best]).c_str(), (long double)tol[best]);
      used[best] = true;
    }
  }
  void structure(char const* what, Roots const& r, std::size_t reals) const {
    std::size_t real = 0;
    for (std::size_t i = 0; i < r.size(); ++i) {
      for (std::size_t j = 0; j < i; ++j)
        if (r[i].re == r[j].re && r[i].im == r[j].im) V_FAIL(key + ":" + what + ":repeated", "%s: %s occurs twice among the %s", who.c_str(), show(r[i]).c_str(), what);
      if (r[i].im == 0) {
        ++real;
        continue;
      }
      bool has = false;
      for (C const& x : r) has |= x.re == r[i].re && x.im == -r[i].im;
      if (!has) V_FAIL(key + ":" + what + ":conjugate", "%s: the conjugate of %s is not among the %s", who.c_str(), show(r[i]).c_str(), what);
    }
    if (real != reals) V_FAIL(key + ":" + what + ":real", "%s: %zu real %s instead of %zu", who.c_str(), real, what, reals);
  }
  void half_plane(Roots const& p) const {
    for (C const& x : p)
      if (!(x.re < 0)) V_FAIL(key + ":poles:half-plane", "%s: the pole %s is not in the left half plane", who.c_str(), show(x).c_str());
  }
  void gain(Q got, Q want, Q tol) const {
    if (!(absq(got - want) <= tol)) V_FAIL(key + ":gain", "%s: gain %.20Lg, should be %.20Lg (tolerance %.3Lg)", who.c_str(), (long double)got, (long double)want, (long double)tol);
  }
  // order: what the design claims; spec: zeros, poles, gain; zpk the same again
  template <class S, class D> void consistent(S const& s, D const& d, int n) const {
    if (d.order() != std::size_t(n)) V_FAIL(key + ":order", "%s reports order %zu", who.c_str(), d.order());
    auto const z = s.zpk();
    auto same = [](Roots const& a, Roots const& b) {
      if (a.size() != b.size()) return false;
      for (std::size_t i = 0; i < a.size(); ++i)
        if (a[i].re != b[i].re || a[i].im != b[i].im) return false;
      return true;
    };
    if (!same(roots(z.zeros()), roots(s.zeros())) || !same(roots(z.poles()), roots(s.poles())) || !(z.gain() == s.gain() || (z.gain() != z.gain() && s.gain() != s.gain())))
      V_FAIL(key + ":zpk", "%s: zpk() is not zeros(), poles() and gain()", who.c_str());
  }
};

static Judge judge(char const* type, int n, double db) {
  Judge j;
  j.who = FAM == 1 || FAM == 2 ? strf("%s<%d, %s>(%g dB)", FAMILY[FAM], n, type, db) : strf("%s<%d> in %s", FAMILY[FAM], n, type);
  j.key = strf("%s:%s", FAMILY[FAM], type);
  Crumb& c = crumb();
  c.what = FAMILY[FAM];
  c.n = 2;
  c.v[0] = n;
  c.v[1] = long(db * 1000);
  ++beat();
  return j;
}

template <class T, class S> static void compare(Judge const& j, S const& s, Zpk const& want, Zpk const& lo, Zpk const& hi, int n) {
  Roots const p = roots(s.poles()), z = roots(s.zeros());
  // what rounding the parameter can do, and a few units in the last place
  Q const e = eps<T>();
  std::vector<Q> tp, tz;
  for (std::size_t i = 0; i < want.p.size(); ++i) tp.push_back(abs(lo.p[i] - hi.p[i]) + 12 * e * maxq(abs(want.p[i]), FAM == 2 ? 0 : 1));
  for (std::size_t i = 0; i < want.z.size(); ++i) tz.push_back(12 * e * abs(want.z[i]));
  if (FAM == 2) // a zero or pole far out is the reciprocal of a small difference of numbers around one
    for (auto* v : {&tp, &tz})
      for (std::size_t i = 0; i < v->size(); ++i) {
        Q const m = abs((v == &tp ? want.p : want.z)[i]);
        (*v)[i] += 12 * e * m * m;
      }
  j.match("poles", p, want.p, tp);
  j.match("zeros", z, want.z, tz);
  j.structure("poles", p, n % 2);
  j.structure("zeros", z, 0);
  j.half_plane(p);
  Q rel = 0;
  for (std::size_t i = 0; i < want.p.size(); ++i) rel += tp[i] / abs(want.p[i]);
  for (std::size_t i = 0; i < want.z.size(); ++i) rel += tz[i] / abs(want.z[i]);
  // the gain is the quotient of two products; those have to be within the range of the type
  bool fits = true;
  for (auto const* v : {&want.p, &want.z}) {
    Q up = 0, down = 0;
    for (auto const& r : *v) {
      Q const l = logq(abs(r));
      (l > 0 ? up : down) += l;
    }
    Q const most = std::numeric_limits<T>::max_exponent * M_LN2q / (FAM == 2 ? 2 : 1) - 10;
    fits = fits && up < most && -down < most;
  }
  if (fits) j.gain(s.gain(), want.k, absq(want.k) * (rel + 8 * n * e) + absq(lo.k - hi.k));
  R().distinct_n++;
}

#if FAM == 0
template <class T, int N> static void one() {
  es::butterworth<N> const d{};
  auto const s = d.template spec<T>();
  Judge const j = judge(Name<T>::s(), N, 0);
  Zpk const w = butterworth(N);
  compare<T>(j, s, w, w, w, N);
  j.consistent(s, d, N);
}
#elif FAM == 1 || FAM == 2
static const double DB[] = {0.01, 0.05, 0.1, 0.2, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3, 3.0102999566398120, 4, 5, 6, 7.5, 10, 12, 15, 20, 25, 30, 35, 40, 45, 50, 55, 60, 65, 70, 75, 80, 90, 96, 100, 110, 120, 140};
template <class T, class PF, int N> static void params(char const* type) {
  for (double db : DB) {
    PF const r = opaque(PF(db));
#if FAM == 1
    if (db > 40) continue;
    es::chebyshev1<N, PF> const d(r);
#else
    es::chebyshev2<N, PF> const d(r);
#endif
    auto const s = d.template spec<T>();
    Judge const j = judge(type, N, db);
    Q const x = 1 + eps2(r), u = eps<PF>(); // 10^(r/10) - 1 cancels for small r
    Q const dl = u * (6 + logq(x)) * x / (x - 1) + 2 * eps<T>();
#if FAM == 1
    compare<T>(j, s, chebyshev1(N, eps2(r)), chebyshev1(N, eps2(r, -dl)), chebyshev1(N, eps2(r, dl)), N);
#else
    compare<T>(j, s, chebyshev2(N, eps2(r)), chebyshev2(N, eps2(r, -dl)), chebyshev2(N, eps2(r, dl)), N);
#endif
    j.consistent(s, d, N);
  }
}
template <class T, int N> static void one() { params<T, T, N>(Name<T>::s()); }
#else
template <class T, int N> static void one() {
  es::bessel<N> const d{};
  auto const s = d.template spec<T>();
  Judge const j = judge(Name<T>::s(), N, 0);
  Roots const p = roots(s.poles());
  static std::vector<Roots> memo(101); // the reference, found from the double precision poles
  if (memo[N].empty()) {
    memo[N] = newton(N, roots(d.template spec<double>().poles()));
    for (std::size_t i = 0; i < memo[N].size(); ++i)
      for (std::size_t k = 0; k < i; ++k)
        if (abs(memo[N][i] - memo[N][k]) < 1e-4Q) V_FAIL(j.key + ":poles:same-root", "%s: two poles are near the same root of the polynomial", j.who.c_str());
  }
  if (memo[N].size() != N) V_FAIL(j.key + ":poles", "%s: a pole is not near any root of the polynomial", j.who.c_str());
  // N different roots of a polynomial of degree N are all of them; the table has about
  // double precision (it is off by up to 11 units of 2^-52)
  Q const e = maxq(eps<T>(), 4 * eps<double>());
  j.match("poles", p, memo[N], std::vector<Q>(N, 4 * e));
  j.match("zeros", roots(s.zeros()), Roots(), std::vector<Q>());
  j.structure("poles", p, N % 2);
  j.half_plane(p);
  j.gain(s.gain(), 1, 4 * N * e);
  j.consistent(s, d, N);
  R().distinct_n++;
}
#endif

template <int N, int End> struct Orders {
  static void go() {
    one<float, N>();
    one<double, N>();
    one<long double, N>();
    Orders<N + 1, End>::go();
  }
};
template <int End> struct Orders<End, End> {
  static void go() {}
};

int main(int argc, char** argv) {
  init(argc, argv);
  Orders<LO, HI + 1>::go();
  R().sample(strf("%s of every order from %d to %d in float, double and long double", FAMILY[FAM], LO, HI));
  R().finish();
}
