// References for the signal harnesses, in 113 bit arithmetic and independent of
// the code under test: analog prototypes and responses from their definitions.
#pragma once
#include "verif.h"
#include <cmath>
#include <limits>
#include <quadmath.h>
#include <vector>

namespace ref {
typedef __float128 Q;
inline Q absq(Q x) { return x < 0 ? -x : x; }
inline Q maxq(Q a, Q b) { return a < b ? b : a; }
struct C {
  Q re, im;
  C(Q r = 0, Q i = 0) : re(r), im(i) {}
};
inline C operator+(C a, C b) { return C(a.re + b.re, a.im + b.im); }
inline C operator-(C a, C b) { return C(a.re - b.re, a.im - b.im); }
inline C operator-(C a) { return C(-a.re, -a.im); }
inline C operator*(C a, C b) { return C(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }
inline C operator*(Q a, C b) { return C(a * b.re, a * b.im); }
inline Q norm(C a) { return a.re * a.re + a.im * a.im; }
inline Q abs(C a) { return hypotq(a.re, a.im); }
inline C operator/(C a, C b) {
  Q const n = norm(b);
  return C((a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n);
}
inline C conj(C a) { return C(a.re, -a.im); }
static const Q PI = 3.14159265358979323846264338327950288419716939937510Q;
typedef std::vector<C> Roots;

struct Zpk {
  Roots z, p;
  Q k;
};

template <class T> inline Q eps() { return std::numeric_limits<T>::epsilon(); }

// ripple or attenuation in decibels -> eps^2 = 10^(r/10) - 1, which is off by a factor of d
inline Q eps2(Q db, Q d = 0) { return expm1q(db / 10 * logq(10)) * (1 + d); }

inline Zpk butterworth(int n) {
  Zpk f;
  f.k = 1;
  for (int i = 0; i < n; ++i) {
    Q const a = PI * (2 * i + 1) / (2 * n); // 0 < a < pi: angle from the positive imaginary axis
    f.p.push_back(2 * i + 1 == n ? C(-1, 0) : C(-sinq(a), cosq(a)));
  }
  return f;
}
inline C times(Roots const& r) { // product of -r
  C v(1, 0);
  for (C const& x : r) v = v * -x;
  return v;
}
inline Zpk chebyshev1(int n, Q e2) {
  Zpk f;
  Q const m = asinhq(1 / sqrtq(e2)) / n, s = sinhq(m), c = coshq(m);
  for (int i = 0; i < n; ++i) {
    Q const a = PI * (2 * i + 1) / (2 * n);
    f.p.push_back(2 * i + 1 == n ? C(-s, 0) : C(-s * sinq(a), c * cosq(a)));
  }
  f.k = times(f.p).re / (n % 2 ? Q(1) : sqrtq(1 + e2));
  return f;
}
inline Zpk chebyshev2(int n, Q e2) { // e2 from the attenuation: stop band gain is 1/sqrt(1+e2)
  Zpk f;
  Q const m = asinhq(sqrtq(e2)) / n, s = sinhq(m), c = coshq(m);
  for (int i = 0; i < n; ++i) {
    Q const a = PI * (2 * i + 1) / (2 * n);
    if (2 * i + 1 == n)
      f.p.push_back(C(-1 / s, 0));
    else {
      f.p.push_back(C(1) / C(-s * sinq(a), c * cosq(a)));
      f.z.push_back(C(0, 1 / cosq(a)));
    }
  }
  f.k = (times(f.p) / times(f.z)).re;
  return f;
}
// phase normalised Bessel: roots of the reverse Bessel polynomial, scaled such that
// the constant becomes one; simultaneous iteration from points on a circle
inline Zpk bessel(int n) {
  static std::vector<Zpk> memo(128);
  if (!memo[n].p.empty()) return memo[n];
  std::vector<Q> c(n + 1);
  c[n] = 1;
  for (int k = n; k > 0; --k) c[k - 1] = c[k] * Q(2 * n - k + 1) * Q(k) / (Q(2) * Q(n - k + 1));
  Q const lg = logq(c[0]) / n;
  for (int k = 0; k <= n; ++k) c[k] = k == n ? Q(1) : expq(logq(c[k]) - lg * (n - k));
  Zpk f;
  f.k = 1;
  for (int i = 0; i < n; ++i) {
    Q const a = PI * (Q(i) + 0.3Q) * 2 / n;
    f.p.push_back(C(cosq(a) - 0.5Q, sinq(a)));
  }
  for (int it = 0; it < 500; ++it) {
    Q step = 0;
    for (int i = 0; i < n; ++i) {
      C v = c[n], d = 0;
      for (int k = n - 1; k >= 0; --k) {
        d = d * f.p[i] + v;
        v = v * f.p[i] + C(c[k]);
      }
      C const w = v / d;
      C s = 0;
      for (int j = 0; j < n; ++j)
        if (j != i) s = s + C(1) / (f.p[i] - f.p[j]);
      C const m = w / (C(1) - w * s);
      f.p[i] = f.p[i] - m;
      step = maxq(step, abs(m));
    }
    if (step < 1e-31Q) break;
  }
  for (C& p : f.p) // exactly conjugate pairs
    if (absq(p.im) < 1e-20Q) p.im = 0;
  memo[n] = f;
  return f;
}

// squared magnitude at the analog frequency w (cutoff at 1)
inline Q cheb(int n, Q x) { return absq(x) <= 1 ? cosq(n * acosq(x)) : (x < 0 && n % 2 ? -1 : 1) * coshq(n * acoshq(absq(x))); }
inline Q mag2_butterworth(int n, Q w) { return 1 / (1 + powq(w * w, n)); }
inline Q mag2_chebyshev1(int n, Q e2, Q w) {
  Q const t = cheb(n, w);
  return 1 / (1 + e2 * t * t);
}
inline Q mag2_chebyshev2(int n, Q e2, Q w) {
  if (w == 0) return 1;
  Q const t = cheb(n, 1 / w);
  return t * t / (t * t + e2);
}
// |theta_n(0)/theta_n(j w s)|^2 with s chosen such that theta_n(j w s) ~ (j w)^n theta_n(0) far out
inline Q mag2_bessel(int n, Q w) {
  Q lg = 0; // log of theta_n(0) = (2n)!/(2^n n!) = 1*3*5*...*(2n-1)
  for (int i = 1; i <= n; ++i) lg += logq(Q(2 * i - 1));
  C const s(0, w * expq(lg / n));
  C a(1), b = s + C(1); // theta_0, theta_1, each divided by its value at zero
  if (n == 0) return 1;
  for (int i = 2; i <= n; ++i) {
    C const t = b + Q(1) / (Q(2 * i - 1) * Q(2 * i - 3)) * (s * s * a);
    a = b;
    b = t;
  }
  return 1 / norm(b);
}
} // namespace ref
