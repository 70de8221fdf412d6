// Bessel prototypes in 200 digits
#pragma once
#include "sigref.h"
#include <boost/multiprecision/cpp_bin_float.hpp>
namespace ref {
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<220>, boost::multiprecision::et_off> W;
struct CW {
  W re, im;
};
inline CW mul(CW const& a, CW const& b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
// the poles nearest to the given ones: roots of the reverse Bessel polynomial
// sum (2n-k)!/(2^(n-k) k! (n-k)!) s^k, scaled such that the constant becomes one
inline Roots newton(int n, Roots const& start) {
  std::vector<W> c(n + 1);
  c[n] = 1;
  for (int k = n; k > 0; --k) c[k - 1] = c[k] * W(2 * n - k + 1) * W(k) / (W(2) * W(n - k + 1));
  W const s = exp(log(c[0]) / n);
  W f = 1 / W(c[0]);
  for (int k = 0; k <= n; ++k) {
    c[k] = c[k] * f;
    f *= s;
  }
  Roots r;
  for (C const& z : start) {
    CW x = {W((long double)z.re), W((long double)z.im)};
    for (int it = 0; it < 9; ++it) {
      CW p = {c[n], 0}, d = {0, 0};
      for (int k = n - 1; k >= 0; --k) {
        d = mul(d, x);
        d = {d.re + p.re, d.im + p.im};
        p = mul(p, x);
        p.re += c[k];
      }
      W const q = d.re * d.re + d.im * d.im;
      x.re -= (p.re * d.re + p.im * d.im) / q;
      x.im -= (p.im * d.re - p.re * d.im) / q;
      if (it == 8 && (p.re * p.re + p.im * p.im) > q * W("1e-80")) return Roots(); // not a root
    }
    long double const a = x.re.convert_to<long double>(), b = x.im.convert_to<long double>();
    Q const la = (x.re - W(a)).convert_to<long double>(), lb = (x.im - W(b)).convert_to<long double>();
    r.push_back(C(Q(a) + la, Q(b) + lb));
  }
  return r;
}
// all the poles, by simultaneous iteration, or too few if that fails
inline Zpk const& bessel_high(int n) {
  static std::vector<Zpk> memo(128);
  Zpk& f = memo[n];
  if (!f.p.empty()) return f;
  f.k = 1;
  typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<90>, boost::multiprecision::et_off> V;
  struct CV {
    V re, im;
    static CV mul(CV const& a, CV const& b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
    static CV div(CV const& a, CV const& b) {
      V const q = b.re * b.re + b.im * b.im;
      return {(a.re * b.re + a.im * b.im) / q, (a.im * b.re - a.re * b.im) / q};
    }
  };
  std::vector<V> c(n + 1);
  c[n] = 1;
  for (int k = n; k > 0; --k) c[k - 1] = c[k] * V(2 * n - k + 1) * V(k) / (V(2) * V(n - k + 1));
  V const sc = exp(log(c[0]) / n);
  V g = 1 / V(c[0]);
  for (int k = 0; k <= n; ++k) {
    c[k] = c[k] * g;
    g *= sc;
  }
  std::vector<CV> p(n);
  for (int i = 0; i < n; ++i) {
    double const a = 2 * 3.14159265358979 * (i + 0.3) / n;
    p[i] = {V(std::cos(a) - 0.5), V(std::sin(a))};
  }
  for (int it = 0; it < 300; ++it) {
    V step = 0;
    for (int i = 0; i < n; ++i) {
      CV v = {c[n], 0}, d = {0, 0};
      for (int k = n - 1; k >= 0; --k) {
        d = CV::mul(d, p[i]);
        d = {d.re + v.re, d.im + v.im};
        v = CV::mul(v, p[i]);
        v.re += c[k];
      }
      CV const w = CV::div(v, d);
      CV s = {0, 0};
      for (int j = 0; j < n; ++j)
        if (j != i) {
          CV const t = CV::div({1, 0}, {p[i].re - p[j].re, p[i].im - p[j].im});
          s = {s.re + t.re, s.im + t.im};
        }
      CV m = CV::mul(w, s);
      m = CV::div(w, {1 - m.re, -m.im});
      p[i] = {p[i].re - m.re, p[i].im - m.im};
      V const t = m.re * m.re + m.im * m.im;
      if (t > step) step = t;
    }
    if (step < V("1e-60")) break;
  }
  Roots start;
  for (CV const& z : p) start.push_back(C(Q(z.re.convert_to<long double>()), Q(z.im.convert_to<long double>())));
  f.p = newton(n, start);
  for (std::size_t i = 0; i < f.p.size(); ++i)
    for (std::size_t k = 0; k < i; ++k)
      if (abs(f.p[i] - f.p[k]) < 1e-4Q) f.p.clear();
  for (C& z : f.p)
    if (absq(z.im) < 1e-20Q) z.im = 0;
  return f;
}
} // namespace ref
