// C22 and C23: every design of a lattice of families, orders, ripples, sample
// rates, cutoffs and types against the response the theory prescribes and for
// stability, coefficients being evaluated in 113 bit arithmetic.
// -DJUDGE=22|23 -DFAM=0..3 -DLO -DHI
#include "sigref.h"
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#if FAM == 3 && defined(HIGH)
#include "besselref.h"
#endif
using namespace verif;
using namespace ref;
namespace es = embedded::signal;

template <class T> struct Name;
template <> struct Name<float> { static char const* s() { return "float"; } };
template <> struct Name<double> { static char const* s() { return "double"; } };
template <> struct Name<long double> { static char const* s() { return "long double"; } };
static char const* const FAMILY[] = {"butterworth", "chebyshev1", "chebyshev2", "bessel"};
static char const* const FORM[] = {"polynomial", "sections (gain first)", "sections (gain distributed)"};

template <class T> static T opaque(T x) {
  asm volatile("" : "+m"(x));
  return x;
}

struct Section {
  std::vector<Q> b, a;
};
static C at(std::vector<Q> const& c, C zi) { // c0 + c1 zi + ...
  C v = 0;
  for (std::size_t i = c.size(); i-- > 0;) v = v * zi + C(c[i]);
  return v;
}
static Q sum(std::vector<Q> const& c) {
  Q s = 0;
  for (Q x : c) s += absq(x);
  return s;
}

struct Freq {
  Q w;
  C e;         // exp(-i w)
  C h;         // what the response should be
  Q spread;    // by how much inexact cutoffs and ripples may change it
  Q rb, ra;    // change of numerator and denominator (both with leading one) through inexact roots
  Q b, a;      // and what they are
};
struct Case {
  int n;
  bool hp;
  Q uT;
  Q k; // digital gain
  bool in_range;
  Roots z, p;
  Q sb, sa; // products of 1+|root|
  Q lg;     // relative error of the gain
  std::vector<Freq> f;
  std::string who;
  std::string key;
};

static double const RIPPLE[] = {0.01, 0.1, 0.5, 1, 3, 6, 12};
static double const ATTEN[] = {1, 3, 10, 20, 40, 60, 80, 100};

static Zpk prototype(int n, Q db, Q d) {
#if FAM == 0
  (void)db, (void)d;
  return butterworth(n);
#elif FAM == 1
  return chebyshev1(n, eps2(db, d));
#elif FAM == 2
  return chebyshev2(n, eps2(db, d));
#else
#ifdef HIGH
  return bessel_high(n);
#else
  return bessel(n);
#endif
#endif
}
static Q mag2(int n, Q db, Q w) {
#if FAM == 0
  (void)db;
  return mag2_butterworth(n, w);
#elif FAM == 1
  return mag2_chebyshev1(n, eps2(db), w);
#elif FAM == 2
  return mag2_chebyshev2(n, eps2(db), w);
#else
  (void)db;
  return mag2_bessel(n, w);
#endif
}

// response of the prototype at frequency W of a wave i W; W may be infinite
static C analog(Zpk const& f, Q W) {
  if (W > 1e4000Q) return f.z.size() == f.p.size() ? C(f.k) : C(0);
  C v = f.k;
  std::size_t i = 0;
  for (; i < f.p.size(); ++i) { // interleaved such that nothing overflows
    v = v / (C(0, W) - f.p[i]);
    if (i < f.z.size()) v = v * (C(0, W) - f.z[i]);
  }
  return v;
}

template <class T> static Case make_case(int n, T db, T fs, T f, bool hp, char const* type) {
  Case c;
  c.n = n;
  c.hp = hp;
  c.uT = eps<T>();
  c.key = strf("%s:%s", FAMILY[FAM], type);
  c.who = FAM == 1 || FAM == 2 ? strf("%s<%d>(%Lg dB)", FAMILY[FAM], n, (long double)db) : strf("%s<%d>", FAMILY[FAM], n);
  c.who += strf(" as %s at %.9Lg of %.9Lg Hz, designed in %s", hp ? "highpass" : "lowpass", (long double)f, (long double)fs, type);
  Q const x = PI * Q(f) / Q(fs), wc = tanq(x);
  // relative inexactness of the warped cutoff and of eps^2
  Q const dc = c.uT * (4 + 4 * (x / (sinq(x) * cosq(x))));
  Q const g = 1 + eps2(db), dr = FAM == 1 || FAM == 2 ? c.uT * (8 + logq(g)) * g / (g - 1) : 0;
  Zpk const pr = prototype(n, db, 0), lo = prototype(n, db, -dr), hi = prototype(n, db, dr);
  auto digital = [&](C v) {
    v = hp ? C(wc) / v : wc * v;
    return (C(1) + v) / (C(1) - v);
  };
  C k = pr.k;
  for (int i = 0; i < n; ++i) {
    C const a = hp ? C(wc) / pr.p[i] : wc * pr.p[i];
    k = k / (C(1) - a);
    k = hp ? k / -pr.p[i] : wc * k;
    c.p.push_back(digital(pr.p[i]));
    if (i < int(pr.z.size())) {
      C const b = hp ? C(wc) / pr.z[i] : wc * pr.z[i];
      k = (C(1) - b) * k;
      k = hp ? k * -pr.z[i] : Q(1) / wc * k;
      c.z.push_back(digital(pr.z[i]));
    } else
      c.z.push_back(C(hp ? 1 : -1));
  }
  c.k = k.re;
  c.sb = c.sa = 1;
  for (int i = 0; i < n; ++i) {
    c.sb *= 1 + abs(c.z[i]);
    c.sa *= 1 + abs(c.p[i]);
  }
  // the design squares products of these; the type has to have the range for it
  Q hi_ = 1, lo_ = 1, hi2 = 1, lo2 = 1;
  auto grow = [&](Q& h, Q& l, Q x) {
    h *= maxq(1, x * x);
    l *= x < 1 ? x * x : 1;
  };
  for (int i = 0; i < n; ++i) {
    grow(hi_, lo_, abs(C(4) - Q(4) * (hp ? C(wc) / pr.p[i] : wc * pr.p[i])));
    if (i < int(pr.z.size())) grow(hi_, lo_, abs(C(4) - Q(4) * (hp ? C(wc) / pr.z[i] : wc * pr.z[i])));
    grow(hi2, lo2, abs(pr.p[i]));
    if (i < int(pr.z.size())) grow(hi2, lo2, abs(pr.z[i]));
  }
  Q const big = std::numeric_limits<T>::max() / 1000, small = std::numeric_limits<T>::min() / c.uT;
  Q const fn = expq((n - int(pr.z.size())) * logq(4 * wc)) * absq(pr.k);
  c.in_range = hi_ < big && lo_ > small && hi2 < big && lo2 > small && fn < big && (hp || fn > small) && absq(c.k) > small && absq(pr.k) > small;
  c.lg = c.uT * (24 * n + 4 * absq(logq(absq(c.k))) + 4 * n * absq(logq(wc)));
  Q const bes = FAM == 3 ? 24 * eps<double>() : 0; // the table has double precision
  Q const delta = 12 * n * maxq(c.uT, bes);
  std::vector<Q> ws;
  static const int GRID = 24;
  for (int i = 0; i <= GRID; ++i) ws.push_back(PI * i / GRID);
  ws.push_back(2 * x); // the cutoff
  ws.push_back(x);
  ws.push_back(2 * atanq(2 * wc));
  ws.push_back(2 * atanq(wc / 4));
  for (Q w : ws) {
    Freq q;
    q.w = w;
    q.e = w == PI ? C(-1) : C(cosq(w), -sinq(w));
    Q const t = w == PI ? Q(HUGE_VALQ) : w == 2 * x ? wc : tanq(w / 2);
    Q const W = hp ? (t == 0 ? Q(-HUGE_VALQ) : -wc / t) : t / wc;
    q.h = analog(pr, absq(W));
    if (hp) q.h = conj(q.h);
    // the definition of the response, against which the poles are only a means
    Q const m = sqrtq(mag2(n, db, absq(W) > 1e30Q ? 1e30Q : absq(W)));
    if (!(absq(m - abs(q.h)) <= (FAM == 3 ? 1e-12Q : 1e-18Q) * (1 + m)))
      V_FAIL("reference", "the references disagree for %s at %Lg: %Lg, %Lg", c.who.c_str(), (long double)W, (long double)m, (long double)abs(q.h));
    C const moved[] = {analog(lo, absq(W)), analog(hi, absq(W)), analog(pr, absq(W) * (1 - dc)), analog(pr, absq(W) * (1 + dc))};
    q.spread = 0;
    for (C const& v : moved) q.spread += abs((hp ? conj(v) : v) - q.h);
    q.a = q.b = 1;
    Q na = 1, nb = 1;
    for (int i = 0; i < n; ++i) {
      Q const da = abs(C(1) - q.e * c.p[i]), db_ = abs(C(1) - q.e * c.z[i]);
      q.a *= da;
      na *= da + delta;
      q.b *= db_;
      nb *= db_ + delta;
    }
    q.ra = na - q.a;
    q.rb = nb - q.b;
    c.f.push_back(q);
  }
  return c;
}

static uint64_t useless, out_of_range;

static void crumbs(Case const& c) {
  static std::string s;
  s = c.who;
  Crumb& k = crumb();
  k.what = s.c_str();
  k.n = 0;
  ++beat();
}

#if JUDGE == 22
static void judge(Case const& c, std::vector<Section> const& s, Q uF, Q tiny, int form, char const* type) {
  Q const u = maxq(c.uT, uF);
  for (Freq const& q : c.f) {
    R().evaluations++;
    C h = 1;
    Q lo = 1, hi = 1; // bounds of what exact coefficients in place of these make of the magnitude
    Q tol;
    if (form == 0) {
      C const b = at(s[0].b, q.e), a = at(s[0].a, q.e);
      h = b / a;
      Q const e = c.uT * 4 * c.n + 2 * uF;
      Q const db = absq(c.k) * (q.rb + e * c.sb + c.lg * q.b) + (c.n + 1) * tiny;
      Q const da = q.ra + e * c.sa + (c.n + 1) * tiny;
      Q const al = q.a - da;
      tol = al > q.a / 2 ? (db + abs(q.h) * da) / al : Q(HUGE_VALQ);
    } else {
      Q num = 1, nhi = 1, den = 1, dlo = 1;
      for (Section const& x : s) {
        C const b = at(x.b, q.e), a = at(x.a, q.e);
        h = h * (b / a);
        Q const eb = (48 * c.n * maxq(c.uT, FAM == 3 ? 2 * eps<double>() : 0) + 4 * u) * sum(x.b) + 3 * tiny,
                ea = (48 * c.n * maxq(c.uT, FAM == 3 ? 2 * eps<double>() : 0) + 4 * u) * sum(x.a) + 3 * tiny;
        num *= abs(b);
        nhi *= abs(b) + eb;
        den *= abs(a);
        dlo *= abs(a) > 2 * ea ? abs(a) - ea : 0;
      }
      tol = dlo > 0 ? nhi / dlo - num / den + c.lg * abs(h) : Q(HUGE_VALQ);
    }
    tol += 2 * q.spread + 1e-28Q * abs(q.h);
    (void)lo, (void)hi;
    Q const scale = maxq(abs(q.h), 1e-6Q);
    if (tol <= 1e-2Q * scale)
      R().distinct_n++;
    else
      useless++;
    if (!(abs(h - q.h) <= tol) && tol < 1e30Q)
      V_FAIL(c.key + ":" + FORM[form] + ":" + type, "%s, %s of %s: response at %.6Lg rad is %.15Lg%+.15Lgi, should be %.15Lg%+.15Lgi, tolerance %.3Lg", c.who.c_str(), FORM[form], type,
             (long double)q.w, (long double)h.re, (long double)h.im, (long double)q.h.re, (long double)q.h.im, (long double)tol);
  }
}
#endif

#if JUDGE == 23
// largest number of the Schur-Cohn recursion; below one for stable polynomials
static Q reflection(std::vector<Q> a) {
  Q top = 0;
  for (std::size_t n = a.size() - 1; n > 0; --n) {
    Q const k = a[n] / a[0];
    top = maxq(top, absq(k));
    if (!(absq(k) < 1)) return top;
    std::vector<Q> b(n);
    for (std::size_t i = 0; i < n; ++i) b[i] = a[i] - k * a[n - i];
    a = b;
  }
  return top;
}
static bool fin(Q x) { return x - x == 0; }

static void judge(Case const& c, std::vector<Section> const& s, Q uF, Q tiny, int form, char const* type) {
  std::string const key = c.key + ":" + FORM[form] + ":" + type;
  R().evaluations++;
  for (Section const& x : s) {
    for (Q v : x.b)
      if (!fin(v)) V_FAIL(key + ":finite", "%s, %s of %s: a feed-forward coefficient is not finite", c.who.c_str(), FORM[form], type);
    for (Q v : x.a)
      if (!fin(v)) V_FAIL(key + ":finite", "%s, %s of %s: a feedback coefficient is not finite", c.who.c_str(), FORM[form], type);
    if (x.a[0] != 1) V_FAIL(key + ":leading", "%s, %s of %s: leading feedback coefficient %.20Lg", c.who.c_str(), FORM[form], type, (long double)x.a[0]);
  }
  Q const bes = FAM == 3 ? 24 * eps<double>() : 0;
  if (form == 0) {
    // precise enough if on the unit circle the polynomial is larger than what
    // inexactness can change (Rouche); the circle is examined near every pole
    Q margin = HUGE_VALQ;
    Q const delta = 12 * c.n * maxq(c.uT, bes);
    auto look = [&](C e) {
      Q a = 1, na = 1;
      for (C const& p : c.p) {
        Q const d = abs(C(1) - e * p);
        a *= d;
        na *= d + delta;
      }
      Q const da = na - a + (c.uT * 4 * c.n + 2 * uF) * c.sa + (c.n + 1) * tiny;
      margin = a / da < margin ? a / da : margin;
    };
    for (Freq const& q : c.f) look(q.e);
    for (C const& p : c.p)
      for (int i = -4; i <= 4; ++i) {
        Q const w = atan2q(p.im, p.re) + i * (1 - abs(p)) / 3;
        look(C(cosq(w), -sinq(w)));
      }
    if (margin < 4) {
      useless++;
      return;
    }
    R().distinct_n++;
    Q const r = reflection(s[0].a);
    if (!(r < 1)) V_FAIL(key + ":stable", "%s, %s of %s: not all poles are inside the unit circle (reflection coefficient %.15Lg)", c.who.c_str(), FORM[form], type, (long double)r);
  } else {
    Q margin = HUGE_VALQ; // of the stability triangle
    for (C const& p : c.p) {
      Q const m = p.im == 0 ? 1 - absq(p.re) : 1 - norm(p), l = p.im == 0 ? 1 - absq(p.re) : norm(C(1) - C(absq(p.re), p.im));
      margin = m < margin ? m : margin;
      margin = l < margin ? l : margin;
    }
    Q const e = 48 * c.n * maxq(c.uT, bes) + 8 * uF;
    if (margin < 4 * e) {
      useless++;
      return;
    }
    R().distinct_n++;
    for (Section const& x : s)
      if (!(absq(x.a[2]) < 1 && absq(x.a[1]) < 1 + x.a[2]))
        V_FAIL(key + ":triangle", "%s, %s of %s: section with feedback %.15Lg, %.15Lg is not stable", c.who.c_str(), FORM[form], type, (long double)x.a[1], (long double)x.a[2]);
  }
}

// runs the filter: bounded inputs, then nothing
template <class F, class I> static void run(Case const& c, std::vector<Section> const& s, I make, int form, char const* type) {
  Q slow = 0;
  for (C const& p : c.p) slow = maxq(slow, abs(p));
  Q const decay = -1 / logq(slow) + 2;
  if (!(decay < 60)) return;
  int const len = int(decay * 40) + 8 * c.n + 40;
  // impulse response and its sum, and how far rounding may add up, in high precision
  std::vector<Q> h(len, 0);
  h[0] = 1;
  auto through = [&](std::vector<Q> const& b, std::vector<Q> const& a, std::vector<Q> const& in) {
    std::vector<Q> o(len, 0);
    for (int i = 0; i < len; ++i) {
      for (int k = 0; k < int(b.size()) && k <= i; ++k) o[i] += b[k] * in[i - k];
      for (int k = 1; k < int(a.size()) && k <= i; ++k) o[i] -= a[k] * o[i - k];
    }
    return o;
  };
  Q noise = 0, l1 = 1, floor = 0; // floor: what errors of the smallest numbers of the type add up to
  for (Section const& x : s) {
    std::vector<Q> delta(len, 0);
    delta[0] = 1;
    Q const g = sum(through(std::vector<Q>(1, Q(1)), x.a, delta)), f = sum(through(x.b, x.a, delta));
    h = through(x.b, x.a, h);
    Q const in = l1;
    l1 = sum(h);
    // what was wrong before the section, and each operation of it: with states bounded by the sums
    floor = floor * f + g * 64 * Q(std::numeric_limits<F>::denorm_min());
    noise = noise * f + g * 4 * eps<F>() * x.b.size() * (sum(x.b) * in + sum(x.a) * (l1 + noise));
  }
  if (noise > l1 / 4) {
    useless++;
    return;
  }
  std::string const key = c.key + ":" + FORM[form] + ":" + type;
  for (int kind = 0; kind < 4; ++kind) { // impulse, constant, alternating, the worst there is
    auto f = make();
    for (int i = 0; i < len; ++i) {
      F const x = kind == 0 ? i == 0 : kind == 1 ? 1 : kind == 2 ? (i % 2 ? -1 : 1) : h[len - 1 - i] < 0 ? -1 : 1;
      F const y = f(x);
      if (!(absq(Q(y)) <= l1 * 1.001Q + noise)) {
        V_FAIL(key + ":bounded", "%s, %s of %s: output %.9Lg at sample %d of input kind %d, while inputs are at most one and the responses add up to %.9Lg", c.who.c_str(), FORM[form], type,
               (long double)y, i, kind, (long double)l1);
        return;
      }
    }
    Q last = 0;
    for (int i = 0; i < len; ++i) {
      Q const y = f(F(0));
      if (i > len - 8) last = maxq(last, absq(y));
    }
    if (!(last <= 1e-3Q * l1 + noise)) V_FAIL(key + ":decay", "%s, %s of %s: output still %.9Lg %d samples after input kind %d ended", c.who.c_str(), FORM[form], type, (long double)last, len, kind);
    R().transitions += 2 * len;
    if (kind != 3) continue;
    // after 240 time constants nothing is left, whatever the multiplicity of the poles
    last = 0;
    for (int i = 0; i < 5 * len; ++i) {
      Q const y = f(F(0));
      if (i > 5 * len - 8) last = maxq(last, absq(y));
    }
    if (!(last <= 1e-30Q * l1 + floor)) V_FAIL(key + ":silence", "%s, %s of %s: output still %.9Lg %d samples after the input ended", c.who.c_str(), FORM[form], type, (long double)last, 6 * len);
    R().transitions += 5 * len;
  }
}
#endif

template <class F, int N, class D> static void forms(Case const& c, D const& des) {
  char const* const t = Name<F>::s();
  Q const tiny = std::numeric_limits<F>::denorm_min(), u = eps<F>();
#ifndef HIGH // polynomials of such orders are beyond every type's precision
  {
    auto const p = des.template poly<F>();
    auto const b = p.b();
    auto const a = p.a();
    std::vector<Section> s(1);
    for (int i = 0; i <= N; ++i) {
      s[0].b.push_back(b[i]);
      s[0].a.push_back(a[i]);
    }
    judge(c, s, u, tiny, 0, t);
#if JUDGE == 23
    if (N <= 4) run<F>(c, s, [&] { return p.instance(); }, 0, t);
#endif
  }
#endif
  for (int mode = 0; mode < 2; ++mode) {
    auto const d = des.template sos<F>(mode ? es::sos_gain::distribute : es::sos_gain::first_section);
    if (d.size() != (N + 1) / 2) V_FAIL("sections", "%s has %zu sections", c.who.c_str(), d.size());
    std::vector<Section> s;
    for (std::size_t i = 0; i < d.size(); ++i) {
      auto const b = d.sos()[i].b();
      auto const a = d.sos()[i].a();
      Section x;
      for (int k = 0; k < 3; ++k) {
        x.b.push_back(b[k]);
        x.a.push_back(a[k]);
      }
      s.push_back(x);
    }
    judge(c, s, u, tiny, 1 + mode, t);
#if JUDGE == 23
    run<F>(c, s, [&] { return d.instance(); }, 1 + mode, t);
#endif
  }
  R().traces++;
}

template <class T, int N, class P> static void one(P const& proto, T db) {
  static double const ratio[] = {0.0001, 0.001, 0.01, 0.03, 0.07, 0.1, 0.125, 0.2, 0.25, 0.3, 1. / 3, 0.375, 0.4, 0.45, 0.49, 0.499, 0.15, 0.05, 0.35, 0.475, 0.2499, 0.00003, 0.4999};
  static double const rates[] = {1, 48000, 44100, 1e6 / 3, 7.5};
  int const nr = R().thorough ? 23 : 16;
  static unsigned turn = 0;
#ifdef HIGH
  for (int i : {3, 8, 12, R().thorough ? 5 : 8})
#else
  for (int i = 0; i < nr; ++i)
#endif
    for (int hp = 0; hp < 2; ++hp) {
      T const fs = opaque(T(rates[turn++ % 5]));
      T const f = opaque(T(ratio[i] * fs));
      Case const c = make_case<T>(N, db, fs, f, hp, Name<T>::s());
      crumbs(c);
      if (!c.in_range) {
        out_of_range++;
        continue;
      }
      auto const des = hp ? es::iirfilter<T>(fs).highpass(proto, f) : es::iirfilter<T>(fs).lowpass(proto, f);
#ifdef HIGH
      forms<T, N>(c, des);
      continue;
#endif
      // a power of two times both rates is the same filter
      auto const des2 = hp ? es::iirfilter<T>(fs * 1024).highpass(proto, f * 1024) : es::iirfilter<T>(fs * 1024).lowpass(proto, f * 1024);
#ifndef HIGH
      auto const p1 = des.template poly<T>(), p2 = des2.template poly<T>();
      for (int k = 0; k <= N; ++k)
        if (p1.b()[k] != p2.b()[k] || p1.a()[k] != p2.a()[k]) V_FAIL(c.key + ":ratio", "%s: the coefficients are different for 1024 times both frequencies", c.who.c_str());
#if TYPES == 0
      forms<double, N>(c, des);
      forms<float, N>(c, des);
#elif TYPES == 1
      forms<float, N>(c, des);
#else
      forms<long double, N>(c, des);
      forms<double, N>(c, des);
#endif
#endif
    }
}

template <class T, int N> static void params() {
#if FAM == 0
  one<T, N>(es::butterworth<N>(), T(0));
#elif FAM == 3
  one<T, N>(es::bessel<N>(), T(0));
#else
  for (double x :
#if FAM == 1
       RIPPLE
#else
       ATTEN
#endif
  ) {
#ifdef HIGH
    if (x != 1 && x != 60) continue;
#endif
    if (!R().thorough && (x == 0.1 || x == 6 || x == 1 + 2 * (FAM == 1) || x == 20 || x == 80)) continue;
    T const db = opaque(T(x));
#if FAM == 1
    one<T, N>(es::chebyshev1<N, T>(db), db);
#else
    one<T, N>(es::chebyshev2<N, T>(db), db);
#endif
  }
#endif
}

template <int N, int End> struct Orders {
  static void go() {
#if TYPES == 0
    params<double, N>();
#elif TYPES == 1
    params<float, N>();
#else
    params<long double, N>();
#endif
    Orders<N + 1, End>::go();
  }
};
template <int End> struct Orders<End, End> {
  static void go() {}
};

int main(int argc, char** argv) {
  init(argc, argv);
  Orders<LO, HI + 1>::go();
  R().sample(strf("%s of orders %d to %d, %s", FAMILY[FAM], LO, HI, TYPES == 0 ? "designed in double" : TYPES == 1 ? "designed in float" : "designed in long double"));
  if (out_of_range) R().note(strf("%llu designs beyond the range of the type", (unsigned long long)out_of_range));
  R().note(strf("%llu cases where the precision of the types allows no conclusion", (unsigned long long)useless));
  R().finish();
}
