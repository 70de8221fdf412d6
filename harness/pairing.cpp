// C24: polynomial and section form of every filter whose zeros and poles come
// from a small lattice on which all arithmetic is exact, in many orders of the
// lists.  -DN_LO -DN_HI
// C33 (-DORDER): which of them end up together, and in which order
#include "sigref.h"
#include <algorithm>
#include <embedded/signal/filter.h>
using namespace verif;
namespace es = embedded::signal;

struct Root { // in quarters
  int re, im;
  bool operator==(Root const& o) const { return re == o.re && im == o.im; }
  bool operator<(Root const& o) const { return re != o.re ? re < o.re : im < o.im; }
};
typedef std::vector<Root> List;
typedef std::vector<List> Lists;

static std::string show(List const& l) {
  std::string s = "{";
  for (Root const& r : l) s += strf(r.im ? " %g%+gi" : " %g", r.re / 4., r.im / 4.);
  return s + " }";
}

// all multisets of n roots from the lattice, closed under conjugation
static void multisets(int n, std::vector<int> const& reals, std::vector<Root> const& pairs, std::size_t from, List const& got, Lists& out) {
  if (n == 0) {
    out.push_back(got);
    return;
  }
  for (std::size_t i = from; i < reals.size() + pairs.size(); ++i) {
    List g = got;
    if (i < reals.size()) {
      g.push_back({reals[i], 0});
      multisets(n - 1, reals, pairs, i, g, out);
    } else if (n >= 2) {
      Root const r = pairs[i - reals.size()];
      g.push_back(r);
      g.push_back({r.re, -r.im});
      multisets(n - 2, reals, pairs, i, g, out);
    }
  }
}

// integer polynomial in quarters: coefficient k is scaled by 4^k
typedef std::vector<__int128> Poly;
static Poly expand(List const& l) {
  std::vector<__int128> re(1, 1), im(1, 0);
  for (Root const& r : l) {
    re.push_back(0);
    im.push_back(0);
    for (std::size_t k = re.size() - 1; k > 0; --k) {
      re[k] -= re[k - 1] * r.re - im[k - 1] * r.im;
      im[k] -= re[k - 1] * r.im + im[k - 1] * r.re;
    }
  }
  return re;
}

static void describe(char* o, size_t n);
static List cur_z, cur_p;
static double cur_gain;
static char const* cur_what;
static void describe(char* o, size_t n) { snprintf(o, n, "%s zeros %s poles %s gain %g", cur_what, show(cur_z).c_str(), show(cur_p).c_str(), cur_gain); }
static std::string desc() {
  char b[2000];
  describe(b, sizeof b);
  return b;
}

// the two of the remaining roots which the quadratic 1 + c1 x + c2 x^2 has
template <class F> static bool take(List& left, F c1, F c2, bool& conjugates) {
  for (std::size_t i = 0; i < left.size(); ++i)
    for (std::size_t j = i + 1; j < left.size(); ++j) {
      Root const a = left[i], b = left[j];
      if (!(a.im == -b.im && (a.im == 0 || a.re == b.re))) continue;
      if (c1 * 4 != -F(a.re + b.re) || c2 * 16 != F(a.re * b.re - a.im * b.im)) continue;
      conjugates = a.im != 0;
      left.erase(left.begin() + j);
      left.erase(left.begin() + i);
      return true;
    }
  return false;
}

// the same, and tells which
template <class F> static bool find(List const& left, F c1, F c2, std::size_t& i, std::size_t& j) {
  for (i = 0; i < left.size(); ++i)
    for (j = i + 1; j < left.size(); ++j) {
      Root const a = left[i], b = left[j];
      if (a.im == -b.im && (a.im == 0 || a.re == b.re) && c1 * 4 == -F(a.re + b.re) && c2 * 16 == F(a.re * b.re - a.im * b.im)) return true;
    }
  return false;
}
static int from_circle(Root r) { return std::abs(16 - r.re * r.re - r.im * r.im); }
static int apart(Root a, Root b) { return (a.re - b.re) * (a.re - b.re) + (a.im - b.im) * (a.im - b.im); }
// was it right to take p[a] (with p[b]) and z[c] (with z[d]) out of p and z?
static bool poles_in_order(List const& p, std::size_t a, std::size_t b) {
  for (std::size_t i = 0; i < p.size(); ++i) {
    if (from_circle(p[i]) < from_circle(p[a])) return false;
    if (p[a].im == 0 && i != a && p[i].im == 0 && from_circle(p[i]) < from_circle(p[b])) return false;
  }
  return true;
}
static bool zeros_in_order(List const& z, Root p, std::size_t c, std::size_t d) {
  for (std::size_t i = 0; i < z.size(); ++i) {
    if (apart(z[i], p) < apart(z[c], p)) return false;
    if (z[c].im == 0 && i != c && z[i].im == 0 && apart(z[i], p) < apart(z[d], p)) return false;
  }
  return true;
}

template <class T, class V, std::size_t... I> static V make(List const& l, embedded::index_sequence<I...>) {
  typedef typename V::value_type C;
  return V{C(T(l[I].re) / 4, T(l[I].im) / 4)...};
}
template <class T, class V, int N> static V fill(List const& l) { return make<T, V>(l, embedded::make_index_sequence<N>{}); }

template <class T, class F, int N> static void forms(List const& z, List const& p, double gain, char const* key) {
  typedef embedded::cmath::complex<T> C;
  typedef embedded::cmath::vector<C, N> V;
  typedef typename es::iirfilter<T>::template design<N> D;
  cur_z = z;
  cur_p = p;
  cur_gain = gain;
  cur_what = key;
  // all of the arithmetic could be exact here, but need not be
  F const e = 16 * N * std::max(F(std::numeric_limits<T>::epsilon()), std::numeric_limits<F>::epsilon());
  D const d(typename D::zpk_value(fill<T, V, N>(z), fill<T, V, N>(p), T(gain)));
#ifdef ORDER
  for (int mode = 0; mode < 2; ++mode) {
    if (mode == 1 && !(gain > 0)) continue;
    auto const f = d.template sos<F>(mode ? es::sos_gain::distribute : es::sos_gain::first_section);
    R().evaluations++;
    List zl = z, pl = p;
    if (N % 2) {
      zl.push_back({0, 0});
      pl.push_back({0, 0});
    }
    for (std::size_t i = f.size(); i-- > 0;) { // the first that was put together is the last
      auto const b = f.sos()[i].b(), a = f.sos()[i].a();
      auto lattice = [&](F v, F lead, int k) {
        F const q = std::round(v / lead * k) / k;
        return std::fabs(q * lead - v) <= e * 2 * std::fabs(lead) ? q : F(99);
      };
      std::size_t pi[2], zi[2];
      if (!find(pl, lattice(a[1], 1, 4), lattice(a[2], 1, 16), pi[0], pi[1]) || !find(zl, lattice(b[1], b[0], 4), lattice(b[2], b[0], 16), zi[0], zi[1])) {
        V_FAIL("order:roots", "%s: section %zu is not made of the given zeros and poles", desc().c_str(), i);
        return;
      }
      bool p_ok = false, z_ok = false;
      for (int x = 0; x < 2; ++x)
        if (poles_in_order(pl, pi[x], pi[1 - x])) {
          p_ok = true;
          for (int y = 0; y < 2; ++y) z_ok |= zeros_in_order(zl, pl[pi[x]], zi[y], zi[1 - y]);
        }
      if (!p_ok)
        V_FAIL("order:poles", "%s: section %zu has the poles %s although others of %s are closer to the unit circle", desc().c_str(), i, show({pl[pi[0]], pl[pi[1]]}).c_str(), show(pl).c_str());
      else if (!z_ok)
        V_FAIL("order:zeros", "%s: section %zu has the poles %s and the zeros %s although others of %s are nearer", desc().c_str(), i, show({pl[pi[0]], pl[pi[1]]}).c_str(), show({zl[zi[0]], zl[zi[1]]}).c_str(), show(zl).c_str());
      zl.erase(zl.begin() + zi[1]), zl.erase(zl.begin() + zi[0]);
      pl.erase(pl.begin() + pi[1]), pl.erase(pl.begin() + pi[0]);
    }
  }
  ++beat();
  return;
#endif
  {
    auto const f = d.template poly<F>();
    auto const b = f.b(), a = f.a();
    Poly const eb = expand(z), ea = expand(p);
    F scale = 1, sz = 1, sp = 1;
    for (int i = 0; i < N; ++i) {
      sz *= 1 + std::hypot(F(z[i].re), F(z[i].im)) / 4;
      sp *= 1 + std::hypot(F(p[i].re), F(p[i].im)) / 4;
    }
    R().evaluations++;
    if (f.order() != N) V_FAIL("poly:order", "%s: polynomial form has order %zu", desc().c_str(), f.order());
    for (int i = 0; i <= N; ++i, scale *= 4) {
      if (!(std::fabs(b[i] - F(gain) * F(eb[i]) / scale) <= e * sz * F(std::fabs(gain)))) V_FAIL("poly:b", "%s: feed-forward coefficient %d of the polynomial form is %.20Lg instead of %.20Lg", desc().c_str(), i, (long double)b[i], (long double)(F(gain) * F(eb[i]) / scale));
      if (!(std::fabs(a[i] - F(ea[i]) / scale) <= e * sp)) V_FAIL("poly:a", "%s: feedback coefficient %d of the polynomial form is %.20Lg instead of %.20Lg", desc().c_str(), i, (long double)a[i], (long double)(F(ea[i]) / scale));
    }
  }
  for (int mode = 0; mode < 2; ++mode) {
    if (mode == 1 && !(gain > 0)) continue;
    auto const f = d.template sos<F>(mode ? es::sos_gain::distribute : es::sos_gain::first_section);
    char const* const what = mode ? "distributed" : "first";
    R().evaluations++;
    std::size_t const want = (N + 1) / 2;
    if (f.size() != want || f.sos().size() != want || f.sos_count != want || f.order() != N) {
      V_FAIL("sections:number", "%s: %zu sections of an order %zu filter", desc().c_str(), f.size(), f.order());
      return;
    }
    List zl = z, pl = p;
    if (N % 2) {
      zl.push_back({0, 0});
      pl.push_back({0, 0});
    }
    F const share = mode ? F(std::pow((long double)gain, 1.0L / want)) : 1;
    F product = 1;
    for (std::size_t i = 0; i < want; ++i) {
      auto const b = f.sos()[i].b(), a = f.sos()[i].a();
      bool conj;
      auto lattice = [&](F v, F lead, int k) { // nearest k-th power of a quarter
        F const q = std::round(v / lead * k) / k;
        return std::fabs(q * lead - v) <= e * 2 * std::fabs(lead) ? q : F(99);
      };
      if (a[0] != 1) V_FAIL("sections:a0", "%s: section %zu has the leading feedback coefficient %.20Lg", desc().c_str(), i, (long double)a[0]);
      if (!take(pl, lattice(a[1], 1, 4), lattice(a[2], 1, 16), conj))
        V_FAIL(std::string("sections:poles:") + what, "%s: section %zu has the feedback coefficients %.20Lg, %.20Lg, which do not belong to two real or two conjugate poles of those left, %s", desc().c_str(), i, (long double)a[1],
               (long double)a[2], show(pl).c_str());
      F const want_b0 = mode ? share : i == 0 ? F(gain) : F(1);
      if (!(std::fabs(b[0] - want_b0) <= (mode ? 4 : 1) * e * std::fabs(want_b0)))
        V_FAIL(std::string("sections:gain:") + what, "%s: section %zu has the leading feed-forward coefficient %.20Lg instead of %.20Lg", desc().c_str(), i, (long double)b[0], (long double)want_b0);
      product *= b[0];
      if (mode ? b[0] != f.sos()[0].b()[0] : i > 0 && b[0] != 1)
        V_FAIL(std::string("sections:gain:equal:") + what, "%s: section %zu has the leading feed-forward coefficient %.20Lg", desc().c_str(), i, (long double)b[0]);
      F const c1 = lattice(b[1], b[0], 4), c2 = lattice(b[2], b[0], 16);
      if (!take(zl, c1, c2, conj))
        V_FAIL(std::string("sections:zeros:") + what, "%s: section %zu has the feed-forward coefficients %.20Lg, %.20Lg, %.20Lg, which do not belong to two real or two conjugate zeros of those left, %s", desc().c_str(), i, (long double)b[0],
               (long double)b[1], (long double)b[2], show(zl).c_str());
    }
    if (mode && !(std::fabs(product / F(gain) - 1) <= 8 * e))
      V_FAIL("sections:gain:product", "%s: the gains of the sections multiply to %.20Lg", desc().c_str(), (long double)product);
  }
  ++beat();
}

static double const GAINS[] = {1, 0.25, -1, 3, 1. / 1024, -0.5, 1000, 1. / 65536 / 65536};
static unsigned turn;

template <int N> static void all(List const& z, List const& p, bool wide) {
  double const g = GAINS[turn++ % 8];
  forms<double, double, N>(z, p, g, "double");
  if (wide) {
    forms<long double, long double, N>(z, p, g, "long double");
    forms<double, float, N>(z, p, g, "double to float");
    if (N <= 6) forms<float, float, N>(z, p, g, "float");
    forms<long double, double, N>(z, p, g, "long double to double");
    forms<float, double, N>(z, p, g, "float to double");
  }
}

// the different arrangements of a list, at most max
static Lists arrangements(List l, std::size_t max) {
  Lists out;
  std::sort(l.begin(), l.end());
  List const sorted = l;
  std::size_t n = 0;
  do
    ++n;
  while (n <= max && std::next_permutation(l.begin(), l.end()));
  l = sorted;
  if (n <= max) {
    do
      out.push_back(l);
    while (std::next_permutation(l.begin(), l.end()));
    return out;
  }
  // all rotations, forwards and backwards, and exchanges of neighbours
  for (int back = 0; back < 2; ++back) {
    for (std::size_t i = 0; i < l.size() && out.size() < max; ++i) {
      out.push_back(l);
      std::rotate(l.begin(), l.begin() + 1, l.end());
    }
    std::reverse(l.begin(), l.end());
  }
  for (std::size_t i = 0; i + 1 < l.size() && out.size() < max; ++i) {
    l = sorted;
    std::swap(l[i], l[i + 1]);
    out.push_back(l);
  }
  return out;
}

template <int N> static void order() {
  std::vector<int> reals = {-4, -1, 0, 2, 4}; // 4: on the unit circle
  std::vector<Root> pairs = {{2, 2}, {0, 4}, {-2, 1}, {0, 3}};
  bool const t = R().thorough;
  if (N >= 5) {
    reals = {-4, 0, 2, 3};
    pairs = {{2, 2}, {0, 4}, {-2, 1}};
    if (t && N == 5) reals.push_back(4);
  }
  if (N >= 7) {
    reals = {-4, 1, 2};
    pairs = {{2, 2}, {0, 3}};
    if (t) pairs.push_back({-2, 1});
  }
  Lists sets;
  multisets(N, reals, pairs, 0, List(), sets);
  std::size_t const max = N <= 3 ? 6 : N == 4 ? 24 : N == 5 ? (t ? 120 : 16) : N == 6 ? (t ? 24 : 10) : t ? 24 : 16;
  std::vector<Lists> arr;
  for (List const& l : sets) arr.push_back(arrangements(l, max));
  uint64_t n = 0;
  for (auto const& zs : arr)
    for (auto const& ps : arr) {
      bool first = true;
      Crumb& c = crumb();
      c.what = "forms";
      c.fmt = describe;
      for (List const& z : zs)
        for (List const& p : ps) {
          if ((N >= 6 || (N == 5 && !t)) && !(z == zs[0] || p == ps[0] || (&z - &zs[0]) == (&p - &ps[0]))) continue;
          all<N>(z, p, first || N <= 2);
          first = false;
          ++n;
        }
    }
  R().distinct_n += n;
  R().sample(strf("order %d: %zu multisets of zeros and of poles, %llu pairs of lists", N, sets.size(), (unsigned long long)n), 20);
}

// higher orders: all sublists of that size of a fixed list of different roots
template <int N> static void high() {
  static int const reals[] = {-4, -3, -2, -1, 0, 1, 2, 3};
  static Root const pairs[] = {{2, 2}, {0, 4}, {-2, 1}, {0, 3}, {1, 1}, {-1, 3}, {3, 1}, {-3, 2}};
  uint64_t n = 0;
  for (int k = 0; 2 * k <= N; ++k) { // number of pairs, for zeros and poles
    if (N - 2 * k > 8) continue;
    for (int m = 0; 2 * m <= N; ++m) {
      if (N - 2 * m > 8) continue;
      for (int s = 0; s < 8; ++s) {
        List l[2];
        int const cnt[] = {k, m};
        for (int w = 0; w < 2; ++w) {
          for (int i = 0; i < cnt[w]; ++i) {
            Root const r = pairs[(i + s * (w + 1)) % 8];
            l[w].insert(l[w].begin() + (s % 2 ? l[w].size() / 2 : l[w].size()), r);
            l[w].push_back({r.re, -r.im});
          }
          for (int i = 0; i < N - 2 * cnt[w]; ++i) l[w].insert(l[w].begin() + (i * s) % (l[w].size() + 1), {reals[(i + 3 * s + w) % 8], 0});
          for (int rot = 0; rot < N; ++rot) {
            std::rotate(l[0].begin(), l[0].begin() + 1, l[0].end());
            if (l[1].empty()) break;
            forms<double, double, N>(l[0], l[1], GAINS[s], "double");
            ++n;
          }
        }
      }
    }
  }
  R().distinct_n += n;
  R().sample(strf("order %d: %llu pairs of lists of different roots", N, (unsigned long long)n), 20);
}

template <int N, int End> struct Orders {
  static void go() {
#ifdef HIGH
    high<N>();
#else
    order<N>();
#endif
    Orders<N + 1, End>::go();
  }
};
template <int End> struct Orders<End, End> {
  static void go() {}
};

int main(int argc, char** argv) {
  init(argc, argv);
  Orders<N_LO, N_HI + 1>::go();
  R().finish();
}
