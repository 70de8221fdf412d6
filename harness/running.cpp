// C25: running filters against the difference equations of their published
// coefficients, in exact arithmetic of several kinds.  -DPART=0 sequences,
// -DPART=1 histories of instances
#include "verif.h"
#include <array>
#include <embedded/signal/filter.h>
using namespace verif;
namespace es = embedded::signal;

// only the sections accept types with no implicit conversion from the design's
#ifdef SECTIONS_ONLY
#define IMPLICIT explicit
#else
#define IMPLICIT
#endif
// the field of integers modulo a prime: exact, and nothing but its own arithmetic
struct Zp {
  static const uint64_t P = 2147483647;
  uint32_t v;
  Zp() : v(0) {}
  IMPLICIT Zp(double d) {
    long long const i = (long long)d;
    if (double(i) != d) V_FAIL("harness", "coefficient %g is no integer", d);
    v = uint32_t(((i % (long long)P) + P) % P);
  }
  explicit Zp(int i) : v(uint32_t(((i % (long long)P) + P) % P)) {}
  friend Zp operator+(Zp a, Zp b) {
    Zp r;
    r.v = uint32_t((uint64_t(a.v) + b.v) % P);
    return r;
  }
  friend Zp operator-(Zp a, Zp b) {
    Zp r;
    r.v = uint32_t((uint64_t(a.v) + P - b.v) % P);
    return r;
  }
  friend Zp operator*(Zp a, Zp b) {
    Zp r;
    r.v = uint32_t(uint64_t(a.v) * b.v % P);
    return r;
  }
  Zp operator-() const { return Zp() - *this; }
  Zp& operator+=(Zp o) { return *this = *this + o; }
  Zp& operator-=(Zp o) { return *this = *this - o; }
  Zp& operator*=(Zp o) { return *this = *this * o; }
  bool operator==(Zp o) const { return v == o.v; }
  bool operator!=(Zp o) const { return v != o.v; }
};
// fixed point with 12 fractional bits: sums wrap around, products are rounded
// towards zero; the sum of products does not depend on the order of additions
struct Fix {
  int32_t v;
  Fix() : v(0) {}
  IMPLICIT Fix(double d) : v(int32_t(d * 4096)) {}
  explicit Fix(int i) : v(i * 4096) {}
  static Fix raw(uint32_t x) {
    Fix r;
    r.v = int32_t(x);
    return r;
  }
  friend Fix operator+(Fix a, Fix b) { return raw(uint32_t(a.v) + uint32_t(b.v)); }
  friend Fix operator-(Fix a, Fix b) { return raw(uint32_t(a.v) - uint32_t(b.v)); }
  friend Fix operator*(Fix a, Fix b) { return raw(uint32_t(int64_t(a.v) * b.v / 4096)); }
  Fix operator-() const { return Fix() - *this; }
  Fix& operator+=(Fix o) { return *this = *this + o; }
  Fix& operator-=(Fix o) { return *this = *this - o; }
  Fix& operator*=(Fix o) { return *this = *this * o; }
  bool operator==(Fix o) const { return v == o.v; }
  bool operator!=(Fix o) const { return v != o.v; }
};
template <class F> static F input(int v, F*) { return F(v); }
static Fix input(int v, Fix*) { return Fix::raw(uint32_t(v * 1409)); } // has a fraction
static std::string text(Zp z) { return strf("%u", z.v); }
static std::string text(Fix z) { return strf("%d/4096", z.v); }
static std::string text(long long z) { return strf("%lld", z); }
static std::string text(double z) { return strf("%.17g", z); }
static std::string text(float z) { return strf("%.9g", double(z)); }
static std::string text(long double z) { return strf("%.20Lg", z); }

template <class F> struct Name;
#define NAME(T) template <> struct Name<T> { static char const* s() { return #T; } };
NAME(Zp) NAME(Fix) NAME(float) NAME(double) NAME(long double) NAME(long long)

template <class C, int N, std::size_t... I> static embedded::cmath::vector<C, N> build(int (&l)[32][2], embedded::index_sequence<I...>) {
  return embedded::cmath::vector<C, N>{C(l[I][0], l[I][1])...};
}
// filters with integer coefficients, all different as far as possible
template <int N> static typename es::iirfilter<double>::design<N> design(int which) {
  typedef embedded::cmath::complex<double> C;
  struct Root {
    int re, im;
  };
  static Root const z[2][12] = {{{1, 2}, {1, -2}, {3, 0}, {-2, 1}, {-2, -1}, {1, 0}, {0, 2}, {0, -2}, {-1, 1}, {-1, -1}, {2, 0}, {1, 0}},
                                {{-1, 0}, {2, 1}, {2, -1}, {1, 1}, {1, -1}, {-3, 0}, {-1, 2}, {-1, -2}, {0, 1}, {0, -1}, {2, 0}, {3, 0}}};
  static Root const p[2][12] = {{{-1, 1}, {-1, -1}, {2, 0}, {1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-2, 0}, {-1, 0}, {0, 1}, {0, -1}},
                                {{1, 0}, {0, 1}, {0, -1}, {-2, 0}, {2, 0}, {1, 2}, {1, -2}, {-1, 0}, {1, 1}, {1, -1}, {-1, 0}, {1, 0}}};
  // the lists are closed under conjugation up to N or the last one is replaced by a real root
  int e[2][32][2]; // closed under conjugation: the last one is replaced by a real root if it is one of two
  for (int w = 0; w < 2; ++w)
    for (int i = 0; i < N;) {
      Root const* const l = w ? p[which] : z[which];
      Root const r = l[i % 12];
      bool const alone = r.im && i + 1 == N;
      e[w][i][0] = alone ? 5 : r.re;
      e[w][i][1] = alone ? 0 : r.im;
      ++i;
      if (r.im && !alone) {
        e[w][i][0] = r.re;
        e[w][i][1] = -r.im;
        ++i;
      }
    }
  typedef typename es::iirfilter<double>::design<N> D;
  return D(typename D::zpk_value(build<C, N>(e[0], embedded::make_index_sequence<N>{}), build<C, N>(e[1], embedded::make_index_sequence<N>{}), which ? -1. : 2.));
}

template <class F> struct Sections {
  struct S {
    std::vector<F> b, a;
  };
  std::vector<S> s;
};
template <class D, int N> static auto published(D const& d) -> Sections<typename D::value_type> {
  typedef typename D::value_type F;
  Sections<F> r;
  r.s.resize(1);
  auto const b = d.b(), a = d.a();
  for (int i = 0; i <= N; ++i) {
    r.s[0].b.push_back(b[i]);
    r.s[0].a.push_back(a[i]);
  }
  return r;
}
template <class F, int N> static Sections<F> published(es::sos_design<F, N> const& d) {
  Sections<F> r;
  for (std::size_t k = 0; k < d.size(); ++k) {
    typename Sections<F>::S s;
    auto const b = d.sos()[k].b(), a = d.sos()[k].a();
    for (int i = 0; i < 3; ++i) {
      s.b.push_back(b[i]);
      s.a.push_back(a[i]);
    }
    r.s.push_back(s);
  }
  return r;
}

// the definition: everything that ever went in and came out of every section
template <class F> struct Equation {
  Sections<F> const* c = nullptr;
  std::vector<std::vector<F>> h; // input, output of the first section, ...
  Equation() {}
  explicit Equation(Sections<F> const& s) : c(&s), h(s.s.size() + 1) {}
  F operator()(F x) {
    h[0].push_back(x);
    std::size_t const n = h[0].size() - 1;
    for (std::size_t k = 0; k < c->s.size(); ++k) {
      auto const& s = c->s[k];
      F y = s.b[0] * h[k][n];
      for (std::size_t i = 1; i < s.b.size() && i <= n; ++i) y = y + s.b[i] * h[k][n - i];
      for (std::size_t i = 1; i < s.a.size() && i <= n; ++i) y = y - s.a[i] * h[k + 1][n - i];
      h[k + 1].push_back(y);
    }
    return h.back().back();
  }
};

static std::string inputs(std::vector<int> const& x) {
  std::string s;
  for (int v : x) s += strf(" %d", v);
  return s;
}

#if PART == 0
// instance, explicit state, hand made cascade, all along one sequence
template <class F, int N> struct Bench {
#ifdef SECTIONS_ONLY
  // stands in for the polynomial form
  struct Instance : Equation<F> {
    using Equation<F>::Equation;
  };
  struct PolyDesign {
    Sections<F> const c;
    Instance instance() const { return Instance(c); }
    F filter(Instance& i, F x) const { return i(x); }
  } const poly;
  typedef Instance PolyInstance;
  typedef Instance PolyStateType;
#else
  es::poly_design<F, N> const poly;
  typedef es::poly_instance<F, N> PolyInstance;
  typedef std::array<F, N> PolyStateType;
#endif
  es::sos_design<F, N> const sos;
  Sections<F> const cp, cs;
  int which;
  Bench(typename es::iirfilter<double>::design<N> const& d, int w)
      :
#ifdef SECTIONS_ONLY
        poly{published<F, N>(d.template sos<F>())}, sos(d.template sos<F>()), cp(poly.c),
#else
        poly(d.template poly<F>()), sos(d.template sos<F>()), cp(published<decltype(poly), N>(poly)),
#endif
        cs(published<F, N>(sos)), which(w) {
    if (!(cp.s[0].a[0] == F(1.))) V_FAIL("leading", "leading feedback coefficient of the polynomial form is not one");
    for (auto const& s : cs.s)
      if (!(s.a[0] == F(1.))) V_FAIL("leading", "leading feedback coefficient of a section is not one");
  }
  struct Run {
    PolyInstance pi;
    es::sos_instance<F, N> si;
    PolyStateType ps;
    std::array<es::sos_state<F>, (N + 1) / 2> ss;
    Equation<F> ep, es_;
#ifdef SECTIONS_ONLY
    static PolyStateType init(Bench const& b, void*) { return b.poly.instance(); }
#else
    static PolyStateType init(Bench const&, void*) { return PolyStateType(); }
#endif
    explicit Run(Bench const& b) : pi(b.poly.instance()), si(b.sos.instance()), ps(init(b, (PolyStateType*)0)), ss(), ep(b.cp), es_(b.cs) {}
  };
  void step(Run& r, std::vector<int> const& x) const {
    R().states++; // a state is what was put in so far
    F const in = input(x.back(), (F*)0);
    F const want = r.ep(in), wants = r.es_(in);
    F const got[] = {r.pi(in), poly.filter(r.ps, in)};
    R().evaluations++;
    R().transitions++;
    static char const* const how[] = {"instance of the polynomial form", "filter() of the polynomial form", "instance of the section form", "filter() of the sections"};
    for (int i = 0; i < 2; ++i)
      if (!(got[i] == want)) V_FAIL(strf("%s:%d:%s", Name<F>::s(), i, "poly"), "order %d filter %d over %s: %s gives %s after%s, the difference equation %s", N, which, Name<F>::s(), how[i], text(got[i]).c_str(), inputs(x).c_str(), text(want).c_str());
    F c = in;
    for (std::size_t k = 0; k < sos.size(); ++k) c = sos.sos()[k].filter(r.ss[k], c);
    F const gots[] = {r.si(in), c};
    for (int i = 0; i < 2; ++i)
      if (!(gots[i] == wants)) V_FAIL(strf("%s:%d:%s", Name<F>::s(), i, "sos"), "order %d filter %d over %s: %s gives %s after%s, the difference equations %s", N, which, Name<F>::s(), how[2 + i], text(gots[i]).c_str(), inputs(x).c_str(), text(wants).c_str());
    for (std::size_t k = 0; k < sos.size(); ++k)
      if (!(r.si.state()[k].y1 == r.ss[k].y1) || !(r.si.state()[k].y2 == r.ss[k].y2)) V_FAIL(strf("%s:state", Name<F>::s()), "order %d filter %d over %s: state() is not what filter() leaves after%s", N, which, Name<F>::s(), inputs(x).c_str());
  }
  // all sequences over the alphabet: a copy of everything continues each way
  void all(Run const& r, std::vector<int>& x, int len, std::vector<int> const& alphabet) const {
    if (int(x.size()) == len) {
      R().traces++;
      return;
    }
    for (int v : alphabet) {
      Run n(r);
      x.push_back(v);
      step(n, x);
      all(n, x, len, alphabet);
      x.pop_back();
    }
    ++beat();
  }
};

template <class F, int N> static void sequences(int full, int len, std::vector<int> const& alphabet) {
  for (int w = 0; w < 2; ++w) {
    auto const d = design<N>(w);
    Bench<F, N> const b(d, w);
    std::vector<int> x;
    Crumb& c = crumb();
    c.what = Name<F>::s();
    c.n = 1;
    c.v[0] = N;
    b.all(typename Bench<F, N>::Run(b), x, full, alphabet);
    // one or two pulses, then silence, up to a longer length
    for (int i = 0; i < len; ++i)
      for (int j = i; j < len; ++j) {
        typename Bench<F, N>::Run r(b);
        x.clear();
        for (int t = 0; t < len; ++t) {
          x.push_back((t == i) + 2 * (t == j));
          b.step(r, x);
        }
        R().traces++;
      }
    R().distinct_n++;
  }
}

// a long run
template <class F, int N> static void endurance() {
  auto const d = design<N>(0);
  Bench<F, N> const b(d, 0);
  typename Bench<F, N>::Run r(b);
  std::vector<int> x(1);
  for (long t = 0; t < 140000; ++t) {
    x[0] = int(t * t % 7) - 3;
    b.step(r, x);
    if (t % 1000 == 0) ++beat();
  }
}
#ifndef LARGE
template <int N, int End> struct Orders {
  static void go() {
    bool const t = R().thorough;
    sequences<Zp, N>(t ? 12 : 9, 2 * N + 6, {0, 1, -3});
    sequences<Zp, N>(t ? 18 : 14, 0, {0, 1});
    sequences<Fix, N>(t ? 12 : 9, 2 * N + 6, {0, 1, -3});
#ifndef SECTIONS_ONLY
    sequences<double, N>(N <= 6 ? 8 : 6, 0, {0, 1, -1});
    sequences<long double, N>(N <= 6 ? 8 : 6, 0, {0, 1, -1});
    sequences<float, N>(N <= 4 ? 4 : 3, 0, {0, 1, -1});
    sequences<long long, N>(N <= 6 ? 8 : 6, 0, {0, 1, -2});
#endif
    Orders<N + 1, End>::go();
  }
};
template <int End> struct Orders<End, End> {
  static void go() {}
};
#endif
int main(int argc, char** argv) {
  init(argc, argv);
#ifdef LARGE
  sequences<Zp, 16>(5, 40, {0, 1, -3});
  sequences<Fix, 17>(5, 40, {0, 1, -3});
  sequences<Zp, 25>(4, 60, {0, 1, -3});
  sequences<Zp, 32>(4, 70, {0, 1});
  endurance<Zp, 3>();
  endurance<Fix, 6>();
#else
  Orders<N_LO, N_HI + 1>::go();
#endif
  R().sample(strf("two filters each over a field, fixed point, floating point and integers"));
  R().finish();
}
#else
// histories of several instances of several designs
typedef Zp F;
static const int SLOTS = 3;

struct Machine { // one thing that runs, of any kind
  virtual ~Machine() {}
  virtual F put(F) = 0;
  virtual Machine* copy() const = 0;
  virtual void assign(Machine const&) = 0;
  virtual int kind() const = 0;
};
static uint64_t heap;
template <class I, int K> struct Of : Machine {
  I i;
  explicit Of(I const& x) : i(x) {}
  F put(F x) override { return i(x); }
  Machine* copy() const override { return new Of(i); }
  void assign(Machine const& o) override { i = static_cast<Of const&>(o).i; }
  int kind() const override { return K; }
};
template <int N> struct PolyState {
  es::poly_design<F, N> const* d;
  std::array<F, N> s;
  F operator()(F x) { return d->filter(s, x); }
};
template <int N> struct SosState {
  es::sos_design<F, N> const* d;
  std::array<es::sos_state<F>, (N + 1) / 2> s;
  F operator()(F x) {
    for (std::size_t k = 0; k < d->size(); ++k) x = d->sos()[k].filter(s[k], x);
    return x;
  }
};

struct Slot {
  Machine* m = nullptr;
  Equation<F> e;
};
static const int KINDS = 6;
template <int NA, int NB> struct World {
  es::poly_design<F, NA> pa = design<NA>(0).template poly<F>();
  es::sos_design<F, NA> sa = design<NA>(0).template sos<F>();
  es::poly_design<F, NB> pb = design<NB>(1).template poly<F>();
  es::sos_design<F, NB> sb = design<NB>(1).template sos<F>();
  Sections<F> cpa = published<decltype(pa), NA>(pa), csa = published<F, NA>(sa), cpb = published<decltype(pb), NB>(pb), csb = published<F, NB>(sb);

  Slot make(int k) const {
    Slot s;
    if (k == 0) s.m = new Of<es::poly_instance<F, NA>, 0>(pa.instance());
    if (k == 1) s.m = new Of<es::sos_instance<F, NA>, 1>(sa.instance());
    if (k == 2) s.m = new Of<es::poly_instance<F, NB>, 2>(pb.instance());
    if (k == 3) s.m = new Of<es::sos_instance<F, NB>, 3>(sb.instance());
    if (k == 4) s.m = new Of<PolyState<NA>, 4>(PolyState<NA>{&pa, {}});
    if (k == 5) s.m = new Of<SosState<NB>, 5>(SosState<NB>{&sb, {}});
    s.e = Equation<F>(k == 0 || k == 4 ? cpa : k == 1 ? csa : k == 2 ? cpb : csb);
    return s;
  }
  static Slot fork(Slot const& s) {
    Slot n;
    n.m = s.m ? s.m->copy() : nullptr;
    n.e = s.e;
    return n;
  }
  std::vector<std::string> log;

  void explore(Slot const (&s)[SLOTS], int depth) {
    if (depth == 0) {
      R().traces++;
      ++beat();
      return;
    }
    int const PUT = SLOTS * 2, COPY = SLOTS * SLOTS, NEW = SLOTS * KINDS;
    int filled = 0;
    while (filled < SLOTS && s[filled].m) ++filled;
    for (int op = 0; op < PUT + COPY + NEW; ++op) {
      int i, j = 0, v = 0;
      char const* what;
      if (op < PUT) {
        i = op / 2;
        v = op % 2 ? 1 : -2;
        if (!s[i].m) continue;
        what = "put";
      } else if (op < PUT + COPY) { // slot i becomes a copy of slot j, by assignment if of the same kind
        i = (op - PUT) / SLOTS;
        j = (op - PUT) % SLOTS;
        if (!s[j].m || i > filled || (i == j && depth > 2)) continue;
        what = "copy";
      } else {
        i = (op - PUT - COPY) / KINDS;
        j = (op - PUT - COPY) % KINDS;
        if (i != filled) continue; // new ones in empty slots only
        what = "new";
      }
      Slot n[SLOTS];
      for (int k = 0; k < SLOTS; ++k) n[k] = fork(s[k]);
      R().transitions++;
      R().states++; // unmerged: a state is a history
      log.push_back(op < PUT ? strf("slot %d(%d)", i, v) : strf("slot %d = %s %d", i, what, j));
      if (op < PUT) {
        F const got = n[i].m->put(F(v)), want = n[i].e(F(v));
        R().evaluations++;
        if (!(got == want)) fail(i, got, want);
      } else if (op < PUT + COPY) {
        if (n[i].m && n[i].m->kind() == n[j].m->kind())
          n[i].m->assign(*n[j].m);
        else {
          Machine* c = n[j].m->copy();
          delete n[i].m;
          n[i].m = c;
        }
        n[i].e = Equation<F>(n[j].e);
      } else
        n[i] = make(j);
      explore(n, depth - 1);
      if (depth == 1) { // what is in the slots, observed by feeding them
        for (int t = 0; t < 2; ++t)
          for (int k = SLOTS; k-- > 0;)
            if (n[k].m) {
              F const got = n[k].m->put(F(3 + t)), want = n[k].e(F(3 + t));
              R().evaluations++;
              if (!(got == want)) fail(k, got, want);
            }
      }
      for (int k = 0; k < SLOTS; ++k) delete n[k].m;
      log.pop_back();
    }
  }
  void fail(int i, F got, F want) {
    std::string s;
    for (auto const& l : log) s += l + "; ";
    V_FAIL("history", "orders %d and %d: after %sslot %d gives %u, its difference equation %u", NA, NB, s.c_str(), i, got.v, want.v);
  }
  void go(int depth) {
    Slot s[SLOTS];
    explore(s, depth);
    R().distinct_n++;
    R().sample(strf("all histories of %d operations on up to %d instances of four designs of orders %d and %d", depth, SLOTS, NA, NB));
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  int const d = R().thorough ? DEPTH_T : DEPTH_Q;
  World<1, 2>().go(d);
  World<3, 3>().go(d);
  World<4, 7>().go(d - 1);
  // a copy of a design is the same filter; the original may go
  {
    auto* p = new es::poly_design<F, 5>(design<5>(0).poly<F>());
    auto* q = new es::sos_design<F, 5>(design<5>(0).sos<F>());
    es::poly_design<F, 5> const pc(*p);
    es::sos_design<F, 5> const qc(*q);
    auto const cp = published<es::poly_design<F, 5>, 5>(pc);
    auto const cq = published<F, 5>(qc);
    auto pi = pc.instance();
    auto qi = qc.instance();
    delete p;
    delete q;
    Equation<F> ep(cp), eq(cq);
    for (int t = 0; t < 30; ++t) {
      F const x(t % 7 - 2);
      if (!(pi(x) == ep(x)) || !(qi(x) == eq(x))) V_FAIL("copied design", "a copied design's instance differs at sample %d", t);
    }
  }
  R().finish();
}
#endif
