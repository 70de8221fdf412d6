// C17 / C18: vectors against plain arrays.  The checks are constant expressions
// themselves (from C++14 on), so the same code decides bounded spaces at
// compile time and larger ones at run time.
#include "verif.h"
#if defined(VECTOR_FIRST)
#include <embedded/constexpr_math/vector.h>
#include <embedded/constexpr_math.h>
#else
#include <embedded/constexpr_math.h>
#endif
#include <algorithm>
#include <cmath>
#include <limits>
#include <type_traits>
using namespace verif;
using embedded::cmath::complex;
using embedded::cmath::vector;

#if __cplusplus >= 201402L
#define CX14 constexpr
#else
#define CX14
#endif

// numbers modulo 7: a type with its own arithmetic and nothing else
struct Z7 {
  int v;
  constexpr Z7() : v(0) {}
  constexpr explicit Z7(int x) : v(((x % 7) + 7) % 7) {}
};
constexpr Z7 operator+(Z7 a, Z7 b) { return Z7(a.v + b.v); }
constexpr Z7 operator-(Z7 a, Z7 b) { return Z7(a.v - b.v); }
constexpr Z7 operator-(Z7 a) { return Z7(-a.v); }
constexpr Z7 operator*(Z7 a, Z7 b) { return Z7(a.v * b.v); }
constexpr Z7 inv7(Z7 a) { return Z7(a.v * a.v % 7 * a.v % 7 * a.v % 7 * a.v); }
constexpr Z7 operator/(Z7 a, Z7 b) { return a * inv7(b); }
constexpr bool operator==(Z7 a, Z7 b) { return a.v == b.v; }

template <class T, int N> struct Arr {
  T a[N + 1];
};

// elements are made from small integers
template <class T> constexpr T elem(int i) { return T(i); }
template <> constexpr complex<double> elem<complex<double>>(int i) { return complex<double>(i, 2 - i); }
template <class T> constexpr bool same(T const& a, T const& b) { return a == b; }

template <class T, int N> struct From { // creates from an array
  Arr<T, N> const& a;
  constexpr T operator()(int i) const { return a.a[i]; }
};
template <class T, int N> constexpr vector<T, N> vec(Arr<T, N> const& a) { return vector<T, N>::create(From<T, N>{a}); }
template <class T, int N, std::size_t... I>
constexpr vector<T, N> vec_ctor(Arr<T, N> const& a, embedded::index_sequence<I...>) {
  return vector<T, N>{a.a[I]...};
}

// where a check failed
struct Fail {
  int line, a, b;
};
#define MUST(c) \
  if (!(c)) return Fail{__LINE__, 0, 0}
#define MUST2(c, x, y) \
  if (!(c)) return Fail{__LINE__, int(x), int(y)}
#define SUB(e)                           \
  {                                      \
    Fail f_ = (e);                       \
    if (f_.line) return f_;              \
  }
#define FINE \
  Fail { 0, 0, 0 }

template <class T, int N> CX14 bool eq(vector<T, N> const& v, Arr<T, N> const& a) {
  if (v.size() != N) return false;
  for (int i = 0; i < N; ++i)
    if (!same(v[i], a.a[i])) return false;
  return true;
}

// ------------------------------------------------------------------- functors
template <class T> struct Square {
  constexpr T operator()(T const& x) const { return x * x; }
};
struct Affine { // to another element type
  template <class T> constexpr double operator()(T const& x) const { return 2.5 * x + 1e10 + 0.25; }
};
struct IsBig {
  int limit;
  template <class T> constexpr bool operator()(T const& x) const { return T(limit) < x; }
};
struct PlusTwice { // the accumulated value comes first
  template <class T> constexpr T operator()(T const& a, T const& v) const noexcept { return T(a + v + v); }
};
struct Plus {
  template <class T> constexpr T operator()(T const& a, T const& b) const { return a + b; }
};
struct Max {
  template <class T> constexpr T operator()(T const& a, T const& b) const { return a < b ? b : a; }
};
template <class T> struct Index {
  int f;
  constexpr T operator()(int i) const { return elem<T>(f * i + 1); }
};

// --------------------------------------------------- operations with positions
template <class T, int N, int P, int C> CX14 Fail sub_one(vector<T, N> const& v, Arr<T, N> const& a) {
  vector<T, C> s = v.template subvector<P, C>();
  MUST2(s.size() == C, P, C);
  for (int i = 0; i < C; ++i) MUST2(same(s[i], a.a[P + i]), P, C);
  vector<T, N - C> e = v.template erase<P, C>();
  MUST2(e.size() == N - C, P, C);
  for (int i = 0; i < N - C; ++i) MUST2(same(e[i], a.a[i < P ? i : i + C]), P, C);
  return FINE;
}
template <class T, int N, int P, int C> struct subs {
  static CX14 Fail run(vector<T, N> const& v, Arr<T, N> const& a) {
    SUB((sub_one<T, N, P, C>(v, a)));
    return subs<T, N, P, C - 1>::run(v, a);
  }
};
template <class T, int N, int P> struct subs<T, N, P, -1> {
  static CX14 Fail run(vector<T, N> const& v, Arr<T, N> const& a) { return subs<T, N, P - 1, N - P + 1>::run(v, a); }
};
template <class T, int N, int C> struct subs<T, N, -1, C> {
  static CX14 Fail run(vector<T, N> const&, Arr<T, N> const&) { return FINE; }
};
template <class T, int N, int P> struct erase1 {
  static CX14 Fail run(vector<T, N> const& v, Arr<T, N> const& a) {
    vector<T, N - 1> e = v.template erase<P>();
    for (int i = 0; i < N - 1; ++i) MUST2(same(e[i], a.a[i < P ? i : i + 1]), P, i);
    return erase1<T, N, P - 1>::run(v, a);
  }
};
template <class T, int N> struct erase1<T, N, -1> {
  static CX14 Fail run(vector<T, N> const&, Arr<T, N> const&) { return FINE; }
};
template <class T, int N, int M> struct appends {
  static CX14 Fail run(vector<T, N> const& v, Arr<T, N> const& a) {
    vector<T, M> w = vector<T, M>::create(Index<T>{2});
    vector<T, N + M> r = v.append(w);
    MUST2(r.size() == N + M, N, M);
    for (int i = 0; i < N + M; ++i) MUST2(same(r[i], i < N ? a.a[i] : elem<T>(2 * (i - N) + 1)), M, i);
    vector<T, N + M> q = w.append(v);
    for (int i = 0; i < N + M; ++i) MUST2(same(q[i], i < M ? elem<T>(2 * i + 1) : a.a[i - M]), M, i);
    for (int i = 0; i < M; ++i) MUST2(same(w[i], elem<T>(2 * i + 1)), M, i);
    return appends<T, N, M - 1>::run(v, a);
  }
};
template <class T, int N> struct appends<T, N, -1> {
  static CX14 Fail run(vector<T, N> const&, Arr<T, N> const&) { return FINE; }
};
template <class T, int N, bool any> struct swaps {
  static CX14 Fail run(vector<T, N> const& v, Arr<T, N> const& a) {
    for (int p = 0; p < N; ++p)
      for (int q = 0; q < N; ++q) {
        vector<T, N> s = v.swap(p, q);
        for (int i = 0; i < N; ++i) MUST2(same(s[i], a.a[i == p ? q : i == q ? p : i]), p, q);
      }
    for (int p = 0; p < N; ++p) {
      // the element at p leaves, the first one takes its place
      vector<T, N - 1> s = v.swappop(p);
      MUST2(s.size() == N - 1, p, 0);
      for (int i = 1; i < N; ++i) MUST2(same(s[i - 1], a.a[i == p ? 0 : i]), p, i);
    }
    return erase1<T, N, N - 1>::run(v, a);
  }
};
template <class T, int N> struct swaps<T, N, false> {
  static CX14 Fail run(vector<T, N> const&, Arr<T, N> const&) { return FINE; }
};

// the scalar operations exist for arithmetic types
template <class T> struct is_number : std::is_arithmetic<T> {};
template <class T, int N, bool number> struct numeric {
  static CX14 Fail run(vector<T, N> const& v, Arr<T, N> const& a) {
    T const xs[] = {T(0), T(1), T(2), T(-3), T(5)};
    for (T x : xs) {
      vector<T, N> m = x * v, p = x + v;
      for (int i = 0; i < N; ++i) MUST2(same(m[i], T(x * a.a[i])) && same(p[i], T(x + a.a[i])), i, 0);
      if (x != T(0)) {
        vector<T, N> d = v / x;
        // quotients that are representable must be exact, others the nearest or next to it
        for (int i = 0; i < N; ++i) {
          T const want = T(a.a[i] / x), diff = d[i] < want ? want - d[i] : d[i] - want;
          MUST2(std::is_integral<T>::value || want * x == a.a[i] ? same(d[i], want)
                                                                   : diff <= T(2) * std::numeric_limits<T>::epsilon() * (want < 0 ? -want : want),
                i, 0);
        }
      }
      bool nonzero = true;
      for (int i = 0; i < N; ++i)
        if (a.a[i] == T(0)) nonzero = false;
      if (nonzero) {
        vector<T, N> d = x / v;
        for (int i = 0; i < N; ++i) {
          T const want = T(x / a.a[i]), diff = d[i] < want ? want - d[i] : d[i] - want;
          MUST2(std::is_integral<T>::value || want * a.a[i] == x ? same(d[i], want)
                                                                  : diff <= T(2) * std::numeric_limits<T>::epsilon() * (want < 0 ? -want : want),
                i, 0);
        }
      }
    }
    // scalars of another type
    vector<T, N> m2 = 3 * v, p2 = 2.0 + v;
    for (int i = 0; i < N; ++i) MUST2(same(m2[i], T(3 * a.a[i])) && same(p2[i], T(2.0 + a.a[i])), i, 0);
    vector<T, N> d2 = v / 2.0;
    for (int i = 0; i < N; ++i) MUST2(same(d2[i], T(a.a[i] / 2.0)), i, 0);
    // another element type
    vector<double, N> t = v.template transform<double>(Affine());
    for (int i = 0; i < N; ++i) MUST2(same(t[i], double(2.5 * a.a[i] + 1e10 + 0.25)), i, 0);
    vector<bool, N> b = v.template transform<bool>(IsBig{1});
    for (int i = 0; i < N; ++i) MUST2(b[i] == (T(1) < a.a[i]), i, 0);
    // reductions: the initial value and every element exactly once
    for (int init = -2; init <= 4; init += 3) {
      T sum = T(init), mx = T(init), pr = T(init);
      for (int i = 0; i < N; ++i) {
        sum = T(sum + a.a[i]);
        mx = mx < a.a[i] ? a.a[i] : mx;
        pr = T(pr * a.a[i]);
      }
      MUST2(same(v.reduce(Plus(), T(init)), sum), init, 0);
      MUST2(same(v.reduce(Max(), T(init)), mx), init, 1);
      T twice = T(init); // a function whose arguments are not interchangeable
      for (int i = 0; i < N; ++i) twice = T(twice + a.a[i] + a.a[i]);
      MUST2(same(v.reduce(PlusTwice(), T(init)), twice), init, 2);
    }
    // conversions from other element types
    vector<long double, N> ld(v);
    for (int i = 0; i < N; ++i) MUST2(ld[i] == (long double)a.a[i], i, 0);
    vector<int, N> iv = vector<int, N>::create(Index<int>{3});
    vector<T, N> fi(iv);
    for (int i = 0; i < N; ++i) MUST2(same(fi[i], T(3 * i + 1)), i, 0);
    vector<T, N> fi2 = iv; // implicitly
    for (int i = 0; i < N; ++i) MUST2(same(fi2[i], T(3 * i + 1)), i, 0);
    return FINE;
  }
};
template <class T, int N> struct numeric<T, N, false> {
  static CX14 Fail run(vector<T, N> const& v, Arr<T, N> const& a) {
    for (int k = -3; k <= 5; ++k) {
      T const x = elem<T>(k);
      vector<T, N> m = x * v, p = x + v;
      for (int i = 0; i < N; ++i) MUST2(same(m[i], x * a.a[i]) && same(p[i], x + a.a[i]), i, k);
      T sum = x;
      for (int i = 0; i < N; ++i) sum = sum + a.a[i];
      MUST2(same(v.reduce(Plus(), x), sum), k, 0);
    }
    return FINE;
  }
};
template <int N> CX14 Fail z7_division(vector<Z7, N> const& v, Arr<Z7, N> const& a) {
  for (int k = 1; k < 7; ++k) {
    vector<Z7, N> d = v / Z7(k);
    for (int i = 0; i < N; ++i) MUST2(d[i] == a.a[i] / Z7(k), i, k);
    vector<Z7, N> e = Z7(k) / v;
    for (int i = 0; i < N; ++i) MUST2(e[i] == Z7(k) / a.a[i], i, k);
  }
  return FINE;
}
template <class T, int N> struct divider {
  static CX14 Fail run(vector<T, N> const&, Arr<T, N> const&) { return FINE; }
};
template <int N> struct divider<Z7, N> {
  static CX14 Fail run(vector<Z7, N> const& v, Arr<Z7, N> const& a) { return z7_division<N>(v, a); }
};
template <class T, int N> CX14 Fail division(vector<T, N> const& v, Arr<T, N> const& a) { return divider<T, N>::run(v, a); }


template <class T, int N> CX14 Fail ops(Arr<T, N> const& a) {
  vector<T, N> const v = vec<T, N>(a);
  MUST((eq<T, N>(v, a)));
  static_assert(vector<T, N>::size() == N, "size");
  vector<T, N> const c = vec_ctor<T, N>(a, embedded::make_index_sequence<N>());
  MUST((eq<T, N>(c, a)));
  vector<T, N> const copy(c);
  MUST((eq<T, N>(copy, a)));
  vector<T, N> assigned = vector<T, N>::full(elem<T>(6));
  for (int i = 0; i < N; ++i) MUST(same(assigned[i], elem<T>(6)));
  assigned = c;
  MUST((eq<T, N>(assigned, a)));
  vector<T, N> const mv = embedded::cmath::make_vector<T>(From<T, N>{a}, embedded::make_index_sequence<N>());
  MUST((eq<T, N>(mv, a)));
  vector<T, N> const one = vector<T, N>::ones(), zero = vector<T, N>::zeros();
  for (int i = 0; i < N; ++i) MUST(same(one[i], T{1}) && same(zero[i], T{0}));
  // transform
  vector<T, N> const t = v.transform(Square<T>());
  for (int i = 0; i < N; ++i) MUST(same(t[i], T(a.a[i] * a.a[i])));
  vector<T, N> const n = -v;
  for (int i = 0; i < N; ++i) MUST(same(n[i], T(-a.a[i])));
  T product = T{1};
  for (int i = 0; i < N; ++i) product = T(product * a.a[i]);
  MUST(same(embedded::cmath::prod(v), product));
  T sum1 = T{1};
  for (int i = 0; i < N; ++i) sum1 = T(sum1 + a.a[i]);
  MUST(same(v.reduce(Plus()), sum1));
  SUB((appends<T, N, 4>::run(v, a)));
  SUB((subs<T, N, N, 0>::run(v, a)));
  SUB((swaps<T, N, (N > 0)>::run(v, a)));
  SUB((numeric<T, N, is_number<T>::value>::run(v, a)));
  SUB((division<T, N>(v, a)));
  MUST((eq<T, N>(v, a)));
  MUST((eq<T, N>(c, a)));
  return FINE;
}

// all contents over K small integers
template <class T, int N> CX14 Fail all_contents(int k, int lo, long* count) {
  int d[N + 1] = {0};
  for (;;) {
    Arr<T, N> a{};
    for (int i = 0; i < N; ++i) a.a[i] = elem<T>(lo + d[i]);
    Fail f = ops<T, N>(a);
    if (f.line) {
      int code = 0;
      for (int i = 0; i < N; ++i) code = code * 10 + d[i];
      (void)code;
      return f;
    }
    if (count) ++*count;
    int i = 0;
    while (i < N && ++d[i] == k) d[i++] = 0;
    if (i == N) return FINE;
  }
}

static void verdict(Fail f, char const* what, long n) {
  R().evaluations += n;
  R().distinct_n += n;
  if (f.line) V_FAIL(strf("%s:%d", what, f.line), "%s: check at line %d fails (%d, %d)", what, f.line, f.a, f.b);
}
template <class T, int N> static void run_all(int k, int lo, char const* what) {
  ++beat();
  long n = 0;
  Fail f = all_contents<T, N>(k, lo, &n);
  verdict(f, strf("%s x %d", what, N).c_str(), n);
  R().sample(strf("%s x %d: %ld contents, all operations", what, N, n));
}

// ----------------------------------------------------------------- exponential
template <class T, int N> static void exp_check(char const* what) {
  ++beat();
  T const vals[] = {T(0), T(1), T(-1), T(0.5L), T(-2.25L), T(10), T(1) / T(3), T(-20)};
  for (int s = 0; s < 8; ++s) {
    Arr<T, N> a;
    for (int i = 0; i < N; ++i) a.a[i] = vals[(s + i * 3) % 8];
    vector<T, N> v = vec<T, N>(a), e = exp(v);
    for (int i = 0; i < N; ++i) {
      long double want = expl((long double)a.a[i]);
      R().evaluations++;
      if (!(fabsl(e[i] - want) <= 2 * std::numeric_limits<T>::epsilon() * want))
        V_FAIL(strf("exp:%s", what), "exp of element %d of vector<%s,%d> (%.18Lg) is %.18Lg, should be %.18Lg", i, what, N, (long double)a.a[i],
               (long double)e[i], want);
    }
    if (!eq<T, N>(v, a)) V_FAIL("exp:operand", "exp changed its operand");
  }
}
// constant expressions in every mode
constexpr vector<double, 3> ce_v{1.0, 2.0, 4.0};
constexpr vector<double, 3> ce_e = exp(ce_v);
static_assert(ce_e[0] > 2.718281828459045 - 1e-15 && ce_e[0] < 2.718281828459045 + 1e-15, "exp in a constant expression");
static_assert(ce_e[2] > 54.598150033144236 - 1e-13 && ce_e[2] < 54.598150033144236 + 1e-13, "exp in a constant expression");
static_assert((2.0 * ce_v)[2] == 8.0 && (2.0 + ce_v)[0] == 3.0 && (-ce_v)[1] == -2.0 && (ce_v / 2.0)[2] == 2.0 && (4.0 / ce_v)[1] == 2.0, "");
static_assert(embedded::cmath::prod(ce_v) == 8.0 && ce_v.reduce(Plus(), 0.0) == 7.0, "");
static_assert(ce_v.append(vector<double, 2>{8.0, 9.0})[4] == 9.0 && ce_v.subvector<1, 2>()[0] == 2.0 && ce_v.erase<0>()[0] == 2.0, "");
static_assert(ce_v.swap(0, 2)[0] == 4.0 && ce_v.swappop(2)[1] == 1.0 && ce_v.swappop(0)[1] == 4.0, "");
static_assert(vector<int, 0>().append(vector<int, 1>{7})[0] == 7 && embedded::cmath::prod(vector<int, 0>()) == 1, "");
static_assert(vector<float, 4>::ones()[3] == 1.0f && vector<float, 4>::zeros()[0] == 0.0f && vector<int, 2>::full(9)[1] == 9, "");
static_assert(vector<double, 3>(vector<int, 3>{1, 2, 3})[2] == 3.0, "conversion in a constant expression");

#if __cplusplus >= 201402L && PROP == 17
static_assert(all_contents<int, 0>(3, -1, nullptr).line == 0, "int x 0 at compile time");
static_assert(all_contents<int, 1>(5, -2, nullptr).line == 0, "int x 1 at compile time");
static_assert(all_contents<int, 2>(4, -1, nullptr).line == 0, "int x 2 at compile time");
static_assert(all_contents<int, 3>(3, -1, nullptr).line == 0, "int x 3 at compile time");
static_assert(all_contents<int, 4>(2, 1, nullptr).line == 0, "int x 4 at compile time");
static_assert(all_contents<double, 3>(3, -1, nullptr).line == 0, "double x 3 at compile time");
static_assert(all_contents<Z7, 2>(3, 1, nullptr).line == 0, "Z7 x 2 at compile time");
static_assert(all_contents<complex<double>, 2>(3, -1, nullptr).line == 0, "complex x 2 at compile time");
#endif

// ------------------------------------------------------ C18: order and equality
struct Tagged {
  int v, tag;
  constexpr Tagged() : v(0), tag(0) {}
  constexpr Tagged(int x, int t) : v(x), tag(t) {}
};
struct RankLess { // the strict weak order given by a rank for each value
  int rank[4];
  constexpr bool operator()(Tagged const& a, Tagged const& b) const { return rank[a.v] < rank[b.v]; }
};
struct Member {
  int set, how;
  // any value usable as a condition is a predicate's answer
  constexpr int operator()(Tagged const& a) const { return (set >> a.v & 1) * how; }
};
struct MemberB {
  int set;
  constexpr bool operator()(Tagged const& a) const { return set >> a.v & 1; }
};

template <int N, bool any> struct arg_check {
  static CX14 Fail run(vector<Tagged, N> const& v, Arr<Tagged, N> const& a, RankLess const& less) {
    int want = 0;
    for (int i = N - 1; i >= 0; --i) {
      bool first = true;
      for (int j = 0; j < N; ++j)
        if (less(a.a[j], a.a[i])) first = false;
      if (first) want = i;
    }
    MUST2((int)v.argmin(less) == want, v.argmin(less), want);
    return FINE;
  }
};
template <int N> struct arg_check<N, false> {
  static CX14 Fail run(vector<Tagged, N> const&, Arr<Tagged, N> const&, RankLess const&) { return FINE; }
};
template <int N> CX14 Fail order(Arr<Tagged, N> const& a, RankLess const& less) {
  vector<Tagged, N> const v = vec<Tagged, N>(a);
  vector<Tagged, N> const s = v.sort(less);
  unsigned long long seen = 0;
  for (int i = 0; i < N; ++i) {
    int const t = s[i].tag;
    MUST2(t >= 0 && t < N && !(seen >> t & 1) && s[i].v == a.a[t].v, i, t);
    seen |= 1ull << t;
    if (i) MUST2(!less(s[i], s[i - 1]), i, t);
  }
  for (int i = 0; i < N; ++i) MUST(v[i].tag == i && v[i].v == a.a[i].v);
  return arg_check<N, (N > 0)>::run(v, a, less);
}
template <int N> CX14 Fail counts(Arr<Tagged, N> const& a, int k) {
  vector<Tagged, N> const v = vec<Tagged, N>(a);
  for (int set = 0; set < (1 << k); ++set) {
    int want = 0;
    for (int i = 0; i < N; ++i) want += set >> a.a[i].v & 1;
    MUST2((int)v.count(MemberB{set}) == want, set, want);
    MUST2((int)v.count(Member{set, 1}) == want, set, want);
    MUST2((int)v.count(Member{set, 4}) == want, set, want);
    MUST2((int)v.count(Member{set, -1}) == want, set, want);
  }
  return FINE;
}
// all contents over k values, all orders of k values
template <int N> CX14 Fail all_orders(int k, long* count) {
  int d[N + 1] = {0};
  for (;;) {
    Arr<Tagged, N> a{};
    for (int i = 0; i < N; ++i) a.a[i] = Tagged(d[i], i);
    int r[4] = {0};
    for (;;) {
      // every weak order is given by ranks that use 0..m without gaps
      int used = 0, mx = 0;
      for (int i = 0; i < k; ++i) {
        used |= 1 << r[i];
        mx = mx < r[i] ? r[i] : mx;
      }
      if (used == (2 << mx) - 1) {
        RankLess l{{r[0], r[1], r[2], r[3]}};
        SUB((order<N>(a, l)));
        if (count) ++*count;
      }
      int i = 0;
      while (i < k && ++r[i] == k) r[i++] = 0;
      if (i == k) break;
    }
    SUB((counts<N>(a, k)));
    int i = 0;
    while (i < N && ++d[i] == k) d[i++] = 0;
    if (i == N) return FINE;
  }
}
template <int N> static void run_orders(int k) {
  ++beat();
  long n = 0;
  Fail f = all_orders<N>(k, &n);
  verdict(f, strf("order x %d", N).c_str(), n);
  R().sample(strf("%d elements of %d values: %ld contents x orders", N, k, n));
}
// all permutations of N distinct elements
struct ValueLess {
  bool down;
  constexpr bool operator()(Tagged const& a, Tagged const& b) const { return down ? b.v < a.v : a.v < b.v; }
};
template <int N> static void permute() {
  int p[N];
  for (int i = 0; i < N; ++i) p[i] = i;
  long n = 0;
  do {
    ++n;
    Arr<Tagged, N> a;
    for (int i = 0; i < N; ++i) a.a[i] = Tagged(p[i], i);
    vector<Tagged, N> v = vec<Tagged, N>(a), up = v.sort(ValueLess{false}), down = v.sort(ValueLess{true});
    int lo = -1, hi = -1;
    for (int i = 0; i < N; ++i) {
      if (p[i] == 0) lo = i;
      if (p[i] == N - 1) hi = i;
    }
    bool ok = (int)v.argmin(ValueLess{false}) == lo && (int)v.argmin(ValueLess{true}) == hi;
    for (int i = 0; i < N; ++i)
      ok = ok && up[i].v == i && down[i].v == N - 1 - i && p[up[i].tag] == i && p[down[i].tag] == N - 1 - i;
    if (!ok) {
      std::string s;
      for (int i = 0; i < N; ++i) s += strf(" %d", p[i]);
      V_FAIL(strf("permutation:%d", N), "sort or argmin is wrong for the permutation%s", s.c_str());
      return;
    }
  } while (std::next_permutation(p, p + N));
  R().evaluations += n;
  R().distinct_n += n;
  R().sample(strf("all %ld permutations of %d elements", n, N));
}
// larger vectors: structured contents
template <int N> static void structured() {
  for (int kind = 0; kind < 8; ++kind)
    for (int rot = 0; rot < N; ++rot) {
      ++beat();
      Arr<Tagged, N> a;
      for (int i = 0; i < N; ++i) {
        int j = (i + rot) % N;
        int v = kind == 0 ? j : kind == 1 ? N - 1 - j : kind == 2 ? (j < N / 2 ? j : N - 1 - j) : kind == 3 ? j / 2 : kind == 4 ? j % 2 : kind == 5 ? 0
                : kind == 6 ? (j * 7) % N : j % 5;
        a.a[i] = Tagged(v, i);
      }
      vector<Tagged, N> v = vec<Tagged, N>(a);
      for (int down = 0; down < 2; ++down) {
        ValueLess l{down != 0};
        vector<Tagged, N> s = v.sort(l);
        bool ok = true;
        unsigned long long seen = 0;
        for (int i = 0; i < N; ++i) {
          if (s[i].tag < 0 || s[i].tag >= N || (seen >> s[i].tag & 1) || s[i].v != a.a[s[i].tag].v || (i && l(s[i], s[i - 1]))) {
            ok = false;
            break;
          }
          seen |= 1ull << s[i].tag;
        }
        int m = 0;
        for (int i = 1; i < N; ++i)
          if (l(a.a[i], a.a[m])) m = i;
        if (!ok || (int)v.argmin(l) != m) V_FAIL(strf("structured:%d", N), "sort or argmin is wrong for contents kind %d rotated by %d of %d elements", kind, rot, N);
        R().evaluations += 1;
        R().distinct_n += 1;
      }
    }
}

struct Mod3 { // equal if congruent; nothing but ==
  int v;
  constexpr Mod3() : v(0) {}
  constexpr Mod3(int x) : v(x) {}
  friend constexpr bool operator==(Mod3 const& a, Mod3 const& b) { return a.v % 3 == b.v % 3; }
};
template <class T, int N> static void equality(std::vector<T> const& alphabet, char const* what) {
  int const k = (int)alphabet.size();
  int d[2 * N + 1] = {0};
  long n = 0;
  for (;;) {
    Arr<T, N> a, b;
    bool want = true;
    for (int i = 0; i < N; ++i) {
      a.a[i] = alphabet[d[i]];
      b.a[i] = alphabet[d[N + i]];
      if (!(a.a[i] == b.a[i])) want = false;
    }
    ++n;
    vector<T, N> const x = vec<T, N>(a), y = vec<T, N>(b);
    if ((x == y) != want) {
      std::string s;
      for (int i = 0; i < 2 * N; ++i) s += strf(" %d", d[i]);
      V_FAIL(strf("equal:%s:%d", what, N), "two vector<%s,%d> of elements number%s compare %d", what, N, s.c_str(), !want);
      return;
    }
    bool self = true;
    for (int i = 0; i < N; ++i) self = self && a.a[i] == a.a[i];
    if ((x == x) != self) V_FAIL(strf("equal:self:%s:%d", what, N), "a vector<%s,%d> compared with itself gives %d", what, N, !self);
    int i = 0;
    while (i < 2 * N && ++d[i] == k) d[i++] = 0;
    if (i == 2 * N) break;
  }
  R().evaluations += n;
  R().distinct_n += n;
}
struct Less {
  template <class T> constexpr bool operator()(T a, T b) const { return a < b; }
};
struct Odd {
  constexpr bool operator()(int x) const { return x % 2 != 0; }
};
constexpr vector<int, 5> ce_s = vector<int, 5>{3, 1, 2, 1, 5}.sort(Less());
static_assert(ce_s[0] == 1 && ce_s[1] == 1 && ce_s[2] == 2 && ce_s[3] == 3 && ce_s[4] == 5, "sort in a constant expression");
static_assert(ce_s.argmin(Less()) == 0 && ce_s.count(Odd()) == 4, "argmin and count in a constant expression");
static_assert(ce_s == vector<int, 5>{1, 1, 2, 3, 5} && !(ce_s == vector<int, 5>{1, 1, 2, 3, 4}), "== in a constant expression");
static_assert(vector<int, 0>{}.sort(Less()) == vector<int, 0>{} && vector<int, 0>{}.count(Odd()) == 0, "empty vectors");

#if __cplusplus >= 201402L && PROP == 18
static_assert(all_orders<0>(2, nullptr).line == 0, "orders of 0 at compile time");
static_assert(all_orders<1>(3, nullptr).line == 0, "orders of 1 at compile time");
static_assert(all_orders<2>(3, nullptr).line == 0, "orders of 2 at compile time");
static_assert(all_orders<3>(3, nullptr).line == 0, "orders of 3 at compile time");
static_assert(all_orders<4>(2, nullptr).line == 0, "orders of 4 at compile time");
#endif

#if PROP == 17
// every value that is special in some way, and scalars of another type than the elements:
// what happens to an element is what the operator itself does
template <class T> static bool identical(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
static bool identical(int a, int b) { return a == b; }
static bool identical(short a, short b) { return a == b; }
template <class S, class T, int N> static void special(std::vector<S> const& ss, std::vector<T> const& ts, char const* what) {
  static_assert(N >= 1, "not empty");
  for (std::size_t k = 0; k < ts.size(); ++k) {
    struct Gen {
      std::vector<T> const& t;
      std::size_t k;
      T operator()(std::size_t i) const { return t[(k + i) % t.size()]; }
    };
    vector<T, N> const v = vector<T, N>::create(Gen{ts, k});
    auto const n = -v;
    for (int i = 0; i < N; ++i)
      if (!identical(T(-v[i]), n[i])) V_FAIL("special:negate", "negation of %s %g gives %g", what, double(v[i]), double(n[i]));
    bool zero = false;
    for (int i = 0; i < N; ++i) zero |= v[i] == 0;
    for (S x : ss) {
      auto const m = x * v, a = x + v;
      for (int i = 0; i < N; ++i) {
        ++R().evaluations;
        if (!identical(T(x * v[i]), m[i])) V_FAIL("special:scale", "%g times %s %g gives %g", double(x), what, double(v[i]), double(m[i]));
        if (!identical(T(x + v[i]), a[i])) V_FAIL("special:shift", "%g plus %s %g gives %g", double(x), what, double(v[i]), double(a[i]));
      }
      if (x == 0 && std::is_integral<S>::value && std::is_integral<T>::value) continue;
      if (std::is_floating_point<T>::value || x != 0) {
        auto const d = v / x;
        for (int i = 0; i < N; ++i)
          if (!identical(T(v[i] / x), d[i])) V_FAIL("special:divide", "%s %g by %g gives %g", what, double(v[i]), double(x), double(d[i]));
      }
      if (std::is_floating_point<T>::value || !zero) {
        auto const d = x / v;
        for (int i = 0; i < N; ++i)
          if (!identical(T(x / v[i]), d[i])) V_FAIL("special:divide", "%g by %s %g gives %g", double(x), what, double(v[i]), double(d[i]));
      }
      ++R().distinct_n;
    }
  }
  ++R().traces;
}
template <class T> static std::vector<T> specials() {
  typedef std::numeric_limits<T> L;
  return {T(0), -T(0), T(1), T(-1.5), T(3), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), -L::denorm_min(), L::min(), L::max(), L::lowest(),
          L::epsilon(), T(1) / T(3)};
}
#endif

int main(int argc, char** argv) {
  init(argc, argv);
  bool th = R().thorough;
  (void)th;
#if PROP == 17
  run_all<int, 0>(3, -1, "int");
  run_all<int, 1>(9, -4, "int");
  run_all<int, 2>(9, -4, "int");
  run_all<int, 3>(9, -4, "int");
  run_all<int, 4>(7, -3, "int");
  run_all<int, 5>(BIG ? 6 : 3, -2, "int");
#if BIG
  run_all<int, 6>(th ? 7 : 5, -2, "int");
  run_all<int, 7>(th ? 6 : 4, -1, "int");
  run_all<int, 8>(th ? 5 : 3, -1, "int");
  run_all<int, 12>(th ? 3 : 2, -1, "int");
  run_all<double, 7>(th ? 5 : 3, -1, "double");
  run_all<double, 6>(th ? 6 : 4, -2, "double");
#endif
  run_all<double, 0>(3, -1, "double");
  run_all<double, 1>(9, -4, "double");
  run_all<double, 3>(9, -4, "double");
  run_all<double, 4>(6, -2, "double");
  run_all<double, 5>(BIG ? 6 : 3, -2, "double");
  run_all<float, 1>(9, -4, "float");
  run_all<float, 3>(9, -4, "float");
  run_all<long double, 2>(9, -4, "long double");
  run_all<long double, 4>(BIG ? 7 : 4, -3, "long double");
  run_all<long long, 4>(4, -1, "long long");
  run_all<short, 3>(9, -4, "short");
  run_all<Z7, 0>(7, 0, "Z7");
  run_all<Z7, 1>(7, 0, "Z7");
  run_all<Z7, 3>(7, 0, "Z7");
  run_all<Z7, 5>(BIG ? 7 : 3, 0, "Z7");
  run_all<complex<double>, 1>(7, -3, "complex");
  run_all<complex<double>, 3>(7, -3, "complex");
  run_all<complex<double>, 4>(5, -1, "complex");
  special<float, float, 1>(specials<float>(), specials<float>(), "float");
  special<float, float, 4>(specials<float>(), specials<float>(), "float");
  special<double, double, 1>(specials<double>(), specials<double>(), "double");
  special<double, double, 3>(specials<double>(), specials<double>(), "double");
  special<long double, long double, 2>(specials<long double>(), specials<long double>(), "long double");
  special<int, double, 2>({0, 1, -3, 7, 1 << 30}, specials<double>(), "double");
  special<double, float, 2>({0.5, -0.1, 3, 1e-30, 0.0}, {0.0f, -0.0f, 1.5f, -3.25f, 1e-10f}, "float");
  special<float, double, 2>({0.5f, -0.1f, 3, 0.0f}, specials<double>(), "double");
  special<double, int, 3>({0.5, -0.25, 1.5, 2.75}, {0, 1, -1, 5, -7, 100}, "int");
  special<int, short, 3>({1, -1, 40000, 3}, {0, 1, -1, 5, -7, 100}, "short");
  special<short, int, 2>({1, -1, 3}, {0, 1, -1, 5, -7, 100000}, "int");
  exp_check<float, 1>("float");
  exp_check<float, 5>("float");
  exp_check<double, 1>("double");
  exp_check<double, 2>("double");
  exp_check<double, 8>("double");
  exp_check<long double, 1>("long double");
  exp_check<long double, 4>("long double");
  {
    vector<double, 0> e = exp(vector<double, 0>());
    (void)e;
    vector<complex<double>, 2> c{complex<double>(0, 0), complex<double>(1, 0)};
    auto ec = exp(c);
    if (ec[0].real() != 1 || ec[0].imag() != 0 || fabs(ec[1].real() - 2.718281828459045) > 1e-15 || ec[1].imag() != 0)
      V_FAIL("exp:complex", "exp of a vector of complex numbers is wrong");
    // vectors of vectors
    typedef vector<int, 2> V2;
    V2 p{1, 2}, q{3, 4}, r{5, 6};
    vector<V2, 3> vv{p, q, r};
    if (!(vv[0] == p) || !(vv[2] == r) || !(vv.swap(0, 2)[0] == r) || !(vv.append(vector<V2, 1>{q})[3] == q) || !(vv.erase<1>()[1] == r))
      V_FAIL("nested", "a vector of vectors has the wrong elements");
  }
#else
  run_orders<0>(4);
  run_orders<1>(4);
  run_orders<2>(4);
  run_orders<3>(4);
  run_orders<4>(4);
#if BIG
  run_orders<5>(4);
  run_orders<6>(4);
  run_orders<7>(th ? 4 : 3);
  run_orders<8>(th ? 4 : 3);
  run_orders<10>(th ? 3 : 2);
  permute<7>();
  permute<8>();
  if (th) permute<9>();
  structured<16>();
  structured<33>();
#else
  run_orders<5>(3);
  run_orders<6>(2);
#endif
  permute<2>();
  permute<3>();
  permute<4>();
  permute<5>();
  permute<6>();
  double const nan = std::numeric_limits<double>::quiet_NaN();
  std::vector<double> ds = {0.0, -0.0, 1.0, nan};
  equality<double, 0>(ds, "double");
  equality<double, 1>(ds, "double");
  equality<double, 2>(ds, "double");
  equality<double, 3>(ds, "double");
  equality<double, 4>(ds, "double");
  equality<int, 1>({0, 1, -1}, "int");
  equality<int, 3>({0, 1, -1}, "int");
  equality<int, 5>({0, 1}, "int");
  equality<int, 8>({0, 1}, "int");
  equality<float, 2>({0.0f, 1.0f, std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity()}, "float");
  equality<Mod3, 3>({0, 1, 3, 4}, "Mod3");
  equality<complex<double>, 1>({{0, 0}, {0, 1}, {1, 0}, {nan, 0}, {0, nan}, {-0.0, 0.0}}, "complex");
  equality<complex<double>, 2>({{0, 0}, {0, 1}, {1, 0}, {nan, 0}, {0, nan}, {-0.0, 0.0}}, "complex");
  {
    typedef vector<int, 2> V2;
    equality<V2, 2>({V2{0, 0}, V2{0, 1}, V2{1, 0}}, "vector");
    // floating point contents sorted
    vector<double, 4> v{2.5, -0.0, 0.0, -1.0};
    auto s = v.sort(Less());
    if (s[0] != -1.0 || s[1] != 0 || s[2] != 0 || s[3] != 2.5) V_FAIL("sort:double", "sorting doubles fails");
  }
#endif
  R().finish();
}
