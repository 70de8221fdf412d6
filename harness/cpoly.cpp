// C19: convolution and expansion of roots against exact integer arithmetic.
#include "verif.h"
#include <embedded/constexpr_math.h>
#include <limits>
#include <type_traits>
using namespace verif;
using embedded::cmath::complex;
using embedded::cmath::convolve_full;
using embedded::cmath::poly;
using embedded::cmath::vector;
#if __cplusplus >= 201402L
#define CX14 constexpr
#else
#define CX14
#endif

typedef long long ll;
// Gaussian integers: the reference arithmetic for every element type
struct G {
  ll re, im;
  constexpr G() : re(0), im(0) {}
  constexpr G(ll r, ll i = 0) : re(r), im(i) {}
};
constexpr G operator+(G a, G b) { return G(a.re + b.re, a.im + b.im); }
constexpr G operator-(G a) { return G(-a.re, -a.im); }
constexpr G operator*(G a, G b) { return G(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }

struct Z7 { // a type with its own arithmetic
  int v;
  constexpr Z7() : v(0) {}
  constexpr explicit Z7(int x) : v(((x % 7) + 7) % 7) {}
};
constexpr Z7 operator+(Z7 a, Z7 b) { return Z7(a.v + b.v); }
constexpr Z7 operator-(Z7 a) { return Z7(-a.v); }
constexpr Z7 operator*(Z7 a, Z7 b) { return Z7(a.v * b.v); }

template <class T> struct E { // conversion from and comparison with the reference
  static constexpr T make(G g) { return T(g.re); }
  static constexpr bool is(T const& x, G g) { return x == T(g.re) && g.im == 0; }
  static const bool cplx = false;
};
template <> struct E<Z7> {
  static constexpr Z7 make(G g) { return Z7((int)(g.re % 7)); }
  static constexpr bool is(Z7 const& x, G g) { return x.v == Z7((int)(g.re % 7)).v && g.im == 0; }
  static const bool cplx = false;
};
template <class F> struct E<complex<F>> {
  static constexpr complex<F> make(G g) { return complex<F>(F(g.re), F(g.im)); }
  static constexpr bool is(complex<F> const& x, G g) { return x.real() == F(g.re) && x.imag() == F(g.im); }
  static const bool cplx = true;
};

template <int N> struct GA {
  G a[N + 1];
};
template <class T, int N> struct From {
  GA<N> const& a;
  constexpr T operator()(int i) const { return E<T>::make(a.a[i]); }
};
template <class T, int N> constexpr vector<T, N> vec(GA<N> const& a) { return vector<T, N>::create(From<T, N>{a}); }

// 0: right, else 1 + index of the wrong element
template <class T, int N, int M> CX14 int conv_one(GA<N> const& a, GA<M> const& b) {
  vector<T, N> const x = vec<T, N>(a);
  vector<T, M> const y = vec<T, M>(b);
  auto const c = convolve_full(x, y);
  static_assert(std::is_same<decltype(convolve_full(x, y)), vector<T, N + M - 1>>::value, "size of a convolution");
  for (int k = 0; k < N + M - 1; ++k) {
    G want;
    for (int i = 0; i < N; ++i)
      if (k - i >= 0 && k - i < M) want = want + a.a[i] * b.a[k - i];
    if (!E<T>::is(c[k], want)) return k + 1;
  }
  for (int i = 0; i < N; ++i)
    if (!E<T>::is(x[i], a.a[i])) return 1000;
  for (int i = 0; i < M; ++i)
    if (!E<T>::is(y[i], b.a[i])) return 1001;
  return 0;
}
template <class T, int N> CX14 int poly_one(GA<N> const& z) {
  vector<T, N> const x = vec<T, N>(z);
  auto const p = poly(x);
  static_assert(std::is_same<decltype(poly(x)), vector<T, N + 1>>::value, "size of a polynomial");
  GA<N + 1> want{};
  want.a[0] = G(1);
  for (int i = 0; i < N; ++i)
    for (int k = i + 1; k > 0; --k) want.a[k] = want.a[k] + want.a[k - 1] * -z.a[i];
  for (int k = 0; k <= N; ++k)
    if (!E<T>::is(p[k], want.a[k])) return k + 1;
  for (int i = 0; i < N; ++i)
    if (!E<T>::is(x[i], z.a[i])) return 1000;
  return 0;
}

// alphabets
static constexpr G real_small[] = {G(0), G(1), G(-1), G(2), G(-3)};
static constexpr G gauss[] = {G(0), G(1), G(0, 1), G(0, -1), G(-1, 2), G(-1, -2), G(2, 0)};
static constexpr G large[] = {G(3), G(-(1 << 20)), G((1 << 21) + 1), G(-7)};
template <int K> struct Alpha {
  G a[K];
};

template <class T, int N, int M> CX14 int all_conv(G const* alpha, int k, long* n, int* fail) {
  int d[N + M + 1] = {0};
  for (;;) {
    GA<N> a{};
    GA<M> b{};
    for (int i = 0; i < N; ++i) a.a[i] = alpha[d[i]];
    for (int i = 0; i < M; ++i) b.a[i] = alpha[d[N + i]];
    int f = conv_one<T, N, M>(a, b);
    if (f) {
      for (int i = 0; fail && i < N + M; ++i) fail[i] = d[i];
      return f;
    }
    if (n) ++*n;
    int i = 0;
    while (i < N + M && ++d[i] == k) d[i++] = 0;
    if (i == N + M) return 0;
  }
}
template <class T, int N> CX14 int all_poly(G const* alpha, int k, long* n, int* fail) {
  int d[N + 1] = {0};
  for (;;) {
    GA<N> a{};
    for (int i = 0; i < N; ++i) a.a[i] = alpha[d[i]];
    int f = poly_one<T, N>(a);
    if (f) {
      for (int i = 0; fail && i < N; ++i) fail[i] = d[i];
      return f;
    }
    if (n) ++*n;
    int i = 0;
    while (i < N && ++d[i] == k) d[i++] = 0;
    if (i == N) return 0;
  }
}
static std::string digits(int const* d, G const* al, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) s += strf(" %lld%+lldi", al[d[i]].re, al[d[i]].im);
  return s;
}
template <class T, int N, int M> static void conv(G const* al, int k, char const* what) {
  ++beat();
  long n = 0;
  int d[N + M + 1] = {0};
  int f = all_conv<T, N, M>(al, k, &n, d);
  R().evaluations += n;
  if (N > 1 || M > 1) R().distinct_n += n;
  if (f) V_FAIL(strf("conv:%s:%d:%d", what, N, M), "convolving (%s)%s and%s: element %d is wrong (1000, 1001: an operand changed)", what, digits(d, al, N).c_str(),
                digits(d + N, al, M).c_str(), f - 1);
}
template <class T, int N> static void pol(G const* al, int k, char const* what) {
  ++beat();
  long n = 0;
  int d[N + 1] = {0};
  int f = all_poly<T, N>(al, k, &n, d);
  R().evaluations += n;
  if (N > 1) R().distinct_n += n;
  if (f) V_FAIL(strf("poly:%s:%d", what, N), "expanding the roots (%s)%s: coefficient %d is wrong", what, digits(d, al, N).c_str(), f - 1);
  R().sample(strf("%s: all %ld sequences of %d roots", what, n, N));
}
// every pair of sizes; unit vectors decide a bilinear map completely
template <class T, int N, int M> struct units {
  static void run(char const* what) {
    ++beat();
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < M; ++j) {
        GA<N> a{};
        GA<M> b{};
        a.a[i] = G(3), b.a[j] = G(-5);
        if (int f = conv_one<T, N, M>(a, b)) V_FAIL(strf("unit:%s:%d:%d", what, N, M), "convolving unit vectors %d of %d and %d of %d (%s): element %d is wrong", i, N, j, M, what, f - 1);
        R().evaluations++;
      }
    GA<N> a{};
    GA<M> b{};
    for (int i = 0; i < N; ++i) a.a[i] = G(i * 7 % 11 - 4);
    for (int i = 0; i < M; ++i) b.a[i] = G(i * i % 13 - 6);
    if (int f = conv_one<T, N, M>(a, b)) V_FAIL(strf("dense:%s:%d:%d", what, N, M), "convolving patterns of %d and %d elements (%s): element %d is wrong", N, M, what, f - 1);
    R().evaluations++;
    R().distinct_n++;
    units<T, N, M - 1>::run(what);
  }
};
template <class T, int N> struct units<T, N, 0> {
  static void run(char const* what) { units<T, N - 1, SIZES>::run(what); }
};
template <class T> struct units<T, 0, SIZES> {
  static void run(char const*) {}
};

// constant expressions in every mode
constexpr auto ce_c = convolve_full(vector<int, 3>{1, 2, 3}, vector<int, 2>{4, 5});
static_assert(ce_c.size() == 4 && ce_c[0] == 4 && ce_c[1] == 13 && ce_c[2] == 22 && ce_c[3] == 15, "convolution in a constant expression");
constexpr auto ce_p = poly(vector<double, 3>{1.0, 2.0, -3.0});
static_assert(ce_p[0] == 1 && ce_p[1] == 0 && ce_p[2] == -7 && ce_p[3] == 6, "roots in a constant expression");
static_assert(poly(vector<int, 0>{})[0] == 1 && poly(vector<int, 0>{}).size() == 1, "no roots");
constexpr auto ce_z = poly(vector<complex<double>, 2>{complex<double>(1, 2), complex<double>(1, -2)});
static_assert(ce_z[0].real() == 1 && ce_z[1].real() == -2 && ce_z[2].real() == 5 && ce_z[2].imag() == 0 && ce_z[1].imag() == 0, "complex roots");

#if __cplusplus >= 201402L
static_assert(all_conv<int, 1, 1>(real_small, 5, nullptr, nullptr) == 0, "1 x 1 at compile time");
static_assert(all_conv<int, 1, 3>(real_small, 4, nullptr, nullptr) == 0, "1 x 3 at compile time");
static_assert(all_conv<int, 2, 2>(real_small, 4, nullptr, nullptr) == 0, "2 x 2 at compile time");
static_assert(all_conv<int, 3, 2>(real_small, 3, nullptr, nullptr) == 0, "3 x 2 at compile time");
static_assert(all_conv<complex<double>, 2, 1>(gauss, 5, nullptr, nullptr) == 0, "complex 2 x 1 at compile time");
static_assert(all_conv<Z7, 2, 2>(real_small, 3, nullptr, nullptr) == 0, "Z7 2 x 2 at compile time");
static_assert(all_poly<int, 0>(real_small, 5, nullptr, nullptr) == 0, "no roots at compile time");
static_assert(all_poly<int, 1>(real_small, 5, nullptr, nullptr) == 0, "1 root at compile time");
static_assert(all_poly<int, 3>(real_small, 5, nullptr, nullptr) == 0, "3 roots at compile time");
static_assert(all_poly<double, 4>(real_small, 3, nullptr, nullptr) == 0, "4 roots at compile time");
static_assert(all_poly<complex<double>, 2>(gauss, 7, nullptr, nullptr) == 0, "2 complex roots at compile time");
static_assert(all_poly<complex<float>, 3>(gauss, 4, nullptr, nullptr) == 0, "3 complex roots at compile time");
#endif

template <class T> static void conv_all(G const* al, int k, char const* what) {
  conv<T, 0, 1>(al, k, what);
  conv<T, 3, 0>(al, k, what);
  conv<T, 0, 4>(al, k, what);
  conv<T, 1, 1>(al, k, what);
  conv<T, 1, 2>(al, k, what);
  conv<T, 2, 1>(al, k, what);
  conv<T, 2, 2>(al, k, what);
  conv<T, 3, 1>(al, k, what);
  conv<T, 1, 4>(al, k, what);
  conv<T, 2, 3>(al, k, what);
  conv<T, 3, 2>(al, k, what);
  conv<T, 3, 3>(al, k, what);
  conv<T, 4, 2>(al, k, what);
  conv<T, 2, 4>(al, k, what);
}
template <class T, int N> static void polys(G const* al, int k, char const* what, int fewer) {
  (void)fewer;
  pol<T, 0>(al, k, what);
  pol<T, 1>(al, k, what);
  pol<T, 2>(al, k, what);
  pol<T, 3>(al, k, what);
  pol<T, 4>(al, k, what);
  pol<T, 5>(al, k, what);
  pol<T, N>(al, fewer, what);
}

// coefficients that are not finite take part only in the sums they belong to
template <class T, int N> struct Digits {
  int const* d;
  T const* al;
  T operator()(int i) const { return al[d[i]]; }
};
template <class T, int N, int M> static void special(char const* what) {
  ++beat();
  T const inf = std::numeric_limits<T>::infinity(), al[5] = {T(1), inf, T(0), -inf, std::numeric_limits<T>::quiet_NaN()};
  int const k = N + M > 5 ? 4 : 5;
  int d[N + M] = {0};
  for (;;) {
    auto const a = vector<T, N>::create(Digits<T, N>{d, al});
    auto const b = vector<T, M>::create(Digits<T, M>{d + N, al});
    auto const c = convolve_full(a, b);
    for (int n = 0; n < N + M - 1; ++n) {
      T s = T(0);
      for (int i = 0; i < N; ++i)
        if (n - i >= 0 && n - i < M) s = s + al[d[i]] * al[d[N + n - i]];
      bool ok = s == s ? c[n] == s : c[n] != c[n];
      if (!ok) V_FAIL(strf("special:%s:%d:%d", what, N, M), "convolving %d and %d %s elements of which some are not finite: element %d is %g instead of %g; a[0] = %g, b[0] = %g, b[%d] = %g", N, M, what, n, (double)c[n], (double)s, (double)al[d[0]], (double)al[d[N]], M - 1, (double)al[d[N + M - 1]]);
    }
    R().evaluations++;
    int i = 0;
    while (i < N + M && ++d[i] == k) d[i++] = 0;
    if (i == N + M) break;
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  bool th = R().thorough;
  (void)th;
  special<double, 1, 2>("double");
  special<double, 2, 1>("double");
  special<double, 2, 3>("double");
  special<float, 3, 2>("float");
  special<double, 3, 3>("double");
  special<long double, 4, 2>("long double");
  conv_all<int>(real_small, 5, "int");
  conv_all<double>(real_small, 5, "double");
  conv_all<ll>(large, 4, "long long");
  conv_all<double>(large, 4, "double, large");
  conv_all<Z7>(real_small, 5, "Z7");
  conv_all<complex<double>>(gauss, 5, "complex<double>");
  conv<float, 3, 3>(real_small, 5, "float");
  conv<long double, 3, 3>(real_small, 5, "long double");
  conv<complex<float>, 2, 3>(gauss, 7, "complex<float>");
#if BIG
  conv<int, 4, 4>(real_small, th ? 5 : 4, "int");
  conv<int, 5, 3>(real_small, th ? 5 : 4, "int");
  conv<int, 2, 6>(real_small, th ? 5 : 4, "int");
  conv<double, 5, 5>(real_small, th ? 4 : 3, "double");
  conv<complex<double>, 4, 4>(gauss, th ? 5 : 3, "complex<double>");
  polys<int, 7>(real_small, 5, "int", th ? 5 : 4);
  polys<double, 8>(real_small, 5, "double", th ? 5 : 4);
  polys<complex<double>, 6>(gauss, 7, "complex<double>", th ? 7 : 5);
  polys<complex<long double>, 6>(gauss, 5, "complex<long double>", 4);
  pol<double, 12>(real_small, th ? 3 : 2, "double");
  pol<complex<double>, 10>(gauss, th ? 4 : 2, "complex<double>");
#else
  polys<int, 6>(real_small, 5, "int", 3);
  polys<complex<double>, 6>(gauss, 4, "complex<double>", 3);
#endif
  polys<float, 6>(real_small, 4, "float", 3);
  polys<Z7, 6>(real_small, 4, "Z7", 4);
  pol<double, 2>(large, 4, "double, large");
  pol<ll, 2>(large, 4, "long long");
  units<int, SIZES, SIZES>::run("int");
  units<double, SIZES, SIZES>::run("double");
  units<complex<double>, SIZES, SIZES>::run("complex<double>");
  R().finish();
}
