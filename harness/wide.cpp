// C17, C18, C19: long vectors, with sizes on both sides of those at which a narrow
// index would wrap around.  -DPROP=17, 18 or 19
#include "verif.h"
#include <algorithm>
#include <embedded/constexpr_math.h>
using namespace verif;
using embedded::cmath::convolve_full;
using embedded::cmath::poly;
using embedded::cmath::vector;

static int num(int i, int salt = 0) { return (i * 7919 + 13 + salt * 101) % 2003 - 1000; }
struct Fill {
  int salt;
  int operator()(int i) const { return num(i, salt); }
};
template <int N> static vector<int, N> make(int salt = 0) { return vector<int, N>::create(Fill{salt}); }
static void fail(char const* what, int n, int at) { V_FAIL(strf("%s:%d", what, n), "%s is wrong for %d elements, first at %d", what, n, at); }
#define ALL(what, M, got, want)                                                                                                                      \
  do {                                                                                                                                                \
    auto const& v_ = (got);                                                                                                                           \
    static_assert(std::decay<decltype(v_)>::type::size() == (M), "size");                                                                             \
    for (int i = 0; i < (M); ++i)                                                                                                                     \
      if (!(v_[i] == (want))) {                                                                                                                       \
        fail(what, N, i);                                                                                                                             \
        break;                                                                                                                                        \
      }                                                                                                                                               \
    R().evaluations += (M);                                                                                                                           \
    R().distinct_n++;                                                                                                                                 \
    ++beat();                                                                                                                                         \
  } while (0)

struct Times2 {
  template <class T> long operator()(T const& x) const { return 2L * x + 1; }
};
struct Sum {
  template <class T> T operator()(T const& a, T const& v) const { return T(a + 3 * v); }
};
struct Seq {
  double operator()(int i) const { return i % 7 == 3 ? -2 : i % 5 == 1 ? 0.5 : 1; }
};
struct Small {
  double operator()(int i) const { return (i - 100) / 64.0; }
};

struct Sq {
  int operator()(int x) const { return x * x + 1; }
};
template <int N> static void ops() {
  vector<int, N> const v = make<N>();
  ALL("create", N, v, num(i));
  ALL("full", N, (vector<int, N>::full(77)), 77);
  ALL("ones", N, (vector<int, N>::ones()), 1);
  ALL("zeros", N, (vector<int, N>::zeros()), 0);
  ALL("conversion", N, (vector<double, N>(v)), double(num(i)));
  ALL("transform", N, (v.template transform<long>(Times2())), 2L * num(i) + 1);
  ALL("negation", N, -v, -num(i));
  ALL("multiplication", N, 3 * v, 3 * num(i));
  ALL("addition", N, 5 + v, 5 + num(i));
  ALL("division", N, v / 3, num(i) / 3);
  ALL("division of", N, 720720 / (vector<int, N>(make<N>(1).transform(Sq()))), 720720 / (num(i, 1) * num(i, 1) + 1));
  vector<double, N> const w = vector<double, N>::create(Small());
  auto const ex = exp(w);
  for (int i = 0; i < N; ++i)
    if (!(std::fabs(ex[i] - std::exp((i - 100) / 64.0)) <= 1e-14 * ex[i])) {
      fail("exponential", N, i);
      break;
    }
  ALL("append", N + 3, (v.append(make<3>(1))), i < N ? num(i) : num(i - N, 1));
  ALL("prepend", N + 3, (make<3>(1).append(v)), i < 3 ? num(i, 1) : num(i - 3));
  ALL("subvector", N - 3, (v.template subvector<1, N - 3>()), num(i + 1));
  ALL("last", 2, (v.template subvector<N - 2, 2>()), num(i + N - 2));
  ALL("erase first", N - 1, (v.template erase<0>()), num(i + 1));
  ALL("erase last", N - 1, (v.template erase<N - 1>()), num(i));
  ALL("erase middle", N - 5, (v.template erase<N / 2, 5>()), num(i < N / 2 ? i : i + 5));
  for (int a : {0, 1, N / 2, N - 2, N - 1})
    for (int b = 0; b < N; ++b) ALL("swap", N, v.swap(a, b), num(i == a ? b : i == b ? a : i));
  for (int b = 0; b < N; ++b) ALL("swappop", N - 1, v.swappop(b), num(i + 1 == b ? 0 : i + 1));
  long sum = 5, p2 = 0;
  for (int i = 0; i < N; ++i) sum += 3 * num(i);
  if (v.reduce(Sum(), 5) != sum) fail("reduction", N, 0);
  double pr = 1;
  for (int i = 0; i < N; ++i) pr *= Seq()(i);
  (void)p2;
  if (prod(vector<double, N>::create(Seq())) != pr) fail("product", N, 0);
  R().sample(strf("all operations on %d elements", N));
}

struct Pred {
  int limit;
  bool operator()(int x) const { return x < limit; }
};
struct IsLess {
  bool down;
  bool operator()(int a, int b) const { return down ? b < a : a < b; }
};
template <int N, bool Sort> struct sorter {
  static void run() {}
};
template <int N> struct sorter<N, true> {
  static void run() {
    struct Perm {
      int kind;
      int operator()(int i) const { return kind == 0 ? i : kind == 1 ? N - i : kind == 2 ? (i * 89) % N : kind == 3 ? i / 2 : i == N - 1 ? -1 : 7; }
    };
    for (int kind = 0; kind < 5; ++kind)
      for (bool down : {false, true}) {
        auto const s = vector<int, N>::create(Perm{kind}).sort(IsLess{down});
        int want[N];
        for (int i = 0; i < N; ++i) want[i] = Perm{kind}(i);
        std::sort(want, want + N, IsLess{down});
        ALL("sort", N, s, want[i]);
      }
  }
};
template <int N, bool Sort> static void order() {
  struct At {
    int pos, val;
    int operator()(int i) const { return i == pos ? val : 100 + i % 3; }
  };
  for (int p = 0; p < N; ++p) {
    auto const v = vector<int, N>::create(At{p, 0}), w = vector<int, N>::create(At{-1, 0});
    if ((int)v.argmin(IsLess{false}) != p) fail("argmin", N, p);
    if (v == w || w == v || !(v == v)) fail("equality", N, p);
    if (!(vector<int, N>::create(At{p, 100 + p % 3}) == w)) fail("equality of equals", N, p);
    if (v.count(Pred{50}) != 1 || v.count(Pred{1000}) != N) fail("count of one", N, p);
    R().evaluations += 6;
    R().distinct_n++;
    ++beat();
  }
  struct Ramp {
    int operator()(int i) const { return (i * 97) % N; }
  };
  auto const r = vector<int, N>::create(Ramp());
  for (int k = 0; k <= N; ++k) {
    int want = 0;
    for (int i = 0; i < N; ++i) want += Ramp()(i) < k;
    if ((int)r.count(Pred{k}) != want) fail("count", N, k);
    R().evaluations++;
  }
  sorter<N, Sort>::run();
  R().sample(strf("argmin, count, equality of %d elements", N));
}

template <int A, int B> static void conv() {
  int const N = A + B - 1;
  struct Unit {
    int at;
    long operator()(int i) const { return i == at; }
  };
  // bilinear: pairs of unit vectors on a grid that includes all ends and all powers of two
  auto pick = [](int n) {
    std::vector<int> r;
    for (int i = 0; i < n; ++i)
      if (i < 3 || i + 3 >= n || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || i % 37 == 0) r.push_back(i);
    return r;
  };
  for (int a : pick(A))
    for (int b : pick(B)) ALL("convolution", N, (convolve_full(vector<long, A>::create(Unit{a}), vector<long, B>::create(Unit{b}))), long(i == a + b));
  struct F {
    int salt;
    long operator()(int i) const { return num(i, salt); }
  };
  long want[N] = {0};
  for (int a = 0; a < A; ++a)
    for (int b = 0; b < B; ++b) want[a + b] += (long)num(a, 1) * num(b, 2);
  ALL("convolution of numbers", N, (convolve_full(vector<long, A>::create(F{1}), vector<long, B>::create(F{2}))), want[i]);
  R().sample(strf("convolution of %d and %d elements", A, B));
}
// integers modulo a prime
struct P {
  long v;
  constexpr P() : v(0) {}
  constexpr explicit P(long x) : v(((x % 1000003) + 1000003) % 1000003) {}
};
constexpr P operator+(P a, P b) { return P(a.v + b.v); }
constexpr P operator-(P a) { return P(-a.v); }
constexpr P operator*(P a, P b) { return P(a.v * b.v); }
static bool operator==(P a, P b) { return a.v == b.v; }
template <int M> static void expand() {
  int const N = M + 1;
  struct Root {
    P operator()(int i) const { return P(num(i)); }
  };
  std::vector<P> want(1, P(1));
  for (int r = 0; r < M; ++r) {
    want.push_back(P(0));
    for (int i = r + 1; i > 0; --i) want[i] = want[i] + -Root()(r) * want[i - 1];
  }
  ALL("expansion", N, (poly(vector<P, M>::create(Root()))), want[i]);
  R().sample(strf("expansion of %d roots", M));
}

// -DN1=... selects the size (C17, C18) or the group of sizes (C19)
int main(int argc, char** argv) {
  init(argc, argv);
#if PROP == 17
  ops<N1>();
#elif PROP == 18
  order<N1, WIDE_SORT>();
#elif N1 == 0
  conv<1, 257>(), conv<257, 1>(), conv<130, 2>(), conv<2, 256>(), conv<256, 2>(), conv<60, 70>();
#elif N1 == 1
  conv<128, 129>(), conv<129, 128>(), conv<100, 300>();
#else
  expand<127>(), expand<130>(), expand<256>();
#endif
  R().finish();
}
