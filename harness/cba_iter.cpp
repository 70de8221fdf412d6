// C03: every iterator expression between all pairs of positions of every ring
// state, against plain index arithmetic.
#include "cba.h"
#include <algorithm>
#include <iterator>
#include <memory>
#include <numeric>
#include <string>
#include <type_traits>
using namespace cbt;

static size_t g_cap, g_first, g_n;
static const char* g_kind;
static void fmt(char* b, size_t s) {
  snprintf(b, s, "%s cap=%zu first=%zu size=%zu", g_kind, g_cap, g_first, g_n);
}
#define CHECK(c)                                                                                                       \
  do {                                                                                                                 \
    ++R().evaluations;                                                                                                 \
    if (!(c))                                                                                                          \
      R().fail(std::string(g_kind) + ":" #c, strf("%s is false for %s, cap=%zu first=%zu size=%zu i=%ld j=%ld", #c,    \
                                                  g_kind, g_cap, g_first, g_n, long(gi), long(gj)));                   \
  } while (0)
static long gi, gj;

// b: begin, e: end, p[i]: address of logical element i
template <typename It, typename P> void laws(const char* kind, It b, It e, P const& p, long n) {
  using D = typename It::difference_type;
  static_assert(std::is_same<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>::value, "category");
  static_assert(std::is_default_constructible<It>::value && std::is_copy_constructible<It>::value && std::is_copy_assignable<It>::value, "regular");
  g_kind = kind;
  ++beat();
  It def{}, def2{};
  gi = gj = 0;
  CHECK(def == def2 && !(def != def2));
  CHECK((b == e) == (n == 0));
  // all iterators by walking forward
  std::vector<It> its;
  its.push_back(b);
  for (long i = 0; i < n; ++i) {
    It x = its.back();
    gi = i;
    It old = x++;
    CHECK(old == its.back());
    It y = its.back();
    It& ref = ++y;
    CHECK(&ref == &y);
    CHECK(x == y);
    its.push_back(x);
  }
  std::vector<It> const& it = its; // whatever does not move an iterator works on a const one
  CHECK(it.back() == e);
  { // walking backward gives the same
    It x = e;
    for (long i = n; i-- > 0;) {
      gi = i;
      It y = x;
      It const old = y--;
      CHECK(old == x);
      It& ref = --x;
      CHECK(&ref == &x);
      CHECK(x == it[i] && y == x);
    }
    CHECK(x == b);
  }
  for (gi = 0; gi <= n; ++gi) {
    long i = gi;
    if (i < n) {
      CHECK(&*it[i] == p[i]);
      CHECK(it[i].operator->() == p[i]);
    }
    It copy(it[i]), moved(std::move(copy)), asg;
    asg = it[i];
    It masg;
    masg = It(it[i]);
    CHECK(moved == it[i] && asg == it[i] && masg == it[i]);
    if (i < n) CHECK(&*moved == p[i] && &*asg == p[i] && &*masg == p[i]);
    for (gj = 0; gj <= n; ++gj) {
      long j = gj;
      D d = j - i;
      CHECK((it[i] == it[j]) == (i == j));
      CHECK((it[i] != it[j]) == (i != j));
      CHECK((it[i] < it[j]) == (i < j));
      CHECK((it[i] > it[j]) == (i > j));
      CHECK((it[i] <= it[j]) == (i <= j));
      CHECK((it[i] >= it[j]) == (i >= j));
      CHECK(it[j] - it[i] == d);
      CHECK(it[i] + d == it[j]);
      CHECK(d + it[i] == it[j]);
      CHECK(it[i] - (-d) == it[j]);
      It x = it[i];
      It& r1 = (x += d);
      CHECK(&r1 == &x && x == it[j]);
      CHECK(x - it[i] == d);
      if (j < n) CHECK(&*x == p[j]);
      It& r2 = (x -= d);
      CHECK(&r2 == &x && x == it[i]);
      if (i < n) CHECK(&*x == p[i]);
      if (j < n) {
        CHECK(&it[i][d] == p[j]);
        It y = it[i] + d;
        CHECK(&*y == p[j]);
        CHECK(y < e && e > y && e - y == n - j);
      }
      It z = it[i];
      std::advance(z, d);
      CHECK(z == it[j] && std::distance(it[i], it[j]) == d);
      using std::swap;
      It s1 = it[i], s2 = it[j];
      swap(s1, s2);
      CHECK(s1 == it[j] && s2 == it[i]);
    }
  }
  gj = 0;
}

template <typename B, typename P> void all_kinds(B& c, P const& p, long n) {
  B const& cc = c;
  laws("iterator", c.begin(), c.end(), p, n);
  laws("iterator(const adapter)", cc.begin(), cc.end(), p, n);
  laws("const_iterator", c.cbegin(), c.cend(), p, n);
  P rev(p.rbegin(), p.rend());
  laws("reverse_iterator", c.rbegin(), c.rend(), rev, n);
  laws("const_reverse_iterator", c.crbegin(), c.crend(), rev, n);
  // conversions and mixed comparisons
  using It = typename B::iterator;
  using Ct = typename B::const_iterator;
  static_assert(std::is_convertible<It, Ct>::value, "mutable converts to const");
  static_assert(!std::is_convertible<Ct, It>::value, "const does not convert to mutable");
  static_assert(std::is_same<decltype(*std::declval<Ct>()), typename B::value_type const&>::value, "const_iterator reference");
  static_assert(std::is_same<decltype(*c.crbegin()), typename B::value_type const&>::value, "const_reverse_iterator reference");
  static_assert(std::is_same<decltype(*std::declval<It>()), typename B::reference>::value, "iterator reference");
  g_kind = "mixed";
  for (gi = 0; gi <= n; ++gi)
    for (gj = 0; gj <= n; ++gj) {
      It a = c.begin() + gi;
      Ct b = c.cbegin() + gj, conv = a, asg;
      asg = a;
      CHECK(conv == c.cbegin() + gi && asg == conv);
      CHECK((a == b) == (gi == gj) && (b == a) == (gi == gj));
      CHECK((a != b) == (gi != gj) && (b != a) == (gi != gj));
      CHECK((a < b) == (gi < gj) && (b < a) == (gj < gi));
      CHECK((a > b) == (gi > gj) && (b > a) == (gj > gi));
      CHECK((a <= b) == (gi <= gj) && (b <= a) == (gj <= gi));
      CHECK((a >= b) == (gi >= gj) && (b >= a) == (gj >= gi));
      CHECK(b - a == gj - gi);
      if (gi < n) CHECK(&*conv == p[gi] && &*asg == p[gi]);
    }
  gj = 0;
}

static bool odd(int x) { return x & 1; }

// standard algorithms agree with the same algorithm on a plain vector
template <typename T> void algorithms(circular_buffer_adapter<T>& c, std::vector<int> const& init, unsigned which) {
  using E = El<T>;
  long n = long(init.size());
  for (long i = 0; i < n; ++i) c[i] = E::make(init[i]);
  std::vector<int> v = init;
  auto lt = [](T const& a, T const& b) { return E::val(a) < E::val(b); };
  auto pr = [](T const& a) { return odd(E::val(a)); };
  g_kind = "algorithm";
  gi = which;
  switch (which) {
  case 0: std::sort(c.begin(), c.end(), lt); std::sort(v.begin(), v.end()); break;
  case 1: std::stable_sort(c.begin(), c.end(), lt); std::stable_sort(v.begin(), v.end()); break;
  case 2: std::reverse(c.begin(), c.end()); std::reverse(v.begin(), v.end()); break;
  case 3: std::rotate(c.begin(), c.begin() + n / 2, c.end()); std::rotate(v.begin(), v.begin() + n / 2, v.end()); break;
  case 4: std::stable_partition(c.begin(), c.end(), pr); std::stable_partition(v.begin(), v.end(), odd); break;
  case 5: std::make_heap(c.begin(), c.end(), lt); std::sort_heap(c.begin(), c.end(), lt); std::sort(v.begin(), v.end()); break;
  case 6:
    if (n > 1) {
      std::copy_backward(c.begin(), c.end() - 1, c.end());
      std::copy_backward(v.begin(), v.end() - 1, v.end());
    }
    break;
  case 7:
    if (n > 1) {
      std::copy(c.begin() + 1, c.end(), c.begin());
      std::copy(v.begin() + 1, v.end(), v.begin());
    }
    break;
  case 8: std::sort(c.rbegin(), c.rend(), lt); std::sort(v.rbegin(), v.rend()); break;
  case 9: std::next_permutation(c.begin(), c.end(), lt); std::next_permutation(v.begin(), v.end()); break;
  case 10: {
    auto e = std::remove_if(c.begin(), c.end(), pr);
    auto w = std::remove_if(v.begin(), v.end(), odd);
    CHECK(e - c.begin() == w - v.begin());
    for (long i = 0; i < w - v.begin(); ++i) CHECK(E::val(c[i]) == v[i]);
    return;
  }
  case 11: {
    std::sort(c.begin(), c.end(), lt);
    std::sort(v.begin(), v.end());
    for (int x = -1; x < 5; ++x) {
      T t = E::make(x);
      CHECK(std::lower_bound(c.cbegin(), c.cend(), t, lt) - c.cbegin() == std::lower_bound(v.begin(), v.end(), x) - v.begin());
      CHECK(std::upper_bound(c.crbegin(), c.crend(), t, [&](T const& a, T const& b) { return lt(b, a); }) - c.crbegin() ==
            std::upper_bound(v.rbegin(), v.rend(), x, [](int a, int b) { return b < a; }) - v.rbegin());
    }
    break;
  }
  default: break;
  }
  for (long i = 0; i < n; ++i) CHECK(E::val(c[i]) == v[i]);
  CHECK(std::equal(v.begin(), v.end(), c.cbegin(), [](int a, T const& b) { return a == E::val(b); }));
  std::vector<int> bw;
  for (auto r = c.crbegin(); r != c.crend(); ++r) bw.push_back(E::val(*r));
  CHECK(std::equal(v.rbegin(), v.rend(), bw.begin()) && bw.size() == v.size());
}

template <typename T> void go(size_t maxcap, size_t algcap) {
  using B = circular_buffer_adapter<T>;
  using E = El<T>;
  for (g_cap = 1; g_cap <= maxcap; ++g_cap)
    for (g_first = 0; g_first < g_cap; ++g_first)
      for (g_n = 0; g_n <= g_cap; ++g_n)
        for (int how = 0; how < 3; ++how) {
          Arena a(g_cap * sizeof(T));
          T* mem = reinterpret_cast<T*>(a.mem());
          for (size_t i = 0; i < g_cap; ++i) new (mem + i) T(E::make(0));
          // reach the ring state by attaching, by pushing back, or by pushing front
          B c(mem, g_cap, how == 2 ? (g_first + g_n) % g_cap : g_first, how == 0 ? g_n : 0);
          std::vector<T*> p;
          for (size_t i = 0; i < g_n; ++i) {
            p.push_back(mem + (g_first + i) % g_cap);
            if (how == 1) c.push_back(E::make(int(i)));
            if (how == 2) c.push_front(E::make(int(g_n - 1 - i)));
          }
          ++R().states;
          ++R().traces;
          R().distinct.insert(Hash().add(g_cap).add(g_first).add(g_n).add(how).add(sizeof(T)));
          uint64_t e0 = R().evaluations;
          all_kinds(c, p, long(g_n));
          R().transitions += R().evaluations - e0;
          // read-only view of the same memory
          circular_buffer_adapter<T const> ro(mem, g_cap, g_first, g_n);
          std::vector<T const*> cp(p.begin(), p.end());
          all_kinds(ro, cp, long(g_n));
          if (g_cap <= algcap && how == 0) {
            // all contents over three values
            size_t total = 1;
            for (size_t i = 0; i < g_n; ++i) total *= 3;
            for (size_t k = 0; k < total; ++k) {
              std::vector<int> init;
              for (size_t i = 0, x = k; i < g_n; ++i, x /= 3) init.push_back(int(x % 3));
              for (unsigned w = 0; w < 12; ++w) algorithms<T>(c, init, w);
            }
          }
          CHECK(a.intact());
        }
}

// elements with operators of their own
struct Own {
  int v;
  void operator&() const = delete;
  template <typename X> friend void operator,(Own const&, X&&) = delete;
  template <typename X> friend void operator,(X&&, Own const&) = delete;
  bool operator==(Own const&) const = delete;
};
template <typename B> void own_elements(B const& c, long n) {
  for (gi = 0; gi <= n; ++gi)
    for (gj = 0; gj < n; ++gj) {
      auto i = c.begin() + gi;
      auto k = c.cbegin() + gi;
      auto r = c.rbegin() + gi;
      auto s = c.crbegin() + gi;
      CHECK(i[gj - gi].v == gj && k[gj - gi].v == gj && r[gj - gi].v == n - 1 - gj && s[gj - gi].v == n - 1 - gj);
      if (gi == n) continue;
      CHECK(i->v == gi && (*i).v == gi && k->v == gi && (*k).v == gi);
      CHECK(r->v == n - 1 - gi && (*r).v == n - 1 - gi && s->v == n - 1 - gi && (*s).v == n - 1 - gi);
      CHECK((*i++).v == gi && (*k++).v == gi && i - c.begin() == gi + 1 && i == k);
      CHECK(i-- == c.begin() + (gi + 1) && k-- == c.cbegin() + (gi + 1) && (*--r.base()).v == n - 1 - gi);
    }
}
static void own() {
  g_kind = "elements with operators of their own";
  for (g_cap = 1; g_cap <= 4; ++g_cap)
    for (g_first = 0; g_first < g_cap; ++g_first)
      for (g_n = 0; g_n <= g_cap; ++g_n) {
        Own mem[4];
        for (size_t i = 0; i < g_n; ++i) mem[(g_first + i) % g_cap].v = int(i);
        ++R().states;
        own_elements(circular_buffer_adapter<Own>(std::addressof(mem[0]), g_cap, g_first, g_n), long(g_n));
        own_elements(circular_buffer_adapter<Own const>(std::addressof(mem[0]), g_cap, g_first, g_n), long(g_n));
      }
}

int main(int argc, char** argv) {
  verif::init(argc, argv);
  crumb().what = "iterator expression";
  crumb().fmt = fmt;
  g_kind = "default";
  { // iterators of an adapter without memory
    circular_buffer_adapter<int> c;
    CHECK(c.begin() == c.end() && c.cbegin() == c.cend() && c.end() - c.begin() == 0);
    CHECK(c.rbegin() == c.rend() && c.crbegin() == c.crend());
  }
  size_t cap = R().thorough ? CAP_T : CAP_Q, alg = R().thorough ? ALG_T : ALG_Q;
  go<int>(cap, alg);
  go<uint8_t>(cap, 0);
  go<S16>(cap - 1, alg - 1);
  own();
  R().sample(strf("all expressions between all position pairs, capacities 1..%zu, contents 3^n up to capacity %zu", cap, alg));
  R().finish();
}
