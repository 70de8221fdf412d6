// C28: one transcript of exhaustive small runs of every component.  It must come
// out the same in every build configuration.  Lines that start with X need
// exceptions, lines that start with F hold rounded numbers.
// -DMATH=0 leaves out what needs constant-expression mathematics.
#ifndef MATH
#define MATH 1
#endif
#ifdef __clang__ // its standard library functions are not constant expressions
#define KEPT static const
#else
#define KEPT static constexpr
#endif
#include "verif.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <sys/wait.h>
#include <type_traits>
#include <utility>
#include <vector>
#include <embedded/circular_buffer_adapter.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/type_traits.h>
#include <embedded/typelist.h>
#include <embedded/utility/integer_sequence.h>
#include <embedded/varint.h>
#if MATH
#include "stub/fpm.h"
#include <embedded/constexpr_math.h>
#include <embedded/ostream_ops.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/debug_filter_coefs.h>
#include <embedded/signal/filter.h>
#include <sstream>
#endif
using namespace verif;

std::string second_unit();

static std::vector<std::string> lines;
static std::string section;
#define LINE(...) (lines.push_back(section + ": " + strf(__VA_ARGS__)), ++beat(), (void)R().evaluations++)
#define XLINE(...) (lines.push_back("X " + section + ": " + strf(__VA_ARGS__)), (void)R().evaluations++)
#define FLINE(...) (lines.push_back("F " + section + ": " + strf(__VA_ARGS__)), (void)R().evaluations++)

template <class T> static T opaque(T x) {
  asm volatile("" : "+m"(x));
  return x;
}

// ------------------------------------------------------------ circular buffer
using embedded::circular_buffer_adapter;
struct Held {
  static int born, died;
  int v;
  Held(int x = 0) : v(x) { ++born; }
  Held(Held const& o) : v(o.v) { ++born; }
  Held(Held&& o) : v(o.v) {
    o.v = -1;
    ++born;
  }
  Held& operator=(Held const&) = default;
  ~Held() { ++died; }
};
int Held::born, Held::died;
static int val(int x) { return x; }
static int val(unsigned char x) { return x; }
static int val(Held const& x) { return x.v; }
template <class T> static std::string dump(circular_buffer_adapter<T> const& a, T const* mem, int cap) {
  std::string s = strf("size %zu remaining %zu empty %d full %d end %zu values", a.size(), a.remaining(), a.empty(), a.full(), a.raw_index(a.end()));
  for (auto i = a.begin(); i != a.end(); ++i) s += strf(" %d@%zu", val(*i), a.raw_index(i));
  s += " slots";
  for (int i = 0; i < cap; ++i) s += strf(" %d", val(mem[i]));
  return s;
}
template <class T, bool = std::is_trivial<T>::value> struct Bulk {
  static bool go(circular_buffer_adapter<T>&, int, std::string&) { return false; }
};
template <class T> struct Bulk<T, true> {
  static bool go(circular_buffer_adapter<T>& a, int op, std::string& s) {
    T buf[8] = {101, 102, 103, 104, 105, 106, 107, 108};
    std::size_t const n = op / 6;
    switch (op % 6) {
    case 0:
      if (n > a.remaining()) return false;
      a.copy_in_back(buf, n);
      break;
    case 1:
      if (n > a.remaining()) return false;
      a.copy_in_front(buf, n);
      break;
    case 2:
      if (n > a.size()) return false;
      a.copy_out_front(buf, n);
      break;
    case 3:
      if (n > a.size()) return false;
      a.copy_out_back(buf, n);
      break;
    case 4:
      if (n > a.size()) return false;
      a.copy_in(a.begin(), a.begin() + n, buf);
      break;
    case 5:
      if (n > a.size()) return false;
      a.copy_out(a.cend() - n, a.cend(), buf);
      break;
    }
    for (T x : buf) s += strf(" %d", val(x));
    return n <= 4;
  }
};
template <class T> static bool step(circular_buffer_adapter<T>& a, int op, std::string& s) {
  switch (op) {
  case 0: if (a.full()) return false; { T const v(50); a.push_back(v); } return true;
  case 1: if (a.full()) return false; a.push_back(T(51)); return true;
  case 2: if (a.full()) return false; { T const v(52); a.push_front(v); } return true;
  case 3: if (a.full()) return false; a.push_front(T(53)); return true;
  case 4: if (a.full()) return false; s += strf(" %d", val(a.emplace_back(T(54)))); return true;
  case 5: if (a.full()) return false; s += strf(" %d", val(a.emplace_front(T(55)))); return true;
  case 6: if (a.empty()) return false; a.pop_back(); return true;
  case 7: if (a.empty()) return false; a.pop_front(); return true;
  case 8: a.pop_back(a.size() / 2); return true;
  case 9: a.pop_front(a.size()); return true;
  case 10: a.clear(); return true;
  case 11: if (a.empty()) return false; s += strf(" %d %d %d %d", val(a.front()), val(a.back()), val(a[a.size() - 1]), val(a.at(0))); return true;
  case 12:
    for (auto i = a.crbegin(); i != a.crend(); ++i) s += strf(" %d", val(*i));
    return true;
  case 13: {
    auto const b = a.begin(), e = a.end();
    s += strf(" %td %d %d %d %d", e - b, b < e, b == e, e <= b, b >= e);
    for (std::size_t i = 0; i < a.size(); ++i) s += strf(" %d %td %d", val(b[i]), e - (b + i), val(*(e - (i + 1))));
    return true;
  }
  case 14: {
    circular_buffer_adapter<T> b(std::move(a));
    a = std::move(b);
    return true;
  }
  case 15:
    std::reverse(a.begin(), a.end());
    return true;
  }
  return Bulk<T>::go(a, op - 16, s);
}
template <class T> static void rings(char const* name) {
  section = std::string("ring of ") + name;
  for (int cap = 1; cap <= 3; ++cap)
    for (int first = 0; first < cap; ++first)
      for (int n = 0; n <= cap; ++n)
        for (int op = 0; op < 16 + 30; ++op)
          for (int op2 : {-1, 0, 2, 6, 7, 11}) {
            alignas(T) char raw[sizeof(T) * 4];
            T* mem = reinterpret_cast<T*>(raw);
            for (int i = 0; i < cap; ++i) new (mem + i) T(i + 1);
            Held::born = Held::died = 0;
            circular_buffer_adapter<T> a(mem, cap, first, n);
            std::string s;
            if (!step(a, op, s)) continue;
            if (op2 >= 0 && !step(a, op2, s)) continue;
            LINE("%d/%d/%d op %d %d:%s -> %s, %d born %d died", cap, first, n, op, op2, s.c_str(), dump(a, const_cast<T const*>(mem), cap).c_str(), Held::born, Held::died);
#if __cpp_exceptions
            try {
              a.at(a.size());
              XLINE("at() did not throw");
            } catch (std::out_of_range const&) {
              XLINE("%d/%d/%d op %d %d: out of range", cap, first, n, op, op2);
            }
#endif
          }
}

// ------------------------------------------------------------ varint
using embedded::varint;
template <class T> static void ints(char const* name) {
  section = std::string("varint of ") + name;
  typedef typename std::make_unsigned<T>::type U;
  for (int e = 0; e <= 8 * (int)sizeof(T); ++e)
    for (int d = -1; d <= 1; ++d) {
      T const v = T(U(U(e == 8 * (int)sizeof(T) ? 0 : U(1) << e) + U(d)));
      std::string s;
      for (int room = 0; room <= 11; ++room) {
        uint8_t buf[16];
        memset(buf, 0xa5, sizeof buf);
        uint8_t* const r = varint::encode(v, buf, buf + room);
        s += strf(" %d:%td", room, r - buf);
        for (int i = 0; i <= room; ++i) s += strf("%02x", buf[i]);
        T w = T(77);
        uint8_t const* const p = varint::decode(w, (uint8_t const*)buf, (uint8_t const*)buf + room);
        s += strf("/%td", p - buf);
        if (p != buf) s += strf("=%lld", (long long)w);
      }
      LINE("%lld size %zu%s", (long long)v, varint::size(v), s.c_str());
      std::list<uint8_t> l(12, 0);
      std::vector<uint8_t> c;
      auto const i = varint::encode(v, l.begin());
      varint::encode(v, std::back_inserter(c));
      T w = T(1), x = T(2);
      auto const j = varint::decode(w, l.begin(), l.end());
      auto const k = varint::decode(x, c.begin(), c.end());
      LINE("list %td %td %lld vector %zu %td %lld", std::distance(l.begin(), i), std::distance(l.begin(), j), (long long)w, c.size(), k - c.begin(), (long long)x);
    }
  for (int n = 0; n < 12; ++n)
    for (int last : {0, 1, 2, 3, 4, 0x0f, 0x10, 0x1f, 0x20, 0x7f})
      for (int b : {0x80, 0xff}) {
        std::vector<uint8_t> c(n, b);
        c.push_back(last);
        T w = T(3);
        auto const k = varint::decode(w, c.begin(), c.end());
        LINE("%d times %02x then %02x: %td", n, b, last, k - c.begin());
        if (k != c.begin()) LINE("is %lld", (long long)w);
      }
}

// ------------------------------------------------------------ function
static int plain(int i) { return i + 1; }
static int nothrow(int i) noexcept { return i + 2; }
struct Callable {
  static int alive;
  int v;
  Callable(int x) : v(x) { ++alive; }
  Callable(Callable const& o) : v(o.v) { ++alive; }
  Callable(Callable&& o) noexcept : v(o.v) {
    o.v = 0;
    ++alive;
  }
  ~Callable() { --alive; }
  int operator()(int i) { return i * v; }
  int operator()(int i) const { return i * v + 1000; }
};
int Callable::alive;
struct M {
  int d;
  int get(int i) const { return d + i; }
  int set(int i) { return d = i; }
  int quiet(int i) const noexcept { return d - i; }
};
struct OnlyMoved {
  std::unique_ptr<int> p;
  int operator()(int i) const { return *p + i; }
};
struct CopiedThrows {
  CopiedThrows() {}
  CopiedThrows(CopiedThrows const&) {}
  int operator()(int) const { return 9; }
};
template <class F> static std::string call(F& f, int i) {
  if (!f) {
#if !__cpp_exceptions
    return "";
#else
    try {
      f(i);
      return " X-returned";
    } catch (std::bad_function_call const&) {
      return "";
    }
#endif
  }
  return strf(" %d", f(i));
}
template <class S> static void functions(char const* name) {
  section = std::string("function ") + name;
  typedef embedded::function<S> F;
  LINE("sizes %zu %zu %zu", sizeof(F) / sizeof(void*), sizeof(embedded::function<S, sizeof(void*)>) / sizeof(void*), alignof(F) / sizeof(void*));
#define TRAIT(...) LINE(#__VA_ARGS__ " %d", int(__VA_ARGS__::value))
  TRAIT(std::is_copy_constructible<F>);
  TRAIT(std::is_copy_assignable<F>);
  TRAIT(std::is_nothrow_move_constructible<F>);
  TRAIT(std::is_nothrow_move_assignable<F>);
  TRAIT(std::is_nothrow_default_constructible<F>);
  TRAIT(std::is_constructible<F, int (*)(int)>);
  TRAIT(std::is_constructible<F, int (&)(int)>);
  TRAIT(std::is_constructible<F, void (*)(int)>);
  TRAIT(std::is_constructible<F, long (*)(long)>);
  TRAIT(std::is_constructible<F, int (*)(int*)>);
  TRAIT(std::is_constructible<F, int (*)()>);
  TRAIT(std::is_constructible<F, Callable>);
  TRAIT(std::is_constructible<F, Callable&>);
  TRAIT(std::is_constructible<F, OnlyMoved>);
  TRAIT(std::is_constructible<F, int>);
  TRAIT(std::is_constructible<F, std::nullptr_t>);
  TRAIT(std::is_constructible<F, M>);
  TRAIT(std::is_assignable<F&, int (*)(int)>);
  TRAIT(std::is_assignable<F&, M>);
  TRAIT(std::is_convertible<Callable, F>);
  for (int a = 0; a < 14; ++a)
    for (int b = 0; b < 14; ++b)
      for (int c = 0; c < 14; ++c) {
        std::string s;
        {
          F f[2];
          for (int op : {a, b, c}) {
            F &x = f[op & 1], &y = f[1 - (op & 1)];
            switch (op / 2) {
            case 0: x = plain; break;
            case 1: x = Callable(7); break;
            case 2: x = std::move(y); break;
            case 3: x = nullptr; break;
            case 4: x = op & 1 ? F(nothrow) : F(OnlyMoved{std::unique_ptr<int>(new int(40))}); break;
            case 5: std::swap(x, y); break;
            case 6: {
              F z(std::move(x));
              s += call(z, 3);
              y = std::move(z);
            }
            }
            s += strf(" %d%d", bool(x), bool(y)) + call(x, 5) + call(y, 6) + strf(" %d", Callable::alive);
          }
        }
        LINE("%d %d %d:%s, %d left", a, b, c, s.c_str(), Callable::alive);
      }
}
static void members() {
  section = "member function";
  M m = {5};
  embedded::function<int(M&, int)> f(&M::set), g;
  LINE("%d", f(m, 8));
  f = &M::set;
  int got = f(m, 9);
  LINE("%d %d", got, m.d);
  embedded::function<int(M const&, int) const> h(&M::get);
  LINE("%d", h(m, 9));
  h = &M::quiet;
  LINE("%d", h(m, 1));
  embedded::function<int(M const*, int)> p(&M::get);
  LINE("%d", p(&m, 2));
  embedded::function<int&(M&)> d(&M::d);
  d(m) = 3;
  LINE("%d", m.d);
  int (M::*none)(int) = nullptr;
  f = none;
  LINE("%d", bool(f));
  embedded::function<int(M&, int)> e(none);
  LINE("%d", bool(e));
  embedded::function<void(int)> v([](int i) { return i; });
  v(3);
  embedded::function<void()> n;
  LINE("%d", bool(n));
#if !__cpp_exceptions
  pid_t const c = fork();
  if (!c) {
    std::set_terminate([] { _exit(42); });
    n();
    _exit(1);
  }
  int st = 0;
  waitpid(c, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) V_FAIL("empty call", "without exceptions, calling an empty function ended with status %d instead of terminating", st);
#else
  try {
    n();
    XLINE("an empty function returned");
  } catch (std::bad_function_call const&) {
    XLINE("bad function call");
  }
#endif
}

// ------------------------------------------------------------ wrappers and traits
struct Mutex {
  std::string log;
  void lock() { log += "L"; }
  void unlock() { log += "U"; }
};
template <int A> struct Is {
  static constexpr bool value = A;
  typedef int mark;
};
template <class S> struct ShowSeq;
template <class T, T... I> struct ShowSeq<embedded::integer_sequence<T, I...>> {
  static std::string s() {
    std::string r = strf("%zu:", sizeof...(I));
    long long const v[] = {(long long)I..., 0};
    for (std::size_t i = 0; i < sizeof...(I); ++i) r += strf(" %lld", v[i]);
    return r;
  }
};
template <class T, T... I> static std::string seq(embedded::integer_sequence<T, I...> s) { return ShowSeq<decltype(s)>::s(); }
template <class T> struct Count;
template <class... T> struct Count<embedded::typelist<T...>> { static const int n = sizeof...(T); };
template <class... T> struct Many { static const int n = sizeof...(T); };
static void small() {
  section = "small";
  Mutex m;
  {
    embedded::lock_guard<Mutex> g(m);
    {
      Mutex k;
      embedded::lock_guard<Mutex> h(k);
      m.log += k.log;
    }
    m.log += "-";
  }
  LINE("lock %s", m.log.c_str());
  typedef embedded::lock_guard<Mutex> G;
  TRAIT(std::is_copy_constructible<G>);
  TRAIT(std::is_convertible<Mutex&, G>);
  TRAIT(std::is_constructible<G, Mutex>);
  typedef embedded::move_wrapper<std::unique_ptr<int>> W;
  W a(std::unique_ptr<int>(new int(5)));
  W b(a);
  W c(std::move(b));
  LINE("wrapper %d %d %d", bool(*a), bool(*b), **c);
  TRAIT(std::is_nothrow_copy_constructible<W>);
  TRAIT(std::is_copy_assignable<W>);
  typedef embedded::move_wrapper<Held> H;
  TRAIT(std::is_nothrow_move_constructible<H>);
  LINE("%zu %zu", sizeof(W) / sizeof(void*), sizeof(H));
  TRAIT(embedded::conjunction<>);
  TRAIT(embedded::conjunction<Is<1>, Is<1>>);
  TRAIT(embedded::conjunction<Is<1>, Is<0>, Is<7>>);
  TRAIT(std::is_base_of<Is<0>, embedded::conjunction<Is<1>, Is<0>, Is<7>>>);
  TRAIT(std::is_base_of<Is<7>, embedded::conjunction<Is<1>, Is<3>, Is<7>>>);
#define INV(...) TRAIT(embedded::is_invocable_r<__VA_ARGS__>)
  INV(int, int (*)(int), int);
  INV(void, int (*)(int), int);
  INV(void const, int (&)(int), short);
  INV(int*, int (&)(int), int);
  INV(int, int (&)(int), int*);
  INV(int, Callable, int);
  INV(int, Callable const&, int);
  INV(int, Callable&, M);
  INV(std::string, char const* (*)());
  INV(std::unique_ptr<int>, std::unique_ptr<int> (*)());
  INV(Mutex, Mutex (*)());
  INV(int, void (*)());
  INV(int, int, int);
  INV(M&, M& (*)());
  INV(M&, M(*)());
  LINE("%s", seq(embedded::make_index_sequence<0>{}).c_str());
  LINE("%s", seq(embedded::make_index_sequence<1>{}).c_str());
  LINE("%s", seq(embedded::make_index_sequence<70>{}).c_str());
  LINE("%s", seq(embedded::make_integer_range<int, -3, 5>{}).c_str());
  LINE("%s", seq(embedded::make_index_range<7, 7>{}).c_str());
  LINE("%s", seq(embedded::make_integer_sequence<char, 9>{}).c_str());
  LINE("%s", seq(embedded::index_sequence_for<int, M, void>{}).c_str());
  typedef embedded::typelist<int, void>::append<M, int&> L;
  LINE("%d %d", Count<L>::n, L::to<Many>::n);
}

#if MATH
// ------------------------------------------------------------ mathematics
namespace cm = embedded::cmath;
namespace es = embedded::signal;
template <class T> struct Less {
  constexpr bool operator()(T const& a, T const& b) const { return a < b; }
  constexpr bool operator()(T const& a) const { return a < T(3); }
};
template <class T> static std::string out(T const& x) {
  std::ostringstream os;
  os.precision(17);
  os << x;
  return os.str();
}
template <class T> static void math(char const* name) {
  section = std::string("mathematics in ") + name;
  typedef cm::complex<T> C;
  // exact numbers
  std::vector<C> z;
  for (int a = -2; a <= 2; ++a)
    for (int b = -2; b <= 2; ++b) z.push_back(C(opaque(T(a) / 2), opaque(T(b) / 2)));
  for (auto const& a : z)
    for (auto const& b : z) {
      LINE("%s %s: %s %s %s %s %d", out(a).c_str(), out(b).c_str(), out(a + b).c_str(), out(a - b).c_str(), out(a * b).c_str(), out(b.real() * a).c_str(), a == b);
      if (!(b == C(0))) FLINE("%s / %s: %s", out(a).c_str(), out(b).c_str(), out(a / b).c_str());
    }
  for (auto const& a : z) {
    LINE("%s: %s %s %s %d", out(a).c_str(), out(-a).c_str(), out(a.conj()).c_str(), out(a.norm()).c_str(), a.is_real());
    FLINE("%s: %s %s", out(a).c_str(), out(exp(a)).c_str(), out(a.abs()).c_str());
  }
  typedef cm::vector<T, 6> V;
  V const v{opaque(T(4)), T(-1), T(3), opaque(T(-1)), T(7), T(0)}, w{T(1), T(2), T(3), opaque(T(4)), T(5), T(6)};
  LINE("%s %s", out(-v).c_str(), out(opaque(T(2)) * v).c_str());
  LINE("%s %zu %zu", out(v.sort(Less<T>())).c_str(), v.argmin(Less<T>()), v.count(Less<T>()));
  LINE("%s %s", out(prod(w)).c_str(), out(v.append(w)).c_str());
  LINE("%s %s", out(v.template subvector<2, 3>()).c_str(), out(v.swap(1, 4)).c_str());
  LINE("%s %s", out(cm::convolve_full(v, w)).c_str(), out(cm::poly(w)).c_str());
  LINE("%s %s %s", out(V::ones()).c_str(), out(V::zeros()).c_str(), out(V::full(T(3))).c_str());
  FLINE("%s", out(exp(v)).c_str());
  for (int i = -12; i <= 12; ++i) {
    T const x = opaque(T(i) / 8);
    FLINE("%s: %s", out(x).c_str(), out(cm::vector<T, 8>{T(cm::sin(x)), T(cm::cos(x)), T(cm::tan(x)), T(cm::sinh(x)), T(cm::exp(x)), T(cm::pow(T(2), x)), T(cm::atan(x)), T(cm::asinh(x))}).c_str());
    LINE("%s %s %s", out(T(cm::floor(x))).c_str(), out(cm::min(x, T(0.5))).c_str(), out(cm::max(T(-0.5), x)).c_str());
  }
  FLINE("%s", out(cm::pi<T>()).c_str());
}
template <class P, class F, class Fam> static void design(char const* name, Fam const& fam, char const* types) {
  section = std::string(name) + " in " + types;
  for (P fs : {P(1000), P(48000)})
    for (P r : {P(0.05L), P(0.3L)})
      for (int hp = 0; hp < 2; ++hp) {
        auto const base = es::iirfilter<P>(opaque(fs));
        auto const l = base.lowpass(fam, opaque(P(fs * r)));
        auto const h = base.highpass(fam, opaque(P(fs * r)));
        auto const p = hp ? h.template poly<F>() : l.template poly<F>();
        auto const s = hp ? h.template sos<F>() : l.template sos<F>();
        auto const d = hp ? h.template sos<F>(es::sos_gain::distribute) : l.template sos<F>(es::sos_gain::distribute);
        std::string const id = strf("%g %g %d", double(fs), double(r), hp);
        FLINE("%s %s", id.c_str(), out(p.b()).c_str());
        FLINE("%s %s", id.c_str(), out(p.a()).c_str());
        FLINE("%s %s", id.c_str(), out(s.sos()).c_str());
        FLINE("%s %s", id.c_str(), out(d.sos()).c_str());
        auto pi = p.instance();
        auto si = s.instance();
        auto di = d.instance();
        std::string y;
        for (int t = 0; t < 12; ++t) {
          F const x = F(t % 5 - 2);
          y += " " + out(pi(x)) + " " + out(si(x)) + " " + out(di(x));
        }
        FLINE("%s %s", id.c_str(), y.c_str());
      }
}
template <class P, class F> static void designs(char const* types) {
  design<P, F>("butterworth 1", es::butterworth<1>(), types);
  design<P, F>("butterworth 2", es::butterworth<2>(), types);
  design<P, F>("butterworth 5", es::butterworth<5>(), types);
  design<P, F>("chebyshev1 3", es::chebyshev1<3, P>(opaque(P(1))), types);
  design<P, F>("chebyshev1 4", es::chebyshev1<4, P>(opaque(P(0.5L))), types);
  design<P, F>("chebyshev2 3", es::chebyshev2<3, P>(opaque(P(30))), types);
  design<P, F>("chebyshev2 4", es::chebyshev2<4, P>(opaque(P(40))), types);
  design<P, F>("bessel 2", es::bessel<2>(), types);
  design<P, F>("bessel 5", es::bessel<5>(), types);
}
KEPT auto kept = es::iirfilter<double>(1000).lowpass(es::butterworth<3>(), 100).sos<double>();
LIBEMB_DEBUG_FILTER_COEFS_NAME(kept, "kept");
#endif

int main(int argc, char** argv) {
  init(argc, argv);
  rings<int>("int");
  rings<unsigned char>("byte");
  rings<Held>("objects");
  ints<signed char>("signed char");
  ints<unsigned char>("unsigned char");
  ints<short>("short");
  ints<unsigned short>("unsigned short");
  ints<int>("int");
  ints<unsigned>("unsigned");
  ints<long long>("long long");
  ints<unsigned long>("unsigned long");
  functions<int(int)>("int(int)");
  functions<int(int) const>("int(int) const");
  members();
  small();
#if MATH
  math<float>("float");
  math<double>("double");
  math<long double>("long double");
  designs<double, double>("double");
  designs<double, float>("double for float");
  designs<float, float>("float");
  designs<long double, long double>("long double");
#endif
  section = "second unit";
  LINE("%s", second_unit().c_str());
  FILE* f = fopen((R().out + ".log").c_str(), "w");
  if (!f) return 3;
  for (auto const& l : lines) fprintf(f, "%s\n", l.c_str());
  if (fclose(f)) return 3;
  R().distinct_n = lines.size();
  R().finish();
}
