// C29: an allocation monitor around every call into the library, for all short
// histories of every component; and no writable memory of the library's own in
// the program.  -DPART=0 buffers 1 varints, locks, wrappers 2 functions
// 3 mathematics 4 filters
#include "verif.h"
#include <algorithm>
#include <cmath>
#include <elf.h>
#include <link.h>
#include <fstream>
#include <functional>
#include <iterator>
#include <limits>
#include <new>
#include <numeric>
#if PART == 0
#include <embedded/circular_buffer_adapter.h>
#elif PART == 1
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/typelist.h>
#include <embedded/varint.h>
#elif PART == 2
#include <embedded/function.h>
#elif PART == 3
#include <embedded/constexpr_math.h>
#include <embedded/constexpr_math/convolve.h>
#include <embedded/constexpr_math/poly.h>
#else
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#endif
using namespace verif;

// ------------------------------------------------------------ the monitor
static int armed, allocations, frees, throwing;
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) {
  if (armed) ++allocations;
  return __libc_malloc(n);
}
void* calloc(size_t a, size_t b) {
  if (armed) ++allocations;
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (armed) ++allocations;
  return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) {
  if (armed) ++allocations;
  return __libc_memalign(a, n);
}
void* aligned_alloc(size_t a, size_t n) {
  if (armed) ++allocations;
  return __libc_memalign(a, n);
}
int posix_memalign(void** p, size_t a, size_t n) {
  if (armed) ++allocations;
  return (*p = __libc_memalign(a, n)) ? 0 : 12;
}
void free(void* p) {
  if (armed && p) ++frees;
  __libc_free(p);
}
}
// the library may use the global operators directly
void* operator new(std::size_t n) {
  if (armed) ++allocations;
  if (void* p = __libc_malloc(n ? n : 1)) return p;
  abort();
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  if (armed && p) ++frees;
  __libc_free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

static char const* doing = "";
static std::string (*where)() = nullptr;
static void judge(bool may_throw, bool threw) {
  R().transitions++;
  R().evaluations++;
  ++beat();
  if (threw && may_throw) return; // the exception object
  if (threw) V_FAIL("unexpected exception", "%s threw%s", doing, where ? (" in " + where()).c_str() : "");
  if (allocations || frees) V_FAIL("heap", "%s allocates %d and frees %d times%s", doing, allocations, frees, where ? (" in " + where()).c_str() : "");
}
// executes a call into the library under the monitor
template <class Fn> static void lib(char const* what, Fn fn, bool may_throw = false) {
  doing = what;
  allocations = frees = 0;
  bool threw = false;
#if __cpp_exceptions
  try {
    armed = 1;
    fn();
    armed = 0;
  } catch (...) {
    armed = 0;
    threw = true;
  }
#else
  if (may_throw) return;
  armed = 1;
  fn();
  armed = 0;
#endif
  judge(may_throw, threw);
}
template <class T> static void keep(T const& x) { asm volatile("" : : "r"(&x) : "memory"); }

// ------------------------------------------------------------ own memory
static void own_memory() {
  std::ifstream f("/proc/self/exe", std::ios::binary);
  std::string const all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  ElfW(Ehdr) h;
  memcpy(&h, all.data(), sizeof h);
  std::vector<ElfW(Shdr)> s(h.e_shnum);
  memcpy(s.data(), all.data() + h.e_shoff, sizeof(ElfW(Shdr)) * h.e_shnum);
  long n = 0;
  for (auto const& x : s)
    if (x.sh_type == SHT_SYMTAB)
      for (std::size_t at = 0; at < x.sh_size; at += sizeof(ElfW(Sym))) {
        ElfW(Sym) y;
        memcpy(&y, all.data() + x.sh_offset + at, sizeof y);
        std::string const name = all.data() + s[x.sh_link].sh_offset + y.st_name;
        int const type = ELF64_ST_TYPE(y.st_info);
        if (type != STT_OBJECT && type != STT_TLS) continue;
        ++n;
        if (y.st_shndx >= s.size() || !(s[y.st_shndx].sh_flags & SHF_WRITE)) continue;
        std::string const sec = all.data() + s[h.e_shstrndx].sh_offset + s[y.st_shndx].sh_name;
        if (sec.find(".data.rel.ro") == 0) continue; // constant after relocation
        std::size_t const p = name.find("8embedded");
        if (name.compare(0, 2, "_Z") || p == std::string::npos || p > 6) continue;
        V_FAIL("static memory", "the library has writable memory of its own: %s (%lu bytes)", name.c_str(), (unsigned long)y.st_size);
      }
  if (!n) exit(3);
}

#if PART == 0
// ------------------------------------------------------------ circular buffer
using embedded::circular_buffer_adapter;
struct Wide {
  char c[24];
};
static bool operator<(Wide const& a, Wide const& b) { return a.c[0] < b.c[0]; }
static Wide operator+(Wide a, Wide const&) { return a; }
struct Held {
  int v;
  Held(int x = 0) noexcept : v(x) {}
  Held(Held const& o) noexcept : v(o.v) {}
  Held& operator=(Held const& o) noexcept {
    v = o.v;
    return *this;
  }
  ~Held() { v = -1; }
};
static bool operator<(Held const& a, Held const& b) { return a.v < b.v; }
template <class T> T make(int i) { return T(i); }
template <> Wide make<Wide>(int i) { return Wide{{char(i)}}; }

static int h_cap;
static std::vector<int> h_ops;
static std::string story() {
  std::string s = strf("a ring of %d, operations", h_cap);
  for (int o : h_ops) s += strf(" %d", o);
  return s;
}
template <class T, bool = std::is_trivial<T>::value> struct Bulk {
  enum { N = 0 };
  static void go(circular_buffer_adapter<T>&, int) {}
};
template <class T> struct Bulk<T, true> {
  enum { N = 6 };
  static void go(circular_buffer_adapter<T>& a, int op) {
    static T buf[1100];
    std::size_t const all = a.size(), room = a.remaining();
    switch (op) {
    case 0: lib("copy_in_back", [&] { a.copy_in_back(buf, room); }); break;
    case 1: lib("copy_in_front", [&] { a.copy_in_front(buf, room - room / 2); }); break;
    case 2: lib("copy_out_front", [&] { a.copy_out_front(buf, all - all / 2); }); break;
    case 3: lib("copy_out_back", [&] { a.copy_out_back(buf, all); }); break;
    case 4: lib("copy_in", [&] { a.copy_in(a.begin(), a.end(), buf); }); break;
    case 5: lib("copy_out", [&] { a.copy_out(a.cbegin(), a.cend(), buf); }); break;
    }
  }
};
template <class T> struct Ring {
  typedef circular_buffer_adapter<T> A;
  enum { PLAIN = 14, N = PLAIN + Bulk<T>::N };
  static bool valid(A const& a, int op) {
    switch (op) {
    case 0: case 1: case 2: case 3: return !a.full();
    case 4: case 5: case 9: return !a.empty();
    default: return true;
    }
  }
  static void apply(A& a, int op) {
    T const v = make<T>(op);
    switch (op) {
    case 0: lib("push_back", [&] { a.push_back(v); }); break;
    case 1: lib("push_front", [&] { a.push_front(make<T>(7)); }); break;
    case 2: lib("emplace_back", [&] { keep(a.emplace_back(v)); }); break;
    case 3: lib("emplace_front", [&] { keep(a.emplace_front(v)); }); break;
    case 4: lib("pop_front", [&] { a.pop_front(); }); break;
    case 5: lib("pop_back", [&] { a.pop_back(); }); break;
    case 6: lib("pop_front(n)", [&] { a.pop_front(a.size() / 2); }); break;
    case 7: lib("pop_back(n)", [&] { a.pop_back(a.size() - a.size() / 2); }); break;
    case 8: lib("clear", [&] { a.clear(); }); break;
    case 9: lib("access", [&] {
        keep(a.front());
        keep(a.back());
        for (std::size_t i = 0; i < a.size(); ++i) keep(a[i]), keep(a.at(i));
        keep(a.raw_index(a.begin()));
      });
      break;
    case 10: lib("at", [&] { keep(a.at(a.size())); }, true); break;
    case 11: lib("iteration", [&] {
        for (auto i = a.begin(); i != a.end(); ++i) keep(*i);
        for (auto i = a.crbegin(); i != a.crend(); i++) keep(*i);
        for (typename A::difference_type i = 0; i < (typename A::difference_type)a.size(); ++i) keep(*(a.cbegin() + i)), keep(a.end() - i), keep(a.begin()[i]), keep(a.begin() + i < a.end());
        keep(a.end() - a.begin());
      });
      break;
    case 12: lib("algorithms", [&] {
        std::reverse(a.begin(), a.end());
        std::sort(a.begin(), a.end());
        std::rotate(a.begin(), a.begin() + a.size() / 2, a.end());
        keep(std::lower_bound(a.begin(), a.end(), v));
      });
      break;
    case 13: lib("move", [&] {
        A b(std::move(a));
        A c;
        c = std::move(b);
        a = std::move(c);
      });
      break;
    default: Bulk<T>::go(a, op - PLAIN);
    }
  }
  static void go(A& a, T* mem, std::size_t cap, int depth) {
    R().states++;
    if (!depth) {
      R().traces++;
      return;
    }
    std::size_t const first = a.empty() ? a.raw_index(a.end()) : a.raw_index(a.begin()), n = a.size();
    for (int op = 0; op < N; ++op) {
      if (!valid(a, op)) continue;
      alignas(T) char save[sizeof(T) * 8];
      memcpy(save, mem, sizeof(T) * cap);
      h_ops.push_back(op);
      A b;
      lib("construction", [&] { b = A(mem, cap, first, n); });
      apply(b, op);
      go(b, mem, cap, depth - 1);
      h_ops.pop_back();
      memcpy(static_cast<void*>(mem), save, sizeof(T) * cap);
    }
  }
  static void all(char const* name, int depth) {
    for (int cap = 1; cap <= 4; ++cap) {
      alignas(T) static char mem[sizeof(T) * 8];
      h_cap = cap;
      for (int first = 0; first < cap; ++first) {
        A a;
        lib("construction", [&] { a = A(reinterpret_cast<T*>(mem), cap, first, 0); });
        go(a, reinterpret_cast<T*>(mem), cap, depth);
      }
    }
    R().sample(strf("%s: every history of %d operations on rings up to 4", name, depth));
    // every operation from every state of a larger ring, and around its seams of a large one
    for (int cap : {7, 1023})
      for (int first = 0; first < cap; first += cap == 7 ? 1 : 146)
        for (int n = 0; n <= cap; n += cap == 7 ? 1 : 93)
          for (int op = 0; op < N; ++op) {
            alignas(T) static char mem[sizeof(T) * 1024];
            for (int i = 0; i < cap; ++i) new (mem + sizeof(T) * i) T(make<T>(i));
            h_cap = cap;
            h_ops.assign(1, op);
            A a(reinterpret_cast<T*>(mem), cap, first, n);
            if (valid(a, op)) apply(a, op);
            R().states++;
          }
    h_ops.clear();
  }
};
static void part(int more) {
  where = story;
  Ring<int>::all("int", 4 + more);
  Ring<unsigned char>::all("byte", 4 + more);
  Ring<Wide>::all("24 byte struct", 4 + more);
  Ring<Held>::all("non-trivial", 4 + more);
}
#elif PART == 1
// ------------------------------------------------------------ varints, locks, wrappers
using embedded::varint;
template <class T> static void ints() {
  unsigned char buf[64];
  typedef typename std::make_unsigned<T>::type U;
  for (int e = 0; e <= 8 * (int)sizeof(T); ++e)
    for (int d = -2; d <= 2; ++d)
      for (int neg = 0; neg < 2; ++neg) {
        U const u = U(U(e == 8 * (int)sizeof(T) ? 0 : U(1) << e) + U(d));
        T const v = T(neg ? U(0) - u : u);
        R().states++;
        for (int room = 0; room <= 20; ++room) {
          lib("encode", [&] { keep(varint::encode(v, buf, buf + room)); });
          T w;
          lib("decode", [&] { keep(varint::decode(w, buf, buf + room)); });
          R().traces++;
        }
        lib("size", [&] { keep(varint::size(v)); });
        lib("encode unchecked", [&] { keep(varint::encode(v, buf)); });
        std::vector<uint8_t> c;
        c.reserve(100);
        lib("encode back_insert", [&] { varint::encode(v, std::back_inserter(c)); });
      }
  for (int n = 0; n < 24; ++n)
    for (int b : {0x80, 0xff, 0x81}) {
      memset(buf, b, sizeof buf);
      buf[n] = 1;
      for (int room = 0; room < 26; ++room) {
        T w;
        lib("decode overlong", [&] { keep(varint::decode(w, buf, buf + room)); });
      }
    }
}
struct Mutex {
  int n = 0;
  void lock() { ++n; }
  void unlock() { --n; }
};
template <class T> static void wraps(T a, T b) {
  typedef embedded::move_wrapper<T> W;
  // all sequences of four copies and moves
  for (int ops = 0; ops < 4 * 4 * 4 * 4; ++ops) {
    alignas(W) char mem[2][sizeof(W)];
    T x(a), y(b);
    lib("wrap", [&] {
      new (mem[0]) W(std::move(x));
      new (mem[1]) W(std::move(y));
    });
    W* w[2] = {reinterpret_cast<W*>(mem[0]), reinterpret_cast<W*>(mem[1])};
    for (int k = 0, o = ops; k < 4; ++k, o /= 4) {
      W *from = w[o & 1], *to = w[1 - (o & 1)];
      lib("destruction", [&] { to->~W(); });
      if (o & 2) lib("copy", [&] { new (to) W(*const_cast<W const*>(from)); });
      else lib("move", [&] { new (to) W(std::move(*from)); });
      lib("access", [&] { keep(**to), keep(*const_cast<W const*>(to)->operator->()); });
      R().states++;
    }
    lib("destruction", [&] { w[0]->~W(), w[1]->~W(); });
    R().traces++;
  }
}
static void part(int) {
  ints<signed char>();
  ints<unsigned char>();
  ints<short>();
  ints<unsigned short>();
  ints<int>();
  ints<unsigned>();
  ints<long>();
  ints<unsigned long>();
  ints<long long>();
  ints<unsigned long long>();
  Mutex m;
  for (int depth = 1; depth < 6; ++depth)
    lib("lock_guard", [&] {
      for (int i = 0; i < depth; ++i) {
        embedded::lock_guard<Mutex> g(m);
        embedded::lock_guard<Mutex> h(m);
        keep(g);
      }
    });
  wraps<int>(1, 2);
  struct Big {
    char c[5000];
  };
  static Big big;
  wraps<Big>(big, big);
  std::function<int(int)> f([](int i) { return i; });
  wraps<std::function<int(int)>>(f, f);
  wraps<std::vector<int>>({}, {}); // elements that own nothing
}
#elif PART == 2
// ------------------------------------------------------------ function wrapper
template <std::size_t N> struct Load {
  char c[N];
  int operator()(int i) const { return i + c[0]; }
};
static int plain(int i) { return -i; }
struct Member {
  int v;
  int get(int) const { return v; }
};
struct Counted {
  static int live;
  int v;
  Counted(int x) noexcept : v(x) { ++live; }
  Counted(Counted&& o) noexcept : v(o.v) { ++live; }
  Counted(Counted const& o) : v(o.v) { ++live; }
  ~Counted() { --live; }
  int operator()(int i) const { return i + v; }
};
int Counted::live;
static std::vector<int> f_ops;
static std::size_t f_cap;
static std::string story() {
  std::string s = strf("functions of capacity %zu, operations", f_cap);
  for (int o : f_ops) s += strf(" %d", o);
  return s;
}
template <class S, std::size_t C, std::size_t A> struct Pair {
  typedef embedded::function<S, C, A> F;
  alignas(F) char mem[2][sizeof(F)];
  F* f[2];
  enum { N = 20 };
  Pair() {
    for (int i = 0; i < 2; ++i) lib("default construction", [&] { f[i] = new (mem[i]) F; });
  }
  ~Pair() {
    for (int i = 0; i < 2; ++i) lib("destruction", [&] { f[i]->~F(); });
  }
  void apply(int op) {
    int const i = op & 1;
    F &x = *f[i], &y = *f[1 - i];
    static Load<C> const full = {{1}};
    switch (op / 2) {
    case 0: lib("assignment of a function", [&] { x = plain; }); break;
    case 1: lib("assignment of a small object", [&] { x = Counted(3); }); break;
    case 2: lib("assignment of a full object", [&] { x = full; }); break;
    case 3: lib("assignment of null", [&] { x = nullptr; }); break;
    case 4: lib("move assignment", [&] { x = std::move(y); }); break;
    case 5: lib("construction by move", [&] {
        x.~F();
        new (&x) F(std::move(y));
      });
      break;
    case 6: lib("construction from an object", [&] {
        x.~F();
        new (&x) F(full);
      });
      break;
    case 7:
      if (i) lib("swap", [&] { std::swap(x, y); });
      else lib("self move", [&] { F& z = x; x = std::move(z); });
      break;
    case 8: lib("call", [&] { keep(x(5)); }, !x); break;
    case 9: lib("construction from null", [&] {
        x.~F();
        new (&x) F(nullptr);
        keep(bool(x));
      });
      break;
    }
  }
};
template <class S, std::size_t C, std::size_t A> static void histories(int depth) {
  typedef Pair<S, C, A> P;
  f_cap = C;
  long total = 1;
  for (int i = 0; i < depth; ++i) total *= P::N;
  std::vector<int> ops(depth);
  for (long n = 0; n < total; ++n) {
    long r = n;
    f_ops.clear();
    {
      P p;
      for (int i = 0; i < depth; ++i, r /= P::N) {
        f_ops.push_back(r % P::N);
        p.apply(r % P::N);
        R().states++;
      }
    }
    R().traces++;
  }
  R().sample(strf("every history of %d of %d operations on two functions of capacity %zu", depth, int(P::N), C));
}
static void part(int more) {
  where = story;
  histories<int(int), 24, 8>(4 + more);
  histories<int(int) const, 24, 8>(4 + more);
  histories<int(int), 8, 8>(4 + more);
  histories<int(int), 64, 16>(4 + more);
  histories<int(int) const, 3000, 8>(3 + more);
  histories<int(int), 70000, 8>(3 + more);
  // members
  Member m = {5};
  embedded::function<int(Member&, int)> g;
  lib("member function", [&] {
    g = &Member::get;
    keep(g(m, 1));
    embedded::function<int(Member&, int)> h(&Member::get);
    g = std::move(h);
    keep(g(m, 1));
    int (Member::*none)(int) const = nullptr;
    g = none;
  });
  embedded::function<int(Member&)> d;
  lib("data member", [&] {
    d = &Member::v;
    keep(d(m));
  });
}
#elif PART == 3
// ------------------------------------------------------------ mathematics
namespace cm = embedded::cmath;
template <class T> static T opaque(T x) {
  asm volatile("" : "+m"(x));
  return x;
}
template <class T, std::size_t N> struct Fill {
  T const* v;
  T operator()(std::size_t i) const { return v[i]; }
};
template <class T> struct Less {
  bool operator()(T const& a, T const& b) const { return a < b; }
  bool operator()(T const& a) const { return a < T(1); }
};
template <class T, std::size_t N> static void vec(std::vector<T> const& v) {
  T a[N + 1], b[N + 1];
  for (std::size_t i = 0; i < N; ++i) a[i] = v[i % v.size()], b[i] = v[(3 * i + 1) % v.size()];
  lib("vector", [&] {
    typedef cm::vector<T, N> V;
    V const x = cm::make_vector<T>(Fill<T, N>{a}, embedded::make_index_sequence<N>{}), y = cm::make_vector<T>(Fill<T, N>{b}, embedded::make_index_sequence<N>{});
    keep(-x);
    keep(a[0] * x);
    keep(x == y);
    keep(exp(x));
    keep(prod(x));
    keep(V::ones());
    keep(V::zeros());
    keep(x.append(y));
    keep(x.template subvector<N / 3, N / 2>());
    keep(cm::convolve_full(x, y));
    keep(cm::poly(x));
  });
}
template <class T, std::size_t N> static void ordered(std::vector<T> const& v) {
  T a[N + 1];
  for (std::size_t i = 0; i < N; ++i) a[i] = v[(5 * i + 2) % v.size()];
  lib("ordering", [&] {
    typedef cm::vector<T, N> V;
    V const x = cm::make_vector<T>(Fill<T, N>{a}, embedded::make_index_sequence<N>{});
    keep(x.sort(Less<T>()));
    keep(x.argmin(Less<T>()));
    keep(x.count(Less<T>()));
    keep(x.swap(0, N - 1));
    keep(x.template erase<0, 1>());
  });
}
template <class T> static void math() {
  std::vector<T> v;
  for (int i = -8; i <= 8; ++i) v.push_back(T(i) * T(0.37L));
  for (T e : {T(1e-30L), T(1e30L), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()}) v.push_back(e);
  std::vector<cm::complex<T>> c;
  for (T x : v) {
    T const a = opaque(x);
    R().states++;
    lib("functions", [&] {
      keep(cm::sin(a)), keep(cm::cos(a)), keep(cm::tan(a)), keep(cm::exp(a)), keep(cm::log(a)), keep(cm::sqrt(a)), keep(cm::sinh(a)), keep(cm::cosh(a)), keep(cm::tanh(a));
      keep(cm::asin(a)), keep(cm::acos(a)), keep(cm::atan(a)), keep(cm::asinh(a)), keep(cm::acosh(a)), keep(cm::atanh(a)), keep(cm::floor(a)), keep(cm::ceil(a)), keep(cm::abs(a));
      keep(cm::pow(a, T(2.5L))), keep(cm::pow(T(2), a)), keep(cm::pi<T>()), keep(cm::signbit(a)), keep(cm::round(a)), keep(cm::trunc(a)), keep(cm::tgamma(a)), keep(cm::lgamma(a)), keep(cm::erf(a));
    });
    for (T y : v) c.push_back(cm::complex<T>(x, y));
  }
  for (auto const& a : c)
    for (auto const& b : c) {
      R().states++;
      lib("complex", [&] {
        keep(a + b), keep(a - b), keep(a * b), keep(a / b), keep(a == b), keep(-a), keep(a / b.real()), keep(a.conj()), keep(a.norm()), keep(a.real() * b), keep(exp(a));
      });
    }
  vec<T, 1>(v);
  vec<T, 2>(v);
  vec<T, 3>(v);
  vec<T, 8>(v);
  vec<T, 25>(v);
  ordered<T, 1>(v);
  ordered<T, 2>(v);
  ordered<T, 7>(v);
  ordered<T, 16>(v);
  ordered<T, 40>(v);
  vec<cm::complex<T>, 1>(c);
  vec<cm::complex<T>, 6>(c);
  vec<cm::complex<T>, 17>(c);
  R().traces++;
}
static void part(int) {
  math<float>();
  math<double>();
  math<long double>();
}
#else
// ------------------------------------------------------------ filters
namespace es = embedded::signal;
template <class T> static T opaque(T x) {
  asm volatile("" : "+m"(x));
  return x;
}
template <class F> static void feed(F const& design) {
  auto i = design.instance();
  auto j = i;
  auto v = i(1);
  for (int k = 0; k < 50; ++k) v = i(v), keep(j(k));
  j = i;
  keep(j(1));
  keep(v);
}
template <class P, class F, class Fam> static void design(char const* what, Fam const& fam) {
  for (P fs : {P(1000), P(44100)})
    for (P r : {P(0.01L), P(0.2L), P(0.45L)})
      for (int hp = 0; hp < 2; ++hp) {
        P const f = opaque(P(fs * r));
        R().states++;
        R().traces++;
        lib(what, [&] {
          auto const b = es::iirfilter<P>(opaque(fs));
          auto const d = b.lowpass(fam, f);
          auto const h = b.highpass(fam, f);
          if (hp) {
            feed(h.template poly<F>());
            feed(h.template sos<F>());
            feed(h.template sos<F>(es::sos_gain::distribute));
          } else {
            feed(d.template poly<F>());
            feed(d.template sos<F>());
            feed(d.template sos<F>(es::sos_gain::distribute));
          }
        });
      }
}
template <class P, class F, std::size_t N> struct Orders {
  static void go() {
    design<P, F>("butterworth", es::butterworth<N>());
    design<P, F>("chebyshev1", es::chebyshev1<N, P>(opaque(P(1))));
    design<P, F>("chebyshev2", es::chebyshev2<N, P>(opaque(P(40))));
    design<P, F>("bessel", es::bessel<N>());
    Orders<P, F, N - 1>::go();
  }
};
template <class P, class F> struct Orders<P, F, 0> {
  static void go() {}
};
static void part(int more) {
  Orders<float, float, 7>::go();
  Orders<double, float, 5>::go();
  Orders<double, double, 10>::go();
  Orders<long double, long double, 8>::go();
  (void)more;
  design<double, double>("butterworth", es::butterworth<24>());
}
#endif

int main(int argc, char** argv) {
  init(argc, argv);
  // the monitor works
  allocations = frees = 0;
  armed = 1;
  int* volatile p = new int(3);
  delete p;
  void* volatile q = malloc(9);
  free(q);
  armed = 0;
  if (allocations != 2 || frees != 2) return 3;
  part(R().thorough ? 2 : 0);
  own_memory();
  R().distinct_n = R().states;
  R().finish();
}
