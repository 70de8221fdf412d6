// C01/C05: what a new element is made from: every way of pushing and emplacing x every
// category and number of arguments x every ring state up to a bound.  An element is made by
// the constructor that `T(arguments...)` selects (as in the standard's containers), exactly
// one, from the very objects given.
#include "verif.h"
#include <embedded/circular_buffer_adapter.h>
#include <initializer_list>
#include <memory>
#include <new>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
using namespace verif;
using embedded::circular_buffer_adapter;

enum How { DEFAULT, INT_L, INT_CL, INT_R, INT_CR, TWO, THREE, LIST, REC_L, REC_CL, REC_R, REC_CR, PIN, ARRAY, FUNCTION, CONV, NONE };
static const char* const names[] = {"no argument", "int&", "int const&", "int&&", "int const&&", "two ints", "three ints", "a list", "an lvalue", "a const lvalue",
                                    "an rvalue", "a const rvalue", "a pinned object", "an array", "a function", "an implicit conversion", "nothing"};
struct Pin { // can only be passed by reference
  Pin() {}
  Pin(Pin const&) = delete;
  Pin& operator=(Pin const&) = delete;
};
struct Conv {
  int v;
};
static int made;
static int fun(int x) { return x; }
struct Rec {
  How how;
  void const* from;
  int a, b, c;
  Rec* self;
  Rec() { set(DEFAULT, nullptr); }
  explicit Rec(int& x) { set(INT_L, &x), a = x; }
  explicit Rec(int const& x) { set(INT_CL, &x), a = x; }
  explicit Rec(int&& x) { set(INT_R, &x), a = x; }
  explicit Rec(int const&& x) { set(INT_CR, &x), a = x; }
  Rec(int x, int y) { set(TWO, nullptr), a = x, b = y; }
  explicit Rec(int x, int y, int z) { set(THREE, nullptr), a = x, b = y, c = z; }
  Rec(std::initializer_list<int> l) { set(LIST, nullptr), a = int(l.size()); }
  explicit Rec(Pin& p) { set(PIN, &p); }
  explicit Rec(int (&x)[3]) { set(ARRAY, &x), a = x[0], b = x[1], c = x[2]; }
  explicit Rec(int (&f)(int)) { set(FUNCTION, nullptr), a = f(5); }
  Rec(Conv const& x) { set(CONV, &x), a = x.v; }
  Rec(Rec& o) { copy(REC_L, o); }
  Rec(Rec const& o) { copy(REC_CL, o); }
  Rec(Rec&& o) {
    copy(REC_R, o);
    o.a = o.b = o.c = -1;
  }
  Rec(Rec const&& o) { copy(REC_CR, o); }
  ~Rec() { self = nullptr, how = NONE; }

 private:
  void set(How h, void const* f) { how = h, from = f, a = b = c = 0, self = this, ++made; }
  void copy(How h, Rec const& o) {
    set(h, &o);
    a = o.a, b = o.b, c = o.c;
  }
};
typedef circular_buffer_adapter<Rec> B;

static size_t g_cap, g_first, g_n;
static const char* g_op;
static void fmt(char* b, size_t s) { snprintf(b, s, "%s cap=%zu first=%zu size=%zu", g_op, g_cap, g_first, g_n); }

struct Ring {
  size_t cap, first, n;
  std::vector<unsigned char> raw;
  Rec* mem;
  B b;
  static Rec* prepare(std::vector<unsigned char>& raw, size_t cap, size_t first, size_t n) {
    raw.assign((cap + 1) * sizeof(Rec), 0xA5);
    std::uintptr_t p = reinterpret_cast<std::uintptr_t>(raw.data());
    p = (p + alignof(Rec) - 1) / alignof(Rec) * alignof(Rec);
    Rec* m = reinterpret_cast<Rec*>(p);
    for (size_t i = 0; i < n; ++i) ::new (static_cast<void*>(m + (first + i) % cap)) Rec(100 + int(i), int(i), 7);
    return m;
  }
  Ring(size_t c, size_t f, size_t k) : cap(c), first(f), n(k), mem(prepare(raw, c, f, k)), b(mem, c, f, k) {}
  ~Ring() { b.clear(); }
};

// one new element at one end, made from `how`; f performs the operation and returns the element
template <typename F> static void one(const char* op, bool back, How how, void const* from, int a, int b, int c, int made_exactly, F f) {
  for (size_t cap = 1; cap <= 4; ++cap)
    for (size_t first = 0; first < cap; ++first)
      for (size_t n = 0; n < cap; ++n) {
        g_cap = cap, g_first = first, g_n = n, g_op = op;
        crumb().what = "making an element";
        crumb().fmt = fmt;
        ++beat();
        ++R().evaluations;
        ++R().transitions;
        ++R().states;
        Ring r(cap, first, n);
        made = 0;
        Rec* e = f(r.b);
        std::string key = std::string(op) + (back ? " back" : " front") + ":" + names[how];
        Rec* want = r.mem + (back ? (first + n) % cap : (first + cap - 1) % cap);
        Rec* at = back ? std::addressof(r.b.back()) : std::addressof(r.b.front());
        if (at != want || (e && e != want)) {
          V_FAIL(key + ":place", "%s %s: the element is not where it should be, cap=%zu first=%zu size=%zu", op, back ? "back" : "front", cap, first, n);
          continue;
        }
        if (want->self != want || want->how != how || (from && want->from != from))
          V_FAIL(key, "%s %s with %s: the element was made from %s%s, cap=%zu first=%zu size=%zu", op, back ? "back" : "front", names[how], names[want->how],
                 want->how == how ? " (another object)" : "", cap, first, n);
        else if (want->a != a || want->b != b || want->c != c)
          V_FAIL(key + ":value", "%s %s with %s: the element is (%d, %d, %d), expected (%d, %d, %d)", op, back ? "back" : "front", names[how], want->a, want->b, want->c, a, b, c);
        if (made != made_exactly) V_FAIL(key + ":count", "%s %s with %s: %d objects were made, expected %d", op, back ? "back" : "front", names[how], made, made_exactly);
        if (r.b.size() != n + 1) V_FAIL(key + ":size", "%s: size %zu, expected %zu", op, r.b.size(), n + 1);
        for (size_t i = 0; i < n; ++i) {
          Rec& o = r.b[back ? i : i + 1];
          if (&o != r.mem + (first + i) % cap || o.self != &o || o.a != 100 + int(i) || o.b != int(i) || o.c != 7)
            V_FAIL(key + ":others", "%s %s changes another element", op, back ? "back" : "front");
        }
        R().distinct.insert(Hash().bytes(key.data(), key.size()).add(cap).add(first).add(n));
      }
}
#define EMPLACE(how, from, a, b, c, ...)                                                                                                                       \
  one("emplace", true, how, from, a, b, c, 1, [&](B& q) { return std::addressof(q.emplace_back(__VA_ARGS__)); });                                                           \
  one("emplace", false, how, from, a, b, c, 1, [&](B& q) { return std::addressof(q.emplace_front(__VA_ARGS__)); })
#define PUSH(how, from, a, b, c, cnt, ...)                                                                                                                     \
  one("push", true, how, from, a, b, c, cnt, [&](B& q) { q.push_back(__VA_ARGS__); return (Rec*)nullptr; });                                                    \
  one("push", false, how, from, a, b, c, cnt, [&](B& q) { q.push_front(__VA_ARGS__); return (Rec*)nullptr; })

static void unchanged(const char* what, Rec const& r, int a, int b, int c) {
  ++R().evaluations;
  if (r.a != a || r.b != b || r.c != c) V_FAIL(std::string("source changed:") + what, "%s changes what it copies from", what);
}

static void arguments() {
  int x = 41;
  int const y = 42;
  EMPLACE(DEFAULT, nullptr, 0, 0, 0);
  EMPLACE(INT_L, &x, 41, 0, 0, x);
  EMPLACE(INT_CL, &y, 42, 0, 0, y);
  EMPLACE(INT_R, &x, 41, 0, 0, std::move(x));
  EMPLACE(INT_CR, &y, 42, 0, 0, std::move(y));
  EMPLACE(INT_R, nullptr, 43, 0, 0, 43);
  EMPLACE(TWO, nullptr, 1, 2, 0, 1, 2);
  EMPLACE(TWO, nullptr, 41, 42, 0, x, y);
  EMPLACE(TWO, nullptr, 3, 4, 0, 3.75, 4L); // a conversion that a list would not allow
  EMPLACE(THREE, nullptr, 1, 2, 3, 1, 2, 3);
  std::initializer_list<int> l = {1, 2, 3, 4};
  EMPLACE(LIST, nullptr, 4, 0, 0, l);
  Pin pin;
  EMPLACE(PIN, &pin, 0, 0, 0, pin);
  int arr[3] = {7, 8, 9};
  EMPLACE(ARRAY, &arr, 7, 8, 9, arr);
  EMPLACE(FUNCTION, nullptr, 5, 0, 0, fun);
  Conv v = {17};
  EMPLACE(CONV, &v, 17, 0, 0, v);
  Rec src(5, 6, 7);
  Rec const csrc(8, 9, 10);
  EMPLACE(REC_L, &src, 5, 6, 7, src);
  unchanged("emplace of an lvalue", src, 5, 6, 7);
  EMPLACE(REC_CL, &csrc, 8, 9, 10, csrc);
  EMPLACE(REC_CR, &csrc, 8, 9, 10, std::move(csrc));
  unchanged("emplace of a constant", csrc, 8, 9, 10);
  one("emplace", true, REC_R, nullptr, 5, 6, 7, 2, [&](B& q) { Rec t(5, 6, 7); return std::addressof(q.emplace_back(std::move(t))); });
  one("emplace", false, REC_R, nullptr, 5, 6, 7, 2, [&](B& q) { Rec t(5, 6, 7); return std::addressof(q.emplace_front(std::move(t))); });
  // pushing
  PUSH(REC_CL, &src, 5, 6, 7, 1, src);
  unchanged("push of an lvalue", src, 5, 6, 7);
  PUSH(REC_CL, &csrc, 8, 9, 10, 1, csrc);
  PUSH(REC_CL, &csrc, 8, 9, 10, 1, std::move(csrc));
  unchanged("push of a constant", csrc, 8, 9, 10);
  PUSH(REC_R, nullptr, 5, 6, 7, 2, Rec(5, 6, 7));
  PUSH(REC_R, nullptr, 2, 0, 0, 2, {5, 6}); // a list of two
  PUSH(REC_R, nullptr, 17, 0, 0, 2, v);
  // a copy of an element that is in the buffer
  for (int back = 0; back < 2; ++back)
    for (int way = 0; way < 2; ++way)
      for (size_t cap = 2; cap <= 4; ++cap)
        for (size_t first = 0; first < cap; ++first)
          for (size_t n = 1; n < cap; ++n)
            for (size_t i = 0; i < n; ++i) {
              g_cap = cap, g_first = first, g_n = n, g_op = "a copy of an element";
              Ring r(cap, first, n);
              ++R().evaluations;
              Rec& e = r.b[i];
              Rec const& ce = e;
              if (way == 0) back ? r.b.push_back(e) : r.b.push_front(e);
              else back ? void(r.b.emplace_back(ce)) : void(r.b.emplace_front(ce));
              Rec& got = back ? r.b.back() : r.b.front();
              Rec& old = r.b[back ? i : i + 1];
              if (&old != &e || got.from != &e || got.a != 100 + int(i) || got.b != int(i) || e.a != 100 + int(i) || r.b.size() != n + 1)
                V_FAIL("copy of an element", "pushing a copy of element %zu goes wrong, cap=%zu first=%zu size=%zu", i, cap, first, n);
            }
}

// types whose initialisation with braces is something else, or nothing at all
struct Explicit {
  explicit Explicit(double d) : v(d) {}
  double v;
};
struct Amp { // whose address cannot be had by the operator
  int v;
  explicit Amp(int x) : v(x) {}
  void operator&() const {}
  friend void operator,(Amp const&, Amp const&) {}
};
template <typename T, typename Make, typename Is> static void type(const char* name, Make make, Is is) {
  for (size_t cap = 1; cap <= 3; ++cap)
    for (size_t first = 0; first < cap; ++first)
      for (int back = 0; back < 2; ++back) {
        g_cap = cap, g_first = first, g_n = 0, g_op = name;
        ++R().evaluations;
        typename std::aligned_storage<sizeof(T), alignof(T)>::type mem[3];
        circular_buffer_adapter<T> b(reinterpret_cast<T*>(mem), cap, first, 0);
        for (size_t k = 0; k < cap; ++k) {
          T& r = make(b, back != 0);
          if (!is(r) || b.size() != k + 1 || std::addressof(r) != std::addressof(back ? b.back() : b.front()))
            V_FAIL(std::string("type:") + name, "%s: the element is not what its arguments say", name);
        }
        b.clear();
      }
}
#define TYPE(T, is, ...)                                                                                                                                       \
  type<T>(                                                                                                                                                   \
      #T, [](circular_buffer_adapter<T>& b, bool back) -> T& { return back ? b.emplace_back(__VA_ARGS__) : b.emplace_front(__VA_ARGS__); },                      \
      [](T const& r) { return is; })
typedef std::pair<int, std::string> P;
typedef std::vector<int> V;
typedef std::unique_ptr<int> U;
typedef void const* Ptr;
typedef std::tuple<int, double> T2;

int main(int argc, char** argv) {
  verif::init(argc, argv);
  arguments();
  TYPE(V, r.size() == 3 && r[0] == 1, 3, 1);
  TYPE(std::string, r == "xxx", 3, 'x');
  TYPE(std::string, r == "ab", "abc", 2);
  TYPE(std::string, r.empty(), );
  TYPE(int, r == 3, 3.75);
  TYPE(int, r == 0, );
  TYPE(unsigned char, r == 44, 300);
  TYPE(double, r == 2, 2);
  TYPE(float, r == 0.5f, 0.5L);
  TYPE(Explicit, r.v == 2, 2);
  TYPE(P, r.first == 4 && r.second == "abc", 4, "abc");
  TYPE(P, r.first == 4 && r.second == "yy", std::piecewise_construct, std::forward_as_tuple(4), std::forward_as_tuple(2, 'y'));
  TYPE(T2, std::get<0>(r) == 1 && std::get<1>(r) == 2, 1, 2);
  TYPE(U, *r == 9, new int(9));
  TYPE(U, !r, nullptr);
  TYPE(Ptr, r == names, names);
  TYPE(Amp, r.v == 6, 6);
  R().sample("emplace of two numbers into every ring of up to 4 slots");
  R().finish();
}
