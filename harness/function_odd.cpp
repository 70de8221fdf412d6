// C10/C11/C12: unusual callables.  What a wrapper holds is an object of a class the user
// wrote; whatever operators, conversions and constructors that class has besides its call
// operator, the wrapper makes it in its own storage by the constructor that the object it is
// given selects, moves it by its move constructor, calls it, and destroys it.  Kinds of
// callables x signatures x every history of operations up to a depth on two wrappers.
#include "verif.h"
#include <cstdlib>
#include <embedded/function.h>
#include <initializer_list>
#include <new>
#include <type_traits>
#include <utility>
using namespace verif;
#ifndef MOVES
#define MOVES 0 // whether the number of moves matters
#endif

// ------------------------------------------------------------------ instrumented content
enum By { VALUE, FROM_L, FROM_CL, FROM_R, FROM_CR };
struct Core {
  int val;
  By by;
  Core const* self;
  static int live, calls, bad, moves;
  explicit Core(int v) : val(v), by(VALUE), self(this) { ++live; }
  Core(Core& o, By b) : val(o.val), by(b), self(this) {
    ++live;
    bad += o.self != &o;
    if (b == FROM_R) o.val = -1, ++moves;
  }
  Core(Core const&) = delete;
  ~Core() {
    --live;
    bad += self != this;
    self = nullptr;
    val = -2;
  }
  int call(int x) const {
    ++calls;
    bad += self != this;
    return val * 100 + x;
  }
};
int Core::live, Core::calls, Core::bad, Core::moves;
static int forbidden; // functions of the callable that nobody should have called

#define BODY(K, KEY)                                           \
  Core core;                                                   \
  KEY K(int v) : core(v) {}                                    \
  KEY K(K& o) : core(o.core, FROM_L) {}                        \
  KEY K(K const& o) : core(const_cast<Core&>(o.core), FROM_CL) {} \
  KEY K(K&& o) noexcept : core(o.core, FROM_R) {}              \
  KEY K(K const&& o) : core(const_cast<Core&>(o.core), FROM_CR) {} \
  K& operator=(K const&) = delete;
#define CALL int operator()(int x) const { return core.call(x); }

struct Plain {
  BODY(Plain, )
  CALL
};
struct Explicit {
  BODY(Explicit, explicit)
  CALL
};
struct NoNew { // lives on the stack or in a wrapper only
  BODY(NoNew, )
  CALL
  static void* operator new(std::size_t) = delete;
  static void* operator new(std::size_t, void*) = delete;
  static void* operator new[](std::size_t) = delete;
  static void operator delete(void*) = delete;
};
struct OwnNew { // has its own idea of where objects go
  BODY(OwnNew, )
  CALL
  static void* operator new(std::size_t n) {
    ++forbidden;
    return std::malloc(n);
  }
  static void* operator new(std::size_t n, void*) {
    ++forbidden;
    return std::malloc(n + 64);
  }
  static void operator delete(void*) { ++forbidden; }
};
struct NoAddress {
  BODY(NoAddress, )
  CALL
  void operator&() const = delete;
};
struct OtherAddress {
  BODY(OtherAddress, )
  CALL
  static int other;
  OtherAddress* operator&() {
    ++forbidden;
    return reinterpret_cast<OtherAddress*>(&other);
  }
  OtherAddress const* operator&() const {
    ++forbidden;
    return nullptr;
  }
};
int OtherAddress::other;
struct Falsish { // an object is a target, whatever it compares equal to
  BODY(Falsish, )
  CALL
  operator bool() const {
    ++forbidden;
    return false;
  }
  bool operator!() const {
    ++forbidden;
    return true;
  }
  friend bool operator==(Falsish const&, std::nullptr_t) {
    ++forbidden;
    return true;
  }
  friend bool operator!=(Falsish const&, std::nullptr_t) {
    ++forbidden;
    return false;
  }
};
static int wrong(int) {
  ++forbidden;
  return 0;
}
struct ToPointer { // converts to a function that is not the one it calls
  BODY(ToPointer, )
  CALL
  typedef int (*fp)(int);
  operator fp() const { return wrong; }
};
struct Final final {
  BODY(Final, )
  CALL
};
struct Abstract {
  virtual int operator()(int x) const = 0;
  virtual ~Abstract() {}
};
struct Virtual : Abstract {
  BODY(Virtual, )
  int operator()(int x) const override { return core.call(x); }
};
struct VBase {
  int pad = 3;
};
struct VirtualBase : virtual VBase {
  BODY(VirtualBase, )
  int operator()(int x) const { return pad == 3 ? core.call(x) : -9; }
};
class Private : Plain {
 public:
  Private(int v) : Plain(v) {}
  Private(Private& o) : Plain(static_cast<Plain&>(o)) {}
  Private(Private const& o) : Plain(static_cast<Plain const&>(o)) {}
  Private(Private&& o) noexcept : Plain(static_cast<Plain&&>(o)) {}
  Private(Private const&& o) : Plain(static_cast<Plain const&&>(o)) {}
  using Plain::core;
  using Plain::operator();
};
union Union {
  BODY(Union, )
  ~Union() { core.~Core(); }
  CALL
};
struct Lists { // braces would mean something else
  BODY(Lists, )
  template <typename T> Lists(std::initializer_list<T>) : core(77) { ++forbidden; }
  Lists(std::initializer_list<Lists>) : core(78) { ++forbidden; }
  CALL
};
struct Members { // cannot be assigned
  BODY(Members, )
  const int k = 4;
  int const& r = fixed;
  static const int fixed;
  int operator()(int x) const { return k == 4 && r == 6 ? core.call(x) : -9; }
};
const int Members::fixed = 6;
struct Greedy { // can be made from anything
  BODY(Greedy, )
  template <typename T> explicit Greedy(T const&) : core(79) { ++forbidden; }
  CALL
};
struct Overloaded { // the signature decides
  BODY(Overloaded, )
  CALL
  int operator()(char*) const { return -9; }
  int operator()() const { return -9; }
  int operator()(int, int) const { return -9; }
  int operator()(Plain const&) const { return -9; }
};
struct Defaults {
  BODY(Defaults, )
  int operator()(int x, int y = 5, int z = 6) const { return y == 5 && z == 6 ? core.call(x) : -9; }
};
struct Variadic {
  BODY(Variadic, )
  int operator()(int x, ...) const { return core.call(x); }
};
struct Generic {
  BODY(Generic, )
  template <typename... A> int operator()(A&&... a) const {
    static_assert(sizeof...(A) == 1, "one argument");
    return core.call(int(a)...);
  }
};
struct Operators { // everything else that can be overloaded
  BODY(Operators, )
  CALL
#define BAD(op)                                                                     \
  template <typename T> friend int operator op(Operators const&, T const&) {        \
    ++forbidden;                                                                    \
    return 0;                                                                       \
  }
  BAD(==) BAD(!=) BAD(<) BAD(->*) BAD(&&) BAD(||)
#undef BAD
  int operator*() const { return ++forbidden; }
  int operator->() const { return ++forbidden; }
  int operator[](int) const { return ++forbidden; }
  template <typename T> Operators& operator=(T&&) {
    ++forbidden;
    return *this;
  }
};
struct Nodiscard { // result types that are more than a number
  int v;
  explicit operator bool() const { return false; }
  operator int() const { return v; }
};
struct Comma { // a result that overloads the comma operator
  int v;
  operator int() const { return v; }
  template <typename T> friend int operator,(Comma const&, T&&) {
    ++forbidden;
    return -7;
  }
  template <typename T> friend int operator,(T&&, Comma const&) {
    ++forbidden;
    return -7;
  }
  friend void operator,(Comma const&, int) { ++forbidden; }
  Comma* operator&() {
    ++forbidden;
    return nullptr;
  }
};
struct CommaResult {
  BODY(CommaResult, )
  Comma operator()(int x) const { return Comma{core.call(x)}; }
};
struct Wide { // a reference to something abstract as the result
  BODY(Wide, )
  struct Num {
    virtual operator int() const = 0;
    Num() {}
    Num(Num const&) = delete;
  };
  struct NumI : Num {
    int v = 0;
    operator int() const override { return v; }
  };
  mutable NumI n;
  Num& operator()(int x) const {
    n.v = core.call(x);
    return n;
  }
};
// two call operators; the one for the constness of the signature is called
struct Both {
  BODY(Both, )
  int operator()(int x) { return core.call(x) + 50; }
  int operator()(int x) const { return core.call(x); }
};

// no members, but it is counted
struct Stateless {
  Stateless(int) { ++Core::live; }
  Stateless(Stateless const&) { ++Core::live; }
  Stateless(Stateless&&) noexcept { ++Core::live, ++Core::moves; }
  ~Stateless() { --Core::live; }
  int operator()(int x) const {
    ++Core::calls;
    return x;
  }
};
static_assert(std::is_empty<Stateless>::value, "no members");
struct StatelessVirtual : Abstract { // nothing but a pointer to its functions
  StatelessVirtual(int) { ++Core::live; }
  StatelessVirtual(StatelessVirtual const&) : Abstract() { ++Core::live; }
  StatelessVirtual(StatelessVirtual&&) noexcept : Abstract() { ++Core::live, ++Core::moves; }
  ~StatelessVirtual() override { --Core::live; }
  int operator()(int x) const override {
    ++Core::calls;
    return x;
  }
};
template <typename K> struct Value {
  static int of(K const& k) { return k.core.val; }
  static constexpr bool has = true;
};
template <> struct Value<Stateless> {
  static int of(Stateless const&) { return 0; }
  static constexpr bool has = false;
};
template <> struct Value<StatelessVirtual> {
  static int of(StatelessVirtual const&) { return 0; }
  static constexpr bool has = false;
};

// ------------------------------------------------------------------------- arguments
struct Arg { // an argument with operators of its own
  int v;
  operator int() const { return v; }
  Arg* operator&() {
    ++forbidden;
    return nullptr;
  }
  template <typename T> friend int operator,(Arg const&, T&&) {
    ++forbidden;
    return -7;
  }
  static void* operator new(std::size_t, void*) = delete;
};
static int last;

template <typename Sig> struct Sg;
template <typename R, typename A> struct Sg<R(A)> {
  static constexpr int extra = 50;
};
template <typename R, typename A> struct Sg<R(A) const> {
  static constexpr int extra = 0;
};
template <typename R, typename F> struct Do {
  template <typename A> static int it(F& f, A&& a) { return int(f(std::forward<A>(a))); }
};
template <typename F> struct Do<void, F> {
  template <typename A> static int it(F& f, A&& a) {
    f(std::forward<A>(a));
    return last;
  }
};
// a void signature is observed by way of Core::calls only
template <typename K> struct Extra {
  template <typename S> static int of() { return 0; }
};
template <> struct Extra<Both> {
  template <typename S> static int of() { return Sg<S>::extra; }
};

// ----------------------------------------------------------------------- exploration
struct Slot {
  bool has;
  int val;
};
template <typename K, typename Sig, typename R> struct Run {
  typedef embedded::function<Sig, 64, alignof(std::max_align_t)> F;
  const char* name;
  alignas(F) unsigned char mem[2][sizeof(F)];
  F* f[2];
  Slot m[2];
  int ops[8], n;

  void fail(const char* what, int a, int b) {
    char h[64];
    int p = 0;
    for (int i = 0; i < n; ++i) p += snprintf(h + p, sizeof h - p, "%d ", ops[i]);
    V_FAIL(strf("odd:%s", name), "%s, operations %s: %s (%d, expected %d)", name, h, what, a, b);
  }
  void check() {
    ++R_().states;
    int want = m[0].has + m[1].has;
    if (Core::live != want) fail("objects alive", Core::live, want);
    for (int i = 0; i < 2; ++i) {
      if (bool(*f[i]) != m[i].has) fail("bool", bool(*f[i]), m[i].has);
      if (!m[i].has) continue;
      Core::calls = 0;
      last = -1;
      Arg arg{7};
      int r = call(*f[i], arg);
      if (Core::calls != 1) fail("calls of the target", Core::calls, 1);
      int e = (Value<K>::has ? m[i].val * 100 : 0) + 7 + Extra<K>::template of<Sig>();
      if (!std::is_void<R>::value && r != e) fail("result", r, e);
    }
    if (Core::bad) fail("an object that is not where it was made", Core::bad, 0);
    if (forbidden) fail("a function of the callable that does not matter was called", forbidden, 0);
  }
  static Report& R_() { return verif::R(); }
  int call(F& g, Arg& a) { return Do<R, F>::it(g, a); }

  // how the target of a wrapper was made, seen through the raw storage, is not asked for:
  // the source tells (an rvalue is moved from, everything else keeps its value)
  void source(K const& k, int val, bool moved) {
    if (!Value<K>::has) return;
    int v = Value<K>::of(k);
    if (v != (moved ? -1 : val)) fail("value of the object it was made from", v, moved ? -1 : val);
  }
  template <typename A> void construct(int i, A&& k, int val) {
    int before = Core::live;
    bool had = m[i].has;
    f[i]->~F();
    f[i] = ::new (mem[i]) F(std::forward<A>(k));
    if (Core::live != before - had + 1) fail("objects made", Core::live - before + had, 1);
    m[i] = Slot{true, val};
  }
  void step(int op) {
    int v = n + 1;
    ++R_().transitions;
    switch (op) {
    case 1: {
      K k(v);
      construct(0, k, v);
      source(k, v, false);
      break;
    }
    case 2: {
      K k(v);
      construct(0, std::move(k), v);
      source(k, v, true);
      break;
    }
    case 3: {
      const K k(v);
      construct(0, k, v);
      source(k, v, false);
      break;
    }
    case 4: {
      const K k(v);
      construct(0, std::move(k), v);
      source(k, v, false);
      break;
    }
    case 5: {
      K k(v);
      *f[1] = F(k);
      source(k, v, false);
      m[1] = Slot{true, v};
      break;
    }
    case 6: {
      K k(v);
      *f[0] = std::move(k);
      source(k, v, true);
      m[0] = Slot{true, v};
      break;
    }
    case 7:
      Core::moves = 0;
      *f[1] = std::move(*f[0]);
      if (MOVES && Core::moves != m[0].has) fail("moves of the target by one assignment", Core::moves, m[0].has);
      m[1] = m[0];
      m[0].has = false;
      break;
    case 8: {
      Core::moves = 0;
      F g(std::move(*f[1]));
      if (MOVES && Core::moves != m[1].has) fail("moves of the target by one move", Core::moves, m[1].has);
      if (bool(g) != m[1].has) fail("bool of a new wrapper", bool(g), m[1].has);
      m[1].has = false;
      Core::calls = 0;
      m[0].has = m[0].has; // g is destroyed with its target
      break;
    }
    case 9: {
      std::swap(*f[0], *f[1]);
      std::swap(m[0], m[1]);
      break;
    }
    case 10:
      *f[0] = nullptr;
      m[0].has = false;
      break;
    }
  }
  void history(int depth) {
    int total = 1;
    for (int i = 0; i < depth; ++i) total *= 10;
    Crumb& cr = crumb();
    cr.what = name;
    cr.n = 8;
    for (int c = 0; c < total; ++c) {
      ++beat();
      int x = c;
      f[0] = ::new (mem[0]) F();
      f[1] = ::new (mem[1]) F();
      m[0].has = m[1].has = false;
      n = 0;
      Core::bad = forbidden = 0;
      for (int i = 0; i < depth; ++i, x /= 10) {
        int op = 1 + x % 10;
        ops[n] = op;
        cr.v[i] = op;
        ++n;
        step(op);
        check();
      }
      f[0]->~F();
      f[1]->~F();
      if (Core::live) fail("objects alive at the end", Core::live, 0), Core::live = 0;
      if (Core::bad) fail("an object that is not where it was made", Core::bad, 0);
      if (forbidden) fail("a function of the callable that does not matter was called", forbidden, 0);
      ++R_().evaluations;
      ++R_().traces;
      ++R_().distinct_n;
    }
    R_().sample(strf("%s: every history of %d operations on two wrappers", name, depth));
  }
};
static int depth;
template <typename K> void kind(const char* name) {
  char buf[4][128];
  snprintf(buf[0], 128, "%s, int(Arg&)", name);
  snprintf(buf[1], 128, "%s, int(Arg&) const", name);
  snprintf(buf[2], 128, "%s, void(Arg&)", name);
  snprintf(buf[3], 128, "%s, void(Arg const&) const", name);
  {
    Run<K, int(Arg&), int> r;
    r.name = buf[0];
    r.history(depth);
  }
  {
    Run<K, int(Arg&) const, int> r;
    r.name = buf[1];
    r.history(depth);
  }
  {
    Run<K, void(Arg&), void> r;
    r.name = buf[2];
    r.history(depth);
  }
  {
    Run<K, void(Arg const&) const, void> r;
    r.name = buf[3];
    r.history(depth);
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  depth = R().thorough ? 5 : 4;
#define KIND(K) kind<K>(#K);
  KIND(Plain) KIND(Explicit) KIND(NoNew) KIND(OwnNew) KIND(NoAddress) KIND(OtherAddress) KIND(Falsish) KIND(ToPointer) KIND(Final)
  KIND(Virtual) KIND(VirtualBase) KIND(Private) KIND(Union) KIND(Lists) KIND(Members) KIND(Greedy) KIND(Overloaded) KIND(Defaults)
  KIND(Variadic) KIND(Generic) KIND(Operators) KIND(CommaResult) KIND(Wide) KIND(Both) KIND(Stateless) KIND(StatelessVirtual)
  R().finish();
}
