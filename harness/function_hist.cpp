// C10/C11: all histories over a set of real function wrappers.
// -DPROP=10|11 -DCAP=.. -DALIGN=.. -DCONSTSIG=0|1 -DNW=<wrappers>
#include "verif.h"
#include <deque>
#include <embedded/function.h>
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <unordered_map>
#include <utility>
using namespace verif;

#if CONSTSIG
#define CQ const
#else
#define CQ
#endif

// ------------------------------------------------------------- alloc monitor
static volatile int in_lib = 0;
static long lib_allocs = 0;
void* operator new(size_t n) {
  if (in_lib) ++lib_allocs;
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void operator delete(void* p) noexcept {
  if (in_lib) ++lib_allocs;
  free(p);
}
void operator delete(void* p, size_t) noexcept {
  if (in_lib) ++lib_allocs;
  free(p);
}

// --------------------------------------------------------- what targets see
struct Boom {
  int id;
};
struct Obj { // the argument: the target reports back through it
  int hit = -1, calls = 0;
  void const* self = nullptr;
  bool was_const = false;
  bool throw_now = false;
  int field = 4711;
  int method() {
    hit = 1000;
    ++calls;
    return 321;
  }
  int method_c() const { return 654; }
};

struct Registry {
  struct Live {
    int kind;
    size_t align, size;
  };
  std::unordered_map<void const*, Live> live;
  long copies = 0, moves = 0, born = 0, died = 0;
  std::string error;
  void birth(void const* p, int kind, size_t align, size_t size) {
    int l = in_lib;
    in_lib = 0;
    if (live.count(p)) error = "a callable was created on top of a living one";
    live[p] = Live{kind, align, size};
    ++born;
    in_lib = l;
  }
  void death(void const* p) {
    int l = in_lib;
    in_lib = 0;
    if (!live.erase(p)) error = "something that is not a living callable was destroyed";
    ++died;
    in_lib = l;
  }
  void use(void const* p, const char* how) {
    int l = in_lib;
    in_lib = 0;
    if (!live.count(p)) error = std::string("something that is not a living callable was ") + how;
    in_lib = l;
  }
};
static Registry reg;

// a tracked callable of given size and alignment
template <int Kind, size_t Size, size_t Align, bool Copyable, bool Tracks = true> struct Target {
  alignas(Align) unsigned char raw[Size];
  // layout inside raw: [0]=id [1]=counter, the rest a pattern that has to survive
  static constexpr int kind = Kind;
  static constexpr bool copyable = Copyable;
  unsigned char pat(size_t i) const { return (unsigned char)(raw[0] * 7 + i * 31 + Kind); }
  explicit Target(int id) {
    static_assert(sizeof(Target) == Size && alignof(Target) == Align, "layout");
    raw[0] = (unsigned char)id;
    if (Size > 1) raw[1] = 0;
    for (size_t i = 2; i < Size; ++i) raw[i] = pat(i);
    reg.birth(this, Kind, Align, Size);
  }
  // a type that can be made from a list of itself must not be wrapped up in such a list
  Target(std::initializer_list<Target> l) : Target(0xff) {
    reg.error = "a callable was built from a list of callables";
    (void)l;
  }
  Target(Target&& o) noexcept {
    reg.use(&o, "moved from");
    memcpy(raw, o.raw, Size);
    ++reg.moves;
    reg.birth(this, Kind, Align, Size);
    for (size_t i = 2; i < Size; ++i) o.raw[i] = 0xEE;
    o.raw[0] = 0xEE;
  }
  Target(typename std::conditional<Copyable, Target, std::pair<Target*, Target*>>::type const& o) { init(o); }
  void init(Target const& o) {
    reg.use(&o, "copied from");
    memcpy(raw, o.raw, Size);
    ++reg.copies;
    reg.birth(this, Kind, Align, Size);
  }
  void init(std::pair<Target*, Target*> const&) {}
  Target& operator=(Target const&) = delete;
  ~Target() {
    reg.death(this);
    memset(raw, 0xDD, Size);
  }
  int hit(Obj& o, bool c) const {
    reg.use(this, "called");
    for (size_t i = 2; i < Size; ++i)
      if (raw[i] != pat(i)) reg.error = "the contents of a callable changed";
    o.hit = raw[0];
    o.self = this;
    o.was_const = c;
    ++o.calls;
#if LIBEMB_HAS_EXCEPTIONS
    if (o.throw_now) throw Boom{raw[0]};
#endif
    return 0;
  }
  int operator()(Obj& o) {
    hit(o, false);
    if (Size > 1) ++raw[1];
    return raw[0] * 1000 + (Size > 1 ? raw[1] : 0);
  }
  int operator()(Obj& o) const {
    hit(o, true);
    if (Size > 1) ++const_cast<Target*>(this)->raw[1];
    return raw[0] * 1000 + (Size > 1 ? raw[1] : 0);
  }
};
template <int Kind, size_t Size, size_t Align> struct MoTarget : Target<Kind, Size, Align, false> {
  typedef Target<Kind, Size, Align, false> B;
  explicit MoTarget(int id) : B(id) {}
  MoTarget(MoTarget&& o) noexcept : B(std::move(static_cast<B&>(o))) {}
  MoTarget(MoTarget const&) = delete;
};
// trivial callable without tracking, so that trivially copyable targets are seen as well
struct Trivial {
  unsigned char id, n;
  int operator()(Obj& o) {
    o.hit = id;
    o.self = this;
    o.was_const = false;
    ++o.calls;
#if LIBEMB_HAS_EXCEPTIONS
    if (o.throw_now) throw Boom{id};
#endif
    ++n;
    return id * 1000 + n;
  }
  int operator()(Obj& o) const {
    Trivial* t = const_cast<Trivial*>(this);
    int r = (*t)(o);
    o.was_const = true;
    return r;
  }
};
static int free_function(Obj& o) {
  o.hit = 1001;
  ++o.calls;
#if LIBEMB_HAS_EXCEPTIONS
  if (o.throw_now) throw Boom{1001};
#endif
  return 777;
}

typedef embedded::function<int(Obj&) CQ, CAP, ALIGN> Fn;
static_assert(std::is_nothrow_move_constructible<Fn>::value && std::is_nothrow_move_assignable<Fn>::value &&
                  std::is_nothrow_default_constructible<Fn>::value && !std::is_copy_constructible<Fn>::value &&
                  !std::is_copy_assignable<Fn>::value && !std::is_convertible<Fn, bool>::value,
              "what a wrapper can do");

typedef Target<0, 2, 1, true> Small;
typedef Target<1, CAP, 1, true> Full;            // fills the capacity completely
typedef MoTarget<2, 2, 1> Mo;                    // move-only
typedef Target<3, (CAP >= ALIGN ? ALIGN : 1), (CAP >= ALIGN ? ALIGN : 1), true> Al; // as strictly aligned as allowed
template <typename T> struct Fits {
  static constexpr bool value = sizeof(T) <= CAP && ALIGN % alignof(T) == 0;
};

enum Kind { K_SMALL, K_FULL, K_MO, K_AL, K_TRIVIAL, K_FREE, K_MEM, K_MEMC, K_DATA, NKINDS };
static const char* const kind_names[] = {"tracked",       "capacity-filling", "move-only",           "over-aligned", "trivial",
                                         "free function", "member function",  "const member function", "data member"};
enum OpCode { CALL, CALL_THROW, ASSIGN_R, ASSIGN_L, CONSTRUCT, CONSTRUCT_L, NULLPTR, NULL_MEM, NULL_DATA, NEW_EMPTY, NEW_NULL, NEW_NULL_MEM,
              MOVE_ASSIGN, MOVE_CONSTRUCT, SELF_MOVE, SWAP, NOPS };
static const char* const op_names[] = {"call", "call, target throws", "= rvalue", "= lvalue", "construct from rvalue", "construct from lvalue",
                                       "= nullptr", "= null member function pointer", "= null data member pointer",
                                       "destroy and default construct", "destroy and construct from nullptr",
                                       "destroy and construct from null member pointer", "move-assign from",
                                       "destroy and move-construct from", "move-assign to itself", "swap with"};
struct Op {
  unsigned char code, w, a, b;
};
typedef std::vector<Op> History;
static std::string show(History const& h) {
  std::string s;
  for (auto& o : h) {
    s += strf("w%d %s", o.w, op_names[o.code]);
    if (o.code >= ASSIGN_R && o.code <= CONSTRUCT_L) s += strf(" [%s #%d]", kind_names[o.a], o.b);
    if (o.code == MOVE_ASSIGN || o.code == MOVE_CONSTRUCT || o.code == SWAP) s += strf(" w%d", o.a);
    s += "; ";
  }
  s += "replay: VERIF_HISTORY='";
  for (auto& o : h) s += strf("%d,%d,%d,%d;", o.code, o.w, o.a, o.b);
  return s + "'";
}

// reference: what a wrapper holds
struct Cell {
  int kind = -1, id = 0, n = 0;
  bool operator==(Cell const& o) const { return kind == o.kind && (kind < 0 || (id == o.id && n == o.n)); }
};
static bool tracked(int k) { return k == K_SMALL || k == K_FULL || k == K_MO || k == K_AL; }

#if PROP == 10
#define FUNC_FAIL(...) V_FAIL(__VA_ARGS__)
#define LIFE_FAIL(...) ((void)0)
#else
#define FUNC_FAIL(...) ((void)0)
#define LIFE_FAIL(...) V_FAIL(__VA_ARGS__)
#endif

struct World {
  // wrappers at the minimum alignment, with filling in between that must not change
  struct alignas(alignof(Fn)) Slot {
    unsigned char mem[sizeof(Fn)];
    unsigned char guard[alignof(Fn)];
  };
  Slot slot[NW];
  Cell cell[NW];
  History const* h;
  bool bad = false;

  Fn& f(int i) { return *reinterpret_cast<Fn*>(slot[i].mem); }
  explicit World(History const* hh) : h(hh) {
    reg.error.clear();
    reg.live.clear();
    for (int i = 0; i < NW; ++i) {
      memset(slot[i].mem, 0xC3, sizeof slot[i].mem);
      memset(slot[i].guard, 0xC3, sizeof slot[i].guard);
      ++in_lib;
      new (slot[i].mem) Fn();
      --in_lib;
    }
  }
  std::string hist() const { return show(*h); }

  template <typename T> static typename std::enable_if<Fits<T>::value>::type place(int mode, Fn* f, T&& t) {
    ++in_lib;
    if (mode == ASSIGN_R)
      *f = std::forward<T>(t);
    else {
      f->~Fn();
      new (f) Fn(std::forward<T>(t));
    }
    --in_lib;
  }
  template <typename T> static typename std::enable_if<!Fits<T>::value>::type place(int, Fn*, T&&) {}
  template <typename T> static typename std::enable_if<Fits<T>::value>::type place_l(int mode, Fn* f, T& t) {
    ++in_lib;
    if (mode == ASSIGN_L)
      *f = t;
    else {
      f->~Fn();
      new (f) Fn(t);
    }
    --in_lib;
  }
  template <typename T> static typename std::enable_if<!Fits<T>::value>::type place_l(int, Fn*, T&) {}

  template <typename T> void put(Op const& o) {
    Fn* d = &f(o.w);
    long copies = reg.copies;
    {
      T t(10 * o.a + o.b);
      place(o.code == ASSIGN_R ? ASSIGN_R : CONSTRUCT, d, std::move(t));
    }
    if (reg.copies != copies)
      LIFE_FAIL("copied-rvalue", "a callable given as an rvalue was copied: %s", hist().c_str());
  }
  template <typename T> void put_l(Op const& o) {
    Fn* d = &f(o.w);
    long copies = reg.copies;
    {
      T t(10 * o.a + o.b);
      place_l(o.code, d, t);
      if (t.raw[0] != 10 * o.a + o.b) LIFE_FAIL("moved-from-lvalue", "a callable given as an lvalue was changed: %s", hist().c_str());
    }
    if (reg.copies != copies + 1)
      LIFE_FAIL("copies", "a callable given as an lvalue was copied %ld times: %s", reg.copies - copies, hist().c_str());
  }
  template <typename P> static typename std::enable_if<Fits<decltype(std::mem_fn(P()))>::value>::type put_mem(int mode, Fn* f, P p) {
    ++in_lib;
    if (mode == ASSIGN_R)
      *f = p;
    else {
      f->~Fn();
      new (f) Fn(p);
    }
    --in_lib;
  }
  template <typename P> static typename std::enable_if<!Fits<decltype(std::mem_fn(P()))>::value>::type put_mem(int, Fn*, P) {}

  void call(int w, bool thr) {
    Cell& c = cell[w];
    Obj o;
    o.throw_now = thr;
    enum { RETURNED, BAD, BOOM, OTHER } got = RETURNED;
    int ret = 0, boom = 0;
#if LIBEMB_HAS_EXCEPTIONS
    try {
      ret = thr ? call_unmonitored(w, o) : call_it(w, o);
    } catch (std::bad_function_call const&) {
      got = BAD;
    } catch (Boom const& b) {
      got = BOOM;
      boom = b.id;
    } catch (...) {
      got = OTHER;
    }
    in_lib = 0;
#else
    if (c.kind < 0) return; // terminates, see function_empty.cpp
    ret = call_it(w, o);
#endif
    if (c.kind < 0) {
      if (got != BAD) FUNC_FAIL("empty-call", "calling the empty w%d did not throw bad_function_call: %s", w, hist().c_str());
      if (o.calls) FUNC_FAIL("empty-call-hit", "calling the empty w%d reached a target: %s", w, hist().c_str());
      return;
    }
    bool can_throw = c.kind <= K_FREE;
    if (got == BAD || got == OTHER) {
      FUNC_FAIL("call-lost", "calling w%d, which holds %s, did not reach it: %s", w, kind_names[c.kind], hist().c_str());
      return;
    }
    if (thr && can_throw) {
      if (got != BOOM || boom != c.id) FUNC_FAIL("throw", "exception of w%d's target did not propagate: %s", w, hist().c_str());
      return;
    }
    if (got != RETURNED) {
      FUNC_FAIL("call", "calling w%d threw: %s", w, hist().c_str());
      return;
    }
    int want = 0;
    switch (c.kind) {
    case K_FREE: want = 777; break;
    case K_MEM: want = 321; break;
    case K_MEMC: want = 654; break;
    case K_DATA: want = 4711; break;
    default: {
      bool counts = !(c.kind == K_FULL && CAP == 1) && !(c.kind == K_AL && sizeof(Al) == 1);
      if (counts) ++c.n;
      want = c.id * 1000 + c.n;
      break;
    }
    }
    if (ret != want || (c.kind <= K_FREE && o.hit != c.id) || (c.kind == K_MEM && o.hit != 1000) ||
        (c.kind <= K_MEM && o.calls != 1))
      FUNC_FAIL("call-result", "calling w%d, which holds %s #%d, returned %d instead of %d (target hit: %d, %d times): %s", w,
                kind_names[c.kind], c.id, ret, want, o.hit, o.calls, hist().c_str());
    if (c.kind <= K_TRIVIAL) {
      unsigned char const *p = static_cast<unsigned char const*>(o.self), *b = slot[w].mem;
      if (!(p >= b && p < b + sizeof(Fn)))
        LIFE_FAIL("outside", "the target called through w%d is not inside the wrapper: %s", w, hist().c_str());
      if (o.was_const != bool(CONSTSIG)) FUNC_FAIL("const", "target of w%d called with the wrong constness: %s", w, hist().c_str());
    }
  }
  int call_it(int w, Obj& o) {
    ++in_lib;
    int r = f(w)(o);
    --in_lib;
    return r;
  }
  int call_unmonitored(int w, Obj& o) { return f(w)(o); }

  void step(Op const& o) {
    Crumb& c = crumb();
    c.what = op_names[o.code];
    int w = o.w;
    long moves = reg.moves, copies = reg.copies;
    switch (o.code) {
    case CALL: call(w, false); break;
    case CALL_THROW: call(w, true); break;
    case ASSIGN_R:
    case CONSTRUCT: {
      int id = 10 * o.a + o.b;
      switch (o.a) {
      case K_SMALL: put<Small>(o); break;
      case K_FULL: put<Full>(o); break;
      case K_MO: put<Mo>(o); break;
      case K_AL: put<Al>(o); break;
      case K_TRIVIAL: place(o.code, &f(w), Trivial{(unsigned char)id, 0}); break;
      case K_FREE:
        id = 1001;
        place(o.code, &f(w), static_cast<int (*)(Obj&)>(&free_function));
        break;
      case K_MEM: put_mem(o.code, &f(w), &Obj::method); break;
      case K_MEMC: put_mem(o.code, &f(w), &Obj::method_c); break;
      case K_DATA: put_mem(o.code, &f(w), &Obj::field); break;
      }
      cell[w] = Cell();
      cell[w].kind = o.a;
      cell[w].id = o.a >= K_MEM ? 0 : id;
      break;
    }
    case ASSIGN_L:
    case CONSTRUCT_L:
      if (o.a == K_SMALL) put_l<Small>(o);
      if (o.a == K_FULL) put_l<Full>(o);
      cell[w] = Cell();
      cell[w].kind = o.a;
      cell[w].id = 10 * o.a + o.b;
      break;
    case NULLPTR:
      ++in_lib;
      f(w) = nullptr;
      --in_lib;
      cell[w] = Cell();
      break;
    case NULL_MEM:
      put_mem(ASSIGN_R, &f(w), static_cast<int (Obj::*)()>(nullptr));
      cell[w] = Cell();
      break;
    case NULL_DATA:
      put_mem(ASSIGN_R, &f(w), static_cast<int Obj::*>(nullptr));
      cell[w] = Cell();
      break;
    case NEW_EMPTY:
    case NEW_NULL:
    case NEW_NULL_MEM:
      if (o.code == NEW_NULL_MEM) {
        put_mem(CONSTRUCT, &f(w), static_cast<int (Obj::*)()>(nullptr));
      } else {
        ++in_lib;
        f(w).~Fn();
        if (o.code == NEW_EMPTY)
          new (slot[w].mem) Fn();
        else
          new (slot[w].mem) Fn(nullptr);
        --in_lib;
      }
      cell[w] = Cell();
      break;
    case MOVE_ASSIGN:
    case MOVE_CONSTRUCT: {
      ++in_lib;
      if (o.code == MOVE_ASSIGN)
        f(w) = std::move(f(o.a));
      else {
        f(w).~Fn();
        new (slot[w].mem) Fn(std::move(f(o.a)));
      }
      --in_lib;
      bool t = tracked(cell[o.a].kind);
      cell[w] = cell[o.a];
      cell[o.a] = Cell();
      if (reg.moves != moves + (t ? 1 : 0) || reg.copies != copies)
        LIFE_FAIL("move-count", "moving the wrapper moved its callable %ld times and copied it %ld times: %s", reg.moves - moves,
                  reg.copies - copies, hist().c_str());
      break;
    }
    case SELF_MOVE: { // either outcome is a valid state; it must be consistent
      Fn* p = &f(w);
      Fn* q = p;
      ++in_lib;
      *p = std::move(*q);
      --in_lib;
      if (!f(w)) cell[w] = Cell();
      break;
    }
    case SWAP:
      ++in_lib;
      std::swap(f(w), f(o.a));
      --in_lib;
      std::swap(cell[w], cell[o.a]);
      if (reg.copies != copies) LIFE_FAIL("swap-copies", "swapping wrappers copied a callable: %s", hist().c_str());
      break;
    }
  }
  void check() {
    size_t expect = 0;
    for (int i = 0; i < NW; ++i) {
      if (bool(f(i)) != (cell[i].kind >= 0))
        FUNC_FAIL("bool", "w%d %s, but it %s: %s", i, cell[i].kind >= 0 ? "reports to be empty" : "reports to hold a target",
                  cell[i].kind >= 0 ? "holds one" : "is empty", hist().c_str());
      expect += tracked(cell[i].kind);
      for (unsigned char g : slot[i].guard)
        if (g != 0xC3) LIFE_FAIL("overflow", "memory behind w%d was written: %s", i, hist().c_str());
    }
    if (!reg.error.empty()) LIFE_FAIL("registry:" + reg.error, "%s: %s", reg.error.c_str(), hist().c_str());
    if (lib_allocs) LIFE_FAIL("alloc", "memory was allocated: %s", hist().c_str());
    if (reg.live.size() != expect)
      LIFE_FAIL("live", "%zu callables are alive instead of %zu: %s", reg.live.size(), expect, hist().c_str());
    for (auto& l : reg.live) {
      unsigned char const* p = static_cast<unsigned char const*>(l.first);
      int where = -1;
      for (int i = 0; i < NW; ++i)
        if (p >= slot[i].mem && p + l.second.size <= slot[i].mem + sizeof(Fn)) where = i;
      if (where < 0)
        LIFE_FAIL("place", "a living callable is not inside any wrapper: %s", hist().c_str());
      else if (cell[where].kind != l.second.kind)
        LIFE_FAIL("wrong-wrapper", "w%d contains a callable that it should not hold: %s", where, hist().c_str());
      if (reinterpret_cast<uintptr_t>(p) % l.second.align)
        LIFE_FAIL("align", "a callable with alignment %zu lives at address ...%02x: %s", l.second.align,
                  unsigned(reinterpret_cast<uintptr_t>(p) & 0xff), hist().c_str());
    }
    if (reinterpret_cast<uintptr_t>(slot[0].mem) % alignof(Fn)) abort();
  }
  // what every wrapper holds is what it says it holds
  void probe() {
    for (int i = 0; i < NW; ++i) call(i, false);
    check();
  }
  void finish() {
    for (int i = 0; i < NW; ++i) {
      ++in_lib;
      f(i).~Fn();
      --in_lib;
    }
    if (!reg.live.empty())
      LIFE_FAIL("leak", "%zu callables survive their wrappers: %s", reg.live.size(), hist().c_str());
    if (!reg.error.empty()) LIFE_FAIL("registry:" + reg.error, "%s at the end: %s", reg.error.c_str(), hist().c_str());
    reg.live.clear();
  }
  uint64_t hash() const {
    Hash x;
    for (int i = 0; i < NW; ++i) x.add(cell[i].kind).add(cell[i].kind < 0 ? 0 : cell[i].id).add(cell[i].kind < 0 ? 0 : cell[i].n);
    return x;
  }
  bool saturated(int n) const {
    for (int i = 0; i < NW; ++i)
      if (cell[i].kind >= 0 && cell[i].n > n) return true;
    return false;
  }
};

static bool kind_fits(int k) {
  switch (k) {
  case K_SMALL: return Fits<Small>::value;
  case K_FULL: return true;
  case K_MO: return Fits<Mo>::value;
  case K_AL: return Fits<Al>::value;
  case K_TRIVIAL: return Fits<Trivial>::value;
  case K_FREE: return Fits<int (*)(Obj&)>::value;
  case K_MEM: return Fits<decltype(std::mem_fn(&Obj::method))>::value;
  case K_MEMC: return Fits<decltype(std::mem_fn(&Obj::method_c))>::value;
  case K_DATA: return Fits<decltype(std::mem_fn(&Obj::field))>::value;
  }
  return false;
}
static std::vector<Op> alphabet(bool small, int nw) {
  std::vector<Op> r;
  auto add = [&](int c, int w, int a = 0, int b = 0) { r.push_back({(unsigned char)c, (unsigned char)w, (unsigned char)a, (unsigned char)b}); };
  for (int w = 0; w < nw; ++w) {
    add(CALL, w);
    for (int k = 0; k < NKINDS; ++k)
      if (kind_fits(k)) {
        if (small && (k == K_MEMC || k == K_TRIVIAL || (k == K_SMALL && NKINDS > 3))) continue;
        for (int b = 0; b < (k == K_SMALL && !small ? 2 : 1); ++b) {
          add(ASSIGN_R, w, k, b + w % 2); // ids tell apart where it was first put
          if (!small) add(CONSTRUCT, w, k, b + w % 2);
        }
      }
    if (!small)
      for (int k : {K_SMALL, K_FULL})
        if (kind_fits(k)) {
          add(ASSIGN_L, w, k, w % 2);
          add(CONSTRUCT_L, w, k, w % 2);
        }
    add(NULLPTR, w);
    if (kind_fits(K_MEM)) {
      add(NULL_MEM, w);
      if (!small) add(NEW_NULL_MEM, w);
    }
    if (kind_fits(K_DATA) && !small) add(NULL_DATA, w);
    if (!small) {
      add(NEW_EMPTY, w);
      add(NEW_NULL, w);
    }
#if LIBEMB_HAS_EXCEPTIONS
    add(CALL_THROW, w);
#endif
    add(SELF_MOVE, w);
    for (int v = 0; v < nw; ++v)
      if (v != w) {
        add(MOVE_ASSIGN, w, v);
        add(MOVE_CONSTRUCT, w, v);
        if (v > w) add(SWAP, w, v);
      }
  }
  return r;
}
static void fmt(char* b, size_t n);
static History const* current;
static void fmt(char* b, size_t n) { snprintf(b, n, "%s", current ? show(*current).c_str() : ""); }

// runs a history in a fresh world; checks everything after every step
static uint64_t run(History const& h, bool* sat, int limit) {
  current = &h;
  crumb().fmt = fmt;
  ++beat();
  static World* w = nullptr;
  alignas(World) static unsigned char mem[sizeof(World)];
  w = new (mem) World(&h);
  for (auto& o : h) {
    w->step(o);
    w->check();
  }
  uint64_t x = w->hash();
  if (sat) *sat = w->saturated(limit);
  w->probe();
  w->finish();
  R().traces++;
  current = nullptr;
  return x;
}

int main(int argc, char** argv) {
  init(argc, argv);
  if (const char* e = getenv("VERIF_HISTORY")) {
    History h;
    int a, b, c, d, n;
    while (sscanf(e, "%d,%d,%d,%d;%n", &a, &b, &c, &d, &n) == 4) {
      h.push_back({(unsigned char)a, (unsigned char)b, (unsigned char)c, (unsigned char)d});
      e += n;
    }
    run(h, nullptr, 9);
    R().finish();
  }
  // breadth first over what the wrappers hold, to the fixpoint
  int limit = R().thorough ? 1 : 1;
  {
    std::vector<Op> ops = alphabet(false, NW);
    std::unordered_set<uint64_t> seen;
    std::deque<History> todo;
    todo.push_back({});
    seen.insert(run({}, nullptr, limit));
    size_t cap = R().thorough ? 200000 : STATES_Q;
    bool full = true;
    while (!todo.empty()) {
      History h = todo.front();
      todo.pop_front();
      for (auto& o : ops) {
        h.push_back(o);
        bool sat = false;
        uint64_t x = run(h, &sat, limit);
        ++R().transitions;
        if (!sat && !seen.count(x)) {
          if (seen.size() < cap) {
            seen.insert(x);
            todo.push_back(h);
          } else
            full = false;
        }
        h.pop_back();
      }
    }
    R().states += seen.size();
    R().note(strf("merged search: %zu operations, %d wrappers, %zu states %s", ops.size(), NW, seen.size(),
                  full ? "(all)" : "(capped, breadth first: all histories of the completed depths)"));
  }
  // unmerged: every history of a given length over two wrappers
  {
    std::vector<Op> ops = alphabet(true, 2);
    size_t depth = R().thorough ? DEPTH_T : DEPTH_Q;
    std::vector<size_t> ix(depth, 0);
    History h(depth);
    uint64_t n = 0;
    for (;;) {
      for (size_t i = 0; i < depth; ++i) h[i] = ops[ix[i]];
      run(h, nullptr, 99);
      ++n;
      R().transitions += depth;
      size_t i = 0;
      while (i < depth && ++ix[i] == ops.size()) ix[i++] = 0;
      if (i == depth) break;
    }
    R().states += n;
    R().evaluations += n;
    R().note(strf("unmerged search: all %llu histories of %zu out of %zu operations", (unsigned long long)n, depth, ops.size()));
    R().sample(show(h).substr(0, 300));
  }
  R().finish();
}
