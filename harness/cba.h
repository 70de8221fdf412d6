// Explicit-state machine around the real circular_buffer_adapter: every
// transition executes the real operation, in lock step with a reference deque.
#pragma once
#include "verif.h"
#include <deque>
#include <embedded/circular_buffer_adapter.h>
#include <functional>
#include <memory>
#include <stdexcept>
#include <unordered_map>

namespace cbt {
using namespace verif;
using embedded::circular_buffer_adapter;

// what to judge (one property each)
enum : unsigned { QUEUE = 1, SLOTS = 2, LIFE = 4, ITER = 8 };

enum OpCode : uint8_t {
  PB_C, PB_M, PB_E, PF_C, PF_M, PF_E, POPF, POPB, POPFN, POPBN, CLEAR,
  MOVEC, MOVEA, SET, PB_SELF, PF_SELF, REATTACH, CIB, CIF, COF, COB, CIR, COR,
  PB_T, PF_T, NOPS
};
static const char* const op_names[] = {
  "push_back(const&)", "push_back(&&)", "emplace_back", "push_front(const&)",
  "push_front(&&)", "emplace_front", "pop_front()", "pop_back()",
  "pop_front(n)", "pop_back(n)", "clear", "move-construct", "move-assign",
  "assign-element", "push_back(own element)", "push_front(own element)",
  "re-attach", "copy_in_back", "copy_in_front", "copy_out_front",
  "copy_out_back", "copy_in(range)", "copy_out(range)",
  "throwing push/emplace back", "throwing push/emplace front"};

struct Op {
  uint8_t code, a, b;
};
struct Init {
  size_t cap, first, count;
};
using History = std::vector<Op>;

inline std::string show(Init const& i, History const& h) {
  std::string s = strf("attach(cap=%zu,first=%zu,count=%zu)", i.cap, i.first, i.count);
  for (auto const& o : h) s += strf("; %s[%d,%d]", op_names[o.code], o.a, o.b);
  s += "  replay: VERIF_HISTORY='" + strf("%zu,%zu,%zu", i.cap, i.first, i.count);
  for (auto const& o : h) s += strf(";%d,%d,%d", o.code, o.a, o.b);
  return s + "'";
}

// ------------------------------------------------------------ element types
struct S16 { // trivial, with padding
  int v;
  char c;
  double d;
};
inline bool operator==(S16 const& a, S16 const& b) {
  return a.v == b.v && a.c == b.c && a.d == b.d;
}

// object registry: which addresses hold live tracked objects
struct Registry {
  std::unordered_map<void const*, int> live; // address -> value
  long ctor = 0, dtor = 0, copy = 0, move = 0, assign = 0;
  std::string error;
  int throw_after = -1; // throw in the n-th construction from now on
  void born(void const* p, int v) {
    if (live.count(p)) error = "object constructed over a living one";
    live[p] = v;
    ++ctor;
  }
  void died(void const* p) {
    if (!live.erase(p)) error = "destroyed something that is not a living object";
    ++dtor;
  }
  void used(void const* p) {
    if (!live.count(p)) error = "used something that is not a living object";
  }
  void may_throw();
};
inline Registry& reg() {
  static Registry r;
  return r;
}
struct Boom {};
inline void Registry::may_throw() {
#if LIBEMB_HAS_EXCEPTIONS
  if (throw_after >= 0 && throw_after-- == 0) throw Boom();
#endif
}

struct Tracked {
  int v;
  Tracked* self;
  explicit Tracked(int x) : v(x), self(this) {
    reg().may_throw();
    reg().born(this, x);
  }
  Tracked(int x, int y) : Tracked(x + y) {}
  Tracked(Tracked const& o) : v(o.v), self(this) {
    reg().may_throw();
    reg().used(&o);
    reg().born(this, v);
    ++reg().copy;
  }
  Tracked(Tracked&& o) : v(o.v), self(this) {
    reg().may_throw();
    reg().used(&o);
    reg().born(this, v);
    ++reg().move;
    o.v = -1;
  }
  Tracked& operator=(Tracked const& o) {
    reg().used(this);
    reg().used(&o);
    v = o.v;
    ++reg().assign;
    return *this;
  }
  ~Tracked() {
    if (self != this) reg().error = "destroyed an object at a foreign address";
    reg().died(this);
  }
};
struct MoveOnly {
  Tracked t;
  explicit MoveOnly(int x) : t(x) {}
  MoveOnly(int x, int y) : t(x, y) {}
  MoveOnly(MoveOnly&& o) : t(std::move(o.t)) {}
  MoveOnly(MoveOnly const&) = delete;
  MoveOnly& operator=(MoveOnly&& o) {
    t = o.t;
    return *this;
  }
  // not to be put on the heap
  static void* operator new(size_t) = delete;
  static void* operator new[](size_t) = delete;
};
// nothing in it: its value is only in the registry
struct Token {
  explicit Token(int x) {
    reg().may_throw();
    reg().born(this, x);
  }
  Token(int x, int y) : Token(x + y) {}
  Token(Token const& o) {
    reg().may_throw();
    reg().used(&o);
    reg().born(this, value(o));
    ++reg().copy;
  }
  Token(Token&& o) {
    reg().may_throw();
    reg().used(&o);
    reg().born(this, value(o));
    ++reg().move;
    reg().live[&o] = -1;
  }
  Token& operator=(Token const& o) {
    reg().used(this);
    reg().used(&o);
    reg().live[this] = value(o);
    ++reg().assign;
    return *this;
  }
  ~Token() { reg().died(this); }
  static int value(Token const& o) {
    auto i = reg().live.find(&o);
    return i == reg().live.end() ? -99 : i->second;
  }
};
static_assert(std::is_empty<Token>::value, "");
// destructor is trivial, construction is not
struct NtCtor {
  int v;
  NtCtor() : v(77) {}
  explicit NtCtor(int x) : v(x) {}
};
template <typename T> struct El {
  static T make(int x) { return T(x); }
  static int val(T const& t) { return int(t); }
  static constexpr bool bulk = true, copyable = true, tracked = false;
};
template <> struct El<S16> {
  static S16 make(int x) {
    S16 s;
    memset(&s, 0, sizeof s);
    s.v = x;
    s.c = char(unsigned(x) * 3u);
    s.d = x * 0.5;
    return s;
  }
  static int val(S16 const& s) {
    return s.c == char(unsigned(s.v) * 3u) && s.d == s.v * 0.5 ? s.v : -99;
  }
  static constexpr bool bulk = true, copyable = true, tracked = false;
};
template <> struct El<Tracked> {
  static Tracked make(int x) { return Tracked(x); }
  static int val(Tracked const& t) {
    reg().used(&t);
    return t.v;
  }
  static constexpr bool bulk = false, copyable = true, tracked = true;
};
template <> struct El<MoveOnly> {
  static MoveOnly make(int x) { return MoveOnly(x); }
  static int val(MoveOnly const& t) { return El<Tracked>::val(t.t); }
  static constexpr bool bulk = false, copyable = false, tracked = true;
};
template <> struct El<Token> {
  static Token make(int x) { return Token(x); }
  static int val(Token const& t) {
    reg().used(&t);
    return Token::value(t);
  }
  static constexpr bool bulk = false, copyable = true, tracked = true;
};
template <> struct El<NtCtor> {
  static NtCtor make(int x) { return NtCtor(x); }
  static int val(NtCtor const& t) { return t.v; }
  static constexpr bool bulk = false, copyable = true, tracked = false;
};
template <typename T, typename B> void do_push_back_c(B& b, T const& v, std::true_type) { b.push_back(v); }
template <typename T, typename B> void do_push_back_c(B&, T const&, std::false_type) {}
template <typename T, typename B> void do_push_front_c(B& b, T const& v, std::true_type) { b.push_front(v); }
template <typename T, typename B> void do_push_front_c(B&, T const&, std::false_type) {}

constexpr size_t GUARD = 64;
constexpr unsigned char FILL = 0xA5;

// exact-size memory: redzones under the address sanitizer, canaries otherwise
class Arena {
 public:
  explicit Arena(size_t n) : n_(n) {
#if defined(__SANITIZE_ADDRESS__)
    base_ = new unsigned char[n ? n : 1];
    mem_ = base_;
#else
    base_ = new unsigned char[n + 2 * GUARD];
    memset(base_, FILL, n + 2 * GUARD);
    mem_ = base_ + GUARD;
#endif
    memset(mem_, 0x5A, n);
  }
  ~Arena() { delete[] base_; }
  Arena(Arena const&) = delete;
  unsigned char* mem() const { return mem_; }
  bool intact() const {
#if !defined(__SANITIZE_ADDRESS__)
    for (size_t i = 0; i < GUARD; ++i)
      if (base_[i] != FILL || mem_[n_ + i] != FILL) return false;
#endif
    return true;
  }

 private:
  size_t n_;
  unsigned char *base_, *mem_;
};

// bulk operations only exist for trivial types
template <typename T, bool Bulk> struct Bulks {
  template <typename M> static void apply(M&, Op) {}
};

template <typename T, unsigned Checks> class Machine {
 public:
  using CB = circular_buffer_adapter<T>;
  using E = El<T>;
  static constexpr bool kBulk = E::bulk;
  size_t cap;
  Arena arena;
  T* mem;
  std::unique_ptr<CB> cb;
  std::deque<int> model;
  size_t first; // slot of the first element per the model
  std::vector<unsigned char> before; // memory image before the operation
  std::vector<bool> may_change;
  std::string err;
  long ctor0, dtor0;

  explicit Machine(Init const& in)
      : cap(in.cap), arena(in.cap * sizeof(T)), mem(reinterpret_cast<T*>(arena.mem())), first(in.first) {
    reg() = Registry();
    for (size_t i = 0; i < in.count; ++i) {
      int v = int(i % 2);
      ::new (static_cast<void*>(mem + (in.first + i) % cap)) T(E::make(v));
      model.push_back(v);
    }
    reg().ctor = reg().dtor = reg().copy = reg().move = 0;
    // the four ways to attach
    switch (in.first == 0 && in.count == 0 ? (in.cap & 1) : 2 + (in.cap & 1)) {
    case 0: cb.reset(new CB(mem, cap)); break;
    case 1: cb.reset(new CB(mem, mem + cap)); break;
    case 2: cb.reset(new CB(mem, cap, in.first, in.count)); break;
    default: cb.reset(new CB(mem, mem + cap, mem + in.first, in.count)); break;
    }
    expect_ctor_ = expect_dtor_ = 0;
    may_change.assign(cap, false);
  }
  ~Machine() {
    // elements still in the ring are the caller's to destroy
    cb.reset();
    if (E::tracked) reg().live.clear();
  }

  bool enabled(Op o) const {
    size_t n = model.size();
    switch (o.code) {
    case PB_C: case PF_C: return n < cap && E::copyable;
    case PB_M: case PB_E: case PF_M: case PF_E: return n < cap;
    case PB_T: case PF_T: return n < cap && E::tracked && (E::copyable || o.b != 0);
    case POPF: case POPB: return n > 0;
    case POPFN: case POPBN: return o.a <= n;
    case SET: return o.a < n;
    case PB_SELF: case PF_SELF: return n > 0 && n < cap && E::copyable && o.a < n;
    case CIB: case CIF: return E::bulk && n + o.a <= cap;
    case COF: case COB: return E::bulk && o.a <= n;
    case CIR: case COR: return E::bulk && o.a <= o.b && o.b <= n;
    default: return true;
    }
  }

  void bad(std::string const& m) {
    if (err.empty()) err = m;
  }

  size_t slot(size_t i) const { return (first + i) % cap; }

  void apply(Op o) {
    ++beat();
    before.assign(arena.mem(), arena.mem() + cap * sizeof(T));
    may_change.assign(cap, false);
    ctor0 = reg().ctor;
    dtor0 = reg().dtor;
    expect_ctor_ = expect_dtor_ = expect_copy_ = expect_move_ = 0;
    long copy0 = reg().copy, move0 = reg().move;
    size_t n = model.size();
    std::vector<void const*> must_die;
    switch (o.code) {
    case PB_C: {
      T v(E::make(o.a));
      mark();
      may_change[slot(n)] = true;
      do_push_back_c(*cb, v, std::integral_constant<bool, E::copyable>());
      if ((Checks & LIFE) && E::val(v) != o.a) bad("push_back(const&) changed its source");
      model.push_back(o.a);
      expect_ctor_ = expect_copy_ = 1;
      settle(copy0, move0);
      break;
    }
    case PB_M: {
      T v(E::make(o.a));
      mark();
      may_change[slot(n)] = true;
      cb->push_back(std::move(v));
      model.push_back(o.a);
      expect_ctor_ = expect_move_ = 1;
      settle(copy0, move0);
      break;
    }
    case PB_E: {
      may_change[slot(n)] = true;
      T& r = emplace_back(o.a);
      model.push_back(o.a);
      if ((Checks & QUEUE) && (&r != &cb->back() || E::val(r) != o.a))
        bad("emplace_back returned a reference to something else");
      expect_ctor_ = 1;
      settle(copy0, move0);
      break;
    }
    case PF_C: {
      T v(E::make(o.a));
      mark();
      may_change[slot(cap - 1)] = true;
      do_push_front_c(*cb, v, std::integral_constant<bool, E::copyable>());
      if ((Checks & LIFE) && E::val(v) != o.a) bad("push_front(const&) changed its source");
      model.push_front(o.a);
      first = slot(cap - 1);
      expect_ctor_ = expect_copy_ = 1;
      settle(copy0, move0);
      break;
    }
    case PF_M: {
      T v(E::make(o.a));
      mark();
      may_change[slot(cap - 1)] = true;
      cb->push_front(std::move(v));
      model.push_front(o.a);
      first = slot(cap - 1);
      expect_ctor_ = expect_move_ = 1;
      settle(copy0, move0);
      break;
    }
    case PF_E: {
      may_change[slot(cap - 1)] = true;
      T& r = emplace_front(o.a);
      model.push_front(o.a);
      first = slot(cap - 1);
      if ((Checks & QUEUE) && (&r != &cb->front() || E::val(r) != o.a))
        bad("emplace_front returned a reference to something else");
      expect_ctor_ = 1;
      settle(copy0, move0);
      break;
    }
    case POPF:
      may_change[slot(0)] = true;
      must_die.push_back(mem + slot(0));
      cb->pop_front();
      model.pop_front();
      first = slot(1);
      break;
    case POPB:
      may_change[slot(n - 1)] = true;
      must_die.push_back(mem + slot(n - 1));
      cb->pop_back();
      model.pop_back();
      break;
    case POPFN:
      for (size_t i = 0; i < o.a; ++i) {
        may_change[slot(i)] = true;
        must_die.push_back(mem + slot(i));
        model.pop_front();
      }
      cb->pop_front(size_t(o.a));
      first = slot(o.a);
      break;
    case POPBN:
      for (size_t i = 0; i < o.a; ++i) {
        may_change[slot(n - 1 - i)] = true;
        must_die.push_back(mem + slot(n - 1 - i));
        model.pop_back();
      }
      cb->pop_back(size_t(o.a));
      break;
    case CLEAR:
      for (size_t i = 0; i < n; ++i) {
        may_change[slot(i)] = true;
        must_die.push_back(mem + slot(i));
      }
      cb->clear();
      model.clear();
      break;
    case MOVEC: {
      std::unique_ptr<CB> c(new CB(std::move(*cb)));
      cb = std::move(c);
      break;
    }
    case MOVEA: {
      // onto a default constructed adapter
      std::unique_ptr<CB> c(new CB());
      if ((Checks & QUEUE) && (!c->empty() || c->size() != 0 || c->capacity() != 0 || c->remaining() != 0 ||
                               c->begin() != c->end()))
        bad("a default constructed adapter is not empty");
      c->clear();
      *c = std::move(*cb);
      cb = std::move(c);
      break;
    }
    case SET: {
      T v(E::make(o.b));
      mark();
      may_change[slot(o.a)] = true;
      // through whichever accessor reaches the element
      if (o.a == 0)
        cb->front() = std::move(v);
      else if (size_t(o.a) == n - 1)
        cb->back() = std::move(v);
      else
        (*cb)[o.a] = std::move(v);
      model[o.a] = o.b;
      if (E::tracked) reg().live[mem + slot(o.a)] = o.b;
      settle(copy0, move0, false);
      break;
    }
    case PB_SELF:
      may_change[slot(n)] = true;
      do_push_back_c(*cb, (*cb)[o.a], std::integral_constant<bool, E::copyable>());
      model.push_back(int(model[o.a]));
      expect_ctor_ = expect_copy_ = 1;
      settle(copy0, move0);
      break;
    case PF_SELF:
      may_change[slot(cap - 1)] = true;
      do_push_front_c(*cb, (*cb)[o.a], std::integral_constant<bool, E::copyable>());
      model.push_front(int(model[o.a]));
      first = slot(cap - 1);
      expect_ctor_ = expect_copy_ = 1;
      settle(copy0, move0);
      break;
    case REATTACH: {
      size_t f = cb->raw_index(cb->begin());
      size_t s = cb->size();
      if (f >= cap || s > cap) {
        bad(strf("cannot re-attach: reported first slot %zu, size %zu, capacity %zu", f, s, cap));
        break;
      }
      switch (o.a) {
      case 0: cb.reset(new CB(mem, cap, f, s)); break;
      default: cb.reset(new CB(mem, mem + cap, mem + f, s)); break;
      }
      break;
    }
    case PB_T: case PF_T: {
      bool thrown = false;
      (void)thrown;
#if LIBEMB_HAS_EXCEPTIONS
      T v(E::make(1));
      mark();
      may_change[o.code == PB_T ? slot(n) : slot(cap - 1)] = true;
      reg().throw_after = 0;
      try {
        throwing(o, v, std::integral_constant<bool, E::tracked>());
      } catch (Boom const&) {
        thrown = true;
      }
      reg().throw_after = -1;
      if (!thrown) bad("the element constructor's exception did not reach the caller");
      settle(copy0, move0, false);
#endif
      break;
    }
    default: Bulks<T, kBulk>::apply(*this, o); break;
    }
    for (auto p : must_die)
      if ((Checks & LIFE) && E::tracked && reg().live.count(p)) bad("a removed element was not destroyed");
    if ((Checks & LIFE)) {
      if (E::tracked) {
        if (reg().ctor - ctor0 != expect_ctor_ + extra_ctor_)
          bad(strf("%ld element constructions, expected %ld", reg().ctor - ctor0 - extra_ctor_, expect_ctor_));
        if (reg().dtor - dtor0 != long(must_die.size()) + extra_dtor_)
          bad(strf("%ld element destructions, expected %zu", reg().dtor - dtor0 - extra_dtor_, must_die.size()));
        if (reg().live.size() != model.size())
          bad(strf("%zu living elements, expected %zu", reg().live.size(), model.size()));
        for (size_t i = 0; i < model.size(); ++i)
          if (!reg().live.count(mem + slot(i))) bad(strf("element %zu is not alive in its slot", i));
        if (!reg().error.empty()) bad(reg().error);
      }
    }
    extra_ctor_ = extra_dtor_ = 0;
    if (model.empty() && cap) {
      // where an empty ring restarts is up to the implementation
      size_t f = cb->raw_index(cb->begin());
      if (f < cap)
        first = f;
      else
        bad(strf("empty ring reports slot %zu of %zu", f, cap));
    }
    check();
  }

  void check() {
    if (!arena.intact()) bad("memory outside the given range was written");
    if (Checks & QUEUE) check_queue();
    if (Checks & SLOTS) check_slots();
    if (Checks & LIFE) check_life();
  }

  void check_queue() {
    size_t n = model.size();
    CB const& c = *cb;
    if (c.size() != n) return bad(strf("size is %zu, expected %zu", c.size(), n));
    if (c.capacity() != cap) return bad("capacity changed");
    if (c.remaining() != cap - n) return bad("remaining is wrong");
    if (c.empty() != (n == 0)) return bad("empty is wrong");
    if (c.full() != (n == cap)) return bad("full is wrong");
    if (n) {
      if (E::val(c.front()) != model.front()) return bad("front is wrong");
      if (E::val(c.back()) != model.back()) return bad("back is wrong");
    }
    for (size_t i = 0; i < n; ++i) {
      if (E::val(c[i]) != model[i]) return bad(strf("[%zu] is wrong", i));
      if (&c.at(i) != &c[i]) return bad(strf("at(%zu) is not [%zu]", i, i));
    }
    size_t i = 0;
    for (auto& e : c) {
      if (i >= n || E::val(e) != model[i]) return bad(strf("iteration is wrong at %zu", i));
      ++i;
    }
    if (i != n) return bad("iteration ends early");
  }

  // checked access beyond the end
  void check_at() {
    size_t n = model.size();
    CB const& c = *cb;
    (void)n;
    (void)c;
#if LIBEMB_HAS_EXCEPTIONS
    size_t const out[] = {n, n + 1, cap, cap + 1, size_t(-1)};
    for (size_t p : out) {
      if (p < n) continue;
      bool thrown = false;
      try {
        c.at(p);
      } catch (std::out_of_range const&) {
        thrown = true;
      }
      if (!thrown) return bad(strf("at(%zu) did not throw with size %zu", p, n));
    }
#endif
  }

  void check_slots() {
    size_t n = model.size();
    CB const& c = *cb;
    if (c.size() != n) return bad(strf("size is %zu, expected %zu", c.size(), n));
    for (size_t i = 0; i < cap; ++i)
      if (!may_change[i] && !before.empty() &&
          memcmp(before.data() + i * sizeof(T), arena.mem() + i * sizeof(T), sizeof(T)) != 0)
        return bad(strf("slot %zu was written although the operation does not concern it", i));
    for (size_t i = 0; i < n; ++i) {
      if (E::val(mem[slot(i)]) != model[i]) return bad(strf("element %zu is not in slot %zu", i, slot(i)));
      if (&c[i] != mem + slot(i)) return bad(strf("[%zu] does not refer to slot %zu", i, slot(i)));
    }
    auto it = c.begin();
    auto ct = c.cbegin();
    for (size_t i = 0; i <= n; ++i) {
      size_t want = cap ? slot(i) : 0;
      if (c.raw_index(it) != want || c.raw_index(ct) != want)
        return bad(strf("raw_index of position %zu is %zu/%zu, expected %zu", i, c.raw_index(it), c.raw_index(ct), want));
      if (i > 0) { // i == 0 is begin itself
        if (c.raw_index(c.begin() + i) != want) return bad(strf("raw_index(begin()+%zu) is wrong", i));
      }
      if (c.raw_index(c.end() - (n - i)) != want) return bad(strf("raw_index(end()-%zu) is wrong", n - i));
      if (i < n) {
        ++it;
        ++ct;
      }
    }
    if (c.raw_index(c.end()) != slot(n) || c.raw_index(c.cend()) != slot(n)) return bad("raw_index(end()) is wrong");
    // re-attaching sees the same contents
    CB r(mem, cap, c.raw_index(c.begin()), c.size());
    if (r.size() != n) return bad("re-attached adapter has a different size");
    for (size_t i = 0; i < n; ++i)
      if (&r[i] != mem + slot(i)) return bad("re-attached adapter sees different slots");
    if (r.raw_index(r.end()) != slot(n)) return bad("re-attached adapter would continue at a different slot");
  }

  void check_life() {
    for (size_t i = 0; i < model.size() && i < cb->size(); ++i)
      if (E::val((*cb)[i]) != model[i]) return bad(strf("element %zu has the wrong value", i));
    if (cb->size() != model.size()) return bad("size is wrong");
  }

  uint64_t key() const {
    Hash h;
    h.add(cap).add(first).add(model.size());
    h.add(cb->raw_index(cb->begin())).add(cb->raw_index(cb->end()));
    for (int v : model) h.add(v);
    if (E::bulk) // stale contents of free slots are part of the state, too
      for (size_t i = 0; i < cap; ++i) h.add(E::val(mem[i]));
    return h;
  }

  // objects constructed / destroyed by the harness itself in this operation
  void mark() {
    extra_ctor_ = reg().ctor - ctor0;
    extra_dtor_ = reg().dtor - dtor0;
    marked_ = true;
  }
  void settle(long copy0, long move0, bool check_kind = true) {
    if ((Checks & LIFE) && E::tracked && check_kind) {
      long c = reg().copy - copy0, m = reg().move - move0;
      (void)m;
      if (c != expect_copy_) bad(strf("%ld element copies, expected %ld", c, expect_copy_));
    }
    if (marked_) extra_dtor_ += 1; // the harness' own value goes out of scope
    marked_ = false;
  }

  void throwing(Op, T&, std::false_type) {}
  void throwing(Op o, T& v, std::true_type) {
    switch ((o.code == PF_T ? 3 : 0) + o.b) {
    case 0: do_push_back_c(*cb, v, std::integral_constant<bool, E::copyable>()); break;
    case 1: cb->push_back(std::move(v)); break;
    case 2: cb->emplace_back(1, 0); break;
    case 3: do_push_front_c(*cb, v, std::integral_constant<bool, E::copyable>()); break;
    case 4: cb->push_front(std::move(v)); break;
    default: cb->emplace_front(1, 0); break;
    }
  }

  T& emplace_back(int a) { return emplace_back_(a, std::integral_constant<bool, E::tracked>()); }
  T& emplace_back_(int a, std::true_type) { return cb->emplace_back(a - 1, 1); }
  T& emplace_back_(int a, std::false_type) { return cb->emplace_back(E::make(a)); }
  T& emplace_front(int a) { return emplace_front_(a, std::integral_constant<bool, E::tracked>()); }
  T& emplace_front_(int a, std::true_type) { return cb->emplace_front(a - 1, 1); }
  T& emplace_front_(int a, std::false_type) { return cb->emplace_front(E::make(a)); }

  long expect_ctor_ = 0, expect_dtor_ = 0, expect_copy_ = 0, expect_move_ = 0;
  long extra_ctor_ = 0, extra_dtor_ = 0;
  bool marked_ = false;
};

template <typename T> struct Bulks<T, true> {
  template <typename M> static void apply(M& m, Op o) {
    using E = El<T>;
    size_t n = m.model.size();
    size_t cnt = o.code == CIR || o.code == COR ? o.b - o.a : o.a;
    Arena user(cnt * sizeof(T)); // exact size: reading or writing beyond it is noticed
    T* u = reinterpret_cast<T*>(user.mem());
    auto value = [&](size_t i) { return o.code == CIR ? int(i % 2) : int((i + o.b) % 2); };
    bool in = o.code == CIB || o.code == CIF || o.code == CIR;
    if (in)
      for (size_t i = 0; i < cnt; ++i) {
        T v = E::make(value(i));
        memcpy(static_cast<void*>(u + i), &v, sizeof(T));
      }
    std::vector<unsigned char> ubefore(user.mem(), user.mem() + cnt * sizeof(T));
    std::vector<int> want;
    switch (o.code) {
    case CIB:
      for (size_t i = 0; i < cnt; ++i) m.may_change[m.slot(n + i)] = true;
      m.cb->copy_in_back(u, cnt);
      for (size_t i = 0; i < cnt; ++i) m.model.push_back(value(i));
      break;
    case CIF:
      for (size_t i = 0; i < cnt; ++i) m.may_change[m.slot(m.cap - 1 - i)] = true;
      m.cb->copy_in_front(u, cnt);
      for (size_t i = cnt; i-- > 0;) m.model.push_front(value(i));
      m.first = m.slot(m.cap - cnt);
      break;
    case COF:
      want.assign(m.model.begin(), m.model.begin() + cnt);
      m.cb->copy_out_front(u, cnt);
      for (size_t i = 0; i < cnt; ++i) {
        m.may_change[m.slot(i)] = true;
        m.model.pop_front();
      }
      m.first = m.slot(cnt);
      break;
    case COB:
      want.assign(m.model.end() - cnt, m.model.end());
      m.cb->copy_out_back(u, cnt);
      for (size_t i = 0; i < cnt; ++i) {
        m.may_change[m.slot(n - 1 - i)] = true;
        m.model.pop_back();
      }
      break;
    case CIR:
      for (size_t i = o.a; i < o.b; ++i) {
        m.may_change[m.slot(i)] = true;
        m.model[i] = value(i - o.a);
      }
      m.cb->copy_in(m.cb->begin() + o.a, m.cb->begin() + o.b, u);
      break;
    case COR:
      want.assign(m.model.begin() + o.a, m.model.begin() + o.b);
      m.cb->copy_out(m.cb->cbegin() + o.a, m.cb->cbegin() + o.b, u);
      break;
    default: m.bad("unknown operation"); break;
    }
    if (!user.intact()) m.bad("the caller's array was overrun");
    if (in && memcmp(ubefore.data(), u, cnt * sizeof(T)) != 0) m.bad("the source array was modified");
    if (!in)
      for (size_t i = 0; i < cnt; ++i)
        if (E::val(u[i]) != want[i]) m.bad(strf("element %zu copied out is wrong", i));
  }
};

// ------------------------------------------------------------------ explorer
template <typename T, unsigned Checks> class Explorer {
 public:
  using M = Machine<T, Checks>;
  std::function<std::vector<Op>(size_t cap)> alphabet;
  std::function<void(M&)> extra; // additional oracle, evaluated in every new state
  std::string tag;

  static History& cur() {
    static History h;
    return h;
  }
  static Init& cur_init() {
    static Init i;
    return i;
  }
  static void fmt(char* b, size_t n) { snprintf(b, n, "%s", show(cur_init(), cur()).c_str()); }

  void report(Init const& in, History const& h, std::string const& what) {
    R().fail(tag + ":" + what, what + " after " + show(in, h) + " element type " + tag);
  }

  // replays h on a fresh real object; judges every step
  bool run(Init const& in, History const& h, uint64_t* key, bool judge_extra) {
    cur() = h;
    cur_init() = in;
    crumb().what = "circular buffer history";
    crumb().fmt = fmt;
    ++beat();
    M m(in);
    m.check();
    for (size_t i = 0; i < h.size() && m.err.empty(); ++i) m.apply(h[i]);
    if (m.err.empty() && judge_extra) {
      if (Checks & QUEUE) m.check_at();
      if (extra) extra(m);
    }
    if (!m.err.empty()) {
      report(in, h, m.err);
      return false;
    }
    if (key) *key = m.key();
    ++R().traces;
    return true;
  }

  // breadth first search to a fixpoint over all attach states of one capacity
  void bfs(size_t cap, size_t max_states) {
    std::unordered_set<uint64_t> seen;
    std::deque<std::pair<Init, History>> q;
    auto ops = alphabet(cap);
    size_t depth = 0;
    auto visit = [&](Init const& in, History const& h) {
      uint64_t k = 0;
      if (!run(in, h, &k, false)) return;
      if (seen.insert(k).second) {
        ++R().states;
        R().distinct.insert(Hash().add(k).bytes(tag.data(), tag.size()));
        if (h.size() > depth) depth = h.size();
        if (extra || (Checks & QUEUE)) run(in, h, nullptr, true);
        q.push_back({in, h});
        if (seen.size() % 97 == 3) R().sample(tag + " " + show(in, h));
      }
    };
    for (size_t f = 0; f < cap; ++f)
      for (size_t n = 0; n <= cap; ++n) visit(Init{cap, f, n}, {});
    while (!q.empty()) {
      auto cur = std::move(q.front());
      q.pop_front();
      M probe(cur.first);
      for (auto const& o : cur.second) probe.apply(o);
      for (auto const& o : ops) {
        if (!probe.enabled(o)) continue;
        History h = cur.second;
        h.push_back(o);
        ++R().transitions;
        ++R().evaluations;
        visit(cur.first, h);
        if (seen.size() > max_states) {
          R().note(strf("%s cap %zu: state cap %zu reached", tag.c_str(), cap, max_states));
          return;
        }
      }
    }
    R().note(strf("%s cap %zu: fixpoint, %zu states, longest shortest history %zu", tag.c_str(), cap, seen.size(), depth));
  }

  // every history of exactly this depth, without merging states
  void dfs(Init const& in, size_t depth) {
    auto ops = alphabet(in.cap);
    History h;
    dfs_(in, ops, h, depth);
  }

  bool replay_env() {
    const char* e = getenv("VERIF_HISTORY");
    if (!e) return false;
    Init in{};
    History h;
    int used = 0;
    if (sscanf(e, "%zu,%zu,%zu%n", &in.cap, &in.first, &in.count, &used) != 3) exit(9);
    e += used;
    int c, a, b;
    while (sscanf(e, ";%d,%d,%d%n", &c, &a, &b, &used) == 3) {
      h.push_back(Op{uint8_t(c), uint8_t(a), uint8_t(b)});
      e += used;
    }
    bool ok = run(in, h, nullptr, true);
    printf("%s: %s\n", tag.c_str(), ok ? "holds" : "violated");
    return true;
  }

 private:
  void dfs_(Init const& in, std::vector<Op> const& ops, History& h, size_t depth) {
    M probe(in);
    for (auto const& o : h) probe.apply(o);
    for (auto const& o : ops) {
      if (!probe.enabled(o)) continue;
      h.push_back(o);
      ++R().transitions;
      ++R().evaluations;
      if (depth == 1) {
        run(in, h, nullptr, false);
      } else {
        dfs_(in, ops, h, depth - 1);
      }
      h.pop_back();
    }
  }
};

} // namespace cbt
