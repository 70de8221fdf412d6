// C13: all histories over three move wrappers, with throwing moves.
#include "verif.h"
#include <deque>
#include <embedded/move_wrapper.h>
#include <functional>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <unordered_map>
using namespace verif;
using embedded::move_wrapper;

struct Registry {
  std::unordered_map<void const*, int> live;
  long copies = 0, moves = 0;
  std::string error;
  int throw_at = 0; // 0 never, 1 before, 2 after the source was emptied
  void born(void const* p) {
    if (live.count(p)) error = "a value was created on top of a living one";
    live[p] = 1;
  }
  void died(void const* p) {
    if (!live.erase(p)) error = "something that is not a living value was destroyed";
  }
  void use(void const* p) {
    if (!live.count(p)) error = "something that is not a living value was used";
  }
};
static Registry reg;
struct Boom {};

template <bool Nothrow, bool Copyable, size_t Align> struct alignas(Align) Value {
  int id;
  Value* self;
  int get() const { return id; }
  void set(int x) { id = x; }
  explicit Value(int i) : id(i), self(this) { reg.born(this); }
  // made from a list of itself: must never be used
  Value(std::initializer_list<Value>) : id(-7), self(this) {
    reg.error = "the value was wrapped in a list of values";
    reg.born(this);
  }
  Value(typename std::conditional<Copyable, Value, std::pair<Value*, Value*>>::type const& o) : self(this) { init(o); }
  void init(Value const& o) {
    id = o.id;
    ++reg.copies;
    reg.born(this);
  }
  void init(std::pair<Value*, Value*> const&) { id = -5; }
  Value(Value&& o) noexcept(Nothrow) : id(o.id), self(this) {
    reg.use(&o);
#if LIBEMB_EXC
    if (!Nothrow && reg.throw_at == 1) throw Boom();
#endif
    o.id = -1;
#if LIBEMB_EXC
    if (!Nothrow && reg.throw_at == 2) throw Boom();
#endif
    ++reg.moves;
    reg.born(this);
  }
  ~Value() {
    if (self != this) reg.error = "a value was relocated bytewise";
    reg.died(this);
    id = -9;
  }
};
struct MoveOnly : Value<true, false, 8> {
  explicit MoveOnly(int i) : Value<true, false, 8>(i) {}
  MoveOnly(MoveOnly&&) = default;
  MoveOnly(MoveOnly const&) = delete;
  MoveOnly* operator&() = delete; // as smart pointers with an output operand do
  MoveOnly const* operator&() const = delete;
};

enum OpCode { WRAP, COPY_CONST, COPY_LVALUE, MOVE, COPY_CONST_RVALUE, DESTROY, SET, SET_ARROW, BYVAL, WRAP_T, COPY_T, MOVE_T, NOPS };
static const char* const names[] = {"wrap", "copy from const", "copy", "move", "copy from const rvalue", "destroy", "*w=", "w->set",
                                    "pass by value and return into", "wrap, move throws", "copy, move throws", "move, move throws"};
struct Op {
  unsigned char code, a, b, c;
};
typedef std::vector<Op> History;
static std::string show(History const& h) {
  std::string s;
  for (auto& o : h) s += strf("%s[%d,%d,%d]; ", names[o.code], o.a, o.b, o.c);
  return s;
}
static History const* current;
static void fmt(char* b, size_t n) { snprintf(b, n, "%s", current ? show(*current).c_str() : ""); }

template <typename T> struct World {
  typedef move_wrapper<T> W;
  static constexpr int N = 3;
  struct alignas(W) Slot {
    unsigned char mem[sizeof(W)];
  };
  Slot slot[N];
  bool present[N] = {};
  int id[N] = {};
  History const& h;
  std::string tag;
  W& w(int i) { return *reinterpret_cast<W*>(slot[i].mem); }
  W const& cw(int i) { return w(i); }
  World(History const& hh, std::string t) : h(hh), tag(t) {
    reg = Registry();
  }
  void fail(const char* what) { V_FAIL(tag + ":" + what, "%s: %s: %s", tag.c_str(), what, show(h).c_str()); }
  static W pass(W x) { return x; }
  bool enabled(Op const& o) {
    switch (o.code) {
    case WRAP:
    case WRAP_T: return !present[o.a];
    case COPY_CONST:
    case COPY_LVALUE:
    case MOVE:
    case COPY_CONST_RVALUE:
    case BYVAL:
    case COPY_T:
    case MOVE_T: return !present[o.a] && present[o.b];
    default: return present[o.a];
    }
  }
  void step(Op const& o) {
    crumb().what = names[o.code];
    long moves = reg.moves, copies = reg.copies;
    void* d = slot[o.a].mem;
    switch (o.code) {
    case WRAP: {
      T t(o.b);
      new (d) W(std::move(t));
      if (t.id != -1) fail("wrapping did not move the value");
      present[o.a] = true;
      id[o.a] = o.b;
      if (reg.moves != moves + 1) fail("wrapping did not move exactly once");
      break;
    }
    case COPY_CONST: new (d) W(cw(o.b)); goto transfer;
    case COPY_LVALUE: new (d) W(w(o.b)); goto transfer;
    case COPY_CONST_RVALUE: new (d) W(static_cast<W const&&>(cw(o.b))); goto transfer;
    case MOVE:
      new (d) W(std::move(w(o.b)));
    transfer:
      present[o.a] = true;
      id[o.a] = id[o.b];
      id[o.b] = -1;
      if (reg.moves != moves + 1) fail("a transfer did not move exactly once");
      break;
    case BYVAL:
      new (d) W(pass(w(o.b)));
      present[o.a] = true;
      id[o.a] = id[o.b];
      id[o.b] = -1;
      break;
    case DESTROY:
      w(o.a).~W();
      present[o.a] = false;
      break;
    case SET:
      (*w(o.a)).id = o.b;
      id[o.a] = o.b;
      break;
    case SET_ARROW:
      w(o.a)->set(o.b);
      id[o.a] = o.b;
      break;
#if LIBEMB_EXC
    case WRAP_T: {
      T t(o.b);
      bool thrown = false;
      reg.throw_at = o.c;
      try {
        new (d) W(std::move(t));
      } catch (Boom&) { thrown = true; }
      reg.throw_at = 0;
      if (!thrown) {
        fail("an exception while wrapping was lost");
        present[o.a] = true;
      }
      if (t.id != (o.c == 1 ? o.b : -1)) fail("the value was changed by a failed wrap");
      break;
    }
    case COPY_T:
    case MOVE_T: {
      bool thrown = false;
      reg.throw_at = o.c;
      try {
        if (o.code == COPY_T)
          new (d) W(cw(o.b));
        else
          new (d) W(std::move(w(o.b)));
      } catch (Boom&) { thrown = true; }
      reg.throw_at = 0;
      if (!thrown) {
        fail("an exception while transferring was lost");
        present[o.a] = true;
      }
      if (o.c == 2) id[o.b] = -1;
      break;
    }
#endif
    }
    if (reg.copies != copies) fail("the value was copied");
  }
  void check() {
    size_t n = 0;
    for (int i = 0; i < N; ++i) {
      if (!present[i]) continue;
      ++n;
      T& v = *w(i);
      T const& c = *cw(i);
      if (std::addressof(v) != std::addressof(c) || std::addressof(v) != w(i).operator->() || std::addressof(v) != cw(i).operator->()) fail("the ways of access differ");
      unsigned char* p = reinterpret_cast<unsigned char*>(std::addressof(v));
      if (p < slot[i].mem || p + sizeof(T) > slot[i].mem + sizeof(W)) fail("the value is outside the wrapper");
      if (reinterpret_cast<uintptr_t>(std::addressof(v)) % alignof(T)) fail("the value is misaligned");
      if (!reg.live.count(std::addressof(v))) fail("the accessed value is not alive");
      if (v.id != id[i] || cw(i)->get() != id[i]) fail("the wrapper holds the wrong value");
    }
    if (reg.live.size() != n) fail("the number of living values is wrong");
    if (!reg.error.empty()) fail(reg.error.c_str());
  }
  void finish() {
    for (int i = 0; i < N; ++i)
      if (present[i]) w(i).~W();
    if (!reg.live.empty() || !reg.error.empty()) fail("destroying the wrappers did not destroy their values exactly once");
  }
  uint64_t hash() const {
    Hash x;
    for (int i = 0; i < N; ++i) x.add(present[i] ? id[i] + 5 : 0);
    return x;
  }
};

template <typename T> std::vector<Op> alphabet(bool throws) {
  std::vector<Op> r;
  for (unsigned char a = 0; a < 3; ++a) {
    for (unsigned char v = 1; v <= 2; ++v) {
      r.push_back({WRAP, a, v, 0});
      r.push_back({v == 1 ? (unsigned char)SET : (unsigned char)SET_ARROW, a, v, 0});
      if (throws) r.push_back({WRAP_T, a, v, v});
    }
    r.push_back({DESTROY, a, 0, 0});
    for (unsigned char b = 0; b < 3; ++b)
      if (a != b)
        for (unsigned char c : {COPY_CONST, COPY_LVALUE, MOVE, COPY_CONST_RVALUE, BYVAL, COPY_T, MOVE_T}) {
          if (c < WRAP_T)
            r.push_back({c, a, b, 0});
          else if (throws) {
            r.push_back({c, a, b, 1});
            r.push_back({c, a, b, 2});
          }
        }
  }
  return r;
}

template <typename T> struct Run {
  std::string tag;
  bool throws;
  // -> false if the history is not possible; sets hash
  bool run(History const& h, uint64_t* hash) {
    current = &h;
    crumb().fmt = fmt;
    ++beat();
    World<T> w(h, tag);
    for (auto& o : h) {
      if (!w.enabled(o)) {
        w.finish();
        return false;
      }
      w.step(o);
      w.check();
    }
    if (hash) *hash = w.hash();
    w.finish();
    ++R().traces;
    current = nullptr;
    return true;
  }
  void dfs(std::vector<Op> const& ops, History& h, size_t depth) {
    for (auto& o : ops) {
      h.push_back(o);
      if (run(h, nullptr)) {
        ++R().transitions;
        ++R().evaluations;
        if (h.size() < depth) dfs(ops, h, depth);
      }
      h.pop_back();
    }
  }
  void all(size_t depth) {
    std::vector<Op> ops = alphabet<T>(throws);
    std::unordered_set<uint64_t> seen;
    std::deque<History> todo(1);
    uint64_t x = 0;
    run({}, &x);
    seen.insert(x);
    while (!todo.empty()) {
      History h = todo.front();
      todo.pop_front();
      for (auto& o : ops) {
        h.push_back(o);
        if (run(h, &x)) {
          ++R().transitions;
          if (seen.insert(x).second) todo.push_back(h);
        }
        h.pop_back();
      }
    }
    R().states += seen.size();
    History h;
    uint64_t before = R().evaluations;
    dfs(ops, h, depth);
    R().note(strf("%s: %zu merged states (all), %llu unmerged histories of up to %zu of %zu operations", tag.c_str(), seen.size(),
                  (unsigned long long)(R().evaluations - before), depth, ops.size()));
    h = {{WRAP, 0, 1, 0}, {COPY_CONST, 1, 0, 0}, {DESTROY, 0, 0, 0}};
    R().sample(tag + ": " + show(h));
  }
};

// ------------------------------------------------------------ what the type says
template <typename T, bool Nothrow> struct Says {
  typedef move_wrapper<T> W;
  static_assert(std::is_nothrow_move_constructible<T>::value == Nothrow, "the element");
  static_assert(std::is_copy_constructible<W>::value && std::is_move_constructible<W>::value, "copies and moves");
  static_assert(std::is_constructible<W, W&>::value && std::is_constructible<W, W const&&>::value, "copies from anything");
  static_assert(std::is_nothrow_copy_constructible<W>::value == Nothrow, "noexcept copy");
  static_assert(std::is_nothrow_move_constructible<W>::value == Nothrow, "noexcept move");
  static_assert(std::is_nothrow_constructible<W, T&&>::value == Nothrow, "noexcept wrap");
  static_assert(std::is_constructible<W, T&&>::value && !std::is_convertible<T&&, W>::value, "wrapping is explicit");
  static_assert(!std::is_constructible<W, T&>::value && !std::is_constructible<W, T const&>::value, "wrapping takes an rvalue");
  static_assert(std::is_same<decltype(*std::declval<W&>()), T&>::value, "dereference");
  static_assert(std::is_same<decltype(*std::declval<W const&>()), T const&>::value, "const dereference");
  static_assert(std::is_same<decltype(std::declval<W&>().operator->()), T*>::value, "arrow");
  static_assert(std::is_same<decltype(std::declval<W const&>().operator->()), T const*>::value, "const arrow");
  static constexpr bool ok = true;
};
typedef Value<true, true, 8> Plain;
typedef Value<false, true, 8> Throwing;
typedef Value<true, true, 64> Wide;
static_assert(Says<Plain, true>::ok && Says<Throwing, false>::ok && Says<Wide, true>::ok && Says<MoveOnly, true>::ok &&
                  Says<int, true>::ok && Says<std::unique_ptr<int>, true>::ok,
              "");

int main(int argc, char** argv) {
  init(argc, argv);
  size_t d = R().thorough ? DEPTH_T : DEPTH_Q;
  Run<Plain>{"copyable", false}.all(d);
  Run<MoveOnly>{"move-only", false}.all(d);
  Run<Wide>{"over-aligned", false}.all(d - 1);
  Run<Throwing>{"throwing", bool(LIBEMB_EXC)}.all(d);
  // its use: a move-only capture in a copyable callable
  move_wrapper<std::unique_ptr<int>> p(std::unique_ptr<int>(new int(42)));
  std::function<int()> f([p] { return p->get() ? **p : -1; });
  if (*p || f() != 42) V_FAIL("capture", "capturing in a lambda by copy did not move the value along");
  std::function<int()> g(std::move(f));
  if (g() != 42) V_FAIL("capture-move", "moving the lambda lost the value");
  R().finish();
}
