// C31: the names of the third-party variant, and all short histories of variants
// of function wrappers, in lock step with what they should hold.
#include <embedded/variant.h>
// first, such that it has to be self-contained
#include "verif.h"
#include <algorithm>
#include <deque>
#include <embedded/function.h>
#include <set>
#include <string>
#include <unordered_set>
using namespace verif;
namespace em = embedded;

// ---------------------------------------------------------------------- names
static_assert(std::is_same<em::variant<int, char>, mpark::variant<int, char>>::value, "variant");
static_assert(std::is_same<em::monostate, mpark::monostate>::value, "monostate");
static_assert(std::is_same<em::bad_variant_access, mpark::bad_variant_access>::value, "bad_variant_access");
static_assert(em::variant_size<em::variant<int, char>>::value == 2, "variant_size");
static_assert(std::is_same<em::variant_size<em::variant<int>>, mpark::variant_size<mpark::variant<int>>>::value, "variant_size");
static_assert(std::is_same<em::variant_alternative<1, em::variant<int, char>>::type, char>::value, "variant_alternative");
static_assert(std::is_same<em::variant_alternative_t<1, em::variant<int, char>>, char>::value, "variant_alternative_t");
static_assert(em::variant_npos == mpark::variant_npos, "variant_npos");
static_assert(std::is_same<em::in_place_index_t<1>, mpark::in_place_index_t<1>>::value, "in_place_index_t");
static_assert(std::is_same<em::in_place_type_t<int>, mpark::in_place_type_t<int>>::value, "in_place_type_t");

struct Twice {
  template <class T> long operator()(T const& x) const { return 2 * long(x); }
  template <class T, class U> long operator()(T const& x, U const& y) const { return 100 * long(x) + long(y); }
};
template <class V> static long plain(V const& v) { return em::visit(Twice(), v); }
static void names() {
  typedef em::variant<int, char, long> V;
  V const all[] = {V(7), V('c'), V(70000L)};
  long const val[] = {7, 'c', 70000};
  for (int i = 0; i < 3; ++i) {
    for (int k = 0; k < 3; ++k) {
      if (em::visit(Twice(), all[i], all[k]) != 100 * val[i] + val[k]) V_FAIL("names:visit2", "visiting two variants fails");
      V a = all[i];
      a = all[k];
      if (a.index() != std::size_t(k) || plain(a) != 2 * val[k] || !(a == all[k]) || (a == all[i]) != (i == k)) V_FAIL("names:assign", "assigning and comparing fails");
      R().evaluations += 2;
    }
    V v = all[i];
    bool thrown[3] = {};
    try { (void)em::get<0>(v); } catch (em::bad_variant_access const&) { thrown[0] = true; }
    try { (void)em::get<char>(v); } catch (em::bad_variant_access const&) { thrown[1] = true; }
    try { (void)em::get<2>(v); } catch (em::bad_variant_access const&) { thrown[2] = true; }
    bool const holds[] = {em::holds_alternative<int>(v), em::holds_alternative<char>(v), em::holds_alternative<long>(v)};
    bool const ptr[] = {em::get_if<0>(&v) != nullptr, em::get_if<char>(&v) != nullptr, em::get_if<2>(&v) != nullptr};
    for (int k = 0; k < 3; ++k)
      if (thrown[k] != (i != k) || holds[k] != (i == k) || ptr[k] != (i == k)) V_FAIL("names:access", "access to alternative %d of a variant holding %d", k, i);
    if (plain(v) != 2 * val[i]) V_FAIL("names:visit", "visiting fails");
    R().evaluations += 10;
  }
  R().distinct_n += 12;
}

// what access and visitation give, to the letter
typedef em::variant<int, char, long> W;
#define SAME(E, M, ...) static_assert(std::is_same<decltype(E), __VA_ARGS__>::value, M)
SAME(em::get<0>(std::declval<W&>()), "get", int&);
SAME(em::get<0>(std::declval<W const&>()), "get of const", int const&);
SAME(em::get<0>(std::declval<W>()), "get of rvalue", int&&);
SAME(em::get<char>(std::declval<W&>()), "get by type", char&);
SAME(em::get<char>(std::declval<W const&>()), "get by type of const", char const&);
SAME(em::get<char>(std::declval<W>()), "get by type of rvalue", char&&);
SAME(em::get_if<2>(std::declval<W*>()), "get_if", long*);
SAME(em::get_if<2>(std::declval<W const*>()), "get_if of const", long const*);
SAME(em::get_if<long>(std::declval<W const*>()), "get_if by type", long const*);
struct Ref { // gives a reference; tells how it was itself used
  int at[2];
  template <class T> int& operator()(T&) & { return at[0]; }
  template <class T> int const& operator()(T&) const& { return at[1]; }
  template <class T> int&& operator()(T&) && { return static_cast<int&&>(at[1]); }
};
SAME(em::visit(std::declval<Ref&>(), std::declval<W&>()), "visit gives what the visitor gives", int&);
SAME(em::visit(std::declval<Ref const&>(), std::declval<W&>()), "visit with a const visitor", int const&);
SAME(em::visit(std::declval<Ref>(), std::declval<W&>()), "visit with an rvalue visitor", int&&);
struct Category {
  template <class T> int operator()(T&) const { return 1; }
  template <class T> int operator()(T const&) const { return 2; }
  template <class T> typename std::enable_if<!std::is_reference<T>::value && !std::is_const<T>::value, int>::type operator()(T&&) const { return 3; }
  template <class T, class U> int operator()(T&& t, U&& u) const { return 10 * (*this)(std::forward<T>(t)) + (*this)(std::forward<U>(u)); }
};
struct Count {
  int n = 0;
  template <class T> int operator()(T const&) { return ++n; }
};
struct Unmovable : Count {
  Unmovable() {}
  Unmovable(Unmovable const&) = delete;
};
static void categories() {
  W a('x');
  W const b(7L);
  Category c;
  if (em::visit(c, a) != 1 || em::visit(c, b) != 2 || em::visit(c, std::move(a)) != 3) V_FAIL("names:category", "visit changes the value category of the alternative");
  if (em::visit(c, a, b) != 12 || em::visit(c, std::move(a), a) != 31 || em::visit(c, b, std::move(a)) != 23) V_FAIL("names:category2", "visiting two changes a value category");
  Ref r{};
  if (&em::visit(r, a) != r.at) V_FAIL("names:reference", "visit gives a reference to something else");
  Unmovable u;
  for (int i = 1; i <= 3; ++i)
    if (em::visit(u, a) != i || u.n != i) V_FAIL("names:visitor", "the visitor is not the caller's own object");
  W v(em::in_place_index_t<2>{}, 9);
  if (v.index() != 2 || em::get<2>(v) != 9) V_FAIL("names:in_place", "construction in place");
  W t(em::in_place_type_t<char>{}, 'y');
  if (t.index() != 1 || em::get<1>(t) != 'y') V_FAIL("names:in_place", "construction in place by type");
  em::variant<em::monostate, int> m;
  if (m.index() != 0 || !em::holds_alternative<em::monostate>(m)) V_FAIL("names:monostate", "a variant starts with its first alternative");
  R().evaluations += 14, R().distinct_n += 14;
}

// which wrapper a callable finds
struct GivesInt { int operator()(int x) { return x; } };
struct GivesText { std::string operator()(int x) { return std::string(std::size_t(x), 't'); } };
struct GivesBoth {
  int operator()(int x) { return x; }
  int operator()(std::string const&) { return 0; }
};
struct OnLvalue { int operator()(std::string& s) const { return int(s.size()); } };
struct OnRvalue { int operator()(std::string&& s) const { return int(s.size()); } };
struct Mutable { int operator()(int x) { return x + n++; } int n = 0; };
struct Const { int operator()(int x, int) const { return x; } };
typedef em::variant<em::function<int(int)>, em::function<std::string(int)>> ByResult;
typedef em::variant<em::function<int(int)>, em::function<int(std::string const&)>> ByArgument;
typedef em::variant<em::function<int(std::string&) const>, em::function<int(std::string&&) const>> ByCategory;
typedef em::variant<em::function<int(int) const>, em::function<int(int, int) const>> OfConst;
typedef em::variant<em::monostate, em::function<void()>, em::function<void(int)>> OfVoid;
template <class X, class C, bool ok> struct Finds {
  static_assert(std::is_constructible<X, C>::value == ok, "a callable finds its alternative");
  static_assert(std::is_assignable<X&, C>::value == ok, "a callable finds its alternative");
};
template struct Finds<ByResult, GivesInt, true>;
template struct Finds<ByResult, GivesText, true>;
template struct Finds<ByResult, Const, false>;
template struct Finds<ByArgument, GivesInt, true>;
template struct Finds<ByArgument, GivesBoth, false>;
template struct Finds<ByArgument, GivesText, false>;
template struct Finds<ByCategory, OnLvalue, true>;
template struct Finds<ByCategory, OnRvalue, true>;
template struct Finds<ByCategory, GivesInt, false>;
template struct Finds<OfConst, Const, true>;
template struct Finds<OfConst, Mutable, false>;
template struct Finds<OfVoid, Const, false>;
template struct Finds<OfVoid, Mutable, true>;
static void finds() {
  ByResult r{GivesInt()};
  bool ok = r.index() == 0 && em::get<0>(r)(5) == 5;
  r = GivesText();
  ok = ok && r.index() == 1 && em::get<1>(r)(3) == "ttt";
  ByCategory c{OnRvalue()};
  std::string s("four");
  ok = ok && c.index() == 1 && em::get<1>(c)(std::move(s)) == 4;
  c = OnLvalue();
  ok = ok && c.index() == 0 && em::get<0>(c)(s) == int(s.size());
  OfConst k{Const()};
  ok = ok && k.index() == 1 && em::get<1>(k)(6, 0) == 6;
  OfVoid v{Mutable()};
  ok = ok && v.index() == 2;
  em::get<2>(v)(1);
  if (!ok) V_FAIL("variants:finds", "a callable found the wrong alternative");
  R().evaluations += 7, R().distinct_n += 7;
}

// ------------------------------------------------------------------ histories
struct Boom {};
static std::set<void const*> living;
static std::string error;
struct Tracked {
  int id, calls;
  Tracked(int i) : id(i), calls(0) { born(); }
  Tracked(Tracked const& o) : id(o.id), calls(o.calls) { alive(&o), born(); }
  Tracked(Tracked&& o) noexcept : id(o.id), calls(o.calls) {
    alive(&o), born();
    o.id = -1;
  }
  ~Tracked() {
    if (!living.erase(this)) error = "something that is not alive was destroyed";
  }
  Tracked& operator=(Tracked const&) = delete;
  void born() {
    if (!living.insert(this).second) error = "an object was created on a living one";
  }
  static void alive(void const* p) {
    if (!living.count(p)) error = "a dead object was used";
  }
  // -1 throws, -2 tells without changing
  int call(int x) {
    alive(this);
    if (x == -1) throw Boom();
    return id * 1000 + 10 * (x == -2 ? calls : ++calls) + (x == -2 ? 0 : x);
  }
};
struct Int1 : Tracked {
  using Tracked::Tracked;
  int operator()(int x) { return call(x); }
};
struct Int2 : Tracked {
  using Tracked::Tracked;
  int operator()(int x, int y) { return call(x < 0 ? x : x + y); }
};
struct Str : Tracked {
  using Tracked::Tracked;
  int operator()(std::string const& s) { return call(s == "boom" ? -1 : s == "peek" ? -2 : int(s.size())); }
};
typedef em::function<int(int)> F1;
typedef em::function<int(int, int)> F2;
typedef em::function<int(std::string const&)> F3;
typedef em::variant<F1, F2, F3> V;
// a callable finds its alternative on its own
static_assert(std::is_constructible<V, Int1>::value && std::is_assignable<V&, Int1>::value, "");
static_assert(std::is_constructible<V, Int2>::value && std::is_assignable<V&, Int2>::value, "");
static_assert(std::is_constructible<V, Str>::value && std::is_assignable<V&, Str>::value, "");
static_assert(!std::is_constructible<V, int>::value && !std::is_constructible<V, void (*)()>::value, "");
static_assert(std::is_move_constructible<V>::value && std::is_move_assignable<V>::value, "");
static_assert(!std::is_copy_constructible<V>::value, "");

static int ask(F1& f, int x) { return f(x); }
static int ask(F2& f, int x) { return x < 0 ? f(x, 0) : f(x - 1, 1); }
static int ask(F3& f, int x) { return f(x == -1 ? "boom" : x == -2 ? "peek" : std::string(std::size_t(x), 'x')); }

struct Ask {
  int x;
  template <class F> int operator()(F& f) const { return ask(f, x); }
};
struct Take { // by value: moves the wrapper out of the variant
  int x;
  template <class F> int operator()(F f) const { return ask(f, x); }
};
struct Holds {
  template <class F> bool operator()(F const& f) const { return static_cast<bool>(f); }
};

enum Code : unsigned char { ASSIGN, ASSIGN_WRAPPER, EMPLACE, EMPTY, MOVE, MOVE_CTOR, SWAP, VISIT, VISIT_THROW, TAKE, GET_MOVE, REPLACE };
static char const* const CODE[] = {"assign callable", "assign wrapper", "emplace", "assign empty wrapper", "move", "move via new variant", "swap", "visit", "visit and throw", "visit rvalue", "move out alternative", "assign through get"};
struct Op {
  unsigned char code, a, b;
};
typedef std::vector<Op> History;
static std::string show(History const& h) {
  std::string s;
  for (auto& o : h) s += strf("%s(%d,%d); ", CODE[o.code], o.a, o.b);
  return s;
}
static History const* current;
static std::string crumb_text;

struct Held {
  int index, id, calls; // id 0: empty wrapper
};
struct World {
  V v[2];
  Held m[2];
  int next;
  History const& h;
  World(History const& hh) : next(1), h(hh) { m[0] = m[1] = Held{0, 0, 0}; }
  void fail(char const* what) { V_FAIL(std::string("variants:") + what, "%s, after %s", what, show(h).c_str()); }
  void put(int a, int kind, int how) {
    int const id = next++;
    if (how == ASSIGN) {
      if (kind == 0) v[a] = Int1(id);
      if (kind == 1) v[a] = Int2(id);
      if (kind == 2) v[a] = Str(id);
    } else if (how == ASSIGN_WRAPPER) {
      if (kind == 0) v[a] = F1(Int1(id));
      if (kind == 1) v[a] = F2(Int2(id));
      if (kind == 2) {
        V t{F3(Str(id))};
        v[a] = std::move(t);
      }
    } else {
      if (kind == 0) v[a].emplace<0>(Int1(id));
      if (kind == 1) v[a].emplace<F2>(Int2(id));
      if (kind == 2) v[a].emplace<2>(Str(id));
    }
    m[a] = Held{kind, id, 0};
  }
  void step(Op const& o) {
    switch (o.code) {
    case ASSIGN:
    case ASSIGN_WRAPPER:
    case EMPLACE: put(o.a, o.b, o.code); break;
    case EMPTY:
      if (o.b == 0) v[o.a] = F1();
      if (o.b == 1) v[o.a] = F2(nullptr);
      if (o.b == 2) v[o.a].emplace<F3>();
      m[o.a] = Held{o.b, 0, 0};
      break;
    case MOVE:
      v[o.a] = std::move(v[o.b]);
      m[o.a] = m[o.b];
      m[o.b].id = m[o.b].calls = 0;
      break;
    case MOVE_CTOR: {
      V t(std::move(v[o.b]));
      if (em::visit(Holds(), v[o.b])) fail("a variant's wrapper is not empty after being moved from");
      v[o.a] = std::move(t);
      Held const x = m[o.b];
      m[o.b].id = m[o.b].calls = 0;
      m[o.a] = x;
      break;
    }
    case SWAP: {
      using std::swap;
      swap(v[0], v[1]);
      swap(m[0], m[1]);
      break;
    }
    case VISIT:
    case TAKE: {
      Held& x = m[o.a];
      int got = 0;
      bool thrown = false;
      try {
        got = o.code == VISIT ? em::visit(Ask{3}, v[o.a]) : em::visit(Take{3}, std::move(v[o.a]));
      } catch (std::bad_function_call const&) { thrown = true; }
      if (thrown != (x.id == 0)) fail("calling through a visit throws wrongly");
      if (x.id) {
        ++x.calls;
        if (got != x.id * 1000 + 10 * x.calls + 3) fail("calling through a visit gives the wrong result");
      }
      if (o.code == TAKE) x.id = x.calls = 0;
      break;
    }
    case VISIT_THROW: {
      bool boom = false, bad = false;
      try {
        em::visit(Ask{-1}, v[o.a]);
      } catch (Boom&) { boom = true; } catch (std::bad_function_call const&) {
        bad = true;
      }
      if (boom != (m[o.a].id != 0) || bad == boom) fail("an exception of the target is lost in a visit");
      break;
    }
    case GET_MOVE: { // into a wrapper and back into the other variant
      bool thrown = false;
      try {
        if (o.b == 0) {
          F1 f(em::get<0>(std::move(v[o.a])));
          v[1 - o.a] = std::move(f);
        } else if (o.b == 1) {
          F2 f(em::get<F2>(std::move(v[o.a])));
          v[1 - o.a] = std::move(f);
        } else {
          F3 f(std::move(em::get<2>(v[o.a])));
          v[1 - o.a] = std::move(f);
        }
      } catch (em::bad_variant_access const&) { thrown = true; }
      if (thrown != (m[o.a].index != o.b)) fail("get throws wrongly");
      if (!thrown) {
        m[1 - o.a] = m[o.a];
        m[o.a].id = m[o.a].calls = 0;
      }
      break;
    }
    case REPLACE: {
      int const id = next++;
      bool thrown = false;
      try {
        if (o.b == 0) em::get<F1>(v[o.a]) = Int1(id);
        if (o.b == 1) em::get<1>(v[o.a]) = Int2(id);
        if (o.b == 2) em::get<F3>(v[o.a]) = Str(id);
      } catch (em::bad_variant_access const&) { thrown = true; }
      if (thrown != (m[o.a].index != o.b)) fail("get throws wrongly");
      if (!thrown) m[o.a] = Held{o.b, id, 0};
      break;
    }
    }
  }
  void check() {
    std::size_t n = 0;
    for (int i = 0; i < 2; ++i) {
      Held const& x = m[i];
      if (v[i].index() != std::size_t(x.index)) {
        fail("the variant holds the wrong alternative");
        return;
      }
      if (em::holds_alternative<F1>(v[i]) != (x.index == 0) || em::holds_alternative<F2>(v[i]) != (x.index == 1) || em::holds_alternative<F3>(v[i]) != (x.index == 2)) fail("holds_alternative is wrong");
      if ((em::get_if<F1>(&v[i]) != nullptr) != (x.index == 0) || (em::get_if<1>(&v[i]) != nullptr) != (x.index == 1) || (em::get_if<F3>(&v[i]) != nullptr) != (x.index == 2)) fail("get_if is wrong");
      if (em::visit(Holds(), v[i]) != (x.id != 0)) {
        fail("the wrapper in the variant is empty or not, wrongly");
        return;
      }
      if (x.id) {
        ++n;
        if (em::visit(Ask{-2}, v[i]) != x.id * 1000 + 10 * x.calls) fail("the wrapper in the variant holds the wrong target");
      }
    }
    if (living.size() != n) fail("the number of living callables is wrong");
    for (void const* p : living) {
      char const* c = static_cast<char const*>(p);
      char const *a = reinterpret_cast<char const*>(&v[0]), *b = reinterpret_cast<char const*>(&v[1]);
      if (!(c >= a && c < a + sizeof(V)) && !(c >= b && c < b + sizeof(V))) fail("a callable is not inside its variant");
    }
    if (!error.empty()) fail(error.c_str());
  }
  uint64_t hash() const {
    Hash x;
    for (auto& k : m) x.add(k.index * 8 + (k.id ? 1 + (k.calls < 3 ? k.calls : 3) : 0));
    return x;
  }
};

static bool run(History const& h, uint64_t* hash) {
  current = &h;
  crumb_text = show(h);
  crumb().what = crumb_text.c_str();
  crumb().n = 0;
  ++beat();
  error.clear();
  {
    World w(h);
    for (auto& o : h) {
      w.step(o);
      w.check();
    }
    if (hash) *hash = w.hash();
  }
  if (!living.empty() || !error.empty()) {
    V_FAIL("variants:end", "destroying the variants did not destroy the callables exactly once, after %s", show(h).c_str());
    living.clear();
  }
  ++R().traces;
  ++R().evaluations;
  return true;
}

int main(int argc, char** argv) {
  init(argc, argv);
  names();
  categories();
  finds();
  std::vector<Op> ops;
  for (unsigned char a = 0; a < 2; ++a) {
    for (unsigned char k = 0; k < 3; ++k)
      for (unsigned char c : {ASSIGN, ASSIGN_WRAPPER, EMPLACE, EMPTY, GET_MOVE, REPLACE}) ops.push_back({c, a, k});
    for (unsigned char c : {MOVE, MOVE_CTOR}) ops.push_back({c, a, (unsigned char)(1 - a)});
    for (unsigned char c : {VISIT, VISIT_THROW, TAKE}) ops.push_back({c, a, 0});
  }
  ops.push_back({MOVE_CTOR, 0, 0}); // away and back
  ops.push_back({SWAP, 0, 1});
  // every operation from every state
  std::unordered_set<uint64_t> seen;
  std::deque<History> todo(1);
  uint64_t x = 0;
  run({}, &x);
  seen.insert(x);
  while (!todo.empty()) {
    History h = todo.front();
    todo.pop_front();
    for (auto& o : ops) {
      h.push_back(o);
      run(h, &x);
      ++R().transitions;
      if (seen.insert(x).second) todo.push_back(h);
      h.pop_back();
    }
  }
  R().states += seen.size();
  // every history without merging
  int const depth = DEPTH + R().thorough;
  History h;
  struct Rec {
    static void go(std::vector<Op> const& ops, History& h, int left) {
      for (auto& o : ops) {
        h.push_back(o);
        if (left == 1) run(h, nullptr), ++R().transitions; // prefixes are checked on the way
        else go(ops, h, left - 1);
        h.pop_back();
      }
    }
  };
  Rec::go(ops, h, depth);
  R().note(strf("%zu merged states, all histories of %d of %zu operations", seen.size(), depth, ops.size()));
  R().sample(show({{ASSIGN, 0, 0}, {MOVE, 1, 0}, {TAKE, 1, 0}}));
  R().finish();
}
