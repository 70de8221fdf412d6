// C12: signatures x callables: what is accepted, and what reaches the target.
#include "verif.h"
#include <embedded/function.h>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
using namespace verif;
using embedded::function;

// ------------------------------------------------------------ helper types
struct V { // copyable, counts
  int id;
  static int copies, moves, live;
  explicit V(int i) : id(i) { ++live; }
  V(V const& o) : id(o.id) { ++copies; ++live; }
  V(V&& o) noexcept : id(o.id) { o.id = -1; ++moves; ++live; }
  ~V() { id = -2; --live; }
  V& operator=(V const&) = delete;
};
int V::copies, V::moves, V::live;
struct M { // move-only
  int id;
  explicit M(int i) : id(i) {}
  M(M&& o) noexcept : id(o.id) { o.id = -1; }
  M(M const&) = delete;
  ~M() { id = -2; }
};
struct Base { int b = 1; };
struct Derived : Base { int d = 2; };
struct FromInt { FromInt(int x) : v(x) {} int v; };      // implicitly convertible
struct ExplInt { explicit ExplInt(int x) : v(x) {} int v; }; // not
struct Obj {
  int x = 7;
  int get() { return x + 100; }
  int cget() const { return x + 200; }
  int add(int y) { return x += y; }
  int cadd(int y) const { return x + y; }
  int& ref() { return x; }
  void set(int y) { x = y; }
  int take(M m) { return x + m.id; }
  int const* ptr = nullptr;
};

// ---------------------------------------------------- reference acceptance
template <typename...> struct voider { typedef void type; };
template <typename Void, typename F, typename... A> struct call_result { static constexpr bool ok = false; typedef void type; };
template <typename F, typename... A>
struct call_result<typename voider<decltype(std::declval<F>()(std::declval<A>()...))>::type, F, A...> {
  static constexpr bool ok = true;
  typedef decltype(std::declval<F>()(std::declval<A>()...)) type;
};
template <typename Sig, typename C> struct Expect;
template <typename R, typename... A, typename C> struct Expect<R(A...), C> {
  typedef call_result<void, C&, A...> cr;
  static constexpr bool value = cr::ok && (std::is_void<R>::value || std::is_convertible<typename cr::type, R>::value);
  // a reference bound to the temporary result dangles; standard libraries differ in whether they say so
  static constexpr bool dangles = value && std::is_reference<R>::value && !std::is_reference<typename cr::type>::value;
#if defined(__cpp_lib_is_invocable)
  static_assert(dangles || value == std::is_invocable_r<R, C&, A...>::value, "the reference agrees with the standard");
#endif
};
template <typename R, typename... A, typename C> struct Expect<R(A...) const, C> : Expect<R(A...), C const> {};
template <typename R, typename... A, typename C> struct Expect<R(A...) const, C*> : Expect<R(A...), C* const> {};

// ----------------------------------------------------------------- callables
#define CALLABLE(n, ret, args, q)    \
  struct n {                         \
    ret operator() args q;           \
  }
CALLABLE(C_v, void, (), );
CALLABLE(C_vc, void, (), const);
CALLABLE(C_i, int, (), );
CALLABLE(C_ic, int, (), const);
CALLABLE(C_il, int, (), &);
CALLABLE(C_icl, int, (), const&);
CALLABLE(C_ir, int, (), &&);
CALLABLE(C_icr, int, (), const&&);
CALLABLE(C_d, double, (), const);
CALLABLE(C_p, int*, (), const);
CALLABLE(C_fi, FromInt, (), const);
CALLABLE(C_ei, ExplInt, (), const);
CALLABLE(C_m, M, (), const);
CALLABLE(C_V, V, (), const);
CALLABLE(C_Vl, V&, (), const);
CALLABLE(C_Vcl, V const&, (), const);
CALLABLE(C_Vr, V&&, (), const);
CALLABLE(C_bd, Derived*, (), const);
CALLABLE(C_db, Base*, (), const);
CALLABLE(A_i, int, (int), );
CALLABLE(A_ic, int, (int), const);
CALLABLE(A_il, int, (int&), const);
CALLABLE(A_icl, int, (int const&), const);
CALLABLE(A_ir, int, (int&&), const);
CALLABLE(A_d, double, (double), const);
CALLABLE(A_p, int, (int*), const);
CALLABLE(A_pc, int, (int const*), const);
CALLABLE(A_V, int, (V), const);
CALLABLE(A_Vl, int, (V&), const);
CALLABLE(A_Vcl, int, (V const&), const);
CALLABLE(A_Vr, int, (V&&), const);
CALLABLE(A_M, int, (M), const);
CALLABLE(A_Mr, int, (M&&), const);
CALLABLE(A_Ml, int, (M&), );
CALLABLE(A_fi, void, (FromInt), const);
CALLABLE(A_ei, void, (ExplInt), const);
CALLABLE(A_b, int, (Base*), const);
CALLABLE(A_ii, int, (int, int), const);
CALLABLE(A_iid, int, (int, int = 3), const);
CALLABLE(A_var, int, (...), const);
struct A_tmpl { template <typename T> int operator()(T&&) const; };
struct A_pack { template <typename... T> int operator()(T&&...); };
struct A_both { int operator()(int); long operator()(int) const; };
struct A_over { int operator()(int&) const; V operator()(V&&) const; void operator()() const; };
struct A_del { int operator()(int) const; int operator()(double) const = delete; };
struct A_priv { private: int operator()(int) const; };
struct A_none {};
typedef int (*F_i)(int);
typedef void (*F_v)();
typedef int (*F_r)(V&);
typedef decltype(std::bind(std::declval<int (*)(int, int)>(), 1, std::placeholders::_1)) B_1;
typedef std::reference_wrapper<A_i> RW_i;
typedef std::reference_wrapper<A_ic const> RW_ic;

template <typename... T> struct List {};
typedef List<C_v, C_vc, C_i, C_ic, C_il, C_icl, C_ir, C_icr, C_d, C_p, C_fi, C_ei, C_m, C_V, C_Vl, C_Vcl, C_Vr, C_bd, C_db, A_i, A_ic,
             A_il, A_icl, A_ir, A_d, A_p, A_pc, A_V, A_Vl, A_Vcl, A_Vr, A_M, A_Mr, A_Ml, A_fi, A_ei, A_b, A_ii, A_iid, A_var, A_tmpl,
             A_pack, A_both, A_over, A_del, A_priv, A_none, F_i, F_v, F_r, B_1, RW_i, RW_ic>
    Callables;
#define BOTH(...) __VA_ARGS__, __VA_ARGS__ const
typedef List<BOTH(void()), BOTH(int()), BOTH(long()), BOTH(double()), BOTH(int*()), BOTH(int const*()), BOTH(FromInt()), BOTH(ExplInt()),
             BOTH(M()), BOTH(V()), BOTH(V const()), BOTH(V& ()), BOTH(V const& ()), BOTH(V && ()), BOTH(Base*()), BOTH(Derived*()), BOTH(bool())>
    Sigs0;
typedef List<BOTH(void(int)), BOTH(int(int)), BOTH(long(int)), BOTH(int*(int)), BOTH(int(int&)), BOTH(int(int const&)), BOTH(int(int&&)),
             BOTH(int(short)), BOTH(int(double)), BOTH(int(int*)), BOTH(int(int const*)), BOTH(int(V)), BOTH(int(V&)), BOTH(int(V const&)),
             BOTH(int(V&&)), BOTH(V(V&&)), BOTH(void(V const&)), BOTH(int(M)), BOTH(int(M&)), BOTH(int(M const&)), BOTH(int(M&&)),
             BOTH(void(FromInt)), BOTH(void(ExplInt)), BOTH(int(Derived*)), BOTH(int(Base*)), BOTH(int(int, int)), BOTH(int(int, int, int)),
             BOTH(void(A_none))>
    Sigs1;

template <typename Sig, typename C> struct Accept {
  typedef function<Sig, 64, 16> F;
  // bit 0: expected; the others: each way of asking
  static constexpr unsigned value =
      Expect<Sig, C>::dangles
          ? 256u
          : unsigned(Expect<Sig, C>::value) | std::is_constructible<F, C>::value << 1 | std::is_constructible<F, C&>::value << 2 |
                std::is_constructible<F, C const&>::value << 3 | std::is_convertible<C, F>::value << 4 |
                std::is_assignable<F&, C>::value << 5 | std::is_assignable<F&, C&>::value << 6;
};
static void judge(const char* what, int si, int ci, unsigned v, const char* row) {
  if (v == 256u) return;
  ++beat();
  bool want = v & 1;
  R().evaluations += 6;
  R().distinct_n += want;
  for (int i = 1; i <= 6; ++i)
    if (bool(v >> i & 1) != want)
      V_FAIL(strf("accept:%s:%d:%d:%d", what, i, si, ci),
             "%s: signature #%d, callable #%d, question %d of construct, from lvalue, from const, convert, assign, assign lvalue: "
             "answer %d, expected %d [%s]",
             what, si, ci, i, !want, want, row);
}
template <typename Sig, typename... C> void accept_row(int si, List<C...>) {
  static const unsigned v[] = {Accept<Sig, C>::value...};
  for (int i = 0; i < int(sizeof...(C)); ++i) judge("callable", si, i, v[i], __PRETTY_FUNCTION__);
}
template <typename... S> void accept_all(int base, List<S...>) {
  int x[] = {(accept_row<S>(base++, Callables()), 0)...};
  (void)x;
}

// member pointers are accepted by the same rule, as std::mem_fn of them
typedef List<int (Obj::*)(), int (Obj::*)() const, int (Obj::*)(int), int (Obj::*)(int) const, int& (Obj::*)(), void (Obj::*)(int),
             int (Obj::*)(M), int Obj::*, int const* Obj::*, V (Obj::*)(), M (Obj::*)(M&&) const>
    Members;
typedef List<BOTH(void(Obj&)), BOTH(int(Obj&)), BOTH(int(Obj const&)), BOTH(int(Obj*)), BOTH(int(Obj const*)), BOTH(int(Obj)),
             BOTH(int&(Obj&)), BOTH(int const*(Obj&)), BOTH(int(Obj&, int)), BOTH(int(Obj const&, int)), BOTH(void(Obj&, int)), BOTH(int(Obj&, M)),
             BOTH(M(Obj&, M)), BOTH(void(M)), BOTH(int()), BOTH(int(int)), BOTH(V(Obj&)), BOTH(M(Obj const*, M&&)), BOTH(int(Obj&, int, int))>
    MemberSigs;
template <typename Sig, typename P> struct AcceptMember {
  typedef function<Sig, 64, 16> F;
  typedef decltype(std::mem_fn(std::declval<P>())) C;
  static constexpr unsigned value =
      Expect<Sig, C>::dangles
          ? 256u
          : unsigned(Expect<Sig, C>::value) | std::is_constructible<F, P>::value << 1 | std::is_constructible<F, P&>::value << 2 |
                std::is_constructible<F, P const&>::value << 3 | std::is_convertible<P, F>::value << 4 |
                std::is_assignable<F&, P>::value << 5 | std::is_assignable<F&, P&>::value << 6;
};
template <typename Sig, typename... P> void member_row(int si, List<P...>) {
  static const unsigned v[] = {AcceptMember<Sig, P>::value...};
  for (int i = 0; i < int(sizeof...(P)); ++i) judge("member pointer", si, i, v[i], __PRETTY_FUNCTION__);
}
template <typename... S> void member_all(List<S...>) {
  int i = 0;
  int x[] = {(member_row<S>(i++, Members()), 0)...};
  (void)x;
}

// overloads on the accepted signature: "as visible to overload resolution"
static int pick(function<int(int)>) { return 1; }
static int pick(function<int(int, int)>) { return 2; }
static int pick(function<void(V&)>) { return 3; }
static int cpick(function<void(Obj&) const>) { return 1; }
static int cpick(function<void(M)>) { return 2; }

// ----------------------------------------------------------- how it is called
template <typename Void, typename F, typename... A> struct callable_as : std::false_type {};
template <typename F, typename... A>
struct callable_as<typename voider<decltype(std::declval<F>()(std::declval<A>()...))>::type, F, A...> : std::true_type {};
template <typename F, typename... A> constexpr bool can_call() { return callable_as<void, F, A...>::value; }

template <typename Sig> struct Props;
template <typename R, typename... A> struct Props<R(A...)> {
  typedef function<R(A...)> F;
  static_assert(can_call<F&, A...>() && can_call<F, A...>(), "non-const calls");
  static_assert(!can_call<F const&, A...>() && !can_call<F const, A...>(), "no calls through a const wrapper of a plain signature");
  static_assert(std::is_same<decltype(std::declval<F&>()(std::declval<A>()...)), R>::value, "result type");
  static constexpr bool ok = true;
};
template <typename R, typename... A> struct Props<R(A...) const> {
  typedef function<R(A...) const> F;
  static_assert(can_call<F&, A...>() && can_call<F, A...>() && can_call<F const&, A...>(), "calls through const and non-const");
  static_assert(std::is_same<decltype(std::declval<F const&>()(std::declval<A>()...)), R>::value, "result type");
  static_assert(std::is_same<decltype(std::declval<F&>()(std::declval<A>()...)), R>::value, "result type");
  static constexpr bool ok = true;
};
// a wrapper cannot be made from one of another kind, nor from one that stays
template <typename F, typename W> constexpr bool no_target() {
  return !std::is_constructible<F, W>::value && !std::is_constructible<F, W&>::value && !std::is_constructible<F, W const&>::value &&
         !std::is_constructible<F, W const>::value && !std::is_assignable<F&, W>::value && !std::is_assignable<F&, W&>::value &&
         !std::is_assignable<F&, W const&>::value && !std::is_convertible<W, F>::value;
}
template <typename S> struct Common {
  typedef function<S> F;
  static_assert(no_target<F, F&>() && no_target<F, F const&>() && no_target<F, F const>() && no_target<F, function<S, 8>>() && no_target<F, function<S, 64>>() &&
                    no_target<F, function<S, 24, 32>>() && no_target<function<S, 256, 64>, F>() && no_target<function<S, 8>, F>(),
                "wrappers are no targets");
  static_assert(!std::is_copy_constructible<F>::value && !std::is_copy_assignable<F>::value, "move-only");
  static_assert(std::is_nothrow_move_constructible<F>::value && std::is_nothrow_move_assignable<F>::value, "moves do not throw");
  static_assert(std::is_nothrow_default_constructible<F>::value && std::is_nothrow_constructible<F, std::nullptr_t>::value, "empty");
  static_assert(std::is_assignable<F&, std::nullptr_t>::value, "assign nullptr");
  static_assert(std::is_constructible<bool, F const&>::value && !std::is_convertible<F const&, bool>::value, "explicit bool");
  static constexpr bool ok = Props<S>::ok;
};
static_assert(no_target<function<int()>, function<long()>>() && no_target<function<int()>, function<int() const>>() && no_target<function<int() const>, function<int()>>() &&
                  no_target<function<void()>, function<int()>>() && no_target<function<void(int)>, function<void(long)>>() && no_target<function<void(), 64>, function<void()>>(),
              "wrappers are no targets");
template <typename... S> void props_all(List<S...>) {
  bool x[] = {Common<S>::ok...};
  R().evaluations += sizeof x;
}

// -------------------------------------------------------------- forwarding
// a target that reports category and identity of what it got
struct Seen {
  int cat = 0; // 1 V&, 2 V const&, 3 V&&, 4 V const&&
  void const* addr = nullptr;
  int id = 0;
  int self = 0; // 10 called as non-const lvalue, 20 const lvalue, 30/40 rvalue
};
static Seen seen;
struct Spy {
#define SPY(q, s)                                                            \
  int operator()(V& v) q { return see(1, &v, v.id, s); }                     \
  int operator()(V const& v) q { return see(2, &v, v.id, s); }               \
  int operator()(V&& v) q { return see(3, &v, v.id, s); }                    \
  int operator()(V const&& v) q { return see(4, &v, v.id, s); }
  SPY(&, 10)
  SPY(const&, 20)
  SPY(&&, 30)
  SPY(const&&, 40)
  static int see(int c, void const* a, int id, int s) {
    seen.cat = c;
    seen.addr = a;
    seen.id = id;
    seen.self = s;
    return c + s;
  }
};
static void expect(const char* what, bool ok) {
  ++R().evaluations;
  ++R().distinct_n;
  ++beat();
  crumb().what = what;
  if (!ok) V_FAIL(what, "%s (category %d, self %d, copies %d, moves %d)", what, seen.cat, seen.self, V::copies, V::moves);
}
static void reset() {
  V::copies = V::moves = 0;
  seen = Seen();
}
template <bool C, typename S> struct MaybeConst { typedef S type; };
template <typename R, typename... A> struct MaybeConst<true, R(A...)> { typedef R type(A...) const; };
template <bool Const, typename S> using Fn = function<typename MaybeConst<Const, S>::type, 64, 16>;

// calls through every kind of access path the signature allows
template <bool Const> struct Paths;
template <> struct Paths<false> {
  template <typename F, typename G> static void each(F& f, G g) {
    g(f);
    g(std::move(f));
    F moved(std::move(f));
    g(moved);
    F assigned;
    assigned = std::move(moved);
    g(assigned);
    std::swap(assigned, moved);
    g(moved);
  }
};
template <> struct Paths<true> {
  template <typename F, typename G> static void each(F& f, G g) {
    F const& c = f;
    g(c);
    g(static_cast<F const&&>(c));
    Paths<false>::each(f, g);
  }
};

template <bool Const> struct Forward {
  static constexpr int S = Const ? 20 : 10;
  struct G_l { template <typename F> void operator()(F&& f) const {
    V v(5); reset(); int r = std::forward<F>(f)(v);
    expect("V& reaches the target as the same lvalue", r == 1 + S && seen.addr == &v && !V::copies && !V::moves); } };
  struct G_cl { template <typename F> void operator()(F&& f) const {
    V v(5); reset(); int r = std::forward<F>(f)(v);
    expect("V const& reaches the target as the same const lvalue", r == 2 + S && seen.addr == &v && !V::copies && !V::moves);
    reset(); r = std::forward<F>(f)(V(6));
    expect("V const& bound to a temporary", r == 2 + S && seen.id == 6 && !V::copies && !V::moves); } };
  struct G_r { template <typename F> void operator()(F&& f) const {
    V v(5); reset(); int r = std::forward<F>(f)(std::move(v));
    expect("V&& reaches the target as the same rvalue", r == 3 + S && seen.addr == &v && !V::copies && !V::moves); } };
  struct G_cr { template <typename F> void operator()(F&& f) const {
    V v(5); reset(); int r = std::forward<F>(f)(static_cast<V const&&>(v));
    expect("V const&& reaches the target as the same const rvalue", r == 4 + S && seen.addr == &v && !V::copies && !V::moves); } };
  struct G_v { template <typename F> void operator()(F&& f) const {
    V v(5); reset(); int r = std::forward<F>(f)(v);
    expect("V by value from an lvalue: one copy, passed on as an rvalue", r == 3 + S && seen.id == 5 && V::copies == 1 && v.id == 5);
    reset(); r = std::forward<F>(f)(V(6));
    expect("V by value from an rvalue: no copy, passed on as an rvalue", r == 3 + S && seen.id == 6 && !V::copies); } };
  static void run() {
    { Fn<Const, int(V&)> f{Spy()}; Paths<Const>::each(f, G_l()); }
    { Fn<Const, int(V const&)> f{Spy()}; Paths<Const>::each(f, G_cl()); }
    { Fn<Const, int(V&&)> f{Spy()}; Paths<Const>::each(f, G_r()); }
    { Fn<Const, int(V const&&)> f{Spy()}; Paths<Const>::each(f, G_cr()); }
    { Fn<Const, int(V)> f{Spy()}; Paths<Const>::each(f, G_v()); }
    { // by value into a by-value target
      Fn<Const, int(V)> f{[](V v) { return v.id; }};
      V v(8);
      reset();
      expect("value to value", f(v) == 8 && V::copies == 1);
      reset();
      expect("value to value, rvalue", f(V(9)) == 9 && V::copies == 0);
    }
    { // signature reference, target by value
      Fn<Const, int(V const&)> f{[](V v) { return v.id; }};
      V v(8);
      reset();
      expect("const reference to value", f(v) == 8 && V::copies == 1 && v.id == 8);
      Fn<Const, int(V&)> g{[](V v) { return v.id; }};
      reset();
      expect("reference to value", g(v) == 8 && V::copies == 1 && v.id == 8);
      Fn<Const, int(V&&)> h{[](V v) { return v.id; }};
      reset();
      expect("rvalue reference to value", h(std::move(v)) == 8 && V::copies == 0 && v.id == -1);
    }
    { // move-only
      Fn<Const, int(M)> f{[](M m) { return m.id; }};
      expect("move-only argument", f(M(4)) == 4);
      M m(5);
      expect("move-only argument, moved", f(std::move(m)) == 5 && m.id == -1);
      Fn<Const, int(M&&)> g{[](M&& x) { return x.id; }};
      M n(6);
      expect("move-only by reference", g(std::move(n)) == 6 && n.id == 6);
      Fn<Const, M(M)> h{[](M x) { return M(x.id + 1); }};
      expect("move-only result", h(M(7)).id == 8);
      Fn<Const, M(M&&)> k{[](M&& x) { return std::move(x); }};
      M o(9);
      expect("move-only through", k(std::move(o)).id == 9 && o.id == -1);
      Fn<Const, std::unique_ptr<int>(std::unique_ptr<int>, int)> u{[](std::unique_ptr<int> p, int x) { *p += x; return p; }};
      expect("unique_ptr", *u(std::unique_ptr<int>(new int(3)), 4) == 7);
    }
    { // many arguments in order
      Fn<Const, int(int, int&, int const&, int&&, V, V&, V const&, V&&, M, M&&)> f{
          [](int a, int& b, int const& c, int&& d, V e, V& g, V const& h, V&& i, M j, M&& k) {
            b += 100;
            g.id += 1;
            return a * 1 + b * 2 + c * 3 + d * 5 + e.id * 7 + g.id * 11 + h.id * 13 + i.id * 17 + j.id * 19 + k.id * 23;
          }};
      int b = 2;
      V g(6), h(7), i(8);
      M k(10);
      int r = f(1, b, 3, 4, V(5), g, h, std::move(i), M(9), std::move(k));
      expect("ten arguments", r == 1 + 2 * 102 + 9 + 20 + 35 + 77 + 91 + 136 + 171 + 230 && b == 102 && g.id == 7 && k.id == 10);
    }
    // results
    static V sv(3);
    {
      Fn<Const, V&()> f{[]() -> V& { return sv; }};
      reset();
      expect("V& result is the same object", &f() == &sv && !V::copies && !V::moves);
      Fn<Const, V const&()> g{[]() -> V const& { return sv; }};
      expect("V const& result is the same object", &g() == &sv && !V::copies && !V::moves);
      Fn<Const, V const&()> g2{[]() -> V& { return sv; }};
      expect("V const& from V& result is the same object", &g2() == &sv && !V::copies && !V::moves);
      Fn<Const, V && ()> h{[]() -> V&& { return std::move(sv); }};
      V&& hr = h();
      expect("V&& result is the same object", &hr == &sv && sv.id == 3 && !V::copies && !V::moves);
      Fn<Const, V()> v{[] { return V(4); }};
      reset();
      expect("V result", v().id == 4 && !V::copies);
      Fn<Const, V()> w{[]() -> V& { return sv; }};
      reset();
      expect("V from V& result: one copy", w().id == 3 && V::copies == 1 && sv.id == 3);
      Fn<Const, V()> x{[]() -> V&& { return std::move(sv); }};
      reset();
      expect("V from V&& result: no copy", x().id == 3 && !V::copies && sv.id == -1);
      sv.id = 3;
      Fn<Const, Base&(Derived&)> bd{[](Derived& d) -> Derived& { return d; }};
      Derived d;
      expect("derived to base", &bd(d) == &d);
      Fn<Const, FromInt(int)> fi{[](int q) { return q + 1; }};
      expect("converted result", fi(4).v == 5);
      Fn<Const, long long(int)> ll{[](int q) { return q; }};
      expect("widened result", ll(-4) == -4);
      Fn<Const, int(double)> di{[](int q) { return q; }};
      expect("converted argument", di(4.75) == 4);
    }
    { // void discards any result
      int calls = 0;
      Fn<Const, void(int)> a{[&calls](int x) { calls += x; return V(x); }};
      reset();
      int live = V::live;
      a(1);
      expect("void discards a value", calls == 1 && !V::copies && !V::moves && V::live == live);
      Fn<Const, void(int)> b{[&calls](int x) { calls += x; return M(x); }};
      b(2);
      Fn<Const, void(int)> c{[&calls](int x) -> V& { calls += x; return sv; }};
      c(3);
      Fn<Const, void(int)> d{[&calls](int x) { calls += x; }};
      d(4);
      Fn<Const, void(int)> e{[&calls](int x) -> V&& { calls += x; return std::move(sv); }};
      e(5);
      expect("void discards values, references, nothing", calls == 15 && sv.id == 3 && !V::copies && !V::moves);
      Fn<Const, void(Obj&)> m{&Obj::x};
      Obj o;
      m(o);
      Fn<Const, void(Obj&)> n{&Obj::ref};
      n(o);
      expect("void discards a member", o.x == 7);
    }
  }
};

static int plain(int x) { return x * 2; }
static int plain_noexcept(int x) noexcept { return x * 3; }
static int plain2(int a, int b) { return a * 10 + b; }
template <typename T> T generic(T x) { return x + 1; }
struct Acc {
  int sum = 0;
  int operator()(int x) { return sum += x; }
};
struct CAcc {
  int sum = 0;
  int operator()(int x) const { return sum + x; }
};
struct Smart { // something to call members through
  Obj* o;
  Obj& operator*() const { return *o; }
};

template <bool Const> void kinds() {
  Fn<Const, int(int)> f;
  expect("empty is false", !f);
  f = &plain;
  expect("function pointer", f && f(4) == 8);
  f = plain;
  expect("function", f(5) == 10);
  f = plain_noexcept;
  expect("noexcept function", f(5) == 15);
  f = generic<int>;
  expect("function template", f(5) == 6);
  Fn<Const, int(int)> g(plain);
  expect("constructed from a function", g(5) == 10);
  f = [](int x) { return x + 7; };
  expect("lambda", f(1) == 8);
  int k = 3;
  f = [k](int x) { return x + k; };
  expect("capturing lambda", f(1) == 4);
  f = [&k](int x) { return k += x; };
  expect("reference capturing lambda", f(1) == 4 && k == 4);
  f = std::bind(plain2, std::placeholders::_1, 7);
  expect("bind", f(1) == 17);
  f = std::bind(plain2, 7, std::placeholders::_1);
  expect("bind second", f(1) == 71);
  Acc acc;
  f = std::ref(acc);
  f(4);
  f(5);
  expect("std::ref refers", acc.sum == 9);
  CAcc cacc;
  cacc.sum = 3;
  f = std::cref(cacc);
  cacc.sum = 4;
  expect("std::cref refers", f(1) == 5);
  CAcc const kc{};
  f = kc;
  expect("const functor", f(3) == 3);

  Fn<Const, int(Obj&)> m(&Obj::get);
  Obj o;
  expect("member function", m && m(o) == 107);
  m = &Obj::cget;
  expect("const member function", m(o) == 207);
  m = &Obj::x;
  expect("data member", m(o) == 7);
  m = static_cast<int (Obj::*)()>(nullptr);
  expect("null member function", !m);
  m = static_cast<int (Obj::*)() const>(nullptr);
  expect("null const member function", !m);
  m = &Obj::get;
  m = static_cast<int Obj::*>(nullptr);
  expect("null data member", !m);
  Fn<Const, int(Obj&)> m0(static_cast<int (Obj::*)()>(nullptr));
  Fn<Const, int(Obj&)> m1(static_cast<int (Obj::*)() const>(nullptr));
  Fn<Const, int(Obj&)> m2(static_cast<int Obj::*>(nullptr));
  expect("constructed from null members", !m0 && !m1 && !m2);
  Fn<Const, int(Obj const&)> mc(&Obj::cget);
  expect("const member function on const", mc(o) == 207);
  Fn<Const, int(Obj*)> mp(&Obj::get);
  expect("member function through a pointer", mp(&o) == 107);
  Fn<Const, int(Obj const*)> mcp(&Obj::cget);
  expect("const member function through a pointer", mcp(&o) == 207);
  Fn<Const, int(Smart)> ms(&Obj::get);
  expect("member function through a smart pointer", ms(Smart{&o}) == 107);
  Fn<Const, int(Obj*)> md(&Obj::x);
  expect("data member through a pointer", md(&o) == 7);
  Fn<Const, int&(Obj&)> mr(&Obj::x);
  mr(o) = 11;
  expect("data member by reference", o.x == 11 && &mr(o) == &o.x);
  Fn<Const, int&(Obj&)> mrf(&Obj::ref);
  mrf(o) = 12;
  expect("member function returning a reference", o.x == 12);
  Fn<Const, int const&(Obj const&)> mrc(&Obj::x);
  expect("data member by const reference", &mrc(o) == &o.x);
  Fn<Const, int(Obj&, int)> ma(&Obj::add);
  expect("member function with argument", ma(o, 5) == 17 && o.x == 17);
  ma = &Obj::cadd;
  expect("const member function with argument", ma(o, 5) == 22 && o.x == 17);
  Fn<Const, void(Obj&, int)> mv(&Obj::set);
  mv(o, 3);
  expect("void member function", o.x == 3);
  mv = &Obj::add; // result discarded
  mv(o, 4);
  expect("member function, result discarded", o.x == 7);
  Fn<Const, int(Obj&, M)> mt(&Obj::take);
  expect("member function with move-only argument", mt(o, M(5)) == 12);
  Fn<Const, int(Obj)> mo(&Obj::get);
  expect("member function on a value", mo(o) == 107);
  // the wrapper inside another callable
  Fn<Const, int(int)> inner([](int x) { return x + 1; });
  struct Nest {
    Fn<Const, int(int)> f;
    int operator()(int x) { return f(x) * 2; }
    int operator()(int x) const { return call(f, x) * 2; }
    static int call(Fn<true, int(int)> const& f, int x) { return f(x); }
    static int call(Fn<false, int(int)> const&, int) { return -1; }
  };
  function<typename MaybeConst<Const, int(int)>::type, 192, 16> outer(Nest{std::move(inner)});
  expect("wrapper within a callable", outer(4) == 10 && !inner);
}

int main(int argc, char** argv) {
  init(argc, argv);
  accept_all(0, Sigs0());
  accept_all(100, Sigs1());
  member_all(MemberSigs());
  R().sample(strf("acceptance matrix: %llu construct/assign questions, %llu accepted pairs", (unsigned long long)R().evaluations,
                  (unsigned long long)R().distinct_n));
  props_all(Sigs0());
  props_all(Sigs1());
  expect("overload by arity", pick([](int) { return 0; }) == 1 && pick([](int, int) { return 0; }) == 2);
  expect("overload by argument type", pick([](V&) {}) == 3 && pick(A_ii()) == 2);
  expect("overload by member", cpick(&Obj::ref) == 1 && cpick([](M) {}) == 2);
  Forward<false>::run();
  Forward<true>::run();
  kinds<false>();
  kinds<true>();
  // both overloads: the matching one runs
  struct Two {
    int operator()(int) { return 1; }
    int operator()(int) const { return 2; }
  };
  function<int(int)> n{Two()};
  function<int(int) const> c{Two()};
  function<int(int) const> const cc{Two()};
  expect("plain signature runs the non-const overload", n(0) == 1);
  expect("const signature runs the const overload", c(0) == 2 && cc(0) == 2);
  struct Types { // the overloads differ in their result type
    int operator()(int) { return 1; }
    const char* operator()(int) const { return "x"; }
  };
  function<int(int)> t1{Types()};
  function<const char*(int) const> t2{Types()};
  expect("overloads with different results", t1(0) == 1 && *t2(0) == 'x');
  expect("acceptance looks at the matching overload", !std::is_constructible<function<int(int) const>, Types>::value &&
                                                          !std::is_constructible<function<const char*(int)>, Types>::value);
  R().sample(strf("%llu questions and calls in total", (unsigned long long)R().evaluations));
  R().finish();
}
int A_ii::operator()(int, int) const { return 0; }
