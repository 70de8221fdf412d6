// C15: back-ported type traits against the definition in the standard and, in
// C++17, against the standard library's own traits.
#include "verif.h"
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#if defined(BACKPORT)
#undef __cpp_lib_is_invocable
#endif
#include <embedded/type_traits.h>
using namespace verif;

template <class...> struct list {};

// --------------------------------------------------- invocability: reference
// The definition in the standard, for callables that are called as f(args...).
template <class...> struct voider { typedef void type; };
template <class V, class Fn, class... A> struct call { static const bool ok = false; typedef void type; };
template <class Fn, class... A>
struct call<typename voider<decltype(std::declval<Fn>()(std::declval<A>()...))>::type, Fn, A...> {
  static const bool ok = true;
  typedef decltype(std::declval<Fn>()(std::declval<A>()...)) type;
};
template <class R, class Fn, class... A>
struct ref : std::integral_constant<bool, call<void, Fn, A...>::ok &&
                                              (std::is_void<R>::value ||
                                               std::is_convertible<typename call<void, Fn, A...>::type, R>::value)> {};

// ----------------------------------------------------------------- the types
struct Base {
  int x;
};
struct Derived : Base {};
struct MoveOnly {
  MoveOnly();
  MoveOnly(MoveOnly&&);
  MoveOnly& operator=(MoveOnly&&);
};
struct Incomplete;
struct FromInt {
  FromInt(int);
};
struct ExplicitFromInt {
  explicit ExplicitFromInt(int);
};
struct ToInt {
  operator int() const;
};
struct ExplicitToInt {
  explicit operator int() const;
};
struct ToIntRef {
  operator int&();
};
struct FromBaseOnlyRvalue {
  FromBaseOnlyRvalue(Base&&);
};
struct PrivateConv {
 private:
  operator int() const;
};
struct Ambiguous {
  operator int() const;
  operator long() const;
};
struct Abstract {
  virtual void f() = 0;
};
struct NeedsTwo {
  NeedsTwo(int, int);
};
struct DeletedFromDouble {
  DeletedFromDouble(int);
  DeletedFromDouble(double) = delete;
};
enum Enum { E0 };
enum class Scoped { S0 };
union Un {
  int i;
  float f;
};
typedef int Arr[3];
typedef int Func(int);

// Callables
struct FNonConst { int operator()(int); };
struct FConst { int operator()(int) const; };
struct FLvalue { int operator()(int) &; };
struct FConstLvalue { int operator()(int) const&; };
struct FRvalue { int operator()(int) &&; };
struct FConstRvalue { int operator()(int) const&&; };
struct FVolatile { int operator()(int) volatile; };
struct FOverQual {
  int operator()(int) &;
  void operator()(int) const&;
  Base operator()(int) &&;
};
struct FOverConst {
  int& operator()(int);
  void operator()(int) const;
};
struct FOverArg {
  int operator()(int);
  Base operator()(Base const&) const;
  void operator()();
  int& operator()(int, int);
};
struct FTemplate { template <class T> T operator()(T&&) const; };
struct FSfinae { template <class T> auto operator()(T t) const -> decltype(t.x); };
struct FVarTemplate { template <class... T> int operator()(T&&...) const; };
struct FDeleted {
  int operator()(int) = delete;
  int operator()(double);
};
class FPrivate { int operator()(int) const; };
struct FAmbiguous {
  int operator()(int, double);
  int operator()(double, int);
};
struct FDefault { int operator()(int = 0, int = 0) const; };
struct FVariadic { int operator()(int, ...) const; };
struct FSurrogate { operator Func*() const; };
struct FNone {};
struct FInherit : FConst {};
struct FHidden : FConst { void operator()(Base) const; };
struct FNoexcept { int operator()(int) const noexcept; };
struct FAbstract {
  virtual int operator()(int) = 0;
};
struct FFinal final { int operator()(int) const; };
union FUnion {
  int i;
  int operator()(int) const;
};
struct FMoveArg { void operator()(MoveOnly) const; };
struct FRefArg { int operator()(int&) const; };
struct FRvalArg { Base operator()(int&&) const; };
struct FBaseRef { int operator()(Base&) const; };
struct FExplicit { int operator()(ExplicitFromInt) const; };
struct FFromInt { int operator()(FromInt) const; };
struct FPtr { int operator()(void const*) const; };
struct FEnum { int operator()(Scoped) const; };
struct FArr { int operator()(int (&)[3]) const; };
struct FIncomplete { int operator()(Incomplete&) const; };
struct FBaseList { int operator()(FromBaseOnlyRvalue) const; };
static auto const lambda0 = [](int) { return 1; };
static auto const lambda1 = [](int) mutable { return 1.5; };
static auto const lambda2 = [] {};
typedef decltype(lambda0) L0c;
typedef std::remove_const<L0c>::type L0;
typedef decltype(lambda1) L1c;
typedef std::remove_const<L1c>::type L1;
typedef std::remove_const<decltype(lambda2)>::type L2;

typedef list<
    void(), void (*)(), void (&)(), int(int), int (*)(int), int (&)(int), int (*const)(int), int (*&)(int), int (*volatile)(int),
    int(int, ...), Base (*)(Base const&), int (&)(int&), int (*)(int&&), void (*)(MoveOnly), void (*)(Base), int& (*)(int, int),
    FNonConst, FNonConst&, FNonConst const, FNonConst const&, FNonConst&&, FConst, FConst&, FConst const, FConst const&, FConst volatile&,
    FLvalue, FLvalue&, FLvalue const&, FLvalue&&, FConstLvalue, FConstLvalue&, FConstLvalue const&, FConstLvalue const, FRvalue, FRvalue&,
    FRvalue const&, FRvalue const, FConstRvalue, FConstRvalue&, FConstRvalue const, FConstRvalue const&, FVolatile&, FVolatile volatile&,
    FVolatile const&, FOverQual, FOverQual&, FOverQual const&, FOverQual const, FOverConst, FOverConst&, FOverConst const&, FOverArg,
    FOverArg&, FOverArg const&, FTemplate, FSfinae, FVarTemplate, FVarTemplate const&, FDeleted, FPrivate, FAmbiguous, FDefault, FVariadic,
    FSurrogate, FSurrogate const&, FNone, FInherit, FHidden, FNoexcept, FAbstract&, FFinal, FUnion, FMoveArg, FRefArg, FRvalArg, FBaseRef,
    FExplicit, FFromInt, FPtr, FEnum, FArr, FIncomplete, FBaseList, L0, L0&, L0c, L0c&, L1, L1&, L1c, L1c&, L2, L2&, std::function<int(int)>,
    std::function<int(int)> const&, std::reference_wrapper<FNonConst>, std::reference_wrapper<FConst const>, std::unique_ptr<FConst>,
    FConst*, int, int&, void, std::nullptr_t, Enum>
    Callables;
#ifndef PACKS
#define PACKS 0
#endif
#if PACKS == 0
typedef list<list<>, list<int const&>, list<short>, list<void*>, list<Base>, list<Base&&>, list<Derived const&>, list<MoveOnly const&>, list<Scoped&>, list<ToIntRef>, list<Ambiguous>, list<Arr const&>, list<Incomplete&>, list<ExplicitFromInt>, list<double, int>, list<Base, Base>, list<Un>> Packs;
#endif
#if PACKS == 1
typedef list<list<int>, list<int&&>, list<double>, list<std::nullptr_t>, list<Base&>, list<Derived>, list<MoveOnly>, list<Enum>, list<ToInt>, list<ToIntRef&>, list<Arr>, list<Func>, list<Incomplete const&>, list<int, int>, list<int&, int&>, list<int, int, int>> Packs;
#endif
#if PACKS == 2
typedef list<list<int&>, list<int const>, list<double&>, list<char const*>, list<Base const&>, list<Derived&>, list<MoveOnly&>, list<Scoped>, list<ExplicitToInt>, list<PrivateConv>, list<Arr&>, list<Func*>, list<FromInt>, list<int, double>, list<int, Base>, list<int volatile&>> Packs;
#endif
typedef list<void, const void, int, int&, Base> FewResults;

typedef list<void, int, int&, int const&, int&&, int const&&, int const, short, double, double&, bool, char const*, int*, void*, void const*,
             Base, Base&, Base const&, Base&&, Base const, Derived, Derived&, Derived const&, Base*, Derived*, Derived const*, MoveOnly,
             MoveOnly&, MoveOnly const&, MoveOnly&&, std::nullptr_t, Enum, Scoped, ToInt, ToInt&, ExplicitToInt, ToIntRef&, PrivateConv,
             Ambiguous, Arr&, Arr const&, Arr&&, Func&, Func*, FromInt, ExplicitFromInt, Abstract&, Incomplete&, FConst, std::unique_ptr<int>, Un>
    Produced;
typedef list<void, const void, volatile void, const volatile void, int, int&, int const&, int&&, int const, int volatile, short, long double,
             bool, char const*, int*, int const*, void*, void const*, Base, Base&, Base const&, Base&&, Base const, Derived, Derived&,
             Derived const&, Base*, Derived*, Base const*, MoveOnly, MoveOnly const, MoveOnly&, MoveOnly const&, MoveOnly&&, std::nullptr_t, Enum,
             Scoped, FromInt, ExplicitFromInt, NeedsTwo, DeletedFromDouble, FromBaseOnlyRvalue, Abstract, Abstract&, Incomplete&, Arr&,
             Arr const&, Func*, Func&, std::unique_ptr<int>, std::shared_ptr<int>, std::function<int(int)>, Un>
    Results;

// ------------------------------------------------------------------- compare
static void compare(char const* f, bool got, bool want, bool stdv, bool same_as_std) {
  R().evaluations++;
  if (want) R().distinct_n++;
  if (got != want)
    V_FAIL(std::string("invocable:") + f, "is_invocable_r is %d but should be %d for %s", got, want, f);
  if (same_as_std && stdv != want) R().notes.size() < 8 ? R().note(std::string("the standard library differs for ") + f) : (void)0;
}

template <class R, class Fn, class... A> void one() {
  typedef embedded::is_invocable_r<R, Fn, A...> T;
  bool const got = T::value;
  bool const want = ref<R, Fn, A...>::value;
#if __cplusplus >= 201703L
  // the library rejects results bound to temporaries before C++23 asks for it
  bool const dangling = std::is_reference<R>::value && want;
  bool const stdv = std::is_invocable_r<R, Fn, A...>::value;
  compare(__PRETTY_FUNCTION__, got,
#if defined(BACKPORT)
          want,
#else
          dangling ? stdv : want,
#endif
          stdv, !dangling);
  if (!dangling && stdv != want)
    V_FAIL(std::string("reference:") + __PRETTY_FUNCTION__, "internal: reference %d, standard library %d", want, stdv);
#else
  compare(__PRETTY_FUNCTION__, got, want, want, false);
#endif
  // It must be usable as a type: the standard's answer types.
  static_assert(std::is_base_of<std::integral_constant<bool, T::value>, T>::value, "not an integral constant");
}

template <class R, class Fn, class P> struct pack;
template <class R, class Fn, class... A> struct pack<R, Fn, list<A...>> {
  static void run() { one<R, Fn, A...>(); }
};
typedef void (*Fp)();
template <class Fn, class P, class... R> void over_results(list<R...>) {
  Fp const f[] = {&pack<R, Fn, P>::run...};
  for (Fp x : f) x();
}
template <class Fn, class... P> void over_packs(list<P...>) {
  int const f[] = {(over_results<Fn, P>(FewResults()), 0)...};
  (void)f;
}
template <class... Fn> void over_callables(list<Fn...>) {
  int const f[] = {(over_packs<Fn>(Packs()), 0)...};
  (void)f;
}
template <class T> struct Producer { T operator()() const; };
template <class... T> void over_produced(list<T...>) {
  int const f[] = {(over_results<T (*)(), list<>>(Results()), over_results<Producer<T>, list<>>(Results()), 0)...};
  (void)f;
}

// --------------------------------------------------------------- conjunction
enum Kind { KTrue, KFalse, KTwo, KZero, KClass, KPoison, NKINDS };
struct ExplicitTrue {
  constexpr explicit operator bool() const { return true; }
};
template <int I, Kind K> struct Part : std::integral_constant<bool, K == KTrue> {};
template <int I> struct Part<I, KTwo> : std::integral_constant<int, 2> {};
template <int I> struct Part<I, KZero> : std::integral_constant<int, 0> {};
template <int I> struct Part<I, KClass> {
  static constexpr ExplicitTrue value{};
};
template <int I> constexpr ExplicitTrue Part<I, KClass>::value;
template <int I> struct Part<I, KPoison> {
  static_assert(I < 0, "a part behind the first false one was instantiated");
  static const bool value = true;
};
constexpr bool truth(Kind k) { return k == KTrue || k == KTwo || k == KClass || k == KPoison; }

template <int I, Kind... K> struct first_false; // index of the part to derive from
template <int I, Kind K> struct first_false<I, K> {
  static const int value = I;
};
template <int I, Kind K, Kind K2, Kind... Ks> struct first_false<I, K, K2, Ks...> {
  static const int value = truth(K) ? first_false<I + 1, K2, Ks...>::value : I;
};
template <int N, Kind... K> struct at;
template <int N, Kind K, Kind... Ks> struct at<N, K, Ks...> : at<N - 1, Ks...> {};
template <Kind K, Kind... Ks> struct at<0, K, Ks...> {
  static const Kind value = K;
};
template <bool ok, class Ix, Kind... K> struct conj_test {
  static void run() {} // poison before the first false part: not a valid use
};
template <int... I> struct ints {};
template <int... I, Kind... K> struct conj_test<true, ints<I...>, K...> {
  static void run() {
    typedef embedded::conjunction<Part<I, K>...> C;
    const int d = first_false<0, K...>::value;
    const Kind k = at<d, K...>::value;
    typedef Part<d, k> Want;
    R().evaluations++;
    R().distinct_n++;
    char const* f = __PRETTY_FUNCTION__;
    if (!std::is_base_of<Want, C>::value) V_FAIL(std::string("conj:base:") + f, "conjunction derives from the wrong part: %s", f);
    if (bool(C::value) != truth(k)) V_FAIL(std::string("conj:value:") + f, "conjunction has the wrong value: %s", f);
    static_assert(std::is_same<decltype(C::value), decltype(Want::value)>::value, "the value has the wrong type");
#if __cplusplus >= 201703L
    static_assert(std::is_base_of<Want, std::conjunction<Part<I, K>...>>::value, "the reference is wrong");
#endif
  }
};
template <Kind... K> constexpr bool valid() {
  // poison is only allowed behind a false part
  Kind const k[] = {K...};
  bool seen_false = false, good = true;
  for (Kind x : k) {
    if (x == KPoison && !seen_false) good = false;
    if (!truth(x)) seen_false = true;
  }
  return good;
}
template <bool F, Kind... K> struct valid11;
template <bool F> struct valid11<F> {
  static const bool value = true;
};
template <bool F, Kind K, Kind... Ks> struct valid11<F, K, Ks...> {
  static const bool value = (K != KPoison || F) && valid11<F || !truth(K), Ks...>::value;
};
template <int N, Kind... K> struct conj_all {
  static void run() {
    conj_all<N - 1, K..., KTrue>::run();
    conj_all<N - 1, K..., KFalse>::run();
    conj_all<N - 1, K..., KTwo>::run();
    conj_all<N - 1, K..., KZero>::run();
    conj_all<N - 1, K..., KClass>::run();
    conj_all<N - 1, K..., KPoison>::run();
  }
};
template <class T, Kind... K> struct conj_ix;
template <int N, int... I> struct mk : mk<N - 1, N - 1, I...> {};
template <int... I> struct mk<0, I...> {
  typedef ints<I...> type;
};
template <Kind... K> struct conj_all<0, K...> {
  static void run() { conj_test<valid11<false, K...>::value, typename mk<sizeof...(K)>::type, K...>::run(); }
};

// long lists, with the first false part at every position or nowhere
template <int N, int F, class Ix> struct long_conj;
template <int N, int F, int... I> struct long_conj<N, F, ints<I...>> {
  static void run() {
    conj_test<true, ints<I...>, (I < F ? KTrue : I == F ? KFalse : KPoison)...>::run();
    conj_test<true, ints<I...>, (I < F ? KTwo : I == F ? KZero : KPoison)...>::run();
  }
};
template <int N, int F> struct longs {
  static void run() {
    long_conj<N, F, typename mk<N>::type>::run();
    longs<N, F - 1>::run();
  }
};
template <int N> struct longs<N, -1> {
  static void run() {}
};

int main(int argc, char** argv) {
  init(argc, argv);
#if PARTS & 1
  over_callables(Callables());
#endif
#if PARTS & 2
  over_produced(Produced());
#endif
#if PARTS & 4
  if (!std::is_base_of<std::true_type, embedded::conjunction<>>::value) V_FAIL("conj:empty", "conjunction<> must be true");
  conj_all<1>::run();
  conj_all<2>::run();
  conj_all<3>::run();
  conj_all<4>::run();
  longs<5, 5>::run();
  longs<10, 10>::run();
  longs<33, 33>::run();
#endif
  R().sample(strf("%llu questions, %llu answered yes", (unsigned long long)R().evaluations, (unsigned long long)R().distinct_n));
  R().finish();
}
