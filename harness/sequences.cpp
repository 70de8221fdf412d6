// C16: integer sequences, ranges and type lists for every length and bound.
#include "verif.h"
#include <climits>
#include <embedded/typelist.h>
#include <embedded/utility/integer_sequence.h>
#include <limits>
#include <tuple>
#include <type_traits>
using namespace verif;

// ------------------------------------------------------------------ sequences
template <class T, T... I>
static void verify(embedded::integer_sequence<T, I...>, long long begin, unsigned long long n, char const* f) {
  // one extra element so that the array is never empty
  T const v[] = {I..., T()};
  typedef embedded::integer_sequence<T, I...> S;
  static_assert(std::is_same<typename S::value_type, T>::value, "value type");
  static_assert(S::size() == sizeof...(I), "size() in a constant expression");
  R().evaluations++;
  if (n > 1) R().distinct_n++;
  if (sizeof...(I) != n || S::size() != n) {
    V_FAIL(std::string("length:") + f, "%s: %zu elements instead of %llu", f, sizeof...(I), n);
    return;
  }
  for (unsigned long long i = 0; i < n; ++i)
    if (v[i] != T((unsigned long long)begin + i)) {
      V_FAIL(std::string("value:") + f, "%s: element %llu is %lld, should be %lld", f, i, (long long)v[i], (long long)(begin + i));
      return;
    }
}
template <std::size_t... I> static std::size_t index_sum(embedded::index_sequence<I...>) {
  std::size_t const v[] = {I..., 0};
  std::size_t s = 0;
  for (std::size_t x : v) s += x;
  return s;
}
template <class T, std::size_t N> static void length() {
  typedef embedded::make_integer_sequence<T, N> M;
  verify<T>(M(), 0, N, __PRETTY_FUNCTION__);
  static_assert(std::is_same<typename M::value_type, T>::value, "value type");
  if (M::size() != N) V_FAIL(__PRETTY_FUNCTION__, "size() is wrong in %s", __PRETTY_FUNCTION__);
}
template <std::size_t N> static void index_length() {
  typedef embedded::make_index_sequence<N> M;
  verify<std::size_t>(M(), 0, N, __PRETTY_FUNCTION__);
  if (index_sum(M()) != (N ? N * (N - 1) / 2 : 0)) V_FAIL(__PRETTY_FUNCTION__, "index_sequence is not deduced in %s", __PRETTY_FUNCTION__);
}
template <class T, T B, T E> static void range() {
  verify<T>(embedded::make_integer_range<T, B, E>(), (long long)B, (unsigned long long)E - (unsigned long long)B, __PRETTY_FUNCTION__);
}
template <std::size_t B, std::size_t E> static void index_range() {
  typedef embedded::make_index_range<B, E> M;
  verify<std::size_t>(M(), B, E - B, __PRETTY_FUNCTION__);
  std::size_t sum = 0;
  for (std::size_t i = B; i != E; ++i) sum += i;
  if (index_sum(M()) != sum) V_FAIL(__PRETTY_FUNCTION__, "index range is not deduced in %s", __PRETTY_FUNCTION__);
}

template <class T, int N> struct lengths {
  static void run() {
    length<T, N>();
    lengths<T, N - 1>::run();
  }
};
template <class T> struct lengths<T, -1> {
  static void run() {}
};
template <int N> struct index_lengths {
  static void run() {
    index_length<N>();
    index_lengths<N - 1>::run();
  }
};
template <> struct index_lengths<-1> {
  static void run() {}
};
// all ranges LO <= B <= E <= HI
template <class T, long long B, long long E, long long HI> struct ranges_e {
  static void run() {
    range<T, T(B), T(E)>();
    ranges_e<T, B, E + 1, HI>::run();
  }
};
template <class T, long long B, long long HI> struct ranges_e<T, B, HI, HI> {
  static void run() { range<T, T(B), T(HI)>(); }
};
template <class T, long long B, long long HI> struct ranges {
  static void run() {
    ranges_e<T, B, B, HI>::run();
    ranges<T, B + 1, HI>::run();
  }
};
template <class T, long long HI> struct ranges<T, HI, HI> {
  static void run() { range<T, T(HI), T(HI)>(); }
};
template <std::size_t B, std::size_t E, std::size_t HI> struct index_ranges_e {
  static void run() {
    index_range<B, E>();
    index_ranges_e<B, E + 1, HI>::run();
  }
};
template <std::size_t B, std::size_t HI> struct index_ranges_e<B, HI, HI> {
  static void run() { index_range<B, HI>(); }
};
template <std::size_t B, std::size_t HI> struct index_ranges {
  static void run() {
    index_ranges_e<B, B, HI>::run();
    index_ranges<B + 1, HI>::run();
  }
};
template <std::size_t HI> struct index_ranges<HI, HI> {
  static void run() { index_range<HI, HI>(); }
};

// ------------------------------------------------------------------ type lists
struct A;
struct B {};
template <class... T> struct Seen {};
template <class... T> struct SeenBase {};
template <class... T> using Alias = SeenBase<T*...>;

template <class L, class M> struct cat;
template <class... T, class... U> struct cat<Seen<T...>, Seen<U...>> {
  typedef Seen<T..., U...> type;
};
template <class S> struct to_list;
template <class... T> struct to_list<Seen<T...>> {
  typedef embedded::typelist<T...> type;
};
template <class... L> struct packs {};
template <class P> struct extend; // all one longer lists
template <class... P> struct concat_packs;
template <class... L> struct concat_packs<packs<L...>> {
  typedef packs<L...> type;
};
template <class... L, class... M, class... Q> struct concat_packs<packs<L...>, packs<M...>, Q...> {
  typedef typename concat_packs<packs<L..., M...>, Q...>::type type;
};
template <class... L> struct extend<packs<L...>> {
  typedef typename concat_packs<packs<typename cat<L, Seen<A>>::type...>, packs<typename cat<L, Seen<B&>>::type...>,
                                packs<typename cat<L, Seen<void>>::type...>>::type type;
};
typedef packs<Seen<>> P0;
typedef extend<P0>::type P1;
typedef extend<P1>::type P2;
typedef extend<P2>::type P3;
typedef extend<P3>::type P4;
typedef concat_packs<P0, P1, P2>::type Short;
typedef concat_packs<P0, P1, P2, P3, P4>::type Long;

template <class L, class M> struct pair_test;
template <class... T, class... U> struct pair_test<Seen<T...>, Seen<U...>> {
  static void run() {
    typedef embedded::typelist<T...> L;
    typedef embedded::typelist<U...> M;
    typedef typename L::template append<U...> LU;
    R().evaluations++;
    if (sizeof...(T) && sizeof...(U)) R().distinct_n++;
    if (!std::is_same<LU, embedded::typelist<T..., U...>>::value) V_FAIL("append", "append gives the wrong list: %s", __PRETTY_FUNCTION__);
    if (!std::is_same<typename LU::template to<Seen>, Seen<T..., U...>>::value) V_FAIL("to", "to gives the wrong types: %s", __PRETTY_FUNCTION__);
    // append once more, and append a list as a single type
    typedef typename LU::template append<T..., int>::template to<Seen> Twice;
    if (!std::is_same<Twice, Seen<T..., U..., T..., int>>::value) V_FAIL("append2", "appending twice gives the wrong list: %s", __PRETTY_FUNCTION__);
    if (!std::is_same<typename L::template append<M>::template to<Seen>, Seen<T..., M>>::value)
      V_FAIL("nested", "a list appended as a type is not kept as one: %s", __PRETTY_FUNCTION__);
    // appending all of a list by handing over append itself
    if (!std::is_same<typename M::template to<L::template append>, embedded::typelist<T..., U...>>::value)
      V_FAIL("handover", "handing over append gives the wrong list: %s", __PRETTY_FUNCTION__);
  }
};
template <class P> struct index_for;
template <class... T> struct index_for<Seen<T...>> {
  static void run() {
    verify<std::size_t>(embedded::index_sequence_for<T...>(), 0, sizeof...(T), __PRETTY_FUNCTION__);
    if (!std::is_same<typename embedded::typelist<T...>::template append<>, embedded::typelist<T...>>::value)
      V_FAIL("append0", "appending nothing changes the list: %s", __PRETTY_FUNCTION__);
  }
};
template <class L, class... M> static void pairs_with(packs<M...>) {
  int const x[] = {(pair_test<L, M>::run(), 0)...};
  (void)x;
  index_for<L>::run();
}
template <class... L> static void all_pairs(packs<L...>) {
  int const x[] = {(pairs_with<L>(Short()), 0)...};
  (void)x;
}
template <int N, class... T> struct grow {
  static void run() {
    index_for<Seen<T...>>::run();
    grow<N - 1, T..., typename std::conditional<N % 3 == 0, A, typename std::conditional<N % 3 == 1, void, B&>::type>::type>::run();
  }
};
template <class... T> struct grow<0, T...> {
  static void run() {}
};

int main(int argc, char** argv) {
  init(argc, argv);
#if PART == 0
  index_lengths<LEN>::run();
  lengths<int, LEN>::run();
  lengths<unsigned char, LEN>::run();
  index_length<127>();
  index_length<128>();
  index_length<129>();
  index_length<255>();
  index_length<256>();
  index_length<257>();
  index_length<500>();
  index_length<800>();
  length<int, 256>();
  length<int, 800>();
  length<unsigned char, 255>();
  length<unsigned char, 256>();
  length<signed char, 127>();
  length<signed char, 128>();
  length<bool, 0>();
  length<bool, 1>();
  length<bool, 2>();
  length<long long, 800>();
  length<short, 300>();
  length<unsigned short, 300>();
  length<char, 100>();
#elif PART == 1
  lengths<signed char, LEN>::run();
  lengths<long long, LEN>::run();
  lengths<unsigned, LEN>::run();
  index_ranges<0, 24>::run();
  index_range<100, 800>();
  index_range<0, 800>();
  index_range<255, 257>();
  index_range<(std::size_t)-20, (std::size_t)-1>();
  index_range<0x7fffffff, 0x80000010>();
#if __SIZEOF_SIZE_T__ > 4
  index_range<0xfffffff0, 0x100000010>();
#endif
  ranges<unsigned char, 240, 255>::run();
  ranges<unsigned char, 120, 136>::run();
  range<unsigned char, 0, 255>();
  ranges<unsigned, 0x7ffffff8u, 0x80000008u>::run();
  ranges<unsigned, 0xfffffff0u, 0xffffffffu>::run();
#elif PART == 2
  ranges<int, -16, 16>::run();
  ranges<int, INT_MAX - 12, INT_MAX>::run();
  ranges<int, INT_MIN, INT_MIN + 12LL>::run();
  ranges<signed char, -128, -112>::run();
  ranges<signed char, 112, 127>::run();
  range<signed char, -128, 127>();
  range<signed char, -128, 0>();
  ranges<short, -8, 8>::run();
  range<short, -32768, -32000>();
  ranges<long long, -8, 8>::run();
  range<long long, LLONG_MIN, LLONG_MIN + 20>();
  range<long long, LLONG_MAX - 20, LLONG_MAX>();
  range<long long, -0x80000010LL, -0x7ffffff0LL>();
  range<long long, 0x7ffffff0LL, 0x80000010LL>();
  range<int, -400, 400>();
  range<bool, false, true>();
  range<bool, false, false>();
  range<char, 'a', 'z'>();
#else
  all_pairs(Long());
  grow<40>::run();
  typedef embedded::typelist<int, int&, void, A, int> T5;
  static_assert(std::is_same<T5::to<std::tuple>, std::tuple<int, int&, void, A, int>>::value, "to<tuple>");
  static_assert(std::is_same<embedded::typelist<int, B, void>::to<Alias>, SeenBase<int*, B*, void*>>::value, "to<alias>");
  static_assert(std::is_same<T5::append<int(), int[], B[3]>::to<Seen>, Seen<int, int&, void, A, int, int(), int[], B[3]>>::value, "no decay");
#endif
  R().sample(strf("part %d: %llu sequences, ranges and lists", PART, (unsigned long long)R().evaluations));
  R().finish();
}
