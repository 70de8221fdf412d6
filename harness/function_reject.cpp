// C11: callables the wrapper must not accept.  -DCASE=n; with -DVERIF_CONTROL the
// nearest acceptable program, which must compile.
#include <embedded/function.h>
#include <utility>

template <size_t Size, size_t Align> struct alignas(Align) Sized {
  unsigned char c[Size];
  int operator()(int x) const { return x + c[0]; }
};
struct MayThrow {
  MayThrow() = default;
  MayThrow(MayThrow&&) noexcept(
#ifdef VERIF_CONTROL
      true
#else
      false
#endif
  ) {
  }
  MayThrow(MayThrow const&) {}
  int operator()(int x) const { return x; }
};
struct CopyOnly { // moving falls back to a copy, which may throw
  CopyOnly() = default;
  CopyOnly(CopyOnly const&)
#ifdef VERIF_CONTROL
      noexcept
#endif
  {
  }
  int operator()(int x) const { return x; }
};
#ifdef VERIF_CONTROL
#define PICK(good, bad) good
#else
#define PICK(good, bad) bad
#endif
#ifndef SIG
#define SIG int(int)
#endif

int main() {
  using embedded::function;
#if CASE == 1 // may throw when moved
  function<SIG> f{MayThrow()};
#elif CASE == 2
  function<SIG> f;
  f = MayThrow();
#elif CASE == 3
  CopyOnly c;
  function<SIG> f{c};
#elif CASE == 4 // one byte too large
  function<SIG, 24, 8> f{Sized<PICK(24, 25), 1>()};
#elif CASE == 5
  function<SIG, 1, 1> f{Sized<PICK(1, 2), 1>()};
#elif CASE == 6
  function<SIG> f;
  f = Sized<PICK(3, 4) * sizeof(void*), alignof(void*)>();
#elif CASE == 7
  function<SIG, 64, 16> f{Sized<PICK(64, 80), 16>()};
#elif CASE == 8 // too strictly aligned
  function<SIG, 24, 8> f{Sized<16, PICK(8, 16)>()};
#elif CASE == 9
  function<SIG, 64, 16> f{Sized<32, PICK(16, 32)>()};
#elif CASE == 10
  function<SIG, 16, 1> f{Sized<16, PICK(1, 2)>()};
#elif CASE == 11
  function<SIG, 64, 8> f;
  f = Sized<64, PICK(8, 64)>();
#elif CASE == 12 // given as an lvalue
  Sized<PICK(24, 25), 1> s{};
  function<SIG, 24, 8> f(s);
#elif CASE == 13
  MayThrow const m{};
  function<SIG> f(m);
#elif CASE == 14 // wrappers are not copied
  function<SIG> g;
  function<SIG> f(PICK(std::move(g), g));
#elif CASE == 15
  function<SIG> g, f;
  f = PICK(std::move(g), g);
#elif CASE == 16 // no call through a const wrapper of a non-const signature
  function<PICK(int(int) const, int(int))> const f{Sized<1, 1>()};
  return f(1);
#elif CASE == 17 // a callable that is only callable when non-const
  function<PICK(int(int), int(int) const)> f{[n = 0](int x) mutable { return x + n++; }};
#elif CASE == 18 // wrong arguments
  function<int(PICK(int, int*))> f{[](int x) { return x; }};
#elif CASE == 19 // wrong result
  function<PICK(int, int*)(int)> f{[](int x) { return x; }};
#else
#error CASE
#endif
  return f ? 0 : 1;
}
