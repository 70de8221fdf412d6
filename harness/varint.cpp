// C06-C09: the real varint codec over exhaustively enumerated values, buffers,
// byte strings and streams.  -DPROP=6|7|8|9
#include "verif.h"
#include <deque>
#include <embedded/circular_buffer_adapter.h>
#include <embedded/varint.h>
#include <forward_list>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <sys/mman.h>
#include <type_traits>
#include <vector>
using namespace verif;
using embedded::varint;
typedef unsigned char u8;
#if defined(__SIZEOF_INT128__)
typedef unsigned __int128 u128;
typedef __int128 i128;
#else
// enough of it where the compiler has none: wide enough for the 70 bits of ten groups
struct u128 {
  unsigned long long lo;
  unsigned hi;
  u128() : lo(0), hi(0) {}
  template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> u128(T v) : lo((unsigned long long)v), hi(v < T() ? ~0u : 0) {}
  template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> explicit operator T() const { return T(lo); }
  explicit operator bool() const { return lo || hi; }
  friend u128 operator+(u128 a, u128 b) {
    u128 r;
    r.lo = a.lo + b.lo;
    r.hi = a.hi + b.hi + (r.lo < a.lo);
    return r;
  }
  u128& operator+=(u128 b) { return *this = *this + b; }
  u128 operator-() const {
    u128 r;
    r.lo = ~lo;
    r.hi = ~hi;
    return r + u128(1);
  }
  friend u128 operator-(u128 a, u128 b) { return a + -b; }
  friend u128 operator>>(u128 a, int n) {
    if (n == 64) return u128(a.hi);
    u128 r;
    r.lo = n == 0 ? a.lo : (a.lo >> n) | ((unsigned long long)a.hi << (64 - n));
    r.hi = n < 32 ? a.hi >> n : 0;
    return r;
  }
  friend u128 operator*(u128 a, u128 b) { // one of them is small
    if (b.hi || b.lo > 128) {
      u128 t = a;
      a = b;
      b = t;
    }
    if (b.hi || b.lo > 128) abort();
    u128 r;
    for (unsigned d = unsigned(b.lo); d; d /= 2, a += a)
      if (d % 2) r += a;
    return r;
  }
  friend unsigned operator%(u128 a, int m) { return unsigned(a.lo & (m - 1)); } // m is 2 or 128
  friend u128 operator/(u128 a, int m) { return a >> (m == 2 ? 1 : 7); }
  u128& operator/=(int m) { return *this = *this / m; }
  u128& operator*=(int m) { return *this = *this * u128(m); }
  friend bool operator==(u128 a, u128 b) { return a.lo == b.lo && a.hi == b.hi; }
  friend bool operator!=(u128 a, u128 b) { return !(a == b); }
  friend bool operator==(u128 a, int b) { return a == u128(b); }
};
struct i128 : u128 {
  i128() {}
  template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> i128(T v) : u128(v) {}
  i128(u128 v) : u128(v) {}
  bool nonnegative() const { return !(hi >> 31); }
};
inline bool operator>=(i128 a, int) { return a.nonnegative(); }
#endif

template <typename T> struct Name;
#define NAME(T) template <> struct Name<T> { static const char* get() { return #T; } }
NAME(signed char); NAME(unsigned char); NAME(char); NAME(short); NAME(unsigned short); NAME(int); NAME(unsigned);
NAME(long); NAME(unsigned long); NAME(long long); NAME(unsigned long long); NAME(wchar_t); NAME(char16_t);
NAME(char32_t);

// ---------------------------------------------------------------- reference
// zig-zag by counting out, not by bit tricks
template <typename T> u128 fold(T v) {
  if (std::is_unsigned<T>::value) return u128(v);
  i128 x = v;
  return x >= 0 ? u128(x) * 2 : u128(-x) * 2 - 1;
}
template <typename T> T unfold(u128 u) {
  if (std::is_unsigned<T>::value) return T(u);
  i128 x = u % 2 == 0 ? i128(u / 2) : i128(-i128(u / 2) - i128(1));
  return T(x);
}
__attribute__((unused)) static int ref_encode(u128 u, u8* out) {
  int n = 0;
  for (;;) {
    u8 d = u8(u % 128);
    u /= 128;
    if (u == 0) {
      out[n++] = d;
      return n;
    }
    out[n++] = u8(d + 128);
  }
}
template <typename T> int groups() { return (8 * int(sizeof(T)) + 6) / 7; }
// -> number of bytes consumed, or 0 when decoding has to fail
template <typename T> int ref_decode(u8 const* p, int n, T& v) {
  u128 val = 0, w = 1;
  for (int i = 0; i < n && i < groups<T>(); ++i) {
    val += u128(p[i] % 128) * w;
    w *= 128;
    if (p[i] < 128) {
      if (val >> (8 * sizeof(T))) return 0;
      v = unfold<T>(val);
      return i + 1;
    }
  }
  return 0;
}

__attribute__((unused)) static std::string hex(u8 const* p, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) s += strf("%s%02x", i ? " " : "", p[i]);
  return s;
}

// ------------------------------------------------- iterator that records use
struct Mon { // what the code did to the positions 0..n (n = end)
  u8 data[16];
  int n;
  int reads[20], writes[20];
  bool bad;
  void reset(int len) {
    n = len;
    bad = false;
    for (int i = 0; i < 20; ++i) reads[i] = writes[i] = 0;
  }
};
struct Ref;
// forward iterator over bytes; dereferencing the end or stepping over it is an error
struct It {
  typedef std::forward_iterator_tag iterator_category;
  typedef u8 value_type;
  typedef std::ptrdiff_t difference_type;
  typedef u8* pointer;
  typedef u8& reference;
  Mon* m;
  int p;
  It() : m(nullptr), p(0) {}
  It(Mon* m_, int p_) : m(m_), p(p_) {}
  u8& operator*() const {
    static u8 trash;
    if (p < 0 || p >= m->n) {
      m->bad = true;
      return trash;
    }
    ++m->reads[p];
    return m->data[p];
  }
  It& operator++() {
    if (p >= m->n) m->bad = true;
    ++p;
    return *this;
  }
  It operator++(int) {
    It r(*this);
    ++*this;
    return r;
  }
  friend bool operator==(It const& a, It const& b) { return a.p == b.p; }
  friend bool operator!=(It const& a, It const& b) { return a.p != b.p; }
};

// bytes with a redzone (sanitizer) or canaries behind and in front
struct Buf {
  u8* base;
  u8* p;
  int n;
#if defined(__SANITIZE_ADDRESS__)
  explicit Buf(int len) : base(new u8[len ? len : 1]), p(len ? base : base + 1), n(len) { memset(base, 0xA5, len); }
  bool intact() const { return true; }
#else
  explicit Buf(int len) : base(new u8[len + 32]), p(base + 16), n(len) { memset(base, 0xA5, len + 32); }
  bool intact() const {
    for (int i = 0; i < 16; ++i)
      if (base[i] != 0xA5 || p[n + i] != 0xA5) return false;
    return true;
  }
#endif
  ~Buf() { delete[] base; }
  void fill() { memset(p, 0xA5, n); }
};

// 5 GB of address space (what there can be of it in 32 bits) of which only the first page is really there
static u8* vast() {
  static u8* p = nullptr;
  if (!p) {
    p = (u8*)mmap(nullptr, sizeof(size_t) > 4 ? size_t(5ull << 30) : size_t(3) << 29, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mprotect(p, 4096, PROT_READ | PROT_WRITE)) _exit(9);
  }
  return p;
}
// much more space than any encoding needs, around all sizes a shorter type would wrap at
static std::vector<uint64_t> const& vast_sizes() {
  static std::vector<uint64_t> v;
  if (v.empty()) {
    for (uint64_t n = 12; n <= 1100; ++n) v.push_back(n);
    for (int k = 11; k <= (sizeof(size_t) > 4 ? 32 : 30); ++k)
      for (int d = -12; d <= 12; ++d) v.push_back((1ull << k) + uint64_t(d));
  }
  return v;
}

// ------------------------------------------------------------- value sources
template <typename T, typename F> void all_values(F f) { // 8 and 16 bit types
  for (long long v = (long long)std::numeric_limits<T>::min(); v <= (long long)std::numeric_limits<T>::max(); ++v)
    f(T(v));
}
template <typename T, typename F> void lattice(F f, u8 const* sym, int ns) {
  typedef typename std::make_unsigned<T>::type U;
  int const g = groups<T>();
  int const top_bits = 8 * sizeof(T) - 7 * (g - 1);
  std::vector<int> d(g, 0);
  for (;;) {
    U u = 0;
    bool dup = false;
    for (int i = 0; i < g; ++i) {
      unsigned s = sym[d[i]];
      if (i == g - 1 && (s >> top_bits)) {
        dup = true;
        break;
      }
      u = U(u | U(U(s) << (7 * i)));
    }
    if (!dup) f(T(u));
    int i = 0;
    while (i < g && ++d[i] == ns) d[i++] = 0;
    if (i == g) break;
  }
  for (int k = 0; k < int(8 * sizeof(T)); ++k)
    for (int e = -3; e <= 3; ++e) {
      f(T(U(U(U(1) << k) + U(e))));
      f(T(U(U(0) - U(U(1) << k) + U(e))));
    }
}
static const u8 SYM5[] = {0, 1, 0x3f, 0x40, 0x7f};
static const u8 SYM4[] = {0, 1, 0x40, 0x7f};
static const u8 SYM16[] = {0, 1, 2, 3, 7, 0xf, 0x20, 0x3e, 0x3f, 0x40, 0x41, 0x55, 0x60, 0x7d, 0x7e, 0x7f};
static bool slow() {
#if defined(__SANITIZE_ADDRESS__)
  return true;
#else
  return false;
#endif
}
template <typename T, typename F> void values(F f) {
  if (sizeof(T) <= 2)
    all_values<T>(f);
  else if (sizeof(T) == 4)
    lattice<T>(f, SYM16, slow() ? 12 : 16);
  else if (slow() && !R().thorough)
    lattice<T>(f, SYM4, 3);
  else if (R().thorough)
    lattice<T>(f, SYM5, 5);
  else
    lattice<T>(f, SYM4, 4);
}
// every type; the aliases and character types get the same treatment
template <typename F> void all_types(F const& f) {
  f((signed char)0); f((unsigned char)0); f((char)0); f((short)0); f((unsigned short)0); f(0); f(0u);
  f(0l); f(0ul); f(0ll); f(0ull); f(wchar_t(0)); f(char16_t(0)); f(char32_t(0));
}

template <typename T> void mark(const char* what, T v, long a = 0) {
  Crumb& c = crumb();
  c.what = what;
  c.n = 3;
  c.v[0] = long(sizeof(T)) * (std::is_signed<T>::value ? -1 : 1);
  c.v[1] = long(v);
  c.v[2] = a;
  ++beat();
}
template <typename T> std::string sv(T v) {
  return std::is_signed<T>::value ? strf("%lld", (long long)v) : strf("%llu", (unsigned long long)v);
}

// ------------------------------------------------------------------ C06
#if PROP == 6
struct Roundtrip {
  template <typename T> void operator()(T) const {
    Buf big(16);
    std::vector<u8> vec;
    vec.reserve(64);
    uint64_t n = 0;
    auto one = [&](T v) {
      mark("varint round trip", v);
      ++n;
      u8 ref[20];
      int len = ref_encode(fold(v), ref);
      const char* t = Name<T>::get();
      if (varint::size(v) != size_t(len))
        V_FAIL(strf("size:%s", t), "size(%s %s) = %zu, the encoding has %d bytes", t, sv(v).c_str(), varint::size(v),
               len);
      // without bounds
      big.fill();
      u8* e = varint::encode(v, big.p);
      if (e != big.p + len || memcmp(big.p, ref, len) || !big.intact())
        V_FAIL(strf("encode:%s", t), "encode(%s %s) -> %s (end %+d), expected %s", t, sv(v).c_str(),
               hex(big.p, 11).c_str(), int(e - big.p), hex(ref, len).c_str());
      for (int i = len; i < 16; ++i)
        if (big.p[i] != 0xA5) V_FAIL(strf("spill:%s", t), "encode(%s %s) wrote byte %d of %d", t, sv(v).c_str(), i, len);
      // decode it
      T w = T(~v);
      u8 const* cp = big.p;
      u8 const* d = varint::decode(w, cp, cp + len);
      if (d != cp + len || w != v)
        V_FAIL(strf("decode:%s", t), "decode(encode(%s %s)) = %s, consumed %d of %d", t, sv(v).c_str(), sv(w).c_str(),
               int(d - cp), len);
      // the end does not matter when it is further away
      w = T(~v);
      d = varint::decode(w, cp, cp + 16);
      if (d != cp + len || w != v)
        V_FAIL(strf("decode-long:%s", t), "decode(encode(%s %s)) from a longer buffer = %s, consumed %d of %d", t,
               sv(v).c_str(), sv(w).c_str(), int(d - cp), len);
      // with bounds
      int const room[] = {len, len + 1, 16};
      for (int r : room) {
        big.fill();
        e = varint::encode(v, big.p, big.p + r);
        if (e != big.p + len || memcmp(big.p, ref, len))
          V_FAIL(strf("encode-bounded:%s", t), "encode(%s %s) into %d bytes -> %s (end %+d), expected %s", t,
                 sv(v).c_str(), r, hex(big.p, 11).c_str(), int(e - big.p), hex(ref, len).c_str());
      }
      // appending
      vec.clear();
      vec.push_back(0x77);
      varint::encode(v, std::back_inserter(vec));
      if (int(vec.size()) != len + 1 || vec[0] != 0x77 || memcmp(vec.data() + 1, ref, len))
        V_FAIL(strf("encode-append:%s", t), "encode(%s %s) appended %s, expected %s", t, sv(v).c_str(),
               hex(vec.data() + 1, int(vec.size()) - 1).c_str(), hex(ref, len).c_str());
      R().distinct_n += len > 1;
    };
    values<T>(one);
    R().evaluations += n;
    R().sample(strf("%s: %llu values", Name<T>::get(), (unsigned long long)n), 14);
  }
};
#ifdef FULL32
// every 32 bit value, on the shortest path
template <typename T> void full32(uint64_t lo, uint64_t hi) {
  u8 buf[16], ref[20];
  memset(buf, 0, sizeof buf);
  for (uint64_t i = lo; i < hi; ++i) {
    T v = T(uint32_t(i));
    if ((i & 0xfffff) == 0) mark("varint 32 bit round trip", v);
    int len = ref_encode(fold(v), ref);
    u8* e = varint::encode(v, buf, buf + len);
    T w = T(~v);
    u8 const* cp = buf;
    u8 const* d = varint::decode(w, cp, cp + len);
    if (e != buf + len || memcmp(buf, ref, len) || d != e || w != v || varint::size(v) != size_t(len)) {
      V_FAIL("full32", "%s %s: encoded %s expected %s decoded %s", Name<T>::get(), sv(v).c_str(), hex(buf, 5).c_str(),
             hex(ref, len).c_str(), sv(w).c_str());
      break;
    }
  }
  R().evaluations += hi - lo;
  R().distinct_n += hi - lo;
}
#endif
static_assert(varint::size<uint8_t>(0) == 1 && varint::size<uint8_t>(127) == 1 && varint::size<uint8_t>(128) == 2 &&
                  varint::size<uint64_t>(~0ull) == 10 && varint::size<int8_t>(-128) == 2 &&
                  varint::size<int64_t>(INT64_MIN) == 10 && varint::size<int32_t>(-64) == 1 &&
                  varint::size<int32_t>(64) == 2 && varint::size<uint32_t>(0xffffffffu) == 5,
              "size() in constant expressions");
int main(int argc, char** argv) {
  init(argc, argv);
#ifdef FULL32
  uint64_t part = strtoull(argv[1], nullptr, 10), q = 1ull << 30;
  full32<uint32_t>(part * q, part * q + q);
  full32<int32_t>(part * q, part * q + q);
#else
  all_types(Roundtrip());
#endif
  R().finish();
}
#endif

// ------------------------------------------------------------------ C07
#if PROP == 7
// interesting values of a type: every encoded length, least and greatest, every single bit
template <typename T, typename F> void boundary_values(F f) {
  typedef typename std::make_unsigned<T>::type U;
  if (sizeof(T) <= 2 && !(slow() && sizeof(T) == 2)) {
    all_values<T>(f);
    return;
  }
  for (int k = 0; k < int(8 * sizeof(T)); ++k)
    for (int e = -2; e <= 2; ++e) {
      f(T(U(U(U(1) << k) + U(e))));
      f(T(U(U(0) - U(U(1) << k) + U(e))));
    }
  f(std::numeric_limits<T>::min());
  f(std::numeric_limits<T>::max());
}
template <typename C> typename C::iterator nth(C& c, int n) {
  typename C::iterator i = c.begin();
  while (n-- > 0) ++i;
  return i;
}
template <typename C, typename T>
void container(C& c, T v, int room, u8 const* ref, int len, const char* kind) {
  // 12 bytes, of which `room` are given to the encoder
  for (auto& b : c) b = 0xA5;
  auto b = c.begin(), e = nth(c, room);
  auto r = varint::encode(v, b, e);
  bool ok = len <= room;
  auto want = ok ? nth(c, len) : b;
  bool fine = r == want;
  int i = 0;
  for (auto x : c) {
    if (ok && i < len && x != ref[i]) fine = false;
    if (i >= (ok ? len : room) && x != 0xA5) fine = false;
    ++i;
  }
  if (!fine)
    V_FAIL(strf("%s:%s:%s", kind, Name<T>::get(), ok ? "fits" : "short"), "encode(%s %s) into %d bytes of a %s: wrong %s",
           Name<T>::get(), sv(v).c_str(), room, kind, r == want ? "bytes" : "end");
}
struct Bounded {
  template <typename T> void operator()(T) const {
    const char* t = Name<T>::get();
    std::unique_ptr<Buf> bufs[12];
    for (int n = 0; n < 12; ++n) bufs[n].reset(new Buf(n));
    std::list<u8> lst(12);
    std::forward_list<u8> fl(12);
    std::deque<u8> deq(12);
    std::vector<u8> vec(12);
    // a ring, wrapping at every position, as the target
    uint64_t cases = 0;
    auto one = [&](T v) {
      u8 ref[20];
      int len = ref_encode(fold(v), ref);
      for (int room = 0; room < 12; ++room) {
        ++cases;
        mark("bounded varint encode", v, room);
        bool ok = len <= room;
        Buf& b = *bufs[room];
        b.fill();
        u8* r = varint::encode(v, b.p, b.p + room);
        if (r != (ok ? b.p + len : b.p))
          V_FAIL(strf("end:%s:%s", t, ok ? "fits" : "short"),
                 "encode(%s %s), %d bytes, into %d bytes: returned begin%+d", t, sv(v).c_str(), len, room,
                 int(r - b.p));
        if (!b.intact()) V_FAIL(strf("outside:%s", t), "encode(%s %s) into %d bytes wrote outside", t, sv(v).c_str(), room);
        for (int i = 0; i < room && ok; ++i)
          if (b.p[i] != (i < len ? ref[i] : 0xA5))
            V_FAIL(strf("bytes:%s", t), "encode(%s %s) into %d bytes: byte %d is %02x", t, sv(v).c_str(), room, i, b.p[i]);
        // iterator that notices being used at the end
        Mon m;
        memset(m.data, 0xA5, sizeof m.data);
        m.reset(room);
        It e = varint::encode(v, It(&m, 0), It(&m, room));
        if (e.p != (ok ? len : 0) || m.bad)
          V_FAIL(strf("checked:%s:%s", t, m.bad ? "touched-end" : "end"),
                 "encode(%s %s) with checked iterators into %d bytes: %s, returned %d", t, sv(v).c_str(), room,
                 m.bad ? "used the end" : "", e.p);
        for (int i = 0; i < 16; ++i) {
          if (ok && i < len && m.data[i] != ref[i])
            V_FAIL(strf("checked-bytes:%s", t), "encode(%s %s) with checked iterators: byte %d is %02x", t,
                   sv(v).c_str(), i, m.data[i]);
          if ((i >= room || (ok && i >= len)) && (m.data[i] != 0xA5 || (i < 20 && m.reads[i])))
            V_FAIL(strf("checked-touch:%s", t), "encode(%s %s) into %d bytes touched position %d", t, sv(v).c_str(), room,
                   i);
        }
        container(lst, v, room, ref, len, "list");
        container(fl, v, room, ref, len, "forward_list");
        container(deq, v, room, ref, len, "deque");
        container(vec, v, room, ref, len, "vector");
        R().distinct_n += room <= len; // no space to spare
      }
    };
    boundary_values<T>(one);
    R().evaluations += cases;
    // far more space than needed
    for (uint64_t room : vast_sizes()) {
      T const vs[] = {T(0), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(100)};
      for (T v : vs) {
        mark("bounded varint encode into a vast buffer", v, long(room));
        u8 ref[20];
        int len = ref_encode(fold(v), ref);
        u8* b = vast();
        memset(b, 0xA5, 64);
        u8* r = varint::encode(v, b, b + room);
        bool fine = r == b + len && !memcmp(b, ref, len);
        for (int i = len; i < 64; ++i) fine &= b[i] == 0xA5;
        ++R().evaluations;
        if (!fine) V_FAIL(strf("vast:%s", t), "encode(%s %s) into %llu bytes is wrong", t, sv(v).c_str(), (unsigned long long)room);
      }
    }
    for (int room = 250; room <= 264; ++room) {
      std::list<u8> l(room);
      std::deque<u8> d(room);
      T const v = std::numeric_limits<T>::max();
      u8 ref[20];
      int const len = ref_encode(fold(v), ref);
      ++R().evaluations;
      if (std::distance(l.begin(), varint::encode(v, l.begin(), l.end())) != len ||
          std::distance(d.begin(), varint::encode(v, d.begin(), d.end())) != len)
        V_FAIL(strf("vast:container:%s", t), "encode(%s %s) into a container of %d bytes is wrong", t, sv(v).c_str(), room);
    }
    // into the unused part of a ring buffer, at every wrap position
    for (int first = 0; first < 11; ++first)
      for (int room = 0; room <= 11; ++room) {
        u8 mem[11];
        T const vs[] = {T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(100)};
        for (T v : vs) {
          mark("bounded varint encode into a ring", v, room);
          memset(mem, 0xA5, sizeof mem);
          embedded::circular_buffer_adapter<u8> cb(mem, 11, first, 11);
          u8 ref[20];
          int len = ref_encode(fold(v), ref);
          auto r = varint::encode(v, cb.begin(), cb.begin() + room);
          bool ok = len <= room, fine = r - cb.begin() == (ok ? len : 0);
          for (int i = 0; i < 11; ++i) {
            u8 x = mem[(first + i) % 11];
            if (ok && i < len && x != ref[i]) fine = false;
            if (i >= (ok ? len : room) && x != 0xA5) fine = false;
          }
          ++R().evaluations;
          if (!fine) V_FAIL(strf("ring:%s", t), "encode(%s %s) into %d bytes of a ring starting at %d", t, sv(v).c_str(), room, first);
        }
      }
    R().sample(strf("%s: %llu value/room pairs, every room 0..11", t, (unsigned long long)cases), 14);
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  all_types(Bounded());
  R().finish();
}
#endif

// ------------------------------------------------------------------ C08
#if PROP == 8
struct Decode {
  template <typename T> static void one(u8 const* s, int n, Buf& b) {
    Crumb& c = crumb();
    c.what = "varint decode";
    c.n = n + 1;
    c.v[0] = long(sizeof(T)) * (std::is_signed<T>::value ? -1 : 1);
    for (int i = 0; i < n; ++i) c.v[i + 1] = s[i];
    ++beat();
    const char* t = Name<T>::get();
    T const sentinel = T(0x5a);
    T want = sentinel;
    int used = ref_decode<T>(s, n, want);
    // plain memory that ends where the string ends
    memcpy(b.p, s, n);
    T got = sentinel;
    u8 const* p = b.p;
    u8 const* e = varint::decode(got, p, p + n);
    check(t, "memory", s, n, used, want, int(e - p), got, sentinel);
    // checked iterators: nothing behind the terminating byte is looked at
    static Mon m;
    m.reset(n);
    memcpy(m.data, s, n);
    got = sentinel;
    It r = varint::decode(got, It(&m, 0), It(&m, n));
    check(t, "checked", s, n, used, want, r.p, got, sentinel);
    if (m.bad) V_FAIL(strf("overread:%s", t), "decode<%s>(%s) used the end iterator", t, hex(s, n).c_str());
    int term = -1;
    for (int i = 0; i < n; ++i)
      if (s[i] < 128) {
        term = i;
        break;
      }
    for (int i = 0; i < n; ++i)
      if (term >= 0 && i > term && m.reads[i])
        V_FAIL(strf("readbehind:%s", t), "decode<%s>(%s) read byte %d behind the terminating byte", t, hex(s, n).c_str(), i);
    for (int i = 0; i < n; ++i)
      if (m.data[i] != s[i]) V_FAIL(strf("wrote:%s", t), "decode<%s>(%s) modified its input", t, hex(s, n).c_str());
    ++R().evaluations;
    R().distinct_n += n > 1;
  }
  template <typename T>
  static void check(const char* t, const char* how, u8 const* s, int n, int used, T want, int pos, T got, T sentinel) {
    if (pos != used)
      V_FAIL(strf("end:%s:%s:%s", how, t, used ? "valid" : "invalid"), "decode<%s>(%s) returned begin+%d, expected begin+%d", t,
             hex(s, n).c_str(), pos, used);
    else if (used && got != want)
      V_FAIL(strf("value:%s:%s", how, t), "decode<%s>(%s) = %s, expected %s", t, hex(s, n).c_str(), sv(got).c_str(),
             sv(want).c_str());
    else if (!used && std::is_signed<T>::value && got != sentinel)
      V_FAIL(strf("clobber:%s:%s", how, t), "failing decode<%s>(%s) changed the signed output to %s", t, hex(s, n).c_str(),
             sv(got).c_str());
  }
  template <typename T> void operator()(T) const {
    const char* t = Name<T>::get();
    uint64_t before = R().evaluations;
    std::unique_ptr<Buf> bufs[14];
    for (int n = 0; n < 14; ++n) bufs[n].reset(new Buf(n));
    u8 s[16];
    one<T>(s, 0, *bufs[0]);
    // every byte string up to length 2 (3 without the sanitizer): what matters is
    // a run of k continuation bytes and then a terminating byte, or none
    int full = slow() ? 1 : 2;
    for (int k = 0; k <= full; ++k) {
      long N = 1;
      for (int i = 0; i < k; ++i) N *= 128;
      for (long x = 0; x < N; ++x) {
        for (int i = 0; i < k; ++i) s[i] = u8(0x80 | ((x >> (7 * i)) & 127));
        one<T>(s, k, *bufs[k]);
        for (int z = 0; z < 128; ++z) {
          s[k] = u8(z);
          one<T>(s, k + 1, *bufs[k + 1]);
        }
      }
    }
    // longer ones over a smaller alphabet, always all 128 terminating bytes
    static const u8 C[] = {0x80, 0xff, 0x81, 0xc0};
    int g = groups<T>();
    for (int k = full + 1; k <= g + 2; ++k) {
      int ns = k <= 4 ? 4 : k <= (slow() ? 6 : R().thorough ? 12 : 8) ? 3 : 2;
      std::vector<int> d(k, 0);
      for (;;) {
        for (int i = 0; i < k; ++i) s[i] = C[d[i]];
        one<T>(s, k, *bufs[k]);
        if (k < 13)
          for (int z = 0; z < 128; ++z) {
            s[k] = u8(z);
            one<T>(s, k + 1, *bufs[k + 1]);
            if ((z == 0 || z == 1 || z == 127) && k + 2 < 14) { // followed by something
              s[k + 1] = 0x00;
              one<T>(s, k + 2, *bufs[k + 2]);
              s[k + 1] = 0x81;
              one<T>(s, k + 2, *bufs[k + 2]);
            }
          }
        int i = 0;
        while (i < k && ++d[i] == ns) d[i++] = 0;
        if (i == k) break;
      }
    }
    // far more bytes than needed behind it
    for (uint64_t room : vast_sizes()) {
      T const vs[] = {T(0), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(100)};
      for (T v : vs) {
        mark("varint decode from a vast buffer", v, long(room));
        u8* b = vast();
        memset(b, 0xff, 64);
        int const len = ref_encode(fold(v), b);
        T got = T(~v);
        u8 const *p = b, *e = varint::decode(got, p, p + room);
        ++R().evaluations;
        if (e != p + len || got != v)
          V_FAIL(strf("vast:%s", t), "decode<%s> of the encoding of %s followed by others, %llu bytes: %s", t, sv(v).c_str(), (unsigned long long)room,
                 e == p ? "fails" : "wrong");
        memset(b, 0x80, 64);
        got = T(0x5a);
        if (varint::decode(got, p, p + room) != p || (std::is_signed<T>::value && got != T(0x5a)))
          V_FAIL(strf("vast:endless:%s", t), "decode<%s> of %llu bytes beginning with 64 continuation bytes: accepted, or output changed", t,
                 (unsigned long long)room);
      }
    }
    // two byte strings behind a terminating byte never matter
    for (int z = 0; z < 128; ++z)
      for (int y = 0; y < 256; ++y) {
        s[0] = u8(z);
        s[1] = u8(y);
        one<T>(s, 2, *bufs[2]);
      }
    // other containers
    for (int z = 0; z < 256; ++z)
      for (int y = 0; y < 256; ++y)
        for (int n = 0; n <= 2; ++n) {
          s[0] = u8(z);
          s[1] = u8(y);
          std::list<u8> l(s, s + n);
          T want = T(0x5a), got = T(0x5a);
          int used = ref_decode<T>(s, n, want);
          auto e = varint::decode(got, l.cbegin(), l.cend());
          check(t, "list", s, n, used, want, int(std::distance(l.cbegin(), e)), got, T(0x5a));
          u8 mem[3];
          embedded::circular_buffer_adapter<u8> cb(mem, 3, size_t(z % 3), 0);
          for (int i = 0; i < n; ++i) cb.push_back(s[i]);
          got = T(0x5a);
          auto r = varint::decode(got, cb.begin(), cb.end());
          check(t, "ring", s, n, used, want, int(r - cb.begin()), got, T(0x5a));
          R().evaluations += 2;
        }
    R().sample(strf("%s: %llu byte strings up to %d bytes", t, (unsigned long long)(R().evaluations - before), g + 4), 14);
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  all_types(Decode());
  R().finish();
}
#endif

// ------------------------------------------------------------------ C09
#if PROP == 9
struct Fold {
  template <typename T> void operator()(T) const { go<T>(std::is_signed<T>()); }
  template <typename T> void go(std::false_type) const {
    const char* t = Name<T>::get();
    typedef typename std::make_signed<T>::type S;
    uint64_t n = 0;
    values<T>([&](T u) {
      mark("zig_zag_decode", u);
      ++n;
      S s = varint::zig_zag_decode(u);
      static_assert(std::is_same<decltype(varint::zig_zag_decode(u)), S>::value, "type of the inverse");
      if (s != unfold<S>(u)) V_FAIL(strf("unfold:%s", t), "zig_zag_decode(%s %s) = %s", t, sv(u).c_str(), sv(s).c_str());
      if (typename std::make_unsigned<S>::type(varint::zig_zag_encode(s)) != u)
        V_FAIL(strf("unfold-fold:%s", t), "zig_zag_encode(zig_zag_decode(%s %s)) differs", t, sv(u).c_str());
    });
    R().evaluations += n;
  }
  template <typename T> void go(std::true_type) const {
    const char* t = Name<T>::get();
    typedef typename std::make_unsigned<T>::type U;
    uint64_t n = 0;
    values<T>([&](T v) {
      mark("zig_zag_encode", v);
      ++n;
      U u = varint::zig_zag_encode(v);
      static_assert(std::is_same<decltype(varint::zig_zag_encode(v)), U>::value, "type of the folding");
      if (u != U(fold(v))) V_FAIL(strf("fold:%s", t), "zig_zag_encode(%s %s) = %s", t, sv(v).c_str(), sv(u).c_str());
      if (T(varint::zig_zag_decode(u)) != v)
        V_FAIL(strf("fold-unfold:%s", t), "zig_zag_decode(zig_zag_encode(%s %s)) differs", t, sv(v).c_str());
    });
    R().evaluations += n;
    R().sample(strf("%s: folding of %llu values", t, (unsigned long long)n), 14);
  }
};
#define FOLD(T, v, u)                                                                                                    \
  static_assert(varint::zig_zag_encode<T>(v) == (u) && varint::zig_zag_decode<std::make_unsigned<T>::type>(u) == (v), \
                "folding in constant expressions")
FOLD(int8_t, 0, 0u); FOLD(int8_t, -1, 1u); FOLD(int8_t, 1, 2u); FOLD(int8_t, 127, 254u); FOLD(int8_t, -128, 255u);
FOLD(int16_t, 0, 0u); FOLD(int16_t, -1, 1u); FOLD(int16_t, 32767, 65534u); FOLD(int16_t, -32768, 65535u);
FOLD(int32_t, 0, 0u); FOLD(int32_t, -1, 1u); FOLD(int32_t, 17, 34u); FOLD(int32_t, -17, 33u);
FOLD(int32_t, INT32_MAX, 0xfffffffeu); FOLD(int32_t, INT32_MIN, 0xffffffffu);
FOLD(int64_t, 0, 0u); FOLD(int64_t, -1, 1u); FOLD(int64_t, INT64_MAX, 0xfffffffffffffffeull);
FOLD(int64_t, INT64_MIN, 0xffffffffffffffffull);

// streams: elements are (type, value)
struct Elem {
  int type; // 0..7: i8 u8 i16 u16 i32 u32 i64 u64
  uint64_t bits;
  int len;
  u8 ref[12];
};
template <typename F> bool with_type(int t, F f) {
  switch (t) {
  case 0: return f(int8_t());
  case 1: return f(uint8_t());
  case 2: return f(int16_t());
  case 3: return f(uint16_t());
  case 4: return f(int32_t());
  case 5: return f(uint32_t());
  case 6: return f(int64_t());
  default: return f(uint64_t());
  }
}
template <typename Out> struct Append {
  Out& o;
  uint64_t bits;
  template <typename T> bool operator()(T) const {
    varint::encode(T(bits), std::back_inserter(o));
    return true;
  }
};
template <typename Iter> struct Advance { // bounded or unbounded encode through an iterator
  Iter& i;
  Iter end;
  bool bounded;
  uint64_t bits;
  template <typename T> bool operator()(T) const {
    Iter b = i;
    i = bounded ? varint::encode(T(bits), i, end) : varint::encode(T(bits), i);
    return i != b;
  }
};
template <typename Iter> struct Take {
  Iter& i;
  Iter end;
  uint64_t bits;
  bool* equal;
  template <typename T> bool operator()(T) const {
    T v = T(~bits);
    Iter b = i;
    i = varint::decode(v, i, end);
    *equal = v == T(bits);
    return i != b;
  }
};
static std::string show(std::vector<Elem const*> const& s) {
  static const char* const n[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"};
  std::string r;
  for (auto e : s) r += strf("%s:%llx ", n[e->type], (unsigned long long)e->bits);
  return r;
}
// decode from [b,e); want = how many elements decode before the cut
template <typename Iter>
void read(std::vector<Elem const*> const& s, Iter b, Iter e, int bytes, const char* kind) {
  Iter i = b;
  int pos = 0;
  for (size_t k = 0; k < s.size(); ++k) {
    bool eq = false;
    bool ok = with_type(s[k]->type, Take<Iter>{i, e, s[k]->bits, &eq});
    bool want = pos + s[k]->len <= bytes;
    if (ok != want) {
      V_FAIL(strf("stream:%s:%s", kind, want ? "element-lost" : "cut-element-accepted"),
             "%s stream [%s] cut to %d bytes: element %zu %s", kind, show(s).c_str(), bytes, k,
             ok ? "decoded although it is cut" : "did not decode");
      return;
    }
    if (!ok) return;
    if (!eq) {
      V_FAIL(strf("stream:%s:value", kind), "%s stream [%s] cut to %d bytes: element %zu differs", kind, show(s).c_str(),
             bytes, k);
      return;
    }
    pos += s[k]->len;
    if (std::distance(b, i) != pos) {
      V_FAIL(strf("stream:%s:position", kind), "%s stream [%s]: behind element %zu at byte %d, expected %d", kind,
             show(s).c_str(), k, int(std::distance(b, i)), pos);
      return;
    }
  }
  if (pos == bytes && i != e) V_FAIL(strf("stream:%s:end", kind), "%s stream [%s] does not end at the end", kind, show(s).c_str());
}
static void stream(std::vector<Elem const*> const& s, bool deep) {
  u8 ref[64];
  int n = 0;
  for (auto e : s) {
    memcpy(ref + n, e->ref, e->len);
    n += e->len;
  }
  Crumb& c = crumb();
  c.what = "varint stream";
  c.n = 0;
  for (auto e : s) {
    c.v[c.n++] = e->type;
    c.v[c.n++] = long(e->bits);
  }
  ++beat();
  ++R().evaluations;
  R().distinct_n += s.size() > 1;
  static std::vector<u8> v;
  v.clear();
  for (auto e : s) with_type(e->type, Append<std::vector<u8>>{v, e->bits});
  if (int(v.size()) != n || memcmp(v.data(), ref, n))
    V_FAIL("stream:append", "stream [%s] written as %s, expected %s", show(s).c_str(), hex(v.data(), int(v.size())).c_str(),
           hex(ref, n).c_str());
  for (int cut = 0; cut <= n; ++cut) read(s, (u8 const*)ref, (u8 const*)ref + cut, cut, "pointer");
  if (!deep) return;
  std::unique_ptr<u8[]> exact(new u8[n]);
  for (int bounded = 0; bounded < 2; ++bounded) {
    u8* i = exact.get();
    memset(i, 0xA5, n);
    for (auto e : s)
      if (!with_type(e->type, Advance<u8*>{i, exact.get() + n, bool(bounded), e->bits}))
        V_FAIL("stream:write", "stream [%s]: bounded write failed", show(s).c_str());
    if (i != exact.get() + n || memcmp(exact.get(), ref, n)) V_FAIL("stream:write-bytes", "stream [%s] written wrongly", show(s).c_str());
  }
  std::list<u8> l;
  std::deque<u8> d;
  for (auto e : s) {
    with_type(e->type, Append<std::list<u8>>{l, e->bits});
    with_type(e->type, Append<std::deque<u8>>{d, e->bits});
  }
  read(s, l.begin(), l.end(), n, "list");
  read(s, l.cbegin(), l.cend(), n, "const list");
  read(s, d.begin(), d.end(), n, "deque");
  std::forward_list<u8> f(n);
  auto fi = f.begin();
  for (auto e : s) with_type(e->type, Advance<std::forward_list<u8>::iterator>{fi, f.end(), true, e->bits});
  read(s, f.begin(), f.end(), n, "forward_list");
  read(s, v.rbegin().base(), v.rbegin().base(), 0, "empty");
  // through a ring buffer that wraps somewhere in the middle
  for (int first = 0; first < n + 1; ++first) {
    u8 mem[64];
    memset(mem, 0, sizeof mem);
    embedded::circular_buffer_adapter<u8> cb(mem, n + 1, first, 0);
    for (auto e : s) with_type(e->type, Append<embedded::circular_buffer_adapter<u8>>{cb, e->bits});
    if (int(cb.size()) != n) {
      V_FAIL("stream:ring-write", "stream [%s] through a ring: %zu bytes", show(s).c_str(), cb.size());
      continue;
    }
    for (int cut = 0; cut <= n; ++cut) read(s, cb.begin(), cb.begin() + cut, cut, "ring");
  }
}
// one stream of n elements, without comparing at every cut
template <typename C> static void long_stream(std::vector<Elem> const& pool, size_t n, const char* kind) {
  C c;
  std::vector<size_t> pos;
  size_t bytes = 0;
  for (size_t i = 0; i < n; ++i) {
    Elem const& e = pool[(i * 7 + i / pool.size()) % pool.size()];
    with_type(e.type, Append<C>{c, e.bits});
    bytes += e.len;
  }
  crumb().what = "long varint stream";
  ++beat();
  ++R().evaluations;
  if (c.size() != bytes) V_FAIL(strf("long:%s:write", kind), "%s: a stream of %zu elements has %zu bytes, not %zu", kind, n, c.size(), bytes);
  // bounded writing over it, reading and writing in lock step
  auto w = c.begin();
  auto i = c.begin();
  size_t at = 0;
  for (size_t k = 0; k < n; ++k) {
    Elem const& e = pool[(k * 7 + k / pool.size()) % pool.size()];
    if (!with_type(e.type, Advance<typename C::iterator>{w, c.end(), true, e.bits})) {
      V_FAIL(strf("long:%s:bounded", kind), "%s: bounded write of element %zu of %zu fails", kind, k, n);
      return;
    }
    bool eq = false;
    bool const ok = with_type(e.type, Take<typename C::iterator>{i, c.end(), e.bits, &eq});
    at += e.len;
    if (!ok || !eq || i != w) {
      V_FAIL(strf("long:%s:read", kind), "%s: element %zu of %zu (at byte %zu of %zu) %s", kind, k, n, at - e.len, bytes,
             !ok ? "does not decode" : !eq ? "differs" : "ends at the wrong place");
      return;
    }
  }
  if (i != c.end() || w != c.end()) V_FAIL(strf("long:%s:end", kind), "%s: a stream of %zu elements does not end at its end", kind, n);
}
int main(int argc, char** argv) {
  init(argc, argv);
  all_types(Fold());
#if !defined(FOLD_ONLY)
  std::vector<Elem> pool;
  for (int t = 0; t < 8; ++t)
    with_type(t, [&](auto x) {
      typedef decltype(x) T;
      T const vs[] = {T(0), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(64), T(300)};
      for (T v : vs) {
        Elem e;
        e.type = t;
        e.bits = uint64_t(v);
        e.len = ref_encode(fold(v), e.ref);
        bool dup = false;
        for (auto& o : pool) dup |= o.type == t && T(o.bits) == v;
        if (!dup) pool.push_back(e);
      }
      return true;
    });
  for (size_t n : {40, 41, 42, 60, 61, 62, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 1000, 20000}) {
    long_stream<std::vector<u8>>(pool, n, "vector");
    long_stream<std::deque<u8>>(pool, n, "deque");
    long_stream<std::list<u8>>(pool, n, "list");
  }
  std::vector<Elem const*> s;
  stream(s, true);
  for (auto& a : pool) {
    s = {&a};
    stream(s, true);
    for (auto& b : pool) {
      s = {&a, &b};
      stream(s, true);
      for (auto& c : pool) {
        s = {&a, &b, &c};
        stream(s, false);
        if (R().thorough)
          for (auto& d : pool) {
            s = {&a, &b, &c, &d};
            stream(s, false);
          }
      }
    }
  }
  R().sample(strf("all streams of up to %d elements out of %zu, cut at every byte", R().thorough ? 4 : 3, pool.size()), 14);
#endif
  R().finish();
}
#endif
