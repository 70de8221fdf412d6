// C04: every bulk copy on every ring up to a capacity, for element sizes 1..16,
// with all-distinct contents, against element-wise transfer.
#include "cba.h"
#include <vector>
using namespace cbt;

template <size_t N> struct Bytes { // trivial element of N bytes
  unsigned char c[N];
};
template <typename T> T make(unsigned x) {
  T t;
  unsigned char* p = reinterpret_cast<unsigned char*>(&t);
  for (size_t i = 0; i < sizeof(T); ++i) p[i] = (unsigned char)(x * 37 + i * 11 + 1);
  return t;
}
template <typename T> bool same(T const& a, T const& b) { return !memcmp(&a, &b, sizeof(T)); }

struct Case {
  size_t cap, first, count, n, from;
};
static Case cur;
static const char* cur_op;
static void fmt(char* b, size_t s) {
  snprintf(b, s, "%s: cap=%zu first=%zu count=%zu n=%zu from=%zu", cur_op, cur.cap, cur.first, cur.count, cur.n, cur.from);
}
enum { IN_FRONT, IN_BACK, OUT_FRONT, OUT_BACK, IN_RANGE, OUT_RANGE, OPS };
static const char* const names[] = {"copy_in_front", "copy_in_back", "copy_out_front", "copy_out_back", "copy_in(range)", "copy_out(range)"};

// an exactly sized array: redzones with the sanitizer, canaries without
template <typename T> struct Exact {
  unsigned char* base;
  T* p;
  size_t n;
  explicit Exact(size_t n_) : n(n_) {
#if defined(__SANITIZE_ADDRESS__)
    base = new unsigned char[n * sizeof(T) ? n * sizeof(T) : 1];
    p = reinterpret_cast<T*>(n ? base : base + 1);
    memset(base, 0xA5, n * sizeof(T));
#else
    base = new unsigned char[n * sizeof(T) + 64];
    memset(base, 0xA5, n * sizeof(T) + 64);
    p = reinterpret_cast<T*>(base + 32);
#endif
  }
  bool intact() const {
#if !defined(__SANITIZE_ADDRESS__)
    for (size_t i = 0; i < 32; ++i)
      if (base[i] != 0xA5 || base[32 + n * sizeof(T) + i] != 0xA5) return false;
#endif
    return true;
  }
  ~Exact() { delete[] base; }
};

template <typename T> void one(int op, Case k, const char* type) {
  cur = k;
  cur_op = names[op];
  crumb().what = names[op];
  crumb().fmt = fmt;
  ++beat();
  ++R().evaluations;
  ++R().transitions;
  ++R().traces;
  Exact<T> ring(k.cap), ext(k.n);
  std::deque<unsigned> model; // contents as value numbers
  std::vector<unsigned> slots(k.cap);
  for (size_t s = 0; s < k.cap; ++s) {
    slots[s] = 200 + unsigned(s);
    ring.p[s] = make<T>(200 + unsigned(s));
  }
  for (size_t i = 0; i < k.count; ++i) {
    size_t s = (k.first + i) % k.cap;
    slots[s] = unsigned(i);
    ring.p[s] = make<T>(unsigned(i));
    model.push_back(unsigned(i));
  }
  bool in = op == IN_FRONT || op == IN_BACK || op == IN_RANGE;
  for (size_t i = 0; i < k.n; ++i) ext.p[i] = make<T>(in ? 100 + unsigned(i) : 99);
  circular_buffer_adapter<T> b(ring.p, k.cap, k.first, k.count);
  size_t first = k.first;
  std::vector<unsigned> out;
  switch (op) {
  case IN_FRONT:
    b.copy_in_front(static_cast<T const*>(ext.p), k.n);
    for (size_t i = k.n; i-- > 0;) {
      first = (first + k.cap - 1) % k.cap;
      model.push_front(100 + unsigned(i));
      slots[first] = 100 + unsigned(i);
    }
    break;
  case IN_BACK:
    b.copy_in_back(static_cast<T const*>(ext.p), k.n);
    for (size_t i = 0; i < k.n; ++i) {
      slots[(first + model.size()) % k.cap] = 100 + unsigned(i);
      model.push_back(100 + unsigned(i));
    }
    break;
  case OUT_FRONT:
    b.copy_out_front(ext.p, k.n);
    for (size_t i = 0; i < k.n; ++i) {
      out.push_back(model.front());
      model.pop_front();
      first = (first + 1) % k.cap;
    }
    break;
  case OUT_BACK:
    b.copy_out_back(ext.p, k.n);
    for (size_t i = 0; i < k.n; ++i) {
      out.insert(out.begin(), model.back());
      model.pop_back();
    }
    break;
  case IN_RANGE:
    b.copy_in(b.begin() + k.from, b.begin() + (k.from + k.n), static_cast<T const*>(ext.p));
    for (size_t i = 0; i < k.n; ++i) {
      model[k.from + i] = 100 + unsigned(i);
      slots[(first + k.from + i) % k.cap] = 100 + unsigned(i);
    }
    break;
  case OUT_RANGE:
    b.copy_out(b.cbegin() + k.from, b.cbegin() + (k.from + k.n), ext.p);
    for (size_t i = 0; i < k.n; ++i) out.push_back(model[k.from + i]);
    break;
  }
  auto fail = [&](const char* what) {
    char d[200];
    fmt(d, sizeof d);
    V_FAIL(strf("%s:%s", names[op], what), "%s of %s elements: %s is wrong", d, type, what);
  };
  if (b.size() != model.size() || b.capacity() != k.cap || b.remaining() != k.cap - model.size() ||
      b.empty() != model.empty() || b.full() != (model.size() == k.cap))
    return fail("size");
  for (size_t i = 0; i < model.size(); ++i) {
    if (!same(b[i], make<T>(model[i]))) return fail("order");
    if (&b[i] != ring.p + (first + i) % k.cap) return fail("slot");
  }
  if (b.raw_index(b.begin() + 0) != first && !model.empty()) return fail("first index");
  for (size_t s = 0; s < k.cap; ++s)
    if (!same(ring.p[s], make<T>(slots[s]))) return fail("memory");
  for (size_t i = 0; i < k.n; ++i)
    if (!same(ext.p[i], make<T>(in ? 100 + unsigned(i) : out[i]))) return fail("caller's array");
  if (!ring.intact()) return fail("memory around the ring");
  if (!ext.intact()) return fail("memory around the caller's array");
  // the ring continues to work where it is
  if (model.size() < k.cap) {
    b.push_back(make<T>(150));
    if (&b.back() != ring.p + (first + model.size()) % k.cap || b.size() != model.size() + 1) return fail("position of the next push");
  } else if (k.cap) {
    b.pop_front();
    b.push_back(make<T>(151));
    if (&b.back() != ring.p + first || b.size() != k.cap) return fail("position of the next push");
  }
}
template <typename T> void sweep(const char* type, size_t maxcap) {
  uint64_t before = R().evaluations;
  for (size_t cap = 1; cap <= maxcap; ++cap)
    for (size_t first = 0; first < cap; ++first)
      for (size_t count = 0; count <= cap; ++count) {
        ++R().states;
        for (size_t n = 0; n <= cap; ++n) {
          if (n <= cap - count) {
            one<T>(IN_FRONT, Case{cap, first, count, n, 0}, type);
            one<T>(IN_BACK, Case{cap, first, count, n, 0}, type);
          }
          if (n <= count) {
            one<T>(OUT_FRONT, Case{cap, first, count, n, 0}, type);
            one<T>(OUT_BACK, Case{cap, first, count, n, 0}, type);
            for (size_t from = 0; from + n <= count; ++from) {
              one<T>(IN_RANGE, Case{cap, first, count, n, from}, type);
              one<T>(OUT_RANGE, Case{cap, first, count, n, from}, type);
            }
          }
        }
      }
  R().sample(strf("%s: %llu bulk copies on all rings of 1..%zu slots", type, (unsigned long long)(R().evaluations - before), maxcap), 12);
}
int main(int argc, char** argv) {
  init(argc, argv);
  size_t m = R().thorough ? CAP_T : CAP_Q;
  sweep<uint8_t>("1 byte", m);
  sweep<uint16_t>("2 byte", m);
  sweep<Bytes<3>>("3 byte", m - 3);
  sweep<int32_t>("4 byte", m - 2);
  sweep<double>("8 byte", m - 2);
  sweep<Bytes<13>>("13 byte", m - 3);
  sweep<Bytes<16>>("16 byte", m - 3);
  sweep<Bytes<100>>("100 byte", m - 4);
  // rings of exactly a power of two and around, one element type
  for (size_t cap : {15, 16, 17, 31, 32, 33}) {
    if (cap > 17 && !R().thorough) continue;
    for (size_t first = 0; first < cap; ++first)
      for (size_t count = 0; count <= cap; ++count)
        for (size_t n = 0; n <= cap; ++n) {
          if (n <= cap - count) {
            one<uint16_t>(IN_FRONT, Case{cap, first, count, n, 0}, "2 byte");
            one<uint16_t>(IN_BACK, Case{cap, first, count, n, 0}, "2 byte");
          } 
          if (n <= count) {
            one<uint16_t>(OUT_FRONT, Case{cap, first, count, n, 0}, "2 byte");
            one<uint16_t>(OUT_BACK, Case{cap, first, count, n, 0}, "2 byte");
            one<uint16_t>(IN_RANGE, Case{cap, first, count, n, count - n}, "2 byte");
            one<uint16_t>(OUT_RANGE, Case{cap, first, count, n, (count - n) / 2}, "2 byte");
          }
        }
  }
  R().finish();
}
