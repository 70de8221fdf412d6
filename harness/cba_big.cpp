// C01/C02/C04: the same operations on rings around size boundaries (255..257,
// 65535..65537) and on rings of more than 2^31 / 2^32 slots, from all corner
// attach states.
#include "cba.h"
#include <sys/mman.h>
using namespace cbt;

struct Big {
  size_t cap, first, n;
};
static Big g;
static const char* g_op;
static void fmt(char* b, size_t s) {
  snprintf(b, s, "cap=%zu first=%zu size=%zu op=%s", g.cap, g.first, g.n, g_op);
}

// value stored at logical position i of the initial contents
static uint8_t val(size_t i) { return uint8_t(i * 7 + (i >> 8) * 3 + (i >> 16) * 5 + 1); }

template <typename F> static void step(char const* op, uint8_t* mem, Big b, bool sparse, F f) {
  g = b;
  g_op = op;
  crumb().what = "large ring operation";
  crumb().fmt = fmt;
  ++beat();
  ++R().evaluations;
  ++R().transitions;
  circular_buffer_adapter<uint8_t> c(mem, b.cap, b.first, b.n);
  auto slot = [&](size_t f, size_t i) { return f < b.cap - i ? f + i : f - (b.cap - i); };
  auto put = [&](size_t i) { mem[slot(b.first, i)] = val(i); };
  std::vector<size_t> probe; // logical positions looked at
  if (sparse) {
    for (size_t i = 0; i < b.n; i = i < 6 ? i + 1 : i + (b.n / 1000 + 1)) probe.push_back(i);
    for (size_t i = 0; i < 8 && i < b.n; ++i) probe.push_back(b.n - 1 - i);
    size_t wrap = b.cap - b.first;
    for (size_t i = wrap > 3 ? wrap - 3 : 0; i < wrap + 3 && i < b.n; ++i) probe.push_back(i);
  } else
    for (size_t i = 0; i < b.n; ++i) probe.push_back(i);
  for (size_t i : probe) put(i);
  // f performs the operation and returns how many elements left/joined at the front, and the new size
  long front_removed = 0;
  size_t n2 = b.n;
  f(c, front_removed, n2);
  auto fail = [&](std::string const& w) {
    R().fail(std::string("big:") + op + ":" + w, strf("%s: %s, cap=%zu first=%zu size=%zu", op, w.c_str(), b.cap, b.first, b.n));
  };
  if (c.size() != n2) return fail(strf("size is %zu, expected %zu", c.size(), n2));
  if (c.capacity() != b.cap || c.remaining() != b.cap - n2 || c.full() != (n2 == b.cap) || c.empty() != (n2 == 0))
    return fail("capacity/remaining/full/empty wrong");
  size_t first2 = front_removed >= 0 ? slot(b.first, size_t(front_removed)) : slot(b.first, b.cap - size_t(-front_removed));
  for (size_t i : probe) {
    long j = long(i) - front_removed;
    if (j < 0 || size_t(j) >= n2) continue;
    if (&c[j] != mem + slot(first2, j)) return fail(strf("[%ld] is in the wrong slot", j));
    if (c[j] != val(i)) return fail(strf("[%ld] has the wrong value", j));
  }
  if (n2) {
    if (&c.front() != mem + slot(first2, 0)) return fail("front is in the wrong slot");
    if (&c.back() != mem + slot(first2, n2 - 1)) return fail("back is in the wrong slot");
    if (c.raw_index(c.begin()) != first2) return fail("raw_index(begin) is wrong");
    if (c.end() - c.begin() != long(n2)) return fail("end - begin is not size");
    if (n2 > 1) {
      auto it = c.begin() + (n2 - 1);
      if (&*it != &c.back()) return fail("begin + (size-1) is not back");
      if (++it != c.end()) return fail("iteration does not end");
      if (&*(c.end() - n2) != &c.front()) return fail("end - size is not front");
      if (c.begin() + n2 != c.end()) return fail("begin + size is not end");
    }
  }
  if (n2 || b.n) {
    if (n2 && c.raw_index(c.end()) != slot(first2, n2 == b.cap ? 0 : n2)) return fail("raw_index(end) is wrong");
  }
  ++R().traces;
  R().distinct.insert(Hash().bytes(op, strlen(op)).add(b.cap).add(b.first).add(b.n));
}

static void all_ops(uint8_t* mem, Big b, bool sparse) {
  using C = circular_buffer_adapter<uint8_t>;
  ++R().states;
  if (b.n < b.cap) {
    step("push_back", mem, b, sparse, [&](C& c, long&, size_t& n) { c.push_back(9); ++n; if (c.back() != 9) n = ~0ul; });
    step("emplace_back", mem, b, sparse, [&](C& c, long&, size_t& n) { c.emplace_back(uint8_t(9)); ++n; if (c.back() != 9) n = ~0ul; });
    step("push_front", mem, b, sparse, [&](C& c, long& f, size_t& n) { c.push_front(8); ++n; f = -1; if (c.front() != 8) n = ~0ul; });
    step("emplace_front", mem, b, sparse, [&](C& c, long& f, size_t& n) { c.emplace_front(uint8_t(8)); ++n; f = -1; if (c.front() != 8) n = ~0ul; });
  }
  if (b.n > 0) {
    step("pop_front", mem, b, sparse, [&](C& c, long& f, size_t& n) { c.pop_front(); --n; f = 1; });
    step("pop_back", mem, b, sparse, [&](C& c, long&, size_t& n) { c.pop_back(); --n; });
  }
  size_t const counts[] = {0, 1, 2, b.n / 2, b.n ? b.n - 1 : 0, b.n};
  for (size_t k : counts)
    if (k <= b.n) {
      step("pop_front(n)", mem, b, sparse, [&](C& c, long& f, size_t& n) { c.pop_front(k); n -= k; f = long(k); });
      step("pop_back(n)", mem, b, sparse, [&](C& c, long&, size_t& n) { c.pop_back(k); n -= k; });
    }
  step("clear", mem, b, sparse, [&](C& c, long&, size_t& n) { c.clear(); n = 0; });
  size_t room = b.cap - b.n;
  static std::vector<uint8_t> user(200000);
  size_t const ins[] = {0, 1, 2, 255, 256, 257, 65535, 65536, 65537, room < user.size() ? room : 3};
  for (size_t k : ins)
    if (k <= room && k <= user.size()) {
      for (size_t i = 0; i < k; ++i) user[i] = uint8_t(i * 11 + 3);
      step("copy_in_back", mem, b, sparse, [&](C& c, long&, size_t& n) {
        c.copy_in_back(user.data(), k);
        for (size_t i = 0; i < k; ++i)
          if (c[n + i] != user[i]) { n = ~0ul; return; }
        n += k;
      });
      step("copy_in_front", mem, b, sparse, [&](C& c, long& f, size_t& n) {
        c.copy_in_front(user.data(), k);
        f = -long(k);
        for (size_t i = 0; i < k; ++i)
          if (c[i] != user[i]) { n = ~0ul; return; }
        n += k;
      });
    }
  size_t const outs[] = {0, 1, 2, 255, 256, 257, 65535, 65536, 65537, b.n < user.size() ? b.n : 3};
  for (size_t k : outs)
    if (k <= b.n && k <= user.size()) {
      std::fill(user.begin(), user.end(), uint8_t(0));
      step("copy_out_front", mem, b, sparse, [&](C& c, long& f, size_t& n) {
        std::vector<uint8_t> w(k);
        for (size_t i = 0; i < k; ++i) w[i] = c[i];
        c.copy_out_front(user.data(), k);
        f = long(k);
        n -= k;
        if (k && memcmp(w.data(), user.data(), k)) n = ~0ul;
      });
      step("copy_out_back", mem, b, sparse, [&](C& c, long&, size_t& n) {
        std::vector<uint8_t> w(k);
        for (size_t i = 0; i < k; ++i) w[i] = c[n - k + i];
        c.copy_out_back(user.data(), k);
        n -= k;
        if (k && memcmp(w.data(), user.data(), k)) n = ~0ul;
      });
    }
}

int main(int argc, char** argv) {
  verif::init(argc, argv);
  size_t const caps[] = {127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537};
  for (size_t cap : caps) {
    std::vector<uint8_t> mem(cap);
    size_t const pos[] = {0, 1, cap / 2, cap - 2, cap - 1};
    size_t const ns[] = {0, 1, 2, cap / 2, cap - 1, cap};
    for (size_t f : pos)
      for (size_t n : ns) all_ops(mem.data(), Big{cap, f, n}, cap > 300);
  }
#if !defined(__SANITIZE_ADDRESS__)
#if __SIZEOF_SIZE_T__ > 4
  size_t const huge[] = {(1ul << 31) - 1, (1ul << 31) + 10, (1ul << 32) - 1, (1ul << 32) + 10};
#else
  size_t const huge[] = {(1ul << 30) + 10, (1ul << 31) - 1}; // no array is larger
#endif
  for (size_t cap : huge) {
    void* m = mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) {
      R().note("huge mapping not available");
      break;
    }
    size_t const pos[] = {0, cap / 2, cap - 1};
    size_t const ns[] = {0, 2, cap - 1, cap};
    for (size_t f : pos)
      for (size_t n : ns) all_ops(static_cast<uint8_t*>(m), Big{cap, f, n}, true);
    munmap(m, cap);
  }
#endif
  R().sample(strf("last: cap=%zu first=%zu size=%zu op=%s", g.cap, g.first, g.n, g_op));
  R().finish();
}
