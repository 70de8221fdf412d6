// C01/C02/C04/C05: all histories of the real circular buffer, breadth first to a
// fixpoint for small capacities, plus all unmerged histories up to a depth.
// -DCHECKS=<oracle flags> -DELEM=<type> -DBULK=<0|1> -DTHROW=<0|1>
#include "cba.h"
using namespace cbt;

static std::vector<Op> alphabet(size_t cap) {
  std::vector<Op> r;
  uint8_t V = VALUES;
  for (uint8_t v = 0; v < V; ++v)
    for (uint8_t c : {PB_C, PF_C, PB_M, PF_M, PB_E, PF_E}) r.push_back({c, v, 0});
  r.push_back({POPF, 0, 0});
  r.push_back({POPB, 0, 0});
  for (size_t n = 0; n <= cap; ++n) {
    r.push_back({POPFN, uint8_t(n), 0});
    r.push_back({POPBN, uint8_t(n), 0});
  }
  r.push_back({CLEAR, 0, 0});
  r.push_back({MOVEC, 0, 0});
  r.push_back({MOVEA, 0, 0});
  for (size_t i = 0; i < cap; ++i) {
    r.push_back({SET, uint8_t(i), uint8_t((i + 1) % V)});
    r.push_back({PB_SELF, uint8_t(i), 0});
    r.push_back({PF_SELF, uint8_t(i), 0});
  }
  r.push_back({REATTACH, 0, 0});
  r.push_back({REATTACH, 1, 0});
#if BULK
  for (size_t n = 0; n <= cap; ++n) {
    for (uint8_t x = 0; x < 2; ++x) {
      r.push_back({CIB, uint8_t(n), x});
      r.push_back({CIF, uint8_t(n), x});
    }
    r.push_back({COF, uint8_t(n), 0});
    r.push_back({COB, uint8_t(n), 0});
    for (size_t j = n; j <= cap; ++j) {
      r.push_back({CIR, uint8_t(n), uint8_t(j)});
      r.push_back({COR, uint8_t(n), uint8_t(j)});
    }
  }
#endif
#if THROW
  for (uint8_t k = 0; k < 3; ++k) {
    r.push_back({PB_T, 0, k});
    r.push_back({PF_T, 0, k});
  }
#endif
  return r;
}

// a reduced alphabet for the unmerged search: what moves the ring
static std::vector<Op> small_alphabet(size_t cap) {
  std::vector<Op> r;
  r.push_back({PB_M, 1, 0});
  r.push_back({PF_M, 0, 0});
  r.push_back({PB_E, 0, 0});
  r.push_back({POPF, 0, 0});
  r.push_back({POPB, 0, 0});
  r.push_back({POPFN, 2, 0});
  r.push_back({POPBN, 2, 0});
  r.push_back({POPFN, uint8_t(cap), 0});
  r.push_back({CLEAR, 0, 0});
  r.push_back({MOVEA, 0, 0});
#if BULK
  r.push_back({CIB, 2, 0});
  r.push_back({CIF, 2, 1});
  r.push_back({COF, 2, 0});
  r.push_back({COB, 2, 0});
  r.push_back({CIR, 0, uint8_t(cap - 1)});
#endif
#if THROW
  r.push_back({PB_T, 0, 1});
  r.push_back({PF_T, 0, 2});
#endif
  return r;
}

int main(int argc, char** argv) {
  verif::init(argc, argv);
  Explorer<ELEM, CHECKS> x;
  x.tag = TAG;
  x.alphabet = alphabet;
  if (x.replay_env()) return R().violations.empty() ? 0 : 1;
  size_t maxcap = R().thorough ? MAXCAP_T : MAXCAP_Q;
  for (size_t cap = 1; cap <= maxcap; ++cap) x.bfs(cap, 4000000);
  x.alphabet = small_alphabet;
  size_t depth = R().thorough ? DEPTH_T : DEPTH_Q;
  for (size_t cap = 2; cap <= 3; ++cap)
    for (size_t f = 0; f < cap; f += cap - 1)
      for (size_t n = 0; n <= cap; ++n) x.dfs(Init{cap, f, n}, depth);
  R().note(strf("%s: all unmerged histories of length %zu over %zu operations from %d states", TAG, depth,
                small_alphabet(3).size(), 14));
  R().finish();
}
