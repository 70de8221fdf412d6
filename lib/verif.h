// Common support for the model checking harnesses: result reporting, crash and
// hang conversion, state set hashing.  Deliberately independent of the code
// under test; usable from C++11 on.
#pragma once

#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace verif {

// ---------------------------------------------------------------- breadcrumb
// What is being executed right now; printed when the process dies.
struct Crumb {
  const char* what = "start";
  void (*fmt)(char*, size_t) = nullptr; // optional pretty printer
  int n = 0;
  long v[96];
};
inline Crumb& crumb() {
  static Crumb c;
  return c;
}
struct Beat {
  volatile unsigned long v;
  void operator++() { v = v + 1; }
};
inline Beat& beat() {
  static Beat b = {0};
  return b;
}

struct Violation {
  std::string key, msg;
};

class Report {
 public:
  uint64_t evaluations = 0, states = 0, transitions = 0, traces = 0;
  std::unordered_set<uint64_t> distinct; // distinct non-trivial cases, by hash
  uint64_t distinct_n = 0;               // those distinct by construction, counted
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::vector<std::string> notes;
  std::string out;
  bool thorough = false;
  size_t max_violations = 6;

  void sample(std::string const& s, size_t max = 6) {
    if (samples.size() < max) samples.push_back(s);
  }
  void note(std::string const& s) { notes.push_back(s); }

  void fail(std::string const& key, std::string const& msg) {
    for (auto const& v : violations)
      if (v.key == key) return;
    violations.push_back({key, msg});
    fprintf(stderr, "VIOLATED [%s] %s\n", key.c_str(), msg.c_str());
    if (violations.size() >= max_violations) finish();
  }

  [[noreturn]] void finish() {
    write(nullptr);
    fflush(stdout);
    fflush(stderr);
    _exit(violations.empty() ? 0 : 1);
  }

  static std::string esc(std::string const& s) {
    std::string r;
    for (char c : s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += c;
      } else if ((unsigned char)c < 32 || (unsigned char)c > 126) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", (unsigned char)c);
        r += b;
      } else
        r += c;
    }
    return r;
  }

  void write(const char*) {
    std::string j = "{";
    char b[256];
    snprintf(b, sizeof b,
             "\"evaluations\":%llu,\"states\":%llu,\"transitions\":%llu,"
             "\"traces\":%llu,\"distinct\":%llu",
             (unsigned long long)evaluations, (unsigned long long)states,
             (unsigned long long)transitions, (unsigned long long)traces,
             (unsigned long long)(distinct.size() + distinct_n));
    j += b;
    j += ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i)
      j += (i ? ",\"" : "\"") + esc(samples[i]) + "\"";
    j += "],\"notes\":[";
    for (size_t i = 0; i < notes.size(); ++i)
      j += (i ? ",\"" : "\"") + esc(notes[i]) + "\"";
    j += "],\"violations\":[";
    for (size_t i = 0; i < violations.size(); ++i)
      j += std::string(i ? "," : "") + "{\"key\":\"" + esc(violations[i].key) +
           "\",\"msg\":\"" + esc(violations[i].msg) + "\"}";
    j += "]}\n";
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) _exit(7);
    fwrite(j.data(), 1, j.size(), f);
    if (f != stdout) fclose(f);
  }
};

inline Report& R() {
  static Report r;
  return r;
}

// ------------------------------------------------------------ death handling
inline void die_report(const char* how) {
  static volatile sig_atomic_t entered = 0;
  if (entered) _exit(4);
  entered = 1;
  static char buf[8192], det[4096];
  Crumb& c = crumb();
  det[0] = 0;
  if (c.fmt)
    c.fmt(det, sizeof det);
  else {
    size_t p = 0;
    for (int i = 0; i < c.n && p < sizeof det - 32; ++i)
      p += snprintf(det + p, sizeof det - p, " %ld", c.v[i]);
  }
  for (char* q = det; *q; ++q)
    if (*q == '"' || *q == '\\' || (unsigned char)*q < 32 ||
        (unsigned char)*q > 126)
      *q = '\'';
  int len = snprintf(buf, sizeof buf,
                     "{\"crash\":\"%s\",\"where\":\"%s\",\"detail\":\"%s\"}\n",
                     how, c.what, det);
  const char* o = R().out.empty() ? nullptr : R().out.c_str();
  int fd = o ? open(o, O_WRONLY | O_CREAT | O_TRUNC, 0644) : 1;
  if (fd >= 0) {
    ssize_t x = ::write(fd, buf, len);
    (void)x;
  }
  _exit(3);
}

inline void on_signal(int s) {
  if (s == SIGPROF) {
    static unsigned long last = ~0ul;
    static int same = 0;
    if (beat().v == last) {
      if (++same >= 4) die_report("hang: one case used more than 20 s of CPU");
    } else {
      same = 0;
      last = beat().v;
    }
    return;
  }
  die_report(s == SIGABRT   ? "abort (assertion, terminate or sanitizer)"
             : s == SIGSEGV ? "segmentation fault"
             : s == SIGFPE  ? "arithmetic fault"
             : s == SIGILL  ? "illegal instruction"
             : s == SIGBUS  ? "bus error"
                            : "signal");
}
inline void on_sanitizer() { die_report("sanitizer error"); }

inline void init(int argc, char** argv) {
  (void)argc;
  (void)argv;
  Report& r = R();
  if (const char* o = getenv("VERIF_OUT")) r.out = o;
  if (const char* t = getenv("VERIF_TIER")) r.thorough = !strcmp(t, "thorough");
  static char altstack[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  int const sigs[] = {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS};
  for (int s : sigs) {
#if defined(__SANITIZE_ADDRESS__)
    if (s == SIGSEGV || s == SIGBUS) continue; // handled by the sanitizer
#endif
    sigaction(s, &sa, nullptr);
  }
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(on_sanitizer);
#endif
  struct itimerval it;
  it.it_interval.tv_sec = 5;
  it.it_interval.tv_usec = 0;
  it.it_value = it.it_interval;
  setitimer(ITIMER_PROF, &it, nullptr);
}

// ------------------------------------------------------------------- helpers
inline std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  Hash& add(uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0x100000001b3ull;
    h ^= h >> 29;
    return *this;
  }
  Hash& bytes(void const* p, size_t n) {
    unsigned char const* c = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i) {
      h ^= c[i];
      h *= 0x100000001b3ull;
    }
    return *this;
  }
  operator uint64_t() const { return h; }
};

} // namespace verif

#define V_FAIL(key, ...) verif::R().fail((key), verif::strf(__VA_ARGS__))
