// C14: lock guards under every interleaving.
//
// Threads are fibers that give control back to an exploring scheduler before
// every lock, unlock and access to shared data.  Every schedule of every
// program of the stated size is executed on the real lock_guard.
#include "verif.h"
#include <embedded/mutex.h>
#include <memory>
#include <new>
#include <type_traits>
#include <ucontext.h>
#include <utility>
using namespace verif;

#if LIBEMB_EXC
#define TRY try
#define CATCH(x) catch (x)
#define THROW(x) throw x
#else
#define TRY if (true)
#define CATCH(x) else
#define THROW(x) std::abort()
#endif

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_start_switch_fiber(void**, void const*, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void*, void const**, size_t*);
#endif
#if LIBEMB_EXC
namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}
#endif

struct Boom {
  int level;
};
struct LockFailed {};

// ----------------------------------------------------------------- scheduler
enum { MAXT = 3, STACK = 96 * 1024 };
struct Fiber {
  ucontext_t uc;
  char* stack;
  bool done, started;
  int waits; // number of the lock waited for or -1
  int events;
  bool fail_next; // the next lock of this thread throws
  char eh[16];
  void* fake;
};
static Fiber fib[MAXT];
static ucontext_t main_uc;
static char main_eh[16];
#if defined(__SANITIZE_ADDRESS__)
static void* main_fake;
static void const* main_stack;
static size_t main_stack_size;
#endif
static int cur = -1, nthreads = 0;

struct Choice {
  int taken, n;
};
static std::vector<Choice> path;
static size_t pos;
static int preemptions, max_preempt;
static int choose(int n) {
  if (n <= 1) return 0;
  if (pos == path.size()) path.push_back(Choice{0, n});
  return path[pos++].taken;
}
static bool next_path() {
  while (!path.empty() && path.back().taken + 1 == path.back().n) path.pop_back();
  if (path.empty()) return false;
  ++path.back().taken;
  return true;
}

static void eh_swap(char* save, char* load) {
#if LIBEMB_EXC
  char* g = reinterpret_cast<char*>(__cxxabiv1::__cxa_get_globals());
  memcpy(save, g, 16);
  memcpy(g, load, 16);
#else
  (void)save, (void)load;
#endif
}
static void yield_to_main(bool last = false) {
  Fiber& f = fib[cur];
  eh_swap(f.eh, main_eh);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber(last ? nullptr : &f.fake, main_stack, main_stack_size);
#endif
  (void)last;
  swapcontext(&f.uc, &main_uc);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(f.fake, &main_stack, &main_stack_size);
#endif
}
static void sched_point() {
  ++fib[cur].events;
  if (nthreads > 1) yield_to_main();
}

// ------------------------------------------------------------------- mutexes
struct World {
  int owner[4], depth[4]; // per lock: owning thread or -1, recursion
  long data[4];           // what each lock protects
  int inside[4];          // threads in a critical section of each lock
  long locks, unlocks;
  int fail_budget;
};
static World w;
static std::string error;
static void bad(char const* s) {
  if (error.empty()) error = s;
}
static std::string trace;

static void mutex_lock(int id, bool recursive) {
  ++w.locks;
  sched_point();
  if (fib[cur].fail_next) {
    fib[cur].fail_next = false;
    trace += 'f';
    trace += char('A' + id);
#if LIBEMB_EXC
    throw LockFailed();
#endif
  }
  if (w.owner[id] == cur && !recursive) {
    bad("a thread locks a mutex that it holds already");
    return;
  }
  fib[cur].waits = id;
  while (w.owner[id] != -1 && w.owner[id] != cur) yield_to_main();
  fib[cur].waits = -1;
  w.owner[id] = cur;
  ++w.depth[id];
  trace += 'L';
  trace += char('A' + id);
}
static void mutex_unlock(int id) {
  ++w.unlocks;
  sched_point();
  trace += 'U';
  trace += char('A' + id);
  if (w.owner[id] != cur) {
    bad("a mutex is unlocked by a thread that does not hold it");
    return;
  }
  if (w.inside[id]) bad("a mutex is unlocked while its critical section is still running");
  if (--w.depth[id] == 0) w.owner[id] = -1;
}

// A mutex that cannot be copied, moved or assigned, as usual.
struct Plain {
  int id;
  explicit Plain(int i) : id(i) {}
  Plain(Plain const&) = delete;
  Plain& operator=(Plain const&) = delete;
  void operator&() const = delete;
  void lock() { mutex_lock(id, false); }
  void unlock() { mutex_unlock(id); }
};
// A handle-like mutex that could be copied: a copy is not the same mutex.
struct Copyable {
  int id;
  explicit Copyable(int i) : id(i) {}
  Copyable(Copyable const&) : id(3) { bad("the mutex was copied"); }
  Copyable& operator=(Copyable const&) {
    bad("the mutex was assigned");
    return *this;
  }
  int lock() {
    mutex_lock(id, false);
    return -1;
  }
  bool unlock() {
    mutex_unlock(id);
    return false;
  }
};
struct Base {
  int id;
  explicit Base(int i) : id(i) {}
  virtual ~Base() {}
  virtual void lock() = 0;
  virtual void unlock() = 0;
};
struct Derived final : Base {
  explicit Derived(int i) : Base(i) {}
  void lock() override { mutex_lock(id, false); }
  void unlock() override { mutex_unlock(id); }
};
struct Recursive {
  int id;
  explicit Recursive(int i) : id(i) {}
  Recursive(Recursive const&) = delete;
  void lock() { mutex_lock(id, true); }
  void unlock() { mutex_unlock(id); }
};
struct Const {
  int id;
  explicit Const(int i) : id(i) {}
  Const(Const const&) = delete;
  void lock() const { mutex_lock(id, false); }
  void unlock() const { mutex_unlock(id); }
};

static Plain mp0(0), mp1(1), mp2(2);

// ------------------------------------------------------------------ programs
// A program is a forest of at most four guarded blocks.
enum Exit { NORMAL, RETURN, BREAK, THROW_OUT, THROW_TOP, NEXITS };
enum Place { LOCAL, MEMBER, HEAP, LOOP, TEMPORARY, NPLACES };
struct Node {
  int mutex, place, exit, fail, child, sibling; // child/sibling: index or -1
};
struct Prog {
  Node n[4];
  int count;
};

static std::string show(Prog const& p, int i) {
  static char const* const ex[] = {"", " return", " break", " throw", " throw-top"};
  static char const* const pl[] = {"", "member ", "heap ", "loop ", "temporary "};
  std::string s;
  while (i >= 0) {
    Node const& n = p.n[i];
    s += strf("%s%c%s{", pl[n.place], 'A' + n.mutex, n.fail ? "(lock throws)" : "");
    if (n.child >= 0) s += show(p, n.child);
    s += strf("%s} ", ex[n.exit]);
    i = n.sibling;
  }
  return s;
}

template <class M> struct Holder {
  int before;
  embedded::lock_guard<M> g;
  int after;
  explicit Holder(M& m) : before(1), g(m), after(2) {}
};


template <class M> struct Exec {
  Prog const& p;
  M* m[3];

  // the body of the critical section; true: leave by early return
  void body(Node const& n) {
    int id = n.mutex;
    if (w.owner[id] != cur) bad("the critical section runs without holding the mutex");
    int outer = w.inside[id];
    if (outer && nthreads > 1) bad("two critical sections of a mutex overlap");
    ++w.inside[id];
    long v = w.data[id];
    sched_point();
    w.data[id] = v + 1;
    if (w.inside[id] != outer + 1) bad("two critical sections of a mutex overlap");
    --w.inside[id];
    trace += 'b';
  }
  void leave(Node const& n) {
    if (n.exit == THROW_OUT) THROW(Boom{0});
    if (n.exit == THROW_TOP) THROW(Boom{1});
  }
  // runs the critical section and what is nested in it
  int inside(Node const& n) {
    body(n);
    if (n.child >= 0) run(n.child);
    leave(n);
    return n.exit;
  }

  int local(Node const& n, M& mu) {
    embedded::lock_guard<M> g(mu);
    int e = inside(n);
    if (e == RETURN) return 17;
    trace += '.';
    return 4;
  }
  int member(Node const& n, M& mu) {
    Holder<M> h(mu);
    if (h.before != 1 || h.after != 2) bad("the guard overwrites its neighbours");
    if (inside(n) == RETURN) return 17;
    trace += '.';
    return 4;
  }
  int heap(Node const& n, M& mu) {
    embedded::lock_guard<M>* g = new embedded::lock_guard<M>(mu);
    TRY {
      inside(n);
    }
    CATCH(...) {
#if LIBEMB_EXC
      delete g;
      throw;
#endif
    }
    if (n.exit != RETURN) trace += '.';
    delete g;
    return n.exit == RETURN ? 17 : 4;
  }
  int loop(Node const& n, M& mu) {
    for (int i = 0; i < 2; ++i) {
      if (i == 1) return n.exit == RETURN ? 17 : 4;
      embedded::lock_guard<M> g(mu);
      int e = inside(n);
      if (e == RETURN) return 17;
      trace += '.';
      if (e == BREAK) break;
      if (i == 0) continue;
    }
    return 4;
  }
  int temporary(Node const& n, M& mu) {
    // the guard lives until the end of the full expression
    int e = ((void)embedded::lock_guard<M>{mu}, inside(n));
    if (e == RETURN) return 17;
    return 4;
  }

  void block(Node const& n) {
    M& mu = *m[n.mutex];
    fib[cur].fail_next = n.fail != 0;
    switch (n.place) {
      case LOCAL: local(n, mu); break;
      case MEMBER: member(n, mu); break;
      case HEAP: heap(n, mu); break;
      case LOOP: loop(n, mu); break;
      default: temporary(n, mu); break;
    }
  }

  void run(int i) {
    while (i >= 0) {
      Node const& n = p.n[i];
      TRY {
        block(n);
      }
      CATCH(Boom const& b) {
#if LIBEMB_EXC
        if (b.level) throw;
        trace += 'c';
#endif
      }
#if LIBEMB_EXC
      catch (LockFailed&) {
        if (n.exit == THROW_TOP) throw Boom{1};
        trace += 'c';
      }
#endif
      i = n.sibling;
    }
  }
  void top(int i) {
    TRY {
      run(i);
    }
    CATCH(...) {
#if LIBEMB_EXC
      trace += 't';
#endif
    }
    trace += ';';
  }
};

// The same program executed by hand: which events must be logged.
// Returns 0 normally, 1 if an exception flies to the top.
static int reference(Prog const& p, int i, std::string& t) {
  while (i >= 0) {
    Node const& n = p.n[i];
    if (n.fail) {
      t += 'f';
      t += char('A' + n.mutex);
      if (n.exit == THROW_TOP) return 1;
      t += 'c';
    } else {
      t += 'L';
      t += char('A' + n.mutex);
      t += 'b';
      int r = n.child >= 0 ? reference(p, n.child, t) : 0;
      if (!r && (n.exit == NORMAL || n.exit == BREAK) && n.place != TEMPORARY) t += '.';
      t += 'U';
      t += char('A' + n.mutex);
      if (r) return r;
      if (n.exit == THROW_TOP) return 1;
      if (n.exit == THROW_OUT) t += 'c';
    }
    i = n.sibling;
  }
  return 0;
}
static std::string reference_top(Prog const& p) {
  std::string t;
  if (reference(p, 0, t)) t += 't';
  return t + ';';
}
// how often each lock's data is updated
static void updates(Prog const& p, int i, bool& flying, long* n) {
  while (i >= 0 && !flying) {
    Node const& x = p.n[i];
    if (!x.fail) {
      ++n[x.mutex];
      if (x.child >= 0) updates(p, x.child, flying, n);
      if (flying) return;
    }
    if (x.exit == THROW_TOP) flying = true;
    i = x.sibling;
  }
}

// --------------------------------------------------------------- enumeration
// All forests of n blocks.  Nested blocks take locks in increasing order
// (consistent nesting); with `same` a nested block may retake its parent's.
struct Opts {
  int mutexes, places, fails;
  bool same;
  std::vector<int> exits;
};
static void label(Prog& p, int i, Opts const& o, std::vector<Prog>& out) {
  if (i == p.count) {
    out.push_back(p);
    return;
  }
  int lo = 0;
  for (int j = 0; j < i; ++j) {
    // is j an ancestor of i?
    int up = i;
    for (;;) {
      int par = -1;
      for (int k = 0; k < p.count && par < 0; ++k)
        for (int c = p.n[k].child; c >= 0; c = p.n[c].sibling)
          if (c == up) par = k;
      if (par < 0) break;
      up = par;
      if (up == j) lo = std::max(lo, p.n[j].mutex + (o.same ? 0 : 1));
    }
  }
  for (int m = lo; m < o.mutexes; ++m)
    for (int pl = 0; pl < o.places; ++pl) {
      for (int e : o.exits) {
        p.n[i].mutex = m, p.n[i].place = pl, p.n[i].exit = e, p.n[i].fail = 0;
        label(p, i + 1, o, out);
        if (o.fails && p.n[i].child < 0 && (e == NORMAL || e == THROW_TOP)) {
          p.n[i].fail = 1;
          label(p, i + 1, o, out);
          p.n[i].fail = 0;
        }
      }
    }
}
// shapes as parent lists
static std::vector<Prog> programs(int n, Opts const& o) {
  std::vector<Prog> out;
  // enumerate parent arrays par[i] in {-1, 0..i-1} that are preorder numbered
  std::vector<int> par(n, -1);
  for (;;) {
    Prog p;
    memset(&p, 0, sizeof p);
    p.count = n;
    bool ok = true;
    std::vector<int> last_child(n, -1);
    int last_root = -1;
    for (int i = 0; i < n; ++i) p.n[i].child = p.n[i].sibling = -1;
    for (int i = 0; i < n && ok; ++i) {
      if (par[i] >= 0) {
        // preorder: the parent must be the previous node or an ancestor of it
        int a = i - 1;
        while (a >= 0 && a != par[i]) a = par[a];
        if (a != par[i]) ok = false;
        if (last_child[par[i]] < 0)
          p.n[par[i]].child = i;
        else
          p.n[last_child[par[i]]].sibling = i;
        last_child[par[i]] = i;
      } else {
        if (last_root >= 0) p.n[last_root].sibling = i;
        last_root = i;
      }
    }
    if (ok) label(p, 0, o, out);
    int i = n - 1;
    while (i > 0 && par[i] == i - 1) par[i--] = -1;
    if (i <= 0) break;
    ++par[i];
  }
  return out;
}

static void reset_world() {
  memset(&w, 0, sizeof w);
  for (int i = 0; i < 4; ++i) w.owner[i] = -1;
  trace.clear();
  for (int i = 0; i < MAXT; ++i) fib[i].fail_next = false;
}

// ------------------------------------------------------------- single thread
template <class M> static void single(char const* name, int n, Opts const& o) {
  M a(0), b(1), c(2);
  static const bool copyable = std::is_copy_constructible<embedded::lock_guard<M>>::value ||
                               std::is_move_constructible<embedded::lock_guard<M>>::value ||
                               std::is_copy_assignable<embedded::lock_guard<M>>::value ||
                               std::is_move_assignable<embedded::lock_guard<M>>::value;
  if (copyable) V_FAIL("copyable", "lock_guard<%s> can be copied or assigned", name);
  if (!std::is_constructible<embedded::lock_guard<M>, M&>::value ||
      std::is_convertible<M&, embedded::lock_guard<M>>::value)
    V_FAIL("ctor", "lock_guard<%s> must be explicitly constructible from a mutex only", name);
  std::vector<Prog> ps = programs(n, o);
  nthreads = 1;
  cur = 0;
  fib[0].waits = -1;
  for (Prog const& p : ps) {
    ++beat();
    reset_world();
    error.clear();
    {
      Exec<M> ex = {p, {std::addressof(a), std::addressof(b), std::addressof(c)}};
      ex.top(0);
    }
    std::string ref = reference_top(p);
    if (trace != ref) bad("wrong sequence of events");
    for (int i = 0; i < 4; ++i)
      if (w.owner[i] != -1) bad("a mutex is still locked after all guards are gone");
    long up[4] = {0, 0, 0, 0};
    bool fl = false;
    updates(p, 0, fl, up);
    for (int i = 0; i < 4; ++i)
      if (w.data[i] != up[i]) bad("wrong number of updates");
    if (!error.empty())
      V_FAIL("single:" + error, "mutex kind %s, program %s: %s\n logged   %s\n expected %s", name, show(p, 0).c_str(),
             error.c_str(), trace.c_str(), ref.c_str());
    R().evaluations += trace.size();
    R().traces++;
    R().transitions += trace.size();
    R().states += 1;
  }
  R().sample(strf("%s: %zu programs of %d blocks, e.g. %s", name, ps.size(), n, show(ps[ps.size() / 2], 0).c_str()));
}

// ------------------------------------------------------------ several threads
static Prog const* tprog[MAXT];
static std::unordered_set<uint64_t> seen;

static void fiber_main(int t) {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(nullptr, &main_stack, &main_stack_size);
#endif
  {
    Exec<Plain> ex = {*tprog[t], {std::addressof(mp0), std::addressof(mp1), std::addressof(mp2)}};
    ex.top(0);
  }
  fib[t].done = true;
  yield_to_main(true);
}

static void one_schedule(std::string& sched) {
  reset_world();
  error.clear();
  pos = 0;
  preemptions = 0;
  for (int t = 0; t < nthreads; ++t) {
    Fiber& f = fib[t];
    f.done = false;
    f.started = false;
    f.waits = -1;
    f.events = 0;
    memset(f.eh, 0, sizeof f.eh);
    f.fake = nullptr;
    getcontext(&f.uc);
    f.uc.uc_stack.ss_sp = f.stack;
    f.uc.uc_stack.ss_size = STACK;
    f.uc.uc_link = nullptr;
    makecontext(&f.uc, (void (*)())fiber_main, 1, t);
  }
  int last = -1;
  for (;;) {
    int en[MAXT], n = 0, alive = 0;
    bool last_enabled = false;
    for (int t = 0; t < nthreads; ++t) {
      Fiber& f = fib[t];
      if (f.done) continue;
      ++alive;
      if (f.waits >= 0 && w.owner[f.waits] != -1 && w.owner[f.waits] != t) continue;
      if (t == last) last_enabled = true;
    }
    if (!alive) break;
    if (last_enabled) en[n++] = last;
    if (!last_enabled || preemptions < max_preempt)
      for (int t = 0; t < nthreads; ++t) {
        Fiber& f = fib[t];
        if (f.done || (last_enabled && t == last)) continue;
        if (f.waits >= 0 && w.owner[f.waits] != -1 && w.owner[f.waits] != t) continue;
        en[n++] = t;
      }
    if (!n) {
      bad("deadlock: every thread waits for a mutex");
      break;
    }
    int k = choose(n);
    if (last_enabled && k) ++preemptions;
    cur = last = en[k];
    sched += char('0' + cur);
    Fiber& f = fib[cur];
    eh_swap(main_eh, f.eh);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_start_switch_fiber(&main_fake, f.stack, STACK);
#endif
    swapcontext(&main_uc, &f.uc);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
    R().transitions++;
    Hash h;
    for (int t = 0; t < nthreads; ++t)
      h.add((uintptr_t)tprog[t]).add(fib[t].events).add(fib[t].waits + 2).add(fib[t].done);
    for (int i = 0; i < 3; ++i) h.add(w.owner[i] + 2).add(w.data[i]);
    if (seen.size() < 20000000) seen.insert(h);
    if (!error.empty()) break;
  }
  cur = -1;
}

static int part = 0, parts = 1;
static unsigned long turn = 0;
static void threads(int n, Prog const** ps, int bound) {
  if ((int)(turn++ % parts) != part) return;
  nthreads = n;
  max_preempt = bound;
  for (int t = 0; t < n; ++t) tprog[t] = ps[t];
  path.clear();
  long runs = 0;
  do {
    ++beat();
    std::string sched;
    one_schedule(sched);
    ++runs;
    if (error.empty()) {
      long up[4] = {0, 0, 0, 0};
      for (int t = 0; t < n; ++t) {
        bool fl = false;
        updates(*ps[t], 0, fl, up);
      }
      for (int i = 0; i < 3; ++i) {
        if (w.owner[i] != -1) bad("a mutex is still locked after all threads finished");
        if (w.data[i] != up[i]) bad("an update was lost");
        R().evaluations += 2;
      }
    }
    if (!error.empty()) {
      std::string d;
      for (int t = 0; t < n; ++t) d += strf(" thread %d: %s", t, show(*ps[t], 0).c_str());
      V_FAIL("threads:" + error, "%s\n%s\n schedule %s, log %s", error.c_str(), d.c_str(), sched.c_str(), trace.c_str());
      return;
    }
  } while (next_path());
  R().traces += runs;
  R().distinct_n += runs;
}

int main(int argc, char** argv) {
  init(argc, argv);
  crumb().what = "lock guard program";
  for (int t = 0; t < MAXT; ++t) fib[t].stack = (char*)aligned_alloc(64, STACK);
  bool th = R().thorough;
  if (argc > 2) part = atoi(argv[1]), parts = atoi(argv[2]);
#if LIBEMB_EXC
  std::vector<int> all = {NORMAL, RETURN, BREAK, THROW_OUT, THROW_TOP}, few = {NORMAL, RETURN, THROW_OUT, THROW_TOP};
  int fails = 1;
#else
  std::vector<int> all = {NORMAL, RETURN, BREAK}, few = {NORMAL, RETURN};
  int fails = 0;
#endif
  Opts o1 = {2, NPLACES, fails, false, all};
  for (int n = 1; n <= (part ? 0 : 2); ++n) {
    single<Plain>("plain", n, o1);
    single<Copyable>("copyable", n, o1);
    single<Derived>("polymorphic final", n, o1);
    single<Const const>("const", n, o1);
    Opts o2 = o1;
    o2.same = true;
    single<Recursive>("recursive", n, o2);
  }
  Opts o3 = {3, th || SINGLE3 ? (int)NPLACES : 2, fails, false, few};
  if (part == parts - 1) single<Plain>("plain", 3, o3);
  // through a base class with virtual lock and unlock
  {
    nthreads = 1;
    cur = 0;
    reset_world();
    Derived d(1);
    {
      embedded::lock_guard<Base> g(d);
      trace += 'b';
    }
    if (trace != "LBbUB") V_FAIL("base", "guard of a polymorphic mutex logged %s", trace.c_str());
  }

  Opts ot = {2, 1, fails, false, few};
  std::vector<Prog> p1 = programs(1, ot), p2 = programs(2, ot);
  std::vector<Prog> p12 = p1;
  p12.insert(p12.end(), p2.begin(), p2.end());
  // two threads: all schedules
  for (size_t i = 0; i < p12.size(); ++i)
    for (size_t j = i; j < p12.size(); ++j) {
      if (SMALL && !th && p12[j].count == 2 && p12[i].n[0].exit != p12[j].n[0].exit) continue;
      if (p12[i].count == 2 && p12[j].count == 2 && !th) {
        // quick: pairs of two-block programs only if both leave the first block in the same way
        if (SMALL || p12[i].n[0].exit != p12[j].n[0].exit || p12[i].n[0].fail || p12[j].n[0].fail) continue;
      }
      Prog const* ps[2] = {&p12[i], &p12[j]};
      threads(2, ps, 1000);
    }
  // three threads: all schedules of one block each, of nested blocks with bounded preemptions
  for (size_t i = 0; i < p1.size(); ++i)
    for (size_t j = i; j < p1.size(); ++j)
      for (size_t k = j; k < p1.size(); ++k) {
        Prog const* ps[3] = {&p1[i], &p1[j], &p1[k]};
        threads(3, ps, SMALL ? 1 : th || FULL3 ? 1000 : 2);
      }
  if (SMALL && !th) R().finish();
  std::vector<Prog> nested;
  for (Prog const& p : p2)
    if (p.n[0].child >= 0 && !p.n[0].fail && !p.n[1].fail) nested.push_back(p);
  for (size_t i = 0; i < nested.size(); ++i)
    for (size_t j = i; j < nested.size(); ++j)
      for (size_t k = 0; k < p1.size(); ++k) {
        Prog const* ps[3] = {&nested[i], &nested[j], &p1[k]};
        threads(3, ps, SMALL ? 1 : th ? 3 : 1);
      }
  R().states += seen.size();
  R().sample(strf("%zu states of concurrent programs", seen.size()));
  R().finish();
}
