// C10: calling an empty wrapper in a build without exceptions terminates, for every
// way a wrapper can become empty.  Each call runs in a child process.
#include "verif.h"
#include <cstdlib>
#include <embedded/function.h>
#include <exception>
#include <sys/wait.h>
#include <utility>
using namespace verif;

struct Obj {
  int m() { return 1; }
  int d = 5;
};
template <typename F> void fill(F& f) {
  f = [](Obj&) { return 3; };
}
template <typename Sig, size_t C, size_t A> void all(const char* name) {
  typedef embedded::function<Sig, C, A> F;
  for (int way = 0; way < 10; ++way) {
    Crumb& cr = crumb();
    cr.what = name;
    cr.n = 1;
    cr.v[0] = way;
    ++beat();
    int fds[2];
    if (pipe(fds)) abort();
    pid_t pid = fork();
    if (pid < 0) abort();
    if (pid == 0) {
      static int out;
      out = fds[1];
      std::set_terminate([] {
        char c = 'T';
        if (write(out, &c, 1) != 1) _exit(9);
        _exit(42);
      });
      signal(SIGABRT, SIG_DFL);
      F f;
      F g;
      switch (way) {
      case 0: break;
      case 1: {
        F h(nullptr);
        f = std::move(h);
        break;
      }
      case 2:
        fill(f);
        f = nullptr;
        break;
      case 3:
        fill(f);
        g = std::move(f);
        break;
      case 4: {
        fill(f);
        F h(std::move(f));
        Obj o;
        if (h(o) != 3) _exit(5);
        break;
      }
      case 5:
        fill(f);
        f = static_cast<int (Obj::*)()>(nullptr);
        break;
      case 6: {
        F h(static_cast<int (Obj::*)()>(nullptr));
        f = std::move(h);
        break;
      }
      case 7:
        fill(f);
        f = static_cast<int Obj::*>(nullptr);
        break;
      case 8:
        fill(f);
        std::swap(f, g);
        break;
      case 9:
        fill(g);
        f = std::move(g);
        f = F();
        break;
      }
      if (f) _exit(6);
      Obj o;
      o.d = f(o);
      _exit(7); // returned
    }
    close(fds[1]);
    char c = 0;
    ssize_t n = read(fds[0], &c, 1);
    close(fds[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    ++R().evaluations;
    ++R().transitions;
    ++R().states;
    ++R().traces;
    ++R().distinct_n;
    // std::terminate, possibly by way of abort
    bool ok = (n == 1 && c == 'T') || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
    if (!ok) V_FAIL(strf("empty:%s:%d", name, way), "%s emptied in way %d: the call did not terminate (status %x)", name, way, st);
  }
  R().sample(strf("%s: 10 ways of being empty", name));
}
int main(int argc, char** argv) {
  init(argc, argv);
  all<int(Obj&), 24, 8>("int(Obj&)");
  all<int(Obj&) const, 24, 8>("int(Obj&) const");
  all<int(Obj&), 64, 32>("int(Obj&), capacity 64, alignment 32");
  R().finish();
}
