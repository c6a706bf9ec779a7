// The worker pool under every interleaving: each task runs once, its result or exception is delivered, nothing is left behind.
#include "common.h"
#include <stdexcept>
#include "lib/ThreadPool.hpp"
static int ran[8], inner;
static int work(int i, int x, bool fails) { ran[i]++; if (fails) throw std::runtime_error("task failed"); return 2 * x + i; }
extern "C" void sx_main() {
  int x = sx_int("x", -1000, 1000), bad = sx_choose("fails", -1, TASKS - 1), early = sx_choose("destroyed_first", 0, 1);
  std::vector<std::future<int> > f; std::future<void> nested;
  {
    ThreadPool pool(WORKERS);
    for (int i = 0; i < TASKS; i++) f.push_back(pool.enqueue(work, i, x, i == bad));
#ifdef NESTED                               // a task that hands on another one and does not wait for it
    nested = pool.enqueue([&] { pool.enqueue([] { inner++; }); });
    nested.get();
#endif
    if (!early) for (int i = TASKS - 1; i >= 0; i--) f[i].wait();
    if (!early) for (int i = 0; i < TASKS; i++) sx_assert(ran[i] == 1, "a task whose result is there has run once");
  }
  for (int i = 0; i < TASKS; i++) sx_assert(ran[i] == 1, "every task has run once when the pool is gone");
#ifdef NESTED
  sx_assert(inner == 1, "so has a task given by a task");
#endif
  for (int i = 0; i < TASKS; i++) {
    bool threw = false; int r = 0;
    try { r = f[i].get(); } catch (std::runtime_error& e) { threw = std::string(e.what()) == "task failed"; }
    sx_assert(threw == (i == bad), "the exception of a task reaches whoever asks for its result"); if (!threw) sx_assert(r == 2 * x + i, "the result of this task");
  }
  sx_observe("x", x);
  REACH;
}
