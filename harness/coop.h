// Native side of the thread primitives: one thread runs at a time and the replay file says which one is next, with the
// same choice points as the symbolic runs.  Handing over is invisible to ThreadSanitizer, which is told only about the
// synchronisation the program asked for.
#pragma once
#include <exception>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
extern "C" { void __tsan_acquire(void*) __attribute__((weak)); void __tsan_release(void*) __attribute__((weak)); void AnnotateIgnoreSyncBegin(const char*, int) __attribute__((weak)); void AnnotateIgnoreSyncEnd(const char*, int) __attribute__((weak)); }
long sx_native_value(const char* name, long lo);
#define COOP_RAW __attribute__((no_sanitize("thread"), noinline))
namespace coop {
enum St { Run, WaitMutex, WaitCond, WaitJoin, Done };
struct T { St st; void *on, *mx; bool pend, lock, joined; void* po; int futex; void (*f)(void*); void* arg; T() : st(Run), on(0), mx(0), pend(false), lock(false), joined(false), po(0), futex(0), f(0), arg(0) {} };
static T th[16]; static int nth = 1, cur = 0; static bool multi = false;
static std::map<void*, int>* owners; static std::map<void*, int>& owner() { if (!owners) owners = new std::map<void*, int>; return *owners; }
#ifndef SX_PREEMPT
#define SX_PREEMPT -1
#endif
static int preempted;
static char joinTag[16];
static __thread int me = 0;
static void acq(void* k) { if (__tsan_acquire) __tsan_acquire(k); }
static void rel(void* k) { if (__tsan_release) __tsan_release(k); }
COOP_RAW static void park(int t) { while (!__atomic_load_n(&th[t].futex, __ATOMIC_ACQUIRE)) syscall(SYS_futex, &th[t].futex, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(&th[t].futex, 0, __ATOMIC_RELEASE); }
COOP_RAW static void wakeUp(int t) { __atomic_store_n(&th[t].futex, 1, __ATOMIC_RELEASE); syscall(SYS_futex, &th[t].futex, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
COOP_RAW static bool runnable(int t) {
  T& x = th[t];
  if (x.st == Run) { if (!x.pend || !x.lock) return true; auto it = owner().find(x.po); return it == owner().end() || it->second == t; }
  if (x.st == WaitMutex) return !owner().count(x.on);
  if (x.st == WaitJoin) return th[(long)x.on].st == Done;
  return false;
}
COOP_RAW static void schedule(bool must) {
  int opt[16], n = 0; bool self = !must && runnable(cur);
  if (self) opt[n++] = cur;
  if (!self || SX_PREEMPT < 0 || preempted < SX_PREEMPT) for (int t = 0; t < nth; t++) if ((!self || t != cur) && runnable(t)) opt[n++] = t;
  if (!n) { printf("SX-VIOLATION deadlock\n"); fflush(stdout); _exit(99); }
  int t = n == 1 ? opt[0] : (int)sx_native_value("sched", opt[0]);
  bool ok = false; for (int i = 0; i < n; i++) ok |= opt[i] == t;
  if (!ok) { printf("SX-SCHEDULE-MISMATCH\n"); fflush(stdout); _exit(98); }
  if (self && t != cur) preempted++;
  int was = cur; cur = t; T& x = th[t];
  if (x.st == WaitMutex) { owner()[x.on] = t; x.st = Run; } else if (x.st == WaitJoin) x.st = Run;
  if (t != was) { bool gone = th[was].st == Done; wakeUp(t); if (!gone) park(was); }
}
COOP_RAW static void visible(void* o, bool lock) { if (!multi) return; T& x = th[cur]; x.pend = true; x.lock = lock; x.po = o; schedule(false); th[me].pend = false; }
COOP_RAW static void allJoined() { if (cur) return; for (int t = 1; t < nth; t++) if (th[t].st != Done || !th[t].joined) return; nth = 1; multi = false; }
static void* body(void* a) { me = (int)(long)a; park(me); th[me].f(th[me].arg); rel(&joinTag[me]); th[me].st = Done; schedule(true); return 0; }
static void start() {}
}
extern "C" {
int __sx_thread_create(void (*f)(void*), void* arg) {
  coop::visible(0, false);
  int t = coop::nth++; coop::th[t] = coop::T(); coop::th[t].f = f; coop::th[t].arg = arg; coop::multi = true;
  pthread_t p; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); if (pthread_create(&p, &a, coop::body, (void*)(long)t)) _exit(97);
  return t;
}
void __sx_thread_join(int t) {
  coop::visible(0, false); coop::th[t].joined = true;
  if (coop::th[t].st != coop::Done) { coop::th[coop::cur].st = coop::WaitJoin; coop::th[coop::cur].on = (void*)(long)t; coop::schedule(true); }
  coop::acq(&coop::joinTag[t]); coop::allJoined();
}
void __sx_mutex_lock(void* m) {
  coop::visible(m, true);
  auto it = coop::owner().find(m); if (it != coop::owner().end()) { printf("SX-VIOLATION deadlock: locked twice\n"); fflush(stdout); _exit(99); }
  coop::owner()[m] = coop::cur; coop::acq(m);
}
void __sx_mutex_unlock(void* m) { auto it = coop::owner().find(m); if (it == coop::owner().end() || it->second != coop::cur) { printf("SX-VIOLATION unlock of a mutex that is not held\n"); fflush(stdout); _exit(99); } coop::rel(m); coop::owner().erase(it); }
void __sx_cond_wait(void* c, void* m) {
  coop::visible(c, false);
  coop::rel(m); coop::owner().erase(m); int t = coop::cur; coop::th[t].st = coop::WaitCond; coop::th[t].on = c; coop::th[t].mx = m; coop::schedule(true); coop::acq(m);
}
void __sx_cond_notify(void* c, int all) {
  coop::visible(c, false);
  std::vector<int> w; for (int t = 0; t < coop::nth; t++) if (coop::th[t].st == coop::WaitCond && coop::th[t].on == c) w.push_back(t);
  if (!all && w.size() > 1) w.assign(1, (int)sx_native_value("wake", w[0]));
  for (size_t i = 0; i < w.size(); i++) { coop::th[w[i]].st = coop::WaitMutex; coop::th[w[i]].on = coop::th[w[i]].mx; }
}
void __sx_yield(void) { coop::visible(0, false); }
int __sx_thread_self(void) { return coop::cur; }
void* __sx_current_exception(void) { return new std::exception_ptr(std::current_exception()); }
void __sx_exc_incref(void*) {}
void __sx_exc_decref(void* p) { delete (std::exception_ptr*)p; }
void __sx_rethrow(void* p) { std::rethrow_exception(*(std::exception_ptr*)p); }
// static initialisation is a choice point of the symbolic runs too
int __cxa_guard_acquire(long long* g) {
  if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) { coop::acq(g); return 0; }
  if (coop::multi) { coop::visible(g, true); if (*(char*)g) { coop::acq(g); return 0; } coop::owner()[g] = coop::cur; }
  return 1;
}
void __cxa_guard_release(long long* g) { __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE); coop::rel(g); coop::owner().erase(g); }
void __cxa_guard_abort(long long* g) { coop::rel(g); coop::owner().erase(g); }
}
