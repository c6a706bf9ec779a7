// Threads as the symbolic runs see them: the primitives are scheduling points of the interpreter.
#pragma once
#include <functional>
#include <atomic>
#include <memory>
#include <exception>
#include <utility>
#include <type_traits>
#include <tuple>
#include <chrono>
#include <string>
#include <system_error>
#include <ratio>
#include <cerrno>
extern "C" {
int __sx_thread_create(void (*f)(void*), void* arg); void __sx_thread_join(int t);
void __sx_mutex_lock(void* m); void __sx_mutex_unlock(void* m); void __sx_cond_wait(void* c, void* m); void __sx_cond_notify(void* c, int all);
void __sx_yield(void); int __sx_thread_self(void);
extern unsigned sx_cores;
void* __sx_current_exception(void); void __sx_rethrow(void*); void __sx_exc_incref(void*); void __sx_exc_decref(void*);
}
namespace std {
class mutex { char b_ = 0; public: mutex() {} mutex(const mutex&) = delete; mutex& operator=(const mutex&) = delete; void lock() { __sx_mutex_lock(this); } void unlock() { __sx_mutex_unlock(this); } void* native_() { return this; } };
class recursive_mutex { std::mutex m_; std::atomic<int> who_; int n_ = 0; public: recursive_mutex() : who_(-1) {} recursive_mutex(const recursive_mutex&) = delete; void lock() { int me = __sx_thread_self(); if (who_ == me) { n_++; return; } m_.lock(); who_ = me; n_ = 1; } void unlock() { if (--n_ == 0) { who_ = -1; m_.unlock(); } } };
struct defer_lock_t {}; struct adopt_lock_t {}; struct try_to_lock_t {};
static const defer_lock_t defer_lock = {}; static const adopt_lock_t adopt_lock = {};
template <class M> class lock_guard { M& m; public: explicit lock_guard(M& x) : m(x) { m.lock(); } lock_guard(M& x, adopt_lock_t) : m(x) {} ~lock_guard() { m.unlock(); } lock_guard(const lock_guard&) = delete; };
template <class M> class unique_lock { M* m; bool own; public: unique_lock() : m(0), own(false) {} explicit unique_lock(M& x) : m(&x), own(true) { x.lock(); } unique_lock(M& x, defer_lock_t) : m(&x), own(false) {} unique_lock(M& x, adopt_lock_t) : m(&x), own(true) {} unique_lock(unique_lock&& o) noexcept : m(o.m), own(o.own) { o.m = 0; o.own = false; } explicit operator bool() const { return own; } M* release() { M* r = m; m = 0; own = false; return r; } ~unique_lock() { if (own) m->unlock(); } void lock() { m->lock(); own = true; } void unlock() { m->unlock(); own = false; } bool owns_lock() const { return own; } M* mutex() const { return m; } unique_lock(const unique_lock&) = delete; };
class condition_variable { char b_ = 0; public: condition_variable() {} condition_variable(const condition_variable&) = delete; void notify_one() { __sx_cond_notify(this, 0); } void notify_all() { __sx_cond_notify(this, 1); }
  void wait(unique_lock<std::mutex>& l) { __sx_cond_wait(this, l.mutex()); }
  template <class P> void wait(unique_lock<std::mutex>& l, P p) { while (!p()) wait(l); } };
class thread {
  int id_ = -1;
  template <class F> static void tramp(void* p) { std::unique_ptr<F> f((F*)p); (*f)(); }
public:
  typedef int id;
  thread() {}
  template <class F, class... A> explicit thread(F&& f, A&&... a) { auto b = std::bind(std::forward<F>(f), std::forward<A>(a)...); typedef decltype(b) B; id_ = __sx_thread_create(&tramp<B>, new B(std::move(b))); }
  thread(thread&& o) noexcept : id_(o.id_) { o.id_ = -1; } thread& operator=(thread&& o) noexcept { if (joinable()) std::terminate(); id_ = o.id_; o.id_ = -1; return *this; } thread(const thread&) = delete;
  ~thread() { if (joinable()) std::terminate(); }
  bool joinable() const { return id_ >= 0; } void join() { int i = id_; id_ = -1; __sx_thread_join(i); } void detach() { id_ = -1; }
  static unsigned hardware_concurrency() { return sx_cores; }
};
namespace this_thread { inline void yield() { __sx_yield(); } inline thread::id get_id() { return __sx_thread_self(); } template <class D> void sleep_for(const D&) { __sx_yield(); } }
struct once_flag { int f = 0; mutex m; };
template <class F, class... A> void call_once(once_flag& o, F&& f, A&&... a) { lock_guard<mutex> l(o.m); if (!o.f) { std::bind(std::forward<F>(f), std::forward<A>(a)...)(); o.f = 1; } }
namespace sx_ {
struct StateBase { mutex m; condition_variable c; bool ready; void* exc; StateBase() : ready(false), exc(0) {} void set() { { lock_guard<mutex> l(m); ready = true; } c.notify_all(); } void wait() { unique_lock<mutex> l(m); while (!ready) c.wait(l); } ~StateBase() { if (exc) __sx_exc_decref(exc); } };
template <class R> struct State : StateBase { R v; State() : v() {} template <class F> void run(F& f) { v = f(); } R take() { return std::move(v); } };
template <> struct State<void> : StateBase { template <class F> void run(F& f) { f(); } void take() {} };
}
enum class future_status { ready, timeout, deferred }; enum class launch { async = 1, deferred = 2 };
template <class R> class future { std::shared_ptr<sx_::State<R>> s; public: future() {} explicit future(std::shared_ptr<sx_::State<R>> x) : s(x) {} future(future&&) = default; future& operator=(future&&) = default; future(const future&) = delete; bool valid() const { return (bool)s; } void wait() const { s->wait(); } R get() { auto t = std::move(s); t->wait(); if (t->exc) __sx_rethrow(t->exc); return t->take(); } };
template <class S> class packaged_task;
template <class R, class... A> class packaged_task<R(A...)> {
  std::function<R(A...)> f; std::shared_ptr<sx_::State<R>> s;
public:
  packaged_task() {} template <class F> explicit packaged_task(F&& g) : f(std::forward<F>(g)), s(std::make_shared<sx_::State<R>>()) {}
  packaged_task(packaged_task&&) = default; packaged_task(const packaged_task&) = delete;
  future<R> get_future() { return future<R>(s); }
  void operator()(A... a) { auto g = [&]() -> R { return f(a...); }; try { s->run(g); } catch (...) { s->exc = __sx_current_exception(); __sx_exc_incref(s->exc); } s->set(); }
};
template <class R> class promise { std::shared_ptr<sx_::State<R>> s; public: promise() : s(std::make_shared<sx_::State<R>>()) {} future<R> get_future() { return future<R>(s); } void set_value(R v) { auto f = [&] { return v; }; s->run(f); s->set(); } };
// a task of its own thread, which the last holder of the result joins
namespace sx_ { template <class R> struct Async : State<R> { std::thread t; ~Async() { if (t.joinable()) t.join(); } }; }
template <class F, class... A> auto async(launch, F&& f, A&&... a) -> future<typename std::result_of<F(A...)>::type> {
  typedef typename std::result_of<F(A...)>::type R; auto s = std::make_shared<sx_::Async<R>>(); auto p = s.get(); auto b = std::bind(std::forward<F>(f), std::forward<A>(a)...);
  s->t = thread([p, b]() mutable { try { p->run(b); } catch (...) { p->exc = __sx_current_exception(); __sx_exc_incref(p->exc); } p->set(); });
  return future<R>(s); }
template <class F, class... A> auto async(F&& f, A&&... a) -> future<typename std::result_of<F(A...)>::type> { return async(launch::async, std::forward<F>(f), std::forward<A>(a)...); }
}
