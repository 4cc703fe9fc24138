// Deterministic scheduler: the "threads" of a case are fibers of which exactly one runs at a time; at every yield point
// (mutex operations, user code entry and exit, operation boundaries) the scheduler decides who runs next.
// ThreadSanitizer is told that fibers are threads and that a switch synchronises nothing, so it sees exactly the
// happens-before edges the library makes (mutex = acquire/release atomics, shared_ptr counts).
#ifndef VERIF_FIBER_HPP
#define VERIF_FIBER_HPP
#include "common.hpp"
#include <atomic>
#include <cxxabi.h>
#include <functional>
#include <ucontext.h>
#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#endif
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_TSAN
extern "C" {
void *__tsan_get_current_fiber(void);
void *__tsan_create_fiber(unsigned flags);
void __tsan_destroy_fiber(void *fiber);
void __tsan_switch_to_fiber(void *fiber, unsigned flags);
void AnnotateIgnoreReadsBegin(const char *f, int l);
void AnnotateIgnoreReadsEnd(const char *f, int l);
void AnnotateIgnoreWritesBegin(const char *f, int l);
void AnnotateIgnoreWritesEnd(const char *f, int l);
void AnnotateIgnoreSyncBegin(const char *f, int l);
void AnnotateIgnoreSyncEnd(const char *f, int l);
}
#endif
#ifdef VF_ASAN
extern "C" {
void __sanitizer_start_switch_fiber(void **fake_stack_save, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake_stack_save, const void **bottom_old, size_t *size_old);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
}
#endif

namespace vf {

// harness bookkeeping is invisible to the race detector
struct Ign {
#ifdef VF_TSAN
  Ign() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); AnnotateIgnoreSyncBegin("", 0); }
  ~Ign() { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); }
#else
  Ign() {}
  ~Ign() {}
#endif
};

struct FMutex;
struct Fiber {
  ucontext_t ctx;
  char *stack = nullptr;
  size_t ssize = 0;
  void *tsan = nullptr;
  void *fake = nullptr;
  bool active = false, finished = false;
  const FMutex *waiting = nullptr;
  int held = 0;
  int prio = 0;
  void *eh_caught = nullptr;
  unsigned eh_uncaught = 0;
  std::function<void()> body;
};
enum { MAXF = 6 };
struct Sched {
  Fiber f[MAXF + 1]; // the last one is the main context
  int n = 0, cur = MAXF;
  Rng rng;
  int mode = 0;      // 0..3: switch with probability 1/2^(1+2*mode); 4: priorities with change points
  std::vector<int> change;
  int step = 0, lowprio = 0;
  uint64_t hash = 0;
  long switches = 0, yields = 0, locks = 0;
  bool off = true;
  const void *main_bottom = nullptr;
  size_t main_size = 0;
};
inline Sched &S() { static Sched s; return s; }
inline int self() { return S().cur; }
inline int &held() { return S().f[S().cur].held; }

struct FMutex {
  std::atomic<int> owner;
  unsigned magic;
  static long &live() { static long l; return l; }
  FMutex() : owner(-1), magic(0xC0FFEE) { Ign g; ++live(); }
  ~FMutex();
  void lock();
  bool try_lock();
  void unlock();
private:
  FMutex(const FMutex &);
  FMutex &operator=(const FMutex &);
};

inline void fiber_entry();
__attribute__((noinline, no_sanitize("thread"))) inline void switch_to(int to, bool sync) {
  Sched &s = S();
  int from = s.cur;
  if (from == to) return;
  Fiber &a = s.f[from], &b = s.f[to];
  s.cur = to;
  ++s.switches;
  // exception state is per thread in the C++ runtime: make it per fiber
  struct EhGlobals { void *caught; unsigned uncaught; };
  EhGlobals *eh = reinterpret_cast<EhGlobals *>(abi::__cxa_get_globals());
  a.eh_caught = eh->caught;
  a.eh_uncaught = eh->uncaught;
  eh->caught = b.eh_caught;
  eh->uncaught = b.eh_uncaught;
#ifdef VF_ASAN
  __sanitizer_start_switch_fiber(a.finished ? nullptr : &a.fake, to == MAXF ? s.main_bottom : b.stack, to == MAXF ? s.main_size : b.ssize);
#endif
#ifdef VF_TSAN
  __tsan_switch_to_fiber(b.tsan, sync ? 0 : 1);
#endif
  (void)sync;
  swapcontext(&a.ctx, &b.ctx);
#ifdef VF_ASAN
  {
    const void *bo;
    size_t so;
    __sanitizer_finish_switch_fiber(s.f[s.cur].fake, &bo, &so);
  }
#endif
}
inline bool runnable(int i);
inline int pick(bool force) {
  Sched &s = S();
  int cand[MAXF], k = 0;
  for (int i = 0; i < s.n; ++i) if (runnable(i)) cand[k++] = i;
  if (k == 0) return -1;
  bool selfok = s.cur < MAXF && runnable(s.cur) && !force;
  int next;
  if (s.mode < 4) {
    if (selfok && !s.rng.chance(1, 2u << (2 * s.mode))) next = s.cur;
    else next = cand[s.rng.below(k)];
  } else {
    for (int c : s.change) if (c == s.step && s.cur < MAXF) s.f[s.cur].prio = --s.lowprio;
    next = cand[0];
    for (int i = 1; i < k; ++i) if (s.f[cand[i]].prio > s.f[next].prio) next = cand[i];
  }
  ++s.step;
  s.hash = s.hash * 1099511628211ull + next + 1;
  return next;
}
std::string deadlock_info();
inline bool runnable(int i) {
  Fiber &f = S().f[i];
  return f.active && !f.finished && (!f.waiting || f.waiting->owner.load(std::memory_order_relaxed) < 0);
}
inline void yield() {
  Ign g;
  Sched &s = S();
  if (s.off || s.cur == MAXF) return;
  ++s.yields;
  int nx = pick(false);
  if (nx >= 0) switch_to(nx, false);
}
inline FMutex::~FMutex() {
  if (magic != 0xC0FFEE) fail(T(20, 22), "mutex destroyed twice");
  if (owner.load(std::memory_order_relaxed) >= 0) fail(T(9, 20), "mutex destroyed while locked");
  { Ign g; for (int i = 0; i < S().n; ++i) if (S().f[i].waiting == this) fail(T(20, 22), "mutex destroyed while a thread waits for it"); --live(); }
  magic = 0;
}
inline void FMutex::lock() {
  if (magic != 0xC0FFEE) fail(T(20, 22), "lock of a dead mutex");
  yield();
  for (;;) {
    Ign g;
    if (magic != 0xC0FFEE) fail(T(20, 22), "mutex died while a thread was locking it");
    int o = owner.load(std::memory_order_relaxed);
    if (o < 0) break;
    if (o == self()) fail(T(9, 20), "thread locks a mutex it already holds: self-deadlock");
    Sched &s = S();
    if (s.cur == MAXF) fail(T(9, 20), "mutex left locked by a finished thread");
    s.f[s.cur].waiting = this;
    int nx = pick(true);
    if (nx < 0) fail(T(9, 11), "deadlock: no thread can go on (%s)", deadlock_info().c_str());
    switch_to(nx, false);
    s.f[s.cur].waiting = nullptr;
  }
  owner.exchange(self(), std::memory_order_acquire);
  { Ign g; ++held(); ++S().locks; }
}
inline bool FMutex::try_lock() {
  yield();
  int o = -1;
  if (!owner.compare_exchange_strong(o, self(), std::memory_order_acquire)) return false;
  { Ign g; ++held(); }
  return true;
}
inline void FMutex::unlock() {
  if (magic != 0xC0FFEE) fail(T(20, 22), "unlock of a dead mutex");
  if (owner.load(std::memory_order_relaxed) != self()) fail(T(9, 20), "unlock of a mutex that is not held by this thread");
  { Ign g; --held(); }
  owner.store(-1, std::memory_order_release);
  yield();
}
inline std::string deadlock_info() {
  std::string r;
  for (int i = 0; i < S().n; ++i) {
    Fiber &f = S().f[i];
    char b[80];
    snprintf(b, sizeof b, "thread %d %s owner %d held %d; ", i, f.finished ? "finished" : f.waiting ? "waits" : "runs", f.waiting ? f.waiting->owner.load() : -1, f.held);
    r += b;
  }
  return r;
}
inline std::atomic<int> &hb_start() { static std::atomic<int> a; return a; }
inline std::atomic<int> &hb_end() { static std::atomic<int> a; return a; }
inline int fiber_end() {
  Ign g;
  Sched &s = S();
  Fiber &f = s.f[s.cur];
  if (f.held) fail(T(9, 20), "thread ended holding %d library mutexes", f.held);
  f.finished = true;
  f.waiting = nullptr;
  int nx = pick(true);
  if (nx < 0) {
    for (int i = 0; i < s.n; ++i)
      if (!s.f[i].finished) fail(T(9, 11), "deadlock: no thread can go on (%s)", deadlock_info().c_str());
    nx = MAXF;
  }
  return nx;
}
// these are what thread creation and join synchronise; seen by the race detector
__attribute__((noinline)) inline void hb_acquire(std::atomic<int> &a) { a.load(std::memory_order_acquire); }
__attribute__((noinline)) inline void hb_release(std::atomic<int> &a) { a.fetch_add(1, std::memory_order_acq_rel); }
__attribute__((noinline)) inline void fiber_main() {
  hb_acquire(hb_start());
  Sched &s = S();
  s.f[s.cur].body();
  hb_release(hb_end());
}
__attribute__((noinline, no_sanitize("thread"))) inline void fiber_entry() {
  Sched &s = S();
#ifdef VF_ASAN
  const void *bo;
  size_t so;
  __sanitizer_finish_switch_fiber(s.f[s.cur].fake, &bo, &so);
  if (!s.main_bottom) { s.main_bottom = bo; s.main_size = so; }
#endif
  fiber_main();
  int nx = fiber_end();
  switch_to(nx, false);
  abort(); // never resumed: every case uses fresh contexts on the same stacks
}
// run bodies as concurrent threads to completion
inline void prepare_fibers(std::vector<std::function<void()>> &bodies, uint64_t seed) {
  Ign g;
  Sched &s = S();
  s.rng.reseed(seed ^ 0x5EEDull);
  s.n = bodies.size();
  s.step = 0;
  s.lowprio = 0;
  s.hash = 0;
  s.locks = 0;
  s.mode = s.rng.below(6);
  if (s.mode == 5) s.mode = 4;
  s.change.clear();
  int d = 1 + s.rng.below(6);
  for (int i = 0; i < d; ++i) s.change.push_back(s.rng.below(s.rng.chance(1, 2) ? 60 : 400));
#ifdef VF_TSAN
  s.f[MAXF].tsan = __tsan_get_current_fiber();
#endif
  for (int i = 0; i < s.n; ++i) {
    Fiber &f = s.f[i];
    if (!f.stack) { f.ssize = 256 << 10; f.stack = static_cast<char *>(aligned_alloc(4096, f.ssize)); }
#ifdef VF_TSAN
    f.tsan = __tsan_create_fiber(0);
#endif
#ifdef VF_ASAN
    __asan_unpoison_memory_region(f.stack, f.ssize);
#endif
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = f.ssize;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, fiber_entry, 0);
    f.active = true;
    f.finished = false;
    f.waiting = nullptr;
    f.held = 0;
    f.fake = nullptr;
    f.eh_caught = nullptr;
    f.eh_uncaught = 0;
    f.prio = 1 + s.rng.below(100);
  }
}
inline void run_fibers(std::vector<std::function<void()>> &bodies, uint64_t seed) {
  Sched &s = S();
  prepare_fibers(bodies, seed);
  for (int i = 0; i < s.n; ++i) s.f[i].body = bodies[i];
  hb_release(hb_start());
  s.off = false;
  switch_to(pick(true), false);
  s.off = true;
  hb_acquire(hb_end());
  for (int i = 0; i < s.n; ++i) {
    s.f[i].body = nullptr;
    s.f[i].active = false;
#ifdef VF_TSAN
    __tsan_destroy_fiber(s.f[i].tsan);
#endif
  }
  stats().add("schedule_steps", s.step);
  stats().add("lock_operations", s.locks);
}
} // namespace vf
#endif
