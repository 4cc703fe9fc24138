// C20: the mutex types under real threads, and signals over many Lockable types.
// CFG_TSAN: built with ThreadSanitizer (then unsynchronised accesses are reported by it as well).
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/signals2/mutex.hpp>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
using namespace vf;
namespace bs = boost::signals2;
using std::string;
using std::vector;
typedef bs::mutex Mx;

static void spin(unsigned n) { for (volatile unsigned i = 0; i < n; ++i) {} }
static void jitter(Rng &r) {
  switch (r.below(6)) {
    case 0: std::this_thread::yield(); break;
    case 1: spin(r.below(2000)); break;
    case 2: spin(r.below(100)); break;
    default: break;
  }
}
// Starts its threads together.
struct Team {
  std::atomic<int> ready;
  std::atomic<bool> go;
  vector<std::thread> t;
  int n;
  explicit Team(int n_) : ready(0), go(false), n(n_) {}
  template <class F> void run(uint64_t seed, F f) {
    for (int i = 0; i < n; ++i) t.emplace_back([=]() {
      Rng r(seed * 977 + i);
      ++ready;
      while (!go) std::this_thread::yield();
      f(i, r);
    });
    while (ready < n) std::this_thread::yield();
    go = true;
    for (auto &x : t) x.join();
    t.clear();
  }
};
// Runs f in a thread; false if it has not ended after a long time (nothing is joined then: the process is about to end).
template <class F> static bool ends(F f, int ms = 20000) {
  struct S { std::mutex m; std::condition_variable c; bool done = false; };
  std::shared_ptr<S> s(new S);
  std::thread t([=]() { f(); std::lock_guard<std::mutex> l(s->m); s->done = true; s->c.notify_all(); });
  std::unique_lock<std::mutex> l(s->m);
  bool ok = s->c.wait_for(l, std::chrono::milliseconds(ms), [&] { return s->done; });
  l.unlock();
  if (ok) t.join(); else t.detach();
  return ok;
}

// ---- mutual exclusion and visibility
struct Guarded { // plain data only ever touched under the mutex
  long a, b, owner;
  vector<long> log;
  Guarded() : a(0), b(0), owner(-1) {}
};
static void exclusion(Rng &rng) {
  Mx m;
  Guarded g;
  std::atomic<int> inside(0);
  std::atomic<long> got(0), refused(0), locks(0);
  int n = 2 + rng.below(5), k = 20 + rng.below(200);
  unsigned tryshare = rng.below(5);
  Team team(n);
  team.run(rng.next(), [&](int id, Rng &r) {
    for (int i = 0; i < k; ++i) {
      jitter(r);
      bool tl = r.below(5) < tryshare;
      if (tl) { if (!m.try_lock()) { refused.fetch_add(1, std::memory_order_relaxed); continue; } got.fetch_add(1, std::memory_order_relaxed); }
      else { m.lock(); locks.fetch_add(1, std::memory_order_relaxed); }
      if (inside.fetch_add(1, std::memory_order_relaxed) != 0) fail(T(20), "two threads own the mutex");
      if (g.owner != -1) fail(T(20), "two threads own the mutex (owner %ld)", g.owner);
      g.owner = id;
      long a = g.a, b = g.b;
      if (a != b) fail(T(20), "the data of a critical section is not visible: %ld %ld", a, b);
      if (g.log.size() < 4000) g.log.push_back(id);
      g.a = a + 1;
      if (r.chance(1, 3)) jitter(r);
      g.b = b + 1;
      if (g.owner != id) fail(T(20), "two threads own the mutex");
      g.owner = -1;
      inside.fetch_sub(1, std::memory_order_relaxed);
      m.unlock();
    }
  });
  if (g.a != locks + got || g.b != g.a) fail(T(20), "lost updates: %ld critical sections, counter %ld", long(locks + got), g.a);
  if (!m.try_lock()) fail(T(20), "try_lock() of a free mutex failed");
  m.unlock();
  Hash h;
  for (long x : g.log) h.add(x);
  stats().distinct.insert(h.h);
  stats().add("critical_sections", g.a);
  stats().add("try_lock_refused", refused);
}
// ---- try_lock succeeds exactly when the mutex is free and does not block
static void trylock(Rng &rng) {
  Mx *m = new Mx; // leaked if a thread hangs in it
  int n = 1 + rng.below(12);
  for (int i = 0; i < n; ++i) {
    bool held = rng.chance(1, 2), other = rng.chance(1, 2), bytry = rng.chance(1, 2);
    if (held) { if (bytry) { if (!m->try_lock()) fail(T(20), "try_lock() of a free mutex failed"); } else m->lock(); }
    std::shared_ptr<std::atomic<int>> res(new std::atomic<int>(-1));
    auto attempt = [=]() { bool ok = m->try_lock(); *res = ok; if (ok) m->unlock(); };
    if (other || held) { // never in the owner's own thread if it could block for ever
      if (!ends(attempt)) fail(T(20), "try_lock() blocks");
    } else attempt();
    if (*res != (held ? 0 : 1)) fail(T(20), held ? "try_lock() of a locked mutex succeeded" : "try_lock() of a free mutex failed");
    if (held) {
      if (rng.chance(1, 2) && !ends([=]() { for (int j = 0; j < 3; ++j) if (m->try_lock()) fail(T(20), "try_lock() of a locked mutex succeeded"); })) fail(T(20), "try_lock() blocks");
      m->unlock();
    }
    stats().add("try_lock_checks");
  }
  delete m;
}
// the owner's own attempt fails as well: the mutex is not free
static void trylock_self(Rng &rng) {
  Mx *m = new Mx;
  bool bytry = rng.chance(1, 2);
  bool ok = ends([=]() {
    if (bytry) { if (!m->try_lock()) fail(T(20), "try_lock() of a free mutex failed"); } else m->lock();
    if (m->try_lock()) fail(T(20), "try_lock() of a mutex the thread owns succeeded");
    m->unlock();
    if (!m->try_lock()) fail(T(20), "try_lock() after unlock() failed");
    m->unlock();
  });
  if (!ok) fail(T(20), "try_lock() blocks");
  delete m;
  stats().add("try_lock_checks", 2);
}
// ---- lock blocks until the owner unlocks; every waiter gets through
static void handover(Rng &rng) {
  Mx m;
  int n = 2 + rng.below(5);
  std::atomic<int> waiting(0), through(0);
  long data = 0;
  m.lock();
  vector<std::thread> t;
  for (int i = 0; i < n; ++i) t.emplace_back([&]() {
    ++waiting;
    m.lock();
    if (data < 1) fail(T(20), "lock() returned before the owner unlocked");
    ++data;
    ++through;
    m.unlock();
  });
  while (waiting < n) std::this_thread::yield();
  spin(rng.below(20000));
  if (through.load()) fail(T(20), "lock() did not wait for the owner");
  data = 1;
  m.unlock();
  for (auto &x : t) x.join();
  if (data != n + 1) fail(T(20), "lost updates");
  stats().add("handovers", n);
}
// ---- lock waits however long it takes
static void longhold(Rng &rng) {
  Mx m;
  std::atomic<int> waiting(0), through(0);
  std::atomic<bool> held(true);
  int n = 1 + rng.below(3);
  m.lock();
  vector<std::thread> t;
  for (int i = 0; i < n; ++i) t.emplace_back([&]() {
    ++waiting;
    m.lock();
    if (held) fail(T(20), "lock() returned before the owner unlocked");
    ++through;
    m.unlock();
  });
  while (waiting < n) std::this_thread::yield();
  for (int ms = 0; ms < 3600; ms += 100) {
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    if (through.load()) fail(T(20), "lock() did not wait for the owner");
  }
  held = false;
  m.unlock();
  for (auto &x : t) x.join();
  if (!m.try_lock()) fail(T(20), "try_lock() of a free mutex failed");
  m.unlock();
  stats().add("long_holds", n);
}
// ---- message passing through try_lock
static void passing(Rng &rng) {
  Mx m;
  string box;
  bool full = false;
  int n = 10 + rng.below(100);
  std::thread prod([&]() {
    for (int i = 0; i < n;) { if (!m.try_lock()) { std::this_thread::yield(); continue; } if (!full) { box = string(30, 'm') + std::to_string(i); full = true; ++i; } m.unlock(); std::this_thread::yield(); }
  });
  for (int i = 0; i < n;) {
    if (!m.try_lock()) { std::this_thread::yield(); continue; }
    if (full) { if (box != string(30, 'm') + std::to_string(i)) fail(T(20), "message %d is not visible", i); full = false; ++i; }
    m.unlock();
    std::this_thread::yield();
  }
  prod.join();
  stats().add("messages", n);
}
// ---- the last user of an object guarded by the mutex destroys it
struct Shared { Mx m; int refs; long data; Shared(int r) : refs(r), data(0) {} };
static void lastuser(Rng &rng) {
  for (int k = 0; k < 10; ++k) {
    int n = 2 + rng.below(4);
    Shared *s = new Shared(n);
    Team team(n);
    team.run(rng.next(), [&](int, Rng &r) {
      jitter(r);
      s->m.lock();
      ++s->data;
      bool last = --s->refs == 0;
      if (last && s->data != n) fail(T(20), "lost updates");
      s->m.unlock();
      if (last) delete s;
    });
    stats().add("mutexes_destroyed_by_last_user");
  }
}
// ---- the standard wrappers; locking two in opposite orders
static void wrappers(Rng &rng) {
  Mx a, b;
  long x = 0, y = 0;
  int n = 2 + rng.below(3), k = 10 + rng.below(60);
  Team team(n);
  team.run(rng.next(), [&](int id, Rng &r) {
    for (int i = 0; i < k; ++i) {
      switch (r.below(4)) {
        case 0: { std::lock_guard<Mx> l(a); ++x; break; }
        case 1: { std::unique_lock<Mx> l(b, std::try_to_lock); if (l.owns_lock()) ++y; else { l.lock(); ++y; } break; }
        default:
          if ((id + i) & 1) std::lock(a, b); else std::lock(b, a);
          { std::lock_guard<Mx> l(a, std::adopt_lock), l2(b, std::adopt_lock); ++x; ++y; }
      }
      jitter(r);
    }
  });
  if (x + y < long(n) * k) fail(T(20), "lost updates with std::lock");
  stats().add("critical_sections", x + y);
}
// ---- dummy_mutex never blocks and does nothing
static void dummy(Rng &rng) {
  bs::dummy_mutex *m = new bs::dummy_mutex;
  int n = 2 + rng.below(3);
  uint64_t seed = rng.next();
  bool ok = ends([=]() {
    Team team(n);
    team.run(seed, [=](int, Rng &r) {
      for (int i = 0; i < 50; ++i) switch (r.below(3)) {
        case 0: m->lock(); break;
        case 1: if (!m->try_lock()) fail(T(20), "dummy_mutex::try_lock() failed"); break;
        case 2: m->unlock(); break;
      }
    });
  });
  if (!ok) fail(T(20), "an operation of dummy_mutex blocks");
  delete m;
  bs::dummy_mutex a, b;
  { std::lock_guard<bs::dummy_mutex> l(a), l2(a); std::unique_lock<bs::dummy_mutex> u(a, std::try_to_lock); if (!u.owns_lock()) fail(T(20), "dummy_mutex::try_lock() failed"); }
  std::lock(a, b);
  stats().add("dummy_operations", 50 * n);
}

// ---- signals over Lockable types: the same program gives the same results with each of them
struct Books { // what a monitored mutex saw
  std::atomic<long> live, locks, held;
  Books() : live(0), locks(0), held(0) {}
};
static Books books;
template <class Base, int Kind> class Monitored { // Lockable and nothing else
  Base m_;
  std::atomic<std::thread::id> owner_;
  Monitored(const Monitored &);
  void operator=(const Monitored &);
public:
  Monitored() : owner_(std::thread::id()) { ++books.live; }
  ~Monitored() {
    if (owner_.load() != std::thread::id()) fail(T(20), "a locked mutex is destroyed");
    --books.live;
  }
  void lock() {
    if (owner_.load() == std::this_thread::get_id()) fail(T(20, 9), "recursive lock");
    m_.lock();
    owner_ = std::this_thread::get_id();
    ++books.locks;
    ++books.held;
  }
  bool try_lock() {
    if (owner_.load() == std::this_thread::get_id()) return false;
    if (!m_.try_lock()) return false;
    owner_ = std::this_thread::get_id();
    ++books.held;
    return true;
  }
  void unlock() {
    if (owner_.load() != std::this_thread::get_id()) fail(T(20), "unlock by a thread that does not own the mutex");
    owner_ = std::thread::id();
    --books.held;
    m_.unlock();
  }
};
class alignas(64) Aligned { // over-aligned
  std::mutex m_;
  void where() { if ((uintptr_t)this % 64) fail(T(20), "an over-aligned mutex is not aligned"); }
public:
  void lock() { where(); m_.lock(); }
  bool try_lock() { where(); return m_.try_lock(); }
  void unlock() { m_.unlock(); }
};
class Spin final { // with an address and a comma operator that must not be used, and no default arguments
  std::atomic<bool> f_;
  template <class X> void operator,(const X &) = delete;
public:
  Spin() : f_(false) {}
  Spin(const Spin &) = delete;
  Spin *operator&() = delete;
  void lock() { while (f_.exchange(true, std::memory_order_acquire)) std::this_thread::yield(); }
  bool try_lock() { return !f_.exchange(true, std::memory_order_acquire); }
  void unlock() { f_.store(false, std::memory_order_release); }
};
template <class Mutex> struct SigOf {
  typedef bs::signal<int(int), bs::optional_last_value<int>, int, std::less<int>, boost::function<int(int)>, boost::function<int(const bs::connection &, int)>, Mutex> type;
};
struct Fun { typedef int result_type; int id; int operator()(int x) const { return x * 10 + id; } bool operator==(const Fun &o) const { return id == o.id; } };
// single-threaded program; the log is compared between mutex types
template <class Mutex> static vector<long> program(uint64_t seed) {
  typedef typename SigOf<Mutex>::type Sig;
  Rng r(seed);
  vector<long> log;
  {
    std::unique_ptr<Sig> s(new Sig), s2(new Sig);
    vector<bs::connection> c;
    boost::shared_ptr<int> tracked(new int(0));
    int n = 10 + r.below(30);
    for (int i = 0; i < n; ++i) {
      Fun f = {int(r.below(5))};
      switch (r.below(14)) {
        case 0: case 1: c.push_back(s->connect(f)); break;
        case 2: c.push_back(s->connect(int(r.below(3)), f, bs::at_front)); break;
        case 3: c.push_back(s->connect(typename Sig::slot_type(f).track(tracked))); break;
        case 4: if (!c.empty()) { unsigned k = r.below(c.size()); c[k].disconnect(); } break;
        case 5: s->disconnect(int(r.below(3))); break;
        case 6: s->disconnect(f); break;
        case 7: if (r.chance(1, 4)) s->disconnect_all_slots(); break;
        case 8: if (r.chance(1, 3)) tracked.reset(new int(0)); break;
        case 9: { Sig &q = *s; int *cnt = new int(0); boost::shared_ptr<int> h(cnt);
          s->connect([&q, h, &log](int x) { if (++*h == 2) { q.connect(Fun{7}); log.push_back(long(q.num_slots())); } return x; }); break; }
        case 10: s->connect_extended([](const bs::connection &k, int x) { k.disconnect(); return x + 5; }); break;
        case 11: if (!c.empty()) { bs::shared_connection_block b(c[r.below(c.size())]); boost::optional<int> o = (*s)(i); log.push_back(o ? *o : -1); } break;
        case 12: { using std::swap; swap(*s, *s2); break; }
        case 13: s->set_combiner(bs::optional_last_value<int>()); break;
      }
      boost::optional<int> o = (*s)(i);
      log.push_back(o ? *o : -1);
      log.push_back(long(s->num_slots()));
      log.push_back(s->empty());
      long bits = 0;
      for (auto &k : c) bits = bits * 4 + k.connected() * 2 + k.blocked();
      log.push_back(bits);
      if (books.held != 0) fail(T(20), "a mutex is still locked after an operation");
    }
    if (r.chance(1, 2)) s.reset();
    for (auto &k : c) log.push_back(k.connected());
  }
  if (books.live != 0) fail(T(20), "%ld mutexes leaked", long(books.live));
  return log;
}
static void archetypes(Rng &rng) {
  uint64_t seed = rng.next();
  vector<long> want = program<bs::mutex>(seed);
  Hash h;
  for (long x : want) h.add(x);
  stats().distinct.insert(h.h);
  struct X { const char *name; vector<long> log; };
  vector<X> got;
  got.push_back(X{"dummy_mutex", program<bs::dummy_mutex>(seed)});
  got.push_back(X{"std::mutex", program<std::mutex>(seed)});
  got.push_back(X{"std::recursive_mutex", program<std::recursive_mutex>(seed)});
  got.push_back(X{"std::timed_mutex", program<std::timed_mutex>(seed)});
  got.push_back(X{"a monitored mutex", program<Monitored<std::mutex, 0>>(seed)});
  got.push_back(X{"a monitored dummy mutex", program<Monitored<bs::dummy_mutex, 1>>(seed)});
  got.push_back(X{"a spin lock", program<Spin>(seed)});
#if __cplusplus >= 201703L
  got.push_back(X{"an over-aligned mutex", program<Aligned>(seed)});
#endif
  for (X &x : got) if (x.log != want) fail(T(20, 21), "a signal with %s behaves differently from one with signals2::mutex", x.name);
  stats().add("archetype_programs", (long long)got.size() + 1);
  stats().add("observations_compared", (long long)got.size() * want.size());
}
// many threads on one signal: what they leave behind is right, and the mutex was used properly
template <class Mutex> static void crowd(Rng &rng) {
  typedef typename SigOf<Mutex>::type Sig;
  {
    Sig s;
    int n = 2 + rng.below(3), k = 10 + rng.below(40);
    std::atomic<long> calls(0), kept(0);
    Team team(n);
    team.run(rng.next(), [&](int id, Rng &r) {
      vector<bs::connection> mine;
      for (int i = 0; i < k; ++i) {
        switch (r.below(6)) {
          case 0: case 1: mine.push_back(s.connect([&calls](int x) { calls.fetch_add(1, std::memory_order_relaxed); return x; })); break;
          case 2: if (!mine.empty()) { unsigned j = r.below(mine.size()); mine[j].disconnect(); if (mine[j].connected()) fail(T(20, 11), "still connected"); mine.erase(mine.begin() + j); } break;
          case 3: mine.push_back(s.connect(id, Fun{id})); break;
          case 4: s(i); break;
          case 5: for (auto &c : mine) if (!c.connected()) fail(T(20, 11), "disconnected by nobody"); break;
        }
        jitter(r);
      }
      kept += long(mine.size());
    });
    if (long(s.num_slots()) != kept) fail(T(20, 11), "%zu slots are left of %ld", s.num_slots(), long(kept));
    if (books.held != 0) fail(T(20), "a mutex is still locked");
    stats().add("crowd_operations", n * k);
  }
  if (books.live != 0) fail(T(20), "%ld mutexes leaked", long(books.live));
}
static string only;
static void one_case(long long c, uint64_t seed) {
  Rng rng(seed);
  if (c < 4 && only != "crowd") return longhold(rng);
  switch (only == "mutex" ? c % 10 : only == "crowd" ? 12 + c % 2 : c % 14) {
    case 0: case 1: case 2: exclusion(rng); break;
    case 3: trylock(rng); break;
    case 4: trylock_self(rng); break;
    case 5: handover(rng); break;
    case 6: passing(rng); break;
    case 7: lastuser(rng); break;
    case 8: wrappers(rng); break;
    case 9: dummy(rng); break;
    case 10: case 11: archetypes(rng); break;
    case 12: crowd<bs::mutex>(rng); break;
    case 13: switch (rng.below(4)) {
      case 0: crowd<std::mutex>(rng); break;
      case 1: crowd<Monitored<std::mutex, 0>>(rng); break;
      case 2: crowd<Spin>(rng); break;
      default: crowd<Monitored<bs::mutex, 2>>(rng);
    }
  }
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  only = a.str("only", "");
  return run_cases("mutexes", a, one_case);
}
