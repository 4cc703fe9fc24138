// C10, C11, C20: real threads on shared signals with real mutexes.  Every thread records its operations and the slot
// calls with stamps of one counter; when the threads have ended the history is checked.  With -DCFG_TSAN the counter
// does not synchronise, so that ThreadSanitizer sees only the synchronisation of the library.
#include "common.hpp"
#include <boost/make_shared.hpp>
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <algorithm>
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
using namespace vf;
namespace bs = boost::signals2;
using std::string;
using std::vector;
#ifndef CFG_TSAN
#define CFG_TSAN 0
#endif
#if CFG_TSAN
static const std::memory_order ORD = std::memory_order_relaxed;
#else
static const std::memory_order ORD = std::memory_order_acq_rel;
#endif
static std::atomic<long> clock_;
static long now() { return clock_.fetch_add(1, ORD); }
static const long NEVER = 1L << 60;

struct Removal { long b, e; };       // began, ended
struct BlockI { long b, e, ub, ue; }; // made in [b,e], released in [ub,ue]
struct SlotInfo {                     // one per link; written by its creator, then only by whoever reads it after join
  int sig, place;                     // place: 0 front, 1..3 group, 4 back
  bool front;
  long cb, ce;
};
struct Ev { int kind, slot, sig; long b, e; long emission, arg; }; // kinds below
enum { E_EMIT, E_CALL, E_REMOVE, E_REMOVE_GROUP, E_REMOVE_ALL, E_EXPIRE, E_BLOCK, E_SETCOMB, E_CONNECTED, E_BLOCKED, E_NUM, E_EMPTY };
struct Comb { // remembers which combiner object was used
  typedef int result_type;
  int id;
  explicit Comb(int i = -1) : id(i) {}
  template <class It> int operator()(It f, It l) const { for (; f != l; ++f) *f; return id; }
};
template <class Mutex> struct World {
  typedef bs::signal<int(long), Comb, int, std::less<int>, boost::function<int(long)>, boost::function<int(const bs::connection &, long)>, Mutex> Sig;
  typedef typename Sig::slot_type Slot;
  enum { MAXS = 400 };
  struct Thr { Rng r; vector<Ev> log; int depth; bs::connection known[MAXS / 4]; vector<int> ids; int id; Thr() : depth(0) {} };
  vector<boost::shared_ptr<Sig>> sig;
  SlotInfo info[MAXS];
  std::atomic<int> nslot, ncomb;
  std::atomic<long> nemit;
  std::atomic<int> bodies;
  vector<std::unique_ptr<Thr>> thr;
  struct Tok { boost::shared_ptr<int> p; int owner; };
  bs::connection shared[16]; // connected before the threads start; threads copy them (reading one object is fine)
  int nshared;
  // expiry: token of slot k is dropped by its creator
  World() : nslot(0), ncomb(0), nemit(0), bodies(0), nshared(0) {}

  struct Body {
    typedef int result_type;
    World *w;
    int k, act;
    unsigned magic;
    Body(World *w_, int k_, int a) : w(w_), k(k_), act(a), magic(0xB0D1) { ++w->bodies; }
    Body(const Body &o) : w(o.w), k(o.k), act(o.act), magic(0xB0D1) { if (o.magic != 0xB0D1) fail(T(22, 10), "copy of a dead slot"); ++w->bodies; }
    ~Body() { if (magic != 0xB0D1) fail(T(22, 10), "slot destroyed twice"); magic = 0; --w->bodies; }
    int operator()(long em) const {
      if (magic != 0xB0D1) fail(T(22, 7), "call of a dead slot");
      Thr &t = *cur();
      long b = now();
      int kk = k;
      World *ww = w;
      int a = act;
      ww->jitter(t.r);
      if (a && t.depth < 3) { ++t.depth; ww->op(t); --t.depth; }
      if (magic != 0xB0D1) fail(T(22, 7), "slot destroyed while it is running");
      Ev e = {E_CALL, kk, -1, b, 0, em, 0};
      e.e = now();
      t.log.push_back(e);
      return kk;
    }
  };
  struct XBody { typedef int result_type; Body b; int operator()(const bs::connection &c, long em) const { int r = b(em); if (b.act == 2) { Thr &t = *cur(); Ev e = {E_REMOVE, b.k, -1, now(), 0, 0, 0}; c.disconnect(); e.e = now(); t.log.push_back(e); } return r; } };
  static Thr *&cur() { static thread_local Thr *t; return t; }
  static void jitter(Rng &r) { switch (r.below(8)) { case 0: std::this_thread::yield(); break; case 1: { for (volatile unsigned i = 0, n = r.below(600); i < n; ++i) {} break; } default: break; } }

  int connect(Thr &t, unsigned s, bool fresh) {
    int k = nslot++;
    if (k >= MAXS || t.ids.size() >= MAXS / 4) return -1;
    SlotInfo &f = info[k];
    f.sig = s;
    f.front = t.r.chance(1, 3);
    int g = t.r.below(6);
    f.place = g >= 1 && g <= 3 ? g : f.front ? 0 : 4;
    bs::connect_position pos = f.front ? bs::at_front : bs::at_back;
    bs::connection c;
    int act = t.r.chance(1, 3) ? 1 + t.r.below(2) : 0;
    unsigned kind = t.r.below(4);
    if (kind == 1) {
      XBody x = {Body(this, k, act)};
      typename Sig::extended_slot_type sl(x);
      f.cb = now();
      c = f.place >= 1 && f.place <= 3 ? sig[s]->connect_extended(f.place, sl, pos) : sig[s]->connect_extended(sl, pos);
      f.ce = now();
    } else {
      Slot sl(Body(this, k, act));
      if (kind == 2) { boost::shared_ptr<int> p(new int(k)); sl.track(p); tok(t).push_back(std::make_pair(k, p)); }
      f.cb = now();
      c = f.place >= 1 && f.place <= 3 ? sig[s]->connect(f.place, sl, pos) : sig[s]->connect(sl, pos);
      f.ce = now();
    }
    t.known[t.ids.size()] = c;
    t.ids.push_back(k);
    (void)fresh;
    return k;
  }
  vector<std::pair<int, boost::shared_ptr<int>>> toks_[8];
  vector<std::pair<int, boost::shared_ptr<int>>> &tok(Thr &t) { return toks_[t.id]; }

  void emit(Thr &t, unsigned s) {
    if (t.depth >= 3) return;
    Ev e = {E_EMIT, -1, int(s), 0, 0, nemit++, 0};
    ++t.depth;
    const Sig &q = *sig[s];
    e.b = now();
    e.arg = q(e.emission);
    e.e = now();
    --t.depth;
    t.log.push_back(e);
  }
  bool pick(Thr &t, bs::connection &c, int &k) { // one of its own or of the shared ones
    size_t n = t.ids.size();
    unsigned j = t.r.below(unsigned(n + nshared));
    if (n + nshared == 0) return false;
    if (j < n) { c = t.known[j]; k = t.ids[j]; } else { c = shared[j - n]; k = int(j - n); }
    return true;
  }
  void op(Thr &t) {
    unsigned s = t.r.below(unsigned(sig.size()));
    Ev e = {0, -1, int(s), 0, 0, 0, 0};
    bs::connection c;
    int k;
    switch (t.r.below(20)) {
      case 0: case 1: case 2: connect(t, s, true); break;
      case 3: case 4: case 5: case 6: emit(t, s); break;
      case 7: case 8: if (pick(t, c, k)) { e.kind = E_REMOVE; e.slot = k; e.b = now(); c.disconnect(); e.e = now(); t.log.push_back(e); if (c.connected()) fail(T(11, 4), "connected after disconnect() returned"); } break;
      case 9: e.kind = E_REMOVE_GROUP; e.arg = 1 + t.r.below(3); e.b = now(); sig[s]->disconnect(int(e.arg)); e.e = now(); t.log.push_back(e); break;
      case 10: if (t.r.chance(1, 6)) { e.kind = E_REMOVE_ALL; e.b = now(); sig[s]->disconnect_all_slots(); e.e = now(); t.log.push_back(e); } break;
      case 11: { vector<std::pair<int, boost::shared_ptr<int>>> &v = tok(t); if (!v.empty()) { unsigned j = t.r.below(unsigned(v.size())); std::pair<int, boost::shared_ptr<int>> x = v[j]; v.erase(v.begin() + j); e.kind = E_EXPIRE; e.slot = x.first; e.b = now(); boost::weak_ptr<int> wk(x.second); x.second.reset();
          // an invocation that holds it delays the expiry
          e.e = wk.expired() ? now() : NEVER; t.log.push_back(e); } break; }
      case 12: case 13: if (pick(t, c, k)) { // block for a while, doing something else
          Ev b = {E_BLOCK, k, 0, 0, 0, 0, 0};
          b.b = now();
          { bs::shared_connection_block bl(c);
            b.e = now();
            if (!c.blocked()) fail(T(5, 11), "not blocked while a block exists");
            size_t at = t.log.size();
            t.log.push_back(b);
            if (t.depth < 3) { ++t.depth; op(t); --t.depth; }
            t.log[at].emission = now(); // release begins
            bl.unblock();
            t.log[at].arg = now();      // release ended
          } break; }
      case 14: { e.kind = E_SETCOMB; Comb cb(ncomb++); e.arg = cb.id; e.b = now(); sig[s]->set_combiner(cb); e.e = now(); t.log.push_back(e); break; }
      case 15: { Comb cb = sig[s]->combiner(); (void)cb; break; }
      case 16: if (pick(t, c, k)) { e.kind = E_CONNECTED; e.slot = k; e.b = now(); e.arg = c.connected(); e.e = now(); t.log.push_back(e); } break;
      case 17: if (pick(t, c, k)) { e.kind = E_BLOCKED; e.slot = k; e.b = now(); e.arg = c.blocked(); e.e = now(); t.log.push_back(e); } break;
      case 18: e.kind = E_NUM; e.b = now(); e.arg = long(sig[s]->num_slots()); e.e = now(); t.log.push_back(e); break;
      case 19: e.kind = E_EMPTY; e.b = now(); e.arg = sig[s]->empty(); e.e = now(); t.log.push_back(e); break;
    }
  }
  void run(Rng &rng) {
    int nsig = 1 + rng.below(2), nthr = 2 + rng.below(3), nops = 6 + rng.below(30);
    for (int i = 0; i < nsig; ++i) sig.push_back(boost::shared_ptr<Sig>(new Sig));
    vector<Ev> all;
    Thr main;
    main.id = 7;
    main.r.reseed(rng.next());
    cur() = &main;
    for (int i = 0; i < nsig; ++i) { Ev e = {E_SETCOMB, -1, i, now(), 0, 0, 0}; Comb cb(ncomb++); e.arg = cb.id; sig[i]->set_combiner(cb); e.e = now(); main.log.push_back(e); }
    int pre = rng.below(8);
    for (int i = 0; i < pre; ++i) connect(main, rng.below(nsig), false);
    for (size_t i = 0; i < main.ids.size(); ++i) shared[nshared++] = main.known[i];
    std::atomic<int> ready(0);
    std::atomic<bool> go(false);
    vector<std::thread> th;
    for (int i = 0; i < nthr; ++i) { thr.emplace_back(new Thr); thr[i]->id = i; thr[i]->r.reseed(rng.next()); }
    for (int i = 0; i < nthr; ++i) th.emplace_back([this, i, nops, &ready, &go]() {
      Thr &t = *thr[i];
      cur() = &t;
      ++ready;
      while (!go.load(std::memory_order_relaxed)) {}
      for (int k = 0; k < nops; ++k) { op(t); jitter(t.r); }
      cur() = 0;
    });
    while (ready < nthr) std::this_thread::yield();
    go = true;
    for (auto &x : th) x.join();
    cur() = &main;
    // afterwards, in one thread: the surviving state shows in one more emission of each signal
    for (int i = 0; i < nsig; ++i) { Ev e = {E_NUM, -1, i, now(), 0, 0, 0}; e.arg = long(sig[i]->num_slots()); e.e = now(); main.log.push_back(e); main.depth = 2; emit(main, i); }
    all = main.log;
    for (auto &t : thr) all.insert(all.end(), t->log.begin(), t->log.end());
    check(all);
    // everything goes
    for (auto &t : thr) for (auto &c : t->known) c = bs::connection();
    for (auto &c : main.known) c = bs::connection();
    for (auto &c : shared) c = bs::connection();
    sig.clear();
    if (bodies != 0) fail(T(7, 8, 11), "%d slots are left after their signals were destroyed", bodies.load());
    cur() = 0;
  }
  void check(vector<Ev> &all) {
    int n = std::min<int>(nslot, MAXS);
    stats().add("events", (long long)all.size());
    Hash h;
#if CFG_TSAN
    std::sort(all.begin(), all.end(), [](const Ev &a, const Ev &b) { return a.b < b.b; });
    for (auto &e : all) h.add(e.kind * 1000 + e.slot);
    stats().distinct.insert(h.h);
    return;
#endif
    // links that were really made
    vector<char> made(n, 0);
    for (auto &t : thr) for (int k : t->ids) made[k] = 1;
    for (int k = 0; k < nshared; ++k) made[k] = 1;
    vector<vector<Removal>> rem(n);
    vector<vector<BlockI>> blk(n);
    std::sort(all.begin(), all.end(), [](const Ev &a, const Ev &b) { return a.b < b.b; });
    for (auto &e : all) {
      h.add(e.kind * 1000 + e.slot);
      Removal r = {e.b, e.e};
      switch (e.kind) {
        case E_REMOVE: case E_EXPIRE: rem[e.slot].push_back(r); break;
        case E_REMOVE_GROUP: case E_REMOVE_ALL:
          for (int k = 0; k < n; ++k) if (made[k] && info[k].sig == e.sig && (e.kind == E_REMOVE_ALL || info[k].place == e.arg)) {
            if (info[k].ce < e.b) rem[k].push_back(r);            // was there: is removed
            else if (info[k].cb < e.e) { Removal u = {e.b, NEVER}; rem[k].push_back(u); } // may be removed
          }
          break;
        case E_BLOCK: { BlockI b = {e.b, e.e, e.emission, e.arg}; blk[e.slot].push_back(b); break; }
      }
    }
    stats().distinct.insert(h.h);
    auto gone_by = [&](int k, long t) { for (auto &r : rem[k]) if (r.e < t) return true; return false; };          // certainly removed before t
    auto maybe_gone = [&](int k, long t) { for (auto &r : rem[k]) if (r.b < t) return true; return false; };        // possibly removed before t
    // calls by emission
    vector<vector<const Ev *>> calls(nemit.load());
    vector<const Ev *> em(nemit.load(), (const Ev *)0);
    for (auto &e : all) if (e.kind == E_EMIT) em[e.emission] = &e;
    for (auto &e : all) if (e.kind == E_CALL) {
      if (e.emission < 0 || e.emission >= (long)calls.size() || !em[e.emission]) fail(T(11, 1), "a slot was given another argument");
      calls[e.emission].push_back(&e);
    }
    for (size_t i = 0; i < em.size(); ++i) {
      if (!em[i]) continue;
      const Ev &E = *em[i];
      vector<char> called(n, 0);
      long prev = E.b;
      for (size_t j = 0; j < calls[i].size(); ++j) {
        const Ev &c = *calls[i][j];
        int k = c.slot;
        if (k < 0 || k >= n || info[k].sig != E.sig) fail(T(11, 1), "emission %zu called a slot of another signal", i);
        if (called[k]++) fail(T(11, 1), "emission %zu called slot %d twice", i, k);
        if (info[k].cb > E.e) fail(T(11, 3), "emission %zu called slot %d before it was connected", i, k);
        if (j && info[k].cb > calls[i][0]->b) fail(T(11, 3), "emission %zu called slot %d that was connected after its first slot call", i, k);
        if (c.b < E.b || c.e > E.e) fail(T(11, 1), "a slot was called outside its emission");
        for (auto &r : rem[k]) if (r.e < prev) fail(T(11, 4), "emission %zu called slot %d although its removal had completed", i, k);
        for (auto &b : blk[k]) if (b.e < prev && b.ub > c.b) fail(T(11, 5), "emission %zu called slot %d while it was blocked", i, k);
        // order against the one before it
        for (size_t l = 0; l < j; ++l) {
          int a = calls[i][l]->slot;
          if (info[a].place > info[k].place) fail(T(11, 2), "emission %zu: slot %d of place %d before slot %d of place %d", i, a, info[a].place, k, info[k].place);
          if (info[a].place == info[k].place) {
            // slot a was called before k: wrong if k certainly belongs in front of a
            bool a_first = info[a].ce < info[k].cb, k_first = info[k].ce < info[a].cb;
            if (a_first && info[k].front) fail(T(11, 2), "emission %zu: slot %d connected at front after %d is called behind it", i, k, a);
            if (k_first && !info[a].front) fail(T(11, 2), "emission %zu: slot %d connected at back after %d is called before it", i, a, k);
          }
        }
        prev = c.e;
      }
      for (int k = 0; k < n; ++k) if (made[k] && info[k].sig == E.sig && !called[k] && info[k].ce < E.b && !maybe_gone(k, E.e)) {
        bool bl = false;
        for (auto &b : blk[k]) if (b.b < E.e && b.ue > E.b) bl = true;
        if (!bl) fail(T(11, 1), "emission %zu did not call slot %d, which was connected all the time", i, k);
      }
      // combiner
      bool ok = false;
      for (auto &e : all) if (e.kind == E_SETCOMB && e.sig == E.sig && e.arg == E.arg && e.b < E.e) {
        ok = true;
        for (auto &f : all) if (f.kind == E_SETCOMB && f.sig == E.sig && f.arg != e.arg && f.b > e.e && f.e < E.b) ok = false;
      }
      if (!ok) fail(T(11, 14), "emission %zu used combiner %ld, which was not the current one", i, E.arg);
      stats().add("emissions");
      stats().add("slot_calls", (long long)calls[i].size());
    }
    // states that were read
    for (auto &e : all) {
      if (e.kind == E_CONNECTED || e.kind == E_BLOCKED) {
        int k = e.slot;
        if (e.kind == E_CONNECTED) {
          if (e.arg && gone_by(k, e.b)) fail(T(11, 4), "connected() of slot %d is true after its removal", k);
          if (!e.arg && !maybe_gone(k, e.e)) fail(T(11, 4), "connected() of slot %d is false although nothing removed it", k);
        } else {
          bool must = false, may = maybe_gone(k, e.e);
          for (auto &b : blk[k]) { if (b.e < e.b && b.ub > e.e) must = true; if (b.b < e.e && b.ue > e.b) may = true; }
          if (e.arg && !may) fail(T(11, 5), "blocked() of slot %d is true without a reason", k);
          if (!e.arg && must) fail(T(11, 5), "blocked() of slot %d is false although it is blocked", k);
        }
        stats().add("state_reads");
      } else if (e.kind == E_NUM || e.kind == E_EMPTY) {
        long lo = 0, hi = 0;
        for (int k = 0; k < n; ++k) if (made[k] && info[k].sig == e.sig) {
          if (info[k].ce < e.b && !maybe_gone(k, e.e)) ++lo;
          if (info[k].cb < e.e && !gone_by(k, e.b)) ++hi;
        }
        if (e.kind == E_NUM && (e.arg < lo || e.arg > hi)) fail(T(11, 4), "num_slots() is %ld, possible are %ld to %ld", e.arg, lo, hi);
        if (e.kind == E_EMPTY && e.arg && lo) fail(T(11, 4), "empty() is true with %ld slots", lo);
        if (e.kind == E_EMPTY && !e.arg && !hi) fail(T(11, 4), "empty() is false without slots");
        stats().add("state_reads");
      }
    }
    if (stats().samples.empty() && all.size() > 30) {
      string s = "case " + std::to_string(ctx().case_no) + ":";
      static const char *names[] = {"emit", "call", "disconnect", "disconnect group", "disconnect all", "expire", "block", "set_combiner", "connected", "blocked", "num_slots", "empty"};
      for (size_t i = 0; i < 40 && i < all.size(); ++i) { char b[120]; snprintf(b, sizeof b, " | %ld-%ld %s sig %d slot %d arg %ld", all[i].b, all[i].e, names[all[i].kind], all[i].sig, all[i].slot, all[i].kind == E_CALL ? all[i].emission : all[i].arg); s += b; }
      stats().samples.push_back(s);
    }
  }
};
static void one_case(long long c, uint64_t seed) {
  Rng rng(seed);
  clock_ = 0;
  if (c % 4 == 3) { std::unique_ptr<World<std::mutex>> w(new World<std::mutex>); w->run(rng); }
  else { std::unique_ptr<World<bs::mutex>> w(new World<bs::mutex>); w->run(rng); }
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("stress", a, one_case);
}
