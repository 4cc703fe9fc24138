// Churn: a small random program of connects, removals by every route, expiries, blocks and invocations (also from inside
// slots) is repeated many times with a bounded number of simultaneously connected slots, while a heap monitor checks that
// what the signal holds stays within a constant plus an amount per simultaneously connected slot.
#include "heap.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <deque>
#include <memory>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;
struct Comb { // consumes everything; cheap
  typedef void result_type;
  template <class It> void operator()(It f, It l) const { for (; f != l; ++f) *f; }
};
static long g_fn;
static void hook(int tag);
struct Fn {
  int tag;
  char pad[40];
  explicit Fn(int t) : tag(t) { ++g_fn; }
  Fn(const Fn &o) : tag(o.tag) { ++g_fn; }
  ~Fn() { --g_fn; }
  void operator()(int) const { hook(tag); }
  void operator()(const bs::connection &, int) const { hook(tag); }
  bool operator==(const Fn &o) const { return tag == o.tag; }
};
typedef bs::signal<void(int), Comb, int, std::less<int>, boost::function<void(int)>, boost::function<void(const bs::connection &, int)>, bs::dummy_mutex> Sig;
typedef Sig::slot_type Slot;
typedef Sig::extended_slot_type XSlot;
struct Live { // one connected slot and how it will be removed
  bs::connection c;
  boost::shared_ptr<int> tracked;
  std::shared_ptr<int> stracked;
  std::unique_ptr<bs::scoped_connection> scoped;
  std::unique_ptr<Sig> sig;
  int group, tag;
};
struct Step { int op, a, b, c; };
enum { S_CONNECT, S_REMOVE, S_EMIT, S_GROUP, S_ALL, S_FN, S_BLOCK, S_COMB, S_COUNT, S_FAILED, S_MOVE, NS };
static const char *sname[] = {"connect", "remove", "emit", "disconnect group", "disconnect all", "disconnect function", "block", "set combiner", "count", "connect expired slot", "move"};
struct World {
  Rng rng;
  Sig *sig;
  std::deque<Live> live;
  vector<Step> prog, inner;
  int M, depth, peak;
  long connects, innerBudget;
  long base, per; // bytes
  double worst;
  long worstFn;
  explicit World(uint64_t s) : rng(s), sig(0), M(1), depth(0), peak(0), connects(0), innerBudget(0), base(0), per(0), worst(0), worstFn(0) {}
};
static World *W;
static void remove_one(Live &l, int how) {
  if (l.tracked || l.stracked) {
    if (how % 3 != 2) { l.tracked.reset(); l.stracked.reset(); } else l.c.disconnect();
  } else if (l.sig) {
    if (how % 2) l.sig.reset(); else l.c.disconnect();
  } else if (l.scoped) { if (how % 2) l.scoped.reset(); else l.scoped->disconnect(); }
  else l.c.disconnect();
}
static void step(const Step &s);
static void do_remove(int which, int how) {
  World &w = *W;
  if (w.live.empty()) return;
  size_t i = which == 0 ? 0 : which == 1 ? w.live.size() - 1 : w.rng.below(w.live.size());
  remove_one(w.live[i], how);
  Live l(std::move(w.live[i]));
  w.live.erase(w.live.begin() + i);
  if (l.sig && W->depth) l.sig->disconnect_all_slots();
}
static void do_connect(const Step &s) {
  World &w = *W;
  while ((int)w.live.size() >= w.M) do_remove(s.c % 3, s.c);
  int kind = s.a % 6, section = s.b % 3, group = s.b / 3 % 4;
  bs::connect_position pos = section == 0 || (section == 1 && s.b / 12 % 2) ? bs::at_front : bs::at_back;
  Live l;
  l.group = section == 1 ? group : -1;
  l.tag = s.c % 4;
  ++w.connects;
  if (kind == 1) {
    XSlot x((Fn(l.tag)));
    l.c = section == 1 ? w.sig->connect_extended(group, x, pos) : w.sig->connect_extended(x, pos);
  } else {
    Slot x((Fn(l.tag)));
    if (kind == 2) { l.tracked = boost::make_shared<int>(1); x.track(l.tracked); }
    if (kind == 3) { l.stracked = std::make_shared<int>(1); x.track_foreign(l.stracked); }
    if (kind == 4) { l.sig.reset(new Sig); Slot y(*l.sig); l.c = section == 1 ? w.sig->connect(group, y, pos) : w.sig->connect(y, pos); }
    else l.c = section == 1 ? w.sig->connect(group, x, pos) : w.sig->connect(x, pos);
    if (kind == 5) l.scoped.reset(new bs::scoped_connection(l.c));
  }
  w.live.push_back(std::move(l));
  w.peak = std::max(w.peak, (int)w.live.size());
}
static void measure() {
  World &w = *W;
  long bytes = heap().bytes - w.base;
  // what simultaneously connected slots may cost: their own records, some removed ones not yet collected, list copies of
  // the invocations that are running
  double units = double(bytes) / w.per;
  double allowed = (80 + 5.0 * w.M) * (1 + w.depth);
  w.worst = std::max(w.worst, units - w.live.size());
  w.worstFn = std::max(w.worstFn, g_fn - (long)w.live.size());
  stats().add("measurements");
  if (units > allowed) fail(T(8), "after %ld connects with at most %d simultaneously connected the signal holds %ld bytes (%.0f connections' worth, bound %.0f)", w.connects, w.M, bytes, units, allowed);
  if (g_fn > allowed) fail(T(8, 7), "after %ld connects with at most %d simultaneously connected %ld slot functions are alive", w.connects, w.M, g_fn);
}
static void prune() { // forget what is no longer connected
  World &w = *W;
  for (size_t i = 0; i < w.live.size();) {
    if (!w.live[i].c.connected()) { w.live.erase(w.live.begin() + i); } else ++i;
  }
}
static void step(const Step &s) {
  World &w = *W;
  switch (s.op) {
    case S_CONNECT: do_connect(s); break;
    case S_REMOVE: do_remove(s.a % 3, s.b); break;
    case S_EMIT: if (w.depth == 0) { ++w.depth; (*w.sig)(1); --w.depth; } break;
    case S_GROUP: w.sig->disconnect(s.a % 4); prune(); break;
    case S_ALL: w.sig->disconnect_all_slots(); prune(); break;
    case S_FN: { Fn f(s.a % 4); w.sig->disconnect(f); prune(); break; }
    case S_BLOCK: if (!w.live.empty()) { bs::shared_connection_block b(w.live[s.a % w.live.size()].c); if (s.b % 2) b.unblock(); } break;
    case S_COMB: w.sig->set_combiner(Comb()); break;
    case S_COUNT: { volatile size_t n = w.sig->num_slots(); (void)n; volatile bool e = w.sig->empty(); (void)e; break; }
    case S_FAILED: { boost::shared_ptr<int> p = boost::make_shared<int>(1); Slot x((Fn(0))); x.track(p); p.reset(); if ((int)w.live.size() < w.M) { ++w.connects; if (s.b % 2) w.sig->connect(s.a % 4, x, s.c % 2 ? bs::at_front : bs::at_back); else w.sig->connect(x, s.c % 2 ? bs::at_front : bs::at_back); } break; }
    case S_MOVE: if (w.depth == 0) { Sig t(std::move(*w.sig)); if (s.a % 2) { Sig u; swap(t, u); *w.sig = std::move(u); } else *w.sig = std::move(t); } break;
  }
}
static void hook(int tag) {
  World &w = *W;
  if (!w.depth || w.inner.empty() || w.innerBudget <= 0) return;
  if (tag % 2) return;
  --w.innerBudget;
  ++w.depth;
  for (const Step &s : w.inner) step(s);
  --w.depth;
}
static Step random_step(Rng &r, bool inner) {
  Step s;
  static const int wt[] = {40, 14, 14, 3, 2, 3, 4, 3, 3, 3, 2};
  int tot = 0;
  for (int x : wt) tot += x;
  int k = r.below(tot);
  s.op = 0;
  while (k >= wt[s.op]) k -= wt[s.op++];
  if (inner && s.op == S_EMIT) s.op = S_CONNECT;
  s.a = r.below(24); s.b = r.below(24); s.c = r.below(24);
  return s;
}
static string text(const vector<Step> &v) { string r; for (const Step &s : v) r += string(sname[s.op]) + "(" + std::to_string(s.a) + "," + std::to_string(s.b) + "," + std::to_string(s.c) + ") "; return r; }
static void one_case(long long cno, uint64_t seed) {
  long b0 = heap().blocks;
  {
    World w(seed);
    W = &w;
    Rng &r = w.rng;
    w.M = 1 + r.below(r.chance(1, 4) ? 24 : 6);
    int n = 1 + r.below(7);
    unsigned mode = r.below(5);
    for (int i = 0; i < n; ++i) {
      Step s = random_step(r, false);
      if (mode == 0 && s.op == S_EMIT) s.op = S_CONNECT;    // never invoked
      if (mode == 1) { s.op = i % 2 ? S_REMOVE : S_CONNECT; } // connect and remove only
      if (mode == 2 && s.op != S_EMIT) { s.op = S_EMIT; }     // changed only during invocations
      w.prog.push_back(s);
    }
    bool any = false;
    for (Step &s : w.prog) any |= s.op == S_CONNECT || s.op == S_EMIT;
    if (!any) w.prog.push_back(Step{S_CONNECT, int(r.below(6)), int(r.below(24)), int(r.below(24))});
    if (mode == 2 || r.chance(1, 2)) {
      int m = 1 + r.below(5);
      for (int i = 0; i < m; ++i) w.inner.push_back(random_step(r, true));
    }
    int rounds = 2500;
    tr("M=%d program: %s", w.M, text(w.prog).c_str());
    tr("in slots: %s", text(w.inner).c_str());
    // what one connection costs
    {
      Sig s;
      s.connect(1, Fn(1));
      long x = heap().bytes;
      s.connect(1, Fn(1));
      w.per = heap().bytes - x;
      if (w.per < 100) w.per = 100;
      x = heap().bytes;
      Sig t;
      s.connect(1, t);
      w.per = (w.per + heap().bytes - x) / 2 + 64; // a connected signal costs more
    }
    w.live.clear();
    {
      Sig sig;
      w.sig = &sig;
      { vector<Step> keep; keep.swap(w.inner); do_connect(Step{0, 0, 2, 0}); keep.swap(w.inner); } // a slot that acts during invocations
      w.base = heap().bytes - w.per;
      for (int i = 0; i < rounds; ++i) {
        w.innerBudget = 3;
        if (w.live.empty() && !w.inner.empty()) do_connect(Step{0, 0, 2, 0});
        for (const Step &s : w.prog) step(s);
        if (i % 16 == 15) measure();
      }
      // one invocation in which a slot does everything
      if (!w.inner.empty() && r.chance(1, 2)) {
        do_connect(Step{0, 0, 2, 0});
        struct Deep { };
        w.depth = 1;
        for (int i = 0; i < 400; ++i) { w.innerBudget = 0; for (const Step &s : w.inner) step(s); if (i % 16 == 15) { w.depth = 0; measure(); w.depth = 1; } }
        w.depth = 0;
      }
      measure();
      stats().add("connects", w.connects);
      if (long(w.worst) > stats().n["excess_connections_worst_of_each_process_summed"]) stats().n["excess_connections_worst_of_each_process_summed"] = long(w.worst);
      if (w.worstFn > stats().n["excess_functions_worst_of_each_process_summed"]) stats().n["excess_functions_worst_of_each_process_summed"] = w.worstFn;
      w.live.clear();
    }
    if (g_fn != 0) fail(T(7, 8, 22), "%ld slot functions leaked", g_fn);
    Hash h;
    for (auto *v : {&w.prog, &w.inner}) for (Step &s : *v) { h.add(s.op); h.add(s.a); h.add(s.b); h.add(s.c); }
    h.add(w.M);
    if (w.connects > 300 && stats().distinct.insert(h.h).second) stats().add("distinct_nontrivial");
    if (stats().samples.size() < 2 && w.connects > 1000) stats().samples.push_back("case " + std::to_string(cno) + ": at most " + std::to_string(w.M) + " connected, repeated " + std::to_string(rounds) + " times: " + text(w.prog) + (w.inner.empty() ? "" : "; slots do: " + text(w.inner)) + "; " + std::to_string(w.connects) + " connects");
  }
  W = 0;
  (void)b0;
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("churn", a, one_case);
}
