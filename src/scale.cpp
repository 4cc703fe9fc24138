// Sizes: many slots, groups, tracked objects, blocks, nested invocations, emissions, signals in a chain, slots removed at
// once.  Every case draws one scenario and its sizes from a wide, skewed distribution (around powers of two and the sizes
// of internal buffers too) and compares what happens with a simple model.
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/bind/bind.hpp>
#include <boost/make_shared.hpp>
#include <algorithm>
#include <functional>
#include <list>
#include <memory>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;
#ifndef CFG_BIG
#define CFG_BIG 1
#endif

static Rng *R_;
static long long live_fn;
static vector<int> log_;
static int arg_;
// sizes: mostly small, sometimes large, often next to a power of two or a buffer size
static int size_up_to(int max) {
  int bits = 1;
  while ((1 << bits) < max) ++bits;
  int b = R_->below(bits + 1);
  long long n;
  switch (R_->below(4)) {
  case 0: n = (1ll << b) + int(R_->below(3)) - 1; break;
  case 1: { static const int k[] = {9, 10, 11, 12, 39, 40, 41, 159, 160, 161, 255, 256, 257, 639, 641}; n = k[R_->below(15)] + int(R_->below(2)); break; }
  default: n = (1ll << b) + R_->below(1u << b);
  }
  if (n > max) n = max - R_->below(std::max(1, max / 8));
  return n < 0 ? 0 : int(n);
}
struct Fn { // counts its live copies, logs its calls
  typedef int result_type;
  int id;
  explicit Fn(int i) : id(i) { ++live_fn; }
  Fn(const Fn &o) : id(o.id) { ++live_fn; }
  ~Fn() { --live_fn; }
  int operator()(int x) const { if (x != arg_) fail(T(1, 21), "slot %d was given %d instead of %d", id, x, arg_); log_.push_back(id); return id; }
  bool operator==(const Fn &o) const { return id == o.id; }
};
struct Sum {
  typedef long long result_type;
  template <class I> long long operator()(I f, I l) const { long long s = 0; for (; f != l; ++f) s += *f; return s; }
};
typedef bs::signal<int(int), Sum, int, std::less<int>> Sig;
struct M { int id; bool grouped; int group; bool front; long long seq; bool on = true, exp = false; int blocks = 0; bs::connection c; };

static void check_emit(const Sig &s, vector<M *> &v, const char *when, Tags t) {
  vector<M *> o;
  for (M *m : v) if (m->on && !m->exp) o.push_back(m);
  std::sort(o.begin(), o.end(), [](M *a, M *b) {
    auto k = [](M *x) { return x->grouped ? std::make_pair(1, x->group) : std::make_pair(x->front ? 0 : 2, 0); };
    if (k(a) != k(b)) return k(a) < k(b);
    if (a->front != b->front) return a->front;
    return a->front ? a->seq > b->seq : a->seq < b->seq;
  });
  size_t alive = o.size();
  vector<int> want;
  long long sum = 0;
  for (M *m : o) if (!m->blocks) { want.push_back(m->id); sum += m->id; }
  log_.clear();
  arg_ = R_->below(1000);
  long long r = s(arg_);
  if (log_ != want) {
    vector<int> a = log_, b = want;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a == b) fail(T(2), "%s: %zu slots were called in a wrong order", when, want.size());
    fail(t | T(1), "%s: %zu slots called, expected %zu", when, log_.size(), want.size());
  }
  if (r != sum) fail(T(14), "%s: result %lld, expected %lld", when, r, sum);
  if (s.num_slots() != alive || s.empty() != (alive == 0)) fail(T(4) | t, "%s: num_slots() %zu, expected %zu", when, s.num_slots(), alive);
  stats().add("slot_calls", want.size());
}
static M *add(Sig &s, int id, int groups, std::list<M> &store, vector<M *> &v, long long &seq) {
  store.push_back(M());
  M &m = store.back();
  m.id = id; m.grouped = groups && R_->chance(3, 4); m.group = int(R_->below(std::max(1, groups))) - groups / 2; m.front = R_->chance(1, 3); m.seq = ++seq;
  bs::connect_position at = m.front ? bs::at_front : bs::at_back;
  m.c = m.grouped ? s.connect(m.group, Fn(id), at) : s.connect(Fn(id), at);
  v.push_back(&m);
  return &m;
}
// many slots, groups and blocks; slots leave by every route in large numbers; the function objects go with them
static void many_slots() {
  int n = size_up_to(CFG_BIG ? 6000 : 2500), groups = R_->chance(1, 4) ? 0 : 1 + size_up_to(std::max(1, n));
  tr("%d slots in %d groups", n, groups);
  stats().add("slots_connected", n);
  std::list<M> store;
  vector<M *> v;
  long long seq = 0, base = live_fn;
  { Sig s;
    for (int i = 0; i < n; ++i) add(s, i + 1, groups, store, v, seq);
    if (live_fn - base != n) fail(T(7), "%lld function objects for %d slots", live_fn - base, n);
    check_emit(s, v, "after connecting", T(1));
    for (int round = 0; round < 3; ++round) {
      int how = R_->below(6);
      unsigned part = 1 + R_->below(8);
      tr("round %d: way %d, one of %u", round, how, part);
      vector<std::shared_ptr<bs::shared_connection_block>> bl;
      vector<M *> blocked;
      if (how == 0) { for (M *m : v) if (R_->chance(part - 1, part)) { m->c.disconnect(); m->on = false; } }
      else if (how == 1 && groups) { for (int g = -groups / 2; g <= groups - groups / 2; ++g) if (R_->chance(1, part)) { s.disconnect(g); for (M *m : v) if (m->grouped && m->group == g) m->on = false; if (n > 1000 && R_->chance(1, 4)) g += n / 200; } }
      else if (how == 2) { for (int k = 0; k < 5 && n; ++k) { int id = 1 + R_->below(n); s.disconnect(Fn(id)); for (M *m : v) if (m->id == id) m->on = false; } }
      else if (how == 3) { s.disconnect_all_slots(); for (M *m : v) m->on = false; }
      else if (how == 4) { vector<bs::scoped_connection> sc; for (M *m : v) if (R_->chance(1, part)) { sc.emplace_back(m->c); m->on = false; } }
      else { for (M *m : v) if (R_->chance(1, part)) { bl.push_back(std::make_shared<bs::shared_connection_block>(m->c)); ++m->blocks; blocked.push_back(m); } }
      check_emit(s, v, "after a change", T(4) | (how == 5 ? T(5) : 0));
      long long on = 0;
      for (M *m : v) { on += m->on; if (R_->chance(1, 8) && m->c.connected() != m->on) fail(T(4), "connected() of slot %d is %d", m->id, !m->on); if (R_->chance(1, 8) && m->c.blocked() != (!m->on || m->blocks)) fail(T(5), "blocked() of slot %d", m->id); }
      if (live_fn - base != on) fail(T(7), "%lld function objects, %lld slots connected", live_fn - base, on);
      for (M *m : blocked) --m->blocks;
      bl.clear();
      for (int k = R_->below(20); k > 0; --k) add(s, ++n, groups, store, v, seq);
      check_emit(s, v, "after more were connected", T(4) | (how == 5 ? T(5) : 0));
    }
    if (R_->chance(1, 2)) { Sig t(std::move(s)); check_emit(t, v, "moved", T(16)); }
  }
  if (live_fn != base) fail(T(7), "%lld function objects left", live_fn - base);
  for (M *m : v) if (m->c.connected()) fail(T(4), "connected after the signal is gone");
}
// a slot with many tracked objects, or many slots with one
struct Obj { int *count; explicit Obj(int *c) : count(c) { ++*c; } ~Obj() { --*count; } };
static void many_tracked() {
  int n = size_up_to(CFG_BIG ? 3000 : 1000), slots = 1 + R_->below(3), objs = 0, calls = 0, alive_in_call = -1;
  tr("%d tracked objects, %d slots", n, slots);
  stats().add("tracked", n);
  vector<boost::shared_ptr<Obj>> o;
  vector<std::shared_ptr<Obj>> f;
  Sig s;
  arg_ = 5;
  bool drop = R_->chance(1, 2), use_foreign = R_->chance(1, 2);
  auto fn = [&](int) { ++calls; if (drop) { o.clear(); f.clear(); } alive_in_call = objs; return 1; };
  Sig::slot_type sl(fn);
  for (int i = 0; i < n; ++i) {
    if (use_foreign && (i & 1)) { f.push_back(std::make_shared<Obj>(&objs)); sl.track_foreign(f.back()); }
    else { o.push_back(boost::make_shared<Obj>(&objs)); sl.track(o.back()); }
  }
  vector<bs::connection> c;
  for (int i = 0; i < slots; ++i) c.push_back(s.connect(sl));
  if (!n) drop = false;
  s(5);
  int want = drop ? 1 : slots;
  if (calls != want) fail(T(6), "%d calls of slots with %d tracked objects, expected %d", calls, n, want);
  if (alive_in_call != n) fail(T(6), "%d of %d tracked objects were alive during the call", alive_in_call, n);
  if (drop && objs) fail(T(6), "%d tracked objects are still kept after the invocation", objs);
  if (!drop && n) {
    if (sl.lock().size() != size_t(n)) fail(T(18), "lock() of a slot with %d tracked objects", n);
    int k = R_->below(n);
    if (use_foreign && (k & 1)) f[k / 2].reset(); else if (use_foreign) o[k / 2].reset(); else o[k].reset();
    if (!sl.expired()) fail(T(18), "expired() is false although object %d of %d is gone", k, n);
    for (auto &x : c) if (x.connected()) fail(T(6), "connected although tracked object %d of %d is gone", k, n);
    calls = 0;
    s(5);
    if (calls) fail(T(6), "called although tracked object %d of %d is gone", k, n);
    if (objs != n - 1) fail(T(6), "%d of %d objects alive after one went", objs, n);
  }
  if (n && s.num_slots()) fail(T(6, 4), "num_slots() counts slots with expired objects");
}
static void many_blocks() {
  int n = 1 + size_up_to(CFG_BIG ? 4000 : 1500), calls = 0;
  tr("%d blocks", n);
  stats().add("blocks", n);
  bs::signal<void()> s;
  bs::connection c = s.connect([&] { ++calls; });
  vector<std::shared_ptr<bs::shared_connection_block>> b;
  for (int i = 0; i < n; ++i) {
    if (!b.empty() && R_->chance(1, 3)) b.push_back(std::make_shared<bs::shared_connection_block>(*b[R_->below(b.size())]));
    else b.push_back(std::make_shared<bs::shared_connection_block>(c));
  }
  int order = R_->below(3);
  while (!b.empty()) {
    if (b.size() < 20 || R_->chance(1, 50)) { s(); if (calls || !c.blocked()) fail(T(5), "a slot with %zu of %d blocks ran", b.size(), n); }
    size_t k = order == 0 ? b.size() - 1 : order == 1 ? R_->below(b.size()) : 0;
    if (R_->chance(1, 2)) b[k]->unblock();
    std::swap(b[k], b.back());
    b.pop_back();
  }
  s();
  if (calls != 1 || c.blocked()) fail(T(5), "a slot whose %d blocks are released does not run", n);
}
// deep recursion on one signal, with changes at the deepest level
struct Deep { // what the slot needs; the slot itself only refers to it
  bs::signal<void()> s;
  bs::connection self, second;
  boost::shared_ptr<int> tracked = boost::make_shared<int>(1);
  boost::weak_ptr<int> w;
  vector<int> order;
  int depth, mode, level = 0, after = 0, late = 0;
  long long base = 0, inside = -1;
  void run() {
    int my = ++level;
    if (mode == 1 && my < 300) s.connect([this] { ++late; });
    if (my < depth) s();
    else {
      if (mode == 2) self.disconnect();
      if (mode == 3) second.disconnect();
      if (mode == 4) s.disconnect_all_slots();
      if (mode == 5) s.set_combiner(bs::optional_last_value<void>());
      if (mode == 7) tracked.reset();
      inside = live_fn - base;
      if (mode == 6) throw 4711;
    }
    order.push_back(my);
    if (mode == 7 && w.expired()) fail(T(6), "the tracked object is gone although %d invocations run", my);
  }
};
struct DeepSlot {
  typedef void result_type;
  Deep *d;
  int id;
  explicit DeepSlot(Deep *p) : d(p), id(1) { ++live_fn; }
  DeepSlot(const DeepSlot &o) : d(o.d), id(o.id) { ++live_fn; }
  ~DeepSlot() { id = 0; --live_fn; }
  void operator()() const { d->run(); if (id != 1) fail(T(7, 22), "the function object of a running slot is gone"); }
  void operator()(const bs::connection &c) const { if (!(c == d->self)) fail(T(17), "another connection at depth %d", d->level); d->run(); if (id != 1) fail(T(7, 22), "the function object of a running slot is gone"); }
};
static void nesting() {
  long long base = live_fn;
  { Deep d;
    d.depth = 1 + size_up_to(CFG_BIG ? 700 : 250);
    d.mode = R_->below(8);
    d.w = d.tracked;
    bool ext = R_->chance(1, 3);
    tr("%d nested invocations, mode %d, extended %d", d.depth, d.mode, ext);
    stats().add("nested", d.depth);
    typedef bs::signal<void()> V;
    if (ext) d.self = d.s.connect_extended(V::extended_slot_type(DeepSlot(&d)).track(d.tracked));
    else d.self = d.s.connect(V::slot_type(DeepSlot(&d)).track(d.tracked));
    d.second = d.s.connect([&d] { ++d.after; });
    d.base = base;
    long long own = live_fn - base;
    if (own < 1) fail(T(7), "no function object of a connected slot");
    int thrown = 0;
    try { d.s(); } catch (int e) { thrown = e; }
    int mode = d.mode, depth = d.depth;
    if (thrown != (mode == 6 ? 4711 : 0)) fail(T(12), "exception %d left %d nested invocations", thrown, depth);
    if (d.level != depth || int(d.order.size()) != (mode == 6 ? 0 : depth)) fail(T(1, 3), "%d nested calls, expected %d", d.level, depth);
    for (size_t i = 0; i < d.order.size(); ++i) if (d.order[i] != depth - int(i)) fail(T(3), "nested calls returned in a wrong order");
    int want = mode == 3 || mode == 4 || mode == 6 ? 0 : depth;
    if (d.after != want) fail(T(3, 1), "the second slot was called %d times in %d invocations, expected %d", d.after, depth, want);
    if (mode == 1) { // a slot connected at level k is called by the invocations begun later: levels k+1 .. depth
      long long w = 0;
      for (int k = 1; k <= depth && k < 300; ++k) w += depth - k;
      if (d.late != w) fail(T(3), "slots connected by nested invocations were called %d times, expected %lld", d.late, w);
    }
    if (mode == 7 && !d.w.expired()) fail(T(6), "the tracked object is kept after %d nested invocations", depth);
    if (d.inside < own) fail(T(7), "%lld function objects while the slot runs, expected %lld", d.inside, own);
    bool off = mode == 2 || mode == 4 || mode == 7;
    if (d.self.connected() != !off) fail(T(4), "connected() after %d nested invocations", depth);
    if (d.s.num_slots() != size_t((mode == 1 ? std::min(depth, 299) : 0) + !off + (mode != 3 && mode != 4))) fail(T(4), "num_slots() is %zu", d.s.num_slots());
    long long left = live_fn - base;
    if (left != (off ? 0 : own)) fail(T(7) | (mode == 6 ? T(12) : 0), "%lld function objects after %d nested invocations, expected %lld", left, depth, off ? 0 : own);
    if (mode == 6) { // nothing of the abandoned invocations is left behind
      d.mode = 0; d.level = 0;
      d.s();
      if (d.level != depth || d.after != depth) fail(T(12), "%d and %d calls after the exception, expected %d", d.level, d.after, depth);
    }
    d.self.disconnect();
    if (live_fn != base) fail(T(7) | (mode == 6 ? T(12) : 0), "%lld function objects left after disconnect", live_fn - base);
  }
  if (live_fn != base) fail(T(7), "%lld function objects left", live_fn - base);
}
// tens of thousands of emissions, connections, handles of one signal
static void long_run() {
  int n = size_up_to(CFG_BIG ? 140000 : 20000), keep = 1 + R_->below(6), mode = R_->below(4);
  tr("%d rounds with %d slots, mode %d", n, keep, mode);
  stats().add("rounds", n);
  long long base = live_fn;
  { Sig s;
    arg_ = 7;
    vector<bs::connection> c;
    for (int i = 0; i < keep; ++i) c.push_back(s.connect(i % 3, Fn(i + 1)));
    long long sum = keep * (keep + 1) / 2;
    vector<bs::connection> copies;
    for (int i = 0; i < n; ++i) {
      log_.clear();
      if (mode == 0) { if (s(7) != sum || log_.size() != size_t(keep)) fail(T(1), "emission %d of %d: %zu calls, expected %d", i, n, log_.size(), keep); }
      else if (mode == 1) { int k = R_->below(keep); c[k].disconnect(); c[k] = s.connect(k % 3, Fn(k + 1)); if (!(i & 15) || i + 3 > n) { if (s(7) != sum || log_.size() != size_t(keep)) fail(T(1, 4), "round %d of %d: %zu calls, expected %d", i, n, log_.size(), keep); if (s.num_slots() != size_t(keep)) fail(T(4), "num_slots() after %d rounds", i); } }
      else if (mode == 2) { copies.push_back(c[i % keep]); if (i + 1 == n) { for (auto &x : copies) if (!x.connected()) fail(T(15), "a copy of a handle is not connected"); s.disconnect_all_slots(); for (auto &x : copies) if (x.connected()) fail(T(4, 15), "a copy of a handle is connected"); } }
      else { bs::shared_connection_block b(c[i % keep]); if (!(i & 7) && s(7) != sum - (i % keep + 1)) fail(T(5), "round %d: blocked slot", i); }
    }
    if (mode == 2 && !n) s.disconnect_all_slots();
    long long on = mode == 2 ? 0 : keep;
    if (live_fn - base != on) fail(T(7), "%lld function objects after %d rounds, expected %lld", live_fn - base, n, on);
  }
  if (live_fn != base) fail(T(7), "%lld function objects left", live_fn - base);
}
// chains and fans of signals
static void chain() {
  int n = 1 + size_up_to(CFG_BIG ? 400 : 150), fan = R_->chance(1, 3) ? 1 : 0, calls = 0;
  tr("%d signals, fan %d", n, fan);
  stats().add("signals", n);
  typedef bs::signal<void(int)> S;
  vector<std::unique_ptr<S>> v;
  for (int i = 0; i <= n; ++i) v.push_back(std::unique_ptr<S>(new S));
  auto leaf = [&](int x) { if (x != 41) fail(T(1, 16), "the argument changed on its way through %d signals", n); ++calls; };
  if (fan) for (int i = 1; i <= n; ++i) { v[i]->connect(leaf); v[0]->connect(*v[i]); }
  else { v[n]->connect(leaf); for (int i = 0; i < n; ++i) v[i]->connect(*v[i + 1]); }
  (*v[0])(41);
  if (calls != (fan ? n : 1)) fail(T(16, 1), "%d signals: %d calls, expected %d", n, calls, fan ? n : 1);
  int k = 1 + R_->below(n);
  v[k].reset();
  calls = 0;
  (*v[0])(41);
  if (calls != (fan ? n - 1 : 0)) fail(T(16), "signal %d of %d is destroyed: %d calls", k, n, calls);
  if (!fan && v[k - 1]->num_slots()) fail(T(16, 4), "a slot of a destroyed signal is counted");
  if (fan && v[0]->num_slots() != size_t(n - 1)) fail(T(16, 4), "a slot of a destroyed signal is counted");
}
// many slots that go at once: expired, disconnected in an invocation, with the signal
static void mass_removal() {
  int n = size_up_to(CFG_BIG ? 5000 : 2000), how = R_->below(5);
  tr("%d slots removed in way %d", n, how);
  stats().add("removed_at_once", n);
  long long base = live_fn;
  std::unique_ptr<Sig> s(new Sig);
  arg_ = 3;
  boost::shared_ptr<int> o(new int(1));
  int first_calls = 0;
  Sig *raw = s.get();
  vector<bs::connection> c;
  s->connect([&](int) { ++first_calls;
    if (how == 0) o.reset();
    if (how == 1) for (auto &x : c) x.disconnect();
    if (how == 2) raw->disconnect_all_slots();
    if (how == 3) s.reset();
    return 0; });
  for (int i = 0; i < n; ++i) { Sig::slot_type sl((Fn(i))); sl.track(o); c.push_back(R_->chance(1, 2) ? s->connect(sl) : s->connect(i % 50, sl)); }
  log_.clear();
  (*raw)(3);
  // ungrouped back slots and groups all come after the first slot only if it was the front; grouped ones run before it
  if (how == 4) { if (log_.size() != size_t(n)) fail(T(1), "%zu of %d slots called", log_.size(), n); o.reset(); }
  if (s) {
    raw->num_slots();
    for (int i = 0; i < 3; ++i) (*raw)(3);
    size_t left = raw->num_slots(), want = how == 2 ? 0 : 1;
    if (left != want) fail(T(4, 6), "%zu slots left after the removal of %d, expected %zu", left, n, want);
  }
  if (live_fn != base) fail(T(7, 6), "%lld of %d function objects left after their removal", live_fn - base, n);
}
static void one_case(long long, uint64_t seed) {
  Rng rng(seed);
  R_ = &rng;
  live_fn = 0;
  Hash h;
  int k = rng.below(16);
  if (k < 5) many_slots(); else if (k < 7) many_tracked(); else if (k < 9) many_blocks(); else if (k < 12) nesting(); else if (k < 13) long_run(); else if (k < 14) chain(); else mass_removal();
  for (auto &x : ctx().trace) for (char ch : x) h.add(uint64_t(ch));
  h.add(rng.next());
  if (stats().distinct.insert(h.h).second) stats().add("distinct_nontrivial", 1);
  if (stats().samples.size() < 2 && ctx().trace.size()) { string t = "case:"; for (auto &y : ctx().trace) t += " | " + y; stats().samples.push_back(t); }
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("scale", a, one_case);
}
