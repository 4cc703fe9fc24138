// Concurrent engine: several threads (fibers under a deterministic scheduler, see fiber.hpp) run random operations on
// shared signals, connections, blocks and tracked objects through a monitored mutex type.  Everything they do and
// everything the library calls is recorded with a logical clock; the recorded history is then checked offline against
// the specification of atomic operations.  Races are left to ThreadSanitizer, memory errors to AddressSanitizer,
// deadlocks are detected exactly, locks held in user code are seen at every entry.
#include "fiber.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <algorithm>
#include <memory>
#include <thread>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;

typedef long long Time;
static const Time NEVER = 1LL << 60;
static Time g_clock;
static inline Time tick() { Ign g; return ++g_clock; }

// ---------------------------------------------------------------- recorded history
enum Kind { PLAIN, EXT, TRACK, SIGSLOT };
struct Call { int conn; Time w0, t0, t1; };
struct Emission {
  int impl, thread;
  Time es, ee, begin, scan_end; // begin: combiner entered (snapshot taken before)
  int comb;
  bool normal;
  vector<Call> calls;
};
struct Conn {
  Kind kind;
  int impl, section, group, key, target;
  bool front;
  vector<int> objs;
  Time cs, ce;
  std::atomic<int> ready;
  bs::connection handle;
  Conn() : ready(0) {}
};
enum DKind { D_CONN, D_GROUP, D_ALL, D_KEY, D_TARGET, D_SIG };
struct Disc { DKind k; int a, b; Time t0, t1; };
struct BlockIv { int conn; Time b0, b1, u0, u1; };
struct SetComb { int impl, id; Time t0, t1; };
enum QKind { Q_CONNECTED, Q_BLOCKED, Q_NUM, Q_EMPTY, Q_COMB };
struct Query { QKind k; int a; long v; Time t0, t1; };
struct ObjRec { Time last_drop_start; Time dead; int owners; };
struct ExtSeen { int conn; bs::connection c; };

enum { MAXC = 110, MAXO = 5, NSIG = 3, MAXT = 4 };
// user code the library calls with its mutex held; in some cases the scheduler may switch there
static bool g_fine;
static inline void fine() { bool f; { Ign g; f = g_fine; } if (f) yield(); }
struct MonComb;
static void slot_called(int id, const bs::connection *c, int a, int &r);
static void fn_final(int id);

struct FnBase {
  unsigned magic;
  int id, key;
  int *cell;
  FnBase(int i, int k);
  FnBase(const FnBase &o);
  ~FnBase();
  void check(const char *what) const {
    if (magic != 0xFACE || *cell != id) fail(T(7, 11, 22), "dead slot function %s", what);
  }
private:
  FnBase &operator=(const FnBase &);
};
struct Fn : FnBase {
  Fn(int i, int k) : FnBase(i, k) {}
  int operator()(int a, int &r) const;
  bool operator==(const Fn &o) const { int k = key; fine(); check("compared"); return k == o.key; }
};
struct FnX : FnBase {
  FnX(int i, int k) : FnBase(i, k) {}
  int operator()(const bs::connection &c, int a, int &r) const;
  bool operator==(const FnX &o) const { int k = key; fine(); check("compared"); return k == o.key; }
};
struct Tracked { int id; unsigned magic; explicit Tracked(int i) : id(i), magic(0x0B1) {} ~Tracked(); };

// a foreign shared pointer: other threads may run within lock() and expired()
struct YShared {
  std::shared_ptr<Tracked> p;
};
struct YWeak {
  std::weak_ptr<Tracked> w;
  YWeak() {}
  YWeak(const YShared &s) : w(s.p) {}
  YShared lock() const { fine(); YShared r; r.p = w.lock(); fine(); return r; }
  bool expired() const { fine(); bool e = w.expired(); fine(); return e; }
};
namespace boost { namespace signals2 {
  template <> struct weak_ptr_traits<YWeak> { typedef YShared shared_type; };
  template <> struct shared_ptr_traits<YShared> { typedef YWeak weak_type; };
} }
struct YLess { bool operator()(int a, int b) const { fine(); return a < b; } };
static void comb_check(int id, unsigned magic);
struct MonComb {
  typedef int result_type;
  unsigned magic;
  int impl, id;
  MonComb(int im = -1, int i = -1) : magic(0xC0B), impl(im), id(i) {}
  MonComb(const MonComb &o) : magic(0xC0B), impl(o.impl), id(o.id) {
    comb_check(id, o.magic);
    if (id >= 0) fine();
    comb_check(id, o.magic);
    if (id != o.id) fail(T(10, 14, 11), "combiner replaced while it is being copied");
  }
  MonComb &operator=(const MonComb &o) { comb_check(o.id, o.magic); comb_check(id, magic); impl = o.impl; fine(); id = o.id; return *this; }
  ~MonComb() { comb_check(id, magic); magic = 0; }
  template <class It> int operator()(It first, It last) const;
};
static void comb_check(int, unsigned magic) { if (magic != 0xC0B) fail(T(14, 11, 22), "dead combiner used"); }

typedef int Signature(int, int &);
typedef bs::signal<Signature, MonComb, int, YLess, boost::function<Signature>, boost::function<int(const bs::connection &, int, int &)>, FMutex> Sig;
typedef Sig::slot_type Slot;
typedef Sig::extended_slot_type XSlot;

struct Thread {
  Rng rng;
  vector<int> stack; // emissions running in this thread (indices into W->em)
  vector<int> pending; // direct emissions whose combiner has not started
  boost::shared_ptr<Tracked> owned[MAXO];
  std::shared_ptr<Tracked> sowned[MAXO];
  std::unique_ptr<bs::shared_connection_block> block[3];
  int blockRec[3];
  std::unique_ptr<bs::scoped_connection> scoped[2];
  int scopedConn[2];
  int depth, budget, nconn;
  int *ref; // reference argument of the innermost invocation
  vector<int> mine;
};
struct World {
  std::unique_ptr<Sig> sig[NSIG];
  bool sigDestroyed;
  Conn conn[MAXC];
  int nconn;
  int alive[MAXC];
  vector<Emission> em;
  vector<Disc> disc;
  vector<BlockIv> blk;
  vector<SetComb> comb;
  vector<Query> q;
  ObjRec obj[MAXO];
  bool objStd[MAXO], objY[MAXO];
  int nobj;
  vector<ExtSeen> ext;
  Thread th[MAXT];
  int nth, nextComb;
  bool finished;
  vector<std::pair<Time, Time>> opiv; // outermost operations
  int ops;
};
static World *W;
static Thread &me() { return W->th[self() == MAXF ? 0 : self()]; }
static void lg(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void lg(const char *fmt, ...) {
  Ign g;
  char b[250];
  va_list ap;
  va_start(ap, fmt);
  int k = snprintf(b, sizeof b, "t=%lld T%d: ", g_clock, self() == MAXF ? -1 : self());
  vsnprintf(b + k, sizeof b - k, fmt, ap);
  va_end(ap);
  ctx().trace.push_back(b);
}

FnBase::FnBase(int i, int k) : magic(0xFACE), id(i), key(k), cell(new int(i)) { Ign g; if (id >= 0) ++W->alive[id]; }
FnBase::FnBase(const FnBase &o) : magic(0xFACE), id(o.id), key(o.key), cell(new int(o.id)) { o.check("copied"); Ign g; if (id >= 0) ++W->alive[id]; }
FnBase::~FnBase() {
  check("destroyed");
  magic = 0xDEAD;
  *cell = -7;
  delete cell;
  if (id >= 0) {
    bool fin;
    { Ign g; fin = --W->alive[id] == 0; }
    if (fin) fn_final(id);
  }
}
static void fn_final(int id) {
  if (held()) SOFT(T(9), "last copy of slot function %d destroyed while this thread holds %d library mutexes", id, held());
  { Ign g; stats().add("fn_final_destroyed"); }
  yield();
}
Tracked::~Tracked() {
  if (magic != 0x0B1) fail(T(6, 22), "tracked object destroyed twice");
  magic = 0;
  if (held()) SOFT(T(9), "tracked object %d destroyed while this thread holds %d library mutexes", id, held());
  { Ign g; W->obj[id].dead = ++g_clock; lg("object %d destroyed", id); stats().add("tracked_destroyed"); }
  yield();
}
int Fn::operator()(int a, int &r) const {
  check("called");
  slot_called(id, 0, a, r);
  check("alive at the end of its call");
  return id;
}
int FnX::operator()(const bs::connection &c, int a, int &r) const {
  check("called");
  slot_called(id, &c, a, r);
  check("alive at the end of its call");
  return id;
}
struct TestExc { int id; };

static void random_op();
struct CallExit { // records the end of a slot call also when it throws
  int em, call;
  ~CallExit() { Ign g; W->em[em].calls[call].t1 = ++g_clock; }
};
static void slot_called(int id, const bs::connection *c, int a, int &r) {
  if (held()) fail(T(9), "slot %d called while this thread holds %d library mutexes", id, held());
  Thread &t = me();
  CallExit ce;
  int nops = 0;
  bool thr = false, selfd = false;
  {
    Ign g;
    stats().add("slot_calls");
    if (t.stack.empty()) fail(T(1, 11), "slot called outside an invocation");
    Emission &e = W->em[t.stack.back()];
    ce.em = t.stack.back();
    if (e.calls.empty() || e.calls.back().t0 != 0) fail(T(14, 11), "slot called although the combiner did not ask for it");
    Call &k = e.calls.back();
    k.conn = id;
    k.t0 = ++g_clock;
    ce.call = e.calls.size() - 1;
    lg("emission %d: call conn %d", t.stack.back(), id);
    if (W->conn[id].impl != e.impl) fail(T(11, 16, 1), "slot %d of signal %d called by signal %d", id, W->conn[id].impl, e.impl);
    for (int o : W->conn[id].objs) if (W->obj[o].dead) fail(T(6, 11), "slot %d runs although tracked object %d is dead", id, o);
    if (t.budget > 0 && t.depth < 3 && t.rng.chance(1, 3)) nops = 1 + t.rng.below(2);
    thr = !W->finished && t.rng.chance(1, 40);
    selfd = !W->finished && c && t.rng.chance(1, 12);
  }
  if (a != 5 || &r != t.ref) fail(T(1, 11, 21), "slot received other arguments than those of its invocation");
  if (c) {
    if (*c == bs::connection()) fail(T(17, 11), "extended slot %d got a null connection", id);
    bs::connection copy(*c);
    { Ign g; ExtSeen x; x.conn = id; x.c = copy; W->ext.push_back(x); }
  }
  yield();
  ++t.depth;
  for (int i = 0; i < nops; ++i) random_op();
  --t.depth;
  {
    Ign g;
    for (int o : W->conn[id].objs) if (W->obj[o].dead) fail(T(6, 11), "tracked object %d died while slot %d was running", o, id);
  }
  if (selfd) {
    Disc d = {D_CONN, id, 0, tick(), 0};
    c->disconnect();
    d.t1 = tick();
    Ign g;
    W->disc.push_back(d);
    lg("conn %d disconnects itself", id);
  }
  yield();
  if (thr) { lg("conn %d throws", id); TestExc e = {id}; throw e; }
}

template <class It> int MonComb::operator()(It first, It last) const {
  if (magic != 0xC0B) fail(T(14, 11, 22), "dead combiner invoked");
  if (held()) fail(T(9), "combiner called while this thread holds a library mutex");
  Thread &t = me();
  int ei, myid = id;
  bool nested = false;
  Time w0;
  {
    Ign g;
    if (!t.pending.empty()) { ei = t.pending.back(); t.pending.pop_back(); if (W->em[ei].impl != impl) fail(T(11, 14, 16), "combiner of signal %d used by signal %d", impl, W->em[ei].impl); w0 = W->em[ei].es; }
    else {
      if (t.stack.empty()) fail(T(14, 11), "combiner called outside an invocation");
      // a signal connected as slot
      nested = true;
      Emission &p = W->em[t.stack.back()];
      if (p.calls.empty() || p.calls.back().t0 != 0) fail(T(16, 11), "signal slot called although the combiner did not ask for it");
      Call &k = p.calls.back();
      k.conn = -2 - impl;
      k.t0 = ++g_clock;
      Emission e;
      e.impl = impl; e.thread = self(); e.es = k.w0; e.ee = e.scan_end = NEVER; e.normal = false; e.begin = 0;
      ei = W->em.size();
      w0 = k.w0;
      W->em.push_back(e);
      lg("emission %d: calls signal %d as slot: emission %d", t.stack.back(), impl, ei);
    }
    W->em[ei].begin = ++g_clock;
    W->em[ei].comb = id;
    t.stack.push_back(ei);
  }
  struct Pop {
    Thread &t; int ei; bool nested;
    ~Pop() {
      Ign g;
      t.stack.pop_back();
      if (nested) { W->em[ei].ee = ++g_clock; Emission &p = W->em[t.stack.back()]; p.calls.back().t1 = g_clock; }
    }
  } pop = {t, ei, nested};
  int last_id = -1, n = 0;
  while (first != last) {
    { Ign g; Call k = {-1, w0, 0, 0}; W->em[ei].calls.push_back(k); }
    try {
      int r = *first;
      Ign g;
      Call &k = W->em[ei].calls.back();
      if (k.t0 == 0) fail(T(14, 1, 11), "dereferencing called no slot");
      if (k.conn >= 0 && r != k.conn) fail(T(14, 1, 11), "dereferencing returns %d, slot returned %d", r, k.conn);
      last_id = r;
      (void)last_id;
    } catch (const bs::expired_slot &) {
      Ign g;
      // the target of a signal slot, or a slot it contains, has expired: the call did not take place
      if (W->em[ei].calls.back().t0 == 0) W->em[ei].calls.pop_back();
    }
    if (magic != 0xC0B || id != myid) fail(T(14, 11), "combiner replaced while it is running");
    if (held()) fail(T(9), "library mutex held while a combiner runs");
    yield();
    w0 = tick();
    ++first;
    ++n;
  }
  { Ign g; W->em[ei].scan_end = ++g_clock; W->em[ei].normal = true; }
  return n;
}

// ---------------------------------------------------------------- operations
static void do_emit(int s) {
  Thread &t = me();
  int ei;
  {
    Ign g;
    Emission e;
    e.impl = s; e.thread = self(); e.es = ++g_clock; e.ee = e.scan_end = NEVER; e.begin = 0; e.comb = -1; e.normal = false;
    ei = W->em.size();
    W->em.push_back(e);
    t.pending.push_back(ei);
    lg("emission %d of signal %d starts", ei, s);
    stats().add("emissions");
  }
  size_t depth = t.stack.size();
  int r = 0;
  int *oldref = t.ref;
  t.ref = &r;
  bool exc = false;
  try { (*W->sig[s])(5, r); } catch (const TestExc &) { exc = true; }
  t.ref = oldref;
  Ign g;
  if (t.stack.size() != depth) fail(T(11), "harness: emission stack");
  if (!t.pending.empty() && t.pending.back() == ei) fail(T(11, 14), "invocation did not call the combiner");
  Emission &e = W->em[ei];
  e.ee = ++g_clock;
  if (!exc && !e.normal) fail(T(11, 14, 12), "invocation ended without its combiner ending");
  lg("emission %d ends%s", ei, exc ? " by exception" : "");
}
static int do_connect(int s, Kind kind, int section, int group, bool front, int key, vector<int> objs, int target) {
  int id;
  {
    Ign g;
    if (W->nconn >= MAXC) return -1;
    id = W->nconn++;
    Conn &c = W->conn[id];
    c.kind = kind; c.impl = s; c.section = section; c.group = group; c.front = front; c.key = key; c.objs = objs; c.target = target;
    c.ce = NEVER;
  }
  Conn &c = W->conn[id];
  bs::connect_position pos = front ? bs::at_front : bs::at_back;
  Sig &sg = *W->sig[s];
  bs::connection h;
  if (kind == EXT) {
    XSlot x(FnX(id, key));
    { Ign g; c.cs = ++g_clock; lg("connect conn %d ext signal %d section %d group %d %s", id, s, section, group, front ? "front" : "back"); }
    h = section == 1 ? sg.connect_extended(group, x, pos) : sg.connect_extended(x, pos);
  } else if (kind == SIGSLOT) {
    Slot x(*W->sig[target]);
    { Ign g; c.cs = ++g_clock; lg("connect conn %d signal slot signal %d to %d section %d group %d %s", id, s, target, section, group, front ? "front" : "back"); }
    h = section == 1 ? sg.connect(group, x, pos) : sg.connect(x, pos);
  } else {
    Slot x((Fn(id, key)));
    Thread &t = me();
    for (int o : objs) { if (t.owned[o]) x.track(t.owned[o]); else if (W->objY[o]) { YShared y; y.p = t.sowned[o]; x.track_foreign(y); } else x.track_foreign(t.sowned[o]); }
    { Ign g; c.cs = ++g_clock; lg("connect conn %d signal %d section %d group %d %s tracks %zu", id, s, section, group, front ? "front" : "back", objs.size()); }
    h = section == 1 ? sg.connect(group, x, pos) : sg.connect(x, pos);
  }
  c.handle = h;
  { Ign g; c.ce = ++g_clock; lg("connected conn %d", id); stats().add("connects"); me().mine.push_back(id); }
  c.ready.store(1, std::memory_order_release);
  return id;
}
static int pick_conn() {
  Thread &t = me();
  int n, k;
  { Ign g; n = W->nconn; k = n ? t.rng.below(n) : 0; if (!t.mine.empty() && t.rng.chance(1, 3)) k = t.mine[t.rng.below(t.mine.size())]; }
  if (n == 0) return -1;
  if (!W->conn[k].ready.load(std::memory_order_acquire)) return -1;
  return k;
}
static void op_connect() {
  Thread &t = me();
  Kind kind; int s, section, group, key; bool front; vector<int> objs;
  {
    Ign g;
    if (t.nconn >= 12) return;
    ++t.nconn;
    unsigned k = t.rng.below(10);
    kind = k < 5 ? PLAIN : k < 7 ? EXT : TRACK;
    s = t.rng.below(2);
    section = t.rng.below(3);
    front = section == 0 || (section == 1 && t.rng.chance(1, 2));
    group = t.rng.below(3);
    key = t.rng.below(3);
    if (kind == TRACK) {
      for (int o = 0; o < W->nobj; ++o) if ((t.owned[o] || t.sowned[o]) && t.rng.chance(1, 2)) objs.push_back(o);
      if (objs.empty()) kind = PLAIN;
    }
  }
  do_connect(s, kind, section, group, front, key, objs, -1);
}
static void run_disc(DKind k, int a, int b) {
  Disc d = {k, a, b, tick(), 0};
  lg("disconnect kind %d %d %d", k, a, b);
  switch (k) {
    case D_CONN: { bs::connection h(W->conn[a].handle); h.disconnect(); break; }
    case D_GROUP: W->sig[a]->disconnect(b); break;
    case D_ALL: W->sig[a]->disconnect_all_slots(); break;
    case D_KEY: { if (b < 10) { Fn f(-1, b); W->sig[a]->disconnect(f); } else { FnX f(-1, b - 10); W->sig[a]->disconnect(f); } break; }
    case D_TARGET: W->sig[a]->disconnect(*W->sig[b]); break;
    case D_SIG: { W->sig[a].reset(); break; }
  }
  Ign g;
  d.t1 = ++g_clock;
  W->disc.push_back(d);
  lg("disconnect kind %d %d %d done", k, a, b);
  stats().add("disconnect_ops");
}
static void end_block(int slot) {
  Ign g;
  Thread &t = me();
  if (t.blockRec[slot] >= 0) { W->blk[t.blockRec[slot]].u1 = ++g_clock; t.blockRec[slot] = -1; lg("block slot %d released", slot); }
}
static void begin_unblock(int slot) {
  Ign g;
  Thread &t = me();
  if (t.blockRec[slot] >= 0) { W->blk[t.blockRec[slot]].u0 = ++g_clock; lg("block slot %d releasing (conn %d)", slot, W->blk[t.blockRec[slot]].conn); }
}
static void random_op() {
  Thread &t = me();
  unsigned k;
  int s;
  { Ign g; if (t.budget-- <= 0) return; k = t.rng.below(100); s = t.rng.below(2); ++W->ops; }
  yield();
  if (held()) fail(T(9, 20), "thread holds a library mutex between operations");
  if (k < 24) { op_connect(); }
  else if (k < 46) { if (t.depth < 2) do_emit(s); }
  else if (k < 60) { int c = pick_conn(); if (c >= 0) run_disc(D_CONN, c, 0); }
  else if (k < 63) run_disc(D_GROUP, s, t.rng.below(3));
  else if (k < 64) run_disc(D_ALL, s, 0);
  else if (k < 68) run_disc(D_KEY, s, t.rng.below(3) + (t.rng.chance(1, 3) ? 10 : 0));
  else if (k < 78) { // blocks
    int b = t.rng.below(3);
    if (!t.block[b]) {
      int c = pick_conn();
      if (c < 0) return;
      BlockIv iv = {c, tick(), NEVER, NEVER, NEVER};
      lg("block slot %d on conn %d", b, c);
      { Ign g; t.blockRec[b] = W->blk.size(); W->blk.push_back(iv); }
      bs::connection h(W->conn[c].handle);
      bs::shared_connection_block *p = new bs::shared_connection_block(h);
      Ign g;
      t.block[b].reset(p);
      W->blk[t.blockRec[b]].b1 = ++g_clock;
      lg("block slot %d on conn %d done", b, c);
      stats().add("blocks");
      if (!p->blocking()) fail(T(5), "new block is not blocking");
    } else if (t.rng.chance(1, 2)) {
      begin_unblock(b);
      t.block[b]->unblock();
      end_block(b);
      t.block[b].reset();
    } else {
      begin_unblock(b);
      t.block[b].reset();
      end_block(b);
    }
  } else if (k < 83) { // drop the ownership of a tracked object
    int o = t.rng.below(MAXO);
    if (!t.owned[o] && !t.sowned[o]) return;
    { Ign g; if (--W->obj[o].owners == 0) W->obj[o].last_drop_start = ++g_clock; lg("drops object %d (%d owners left)", o, W->obj[o].owners); }
    t.owned[o].reset();
    t.sowned[o].reset();
  } else if (k < 87) {
    int c = pick_conn();
    if (c < 0) return;
    bs::connection h(W->conn[c].handle);
    Query q = {Q_CONNECTED, c, 0, tick(), 0};
    q.v = h.connected();
    q.t1 = tick();
    Ign g;
    W->q.push_back(q);
    lg("connected(conn %d)=%ld since t=%lld", c, q.v, q.t0);
  } else if (k < 90) {
    int c = pick_conn();
    if (c < 0) return;
    bs::connection h(W->conn[c].handle);
    Query q = {Q_BLOCKED, c, 0, tick(), 0};
    q.v = h.blocked();
    q.t1 = tick();
    Ign g;
    W->q.push_back(q);
    lg("blocked(conn %d)=%ld since t=%lld", c, q.v, q.t0);
  } else if (k < 94) {
    bool e = t.rng.chance(1, 3);
    Query q = {e ? Q_EMPTY : Q_NUM, s, 0, tick(), 0};
    q.v = e ? long(W->sig[s]->empty()) : long(W->sig[s]->num_slots());
    q.t1 = tick();
    Ign g;
    W->q.push_back(q);
    lg("%s(%d)=%ld since t=%lld", e ? "empty" : "num_slots", s, q.v, q.t0);
  } else if (k < 96) {
    SetComb c = {s, 0, 0, 0};
    { Ign g; c.id = W->nextComb++; }
    MonComb m(s, c.id);
    c.t0 = tick();
    size_t idx;
    { Ign g; c.t1 = NEVER; idx = W->comb.size(); W->comb.push_back(c); lg("set combiner %d of signal %d", c.id, s); }
    W->sig[s]->set_combiner(m);
    Ign g;
    W->comb[idx].t1 = ++g_clock;
    lg("set combiner %d of signal %d done", c.id, s);
  } else if (k < 97) {
    Query q = {Q_COMB, s, 0, tick(), 0};
    q.v = W->sig[s]->combiner().id;
    q.t1 = tick();
    Ign g;
    W->q.push_back(q);
  } else if (k < 99) {
    int b = t.rng.below(2);
    if (!t.scoped[b]) {
      int c = pick_conn();
      if (c < 0) return;
      bs::connection h(W->conn[c].handle);
      t.scoped[b].reset(new bs::scoped_connection(h));
      t.scopedConn[b] = c;
    } else {
      Disc d = {D_CONN, t.scopedConn[b], 0, tick(), 0};
      lg("scoped connection of conn %d goes", d.a);
      t.scoped[b].reset();
      d.t1 = tick();
      Ign g;
      W->disc.push_back(d);
    }
  } else if (self() == 0 && t.stack.empty() && t.depth == 0) { // thread 0 owns signal 2
    if (W->sig[2]) {
      if (t.rng.chance(1, 2)) { { Ign g; W->sigDestroyed = true; } run_disc(D_SIG, 2, 0); }
      else run_disc(D_TARGET, 0, 2);
    }
  }
  if (held()) fail(T(9, 20), "thread holds a library mutex after an operation");
}
static void thread_main(int i) {
  Thread &t = W->th[i];
  yield();
  while (t.budget > 0) {
    size_t k;
    { Ign g; k = W->opiv.size(); W->opiv.push_back(std::make_pair(++g_clock, NEVER)); }
    random_op();
    { Ign g; W->opiv[k].second = ++g_clock; }
  }
  // release what this thread owns
  for (int b = 0; b < 3; ++b) if (t.block[b] && t.rng.chance(1, 2)) { begin_unblock(b); t.block[b].reset(); end_block(b); }
}

// ---------------------------------------------------------------- offline history checker
static bool covers(const Disc &d, int ci, bool definitely) {
  const Conn &c = W->conn[ci];
  bool late = definitely ? c.ce > d.t0 : c.cs >= d.t1;
  switch (d.k) {
    case D_CONN: return d.a == ci;
    case D_GROUP: return !late && c.impl == d.a && c.section == 1 && c.group == d.b;
    case D_ALL: return !late && c.impl == d.a;
    case D_KEY: return !late && c.impl == d.a && c.kind != SIGSLOT && c.key == d.b % 10 && (c.kind == EXT) == (d.b >= 10);
    case D_TARGET: return !late && c.impl == d.a && c.kind == SIGSLOT && c.target == d.b;
    case D_SIG: return c.impl == d.a || (c.kind == SIGSLOT && c.target == d.a);
  }
  return false;
}
static Time g_ds[MAXC], g_dd[MAXC], g_xs[MAXC], g_xd[MAXC]; // disconnect: earliest possible start, definite; expiry: same
static bool blockedDef(int c, Time a, Time b) {
  for (auto &v : W->blk) if (v.conn == c && v.b1 <= a && v.u0 >= b) return true;
  return false;
}
static bool blockedMaybe(int c, Time a, Time b) {
  for (auto &v : W->blk) if (v.conn == c && v.b0 <= b && v.u1 >= a) return true;
  return false;
}
static bool defConnected(int c, Time a, Time b) { return W->conn[c].ce <= a && g_ds[c] > b && g_xs[c] > b; }
static bool defDisconnected(int c, Time a) { return g_dd[c] <= a || g_xd[c] <= a; } // from a on
static Tags ctags(int c) {
  const Conn &k = W->conn[c];
  Tags t = T(11);
  if (!k.objs.empty()) t |= T(6);
  if (k.kind == EXT) t |= T(17);
  if (k.kind == SIGSLOT) t |= T(16);
  return t;
}
static int defBefore(int x, int y) { // 1: x must run before y, -1: after, 0: unknown
  const Conn &a = W->conn[x], &b = W->conn[y];
  if (a.section != b.section) return a.section < b.section ? 1 : -1;
  if (a.section == 1 && a.group != b.group) return a.group < b.group ? 1 : -1;
  if (a.front && !b.front) return 1;
  if (!a.front && b.front) return -1;
  if (a.ce < b.cs) return b.front ? -1 : 1;
  if (b.ce < a.cs) return a.front ? 1 : -1;
  return 0;
}
static void check_history() {
  World &w = *W;
  int n = w.nconn;
  for (int c = 0; c < n; ++c) {
    g_ds[c] = g_dd[c] = g_xs[c] = g_xd[c] = NEVER;
    for (auto &d : w.disc) {
      if (covers(d, c, false)) g_ds[c] = std::min(g_ds[c], d.t0);
      if (covers(d, c, true)) {
        Time t1 = d.t1;
        if (d.k == D_SIG) // a running invocation keeps the signal's implementation until it ends
          for (bool again = true; again;) {
            again = false;
            for (auto &e : w.em) if (e.es <= t1 && e.ee > t1) { t1 = e.ee; again = true; }
            for (auto &o : w.opiv) if (o.first <= t1 && o.second > t1) { t1 = o.second; again = true; } // so does an operation that looks at the signal slot
          }
        g_dd[c] = std::min(g_dd[c], t1);
      }
    }
    for (int o : w.conn[c].objs) {
      g_xs[c] = std::min(g_xs[c], w.obj[o].last_drop_start);
      if (w.obj[o].dead) g_xd[c] = std::min(g_xd[c], w.obj[o].dead);
    }
  }
  std::set<std::pair<int, int>> order;
  for (size_t ei = 0; ei < w.em.size(); ++ei) {
    Emission &e = w.em[ei];
    vector<int> seq;
    for (auto &k : e.calls) {
      if (k.t0 == 0) { if (e.normal) fail(T(11, 14), "emission %zu: a call never happened", ei); continue; }
      int c = k.conn;
      if (c <= -2) { // signal slot: find its connection
        int target = -2 - c, found = -1;
        for (int x = 0; x < n; ++x) if (w.conn[x].kind == SIGSLOT && w.conn[x].impl == e.impl && w.conn[x].target == target) found = x;
        if (found < 0) fail(T(16, 11), "emission %zu calls signal %d which is not connected to signal %d", ei, target, e.impl);
        c = found;
      }
      stats().add("calls_checked");
      if (std::find(seq.begin(), seq.end(), c) != seq.end()) fail(T(1) | ctags(c), "emission %zu calls conn %d twice", ei, c);
      seq.push_back(c);
      if (w.conn[c].cs > e.begin) fail(T(3) | ctags(c), "emission %zu (snapshot before t=%lld) calls conn %d whose connect started at t=%lld", ei, e.begin, c, w.conn[c].cs);
      if (g_dd[c] <= k.w0) fail(T(4) | ctags(c), "emission %zu calls conn %d at t=%lld, disconnected since t=%lld, previous slot left at t=%lld", ei, c, k.t0, g_dd[c], k.w0);
      if (g_xd[c] <= k.w0) fail(T(6) | ctags(c), "emission %zu calls conn %d at t=%lld, tracked object expired at t=%lld, previous slot left at t=%lld", ei, c, k.t0, g_xd[c], k.w0);
      if (blockedDef(c, k.w0, k.t0)) fail(T(5) | ctags(c), "emission %zu calls conn %d at t=%lld which is blocked since before t=%lld", ei, c, k.t0, k.w0);
    }
    for (size_t i = 0; i < seq.size(); ++i)
      for (size_t j = i + 1; j < seq.size(); ++j) {
        if (defBefore(seq[i], seq[j]) < 0) fail(T(2) | ctags(seq[i]) | ctags(seq[j]), "emission %zu calls conn %d before conn %d", ei, seq[i], seq[j]);
        order.insert(std::make_pair(seq[i], seq[j]));
        stats().add("order_pairs");
      }
    if (e.normal)
      for (int c = 0; c < n; ++c)
        if (w.conn[c].impl == e.impl && defConnected(c, e.es, e.scan_end) && !blockedMaybe(c, e.es, e.scan_end) && !(w.conn[c].kind == SIGSLOT && (w.sigDestroyed && w.conn[c].target == 2))) {
          stats().add("must_call_checked");
          if (std::find(seq.begin(), seq.end(), c) == seq.end()) {
            Tags t = T(1) | ctags(c);
            for (auto &v : w.blk) if (v.conn == c) t |= T(5);
            for (auto &x : w.em) if (&x != &e && x.impl == e.impl && x.es < e.ee && x.ee > e.es) t |= T(3);
            fail(t, "emission %zu of signal %d [t=%lld..%lld] did not call conn %d connected since t=%lld", ei, e.impl, e.es, e.scan_end, c, w.conn[c].ce);
          }
        }
    // combiner
    if (e.begin) {
      const SetComb *mine = 0;
      for (auto &s : w.comb) if (s.impl == e.impl && s.id == e.comb) mine = &s;
      if (!mine) fail(T(14, 11), "emission %zu uses a combiner never set on its signal", ei);
      if (mine->t0 > e.begin) fail(T(14, 11), "emission %zu uses a combiner set later", ei);
      for (auto &s : w.comb) if (s.impl == e.impl && s.t0 > mine->t1 && s.t1 < e.es) fail(T(14, 11), "emission %zu uses combiner %d, which had been replaced by %d", ei, mine->id, s.id);
    }
  }
  for (auto &p : order) if (order.count(std::make_pair(p.second, p.first))) fail(T(2, 11), "invocations disagree about the order of conns %d and %d", p.first, p.second);
  for (auto &q : w.q) {
    stats().add("queries_checked");
    if (q.k == Q_CONNECTED) {
      if (q.v && defDisconnected(q.a, q.t0)) fail(T(4, 15) | ctags(q.a), "connected(conn %d) true at t=%lld..%lld although disconnected", q.a, q.t0, q.t1);
      if (!q.v && defConnected(q.a, q.t0, q.t1) && !(w.sigDestroyed && W->conn[q.a].target == 2)) fail(T(4, 15) | ctags(q.a), "connected(conn %d) false at t=%lld..%lld although connected", q.a, q.t0, q.t1);
    } else if (q.k == Q_BLOCKED) {
      if (q.v && defConnected(q.a, q.t0, q.t1) && !blockedMaybe(q.a, q.t0, q.t1) && !(w.sigDestroyed && W->conn[q.a].target == 2)) fail(T(5) | ctags(q.a), "blocked(conn %d) true at t=%lld..%lld although neither blocked nor disconnected", q.a, q.t0, q.t1);
      if (!q.v && (blockedDef(q.a, q.t0, q.t1) || defDisconnected(q.a, q.t0))) fail(T(5) | ctags(q.a), "blocked(conn %d) false at t=%lld..%lld although it is", q.a, q.t0, q.t1);
    } else if (q.k == Q_NUM || q.k == Q_EMPTY) {
      long lo = 0, hi = 0;
      Tags t = T(4, 11);
      for (int c = 0; c < n; ++c)
        if (w.conn[c].impl == q.a) {
          if (defConnected(c, q.t0, q.t1) && !(w.sigDestroyed && w.conn[c].target == 2)) { ++lo; t |= ctags(c); }
          if (w.conn[c].cs < q.t1 && !defDisconnected(c, q.t0)) { ++hi; }
        }
      if (q.k == Q_NUM && (q.v < lo || q.v > hi)) fail(t, "num_slots() of signal %d at t=%lld..%lld is %ld, must be %ld..%ld", q.a, q.t0, q.t1, q.v, lo, hi);
      if (q.k == Q_EMPTY && (q.v ? lo > 0 : hi == 0)) fail(t, "empty() of signal %d at t=%lld..%lld is %ld with %ld..%ld slots", q.a, q.t0, q.t1, q.v, lo, hi);
    } else {
      const SetComb *mine = 0;
      for (auto &s : w.comb) if (s.impl == q.a && s.id == q.v) mine = &s;
      if (!mine || mine->t0 > q.t1) fail(T(14, 11), "combiner() returns a combiner never set");
      for (auto &s : w.comb) if (s.impl == q.a && s.t0 > mine->t1 && s.t1 < q.t0) fail(T(14, 11), "combiner() returns a combiner that had been replaced");
    }
  }
  for (auto &x : w.ext)
    if (w.conn[x.conn].ce != NEVER && !(x.c == w.conn[x.conn].handle)) fail(T(17, 11), "extended slot %d got another connection than its own", x.conn);
}
static void final_state() {
  World &w = *W;
  int n = w.nconn;
  w.finished = true;
  for (int s = 0; s < NSIG; ++s) {
    if (!w.sig[s]) continue;
    std::set<int> conn;
    for (int c = 0; c < n; ++c)
      if (w.conn[c].impl == s) {
        bool k = w.conn[c].handle.connected();
        if (k && defDisconnected(c, g_clock)) fail(T(4) | ctags(c), "at the end conn %d is connected although it was disconnected", c);
        if (!k && defConnected(c, g_clock, g_clock) && !(w.sigDestroyed && w.conn[c].target == 2)) fail(T(4) | ctags(c), "at the end conn %d is not connected although nothing disconnected it", c);
        if (k) conn.insert(c);
        if (!k && w.conn[c].kind != SIGSLOT && w.alive[c] != 0) fail(T(7) | ctags(c), "slot function of conn %d still alive although disconnected and idle", c);
        if (k && w.conn[c].kind != SIGSLOT && w.alive[c] <= 0) fail(T(7) | ctags(c), "slot function of connected conn %d is gone", c);
      }
    if (w.sig[s]->num_slots() != conn.size()) fail(T(4, 11), "at the end num_slots() of signal %d is %zu, %zu connections are connected", s, w.sig[s]->num_slots(), conn.size());
    do_emit(s);
    // (checked with the whole history)
  }
}

static void one_case(long long cno, uint64_t seed) {
  W = new World;
  World &w = *W;
  g_clock = 0;
  Rng r(seed);
  g_fine = r.chance(1, 2);
  w.nconn = 0; w.nextComb = 0; w.sigDestroyed = false; w.finished = false; w.ops = 0;
  memset(w.alive, 0, sizeof w.alive);
  w.nth = 2 + r.below(MAXT - 1);
  w.nobj = 1 + r.below(MAXO);
  for (int i = 0; i < MAXT; ++i) {
    Thread &t = w.th[i];
    t.rng.reseed(seed * 31 + i);
    t.depth = 0; t.nconn = 0; t.ref = 0;
    t.budget = 1000000;
    for (int b = 0; b < 3; ++b) t.blockRec[b] = -1;
    for (int b = 0; b < 2; ++b) t.scopedConn[b] = -1;
  }
  for (int s = 0; s < NSIG; ++s) {
    SetComb c = {s, w.nextComb++, tick(), 0};
    w.sig[s].reset(new Sig(MonComb(s, c.id)));
    c.t1 = tick();
    w.comb.push_back(c);
  }
  for (int o = 0; o < w.nobj; ++o) {
    w.obj[o].last_drop_start = NEVER; w.obj[o].dead = 0;
    w.objStd[o] = r.chance(1, 2);
    w.objY[o] = r.chance(2, 3);
    boost::shared_ptr<Tracked> b;
    std::shared_ptr<Tracked> s;
    if (w.objStd[o]) s = std::make_shared<Tracked>(o); else b.reset(new Tracked(o));
    // owned by a few threads
    int owners = 0;
    for (int i = 0; i < w.nth; ++i) if (r.chance(1, 2) || (i == w.nth - 1 && !owners)) { w.th[i].owned[o] = b; w.th[i].sowned[o] = s; ++owners; }
    w.obj[o].owners = owners;
  }
  for (int o = w.nobj; o < MAXO; ++o) { w.obj[o].last_drop_start = NEVER; w.obj[o].dead = 0; w.obj[o].owners = 0; }
  int init = r.below(7);
  for (int i = 0; i < init; ++i) op_connect();
  if (r.chance(1, 2)) { vector<int> none; do_connect(2, PLAIN, 2, 0, false, 9, none, -1); if (r.chance(1, 2)) do_connect(2, EXT, 0, 0, true, 9, none, -1); int sec = r.below(3); do_connect(0, SIGSLOT, sec, 1, sec == 0 || (sec == 1 && r.chance(1, 2)), 9, none, 2); }
  if (r.chance(1, 3)) { // dead slots at the beginning, to provoke cleanup
    int k = r.below(3);
    for (int i = 0; i < k && w.nconn; ++i) run_disc(D_CONN, r.below(w.nconn), 0);
  }
  int per = 2 + r.below(9);
  for (int i = 0; i < MAXT; ++i) { w.th[i].budget = per; w.th[i].nconn = 0; }
  vector<std::function<void()>> bodies;
  for (int i = 0; i < w.nth; ++i) bodies.push_back([i] { thread_main(i); });
  tr("threads start");
  run_fibers(bodies, seed);
  for (int i = 0; i < MAXT; ++i) { w.th[i].budget = 0; if (!w.th[i].stack.empty() || !w.th[i].pending.empty()) fail(T(11), "harness: stack"); }
  // end state, then the whole history
  check_history();
  final_state();
  check_history();
  Hash h;
  h.add(S().hash); h.add(w.ops); h.add(w.em.size());
  long nc = 0;
  for (auto &e : w.em) { nc += e.calls.size(); for (auto &k : e.calls) h.add(k.conn * 7 + k.t0); }
  if (nc >= 2 && S().step > 10 && stats().distinct.insert(h.h).second) stats().add("distinct_nontrivial");
  stats().add("operations", w.ops);
  stats().add("history_events", g_clock);
  if (stats().samples.size() < 1 && nc > 4) {
    string s = "case " + std::to_string(cno) + " (" + std::to_string(w.nth) + " threads): ";
    for (size_t i = 0; i < ctx().trace.size() && i < 40; ++i) s += ctx().trace[i] + "; ";
    stats().samples.push_back(s);
  }
  // teardown in random order
  unsigned o = r.below(4);
  for (int k = 0; k < 4; ++k)
    switch ((o + k) % 4) {
      case 0: for (int s = 0; s < NSIG; ++s) w.sig[s].reset(); break;
      case 1: for (int i = 0; i < MAXT; ++i) for (int b = 0; b < 3; ++b) w.th[i].block[b].reset(); break;
      case 2: for (int i = 0; i < MAXT; ++i) for (int x = 0; x < MAXO; ++x) { w.th[i].owned[x].reset(); w.th[i].sowned[x].reset(); } break;
      case 3: for (int i = 0; i < MAXT; ++i) for (int b = 0; b < 2; ++b) w.th[i].scoped[b].reset(); break;
    }
  for (int c = 0; c < w.nconn; ++c) if (w.alive[c] != 0) fail(T(7, 22), "%d copies of slot function %d leaked", w.alive[c], c);
  for (int x = 0; x < w.nobj; ++x) if (!w.obj[x].dead) fail(T(6, 7, 22), "tracked object %d leaked", x);
  w.ext.clear();
  for (int c = 0; c < w.nconn; ++c) w.conn[c].handle = bs::connection();
  if (FMutex::live() != 0) fail(T(20, 22), "%ld mutexes leaked", FMutex::live());
  delete W;
  W = 0;
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  std::thread([] {}).join(); // libstdc++ uses plain reference counts until a thread has been started
  return run_cases("sched", a, one_case);
}
