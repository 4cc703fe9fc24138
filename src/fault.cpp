// Fault enumeration: a random small world is built twice over and one operation on it is run (idle or from inside a slot
// that is being called); then the world is rebuilt for every fault point of that operation (every allocation, every copy
// of a slot function, group or combiner, every comparison, every slot or combiner call) and exactly that point throws.
// The state observed afterwards is compared with the states observed without the operation and with the complete one.
#include "heap.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <exception>
#include <memory>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;
#ifndef CFG_RET_VOID
#define CFG_RET_VOID 0
#endif

// ---------------------------------------------------------------- user types
struct MonMutex {
  bool locked;
  static long live, held;
  MonMutex() : locked(false) { ++live; }
  ~MonMutex() { if (locked) fail(T(9, 12, 13, 20), "mutex destroyed while locked"); --live; }
  void lock() { if (locked) fail(T(9, 12, 13, 20), "mutex locked recursively (or left locked by a failed operation)"); locked = true; ++held; }
  bool try_lock() { if (locked) return false; lock(); return true; }
  void unlock() { if (!locked) fail(T(9, 20), "unlock of an unlocked mutex"); locked = false; --held; }
};
long MonMutex::live, MonMutex::held;

struct Grp {
  int v;
  unsigned magic;
  static long live;
  explicit Grp(int x) : v(x), magic(0xAB) { ++live; }
  Grp(const Grp &o) : v(o.v), magic(0xAB) { if (o.magic != 0xAB) fail(T(22, 13), "copy of a dead group"); fault_point(FK_GCOPY); ++live; }
  Grp &operator=(const Grp &o) { if (o.magic != 0xAB) fail(T(22, 13), "copy of a dead group"); fault_point(FK_GCOPY); v = o.v; return *this; }
  ~Grp() { if (magic != 0xAB) fail(T(22, 13), "group destroyed twice"); magic = 0; --live; }
};
long Grp::live;
struct GrpLess {
  bool operator()(const Grp &a, const Grp &b) const {
    if (a.magic != 0xAB || b.magic != 0xAB) fail(T(22, 13), "comparison of a dead group");
    fault_point(FK_COMPARE);
    return a.v < b.v;
  }
};

static vector<long> g_alive; // per connection id
static void slot_called(int id, const bs::connection *);
template <int N, bool Ext> struct Fn {
  int id;
  unsigned magic;
  char pad[N];
  explicit Fn(int i) : id(i), magic(0xF00D) { Disarm d; pad[0] = 0; count(1); }
  Fn(const Fn &o) : id(o.id), magic(0xF00D) {
    if (o.magic != 0xF00D) fail(T(7, 13, 22), "copy of a dead slot function");
    fault_point(FK_COPY);
    pad[0] = 0;
    count(1);
  }
  ~Fn() { if (magic != 0xF00D) fail(T(7, 13, 22), "slot function destroyed twice"); magic = 1; count(-1); }
  void count(int d) { if (id >= 0) { if (MonMutex::held) { if (d < 0 && g_alive[id] == 1) SOFT(T(9), "slot function destroyed under a library mutex"); } g_alive[id] += d; } }
  int operator()(int) const { if (magic != 0xF00D) fail(T(7, 22), "call of a dead slot function"); slot_called(id, 0); if (magic != 0xF00D) fail(T(7, 22), "slot function died during its call"); return id; }
  int operator()(const bs::connection &c, int) const { if (magic != 0xF00D) fail(T(7, 22), "call of a dead slot function"); slot_called(id, &c); if (magic != 0xF00D) fail(T(7, 22), "slot function died during its call"); return id; }
  bool operator==(const Fn &o) const { fault_point(FK_EQUAL); return id % 3 == o.id % 3; }
private:
  Fn &operator=(const Fn &);
};
typedef Fn<1, false> SmallFn;
typedef Fn<60, false> BigFn;
typedef Fn<60, true> ExtFn;

struct Comb {
  typedef int result_type;
  int id;
  bool catches;
  unsigned magic;
  static long live;
  Comb(int i = -1, bool c = false) : id(i), catches(c), magic(0xC0B) { ++live; }
  Comb(const Comb &o) : id(o.id), catches(o.catches), magic(0xC0B) { if (o.magic != 0xC0B) fail(T(14, 22), "copy of a dead combiner"); fault_point(FK_CCOPY); ++live; }
  Comb &operator=(const Comb &o) { if (o.magic != 0xC0B || magic != 0xC0B) fail(T(14, 22), "assignment of a dead combiner"); fault_point(FK_CCOPY); id = o.id; catches = o.catches; return *this; }
  ~Comb() { if (magic != 0xC0B) fail(T(14, 22), "combiner destroyed twice"); magic = 0; --live; }
  template <class It> int operator()(It f, It l) const;
};
long Comb::live;

struct Tracked { static long live; Tracked() { ++live; } ~Tracked() { if (MonMutex::held) SOFT(T(9), "tracked object destroyed under a library mutex"); --live; } };
long Tracked::live;

typedef bs::signal<int(int), Comb, Grp, GrpLess, boost::function<int(int)>, boost::function<int(const bs::connection &, int)>, MonMutex> Sig;
typedef Sig::slot_type Slot;
typedef Sig::extended_slot_type XSlot;

// ---------------------------------------------------------------- world
enum { SLOT_THROW_TAG = 77 };
struct UserExc { int id; long serial; };
static long g_serial;
struct C { int id, sig, kind; bs::connection h; }; // kind: 0 small 1 big 2 ext 3 tracking 4 signal slot
struct World {
  Rng rng;
  std::unique_ptr<Sig> sig[2];
  vector<C> conns;
  vector<boost::shared_ptr<Tracked> > objs;
  vector<std::shared_ptr<Tracked> > sobjs;
  vector<bs::shared_connection_block> blocks;
  std::unique_ptr<Slot> slot; // argument of the operation
  std::unique_ptr<XSlot> xslot;
  int slotKind;
  vector<int> calls;
  int nextComb;
  // hook: the operation runs inside this slot
  int hookConn, hookCount;
  bool hookOn, hookCatch;
  void (*hookOp)(World &, unsigned);
  bool opThrew, opRan;
  string opExc;
  // result of the operation
  bs::connection newConn;
  bool connected;
  explicit World(uint64_t s) : rng(s), slotKind(0), nextComb(1), hookConn(-1), hookCount(0), hookOn(false), hookCatch(true), hookOp(0), opThrew(false), opRan(false), connected(false) {}
};
static World *W;
static void run_op_here();
static void slot_called(int id, const bs::connection *c) {
  fault_point(FK_SLOT);
  Disarm d;
  W->calls.push_back(id);
  if (MonMutex::held) fail(T(9), "slot called under a library mutex");
  if (c && id < (int)W->conns.size() && W->conns[id].id == id && !(*c == W->conns[id].h) && W->conns[id].h != bs::connection()) fail(T(17), "extended slot got another connection");
  if (W->hookOn && id == W->hookConn && W->hookCount++ == 0) run_op_here();
}
template <class It> int Comb::operator()(It f, It l) const {
  fault_point(FK_COMB);
  int n = 0;
  for (; f != l; ++f) {
    if (magic != 0xC0B) fail(T(14, 22), "combiner died while running");
    if (catches) {
      try { n += *f; } catch (const Injected &) { ++n; }
    } else n += *f;
  }
  fault_point(FK_COMB);
  return n;
}

static bs::connection do_connect(Sig &s, World &w, int kind, int section, int group, bool front, int id, int target, int ntrack) {
  bs::connect_position pos = front ? bs::at_front : bs::at_back;
  if (kind == 2) {
    XSlot x((ExtFn(id)));
    return section == 1 ? s.connect_extended(Grp(group), x, pos) : s.connect_extended(x, pos);
  }
  Slot sl = kind == 4 ? Slot(*w.sig[target]) : kind == 0 ? Slot(SmallFn(id)) : Slot(BigFn(id));
  for (int i = 0; i < ntrack; ++i) { if (i % 3 == 2) sl.track_foreign(w.sobjs[i % w.sobjs.size()]); else sl.track(w.objs[i % w.objs.size()]); }
  return section == 1 ? s.connect(Grp(group), sl, pos) : s.connect(sl, pos);
}
static int add_conn(World &w, int sig) {
  C c;
  c.id = w.conns.size();
  c.sig = sig;
  unsigned k = w.rng.below(10);
  c.kind = k < 3 ? 0 : k < 6 ? 1 : k < 8 ? 2 : 3;
  int section = w.rng.below(3), group = w.rng.below(3);
  bool front = section == 0 || (section == 1 && w.rng.chance(1, 2));
  int nt = c.kind == 3 ? 1 + w.rng.below(w.rng.chance(1, 3) ? 14 : 3) : 0;
  w.conns.push_back(c);
  if (g_alive.size() < w.conns.size() + 4) g_alive.resize(w.conns.size() + 4);
  w.conns[c.id].h = do_connect(*w.sig[sig], w, c.kind, section, group, front, c.id, 0, nt);
  return c.id;
}
static void build(World &w) {
  int no = 2 + w.rng.below(12);
  for (int i = 0; i < no; ++i) w.objs.push_back(boost::make_shared<Tracked>());
  for (int i = 0; i < 3; ++i) w.sobjs.push_back(std::make_shared<Tracked>());
  bool two = w.rng.chance(1, 3);
  bool c0 = w.rng.chance(1, 3), c1 = w.rng.chance(1, 3);
  w.sig[0].reset(new Sig(Comb(w.nextComb++, c0)));
  if (two) w.sig[1].reset(new Sig(Comb(w.nextComb++, c1)));
  int n = w.rng.below(w.rng.chance(1, 5) ? 16 : 8);
  for (int i = 0; i < n; ++i) {
    add_conn(w, two && w.rng.chance(1, 4) ? 1 : 0);
    if (two && i == n / 2) {
      C c;
      c.id = w.conns.size(); c.sig = 0; c.kind = 4;
      w.conns.push_back(c);
      g_alive.resize(w.conns.size() + 4);
      int sec = w.rng.below(3);
      w.conns[c.id].h = do_connect(*w.sig[0], w, 4, sec, 1, sec == 0, c.id, 1, 0);
    }
    if (w.rng.chance(1, 6)) (*w.sig[0])(1);
    if (w.rng.chance(1, 4)) w.conns[w.rng.below(w.conns.size())].h.disconnect();
    if (w.rng.chance(1, 10)) w.objs[w.rng.below(w.objs.size())] = boost::make_shared<Tracked>(); // expire
    if (w.rng.chance(1, 6)) w.blocks.push_back(bs::shared_connection_block(w.conns[w.rng.below(w.conns.size())].h));
  }
}
// ---------------------------------------------------------------- operations
enum OpKind { O_CONNECT, O_EMIT, O_DISC, O_DISC_GROUP, O_DISC_ALL, O_DISC_FN, O_BLOCK, O_QUERY, O_SETCOMB, O_COMB, O_SLOT, O_NEWSIG, O_MOVE, O_EMIT_THROW, O_SCOPED, NOP };
static const char *opname[] = {"connect", "emit", "disconnect", "disconnect group", "disconnect all", "disconnect function", "block", "query", "set_combiner", "combiner", "slot", "new signal", "move signal", "emit with throwing user code", "scoped"};
struct Plan { OpKind kind; int a, b, c, d; bool nested, catches; int s; };
static Plan P;
static void run_op(World &w) {
  Sig &s = *w.sig[P.s];
  switch (P.kind) {
    case O_CONNECT: {
      bs::connect_position pos = P.a == 0 || (P.a == 1 && P.b) ? bs::at_front : bs::at_back;
      if (P.d == 0) { // a finished slot object
        if (w.xslot) w.newConn = P.a == 1 ? s.connect_extended(Grp(P.c), *w.xslot, pos) : s.connect_extended(*w.xslot, pos);
        else w.newConn = P.a == 1 ? s.connect(Grp(P.c), *w.slot, pos) : s.connect(*w.slot, pos);
      } else { // a function object
        int id = w.conns.size();
        if (w.xslot) w.newConn = P.a == 1 ? s.connect_extended(Grp(P.c), ExtFn(id), pos) : s.connect_extended(ExtFn(id), pos);
        else w.newConn = P.a == 1 ? s.connect(Grp(P.c), BigFn(id), pos) : s.connect(BigFn(id), pos);
      }
      w.connected = true;
      break;
    }
    case O_EMIT: case O_EMIT_THROW: s(3); break;
    case O_DISC: if (!w.conns.empty()) w.conns[P.a % w.conns.size()].h.disconnect(); break;
    case O_DISC_GROUP: s.disconnect(Grp(P.a % 3)); break;
    case O_DISC_ALL: s.disconnect_all_slots(); break;
    case O_DISC_FN: if (P.b == 0) { SmallFn f(P.a % 3 - 3); s.disconnect(f); } else if (P.b == 1) { BigFn f(P.a % 3 - 3); s.disconnect(f); } else if (P.b == 2) { ExtFn f(P.a % 3 - 3); s.disconnect(f); } else if (w.sig[1]) s.disconnect(*w.sig[1]); break;
    case O_BLOCK: if (!w.conns.empty()) { bs::shared_connection_block b(w.conns[P.a % w.conns.size()].h); Disarm d; w.blocks.push_back(b); } break;
    case O_QUERY: { volatile size_t n = s.num_slots(); (void)n; volatile bool e = s.empty(); (void)e; for (size_t i = 0; i < w.conns.size(); ++i) { volatile bool k = w.conns[i].h.connected(); (void)k; volatile bool b = w.conns[i].h.blocked(); (void)b; } break; }
    case O_SETCOMB: { Comb c(100, false); s.set_combiner(c); break; }
    case O_COMB: { Comb c(s.combiner()); if (c.magic != 0xC0B) fail(T(14), "bad combiner"); break; }
    case O_SLOT: {
      Slot a(*w.slot);
      for (int i = 0; i < P.a % 14; ++i) a.track(w.objs[i % w.objs.size()]);
      Slot b(a);
      b = *w.slot;
      b.track(a);
      a(3);
      bool x = a.expired(); (void)x;
      Slot::locked_container_type l = a.lock();
      break;
    }
    case O_NEWSIG: { Sig n(Comb(7, false)); n.connect(Grp(1), BigFn(-1)); n.connect(SmallFn(-1), bs::at_front); n.connect(s); break; }
    case O_MOVE: { Sig n(std::move(s)); s = std::move(n); break; }
    case O_SCOPED: if (!w.conns.empty()) { bs::scoped_connection sc(w.conns[P.a % w.conns.size()].h); bs::connection c(sc.release()); sc = c; sc.release(); } break;
    default: break;
  }
}
static unsigned mask_of(OpKind k) {
  return k == O_EMIT_THROW ? FK_SLOT | FK_COMB : FK_ALLOC | FK_COPY | FK_GCOPY | FK_COMPARE | FK_CCOPY | FK_EQUAL;
}
// the same world has already run without the fault and without a mismatch
static Tags fault_tags() { return !heap().fired ? 0 : P.kind == O_EMIT_THROW ? T(12) : P.kind == O_EMIT ? T(12, 13) : T(13); }
static int g_focus = -1;
static int g_points; // of the last run
static void run_op_here() {
  World &w = *W;
  Heap &h = heap();
  unsigned old = h.armed;
  h.count = 0;
  h.fired = 0;
  w.opRan = true;
  h.armed = h.fail_at >= 0 ? mask_of(P.kind) : 0;
  struct Off { unsigned o; ~Off() { heap().armed = 0; g_points = heap().count; (void)o; } } off = {old};
  try { run_op(w); }
  catch (const Injected &e) { h.armed = 0; w.opThrew = true; if (!h.fired || h.fired == FK_ALLOC) fail(T(12, 13), "unexpected exception"); (void)e; }
  catch (const std::bad_alloc &) { h.armed = 0; w.opThrew = true; if (h.fired != FK_ALLOC) fail(T(12, 13), "bad_alloc although no allocation failed (%s)", opname[P.kind]); }
  catch (const bs::expired_slot &) { h.armed = 0; w.opThrew = true; w.opExc = "expired_slot"; }
  h.armed = 0;
  if (MonMutex::held && !w.hookOn) fail(T(9, 12, 13, 20), "%s leaves a library mutex locked", opname[P.kind]);
  if (!w.hookCatch && w.opThrew) { UserExc u = {1, ++g_serial}; throw u; }
}

// ---------------------------------------------------------------- observation
struct Obs {
  vector<int> connected, blocked;
  vector<int> calls[2];
  long num[2];
  bool empty[2];
  int comb[2];
  vector<int> outer; // calls of the invocation around a nested operation
  bool outerThrew;
  vector<int> opcalls;
  bool threw;
  int newConnected;
  bool operator==(const Obs &o) const {
    return connected == o.connected && blocked == o.blocked && calls[0] == o.calls[0] && calls[1] == o.calls[1] && num[0] == o.num[0] && num[1] == o.num[1] && empty[0] == o.empty[0] &&
           empty[1] == o.empty[1] && comb[0] == o.comb[0] && comb[1] == o.comb[1];
  }
};
static string str(const vector<int> &v) { string r; for (int x : v) r += std::to_string(x) + " "; return r; }
static string str(const Obs &o) {
  return "connected " + str(o.connected) + "blocked " + str(o.blocked) + "calls(0) " + str(o.calls[0]) + "calls(1) " + str(o.calls[1]) + "num " + std::to_string(o.num[0]) + " " + std::to_string(o.num[1]) + " comb " + std::to_string(o.comb[0]);
}
static void observe(World &w, Obs &o) {
  o.connected.clear();
  o.blocked.clear();
  for (size_t i = 0; i < w.conns.size(); ++i) { o.connected.push_back(w.conns[i].h.connected()); o.blocked.push_back(w.conns[i].h.blocked()); }
  for (int s = 0; s < 2; ++s) {
    o.num[s] = -1; o.empty[s] = false; o.comb[s] = -1; o.calls[s].clear();
    if (!w.sig[s]) continue;
    o.num[s] = w.sig[s]->num_slots();
    o.empty[s] = w.sig[s]->empty();
    if (o.empty[s] != (o.num[s] == 0)) fail(T(4, 13), "after %s empty() and num_slots() disagree", opname[P.kind]);
    o.comb[s] = w.sig[s]->combiner().id;
    w.calls.clear();
    (*w.sig[s])(2);
    o.calls[s] = w.calls;
    w.calls.clear();
    (*w.sig[s])(2);
    if (w.calls != o.calls[s]) fail(T(13, 1), "after %s two invocations differ: %s/ %s", opname[P.kind], str(o.calls[s]).c_str(), str(w.calls).c_str());
  }
}
struct Run { Obs obs, cont; int points; bool fired, threw; int kind; };
static int g_op; // 0: without the operation, 1: with
static void run_world(uint64_t seed, bool withOp, int failAt, Run &r) {
  Heap &h = heap();
  h.armed = 0;
  h.fired = 0;
  h.fail_at = failAt;
  long b0 = h.blocks;
  g_points = 0;
  {
    World w(seed);
    W = &w;
    build(w);
    g_alive.resize(w.conns.size() + 8);
    // the plan depends on the world only
    P.kind = OpKind(w.rng.below(NOP));
    if (g_focus >= 0 && w.rng.chance(2, 3)) P.kind = OpKind(g_focus);
    else if (w.rng.chance(1, 3)) P.kind = O_CONNECT;
    P.s = w.sig[1] && w.rng.chance(1, 3);
    P.a = w.rng.below(P.kind == O_CONNECT ? 3 : 30);
    P.b = w.rng.below(P.kind == O_CONNECT ? 2 : 4);
    P.c = w.rng.below(4);
    P.d = w.rng.below(2);
    P.nested = !w.conns.empty() && w.rng.chance(1, 2);
    P.catches = w.rng.chance(2, 3);
    w.hookConn = P.nested ? w.rng.below(w.conns.size()) : -1;
    w.hookCatch = P.catches || !P.nested;
    int id = w.conns.size();
    if (w.rng.chance(1, 3) && P.kind != O_SLOT) w.xslot.reset(new XSlot(ExtFn(id)));
    else { w.slot.reset(w.rng.chance(1, 3) ? new Slot(SmallFn(id)) : new Slot(BigFn(id))); int nt = w.rng.below(3) ? 0 : w.rng.below(12); for (int i = 0; i < nt; ++i) w.slot->track(w.objs[i % w.objs.size()]); }
    long fn0 = g_alive[id];
    r.obs.outerThrew = false;
    if (!withOp) h.fail_at = -1;
    if (P.nested) {
      w.hookOn = true;
      w.calls.clear();
      bool ran = withOp;
      if (!withOp) { w.hookCount = 1; }
      try { (*w.sig[0])(1); }
      catch (const UserExc &e) { r.obs.outerThrew = true; if (e.serial != g_serial) fail(T(12), "another exception object arrived"); }
      h.armed = 0;
      w.hookOn = false;
      (void)ran;
      r.obs.outer = w.calls;
      if (w.hookConn >= 0 && !w.opRan && withOp) g_points = 0;
    } else {
      w.calls.clear();
      if (withOp) run_op_here();
      r.obs.outer.clear();
      r.obs.opcalls = w.calls;
    }
    if (MonMutex::held) fail(T(9, 12, 13, 20), "%s leaves a library mutex locked", opname[P.kind]);
    r.points = g_points;
    r.fired = h.fired != 0;
    r.kind = h.fired;
    r.threw = w.opThrew;
    h.fail_at = -1;
    h.armed = 0;
    r.obs.threw = w.opThrew;
    r.obs.newConnected = w.newConn.connected();
    // what did a failed connect leave behind?
    if (P.kind == O_CONNECT && w.opThrew && g_alive[id] != fn0) fail(T(13, 7), "failed connect leaves %ld copies of the slot function", g_alive[id] - fn0);
    observe(w, r.obs);
    // continuation: the signal is used as if nothing had happened
    w.newConn.disconnect();
    w.newConn = bs::connection();
    Rng rr(seed * 3 + 1);
    w.rng.s = rr.s;
    while ((int)w.conns.size() < id + 1) { C c; c.id = w.conns.size(); c.sig = -1; c.kind = 9; w.conns.push_back(c); }
    for (int i = 0; i < 5; ++i) {
      if (w.sig[0]) {
        add_conn(w, 0);
        if (w.rng.chance(1, 3)) w.conns[w.rng.below(w.conns.size())].h.disconnect();
        if (w.rng.chance(1, 3)) { (*w.sig[0])(4); }
        if (w.rng.chance(1, 6)) w.sig[0]->disconnect(Grp(w.rng.below(3)));
      }
    }
    observe(w, r.cont);
    // nothing keeps tracked objects alive
    w.objs.clear();
    w.sobjs.clear();
    if (Tracked::live != 0) fail(T(6, 12, 13), "tracked objects kept alive after %s", opname[P.kind]);
    for (int s = 0; s < 2; ++s) if (w.sig[s] && w.rng.chance(1, 2)) (*w.sig[s])(9);
    w.blocks.clear();
    unsigned o = w.rng.below(2);
    w.sig[o].reset();
    w.sig[1 - o].reset();
    w.slot.reset();
    w.xslot.reset();
    for (size_t i = 0; i < g_alive.size(); ++i) if (g_alive[i] != 0) fail(T(7, 13, 22), "%ld copies of slot function %zu leaked after %s", g_alive[i], i, opname[P.kind]);
  }
  W = 0;
  if (Grp::live != 0) fail(T(13, 22), "%ld groups leaked after %s", Grp::live, opname[P.kind]);
  if (Comb::live != 0) fail(T(13, 14, 22), "%ld combiners leaked after %s", Comb::live, opname[P.kind]);
  if (MonMutex::live != 0) fail(T(13, 22), "%ld mutexes leaked after %s", MonMutex::live, opname[P.kind]);
  g_alive.clear();
  g_alive.shrink_to_fit();
}
static bool is_prefix(const vector<int> &a, const vector<int> &b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

static void one_case(long long cno, uint64_t seed) {
  Heap &h = heap();
  {
    Run r0, r1;
    h.fail_at = -1;
    run_world(seed, false, -1, r0);
    run_world(seed, true, 0, r1);
    int n = r1.points;
    stats().add((string("op_") + opname[P.kind] + (P.nested ? "_nested" : "")).c_str());
    stats().add("fault_points", n);
    if (r1.threw && r1.obs.threw && P.kind != O_EMIT && P.kind != O_SLOT && P.kind != O_EMIT_THROW) fail(T(12, 13), "%s throws without a fault", opname[P.kind]);
    if (stats().samples.size() < 2 && n > 3) {
      stats().samples.push_back("case " + std::to_string(cno) + ": operation '" + opname[P.kind] + "'" + (P.nested ? " inside a slot" : "") + ", " + std::to_string(n) + " fault points, each one failed once; state before: " + str(r0.obs));
    }
    int step = n > 400 ? n / 400 + 1 : 1;
    for (int k = 1; k <= n; k += step) {
      long b0 = h.blocks;
      {
        Run r;
        char where[200];
        run_world(seed, true, k, r);
        snprintf(where, sizeof where, "%s%s, fault point %d of %d (kind %d)%s", opname[P.kind], P.nested ? " inside a slot" : "", k, n, r.kind, r.threw ? "" : ", not reported");
        stats().add("faults_injected");
        if (!r.fired) { continue; } // cannot happen for a deterministic library; harmless
        stats().add(r.kind == FK_ALLOC ? "failed_allocations" : r.kind == FK_COPY ? "failed_function_copies" : r.kind == FK_GCOPY ? "failed_group_copies" : r.kind == FK_COMPARE ? "failed_comparisons" : r.kind == FK_SLOT ? "throwing_slots" : r.kind == FK_COMB ? "throwing_combiners" : "other_faults");
        Hash hh; hh.add(P.kind); hh.add(P.nested); hh.add(k); hh.add(r.kind); hh.add(P.a); hh.add(P.b); hh.add(r.obs.num[0]); hh.add(r.obs.connected.size()); for (int x : r.obs.calls[0]) hh.add(x);
        if (stats().distinct.insert(hh.h).second) stats().add("distinct_nontrivial");
        if (P.kind == O_CONNECT) {
          const Run &ref = r.threw ? r0 : r1;
          if (r.threw && !(r.obs == r0.obs)) fail(T(13), "failed %s changes the signal; before: %s; after: %s", where, str(r0.obs).c_str(), str(r.obs).c_str());
          if (!r.threw && !(r.obs == r1.obs)) fail(T(13), "%s: succeeded differently; expected: %s; got: %s", where, str(r1.obs).c_str(), str(r.obs).c_str());
          if (!(r.cont == ref.cont)) fail(T(13), "after failed %s the signal goes on differently; expected: %s; got: %s", where, str(ref.cont).c_str(), str(r.cont).c_str());
        } else {
          // every connection is in its state of before or after, and everything agrees with it
          vector<int> okc[2];
          for (size_t i = 0; i < r.obs.connected.size(); ++i) {
            if (r.obs.connected[i] != r0.obs.connected[i] && r.obs.connected[i] != r1.obs.connected[i]) fail(T(13), "after failed %s connection %zu is %s", where, i, r.obs.connected[i] ? "connected" : "disconnected");
            if (r.obs.blocked[i] != r0.obs.blocked[i] && r.obs.blocked[i] != r1.obs.blocked[i]) fail(T(13, 5), "after failed %s connection %zu is %s", where, i, r.obs.blocked[i] ? "blocked" : "not blocked");
          }
          int sigslot = -1;
          // without a world at hand: which ids belong to signal 1 is in the calls of signal 1
          for (int s = 0; s < 2; ++s) {
            if (r.obs.num[s] != (r0.obs.num[s] < 0 ? -1 : r.obs.num[s])) fail(T(13), "signal lost");
            vector<int> expect;
            for (int id : r0.obs.calls[s]) if (r.obs.connected[id] && !r.obs.blocked[id]) expect.push_back(id);
            bool sigslotGone = false;
            if (s == 0 && r.obs.connected != r0.obs.connected) {
              for (size_t i = 0; i < r.obs.connected.size(); ++i) if (r0.obs.connected[i] && !r.obs.connected[i] && std::find(r0.obs.calls[0].begin(), r0.obs.calls[0].end(), (int)i) == r0.obs.calls[0].end()) sigslotGone = true;
            }
            if (s == 0 && r.obs.blocked != r0.obs.blocked)
              for (size_t i = 0; i < r.obs.blocked.size(); ++i) if (!r0.obs.blocked[i] && r.obs.blocked[i] && std::find(r0.obs.calls[0].begin(), r0.obs.calls[0].end(), (int)i) == r0.obs.calls[0].end()) sigslotGone = true;
            if (sigslotGone) continue;
            if (expect != r.obs.calls[s]) fail(P.kind == O_EMIT_THROW ? T(12) : T(13), "after failed %s signal %d calls %s, expected %s", where, s, str(r.obs.calls[s]).c_str(), str(expect).c_str());
          }
          (void)sigslot;
          for (int s = 0; s < 2; ++s) if (r.obs.comb[s] != r0.obs.comb[s] && r.obs.comb[s] != r1.obs.comb[s]) fail(T(13, 14), "after failed %s the combiner is %d", where, r.obs.comb[s]);
          if (r.obs == r0.obs && !(r.cont == r0.cont)) fail(T(13), "after failed %s the signal goes on differently; expected: %s; got: %s", where, str(r0.cont).c_str(), str(r.cont).c_str());
          if (P.kind == O_EMIT && !P.nested) {
            if (r.threw ? !is_prefix(r.obs.opcalls, r1.obs.opcalls) : r.obs.opcalls != r1.obs.opcalls) fail(T(13, 1), "%s calls %s, without failure %s", where, str(r.obs.opcalls).c_str(), str(r1.obs.opcalls).c_str());
          }
          if ((P.kind == O_EMIT || P.kind == O_EMIT_THROW || P.kind == O_QUERY || P.kind == O_COMB || P.kind == O_SLOT || P.kind == O_NEWSIG || P.kind == O_SCOPED) && !(r.obs == r0.obs)) fail(P.kind == O_EMIT_THROW ? T(12) : T(13), "failed %s changes the signal; before: %s; after: %s", where, str(r0.obs).c_str(), str(r.obs).c_str());
        }
        // the invocation around it
        if (P.nested && P.kind != O_EMIT && P.kind != O_EMIT_THROW && P.kind != O_DISC && P.kind != O_DISC_ALL && P.kind != O_DISC_FN && P.kind != O_DISC_GROUP && P.kind != O_BLOCK && P.kind != O_SLOT && P.kind != O_NEWSIG) {
          if (r.obs.outerThrew) { if (!is_prefix(r.obs.outer, r0.obs.outer)) fail(T(12, 13), "%s: the surrounding invocation calls %s, expected a beginning of %s", where, str(r.obs.outer).c_str(), str(r0.obs.outer).c_str()); }
          else if (r.obs.outer != r0.obs.outer) fail(T(13, 3), "%s: the surrounding invocation calls %s, expected %s", where, str(r.obs.outer).c_str(), str(r0.obs.outer).c_str());
        }
      }
      if (h.blocks != b0) { // statistics may have grown: measure the world alone
        long b1 = h.blocks;
        { Run q; run_world(seed, true, k, q); }
        long leak = h.blocks - b1;
        if (leak != 0) fail(T(13, 22), "failed %s%s (fault point %d) leaks %ld memory blocks", opname[P.kind], P.nested ? " inside a slot" : "", k, leak);
      }
    }
    // throwing user code: exact expectations
    if (P.kind == O_EMIT_THROW && !P.nested) {
      const vector<int> &ref = r1.obs.opcalls;
      for (int k = 1; k <= n; ++k) {
        Run r;
        run_world(seed, true, k, r);
        if (!r.fired) continue;
        stats().add("user_exceptions_checked");
        const vector<int> &got = r.obs.opcalls;
        if (r.threw) {
          if (!is_prefix(got, ref)) fail(T(12), "throwing user code (point %d of %d): calls %s, expected a beginning of %s", k, n, str(got).c_str(), str(ref).c_str());
        } else {
          // some combiner handled it: only the throwing slot, or what a throwing inner combiner left out, is missing
          if (r.kind == FK_SLOT) {
            vector<int> v;
            size_t j = 0;
            for (size_t i = 0; i < ref.size(); ++i) if (j < got.size() && got[j] == ref[i]) ++j;
            if (j != got.size() || got.size() >= ref.size()) fail(T(12), "handled exception (point %d of %d): calls %s, without it %s", k, n, str(got).c_str(), str(ref).c_str());
            if (r0.obs.num[1] < 0 && got.size() + 1 != ref.size()) fail(T(12), "handled exception (point %d of %d): calls %s, without it %s", k, n, str(got).c_str(), str(ref).c_str());
          }
        }
      }
    }
  }
}
static void on_terminate() {
  heap().armed = 0;
  fail(T(12, 13, 22), "std::terminate called during '%s'", opname[P.kind]);
}
int main(int argc, char **argv) {
  more_tags() = fault_tags;
  Args a(argc, argv);
  std::set_terminate(on_terminate);
  g_focus = a.num("focus", -1);
  return run_cases("fault", a, one_case);
}
