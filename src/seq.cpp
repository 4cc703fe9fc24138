// Sequential engine: random programs over many signals, slots, handles, blocks, tracked objects and combiners, with
// slots that themselves run random operations (nested emissions, mutation during emission, destruction of the calling
// signal ...).  Every program runs against the real library and, in lockstep, against an executable reference model;
// every slot entry, combiner step, query result, exception and destructor is an event the model has to allow.
//
// Configuration macros: CFG_VOID (slots return void), CFG_DEFCOMB (library's default combiner), CFG_GROUP (0 int,
// 1 user type with stateful comparator that has equivalent keys, 2 std::string with std::greater),
// CFG_MUTEX (0 monitored mutex, 1 signals2::mutex, 2 dummy_mutex), BOOST_NO_CXX11_VARIADIC_TEMPLATES (library's
// preprocessed classes).
#include "common.hpp"
#include "excs.hpp"
#include <boost/bind/bind.hpp>
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <algorithm>
#include <functional>
#include <list>
#include <memory>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;

#ifndef CFG_VOID
#define CFG_VOID 0
#endif
#ifndef CFG_DEFCOMB
#define CFG_DEFCOMB 0
#endif
#ifndef CFG_GROUP
#define CFG_GROUP 0
#endif
#ifndef CFG_MUTEX
#define CFG_MUTEX 0
#endif

// ---------------------------------------------------------------- instrumented types
static int g_depth = 0; // monitored mutexes held

struct MonMutex {
  unsigned magic;
  int held;
  static long live;
  MonMutex() : magic(0xC0FFEE), held(0) { ++live; }
  ~MonMutex() {
    if (magic != 0xC0FFEE) fail(T(20, 22), "mutex destroyed twice");
    if (held) fail(T(9, 20), "mutex destroyed while locked");
    magic = 0;
    --live;
  }
  void lock() {
    if (magic != 0xC0FFEE) fail(T(20, 22), "lock of a dead mutex");
    if (held) fail(T(9, 20), "recursive lock of a library mutex: self-deadlock");
    held = 1;
    ++g_depth;
  }
  bool try_lock() {
    if (held) return false;
    held = 1;
    ++g_depth;
    return true;
  }
  void unlock() {
    if (magic != 0xC0FFEE) fail(T(20, 22), "unlock of a dead mutex");
    if (!held) fail(T(9, 20), "unlock of a mutex that is not locked");
    held = 0;
    --g_depth;
  }
private:
  MonMutex(const MonMutex &);
  MonMutex &operator=(const MonMutex &);
};
long MonMutex::live = 0;

struct Obj { int v; };

// custom foreign smart pointer
template <class U> struct MyShared { std::shared_ptr<U> p; };
template <class U> struct MyWeak {
  typedef U element_type;
  std::weak_ptr<U> p;
  MyWeak() {}
  MyWeak(const MyShared<U> &s) : p(s.p) {}
  MyShared<U> lock() const { MyShared<U> r; r.p = p.lock(); return r; }
  bool expired() const { return p.expired(); }
};
namespace boost { namespace signals2 {
template <class U> struct weak_ptr_traits<MyWeak<U> > { typedef MyShared<U> shared_type; };
template <class U> struct shared_ptr_traits<MyShared<U> > { typedef MyWeak<U> weak_type; };
} }

static void on_obj_destroyed(int id);
struct Tracked { int id; explicit Tracked(int i) : id(i) {} ~Tracked() { on_obj_destroyed(id); } };
struct TObj : public bs::trackable {
  int id, data;
  explicit TObj(int i) : id(i), data(i * 7) {}
  TObj(const TObj &o, int i) : bs::trackable(o), id(i), data(o.data) {}
  TObj &operator=(const TObj &o) { bs::trackable::operator=(o); data = o.data; return *this; }
  ~TObj() { on_obj_destroyed(id); }
};

#if CFG_VOID
typedef void Ret;
#else
typedef int Ret;
#endif
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
typedef const Obj &ObjRef; // (see DESIGN.md, known finding of C21: extended slots cannot have non-const reference parameters there)
#else
typedef Obj &ObjRef;
#endif
typedef Ret Signature(int, ObjRef, string);

#if CFG_GROUP == 0
typedef int Group;
typedef std::less<int> GroupCmp;
static Group mkgroup(int v) { return v; }
enum GroupName { G0, G1, G2, G3, G4, G5, G6, G7 };
static GroupCmp mkcmp(bool) { return GroupCmp(); }
static bool gless(bool, int a, int b) { return a < b; }
#elif CFG_GROUP == 1
struct Group {
  int v;
  unsigned magic;
  static long live;
  explicit Group(int x) : v(x), magic(0xAB) { ++live; }
  Group(const Group &o) : v(o.v), magic(0xAB) { if (o.magic != 0xAB) fail(T(22), "copy of a dead group object"); ++live; }
  Group &operator=(const Group &o) { if (o.magic != 0xAB) fail(T(22), "assignment from a dead group object"); v = o.v; return *this; }
  ~Group() { magic = 0; --live; }
};
long Group::live = 0;
// what the values say about themselves is not what the comparison of the signal says: it must not be asked
inline bool operator==(const Group &a, const Group &b) { return a.v == b.v; }
inline bool operator!=(const Group &a, const Group &b) { return a.v != b.v; }
inline bool operator<(const Group &a, const Group &b) { return a.v % 4 < b.v % 4; }
inline bool operator>(const Group &a, const Group &b) { return b < a; }
struct GroupCmp {
  bool desc;
  GroupCmp(bool d = false) : desc(d) {}
  bool operator()(const Group &a, const Group &b) const {
    if (a.magic != 0xAB || b.magic != 0xAB) fail(T(22), "comparison of a dead group object");
    return desc ? a.v / 3 > b.v / 3 : a.v / 3 < b.v / 3;
  }
};
static Group mkgroup(int v) { return Group(v); }
struct ToGroup { int v; operator Group() const { return Group(v); } };
static GroupCmp mkcmp(bool d) { return GroupCmp(d); }
static bool gless(bool desc, int a, int b) { return desc ? a / 3 > b / 3 : a / 3 < b / 3; }
#else
typedef string Group;
typedef std::greater<string> GroupCmp;
static Group mkgroup(int v) { return "group-with-a-long-name-" + string(1, char('a' + v)); }
static GroupCmp mkcmp(bool) { return GroupCmp(); }
static bool gless(bool, int a, int b) { return a > b; }
#endif

#if CFG_MUTEX == 0
typedef MonMutex Mutex;
#elif CFG_MUTEX == 1
typedef bs::mutex Mutex;
#else
typedef bs::dummy_mutex Mutex;
#endif

#if !CFG_DEFCOMB
static void comb_live(int id, int d);
struct MonCombiner {
  typedef Ret result_type;
  unsigned magic;
  int id;
  explicit MonCombiner(int i = -1) : magic(0xC0B), id(i) { comb_live(id, 1); }
  MonCombiner(const MonCombiner &o) : magic(0xC0B), id(o.id) { if (o.magic != 0xC0B) fail(T(14, 22), "copy of a dead combiner"); comb_live(id, 1); }
  MonCombiner &operator=(const MonCombiner &o) {
    if (o.magic != 0xC0B || magic != 0xC0B) fail(T(14, 22), "assignment of a dead combiner");
    comb_live(id, -1);
    comb_live(o.id, 1);
    id = o.id;
    return *this;
  }
  ~MonCombiner() { if (magic != 0xC0B) fail(T(14, 22), "combiner destroyed twice"); magic = 0; comb_live(id, -1); }
  template <class It> Ret operator()(It first, It last) const;
};
#endif
#if CFG_DEFCOMB
typedef bs::optional_last_value<Ret> Comb;
#else
typedef MonCombiner Comb;
#endif
typedef bs::signal<Signature, Comb, Group, GroupCmp, boost::function<Signature>,
                   boost::function<Ret(const bs::connection &, int, ObjRef, string)>, Mutex> Sig;
typedef Sig::slot_type Slot;
typedef Sig::extended_slot_type XSlot;

// ---------------------------------------------------------------- model state
enum Tri { NO, YES, MAYBE };
enum FnKind { FK_PLAIN, FK_SMALL, FK_EXT, FK_TREF, FK_TPTR, FK_SIG, FK_SIGSLOT };
enum ObjKind { OK_BOOST, OK_STD, OK_MY, OK_TRACKABLE };

struct MObj {
  ObjKind kind;
  bool alive;
  boost::shared_ptr<Tracked> b;
  std::shared_ptr<Tracked> s;
  MyShared<Tracked> m;
  TObj *t;
  bool strong; // the harness owns it
};
struct MConn {
  int impl, fn, key, target; // target: impl for signal slots
  FnKind kind;
  bool disc;
  bool haveHandle;
  int section, group;
  vector<int> objs, timpls;
  bs::connection handle;
  bool everBlocked;
};
struct MImpl {
  bool owner;
  vector<int> list; // connection ids not explicitly disconnected
  bool desc;
  int comb;
  Tags ctxtags;
};
struct Frame {
  int impl;
  vector<int> snap;
  size_t pos;
  int cur;
  bool direct, began, ended, stopped;
  int comb;
  int a;
  const Obj *obj;
  string s;
  int nCalls, lastVal, result;
  bool haveVal;
  bool excOut;
  Tags mut;
};
struct SlotObj { bool used; bool ext; int fn, key; FnKind kind; vector<int> objs, timpls; std::unique_ptr<Slot> s; std::unique_ptr<XSlot> x; };

enum { NSIG = 4, NHAND = 6, NSCOPED = 4, NBLOCK = 5, NSLOTOBJ = 3 };
struct World {
  Rng rng;
  vector<int> alive; // live copies per function object lineage
  vector<MObj> objs;
  vector<MConn> conns;
  vector<MImpl> impls;
  std::unique_ptr<Sig> sig[NSIG];
  int sigImpl[NSIG]; // -1: no object or null signal
  bs::connection hand[NHAND];
  int handConn[NHAND];
  std::unique_ptr<bs::scoped_connection> scoped[NSCOPED];
  int scopedConn[NSCOPED];
  std::unique_ptr<bs::shared_connection_block> block[NBLOCK];
  int blockConn[NBLOCK];
  bool blockOn[NBLOCK];
  SlotObj sobj[NSLOTOBJ];
  vector<Frame *> frames;
  int directFn;
  int directArg;
  const Obj *directObj;
  int counter, nextComb;
  int calls, budget, sigslots;
  int lastThrown;
  unsigned lastKind;
  std::set<int> threw; // functions of slots that an exception interrupted
  bool quiet; // few queries between the operations: queries collect expired slots
  bool massArmed;
  int massObj, massImpl; // an object tracked by many slots of one signal
  bool teardown;
  bool refMode; // signals are connected by reference and therefore not moved or swapped in this case
  int inDtor;
  Hash hash;
  std::map<int, int> combLive;
  World() : directFn(-1), directArg(0), directObj(0), counter(0), nextComb(1), calls(0), budget(0), sigslots(0), lastThrown(0), lastKind(0), quiet(false), massArmed(false), massObj(-1), massImpl(-1), teardown(false), refMode(false), inDtor(0) {
    alive.push_back(0);
    for (int i = 0; i < NSIG; ++i) sigImpl[i] = -1;
    for (int i = 0; i < NHAND; ++i) handConn[i] = -1;
    for (int i = 0; i < NSCOPED; ++i) scopedConn[i] = -1;
    for (int i = 0; i < NBLOCK; ++i) { blockConn[i] = -1; blockOn[i] = false; }
    for (int i = 0; i < NSLOTOBJ; ++i) sobj[i].used = false;
  }
};
static World *W;
static void ev(uint64_t a, uint64_t b = 0) { W->hash.add(a * 1000003 + b); stats().add("events"); }

static bool blockedByUser(int c) {
  for (int i = 0; i < NBLOCK; ++i) if (W->block[i] && W->blockOn[i] && W->blockConn[i] == c) return true;
  return false;
}
static bool framesOn(int impl) {
  for (Frame *f : W->frames) if (f->impl == impl) return true;
  return false;
}
static bool zombie(int impl) { // perhaps kept alive by a running invocation
  if (framesOn(impl)) return true;
  for (Frame *f : W->frames)
    if (f->cur >= 0) {
      const MConn &c = W->conns[f->cur];
      if (c.target == impl) return true;
      for (int t : c.timpls) if (t == impl) return true;
    }
  // a slot object called directly
  return false;
}
static Tri implAlive(int impl) { return W->impls[impl].owner ? YES : zombie(impl) ? MAYBE : NO; }
static Tri unexpired(const vector<int> &objs, const vector<int> &timpls, int target) {
  for (int o : objs) if (!W->objs[o].alive) return NO;
  Tri r = YES;
  for (int t : timpls) { Tri a = t < 0 ? NO : implAlive(t); if (a == NO) return NO; if (a == MAYBE) r = MAYBE; }
  if (target >= 0) { Tri a = implAlive(target); if (a == NO) return NO; if (a == MAYBE) r = MAYBE; }
  return r;
}
static Tri unexpired(int c) { const MConn &m = W->conns[c]; return unexpired(m.objs, m.timpls, m.target); }
static Tri callable(int c) {
  if (W->conns[c].disc || blockedByUser(c)) return NO;
  return unexpired(c);
}
static Tri connectedNow(int c) {
  const MConn &m = W->conns[c];
  if (m.disc) return NO;
  Tri e = unexpired(c);
  if (e == NO) return NO;
  Tri a = implAlive(m.impl);
  if (a == NO) return NO;
  return e == YES && a == YES ? YES : MAYBE;
}
static bool inUse(int c) {
  for (Frame *f : W->frames) if (f->cur == c) return true;
  return false;
}
// properties a wrong set of calls refutes, given what happened to the connection and the signal before
static Tags connTags(int c) {
  const MConn &m = W->conns[c];
  Tags t = W->impls[m.impl].ctxtags;
  if (!m.objs.empty() || !m.timpls.empty()) t |= T(6);
  if (m.kind == FK_TREF || m.kind == FK_TPTR || m.kind == FK_SIG) t |= T(23);
  if (m.kind == FK_EXT) t |= T(17);
  if (m.kind == FK_SIGSLOT) t |= T(16);
  if (m.everBlocked) t |= T(5);
  return t;
}
static void mutate(int impl, Tags extra = 0) { // a change of signal impl while it may be running
  for (Frame *f : W->frames) if (f->impl == impl) f->mut |= T(3);
  W->impls[impl].ctxtags |= extra;
}

// what is said about the function of a slot that an exception interrupted is about exceptions, too
static Tags thrown_tag(int fn) { return W && W->threw.count(fn) ? T(12) : 0; }
static void dtor_probe() {
  if (W->inDtor || W->teardown || W->quiet) return;
  ++W->inDtor;
  // user code in destructors may use the library
  for (int i = 0; i < NSIG; ++i)
    if (W->sig[i]) { volatile bool e = W->sig[i]->empty(); volatile size_t n = W->sig[i]->num_slots(); (void)e; (void)n; }
  for (int i = 0; i < NHAND; ++i) { volatile bool e = W->hand[i].connected() || W->hand[i].blocked(); (void)e; }
  --W->inDtor;
}
static void on_obj_destroyed(int id) {
  if (!W->objs[id].alive) fail(T(6, 22), "tracked object %d destroyed twice", id);
  W->objs[id].alive = false;
  ev(1, id);
  if (g_depth) { SOFT(T(9), "tracked object %d destroyed while a library mutex is locked", id); return; }
  stats().add("tracked_destroyed");
  dtor_probe();
}
static void on_fn_final(int fn) {
  ev(2, fn);
  if (fn == 0) return;
  if (g_depth) { SOFT(T(9) | thrown_tag(fn), "last copy of slot function %d destroyed while a library mutex is locked", fn); return; }
  stats().add("fn_final_destroyed");
  dtor_probe();
}

// ---------------------------------------------------------------- function objects
static int slot_called(int fn, const bs::connection *c, int a, ObjRef o, string &s);
static Ret finish(int v) {
#if CFG_VOID
  (void)v;
#else
  return v;
#endif
}
struct FnBase {
  unsigned magic;
  int fn, key;
  FnBase(int f, int k) : magic(0xFACE), fn(f), key(k) { ++W->alive[fn]; }
  FnBase(const FnBase &o) : magic(0xFACE), fn(o.fn), key(o.key) { o.check("copied"); ++W->alive[fn]; }
  FnBase &operator=(const FnBase &o) {
    o.check("assigned from");
    check("assigned");
    ++W->alive[o.fn];
    int old = fn;
    fn = o.fn;
    key = o.key;
    if (--W->alive[old] == 0) on_fn_final(old);
    return *this;
  }
  ~FnBase() {
    check("destroyed");
    magic = 0xDEAD;
    if (--W->alive[fn] == 0) on_fn_final(fn);
  }
  void check(const char *what) const { if (magic != 0xFACE) fail(T(7, 22), "dead slot function object %s", what); }
};
struct Fn : FnBase { // too big for boost::function's inline buffer, owns heap memory
  int *cell;
  char pad[40];
  Fn(int f, int k) : FnBase(f, k), cell(new int(f)) {}
  Fn(const Fn &o) : FnBase(o), cell(new int(*o.cell)) {}
  Fn &operator=(const Fn &o) { FnBase::operator=(o); *cell = *o.cell; return *this; }
  ~Fn() { delete cell; }
  Ret operator()(int a, ObjRef o, string s) const {
    check("called");
    int *p = cell, f = *p;
    struct G { const Fn *t; ~G() {} } g = {this};
    (void)g;
    int v;
    try { v = slot_called(fn, 0, a, o, s); } catch (...) { check("alive at the end of the call"); if (*p != f) fail(T(7), "payload"); throw; }
    check("alive at the end of the call");
    if (cell != p || *p != f) fail(T(7, 22), "payload of slot function changed during its call");
    return finish(v);
  }
  bool operator==(const Fn &o) const { return key == o.key; }
};
struct FnSmall : FnBase {
  FnSmall(int f, int k) : FnBase(f, k) {}
  Ret operator()(int a, ObjRef o, string s) const {
    check("called");
    int v;
    try { v = slot_called(fn, 0, a, o, s); } catch (...) { check("alive at the end of the call"); throw; }
    check("alive at the end of the call");
    return finish(v);
  }
  bool operator==(const FnSmall &o) const { return key == o.key; }
};
struct FnX : FnBase {
  FnX(int f, int k) : FnBase(f, k) {}
  Ret operator()(const bs::connection &c, int a, ObjRef o, string s) const {
    check("called");
    int v;
    try { v = slot_called(fn, &c, a, o, s); } catch (...) { check("alive at the end of the call"); throw; }
    check("alive at the end of the call");
    return finish(v);
  }
  bool operator==(const FnX &o) const { return key == o.key; }
};
struct FnT : FnBase { // bound to a trackable object or a signal
  typedef Ret result_type;
  FnT(int f, int k) : FnBase(f, k) {}
  Ret call(int a, ObjRef o, string &s) const {
    check("called");
    int v;
    try { v = slot_called(fn, 0, a, o, s); } catch (...) { check("alive at the end of the call"); throw; }
    check("alive at the end of the call");
    return finish(v);
  }
  Ret operator()(TObj &t, int a, ObjRef o, string s) const { (void)t; return call(a, o, s); }
  Ret operator()(TObj *t, int a, ObjRef o, string s) const { (void)t; return call(a, o, s); }
  Ret operator()(Sig *g, int a, ObjRef o, string s) const { (void)g; return call(a, o, s); }
  Ret operator()(Sig &g, int a, ObjRef o, string s) const { (void)g; return call(a, o, s); }
  bool operator==(const FnT &o) const { return key == o.key; }
};

// ---------------------------------------------------------------- matching calls against the model
static void unexpected_call(Frame &f, int fn, const char *how) {
  Tags t = T(1) | f.mut | W->impls[f.impl].ctxtags;
  string why = "not connected to this signal";
  bool found = false;
  for (size_t i = 0; i < f.snap.size(); ++i) {
    int c = f.snap[i];
    if (W->conns[c].fn != fn) continue;
    found = true;
    t |= connTags(c);
    if (i < f.pos) { why = "it already had its turn in this invocation"; if (callable(c) == YES) t |= T(2); if (W->conns[c].disc) t |= T(4); if (blockedByUser(c)) t |= T(5); if (unexpired(c) == NO) t |= T(6); }
    else if (W->conns[c].disc) { why = "it is disconnected"; t |= T(4); }
    else if (blockedByUser(c)) { why = "it is blocked"; t |= T(5); }
    else if (unexpired(c) == NO) { why = "an object it tracks has expired"; t |= T(6); }
    else { why = "an earlier slot was passed over or the order is wrong"; t |= T(2); }
  }
  if (!found)
    for (size_t c = 0; c < W->conns.size(); ++c)
      if (W->conns[c].fn == fn) {
        t |= connTags(c);
        if (W->conns[c].disc) { why = "it is disconnected"; t |= T(4); }
        else if (W->conns[c].impl == f.impl) { why = "it was connected after this invocation began"; t |= T(3); }
        else { why = "it belongs to another signal"; t |= T(16); }
      }
  fail(t, "slot function %d called in invocation of signal %d (%s) although %s", fn, f.impl, how, why.c_str());
}
static void check_args(Frame &f, int a, ObjRef o, const string &s) {
  if (a != f.a) fail(T(1, 21), "slot got argument %d instead of %d", a, f.a);
  if (&o != f.obj) fail(T(1, 21), "reference argument refers to another object");
  if (s != f.s) fail(T(1, 21), "by-value argument altered: '%s' instead of '%s'", s.c_str(), f.s.c_str());
}
// the next callable entry of the snapshot has to be connection with this fn (or the signal slot to impl `target`)
static void take_next(Frame &f, int fn, int combId, int &conn) {
  f.cur = -1;
  for (;; ++f.pos) {
    if (f.pos >= f.snap.size()) {
      if (fn >= 0) unexpected_call(f, fn, "all slots done");
      fail(T(1, 16) | f.mut, "signal connected as slot called although no slot is left");
    }
    int c = f.snap[f.pos];
    const MConn &m = W->conns[c];
    Tri k = callable(c);
    if (k == NO) continue;
    bool match = fn >= 0 ? m.fn == fn && m.kind != FK_SIGSLOT : m.kind == FK_SIGSLOT && W->impls[m.target].comb == combId;
    if (match) { ++f.pos; conn = c; f.cur = c; return; }
    if (k == MAYBE) continue;
    if (fn >= 0) {
      tr("expected connection %d (fn %d)", c, m.fn);
      Tags t = connTags(c);
      W->impls[f.impl].ctxtags |= t;
      unexpected_call(f, fn, "another one is next");
    }
    fail(T(1, 2, 16) | connTags(c) | f.mut, "signal connected as slot called (combiner %d), but connection %d (kind %d target %d, its combiner %d) is next", combId, c, int(m.kind), m.target, m.target >= 0 ? W->impls[m.target].comb : -1);
  }
}
static void end_of_range(Frame &f) {
  for (size_t p = f.pos; p < f.snap.size(); ++p)
    if (callable(f.snap[p]) == YES) {
      int c = f.snap[p];
      fail(T(1) | (f.mut ? T(3) : 0) | connTags(c), "connection %d (fn %d) of signal %d was not called", c, W->conns[c].fn, f.impl);
    }
  f.pos = f.snap.size();
  f.ended = true;
}

static void check_world(bool full);
static void random_op(int depth);
static void mass_drop();

static int slot_called(int fn, const bs::connection *c, int a, ObjRef o, string &s) {
  if (g_depth) fail(T(9), "slot called while a library mutex is locked");
  ++W->calls;
  stats().add("slot_calls");
  int v = ++W->counter;
  if (W->directFn >= 0) { // a slot object called directly
    if (fn != W->directFn) fail(T(18), "slot object calls function %d instead of %d", fn, W->directFn);
    if (a != W->directArg || &o != W->directObj || s != "direct") fail(T(18, 21), "slot object passes wrong arguments");
    W->directFn = -2;
    ev(3, fn);
    return v;
  }
  if (W->frames.empty()) fail(T(1), "slot called outside any invocation");
  Frame &f = *W->frames.back();
  if (f.ended) fail(T(1, 14), "slot called after the end of the range");
#if !CFG_DEFCOMB
  if (!f.began) fail(T(14, 1), "slot called before the combiner");
#endif
  int conn = -1;
  take_next(f, fn, -1, conn);
  ++f.nCalls;
  ev(4, conn);
  const MConn &m = W->conns[conn];
  tr("%*scall conn %d fn %d (signal %d)", int(W->frames.size()) * 2, "", conn, fn, f.impl);
  check_args(f, a, o, s);
  s += "-modified"; // must not be seen by other slots
  if (c) {
    if (m.kind != FK_EXT) fail(T(17), "ordinary slot called as extended");
    if (m.haveHandle && !(*c == m.handle)) fail(T(17), "extended slot received another connection than its own");
    if (W->conns[conn].impl >= 0 && connectedNow(conn) == YES && !c->connected()) fail(T(17), "extended slot received a connection that is not connected");
  } else if (m.kind == FK_EXT) fail(T(17), "extended slot called as ordinary one");
  for (int q : m.objs) if (!W->objs[q].alive) fail(T(6), "slot runs although tracked object %d is dead", q);
  vector<int> held = m.objs;
  int nops = W->budget > 0 && W->frames.size() < 5 ? (W->rng.chance(1, 2) ? 0 : W->rng.below(4)) : 0;
  if (W->massArmed && f.impl == W->massImpl && W->budget > 0 && std::find(m.objs.begin(), m.objs.end(), W->massObj) == m.objs.end()) {
    W->massArmed = false;
    mass_drop();
  }
  for (int i = 0; i < nops; ++i) {
    if (c && W->rng.chance(1, 6)) { // an extended slot disconnects itself
      tr("self-disconnect conn %d", conn);
      W->conns[conn].disc = true;
      auto &l = W->impls[W->conns[conn].impl].list;
      l.erase(std::remove(l.begin(), l.end(), conn), l.end());
      mutate(W->conns[conn].impl, T(4));
      c->disconnect();
    }
    random_op(int(W->frames.size()));
    for (int q : held)
      if (W->objs[q].kind != OK_TRACKABLE && !W->objs[q].alive) fail(T(6), "tracked object %d died while the slot tracking it was running", q);
  }
  check_world(false);
  Frame &f2 = *W->frames.back();
  if (&f2 != &f || f.cur != conn) fail(T(3), "harness: frame stack corrupted");
  f.lastVal = v;
  f.haveVal = true;
  if (W->rng.chance(1, 30)) {
    W->lastThrown = v;
    tr("conn %d throws %d", conn, v);
    f.excOut = true;
    W->impls[f.impl].ctxtags |= T(12);
    stats().add("slot_exceptions");
    W->threw.insert(W->conns[conn].fn);
    throw_user(W->lastKind = W->rng.below(USER_EXC_KINDS), v);
  }
  if (W->rng.chance(1, 40)) {
    tr("conn %d throws expired_slot", conn);
    W->conns[conn].disc = true;
    auto &l = W->impls[W->conns[conn].impl].list;
    l.erase(std::remove(l.begin(), l.end(), conn), l.end());
    mutate(W->conns[conn].impl, T(14));
    f.haveVal = false;
    stats().add("expired_slot_thrown");
    throw bs::expired_slot();
  }
  return v;
}

// in a handler: the exception must be the one the user's code threw last
static void the_exception(const char *where) {
  int id = -1;
  unsigned kind = 99;
  if (!is_user(id, kind)) fail(T(12), "an exception that the user's code did not throw reaches %s (the last one was of kind %u)", where, W->lastKind);
  if (id != W->lastThrown || kind != W->lastKind) fail(T(12), "exception %d of kind %u reaches %s, %d of kind %u was thrown", id, kind, where, W->lastThrown, W->lastKind);
}
// ---------------------------------------------------------------- monitored combiner
#if !CFG_DEFCOMB
static void comb_live(int id, int d) { if (W) W->combLive[id] += d; }
namespace {
struct Guard {
  Frame local, *f;
  bool pushed;
  explicit Guard(int id) : f(0), pushed(false) {
    if (g_depth) fail(T(9), "combiner called while a library mutex is locked");
    if (W->frames.empty()) fail(T(14, 1), "combiner called outside any invocation");
    Frame &top = *W->frames.back();
    if (top.direct && !top.began) { f = &top; f->began = true; }
    else {
      int conn = -1;
      take_next(top, -1, id, conn);
      ++top.nCalls;
      ev(5, conn);
      tr("%*scall conn %d: signal slot -> %d", int(W->frames.size()) * 2, "", conn, W->conns[conn].target);
      local.impl = W->conns[conn].target;
      local.snap = W->impls[local.impl].list;
      local.pos = 0; local.cur = -1; local.direct = false; local.began = true; local.ended = local.stopped = false;
      local.comb = W->impls[local.impl].comb;
      local.a = top.a; local.obj = top.obj; local.s = top.s;
      local.nCalls = local.lastVal = local.result = 0; local.haveVal = local.excOut = false; local.mut = 0;
      f = &local;
      W->frames.push_back(f);
      pushed = true;
      stats().add("nested_signal_invocations");
    }
    if (f->comb != id) fail(T(14), "invocation uses combiner %d, current one is %d", id, f->comb);
  }
  ~Guard() { if (pushed) W->frames.pop_back(); }
};
#if CFG_VOID
  static void ret(int) {}
  template <class It> static void deref(It &it, Frame &) { *it; }
#else
  static int ret(int v) { return v; }
  template <class It> static void deref(It &it, Frame &f) {
    int v = *it;
    if (!f.haveVal || v != f.lastVal) fail(T(14, 1), "dereferencing gives %d instead of the slot's result %d", v, f.lastVal);
  }
#endif
}
template <class It> Ret MonCombiner::operator()(It first, It last) const {
  if (magic != 0xC0B) fail(T(14, 22), "dead combiner invoked");
  int my = id;
  Guard g(my);
  Frame &f = *g.f;
  int acc = 17;
  Rng &r = W->rng;
  for (;;) {
    bool end = W->rng.chance(1, 2) ? first == last : !(first != last);
    if (end) { end_of_range(f); break; }
    if (f.pos >= f.snap.size()) fail(T(14, 1, 2), "range has an element but no slot is left");
    if (r.chance(1, 40)) { f.stopped = true; tr("combiner stops"); stats().add("combiner_early_stop"); break; }
    if (r.chance(1, 30)) {
      // skip an element: only if the model knows for sure which one it is
      bool sure = false;
      size_t p = f.pos;
      for (; p < f.snap.size(); ++p) { Tri k = callable(f.snap[p]); if (k == MAYBE) break; if (k == YES) { sure = true; break; } }
      if (sure) {
        tr("combiner skips conn %d", f.snap[p]);
        int before = f.nCalls;
        f.pos = p + 1;
        ++first;
        if (f.nCalls != before) fail(T(14), "a slot was called without being dereferenced");
        stats().add("combiner_skip");
        continue;
      }
    }
    if (r.chance(1, 120)) {
      int v = ++W->counter;
      W->lastThrown = v;
      f.excOut = true;
      W->impls[f.impl].ctxtags |= T(12);
      tr("combiner throws %d", v);
      for (int q : f.snap) W->threw.insert(W->conns[q].fn);
      throw_user(W->lastKind = W->rng.below(USER_EXC_KINDS), v);
    }
    int before = f.nCalls;
    bool got = false;
    f.haveVal = false;
    try {
      if (r.chance(1, 5)) { It copy = first; deref(copy, f); }
      else deref(first, f);
      got = true;
      if (f.nCalls != before + 1) fail(T(14, 1), "dereference made %d slot calls", f.nCalls - before);
      if (r.chance(1, 4)) {
        deref(first, f);
        if (f.nCalls != before + 1) fail(T(14, 1), "second dereference called the slot again");
        stats().add("combiner_double_deref");
      }
    } catch (const bs::expired_slot &) {
      if (f.nCalls != before + 1 || f.excOut) fail(T(12, 14), "unexpected expired_slot");
      // a slot whose call reported expiry has been disconnected
      f.excOut = false;
    } catch (...) {
      the_exception("the combiner");
      if (r.chance(1, 2)) { f.excOut = true; throw; }
      f.excOut = false;
      stats().add("combiner_swallow");
    }
    if (magic != 0xC0B || id != my) fail(T(14), "combiner replaced while it is running");
    if (got) acc = int(unsigned(acc) * 31u + unsigned(f.lastVal));
    if (g_depth) fail(T(9), "mutex held in combiner");
    ++first;
    f.cur = -1;
  }
  // past the last slot nothing of the slots is kept any more; the invocation itself goes on as long as the combiner does
  if (!f.stopped && r.chance(1, 3)) {
    int nops = W->budget > 0 && W->frames.size() < 5 && r.chance(1, 2) ? r.below(3) : 0;
    for (int i = 0; i < nops; ++i) random_op(int(W->frames.size()));
    check_world(false);
    if (&f != W->frames.back()) fail(T(3), "harness: frame stack corrupted");
    if (magic != 0xC0B || id != my) fail(T(14), "combiner replaced while it is running");
    if (!(first == last) || first != last) fail(T(14), "the end of the range has moved");
    stats().add("combiner_after_end", 1 + nops);
  }
  f.result = acc;
  // the parent of a nested invocation sees this as the result of its slot
  if (W->frames.size() >= 2 && g.pushed) { Frame &p = *W->frames[W->frames.size() - 2]; p.lastVal = acc; p.haveVal = true; }
  return ret(acc);
}
#endif

// ---------------------------------------------------------------- model helpers
static void model_disc(int c, Tags why = 0) {
  MConn &m = W->conns[c];
  if (m.disc) return;
  m.disc = true;
  auto &l = W->impls[m.impl].list;
  l.erase(std::remove(l.begin(), l.end(), c), l.end());
  mutate(m.impl, T(4) | why);
}
static void model_insert(int c, int section, int group, bool front) {
  MConn &m = W->conns[c];
  m.section = section;
  m.group = group;
  MImpl &im = W->impls[m.impl];
  auto less = [&](int a, int b) {
    const MConn &x = W->conns[a], &y = W->conns[b];
    if (x.section != y.section) return x.section < y.section;
    return x.section == 1 && gless(im.desc, x.group, y.group);
  };
  size_t p;
  if (front) { p = 0; while (p < im.list.size() && less(im.list[p], c)) ++p; }
  else { p = im.list.size(); while (p > 0 && less(c, im.list[p - 1])) --p; }
  im.list.insert(im.list.begin() + p, c);
  mutate(m.impl);
}
static bool fnMustLive(int fn, bool &may) {
  bool must = false;
  may = false;
  for (size_t c = 0; c < W->conns.size(); ++c) {
    const MConn &m = W->conns[c];
    if (m.fn != fn || m.kind == FK_SIGSLOT) continue;
    if (inUse(c)) { must = may = true; break; }
    if (m.disc) continue;
    if (W->impls[m.impl].owner || zombie(m.impl)) may = true;
    if (W->impls[m.impl].owner && unexpired(c) == YES) must = true;
  }
  for (int i = 0; i < NSLOTOBJ; ++i) if (W->sobj[i].used && W->sobj[i].fn == fn) must = may = true;
  return must;
}
static void check_obj(int o) {
  MObj &m = W->objs[o];
  if (m.kind == OK_TRACKABLE) return;
  bool used = m.strong;
  if (!used)
    for (Frame *f : W->frames)
      if (f->cur >= 0) {
        const MConn &c = W->conns[f->cur];
        if (std::find(c.objs.begin(), c.objs.end(), o) != c.objs.end()) used = true;
      }
  if (m.alive && !used) SOFT(T(6, 7), "tracked object %d kept alive although nothing owns it", o);
  if (!m.alive && m.strong) fail(T(6, 22), "tracked object %d destroyed although it is owned", o);
}
static void check_conn(int c) {
  MConn &m = W->conns[c];
  if (!m.haveHandle) return;
  Tri k = connectedNow(c);
  stats().add("queries");
  Tags t = T(4, 15) | connTags(c);
  bool real = m.handle.connected();
  if (k == YES && !real) SOFT(t, "connection %d reports disconnected", c);
  if (k == NO && real) SOFT(t, "connection %d reports connected", c);
  bool b = m.handle.blocked();
  bool ub = blockedByUser(c);
  if ((ub || k == NO) && !b) SOFT(T(5), "connection %d reports not blocked although it is %s", c, ub ? "blocked" : "disconnected");
  if (!ub && k == YES && b) SOFT(T(5), "connection %d reports blocked", c);
}
static void check_sig(int i) {
  if (!W->sig[i]) return;
  Sig &s = *W->sig[i];
  stats().add("queries");
  if (s.null() != (W->sigImpl[i] < 0)) fail(T(16), "null() is wrong");
  if (W->sigImpl[i] < 0) {
    if (s.num_slots() != 0 || !s.empty()) fail(T(16), "null signal not empty");
    return;
  }
  MImpl &im = W->impls[W->sigImpl[i]];
  size_t lo = 0, hi = 0;
  for (int c : im.list) { Tri k = connectedNow(c); if (k == YES) ++lo; if (k != NO) ++hi; }
  size_t n = s.num_slots();
  bool e = s.empty();
  Tags t = T(4) | im.ctxtags;
  for (int c : im.list) t |= connTags(c);
  if (n < lo || n > hi) SOFT(t, "num_slots() of signal %d is %zu instead of %zu", W->sigImpl[i], n, lo);
  if (e ? lo > 0 : hi == 0) SOFT(t, "empty() of signal %d is %d with %zu slots", W->sigImpl[i], e, lo);
#if !CFG_DEFCOMB
  if (W->rng.chance(1, 8) && s.combiner().id != im.comb) SOFT(T(14), "combiner() returns another combiner");
#endif
}
static void check_world(bool full) {
  if (W->quiet && !full && !W->rng.chance(1, 10)) return;
  for (size_t o = 0; o < W->objs.size(); ++o) if (full || W->rng.chance(1, 2)) check_obj(o);
  for (size_t fn = 1; fn < W->alive.size(); ++fn) {
    if (!full && !W->rng.chance(1, 2)) continue;
    bool may, must = fnMustLive(fn, may);
    if (must && W->alive[fn] <= 0) fail(T(7) | thrown_tag(int(fn)), "slot function %zu destroyed although connected or running", fn);
    if (!may && W->alive[fn] > 0) SOFT(T(7) | thrown_tag(int(fn)), "slot function %zu still alive (%d copies) although disconnected and not running", fn, W->alive[fn]);
  }
  if (full) {
    for (size_t c = 0; c < W->conns.size(); ++c) check_conn(c);
    for (int i = 0; i < NSIG; ++i) check_sig(i);
  } else {
    if (!W->conns.empty()) check_conn(W->rng.below(W->conns.size()));
    check_sig(W->rng.below(NSIG));
  }
  if (g_depth) fail(T(9, 20), "a library mutex is still locked");
  stats().add("checks");
}

// ---------------------------------------------------------------- operations
static int pickSig(bool nonnull = true) {
  for (int k = 0; k < 8; ++k) { int i = W->rng.below(NSIG); if (W->sig[i] && (!nonnull || W->sigImpl[i] >= 0)) return i; }
  return -1;
}
static int pickConn() {
  if (W->conns.empty()) return -1;
  for (int k = 0; k < 4; ++k) { int c = W->rng.below(W->conns.size()); if (!W->conns[c].disc && W->conns[c].haveHandle) return c; }
  int c = W->rng.below(W->conns.size());
  return W->conns[c].haveHandle ? c : -1;
}
static int newObj(ObjKind k) {
  int id = W->objs.size();
  MObj m;
  m.kind = k;
  m.alive = m.strong = true;
  m.t = 0;
  W->objs.push_back(m);
  MObj &r = W->objs.back();
  if (k == OK_BOOST) { if (W->rng.chance(1, 2)) r.b = boost::make_shared<Tracked>(id); else r.b.reset(new Tracked(id)); }
  else if (k == OK_STD) r.s = std::make_shared<Tracked>(id);
  else if (k == OK_MY) r.m.p = std::make_shared<Tracked>(id);
  else r.t = new TObj(id);
  return id;
}
static int pickObj(bool trackable) {
  for (int k = 0; k < 6; ++k) {
    if (W->objs.empty()) break;
    int o = W->rng.below(W->objs.size());
    if ((W->objs[o].kind == OK_TRACKABLE) == trackable && W->objs[o].alive && W->objs[o].strong) return o;
  }
  return newObj(trackable ? OK_TRACKABLE : ObjKind(W->rng.below(3)));
}
template <class S> static void track(S &s, int o) {
  MObj &m = W->objs[o];
  switch (m.kind) {
    case OK_BOOST: if (W->rng.chance(1, 4)) s.track_foreign(boost::weak_ptr<Tracked>(m.b)); else s.track(m.b); break;
    case OK_STD: if (W->rng.chance(1, 2)) s.track_foreign(m.s); else s.track_foreign(std::weak_ptr<Tracked>(m.s)); break;
    case OK_MY: if (W->rng.chance(1, 2)) s.track_foreign(m.m); else s.track_foreign(MyWeak<Tracked>(m.m)); break;
    default: break;
  }
}
static void drop_obj(int o) {
  MObj &m = W->objs[o];
  if (!m.strong) return;
  if (m.kind == OK_TRACKABLE) {
    for (Frame *f : W->frames)
      if (f->cur >= 0) {
        const MConn &c = W->conns[f->cur];
        if (std::find(c.objs.begin(), c.objs.end(), o) != c.objs.end()) return; // it is executing
      }
    for (MConn &c : W->conns) if (std::find(c.objs.begin(), c.objs.end(), o) != c.objs.end()) mutate(c.impl, T(6, 23));
    m.strong = false;
    TObj *t = m.t;
    m.t = 0;
    tr("delete trackable %d", o);
    delete t;
    return;
  }
  for (MConn &c : W->conns) if (std::find(c.objs.begin(), c.objs.end(), o) != c.objs.end()) mutate(c.impl, T(6));
  tr("drop owner of object %d", o);
  m.strong = false;
  boost::shared_ptr<Tracked> b;
  std::shared_ptr<Tracked> s;
  MyShared<Tracked> y;
  b.swap(m.b);
  s.swap(m.s);
  y.p.swap(m.m.p);
}

static void new_signal(int i) {
  MImpl im;
  im.owner = true;
  im.desc = W->rng.chance(1, 2);
  im.comb = W->nextComb++;
  im.ctxtags = 0;
  W->impls.push_back(im);
#if CFG_DEFCOMB
  W->sig[i].reset(new Sig(Comb(), mkcmp(im.desc)));
#else
  W->sig[i].reset(new Sig(MonCombiner(im.comb), mkcmp(im.desc)));
#endif
  W->sigImpl[i] = W->impls.size() - 1;
  tr("new signal %d in holder %d", W->sigImpl[i], i);
}
static void model_destroy_impl(int impl) {
  if (impl < 0) return;
  mutate(impl, T(16));
  W->impls[impl].owner = false;
  // slots tracking the signal expire
  for (MConn &c : W->conns) if (c.target == impl || std::find(c.timpls.begin(), c.timpls.end(), impl) != c.timpls.end()) mutate(c.impl, T(6, 16));
}

static FnKind pickFnKind() {
  unsigned k = W->rng.below(10);
  return k < 4 ? FK_PLAIN : k < 6 ? FK_SMALL : k < 8 ? FK_EXT : k == 8 ? (W->rng.chance(1, 2) ? FK_TREF : FK_TPTR) : FK_SIG;
}
// build the slot of a new function object; false if not possible
static bool make_slot(FnKind kind, int fn, int key, vector<int> &objs, vector<int> &timpls, std::unique_ptr<Slot> &s, std::unique_ptr<XSlot> &x) {
  using namespace boost::placeholders;
  switch (kind) {
    case FK_PLAIN: s.reset(new Slot(Fn(fn, key))); break;
    case FK_SMALL: s.reset(new Slot(FnSmall(fn, key))); break;
    case FK_EXT: x.reset(new XSlot(FnX(fn, key))); break;
    case FK_TREF: { int o = pickObj(true); objs.push_back(o); s.reset(new Slot(boost::bind(FnT(fn, key), boost::ref(*W->objs[o].t), _1, _2, _3))); break; }
    case FK_TPTR: {
      int o = pickObj(true);
      objs.push_back(o);
      if (W->rng.chance(1, 3)) s.reset(new Slot(FnT(fn, key), W->objs[o].t, _1, _2, _3)); // bind-style construction
      else s.reset(new Slot(boost::bind(FnT(fn, key), W->objs[o].t, _1, _2, _3)));
      break;
    }
    case FK_SIG: {
      int g = pickSig();
      if (g < 0) return false;
      timpls.push_back(W->sigImpl[g]);
      if (W->rng.chance(1, 2)) s.reset(new Slot(boost::bind(FnT(fn, key), W->sig[g].get(), _1, _2, _3)));
      else s.reset(new Slot(boost::bind(FnT(fn, key), boost::ref(*W->sig[g]), _1, _2, _3)));
      break;
    }
    default: return false;
  }
  unsigned nt = W->rng.chance(1, 3) ? (W->rng.chance(1, 6) ? 8 + W->rng.below(40) : 1 + W->rng.below(3)) : 0;
  for (unsigned i = 0; i < nt; ++i) {
    int o = pickObj(false);
    objs.push_back(o);
    if (s) track(*s, o); else track(*x, o);
  }
  if (W->rng.chance(1, 12)) { // track a signal
    int g = pickSig();
    if (g >= 0) { timpls.push_back(W->sigImpl[g]); if (s) s->track(*W->sig[g]); else x->track(*W->sig[g]); }
  }
  if (W->rng.chance(1, 15)) { // track everything another slot tracks
    int k = W->rng.below(NSLOTOBJ);
    if (W->sobj[k].used) {
      const SlotObj &so = W->sobj[k];
      objs.insert(objs.end(), so.objs.begin(), so.objs.end());
      timpls.insert(timpls.end(), so.timpls.begin(), so.timpls.end());
      const bs::slot_base &sb = so.ext ? static_cast<const bs::slot_base &>(*so.x) : *so.s;
      if (s) s->track(sb); else x->track(sb);
    }
  }
  return true;
}
static int new_fn() { W->alive.push_back(0); return W->alive.size() - 1; }

static void do_connect(int g, int fn, int key, FnKind kind, const vector<int> &objs, const vector<int> &timpls, Slot *s, XSlot *x, int target = -1) {
  MConn m;
  m.impl = W->sigImpl[g];
  m.fn = fn;
  m.key = key;
  m.kind = kind;
  m.target = target;
  m.disc = m.haveHandle = m.everBlocked = false;
  m.objs = objs;
  m.timpls = timpls;
  W->conns.push_back(m);
  int c = W->conns.size() - 1;
  bool front = W->rng.chance(1, 3), grouped = W->rng.chance(1, 2);
  int grp = W->rng.below(6);
  bool defpos = !front && W->rng.chance(1, 2);
  model_insert(c, grouped ? 1 : front ? 0 : 2, grp, front);
  tr("connect conn %d fn %d kind %d key %d to signal %d %s%d %s ntracked %zu", c, fn, kind, key, m.impl, grouped ? "group " : "nogroup", grouped ? grp : 0, front ? "front" : "back", objs.size() + timpls.size());
  bs::connect_position pos = front ? bs::at_front : bs::at_back;
  Sig &sg = *W->sig[g];
  bs::connection h;
  if (x) {
    if (grouped) h = defpos ? sg.connect_extended(mkgroup(grp), *x) : sg.connect_extended(mkgroup(grp), *x, pos);
    else h = defpos ? sg.connect_extended(*x) : sg.connect_extended(*x, pos);
  } else {
    if (grouped) h = defpos ? sg.connect(mkgroup(grp), *s) : sg.connect(mkgroup(grp), *s, pos);
    else h = defpos ? sg.connect(*s) : sg.connect(*s, pos);
  }
  W->conns[c].handle = h;
  W->conns[c].haveHandle = true;
  ev(6, c);
  stats().add("connects");
}
// many slots that track one of two objects: when these go, one operation has many slots to collect
static void op_emit(int g = -1);
static void op_mass(int g) {
  unsigned n = 8 + W->rng.below(24);
  int o[2] = {pickObj(false), pickObj(false)};
  for (unsigned i = 0; i < n; ++i) {
    int fn = new_fn(), key = W->rng.below(4);
    vector<int> objs(1, o[W->rng.chance(1, 6)]), timpls;
    std::unique_ptr<Slot> s;
    std::unique_ptr<XSlot> x;
    unsigned k = W->rng.below(3);
    if (k == 0) s.reset(new Slot(Fn(fn, key))); else if (k == 1) s.reset(new Slot(FnSmall(fn, key))); else x.reset(new XSlot(FnX(fn, key)));
    if (s) track(*s, objs[0]); else track(*x, objs[0]);
    do_connect(g, fn, key, k == 0 ? FK_PLAIN : k == 1 ? FK_SMALL : FK_EXT, objs, timpls, s.get(), x.get());
  }
  W->massObj = o[0];
  W->massImpl = W->sigImpl[g];
  if (W->rng.chance(1, 3)) mass_drop();
  else if (W->rng.chance(1, 2)) { W->massArmed = true; op_emit(g); W->massArmed = false; }
}
static void op_connect(int g = -1) {
  if (g < 0) g = pickSig();
  if (g < 0 || W->conns.size() > 120) return;
  if (W->conns.size() < 90 && W->rng.chance(1, 80)) { op_mass(g); return; }
  if (W->impls[W->sigImpl[g]].list.size() > 24) return;
  if (W->rng.chance(1, 8)) { // a kept slot object
    int k = W->rng.below(NSLOTOBJ);
    SlotObj &so = W->sobj[k];
    if (so.used) { do_connect(g, so.fn, so.key, so.kind, so.objs, so.timpls, so.s.get(), so.x.get()); return; }
  }
  FnKind kind = pickFnKind();
  int fn = new_fn(), key = W->rng.below(4);
  vector<int> objs, timpls;
  std::unique_ptr<Slot> s;
  std::unique_ptr<XSlot> x;
  if (!make_slot(kind, fn, key, objs, timpls, s, x)) return;
  do_connect(g, fn, key, kind, objs, timpls, s.get(), x.get());
}
static void op_slotobj() {
  int k = W->rng.below(NSLOTOBJ);
  SlotObj &so = W->sobj[k];
  if (!so.used) {
    vector<int> objs, timpls;
    std::unique_ptr<Slot> s;
    std::unique_ptr<XSlot> x;
    FnKind kind = pickFnKind();
    int fn = new_fn(), key = W->rng.below(4);
    if (!make_slot(kind, fn, key, objs, timpls, s, x)) return;
    if (so.used) return; // (destructor code may not get here, but be safe)
    so.used = true; so.fn = fn; so.key = key; so.kind = kind; so.objs = objs; so.timpls = timpls;
    so.ext = !!x;
    if (s) { if (W->rng.chance(1, 2)) { so.s.reset(new Slot(*s)); } else so.s = std::move(s); } else so.x = std::move(x);
    tr("slot object %d fn %d", k, fn);
    return;
  }
  unsigned what = W->rng.below(4);
  if (what == 0) {
    tr("destroy slot object %d", k);
    so.used = false;
    std::unique_ptr<Slot> s = std::move(so.s);
    std::unique_ptr<XSlot> x = std::move(so.x);
  } else if (what == 1) { // track one more; existing connections are not affected
    int o = pickObj(false);
    so.objs.push_back(o);
    if (so.s) track(*so.s, o); else track(*so.x, o);
    tr("slot object %d tracks %d", k, o);
  } else {
    Tri e = unexpired(so.objs, so.timpls, -1);
    bool ex = so.s ? so.s->expired() : so.x->expired();
    if (e == YES && ex) fail(T(18), "slot object reports expired");
    if (e == NO && !ex) fail(T(18), "slot object reports not expired");
    if (so.s) {
      int a = ++W->counter;
      Obj o = {a};
      W->directFn = so.fn;
      W->directArg = a;
      W->directObj = &o;
      bool thrown = false;
      tr("call slot object %d", k);
      try { if (W->rng.chance(1, 2)) (*so.s)(a, o, "direct"); else const_cast<const Slot &>(*so.s)(a, o, "direct"); } catch (const bs::expired_slot &) { thrown = true; }
      bool called = W->directFn == -2;
      W->directFn = -1;
      if (e == YES && (thrown || !called)) fail(T(18), "slot object not callable although nothing expired");
      if (e == NO && (!thrown || called)) fail(T(18, 6), "slot object called although a tracked object expired");
      stats().add("slot_object_calls");
    }
  }
}
static void op_emit(int g) {
  if (g < 0) g = pickSig();
  if (g < 0 || W->frames.size() >= 4 || W->calls > 1500) return;
  Obj obj = {1};
  Frame f;
  f.impl = W->sigImpl[g];
  f.snap = W->impls[f.impl].list;
  f.pos = 0; f.cur = -1; f.direct = true; f.began = f.ended = f.stopped = false;
  f.comb = W->impls[f.impl].comb;
  f.a = ++W->counter; f.obj = &obj;
  f.s = W->rng.chance(1, 2) ? "a string that is too long for the inline buffer" : "short";
  f.nCalls = f.lastVal = f.result = 0; f.haveVal = f.excOut = false; f.mut = 0;
  tr("%*semit signal %d (holder %d)", int(W->frames.size()) * 2, "", f.impl, g);
  ev(7, f.impl);
  stats().add(W->frames.empty() ? "emissions" : "nested_emissions");
  W->frames.push_back(&f);
  bool exc = false;
  const string arg = f.s;
#if CFG_VOID
  struct R {} r; (void)r;
#define CALL(x) x
#elif CFG_DEFCOMB
  boost::optional<int> r;
#define CALL(x) r = x
#else
  int r = 0;
#define CALL(x) r = x
#endif
  Sig *sp = W->sig[g].get();
  try {
    if (W->rng.chance(1, 3)) CALL((*const_cast<const Sig *>(sp))(f.a, obj, arg));
    else CALL((*sp)(f.a, obj, arg));
  } catch (const bs::expired_slot &) {
    fail(T(12, 14), "expired_slot reaches the invoker although the combiner handles it");
  } catch (...) {
    exc = true;
    the_exception("the invoker");
    if (!f.excOut) fail(T(12), "an exception reaches the invoker although the combiner handled it");
  }
  if (W->frames.empty() || W->frames.back() != &f) fail(T(3), "harness: frames");
  f.cur = -1;
  W->frames.pop_back();
  if (exc) { stats().add("emissions_ended_by_exception"); }
  else {
#if CFG_DEFCOMB
    if (f.excOut) fail(T(12), "exception of a slot was swallowed");
    W->frames.push_back(&f); // model state as at the end of the invocation
    end_of_range(f);
    W->frames.pop_back();
#if !CFG_VOID
    // value of the last slot that returned normally
    if (!r != (f.nCalls == 0 || !f.result)) {}
    (void)r;
#endif
#else
    if (!f.began) fail(T(14, 1), "invocation did not invoke the combiner");
    if (f.excOut) fail(T(12), "exception of a slot was swallowed");
    if (!f.ended && !f.stopped) fail(T(14, 1), "invocation returned before its combiner finished");
#if !CFG_VOID
    if (r != f.result) fail(T(14, 1), "invocation returns %d, its combiner returned %d", r, f.result);
#endif
#endif
  }
#undef CALL
  if (f.mut) stats().add("emissions_mutated");
  tr("%*send of emission of signal %d", int(W->frames.size()) * 2, "", f.impl);
  check_world(W->rng.chance(1, 4));
}
static void op_disconnect_handle() {
  int c = pickConn();
  if (c < 0) return;
  tr("disconnect conn %d", c);
  bs::connection h = W->conns[c].handle;
  model_disc(c);
  h.disconnect();
  if (h.connected()) fail(T(4, 15), "connected after disconnect()");
  if (W->rng.chance(1, 5)) h.disconnect();
  stats().add("disconnects");
  if (!inUse(c)) { // its function object is gone unless used elsewhere
    bool may, must = fnMustLive(W->conns[c].fn, may);
    (void)must;
    if (!may && W->conns[c].kind != FK_SIGSLOT && W->alive[W->conns[c].fn] > 0) SOFT(T(7) | thrown_tag(W->conns[c].fn), "slot function alive after disconnect() returned");
  }
}
static void op_disconnect_group() {
  int g = pickSig(false);
  if (g < 0) return;
  int grp = W->rng.below(6);
  if (W->sigImpl[g] >= 0) {
    MImpl &im = W->impls[W->sigImpl[g]];
    vector<int> l = im.list;
    for (int c : l) {
      const MConn &m = W->conns[c];
      if (m.section == 1 && !gless(im.desc, m.group, grp) && !gless(im.desc, grp, m.group)) model_disc(c);
    }
  }
  tr("disconnect group %d of holder %d", grp, g);
  switch (W->rng.below(6)) { // any type that converts to the group type names a group
#if CFG_GROUP == 0
    case 0: W->sig[g]->disconnect(short(grp)); break;
    case 1: W->sig[g]->disconnect((unsigned char)(grp)); break;
    case 2: W->sig[g]->disconnect(static_cast<GroupName>(grp)); break;
    case 3: { const long l = grp; W->sig[g]->disconnect(l); break; }
#elif CFG_GROUP == 1
    case 0: { const ToGroup v = {grp}; W->sig[g]->disconnect(v); break; }
#else
    case 0: { const string v = mkgroup(grp); W->sig[g]->disconnect(v.c_str()); break; }
#endif
    default: W->sig[g]->disconnect(mkgroup(grp));
  }
  stats().add("group_disconnects");
}
static void op_disconnect_all() {
  int g = pickSig(false);
  if (g < 0) return;
  if (W->sigImpl[g] >= 0) { vector<int> l = W->impls[W->sigImpl[g]].list; for (int c : l) model_disc(c); }
  tr("disconnect all slots of holder %d", g);
  W->sig[g]->disconnect_all_slots();
  if (!W->sig[g]->empty()) fail(T(4), "not empty after disconnect_all_slots()");
  stats().add("all_disconnects");
}
static void op_disconnect_fn() {
  int g = pickSig(false);
  if (g < 0) return;
  int key = W->rng.below(4);
  FnKind k = FnKind(W->rng.below(3));
  tr("disconnect function kind %d key %d of holder %d", k, key, g);
  if (W->sigImpl[g] >= 0) {
    vector<int> l = W->impls[W->sigImpl[g]].list;
    for (int c : l) if (W->conns[c].kind == k && W->conns[c].key == key) model_disc(c, k == FK_EXT ? T(17) : 0);
  }
  bool ref = W->rng.chance(1, 4);
  if (k == FK_PLAIN) { Fn f(0, key); if (ref) W->sig[g]->disconnect(boost::ref(f)); else W->sig[g]->disconnect(f); }
  else if (k == FK_SMALL) { FnSmall f(0, key); W->sig[g]->disconnect(f); }
  else { FnX f(0, key); W->sig[g]->disconnect(f); }
  stats().add("fn_disconnects");
}
static void op_obj() {
  unsigned k = W->rng.below(6);
  if (k < 3) { if (!W->objs.empty()) drop_obj(W->rng.below(W->objs.size())); }
  else if (k == 3) { if (W->objs.size() < 200) newObj(ObjKind(W->rng.below(4))); }
  else if (k == 4) { // copy a trackable
    int o = pickObj(true);
    if (W->objs.size() > 200) return;
    TObj *src = W->objs[o].t;
    int id = W->objs.size();
    MObj m;
    m.kind = OK_TRACKABLE; m.alive = m.strong = true; m.t = new TObj(*src, id);
    W->objs.push_back(m);
    tr("copy trackable %d to %d", o, id);
  } else { // assign a trackable: from an object with connections to one
    int o = pickObj(true), p = pickObj(true);
    // whether assigning breaks connections of the target is not specified: use a target without any
    for (MConn &c : W->conns) if (std::find(c.objs.begin(), c.objs.end(), p) != c.objs.end()) return;
    for (int i = 0; i < NSLOTOBJ; ++i) if (W->sobj[i].used && std::find(W->sobj[i].objs.begin(), W->sobj[i].objs.end(), p) != W->sobj[i].objs.end()) return;
    tr("assign trackable %d to %d", o, p);
    *W->objs[p].t = *W->objs[o].t;
  }
}
static void op_block() {
  int b = W->rng.below(NBLOCK);
  auto touched = [&](int c) { if (c >= 0) { W->conns[c].everBlocked = true; mutate(W->conns[c].impl); } };
  if (!W->block[b]) {
    int c = W->rng.chance(1, 10) ? -1 : pickConn();
    bool on = W->rng.chance(3, 4);
    W->blockConn[b] = c;
    W->blockOn[b] = on;
    touched(c);
    tr("block %d on conn %d (%d)", b, c, on);
    W->block[b].reset(c < 0 ? (on ? new bs::shared_connection_block() : new bs::shared_connection_block(bs::connection(), false))
                            : on && W->rng.chance(1, 2) ? new bs::shared_connection_block(W->conns[c].handle) : new bs::shared_connection_block(W->conns[c].handle, on));
  } else {
    touched(W->blockConn[b]);
    unsigned k = W->rng.below(7);
    if (k == 0) { tr("destroy block %d", b); std::unique_ptr<bs::shared_connection_block> p = std::move(W->block[b]); W->blockOn[b] = false; W->blockConn[b] = -1; }
    else if (k <= 2) { tr("unblock %d", b); W->blockOn[b] = false; W->block[b]->unblock(); }
    else if (k <= 3) { tr("block() %d", b); W->blockOn[b] = true; W->block[b]->block(); }
    else {
      int d = W->rng.below(NBLOCK);
      if (k == 4) { // copy construct
        if (d == b) return;
        tr("copy block %d to %d", b, d);
        touched(W->blockConn[d]);
        std::unique_ptr<bs::shared_connection_block> n(new bs::shared_connection_block(*W->block[b]));
        W->block[d] = std::move(n);
        W->blockConn[d] = W->blockConn[b];
        W->blockOn[d] = W->blockOn[b];
      } else if (W->block[d]) {
        tr("assign block %d to %d", b, d);
        touched(W->blockConn[d]);
        *W->block[d] = *W->block[b];
        W->blockConn[d] = W->blockConn[b];
        W->blockOn[d] = W->blockOn[b];
      }
    }
  }
  stats().add("block_ops");
  for (int i = 0; i < NBLOCK; ++i)
    if (W->block[i]) {
      if (W->block[i]->blocking() != W->blockOn[i]) fail(T(5), "blocking() of block %d is wrong", i);
      int c = W->blockConn[i];
      if (W->blockOn[i] && !W->block[i]->connection().blocked()) fail(T(5), "connection with a block on it reports not blocked");
      if (c >= 0 && connectedNow(c) == YES && !(W->block[i]->connection() == W->conns[c].handle)) fail(T(5), "connection() of a block is another connection");
      if (c < 0 && W->block[i]->connection().connected()) fail(T(5), "null block refers to a connection");
    }
}
static void check_scoped() {
  for (int i = 0; i < NSCOPED; ++i)
    if (W->scoped[i]) {
      int c = W->scopedConn[i];
      Tri k = c < 0 ? NO : connectedNow(c);
      bool r = W->scoped[i]->connected();
      if ((k == YES && !r) || (k == NO && r)) fail(T(15) | (c >= 0 ? connTags(c) : 0), "scoped_connection %d (conn %d) connected()=%d", i, c, r);
      if (k == YES && !(*W->scoped[i] == W->conns[c].handle)) fail(T(15), "scoped_connection refers to another connection");
    }
}
static bool otherOwner(int i, int c) { // another scoped_connection owns the same connection
  for (int k = 0; k < NSCOPED; ++k) if (k != i && W->scoped[k] && W->scopedConn[k] == c) return true;
  return false;
}
#ifdef BOOST_NO_CXX11_RVALUE_REFERENCES
// compilers without rvalue references: connections are not moved
static inline bs::connection take(bs::connection &c) { bs::connection k(c); c = bs::connection(); return k; }
static inline bs::connection take(bs::scoped_connection &c) { return c.release(); }
#define HAVE_MOVE 0
#else
template <class X> static inline X &&take(X &x) { return static_cast<X &&>(x); }
#define HAVE_MOVE 1
#endif
static void op_scoped() {
  int i = W->rng.below(NSCOPED), j = W->rng.below(NSCOPED);
  int &ci = W->scopedConn[i];
  unsigned k = W->rng.below(9);
  stats().add("scoped_ops");
  if (!W->scoped[i]) {
    if (k == 0 || k == 1) { W->scoped[i].reset(new bs::scoped_connection()); ci = -1; }
    else if (k == 2 && W->scoped[j]) { // move construct
      tr("scoped %d <- move-construct from %d", i, j);
      W->scoped[i].reset(new bs::scoped_connection(take(*W->scoped[j])));
      ci = W->scopedConn[j];
      W->scopedConn[j] = -1;
    } else if (k == 3) { // from a moved plain connection
      int h = W->rng.below(NHAND);
      tr("scoped %d <- moved handle %d (conn %d)", i, h, W->handConn[h]);
      W->scoped[i].reset(new bs::scoped_connection(take(W->hand[h])));
      ci = W->handConn[h];
      W->handConn[h] = -1;
    } else {
      int c = pickConn();
      if (c < 0) return;
      tr("scoped %d <- conn %d", i, c);
      W->scoped[i].reset(new bs::scoped_connection(W->conns[c].handle));
      ci = c;
    }
  } else {
    switch (k) {
      case 0: case 1: {
        tr("destroy scoped %d (conn %d)", i, ci);
        std::unique_ptr<bs::scoped_connection> p = std::move(W->scoped[i]);
        int c = ci;
        ci = -1;
        if (c >= 0) model_disc(c, T(15));
        break;
      }
      case 2: {
        int c = pickConn();
        if (c < 0) return;
        tr("assign conn %d to scoped %d (conn %d)", c, i, ci);
        int old = ci;
        bs::connection h = W->conns[c].handle;
        if (old >= 0) model_disc(old, T(15));
        ci = c;
        *W->scoped[i] = h;
        break;
      }
      case 3: {
        tr("release scoped %d (conn %d)", i, ci);
        bs::connection h = W->scoped[i]->release();
        int c = ci;
        ci = -1;
        if (W->scoped[i]->connected()) fail(T(15), "scoped_connection connected after release()");
        if (c >= 0 && connectedNow(c) == YES && (!h.connected() || h != W->conns[c].handle)) fail(T(15), "release() returned another connection");
        int n = W->rng.below(NHAND);
        W->hand[n] = h;
        W->handConn[n] = c;
        break;
      }
      case 4: case 5: {
        if (!W->scoped[j]) return;
        tr("move-assign scoped %d to %d", j, i);
        if (i == j) { if (HAVE_MOVE) { bs::scoped_connection &r = *W->scoped[i]; r = take(r); } break; }
        int old = ci, nw = W->scopedConn[j];
        if (old >= 0) model_disc(old, T(15));
        ci = nw;
        W->scopedConn[j] = -1;
        *W->scoped[i] = take(*W->scoped[j]);
        break;
      }
      case 6: {
        if (!W->scoped[j]) return;
        tr("swap scoped %d %d", i, j);
        if (W->rng.chance(1, 2)) boost::signals2::swap(*W->scoped[i], *W->scoped[j]); else W->scoped[i]->swap(*W->scoped[j]);
        std::swap(W->scopedConn[i], W->scopedConn[j]);
        break;
      }
      case 7: {
        tr("disconnect scoped %d", i);
        if (ci >= 0) model_disc(ci);
        W->scoped[i]->disconnect();
        break;
      }
      case 8: { // move a plain connection in
        int h = W->rng.below(NHAND);
        tr("move-assign handle %d to scoped %d", h, i);
        int old = ci, nw = W->handConn[h];
        if (old >= 0) model_disc(old, T(15));
        ci = nw;
        W->handConn[h] = -1;
        *W->scoped[i] = take(W->hand[h]);
        break;
      }
    }
  }
  (void)otherOwner;
  check_scoped();
}
static void op_handle() {
  int i = W->rng.below(NHAND), j = W->rng.below(NHAND);
  switch (W->rng.below(7)) {
    case 0: case 1: { int c = pickConn(); if (c < 0) return; W->hand[i] = W->conns[c].handle; W->handConn[i] = c; break; }
    case 2: W->hand[i] = W->hand[j]; W->handConn[i] = W->handConn[j]; break;
    case 3: {
      if (i == j) { if (HAVE_MOVE) { bs::connection &r = W->hand[i]; r = take(r); } break; }
      W->hand[i] = take(W->hand[j]);
      W->handConn[i] = W->handConn[j];
      W->handConn[j] = -1;
      break;
    }
    case 4: { if (W->rng.chance(1, 2)) swap(W->hand[i], W->hand[j]); else W->hand[i].swap(W->hand[j]); std::swap(W->handConn[i], W->handConn[j]); break; }
    case 5: { bs::connection n(take(W->hand[i])); W->hand[j] = n; int c = W->handConn[i]; W->handConn[i] = -1; W->handConn[j] = c; break; }
    case 6: { tr("disconnect handle %d (conn %d)", i, W->handConn[i]); if (W->handConn[i] >= 0) model_disc(W->handConn[i]); bs::connection(W->hand[i]).disconnect(); break; }
  }
  stats().add("handle_ops");
  for (int k = 0; k < NHAND; ++k) {
    int c = W->handConn[k];
    Tri t = c < 0 ? NO : connectedNow(c);
    bool r = W->hand[k].connected();
    if ((t == YES && !r) || (t == NO && r)) fail(T(15, 4) | (c >= 0 ? connTags(c) : 0), "handle %d (conn %d) connected()=%d", k, c, r);
    if (c < 0 && !W->hand[k].blocked()) fail(T(15, 5), "null connection reports not blocked");
  }
  int ci = W->handConn[i], cj = W->handConn[j];
  bool eq = W->hand[i] == W->hand[j], ne = W->hand[i] != W->hand[j], lt = W->hand[i] < W->hand[j], gt = W->hand[j] < W->hand[i];
  if (eq == ne || (eq && (lt || gt)) || (lt && gt) || (!eq && !lt && !gt)) fail(T(15), "comparison of connections is inconsistent");
  if (ci == cj && !eq) fail(T(15), "copies of a connection compare unequal");
  if (ci >= 0 && ci != cj && connectedNow(ci) == YES && eq) fail(T(15), "different connections compare equal");
}
static void op_signal() {
  int i = W->rng.below(NSIG), j = W->rng.below(NSIG);
  unsigned k = W->rng.below(8);
  if (!W->sig[i]) {
#if HAVE_MOVE
    if (W->sig[j] && !W->refMode && W->rng.chance(1, 3)) {
      tr("move-construct signal holder %d from %d", i, j);
      if (W->sigImpl[j] >= 0) mutate(W->sigImpl[j], T(16));
      W->sig[i].reset(new Sig(std::move(*W->sig[j])));
      W->sigImpl[i] = W->sigImpl[j];
      W->sigImpl[j] = -1;
      return;
    }
#endif
    if (W->impls.size() < 10) new_signal(i);
    return;
  }
  if (k == 0) {
    if (W->rng.chance(1, 2)) return;
    if (W->refMode && !W->frames.empty()) return; // see DESIGN.md, known finding of C23
    tr("destroy signal holder %d (signal %d)", i, W->sigImpl[i]);
    int im = W->sigImpl[i];
    std::unique_ptr<Sig> p = std::move(W->sig[i]);
    W->sigImpl[i] = -1;
    model_destroy_impl(im);
    p.reset();
    stats().add("signal_destroyed");
    if (framesOn(im >= 0 ? im : 1 << 30)) stats().add("signal_destroyed_during_emission");
  } else if (k <= 3) {
    if (!W->sig[j] || W->refMode) return;
    tr("swap signals %d %d", i, j);
    for (int x : {W->sigImpl[i], W->sigImpl[j]}) if (x >= 0) mutate(x, T(16));
    if (W->rng.chance(1, 2)) swap(*W->sig[i], *W->sig[j]); else W->sig[i]->swap(*W->sig[j]);
    std::swap(W->sigImpl[i], W->sigImpl[j]);
    if (i != j && *W->sig[i] == *W->sig[j] && W->sigImpl[i] >= 0) fail(T(16), "different signals compare equal");
  } else if (k <= 5) {
#if HAVE_MOVE
    if (!W->sig[j] || W->refMode) return;
    tr("move-assign signal holder %d to %d", j, i);
    if (i == j) { Sig &r = *W->sig[i]; r = std::move(r); return; }
    int old = W->sigImpl[i], nw = W->sigImpl[j];
    if (nw >= 0) mutate(nw, T(16));
    W->sigImpl[i] = nw;
    W->sigImpl[j] = -1;
    if (old >= 0) model_destroy_impl(old);
    // user destructors run inside may look at both holders: the model already has the final state
    *W->sig[i] = std::move(*W->sig[j]);
    if (!W->sig[j]->null()) fail(T(16), "moved-from signal is not null");
#endif
  } else {
#if !CFG_DEFCOMB
    if (W->sigImpl[i] < 0) return;
    int id = W->nextComb++;
    tr("set combiner %d of signal %d", id, W->sigImpl[i]);
    mutate(W->sigImpl[i], T(14));
    W->impls[W->sigImpl[i]].comb = id;
    W->sig[i]->set_combiner(MonCombiner(id));
    if (W->sig[i]->combiner().id != id) fail(T(14), "combiner() does not return the combiner just set");
    stats().add("set_combiner");
#endif
  }
}
static void op_sigslot() {
#if !CFG_DEFCOMB
  int i = pickSig(), j = pickSig();
  if (i < 0 || j < 0) return;
  int a = W->sigImpl[i], b = W->sigImpl[j];
  if (a > b) { std::swap(a, b); std::swap(i, j); }
  if (a == b) return;
  if (W->rng.chance(1, 3)) { // disconnect by naming the signal
    vector<int> l = W->impls[a].list;
    for (int c : l) if (W->conns[c].kind == FK_SIGSLOT && W->conns[c].target == b) model_disc(c, T(16));
    tr("disconnect signal %d from signal %d", b, a);
    if (W->rng.chance(1, 3)) W->sig[i]->disconnect(boost::ref(*W->sig[j])); else W->sig[i]->disconnect(*W->sig[j]);
    return;
  }
  if (W->sigslots >= 4) return;
  ++W->sigslots;
  vector<int> none;
  if (W->refMode && W->rng.chance(1, 2)) { Slot s(boost::ref(*W->sig[j])); do_connect(i, 0, -1, FK_SIGSLOT, none, none, &s, 0, b); }
  else { Slot s(*W->sig[j]); do_connect(i, 0, -1, FK_SIGSLOT, none, none, &s, 0, b); }
  stats().add("signal_slot_connects");
#endif
}

enum { OP_CONNECT, OP_EMIT, OP_DH, OP_DG, OP_DA, OP_DF, OP_OBJ, OP_BLOCK, OP_SCOPED, OP_HANDLE, OP_SIGNAL, OP_SIGSLOT, OP_SLOTOBJ, NOPS };
static void mass_drop() {
  drop_obj(W->massObj);
  if (!W->objs[W->massObj].alive && framesOn(W->massImpl)) stats().add("mass_died_in_emission");
  for (int i = 0; i < NSIG; ++i) if (W->sig[i] && W->sigImpl[i] == W->massImpl && W->rng.chance(1, 2)) { op_connect(i); return; }
}
static unsigned g_w[NOPS] = {30, 16, 10, 2, 1, 2, 6, 6, 5, 5, 3, 3, 3};
static void random_op(int depth) {
  if (W->budget-- <= 0) return;
  (void)depth;
  unsigned tot = 0;
  for (unsigned w : g_w) tot += w;
  unsigned r = W->rng.below(tot);
  int op = 0;
  while (r >= g_w[op]) r -= g_w[op++];
  ev(8, op);
  if (W->massObj >= 0 && W->objs[W->massObj].strong && W->rng.chance(1, 20)) mass_drop();
  switch (op) {
    case OP_CONNECT: op_connect(); break;
    case OP_EMIT: op_emit(); break;
    case OP_DH: op_disconnect_handle(); break;
    case OP_DG: op_disconnect_group(); break;
    case OP_DA: op_disconnect_all(); break;
    case OP_DF: op_disconnect_fn(); break;
    case OP_OBJ: op_obj(); break;
    case OP_BLOCK: op_block(); break;
    case OP_SCOPED: op_scoped(); break;
    case OP_HANDLE: op_handle(); break;
    case OP_SIGNAL: op_signal(); break;
    case OP_SIGSLOT: op_sigslot(); break;
    case OP_SLOTOBJ: op_slotobj(); break;
  }
  if (g_depth) fail(T(9, 20), "a library mutex is still locked after an operation");
  stats().add("ops");
}

static void one_case(long long c, uint64_t seed) {
  {
    World w;
    W = &w;
    w.rng.reseed(seed);
    w.budget = 20 + w.rng.below(140);
    w.refMode = w.rng.chance(1, 4);
    w.quiet = w.rng.chance(1, 3);
    new_signal(0);
    if (w.rng.chance(1, 2)) new_signal(1);
    unsigned init = w.rng.below(12);
    for (unsigned i = 0; i < init; ++i) op_connect();
    while (w.budget > 0) { random_op(0); check_world(w.rng.chance(1, w.quiet ? 40 : 6)); }
    check_world(true);
    // all signals once more, then take everything down in random order
    w.budget = 0;
    for (int i = 0; i < NSIG; ++i) if (w.sig[i] && w.sigImpl[i] >= 0) { op_emit(); }
    check_world(true);
    vector<int> order;
    for (int i = 0; i < 6; ++i) order.push_back(i);
    for (int i = 5; i > 0; --i) std::swap(order[i], order[w.rng.below(i + 1)]);
    for (int o : order) switch (o) {
      case 0: for (int i = 0; i < NSIG; ++i) { std::unique_ptr<Sig> p = std::move(w.sig[i]); int im = w.sigImpl[i]; w.sigImpl[i] = -1; model_destroy_impl(im); p.reset(); } check_world(true); break;
      case 1: for (int i = 0; i < NBLOCK; ++i) { w.block[i].reset(); w.blockOn[i] = false; w.blockConn[i] = -1; } check_world(true); break;
      case 2: for (int i = 0; i < NSCOPED; ++i) { std::unique_ptr<bs::scoped_connection> p = std::move(w.scoped[i]); if (w.scopedConn[i] >= 0 && p) model_disc(w.scopedConn[i]); w.scopedConn[i] = -1; } check_world(true); break;
      case 3: for (int i = 0; i < NSLOTOBJ; ++i) { w.sobj[i].used = false; w.sobj[i].s.reset(); w.sobj[i].x.reset(); } check_world(true); break;
      case 4: for (size_t i = 0; i < w.objs.size(); ++i) drop_obj(i); check_world(true); break;
      case 5: for (int i = 0; i < NHAND; ++i) { w.hand[i] = bs::connection(); w.handConn[i] = -1; } break;
    }
    for (size_t i = 1; i < w.alive.size(); ++i) if (w.alive[i] != 0) fail(T(7, 22) | thrown_tag(int(i)), "%d copies of slot function %zu leaked", w.alive[i], i);
    for (auto &p : w.combLive) if (p.second != 0) fail(T(14, 22), "combiner %d leaked", p.first);
    for (size_t i = 0; i < w.objs.size(); ++i) if (w.objs[i].alive) fail(T(6, 7, 22), "tracked object %zu leaked", i);
    w.teardown = true;
    bool nontrivial = w.calls >= 2;
    if (nontrivial && stats().distinct.insert(w.hash.h).second) stats().add("distinct_nontrivial");
    if (stats().samples.size() < 2 && w.calls > 10) {
      string s = "case " + std::to_string(c) + ": ";
      for (size_t i = 0; i < ctx().trace.size() && i < 25; ++i) s += ctx().trace[i] + "; ";
      stats().samples.push_back(s);
    }
    // connections keep weak references to the last pieces
    for (MConn &m : w.conns) m.handle = bs::connection();
    w.conns.clear();
    if (MonMutex::live != 0) fail(T(20, 22), "%ld mutexes leaked", MonMutex::live);
#if CFG_GROUP == 1
    if (Group::live != 0) fail(T(7, 22), "%ld group objects leaked", Group::live);
#endif
  }
  W = 0;
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  string ws = a.str("weights", "");
  if (!ws.empty()) {
    const char *p = ws.c_str();
    for (int i = 0; i < NOPS && *p; ++i) { g_w[i] = strtoul(p, const_cast<char **>(&p), 10); if (*p == ',') ++p; }
  }
  return run_cases("seq", a, one_case);
}
