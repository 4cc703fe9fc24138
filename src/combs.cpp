// Combiners: signals with many result types and combiners (the library's own and user-written ones that consume the
// range in every way a single-pass range allows) are compared with a model of the slot list.
#include "heap.hpp"
#include "excs.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <boost/optional/optional_io.hpp>
#include <memory>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;

// ---------------------------------------------------------------- result types
struct Big { // no default constructor, counted, detects use after destruction
  int v;
  unsigned magic;
  static long live;
  explicit Big(int x) : v(x), magic(0xB16) { ++live; }
  Big(const Big &o) : v(o.v), magic(0xB16) { if (o.magic != 0xB16) fail(T(14, 22), "copy of a dead result"); ++live; }
  Big &operator=(const Big &o) { if (o.magic != 0xB16 || magic != 0xB16) fail(T(14, 22), "assignment of a dead result"); v = o.v; return *this; }
  ~Big() { if (magic != 0xB16) fail(T(14, 22), "result destroyed twice"); magic = 0; --live; }
};
long Big::live;
static int g_cells[64];
struct PtrRes { int *p; };
template <class R> struct Val;
template <> struct Val<int> { static int mk(int v) { return v; } static int un(const int &r) { return r; } };
template <> struct Val<bool> { static bool mk(int v) { return v & 1; } static int un(const bool &r) { return r; } };
template <> struct Val<string> { static string mk(int v) { return "a result longer than the small string buffer " + std::to_string(v); } static int un(const string &r) { return r.size() < 45 ? -1 : atoi(r.c_str() + 44); } };
template <> struct Val<Big> { static Big mk(int v) { return Big(v); } static int un(const Big &r) { if (r.magic != 0xB16) fail(T(14, 22), "dead result"); return r.v; } };
template <> struct Val<int &> { static int &mk(int v) { g_cells[v & 63] = v; return g_cells[v & 63]; } static int un(int &r) { if (&r < g_cells || &r >= g_cells + 64) fail(T(14, 21), "reference result refers to another object"); return r; } };
template <> struct Val<const int &> { static const int &mk(int v) { g_cells[v & 63] = v; return g_cells[v & 63]; } static int un(const int &r) { if (&r < g_cells || &r >= g_cells + 64) fail(T(14, 21), "reference result refers to another object"); return r; } };
template <> struct Val<boost::shared_ptr<int> > { static boost::shared_ptr<int> mk(int v) { return boost::make_shared<int>(v); } static int un(const boost::shared_ptr<int> &r) { return r ? *r : -1; } };
template <> struct Val<std::unique_ptr<int> > { static std::unique_ptr<int> mk(int v) { return std::unique_ptr<int>(new int(v)); } static int un(const std::unique_ptr<int> &r) { return r ? *r : -1; } };
template <> struct Val<vector<int> > { static vector<int> mk(int v) { return vector<int>(3, v); } static int un(const vector<int> &r) { return r.size() == 3 ? r[2] : -1; } };

// ---------------------------------------------------------------- slots and their model
struct MSlot {
  int id;
  bs::connection c;
  bs::shared_connection_block block;
  boost::shared_ptr<int> track;
  bool isTracking;
  int beh; // 0 returns, 1 throws expired_slot, 2 throws Exc, 3 disconnects the next slot, 4 blocks the next slot
  bool blocked, gone;
  int key; // position
};
struct World {
  Rng rng;
  vector<MSlot> slots; // in call order
  vector<int> calls, values;
  int nextId, serial;
  unsigned excKind;
  bool skip;
  explicit World(uint64_t s) : rng(s), nextId(0), serial(0), excKind(0), skip(false) {}
  MSlot *find(int id) { for (MSlot &m : slots) if (m.id == id) return &m; return 0; }
};
static World *W;
// in a handler: the exception must be the one a slot threw last
static void the_exception(const char *where) {
  int id = -1;
  unsigned kind = 99;
  if (!is_user(id, kind)) fail(T(12, 14), "an exception that no slot threw reaches %s (a slot threw one of kind %u)", where, W->excKind);
  if (id != W->serial || kind != W->excKind) fail(T(12, 14), "exception %d of kind %u reaches %s, %d of kind %u was thrown", id, kind, where, W->serial, W->excKind);
}
static bool callable(const MSlot &m) { return !m.gone && !m.blocked && !(m.isTracking && !m.track); }
static int user_call(int id) {
  World &w = *W;
  MSlot *m = w.find(id);
  if (!m) fail(T(1, 14), "unknown slot %d called", id);
  if (!callable(*m)) fail(T(14, 4, 5, 6), "slot %d called although it is not callable", id);
  int v = ++w.serial;
  w.calls.push_back(id);
  size_t i = m - &w.slots[0];
  if (m->beh == 1) { w.values.push_back(-1); m->gone = true; throw bs::expired_slot(); }
  if (m->beh == 2) { w.values.push_back(-2); w.excKind = w.rng.below(USER_EXC_KINDS); stats().add("exceptions_thrown"); throw_user(w.excKind, v); }
  if (m->beh == 3 && i + 1 < w.slots.size()) { w.slots[i + 1].c.disconnect(); w.slots[i + 1].gone = true; }
  if (m->beh == 4 && i + 1 < w.slots.size() && w.slots[i + 1].c.connected()) { w.slots[i + 1].block = bs::shared_connection_block(w.slots[i + 1].c); w.slots[i + 1].blocked = true; }
  w.values.push_back(v);
  return v;
}
template <class R> struct Fn { int id; R operator()(int) const { return Val<R>::mk(user_call(id)); } };
template <> struct Fn<void> { int id; void operator()(int) const { user_call(id); } };

// what the range must be, computed on the way by a walker over the model
struct Walk {
  size_t pos;
  vector<int> snap; // ids at the beginning
  static vector<int> ids() { vector<int> r; for (MSlot &m : W->slots) r.push_back(m.id); return r; }
  Walk() : pos(0), snap(ids()) { settle(); }
  // the element the iterator stands on was chosen when it arrived there
  void settle() { while (pos < snap.size() && !callable(*W->find(snap[pos]))) ++pos; }
  bool end() const { return pos >= snap.size(); }
  int cur() const { return snap[pos]; }
  void next() { ++pos; settle(); }
};

// ---------------------------------------------------------------- user-written combiners
// a reference result type has no *it++ in the library's iterator
template <class R, class It> int postfix(It &it, std::false_type) { return Val<R>::un(*it++); }
template <class R, class It> int postfix(It &it, std::true_type) { int v = Val<R>::un(*it); ++it; return v; }
template <class R> struct Script {
  typedef vector<int> result_type;
  int magic, invocations;
  Script() : magic(0x5C), invocations(0) {}
  ~Script() { magic = 0; }
  template <class It> vector<int> operator()(It first, It last) {
    World &w = *W;
    Rng &r = w.rng;
    if (magic != 0x5C) fail(T(14, 22), "dead combiner");
    ++invocations;
    vector<int> out;
    Walk k;
    for (;;) {
      bool e = r.chance(1, 2) ? first == last : !(first != last);
      if (e != k.end()) fail(T(14, 1), "range %s although %s", e ? "ended" : "goes on", k.end() ? "no callable slot is left" : "a callable slot is left");
      if (e) break;
      unsigned what = r.below(12);
      if (what == 0) { stats().add("early_stop"); return out; }
      if (what == 1) { size_t n = w.calls.size(); ++first; k.next(); if (w.calls.size() != n) fail(T(14), "moving on called a slot"); stats().add("skipped"); continue; }
      size_t n = w.calls.size();
      int id = k.cur();
      try {
        if (what == 2) { It c(first); out.push_back(Val<R>::un(*c)); }
        else if (what == 3) {
          int v = postfix<R>(first, std::is_reference<R>());
          stats().add("postfix");
          out.push_back(v);
          if (w.calls.size() != n + 1 || w.calls.back() != id) fail(T(14, 1), "*it++ did not call the slot once");
          if (W->values.back() != v && !(std::is_same<R, bool>::value)) fail(T(14), "*it++ gives %d, slot returned %d", v, W->values.back());
          k.next();
          continue;
        } else if (what == 4) { out.push_back(Val<R>::un(*first)); int again = Val<R>::un(*first); if (again != out.back()) fail(T(14), "second dereference gives another result"); stats().add("double_deref"); }
        else if (what == 5) { It c(first); out.push_back(Val<R>::un(*first)); It d(first); if (Val<R>::un(*d) != out.back()) fail(T(14), "copy of the iterator gives another result"); if (!(c == first) || c != d) fail(T(14), "copies of an iterator are different"); }
        else out.push_back(Val<R>::un(*first));
        if (w.calls.size() != n + 1 || w.calls.back() != id) fail(T(14, 1), "dereferencing made %zu calls", w.calls.size() - n);
        int v = W->values.back();
        if (out.back() != (std::is_same<R, bool>::value ? (v & 1) : v)) fail(T(14), "dereferencing gives %d, slot returned %d", out.back(), v);
      } catch (const bs::expired_slot &) {
        if (w.calls.size() != n + 1 || w.values.back() != -1) fail(T(12, 14), "unexpected expired_slot");
      } catch (...) {
        if (w.calls.size() != n + 1) fail(T(12, 14), "exception without a call");
        the_exception("the combiner");
        if (r.chance(1, 3)) throw;
        stats().add("exceptions_handled");
      }
      ++first;
      k.next();
    }
    return out;
  }
};
struct CountAll { // stateful; the stored combiner is the one that is invoked
  typedef int result_type;
  int n;
  CountAll() : n(0) {}
  template <class It> int operator()(It f, It l) { for (; f != l; ++f) { try { (void)*f; } catch (const bs::expired_slot &) {} catch (...) { the_exception("the combiner"); } } return ++n; }
};
struct Nothing { // never dereferences
  typedef const char *result_type;
  template <class It> const char *operator()(It, It) const { return "nothing"; }
};
struct RefComb { // returns a reference to itself
  typedef RefComb &result_type;
  int pad;
  template <class It> RefComb &operator()(It f, It l) { if (f != l) { try { (void)*f; } catch (...) {} } return *this; }
};
struct VoidComb {
  typedef void result_type;
  template <class It> void operator()(It f, It l) const { for (; f != l; ++f) { try { (void)*f; } catch (const bs::expired_slot &) {} catch (...) { the_exception("the combiner"); } } }
};

// ---------------------------------------------------------------- driving
template <class S, class R> struct Drive {
  S sig;
  World &w;
  typedef typename S::slot_type Slot;
  explicit Drive(World &ww) : w(ww) {}
  template <class C> Drive(World &ww, const C &c) : sig(c), w(ww) {}
  void add() {
    Rng &r = w.rng;
    MSlot m;
    m.id = w.nextId++;
    Fn<R> f;
    f.id = m.id;
    Slot s(f);
    m.isTracking = r.chance(1, 4);
    if (m.isTracking) { m.track = boost::make_shared<int>(1); s.track(m.track); }
    m.beh = r.chance(2, 3) ? 0 : r.below(5);
    m.blocked = m.gone = false;
    bool front = r.chance(1, 3);
    m.c = sig.connect(s, front ? bs::at_front : bs::at_back);
    if (front) w.slots.insert(w.slots.begin(), m); else w.slots.push_back(m);
  }
  void change() {
    Rng &r = w.rng;
    if (w.slots.empty()) return;
    MSlot &m = w.slots[r.below(w.slots.size())];
    switch (r.below(5)) {
      case 0: m.c.disconnect(); m.gone = true; break;
      case 1: if (m.c.connected()) { m.block = bs::shared_connection_block(m.c); m.blocked = true; } break;
      case 2: m.block.unblock(); m.blocked = false; break;
      case 3: m.track.reset(); break;
      case 4: m.beh = r.below(5); break;
    }
  }
  // the calls a combiner that takes everything must cause; exc: an Exc leaves it
  void expect_all(bool handlesExc, vector<int> &calls, int &lastGood, bool &exc) {
    // replayed on a copy of the flags
    vector<MSlot> copy = w.slots;
    calls.clear();
    lastGood = -1;
    exc = false;
    int serial = w.serial;
    for (size_t i = 0; i < copy.size(); ++i) {
      MSlot &m = copy[i];
      if (!callable(m)) continue;
      calls.push_back(m.id);
      ++serial;
      if (m.beh == 1) { m.gone = true; continue; }
      if (m.beh == 2) { if (!handlesExc) { exc = true; return; } continue; }
      if (m.beh == 3 && i + 1 < copy.size()) copy[i + 1].gone = true;
      if (m.beh == 4 && i + 1 < copy.size() && !copy[i + 1].gone && !(copy[i + 1].isTracking && !copy[i + 1].track)) copy[i + 1].blocked = true;
      lastGood = serial;
    }
  }
  bool firstEqLast() { for (MSlot &m : w.slots) if (callable(m)) return false; return true; }
};
static void finish(const vector<int> &expect, const char *what) {
  World &w = *W;
  if (w.calls != expect) {
    string a, b;
    for (int x : w.calls) a += std::to_string(x) + " ";
    for (int x : expect) b += std::to_string(x) + " ";
    fail(T(14, 1), "%s: calls %s, expected %s", what, a.c_str(), b.c_str());
  }
  stats().add("invocations");
  stats().add("calls", w.calls.size());
}
template <class R> static void check_val(const R &v, int serial, const char *what) {
  int x = Val<R>::un(v), want = std::is_same<R, bool>::value ? (serial & 1) : serial;
  if (x != want) fail(T(14), "%s returns %d, the last slot returned %d", what, x, want);
}
template <class D> static void churn(D &d, int n) { for (int i = 0; i < n; ++i) { if (d.w.rng.chance(1, 2) && d.w.slots.size() < 9) d.add(); else d.change(); } }
template <class R> static void t_default(World &w) { // optional_last_value, the default combiner
  typedef bs::signal<R(int)> S;
  Drive<S, R> d(w);
  for (int i = 0; i < 6; ++i) {
    churn(d, 3);
    vector<int> calls; int last; bool exc, got = false;
    d.expect_all(false, calls, last, exc);
    w.calls.clear();
    try {
      boost::optional<R> o = w.rng.chance(1, 2) ? d.sig(1) : const_cast<const S &>(d.sig)(1);
      got = true;
      if (exc) fail(T(12, 14), "exception of a slot got lost");
      if (bool(o) != (last >= 0)) fail(T(14), "default combiner returns %s although %s slot returned", o ? "a value" : "nothing", last >= 0 ? "a" : "no");
      if (o) { int x = Val<R>::un(o.get()), want = std::is_same<R, bool>::value ? (last & 1) : last; if (x != want) fail(T(14), "default combiner returns %d, the last slot returned %d", x, want); }
    } catch (...) { if (!exc) fail(T(12, 14), "unexpected exception"); the_exception("the invoker"); }
    if (!exc && !got) fail(T(14), "exception");
    finish(calls, "default combiner");
  }
}
template <class R> static void t_last(World &w) {
  typedef bs::signal<R(int), bs::last_value<R> > S;
  Drive<S, R> d(w);
  for (int i = 0; i < 6; ++i) {
    churn(d, 3);
    vector<int> calls; int last; bool exc;
    d.expect_all(false, calls, last, exc);
    w.calls.clear();
    try {
      R v = d.sig(1);
      if (exc) fail(T(12, 14), "exception of a slot got lost");
      if (last < 0) fail(T(14), "last_value returns something although no slot returned");
      int x = Val<R>::un(v), want = std::is_same<R, bool>::value ? (last & 1) : last;
      if (x != want) fail(T(14), "last_value returns %d, the last slot returned %d", x, want);
    } catch (const bs::no_slots_error &e) { if (dynamic_cast<const UserNoSlots *>(&e)) { if (!exc) fail(T(12, 14), "unexpected exception"); the_exception("the invoker"); } else { if (exc || last >= 0) fail(T(14), "no_slots_error although a slot returned"); if (!dynamic_cast<const std::exception *>(&e) || string(e.what()).find("no_slots") == string::npos) fail(T(14), "no_slots_error is not what it says"); stats().add("no_slots_error"); } }
    catch (...) { if (!exc) fail(T(12, 14), "unexpected exception"); the_exception("the invoker"); }
    finish(calls, "last_value");
  }
}
template <class C> static void t_void(World &w) {
  typedef bs::signal<void(int), C> S;
  Drive<S, void> d(w);
  for (int i = 0; i < 6; ++i) {
    churn(d, 3);
    vector<int> calls; int last; bool exc;
    bool handles = std::is_same<C, VoidComb>::value;
    d.expect_all(handles, calls, last, exc);
    w.calls.clear();
    try {
      static_assert(std::is_same<decltype(d.sig(1)), void>::value || std::is_same<C, CountAll>::value, "result of a void signal");
      d.sig(1);
      if (exc) fail(T(12, 14), "exception of a slot got lost");
    } catch (...) { if (!exc) fail(T(12, 14), "unexpected exception"); the_exception("the invoker"); }
    finish(calls, "void combiner");
  }
}
template <class R> static void t_script(World &w) {
  typedef bs::signal<R(int), Script<R> > S;
  Drive<S, R> d(w);
  int inv = 0;
  for (int i = 0; i < 10; ++i) {
    churn(d, 3);
    w.calls.clear();
    size_t nv = w.values.size();
    ++inv;
    try {
      vector<int> out = d.sig(1);
      vector<int> expect;
      for (size_t k = nv; k < w.values.size(); ++k) if (w.values[k] >= 0) expect.push_back(std::is_same<R, bool>::value ? w.values[k] & 1 : w.values[k]);
      if (out != expect) fail(T(14), "result of the combiner changed on its way to the invoker");
    } catch (...) { the_exception("the invoker"); }
    stats().add("invocations");
    stats().add("calls", w.calls.size());
    if (d.sig.combiner().invocations != inv) fail(T(14), "stored combiner was invoked %d times, expected %d", d.sig.combiner().invocations, inv);
    if (w.rng.chance(1, 5)) { d.sig.set_combiner(Script<R>()); inv = 0; if (d.sig.combiner().invocations != 0) fail(T(14), "combiner() is not the one set"); stats().add("set_combiner"); }
  }
}
template <class R> static void t_count(World &w) {
  typedef bs::signal<R(int), CountAll> S;
  CountAll c0;
  c0.n = w.rng.below(100);
  Drive<S, R> d(w, c0);
  int n = c0.n;
  for (int i = 0; i < 6; ++i) {
    churn(d, 3);
    vector<int> calls; int last; bool exc;
    d.expect_all(true, calls, last, exc);
    w.calls.clear();
    if (d.sig.combiner().n != n) fail(T(14), "combiner() has not the state of the stored combiner");
    int r = d.sig(1);
    ++n;
    if (r != n) fail(T(14), "stateful combiner returns %d, expected %d", r, n);
    finish(calls, "stateful combiner");
    if (w.rng.chance(1, 4)) { CountAll c; c.n = n = w.rng.below(1000); d.sig.set_combiner(c); c.n = -5; }
  }
}
template <class R> static void t_nothing(World &w) {
  typedef bs::signal<R(int), Nothing> S;
  Drive<S, R> d(w);
  churn(d, 8);
  w.calls.clear();
  if (string(d.sig(1)) != "nothing") fail(T(14), "result of the combiner is lost");
  const S &cs = d.sig;
  if (string(cs(1)) != "nothing") fail(T(14), "result of the combiner is lost");
  finish(vector<int>(), "combiner that takes nothing");
}
template <class R> static void t_ref(World &w) {
  typedef bs::signal<R(int), RefComb> S;
  Drive<S, R> d(w);
  churn(d, 8);
  w.calls.clear();
  RefComb &a = d.sig(1);
  size_t n = w.calls.size();
  for (MSlot &m : w.slots) m.beh = 0;
  RefComb &b = d.sig(1);
  if (&a != &b) fail(T(14), "reference result of a combiner does not refer to the stored combiner");
  if (n > 1) fail(T(14), "more slots called than dereferenced");
  stats().add("invocations", 2);
}
// combiners with const and non-const call operators
struct Both {
  typedef int result_type;
  template <class It> int operator()(It, It) { return 1; }
  template <class It> int operator()(It, It) const { return 2; }
};
static void t_const(World &w) {
  bs::signal<void(), Both> s;
  (void)w;
  if (s() != 1) fail(T(14), "non-const invocation uses the const call operator of the combiner");
  const bs::signal<void(), Both> &c = s;
  if (c() != 2) {
    static bool once;
    if (!once) { once = true; printf("FINDING id=const-combiner property=C14 msg=const signal invokes its combiner as non-const\n"); }
  }
  stats().add("invocations", 2);
}
static void one_case(long long cno, uint64_t seed) {
  long big = Big::live;
  {
    World w(seed);
    W = &w;
    Hash h;
#if CFG_PART == 1
    unsigned t = cno % 18;
#elif CFG_PART == 2
    unsigned t = 18 + cno % 16;
#else
    unsigned t = cno % 34;
#endif
    h.add(t);
    switch (t) {
#if CFG_PART != 2
      case 0: t_default<int>(w); break;
      case 1: t_default<bool>(w); break;
      case 2: t_default<string>(w); break;
      case 3: t_default<Big>(w); break;
      case 4: t_default<int &>(w); break;
      case 5: t_default<const int &>(w); break;
      case 6: t_default<boost::shared_ptr<int> >(w); break;
      case 7: t_default<std::unique_ptr<int> >(w); break;
      case 8: t_default<vector<int> >(w); break;
      case 9: t_last<int>(w); break;
      case 10: t_last<bool>(w); break;
      case 11: t_last<string>(w); break;
      case 12: t_last<Big>(w); break;
      case 13: t_last<int &>(w); break;
      case 14: t_last<boost::shared_ptr<int> >(w); break;
      case 15: t_void<bs::optional_last_value<void> >(w); break;
      case 16: t_void<bs::last_value<void> >(w); break;
      case 17: t_void<VoidComb>(w); break;
#endif
#if CFG_PART != 1
      case 18: t_script<int>(w); break;
      case 19: t_script<bool>(w); break;
      case 20: t_script<string>(w); break;
      case 21: t_script<Big>(w); break;
      case 22: t_script<int &>(w); break;
      case 23: t_script<vector<int> >(w); break;
      case 24: t_count<int>(w); break;
      case 25: t_count<string>(w); break;
      case 26: t_count<int &>(w); break;
      case 27: t_nothing<int>(w); break;
      case 28: t_nothing<Big>(w); break;
      case 29: t_ref<int>(w); break;
      case 30: t_ref<string>(w); break;
      case 31: t_const(w); break;
      case 32: t_script<const int &>(w); break;
      case 33: t_script<boost::shared_ptr<int> >(w); break;
#endif
    }
    for (int c : w.calls) h.add(c);
    for (int v : w.values) h.add(v);
    h.add(w.slots.size());
    if (w.serial >= 2 && stats().distinct.insert(h.h).second) stats().add("distinct_nontrivial");
    if (stats().samples.size() < 1 && w.serial > 12) { string s = "case " + std::to_string(cno) + " (kind " + std::to_string(t) + "): last calls"; for (int c : w.calls) s += " " + std::to_string(c); stats().samples.push_back(s); }
  }
  if (Big::live != big) fail(T(14, 22), "%ld results leaked", Big::live - big);
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("combs", a, one_case);
}
