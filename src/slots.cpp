// Slot objects and trackable objects: random programs build slots in every documented form (plain, bound member functions,
// bind-style construction, references, signals, slots of slots, converting copies), track objects of every kind, connect,
// copy, change and call them, and destroy what they depend on -- idle, during direct calls and during invocations.
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/make_shared.hpp>
#include <boost/bind/bind.hpp>
#include <functional>
#include <memory>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;
using namespace boost::placeholders;
#ifndef CFG_TRACKABLE
#define CFG_TRACKABLE 0   // 1: emphasise trackable objects
#endif
#if CFG_TRACKABLE
enum { MAIN = 23 };
#else
enum { MAIN = 18 };
#endif

typedef bs::signal<int(int)> Sig;
typedef bs::slot<int(int)> Slot;
typedef bs::slot<int(short)> SlotShort;
typedef bs::slot<long(int), std::function<long(int)> > SlotStd;
typedef bs::slot<void(int)> SlotVoid;

enum DepType { D_TRK, D_TOK, D_SIG };
typedef std::pair<int, int> Dep;
typedef vector<Dep> Deps;
struct Token { unsigned magic; int id; Token(int i) : magic(0x70CE), id(i) {} ~Token(); };
struct TokInfo { boost::shared_ptr<Token> b; std::shared_ptr<Token> s; bool foreign, dropped, gone; int pins; };
struct Obj;
struct TrkInfo { Obj *p; bool dead; int kind; std::function<void()> destroy; };
struct SigInfo { std::unique_ptr<Sig> s; int pins, running; };
struct MSlot { Deps deps; int fid; int form; };
struct MConn { bs::connection c; MSlot m; int sig; bool disc; };
struct Frame { bool emission; int fid; vector<int> conns; size_t pos; int arg; Deps pinned; int last; bool called; };
struct ByRef;
struct World {
  Rng rng;
  vector<TokInfo> toks;
  vector<TrkInfo> trks;
  vector<SigInfo> sigs;
  vector<std::unique_ptr<Slot> > slots;
  vector<MSlot> mslots;
  vector<MConn> conns;
  vector<vector<int> > order;
  vector<Frame> stack;
  vector<std::pair<bs::slot_base::locked_container_type, Deps> > locks;
  vector<std::shared_ptr<ByRef> > byRef;
  int nextFid;
  Hash h;
  bool noAct;
  explicit World(uint64_t s) : rng(s), nextFid(0), noAct(false) {}
};
static World *W;
static int called(int fid, int x);
Token::~Token() { if (magic != 0x70CE) fail(T(6, 22), "tracked object destroyed twice"); magic = 0; if (W) W->toks[id].gone = true; }

struct Other { virtual ~Other() {} int pad; };
struct Obj : Other, bs::trackable { // the trackable base is not the first one
  unsigned magic;
  int fid, id;
  mutable int running;
  Obj(int f, int i) : magic(0x0B1EC7), fid(f), id(i), running(0) {}
  Obj(const Obj &o) : Other(), bs::trackable(o), magic(o.magic), fid(o.fid), id(-1), running(0) { o.ok(); }
  Obj &operator=(const Obj &o) { ok(); o.ok(); bs::trackable::operator=(o); return *this; }
  ~Obj() { if (magic != 0x0B1EC7) fail(T(22, 23), "object destroyed twice"); magic = 0xDEAD; }
  void ok() const { if (magic != 0x0B1EC7) fail(T(23, 22), "slot called with a destroyed trackable object"); }
  int hit(int f, int x) { ok(); return run(f, x); }
  int chit(int f, int x) const { ok(); ++running; int r = called(f, x); ok(); --running; return r; }
  int run(int f, int x) {
    ++running;
    int r = called(f, x);
    ok();
    --running;
    if (id >= 0 && !running && !W->noAct && !W->trks[id].dead && W->rng.chance(1, 6)) { W->trks[id].dead = true; stats().add("deleted_itself"); W->trks[id].destroy(); }
    return r;
  }
  int operator()(int x) { ok(); return called(fid, x); }
  int operator()(int x) const { ok(); return called(fid, x); }
  int value() const { ok(); return 5; }
  void *operator&() const { fail(T(23, 21), "address of a function object or argument taken with its operator&"); return 0; }
};
struct Derived : Obj { string s; Derived(int f, int i) : Obj(f, i), s("derived object with its own memory") {} ~Derived() { if (s.size() != 34) fail(T(22, 23), "derived object corrupted"); } };
struct Plain { int operator()(int f, int x) const { return called(f, x); } };
struct Fn { int fid; int operator()(int x) const { return called(fid, x); } };
struct UsesObj { typedef int result_type; int fid; template <class... A> int operator()(const A &...a) const { use(a...); return called(fid, g); } mutable int g; template <class... R> void use(const Obj &o, const R &...r) const { o.ok(); use(r...); } template <class... R> void use(const Obj *o, const R &...r) const { if (o) o->ok(); use(r...); } template <class... R> void use(int x, const R &...r) const { g = x; use(r...); } template <class... R> void use(const string &s, const R &...r) const { if (s != "filler") fail(T(18, 22), "bound argument corrupted"); use(r...); } void use() const {} };
struct UsesSig { typedef int result_type; int fid; int operator()(Sig &s, int x) const { (void)s.num_slots(); return called(fid, x); } int operator()(Sig *s, int x) const { (void)s->num_slots(); return called(fid, x); } };
struct ByRef { int fid; mutable int n; const ByRef *self; explicit ByRef(int f) : fid(f), n(0), self(this) {} int operator()(int x) { if (this != self) fail(T(18, 21), "a copy of a function object given by reference is called"); ++n; return called(fid, x); } int operator()(int x) const { if (this != self) fail(T(18, 21), "a copy of a function object given by reference is called"); ++n; return called(fid, x); } };
static int free_function(int f, int x) { return called(f, x); }
static string *g_filler;

// ---------------------------------------------------------------- model
static bool dep_alive(const Dep &d) {
  World &w = *W;
  switch (d.first) {
    case D_TRK: return !w.trks[d.second].dead;
    case D_TOK: return !w.toks[d.second].dropped || w.toks[d.second].pins;
    default: return bool(w.sigs[d.second].s);
  }
}
static bool deps_alive(const Deps &ds) { for (const Dep &d : ds) if (!dep_alive(d)) return false; return true; }
static void pin(const Deps &ds, int by) {
  for (const Dep &d : ds) { if (d.first == D_TOK) W->toks[d.second].pins += by; else if (d.first == D_SIG) W->sigs[d.second].pins += by; }
}
static bool conn_connected(const MConn &c) { return !c.disc && deps_alive(c.m.deps); }
static int result(int fid, int x) { return x * 31 + fid; }
static void act(int n);
static int called(int fid, int x) {
  World &w = *W;
  if (w.stack.empty()) fail(T(18, 1), "slot function called out of the blue");
  Frame &f = w.stack.back();
  if (f.emission) {
    pin(f.pinned, -1);
    f.pinned.clear();
    while (f.pos < f.conns.size() && !conn_connected(w.conns[f.conns[f.pos]])) ++f.pos;
    if (f.pos >= f.conns.size()) fail(T(MAIN, 1, 6), "function %d called although no connected slot is left in this invocation", fid);
    MConn &c = w.conns[f.conns[f.pos]];
    if (c.m.fid != fid) fail(T(MAIN, 1, 18), "function %d called, expected %d (form %d)", fid, c.m.fid, c.m.form);
    f.pinned = c.m.deps;
    pin(f.pinned, 1);
    ++f.pos;
    stats().add("calls_by_signal");
  } else {
    if (f.called) fail(T(18), "direct call runs the function twice");
    if (f.fid != fid) fail(T(18), "direct call runs function %d, expected %d", fid, f.fid);
    stats().add("direct_calls");
  }
  if (x != f.arg) fail(T(18, 1, 21), "argument %d arrived as %d", f.arg, x);
  f.called = true;
  f.last = result(fid, x);
  w.h.add(fid);
  if (w.stack.size() < 4 && !w.noAct && w.rng.chance(1, CFG_TRACKABLE ? 3 : 4)) act(1 + w.rng.below(3));
  // what the running slot tracks is still there
  Frame &g = w.stack.back();
  for (const Dep &d : g.pinned) if (d.first == D_TOK && w.toks[d.second].gone) fail(T(6, 18), "tracked object %d died during the call", d.second);
  return result(fid, x);
}

// ---------------------------------------------------------------- building
static int new_fid() { return ++W->nextFid; }
static int pick_tok() { World &w = *W; for (int k = 0; k < 5; ++k) { int i = w.rng.below(w.toks.size() + 1); if (i < (int)w.toks.size() && !w.toks[i].dropped) return i; } return -1; }
static int pick_trk() { World &w = *W; for (int k = 0; k < 8; ++k) { int i = w.rng.below(w.trks.size() + 1); if (i < (int)w.trks.size() && !w.trks[i].dead && w.trks[i].p) return i; } return -1; }
static int pick_sig() { World &w = *W; for (int k = 0; k < 5; ++k) { int i = w.rng.below(w.sigs.size()); if (w.sigs[i].s) return i; } return -1; }
static void new_tok() {
  World &w = *W;
  TokInfo t = TokInfo();
  int id = w.toks.size();
  t.foreign = w.rng.chance(1, 2);
  if (t.foreign) t.s = std::make_shared<Token>(id);
  else if (w.rng.chance(1, 2)) t.b = boost::make_shared<Token>(id);
  else t.b.reset(new Token(id));
  w.toks.push_back(t);
}
static int new_trk() {
  World &w = *W;
  int id = w.trks.size();
  TrkInfo t;
  t.dead = false;
  t.p = 0;
  t.kind = w.rng.below(3);
  w.trks.push_back(t);
  Obj *p;
  int f = new_fid();
  int src = pick_trk();
  if (t.kind == 0) p = new Obj(f, id);
  else if (t.kind == 1) p = new Derived(f, id);
  else if (src >= 0) { p = new Obj(*w.trks[src].p); p->id = id; p->fid = f; stats().add("trackable_copies"); }
  else p = new Obj(f, id);
  w.trks[id].p = p;
  w.trks[id].destroy = [p] { delete p; };
  return id;
}
static void kill_trk(int i) { World &w = *W; if (i < 0 || w.trks[i].dead) return; w.trks[i].dead = true; stats().add("trackables_destroyed"); w.trks[i].destroy(); }
// bound functions with several arguments of different kinds: pointers and references to trackables and signals, and others
struct Mix {
  typedef int result_type;
  int fid;
  template <class A, class B> int operator()(A &&, B &&, int x) const { return called(fid, x); }
  template <class A, class B, class C, class D, class E, class F, class G> int operator()(A &&, B &&, C &&, D &&, E &&, F &&, G &&, int x) const { return called(fid, x); }
  template <class A, class B, class C, class D, class E, class F, class G, class H> int operator()(A &&, B &&, C &&, D &&, E &&, F &&, G &&, H &&, int x) const { return called(fid, x); }
};
struct Sum3 { typedef int result_type; template <class A, class B, class C> int operator()(A &&, B &&, C &&) const { return 0; } };
#if CFG_TRACKABLE
// a user's function object which says by an overload of visit_each what it refers to
struct Visited {
  typedef int result_type;
  int fid;
  bool usesA, usesB, usesS, usesN; // what visit_each tells
  Obj *a;
  Obj &b;
  const Sig *s;
  decltype(boost::bind(&Obj::value, static_cast<Obj *>(0))) n;
  string filler;
  Visited(int f, Obj *a_, Obj &b_, const Sig *s_, Obj *n_) : fid(f), usesA(false), usesB(false), usesS(false), usesN(false), a(a_), b(b_), s(s_), n(boost::bind(&Obj::value, n_)), filler("filler") {}
  int operator()(int x) const {
    if (usesA) a->ok();
    if (usesB) b.ok();
    if (usesS) (void)s->num_slots();
    if (usesN && n() != 5) fail(T(23, 22), "nested bind of a function object with visit_each");
    return called(fid, x);
  }
};
template <class V> void visit_each(V &v, const Visited &t, int) {
  using boost::visit_each;
  v(t);
  if (t.usesA) visit_each(v, t.a, 0);
  if (t.usesB) visit_each(v, boost::ref(t.b), 0);
  if (t.usesS) visit_each(v, t.s, 0);
  if (t.usesN) visit_each(v, t.n, 0);
  visit_each(v, t.filler, 0);
}
enum { NFORMS = 36 };
struct Ops { Obj *o; Sig *s; Dep dt, ds; MSlot *m; };
template <class A, class B> static std::unique_ptr<Slot> mix2(const Mix &f, const A &a, const B &b) { return std::unique_ptr<Slot>(new Slot(boost::bind<int>(f, a, b, _1))); }
template <class A> static std::unique_ptr<Slot> mix1(const Mix &f, const A &a, Ops &p, unsigned k) {
  if (k < 2) p.m->deps.push_back(p.dt); else if (k < 4) p.m->deps.push_back(p.ds);
  switch (k) {
    case 0: return mix2(f, a, p.o);
    case 1: return mix2(f, a, boost::cref(*p.o));
    case 2: return mix2(f, a, p.s);
    case 3: return mix2(f, a, boost::ref(*p.s));
    default: return mix2(f, a, string("filler"));
  }
}
static std::unique_ptr<Slot> mix(const Mix &f, Ops &p, Ops &q, unsigned k, unsigned l) {
  if (k < 2) p.m->deps.push_back(p.dt); else if (k < 4) p.m->deps.push_back(p.ds);
  switch (k) {
    case 0: return mix1(f, static_cast<const Obj *>(p.o), q, l);
    case 1: return mix1(f, boost::ref(*p.o), q, l);
    case 2: return mix1(f, static_cast<const Sig *>(p.s), q, l);
    case 3: return mix1(f, boost::cref(*p.s), q, l);
    default: return mix1(f, 3.5, q, l);
  }
}
#else
enum { NFORMS = 28 };
#endif
static std::unique_ptr<Slot> build(MSlot &m) {
  World &w = *W;
  Rng &r = w.rng;
  m.deps.clear();
  m.fid = new_fid();
  m.form = r.below(NFORMS);
#if CFG_TRACKABLE
  while (m.form == 0 || m.form == 16 || m.form == 17 || m.form == 18) m.form = r.below(NFORMS);
#endif
  int f = m.fid, t = pick_trk(), u = pick_trk(), s = pick_sig();
  if (t < 0) t = u = new_trk();
  if (u < 0) u = t;
  Obj *o = w.trks[t].p, *p = w.trks[u].p;
  UsesObj uo;
  uo.fid = f;
  UsesSig us = {f};
  Dep dt(D_TRK, t), du(D_TRK, u), dsig(D_SIG, s);
  stats().add(("form_" + std::to_string(m.form)).c_str());
  typedef std::unique_ptr<Slot> P;
  switch (m.form) {
    case 0: { Fn g = {f}; return P(new Slot(g)); }
    case 1: m.deps.push_back(dt); return P(new Slot(boost::bind(&Obj::hit, o, f, _1)));
    case 2: m.deps.push_back(dt); return P(new Slot(boost::bind(&Obj::hit, boost::ref(*o), f, _1)));
    case 3: m.deps.push_back(dt); return P(new Slot(boost::bind(&Obj::chit, static_cast<const Obj *>(o), f, _1)));
    case 4: m.deps.push_back(dt); return P(new Slot(&Obj::hit, o, f, _1));
    case 5: m.deps.push_back(dt); return P(new Slot(&Obj::hit, boost::ref(*o), f, _1));
    case 6: m.deps.push_back(dt); m.deps.push_back(du); return P(new Slot(boost::bind<int>(uo, boost::ref(*o), _1, p)));
    case 7: m.deps.push_back(dt); return P(new Slot(boost::bind<int>(uo, string("filler"), _1, boost::cref(*o))));
    case 8: m.deps.push_back(dt); m.deps.push_back(du); return P(new Slot(boost::bind<int>(uo, string("filler"), 1, o, string("filler"), p, _1)));
    case 9: { // a function object that contains its own copy: lives as long as the original function object
      typedef decltype(boost::bind<int>(uo, *o, _1)) B;
      B *b = new B(boost::bind<int>(uo, *o, _1));
      TrkInfo ti;
      ti.p = 0;
      ti.dead = false;
      ti.kind = 3;
      ti.destroy = [b] { delete b; };
      m.deps.push_back(Dep(D_TRK, (int)w.trks.size()));
      P q(new Slot(*b));
      w.trks.push_back(ti);
      return q;
    }
    case 10: m.deps.push_back(dt); m.fid = o->fid; return P(new Slot(*o));               // the trackable is the function object
    case 11: m.deps.push_back(dt); m.fid = o->fid; return P(new Slot(boost::ref(*o)));
    case 12: { // the slot ends with the temporary it was built from
      m.deps.push_back(Dep(D_TRK, (int)w.trks.size()));
      TrkInfo ti;
      ti.p = 0;
      ti.dead = true;
      ti.kind = 3;
      w.trks.push_back(ti);
      return P(new Slot(boost::bind<int>(uo, *o, _1)));
    }
    case 13: if (s < 0) break; m.deps.push_back(dsig); return P(new Slot(boost::bind<int>(us, boost::ref(*w.sigs[s].s), _1)));
    case 14: if (s < 0) break; m.deps.push_back(dsig); return P(new Slot(boost::bind<int>(us, w.sigs[s].s.get(), _1)));
    case 15: m.deps.push_back(dt); return P(new Slot(boost::bind<int>(uo, boost::bind(&Obj::value, o), _1)));
    case 16: return P(new Slot([f](int x) { return called(f, x); }));
    case 17: return P(new Slot(&free_function, f, _1));
    case 18: { std::function<int(int)> g = Fn{f}; return P(new Slot(g)); }
    case 19: return P(new Slot(boost::bind<int>(uo, static_cast<Obj *>(0), _1)));
    case 20: { m.deps.push_back(dt); boost::function<int(int)> g; g = boost::bind(&Obj::hit, o, f, _1); m.deps.clear(); (void)g; m.deps.push_back(dt); return P(new Slot(boost::bind(&Obj::hit, o, f, _1))); }
    case 21: { m.deps.push_back(dt); const Obj &co = *o; m.fid = o->fid; return P(new Slot(co)); }
    case 22: { m.deps.push_back(dt); m.deps.push_back(dt); return P(new Slot(boost::bind<int>(uo, o, boost::ref(*o), _1))); }
    case 23: m.deps.push_back(dt); return P(new Slot(uo, boost::ref(*o), _1, string("filler")));
    case 24: m.deps.push_back(dt); m.deps.push_back(du); return P(new Slot(uo, string("filler"), boost::ref(*p), string("filler"), o, 3, string("filler"), _1));
    case 26: case 27: { // a function object by reference: it is the one that is called, not a copy
      W->byRef.push_back(std::shared_ptr<ByRef>(new ByRef(f)));
      ByRef &b = *W->byRef.back();
      if (m.form == 26) return P(new Slot(boost::ref(b)));
      return P(new Slot(boost::cref(b)));
    }
#if CFG_TRACKABLE
    case 28: case 29: case 30: if (s >= 0) {
      int s2 = pick_sig();
      if (s2 < 0) s2 = s;
      Ops a = {o, w.sigs[s].s.get(), dt, dsig, &m}, b = {p, w.sigs[s2].s.get(), du, Dep(D_SIG, s2), &m};
      Mix g = {f};
      unsigned k = r.below(5), l = r.below(5);
      return mix(g, a, b, k, l);
    }
    break;
    case 31: if (s >= 0) { // many at once
      int t3 = pick_trk();
      if (t3 < 0) t3 = t;
      Mix g = {f};
      m.deps.push_back(dt); m.deps.push_back(du); m.deps.push_back(Dep(D_TRK, t3)); m.deps.push_back(dsig);
      return P(new Slot(boost::bind<int>(g, o, boost::ref(*p), w.trks[t3].p, boost::ref(*w.sigs[s].s), static_cast<const Obj *>(o), boost::cref(*p), string("filler"), _1)));
    }
    break;
    case 32: { // as many as a bind takes, each of which ends the slot
      Mix g = {f};
      Obj *v[8];
      for (int k = 0; k < 8; ++k) { int t2 = pick_trk(); if (t2 < 0 || r.chance(1, 3)) t2 = new_trk(); v[k] = w.trks[t2].p; m.deps.push_back(Dep(D_TRK, t2)); }
      return P(new Slot(boost::bind<int>(g, v[0], boost::ref(*v[1]), v[2], v[3], boost::cref(*v[4]), static_cast<const Obj *>(v[5]), boost::ref(*v[6]), v[7], _1)));
    }
    case 33: { // binds inside of a bind, two deep, with more of them than one bind takes
      Mix g = {f};
      Obj *v[12];
      for (int k = 0; k < 12; ++k) { int t2 = pick_trk(); if (t2 < 0 || r.chance(1, 3)) t2 = new_trk(); v[k] = w.trks[t2].p; m.deps.push_back(Dep(D_TRK, t2)); }
      Sum3 u;
      return P(new Slot(boost::bind<int>(g, boost::bind<int>(u, v[0], boost::ref(*v[1]), v[2]), boost::bind<int>(u, v[3], boost::bind(&Obj::value, v[4]), boost::cref(*v[5])), boost::bind(&Obj::value, boost::ref(*v[6])),
        string("filler"), boost::bind<int>(u, boost::bind(&Obj::value, v[7]), boost::bind(&Obj::value, v[8]), boost::bind<int>(u, v[9], 1, v[10])), 3, v[11], _1)));
    }
    case 34: case 35: if (s >= 0) {
      int t3 = pick_trk();
      if (t3 < 0) t3 = t;
      Visited g(f, o, *p, w.sigs[s].s.get(), w.trks[t3].p);
      if (r.chance(1, 2)) { g.usesA = true; m.deps.push_back(dt); }
      if (r.chance(1, 2)) { g.usesB = true; m.deps.push_back(du); }
      if (r.chance(1, 2)) { g.usesS = true; m.deps.push_back(dsig); }
      if (r.chance(1, 2)) { g.usesN = true; m.deps.push_back(Dep(D_TRK, t3)); }
      return P(new Slot(g));
    }
    break;
#endif
    case 25: { // nothing of it is trackable
      boost::shared_ptr<int> keep = boost::make_shared<int>(1);
      return P(new Slot(boost::bind<int>([f](const boost::shared_ptr<int> &k, int x) { if (*k != 1) fail(T(18, 22), "bound argument corrupted"); return called(f, x); }, keep, _1)));
    }
  }
  m.form = 0;
  Fn g = {f};
  return P(new Slot(g));
}
static void track_some(Slot &s, MSlot &m) {
  World &w = *W;
  Rng &r = w.rng;
  int n = r.chance(1, 10) ? 11 : 1 + r.below(3);
  for (int k = 0; k < n; ++k) {
    switch (r.below(6)) {
      case 0: case 1: case 2: {
        if (r.chance(1, 3)) new_tok();
        int t = pick_tok();
        if (t < 0) break;
        if (w.toks[t].foreign) { if (r.chance(1, 2)) s.track_foreign(w.toks[t].s); else s.track_foreign(std::weak_ptr<Token>(w.toks[t].s)); }
        else switch (r.below(4)) { case 0: s.track(w.toks[t].b); break; case 1: s.track(boost::weak_ptr<void>(w.toks[t].b)); break; case 2: s.track_foreign(w.toks[t].b); break; default: s.track_foreign(boost::weak_ptr<Token>(w.toks[t].b)); }
        m.deps.push_back(Dep(D_TOK, t));
        break;
      }
      case 3: { int g = pick_sig(); if (g < 0) break; s.track(*w.sigs[g].s); m.deps.push_back(Dep(D_SIG, g)); break; }
      default: {
        int i = r.below(w.slots.size() + 1);
        if (i >= (int)w.slots.size() || w.slots[i].get() == &s || w.mslots[i].deps.size() > 20) break;
        Deps add = w.mslots[i].deps;
        s.track(*w.slots[i]);
        m.deps.insert(m.deps.end(), add.begin(), add.end());
        stats().add("tracked_slots");
      }
    }
  }
}
static string show(const MSlot &m) { string s = "form " + std::to_string(m.form) + " deps"; for (const Dep &d : m.deps) s += " " + std::to_string(d.first) + ":" + std::to_string(d.second) + (dep_alive(d) ? "" : "(dead)"); return s; }
static void check_slot(int i) {
  World &w = *W;
  bool ex = !deps_alive(w.mslots[i].deps);
  if (w.slots[i]->expired() != ex) fail(T(MAIN, 18, 6), "expired() is %d, expected %d: %s", !ex, ex, show(w.mslots[i]).c_str());
  bool threw = false;
  try { bs::slot_base::locked_container_type l = w.slots[i]->lock(); if (w.rng.chance(1, 12) && w.locks.size() < 3 && w.stack.empty()) { w.locks.push_back(std::make_pair(l, w.mslots[i].deps)); pin(w.mslots[i].deps, 1); } } catch (const bs::expired_slot &e) { threw = true; if (string(e.what()).empty()) fail(T(18), "expired_slot says nothing"); const std::exception &b = e; if (!dynamic_cast<const boost::bad_weak_ptr *>(&b)) fail(T(18), "expired_slot is no bad_weak_ptr"); }
  if (threw != ex) fail(T(18, 6), "lock() %s although the slot is%s expired", threw ? "throws" : "does not throw", ex ? "" : " not");
}
static void check_all() {
  World &w = *W;
  for (size_t i = 0; i < w.conns.size(); ++i) {
    bool want = conn_connected(w.conns[i]);
    if (w.conns[i].c.connected() != want) fail(T(MAIN, 4, 6), "connected() is %d, expected %d: %s disc %d", !want, want, show(w.conns[i].m).c_str(), w.conns[i].disc);
  }
  for (size_t s = 0; s < w.sigs.size(); ++s) if (w.sigs[s].s) {
    size_t n = 0;
    for (int c : w.order[s]) n += conn_connected(w.conns[c]);
    if (w.sigs[s].s->num_slots() != n) fail(T(MAIN, 4, 6), "num_slots() is %zu, expected %zu", w.sigs[s].s->num_slots(), n);
  }
  for (size_t i = 0; i < w.toks.size(); ++i) {
    bool gone = w.toks[i].dropped && !w.toks[i].pins;
    if (w.toks[i].gone != gone) fail(T(6, 18), "tracked object %zu is %s", i, gone ? "kept alive although nothing runs that tracks it" : "dead although it is owned or locked");
  }
}
static void direct_call(int i) {
  World &w = *W;
  MSlot m = w.mslots[i];
  bool ex = !deps_alive(m.deps);
  Frame f = Frame();
  f.fid = m.fid;
  f.arg = 1 + w.rng.below(1000);
  f.pinned = m.deps;
  size_t depth = w.stack.size();
  // the slot object may be changed or destroyed by what it runs: call a copy then
  Slot copy(*w.slots[i]);
  bool useCopy = w.rng.chance(1, 2);
  bool oldAct = w.noAct;
  w.noAct = oldAct || !useCopy;
  w.stack.push_back(f);
  if (!ex) pin(m.deps, 1);
  int got = 0;
  bool threw = false;
  try {
    int kind = w.rng.below(6);
    tr("direct call of slot %d kind %d fid %d", i, kind, f.fid);
    const Slot &c = useCopy ? copy : *w.slots[i];
    switch (kind) {
      case 0: got = useCopy ? copy(f.arg) : (*w.slots[i])(f.arg); break;
      case 1: got = c(f.arg); break;
      case 2: { SlotShort x(c); got = x((short)f.arg); break; }
      case 3: { SlotStd x(c); const SlotStd y(x); got = (int)y(f.arg); break; }
      case 4: { SlotVoid x(c); x(f.arg); got = result(m.fid, f.arg); break; }
      default: { SlotStd x(c); Slot y(x); SlotShort z(y); got = z((short)f.arg); if (w.stack.back().called == ex) break; break; }
    }
  } catch (const bs::expired_slot &) { threw = true; }
  w.noAct = oldAct;
  if (w.stack.size() != depth + 1) fail(T(18), "harness: stack");
  Frame g = w.stack.back();
  w.stack.pop_back();
  if (!ex) pin(m.deps, -1);
  if (threw != ex) fail(T(18, 6), "direct call %s although the slot is%s expired", threw ? "throws expired_slot" : "does not throw", ex ? "" : " not");
  if (ex && g.called) fail(T(18, 6, MAIN), "expired slot was called");
  if (!ex && (!g.called || got != result(m.fid, f.arg))) fail(T(18), "direct call %s", g.called ? "returns something else" : "did not run the function");
  stats().add(ex ? "expired_direct_calls" : "completed_direct_calls");
}
static void emit(int s) {
  World &w = *W;
  if (!w.sigs[s].s) return;
  Frame f = Frame();
  f.emission = true;
  f.arg = 1 + w.rng.below(1000);
  for (int c : w.order[s]) f.conns.push_back(c);
  tr("%zu emit %d", w.stack.size(), s);
  w.stack.push_back(f);
  ++w.sigs[s].running;
  Sig *sig = w.sigs[s].s.get();
  boost::optional<int> r = (*sig)(f.arg);
  --w.sigs[s].running;
  Frame g = w.stack.back();
  w.stack.pop_back();
  pin(g.pinned, -1);
  while (g.pos < g.conns.size() && !conn_connected(w.conns[g.conns[g.pos]])) ++g.pos;
  if (g.pos < g.conns.size()) fail(T(MAIN, 1, 6), "invocation skipped a connected slot: %s", show(w.conns[g.conns[g.pos]].m).c_str());
  if (bool(r) != g.called || (r && *r != g.last)) fail(T(14, 18), "invocation returns something else");
  stats().add("invocations");
}
static void prune() {
  World &w = *W;
  if (!w.stack.empty()) return;
  for (auto &o : w.order) for (size_t i = 0; i < o.size();) if (!conn_connected(w.conns[o[i]])) o.erase(o.begin() + i); else ++i;
}
static void op() {
  World &w = *W;
  Rng &r = w.rng;
  int i = w.slots.empty() ? -1 : (int)r.below(w.slots.size());
  bool idle = w.stack.empty();
  switch (r.below(24)) {
    case 0: case 1: if (w.slots.size() < 8) { MSlot m; std::unique_ptr<Slot> s = build(m); tr("slot %zu fid %d %s", w.slots.size(), m.fid, show(m).c_str()); w.slots.push_back(std::move(s)); w.mslots.push_back(m); } break;
    case 2: if (i >= 0 && idle) { MSlot m; std::unique_ptr<Slot> s = build(m); tr("slot %d replaced: fid %d %s", i, m.fid, show(m).c_str()); w.slots[i].swap(s); w.mslots[i] = m; } break;
    case 3: if (i >= 0) { MSlot m = w.mslots[i]; track_some(*w.slots[i], m); w.mslots[i] = m; tr("slot %d tracks: %s", i, show(m).c_str()); } break;
    case 4: if (i >= 0 && idle) { int j = r.below(w.slots.size()); tr("slot %d = slot %d", i, j); *w.slots[i] = *w.slots[j]; w.mslots[i] = w.mslots[j]; stats().add("slot_assignments"); } break;
    case 5: if (i >= 0 && w.slots.size() < 8) { tr("slot %zu(slot %d)", w.slots.size(), i); std::unique_ptr<Slot> s; switch (r.below(4)) { case 0: s.reset(new Slot(*w.slots[i])); break; case 1: s.reset(new Slot(SlotStd(*w.slots[i]))); break; case 2: { Slot t(*w.slots[i]); s.reset(new Slot(std::move(t))); break; } default: s.reset(new Slot(Slot(Slot(*w.slots[i])))); } MSlot m = w.mslots[i]; w.slots.push_back(std::move(s)); w.mslots.push_back(m); stats().add("slot_copies"); } break;
    case 6: if (i >= 0 && idle) { tr("slot_function of %d replaced", i); int f = new_fid(); Fn g = {f}; w.slots[i]->slot_function() = g; w.mslots[i].fid = f; const Slot &cs = *w.slots[i]; if (cs.slot_function().empty()) fail(T(18), "slot_function() is empty"); } break;
    case 7: if (i >= 0 && idle && r.chance(1, 2)) { tr("slot %d destroyed", i); w.slots.erase(w.slots.begin() + i); w.mslots.erase(w.mslots.begin() + i); } break;
    case 8: case 9: case 10: case 11: {
      int s = pick_sig();
      if (i < 0 || s < 0 || w.order[s].size() > 12) break;
      MConn c;
      c.m = w.mslots[i];
      c.sig = s;
      c.disc = false;
      bool front = r.chance(1, 4);
      // a slot must not track the signal it is connected to only in one's own imagination: allowed and harmless
      int id = w.conns.size();
      tr("%zu connect slot %d to %d: connection %d", w.stack.size(), i, s, id);
      if (r.chance(1, 5)) c.c = w.sigs[s].s->connect(SlotStd(*w.slots[i]), front ? bs::at_front : bs::at_back);
      else c.c = w.sigs[s].s->connect(*w.slots[i], front ? bs::at_front : bs::at_back);
      w.conns.push_back(c);
      if (front) w.order[s].insert(w.order[s].begin(), id); else w.order[s].push_back(id);
      stats().add("connects");
      break;
    }
    case 12: if (!w.conns.empty() && r.chance(1, 2)) { int c = r.below(w.conns.size()); tr("disconnect %d", c); w.conns[c].disc = true; w.conns[c].c.disconnect(); } break;
    case 13: case 14: {
      int t = pick_trk();
      if (t < 0 || w.trks[t].p->running || r.chance(1, 3)) break;
      tr("%zu trackable %d destroyed", w.stack.size(), t);
      if (!idle) stats().add("trackables_destroyed_in_slots");
      kill_trk(t);
      break;
    }
    case 15: if (w.trks.size() < 90) { int t = new_trk(); tr("trackable %d", t); } break;
    case 16: { int a = pick_trk(), b = pick_trk(); if (a >= 0 && b >= 0) { tr("trackable %d = %d", a, b); *w.trks[a].p = *w.trks[b].p; stats().add("trackable_assignments"); } break; }
    case 17: { int t = pick_tok(); if (t >= 0) { tr("%zu drop token %d", w.stack.size(), t); w.toks[t].dropped = true; w.toks[t].b.reset(); w.toks[t].s.reset(); } break; }
    case 18: {
      if (!idle || !r.chance(1, 3)) break;
      int s = r.below(w.sigs.size());
      if (w.sigs[s].pins || w.sigs[s].running) break;
      if (!w.sigs[s].s) break;
      tr("signal %d destroyed", s);
      for (int c : w.order[s]) w.conns[c].disc = true;
      w.order[s].clear();
      w.sigs[s].s.reset();
      SigInfo n = SigInfo();
      n.s.reset(new Sig);
      w.sigs.push_back(std::move(n));
      w.order.push_back(vector<int>());
      break;
    }
    case 19: case 20: if (i >= 0) direct_call(i); break;
    case 21: { int s = pick_sig(); if (s >= 0) emit(s); break; }
    case 22: if (idle && w.locks.size()) { tr("lock released"); Deps d = w.locks.back().second; w.locks.pop_back(); pin(d, -1); } break;
    case 23: { // bound function objects that live on
      for (size_t k = 0; k < w.trks.size(); ++k) if (w.trks[k].kind == 3 && !w.trks[k].dead && r.chance(1, 3) && idle) { tr("function object %zu destroyed", k); kill_trk(k); break; }
      break;
    }
  }
}
static void act(int n) {
  for (int i = 0; i < n; ++i) { op(); check_all(); }
  stats().add("operations_in_slots", n);
}

// ---------------------------------------------------------------- last owners that go away at any moment
// Objects known to the slot through a smart pointer type of the user's: whenever the library asks it something, owners may
// drop the object before or after the answer, as other threads could.
#if !CFG_TRACKABLE
namespace race {
struct Target { unsigned magic; Target() : magic(0x7A46) { ++live(); } Target(const Target &); ~Target() { if (magic != 0x7A46) fail(T(6, 22), "tracked object destroyed twice"); magic = 0; --live(); } static long &live() { static long n; return n; } };
struct State { Rng *rng; vector<std::shared_ptr<Target> > own; vector<std::weak_ptr<Target> > obs; bool armed; unsigned den; long drops; };
static State *S;
static void moment() {
  if (!S || !S->armed || !S->rng->chance(1, S->den)) return;
  unsigned i = S->rng->below(S->own.size());
  if (S->own[i]) { S->own[i].reset(); ++S->drops; tr("owner of %u gone", i); stats().add("owners_gone_while_asked"); }
}
template <class U> struct Shared { std::shared_ptr<U> p; };
template <class U> struct Weak {
  std::weak_ptr<U> p;
  Weak() {}
  Weak(const Shared<U> &s) : p(s.p) {}
  Shared<U> lock() const { moment(); Shared<U> r; r.p = p.lock(); moment(); return r; }
  bool expired() const { moment(); bool r = p.expired(); moment(); return r; }
};
} // namespace race
namespace boost { namespace signals2 {
template <class U> struct weak_ptr_traits<race::Weak<U> > { typedef race::Shared<U> shared_type; };
template <class U> struct shared_ptr_traits<race::Shared<U> > { typedef race::Weak<U> weak_type; };
} }
namespace race {
static void one_case(uint64_t seed) {
  Rng r(seed);
  State st;
  st.rng = &r;
  st.armed = false;
  st.drops = 0;
  st.den = 2 + r.below(12);
  S = &st;
  Hash h;
  struct MS { vector<int> deps; long calls; };
  vector<MS> ms(1 + r.below(5));
  bool running = false;
  int cur = -1, argv = 0;
  {
    int n = 1 + r.below(4);
    for (int i = 0; i < n; ++i) { st.own.push_back(std::make_shared<Target>()); st.obs.push_back(st.own.back()); }
    vector<Slot> slots;
    Sig sig;
    vector<bs::connection> conns;
    for (size_t i = 0; i < ms.size(); ++i) {
      ms[i].calls = 0;
      Slot s([&, i](int x) {
        if (!running || (cur >= 0 && cur != (int)i)) fail(T(18, 1), "slot function %zu called out of the blue", i);
        if (x != argv) fail(T(18, 21), "argument %d arrived as %d", argv, x);
        ++ms[i].calls;
        h.add(i);
        for (int pass = 0; pass < 2; ++pass) {
          for (int d : ms[i].deps) {
            std::shared_ptr<Target> t = st.obs[d].lock();
            if (!t) fail(T(6, 18), "slot function runs although the tracked object %d is gone (%s)", d, cur >= 0 ? "direct call" : "invocation");
          }
          moment();
        }
        stats().add("raced_calls");
        return int(i);
      });
      int nd = r.below(5);
      for (int k = 0; k < nd; ++k) {
        int d = r.below(n);
        ms[i].deps.push_back(d);
        Shared<Target> p;
        p.p = st.own[d];
        switch (r.below(4)) { case 0: s.track_foreign(Weak<Target>(p)); break; case 1: s.track_foreign(st.own[d]); break; default: s.track_foreign(p); }
      }
      slots.push_back(s);
      if (r.chance(2, 3)) conns.push_back(sig.connect(s)); 
    }
    int nops = 2 + r.below(6);
    for (int k = 0; k < nops; ++k) {
      argv = 1 + r.below(1000);
      int i = r.below(slots.size());
      auto gone = [&](int j) { for (int d : ms[j].deps) if (st.obs[d].expired()) return true; return false; };
      auto unowned = [&](int j) { for (int d : ms[j].deps) if (!st.own[d]) return true; return false; };
      bool before = gone(i);
      long calls = ms[i].calls;
      switch (r.below(4)) {
        case 0: { // direct call
          bool threw = false;
          running = true; cur = i; st.armed = true;
          tr("direct call of %d", i);
          try { Slot c(slots[i]); int v = r.chance(1, 2) ? c(argv) : slots[i](argv); if (v != i) fail(T(18), "direct call returns something else"); } catch (const bs::expired_slot &) { threw = true; }
          running = false; cur = -1; st.armed = false;
          h.add(threw);
          if (ms[i].calls - calls != !threw) fail(T(18), "direct call %s and runs the function %ld times", threw ? "throws" : "returns", ms[i].calls - calls);
          if (threw && !unowned(i)) fail(T(18), "direct call throws expired_slot although every tracked object is owned");
          if (!threw && before) fail(T(18, 6), "expired slot was called");
          break;
        }
        case 1: { // lock and keep
          bool threw = false;
          tr("lock %d", i);
          st.armed = true;
          {
            bs::slot_base::locked_container_type l;
            try { l = slots[i].lock(); } catch (const bs::expired_slot &) { threw = true; }
            for (int m = 0; m < 3; ++m) moment();
            if (!threw && gone(i)) fail(T(18, 6), "lock() returns although a tracked object is gone and nothing can bring it back");
          }
          st.armed = false;
          h.add(threw);
          if (threw && !unowned(i)) fail(T(18), "lock() throws expired_slot although every tracked object is owned");
          if (!threw && before) fail(T(18, 6), "lock() of an expired slot returns");
          break;
        }
        case 2: { // invocation
          running = true; cur = -1; st.armed = true;
          vector<long> was;
          vector<bool> dead;
          for (size_t j = 0; j < ms.size(); ++j) { was.push_back(ms[j].calls); dead.push_back(gone(j)); }
          tr("invocation");
          sig(argv);
          running = false; st.armed = false;
          for (size_t j = 0; j < ms.size(); ++j) {
            if (ms[j].calls > was[j] + 1) fail(T(1), "slot called twice in one invocation");
            if (ms[j].calls > was[j] && dead[j]) fail(T(6), "slot called although a tracked object had expired before the invocation");
          }
          break;
        }
        default: { // queries
          st.armed = true;
          bool e = slots[i].expired();
          st.armed = false;
          if (e && !unowned(i)) fail(T(18), "expired() is true although every tracked object is owned");
          if (!e && before) fail(T(18, 6), "expired() is false although a tracked object is gone");
        }
      }
      // nothing holds on to the objects between the operations
      for (size_t d = 0; d < st.own.size(); ++d) if (!st.own[d] && !st.obs[d].expired()) fail(T(6, 18), "tracked object %zu kept alive although nothing runs", d);
    }
  }
  st.own.clear();
  if (Target::live()) fail(T(6, 22), "%ld tracked objects leaked", Target::live());
  h.add(st.drops);
  stats().distinct.insert(h.h);
  S = 0;
}
} // namespace race
#endif

static void one_case(long long cno, uint64_t seed) {
#if !CFG_TRACKABLE
  if (cno % 8 == 5) { race::one_case(seed); stats().add("racing_owner_cases"); return; }
#endif
  std::unique_ptr<World> wp(new World(seed));
  World &w = *wp;
  W = wp.get();
  for (int i = 0; i < 2; ++i) { SigInfo n = SigInfo(); n.s.reset(new Sig); w.sigs.push_back(std::move(n)); w.order.push_back(vector<int>()); }
  for (int i = 0; i < 3; ++i) new_trk();
  for (int i = 0; i < 2; ++i) new_tok();
  int n = 10 + w.rng.below(60);
  for (int k = 0; k < n; ++k) {
    if (w.rng.chance(1, 7)) { int s = pick_sig(); if (s >= 0) emit(s); } else op();
    check_all();
    if (!w.slots.empty()) check_slot(w.rng.below(w.slots.size()));
    prune();
  }
  for (const string &t : ctx().trace) for (char c : t) w.h.add(c);
  bool nt = w.conns.size() >= 2;
  // end in random order
  w.noAct = true;
  for (int k = 0; k < 4; ++k) switch ((w.rng.below(4) + k) % 4) {
    case 0: while (!w.locks.empty()) { pin(w.locks.back().second, -1); w.locks.pop_back(); } break;
    case 1: w.slots.clear(); w.mslots.clear(); break;
    case 2: for (size_t t = 0; t < w.trks.size(); ++t) if (!w.trks[t].dead) { kill_trk(t); } break;
    case 3: for (size_t t = 0; t < w.toks.size(); ++t) { w.toks[t].dropped = true; w.toks[t].b.reset(); w.toks[t].s.reset(); } break;
  }
  while (!w.locks.empty()) { pin(w.locks.back().second, -1); w.locks.pop_back(); }
  for (size_t t = 0; t < w.trks.size(); ++t) if (!w.trks[t].dead) kill_trk(t);
  check_all();
  for (size_t s = 0; s < w.sigs.size(); ++s) emit(s);
  for (size_t s = 0; s < w.sigs.size(); ++s) { for (int c : w.order[s]) w.conns[c].disc = true; w.sigs[s].s.reset(); w.order[s].clear(); }
  w.slots.clear();
  check_all();
  if (nt && stats().distinct.insert(w.h.h).second) stats().add("distinct_nontrivial");
  if (stats().samples.empty() && nt) { string s = "case " + std::to_string(cno) + ":"; for (size_t i = 0; i < ctx().trace.size() && i < 25; ++i) s += " | " + ctx().trace[i]; stats().samples.push_back(s); }
  W = 0;
}
#if CFG_TRACKABLE
// a signal bound by reference into a slot of another signal, destroyed while it is being invoked
struct SigUser { typedef int result_type; int *calls; bool *dead; int operator()(Sig &, int x) const { ++*calls; (void)dead; return x; } };
static void probe_dangling_signal() {
  int calls = 0;
  bool dead = false;
  Sig other;
  Sig *s = new Sig;
  SigUser u = {&calls, &dead};
  bs::connection c = other.connect(Slot(boost::bind<int>(u, boost::ref(*s), _1)));
  s->connect([&](int x) { delete s; dead = true; other(x); return x; });
  (*s)(1);
  if (c.connected()) fail(T(23), "slot bound to a destroyed signal stays connected");
  if (calls) fail(T(23), "slot bound to a signal is called after the signal was destroyed, while the signal is being invoked");
}
#endif
int main(int argc, char **argv) {
  Args a(argc, argv);
#if CFG_TRACKABLE
  if (a.num("from", 0) == 0) probe_dangling_signal();
#endif
  return run_cases("slots", a, one_case);
}
