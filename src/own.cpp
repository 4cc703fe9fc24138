// Ownership: function objects own further objects with signals, handles, blocks and slot objects of their own, and operations
// get references to things which these very operations may end up destroying.  A case is a random program over such trees;
// a model of links and owners says after every operation what is connected and what has to be alive.
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <memory>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;
#ifndef CFG_MUTEX
#define CFG_MUTEX 0
#endif
#if CFG_MUTEX == 1
typedef bs::signal_type<void(), bs::keywords::mutex_type<bs::dummy_mutex> >::type Sig;
#else
typedef bs::signal<void()> Sig;
#endif
enum { NI = 6, LINKS = 160, NODES = 90 };

struct Node;
static void fn_called(int fid);
static void last_copy_gone(int fid);
struct Fn { // function object that may own a node
  int fid;
  bool key; // only to be compared with
  boost::shared_ptr<Node> child;
  explicit Fn(int f) : fid(f), key(true) {}
  Fn(int f, const boost::shared_ptr<Node> &c);
  Fn(const Fn &o);
  ~Fn();
  void operator()() const { fn_called(fid); }
  bool operator==(const Fn &o) const { return fid == o.fid; }
private:
  Fn &operator=(const Fn &);
};
struct Node {
  int id;
  std::unique_ptr<Sig> sig;
  bs::connection plain[NI];
  bs::scoped_connection scoped[NI];
  std::unique_ptr<bs::shared_connection_block> block[NI];
  std::unique_ptr<Sig::slot_type> slot[NI];
  boost::shared_ptr<int> token;
  std::unique_ptr<Fn> key; // a function object to disconnect by
  explicit Node(int i) : id(i), sig(new Sig), token(boost::make_shared<int>(i)) {}
  ~Node();
};

// ---- model
struct MLink { int impl, fid, group; bool connected, front, unsureBlock; int tracks; /* node whose token is tracked or -1 */ bs::connection c; };
struct MNode { bool alive; int refs; int impl; int plain[NI], scoped[NI], block[NI]; bool blocking[NI]; int slot[NI]; int slotTracks[NI]; boost::weak_ptr<Node> w; };
struct MFn { int child; int copies; int holders; bool maybe; }; // copies: real ones; holders: connected links and slot objects
struct World {
  Rng rng;
  vector<MLink> links;
  vector<MNode> nodes;
  vector<MFn> fns;
  int impls;
  std::map<int, vector<int> > order; // links of an implementation in call order
  vector<boost::shared_ptr<Node> > roots;
  int depth, inDestructor, target, targetOther;
  vector<int> calls;
  bool opsInside;
  Hash h;
  explicit World(uint64_t s) : rng(s), impls(0), depth(0), inDestructor(0), target(-1), targetOther(-1), opsInside(false) {}
};
static World *W;
static bool g_ending;
Fn::Fn(int f, const boost::shared_ptr<Node> &c) : fid(f), key(false), child(c) { ++W->fns[fid].copies; }
Fn::Fn(const Fn &o) : fid(o.fid), key(o.key), child(o.child) { if (!key) ++W->fns[fid].copies; }
Fn::~Fn() {
  int f = fid;
  fid = -7;
  if (!key && --W->fns[f].copies == 0) last_copy_gone(f);
}
Node::~Node() { stats().add("nodes_destroyed"); }

static void node_unref(int n);
static void fn_release(int f) {
  MFn &m = W->fns[f];
  if (--m.holders == 0 && m.child >= 0) node_unref(m.child);
}
static void model_disconnect(int l) {
  if (l < 0 || !W->links[l].connected) return;
  W->links[l].connected = false;
  fn_release(W->links[l].fid);
}
static void impl_gone(int i) {
  vector<int> o = W->order[i];
  W->order.erase(i);
  for (size_t k = 0; k < o.size(); ++k) model_disconnect(o[k]);
}
static void node_unref(int n) {
  if (--W->nodes[n].refs) return;
  W->nodes[n].alive = false;
  // what tracks its token has expired; the function object goes when the library notices
  for (size_t l = 0; l < W->links.size(); ++l)
    if (W->links[l].connected && W->links[l].tracks == n) { W->fns[W->links[l].fid].maybe = true; model_disconnect(int(l)); }
  for (int i = 0; i < NI; ++i) {
    MNode &m = W->nodes[n];
    if (m.scoped[i] >= 0) model_disconnect(m.scoped[i]);
    // (within a slot it may still be held by the function object being called)
    if (m.block[i] >= 0 && m.blocking[i] && W->depth) W->links[m.block[i]].unsureBlock = true;
    m.block[i] = -1;
    if (m.slot[i] >= 0) { int f = m.slot[i]; m.slot[i] = -1; fn_release(f); }
  }
  int im = W->nodes[n].impl;
  W->nodes[n].impl = -1;
  if (im >= 0) impl_gone(im);
}
static bool alive(int l) { return l >= 0 && W->links[l].connected; }
static bool blocked(int l) {
  for (size_t n = 0; n < W->nodes.size(); ++n)
    if (W->nodes[n].alive)
      for (int i = 0; i < NI; ++i) if (W->nodes[n].block[i] == l && W->nodes[n].blocking[i]) return true;
  return false;
}
// is node n owned (through whatever) by what implementation im holds?
static bool owned_by_impl(int im, int n, int d = 0);
static bool owned_by_node(int a, int n, int d) {
  if (a == n || d > 60) return true;
  MNode &m = W->nodes[a];
  for (int i = 0; i < NI; ++i) if (m.slot[i] >= 0 && W->fns[m.slot[i]].child >= 0 && owned_by_node(W->fns[m.slot[i]].child, n, d + 1)) return true;
  return m.impl >= 0 && owned_by_impl(m.impl, n, d + 1);
}
static bool owned_by_impl(int im, int n, int d) {
  const vector<int> &o = W->order[im];
  for (size_t k = 0; k < o.size(); ++k)
    if (alive(o[k])) { int c = W->fns[W->links[o[k]].fid].child; if (c >= 0 && owned_by_node(c, n, d + 1)) return true; }
  return false;
}
static bool owned_by_fn(int f, int n) { return W->fns[f].child >= 0 && owned_by_node(W->fns[f].child, n, 0); }

static int pick_node() {
  vector<int> a;
  for (size_t n = 0; n < W->nodes.size(); ++n) if (W->nodes[n].alive) a.push_back(int(n));
  return a.empty() ? -1 : a[W->rng.below(unsigned(a.size()))];
}
static Node &N(int n) { // a reference without ownership
  boost::shared_ptr<Node> p = W->nodes[n].w.lock();
  if (!p) fail(T(7, 22), "an object owned by a connected slot or a slot object is gone (node %d)", n);
  return *p;
}
static int new_node() {
  if (W->nodes.size() >= NODES) return -1;
  MNode m;
  m.alive = true; m.refs = 0; m.impl = W->impls++;
  for (int i = 0; i < NI; ++i) { m.plain[i] = m.scoped[i] = m.block[i] = m.slot[i] = m.slotTracks[i] = -1; m.blocking[i] = false; }
  W->order[m.impl];
  W->nodes.push_back(m);
  return int(W->nodes.size()) - 1;
}
static int new_fn(boost::shared_ptr<Node> &child) {
  MFn f = { -1, 0, 0, false };
  child.reset();
  if (W->rng.chance(1, 2)) {
    int n = new_node();
    if (n >= 0) {
      child = boost::make_shared<Node>(n);
      W->nodes[n].w = child;
      f.child = n;
    }
  }
  W->fns.push_back(f);
  return int(W->fns.size()) - 1;
}
static void add_holder(int f) { // a connected link or a slot object has a copy of it
  if (W->fns[f].holders++ == 0 && W->fns[f].child >= 0) ++W->nodes[W->fns[f].child].refs;
}
static void insert_link(int im, int l) {
  vector<int> &o = W->order[im];
  MLink &x = W->links[l];
  // section and group: front ungrouped, groups, back ungrouped
  auto key = [](const MLink &m) { return m.group < 0 ? (m.front ? -1 : 1000) : m.group; };
  size_t p = 0;
  if (x.front) while (p < o.size() && key(W->links[o[p]]) < key(x)) ++p;
  else while (p < o.size() && key(W->links[o[p]]) <= key(x)) ++p;
  o.insert(o.begin() + p, l);
}

static void check_all() {
  World &w = *W;
  ++w.inDestructor; // looking may release expired slots: no operations in their destructors now
  for (size_t l = 0; l < w.links.size(); ++l) {
    if (w.links[l].c.connected() != w.links[l].connected)
      fail(T(4, 15, 16), "connection %zu reports %s", l, w.links[l].connected ? "disconnected though nothing has disconnected it" : "connected though disconnected");
    bool b = w.links[l].connected ? blocked(int(l)) : true;
    if (w.links[l].c.blocked() != b) fail(T(5), "connection %zu: blocked() is %d", l, int(!b));
  }
  for (size_t n = 0; n < w.nodes.size(); ++n) {
    boost::shared_ptr<Node> p = w.nodes[n].w.lock();
    if (w.nodes[n].alive) {
      if (!p) fail(T(7, 22), "an object owned by a connected slot or a slot object is gone (node %zu)", n);
      const MNode &m = w.nodes[n];
      if (m.impl < 0) { if (!p->sig->empty() || p->sig->num_slots()) fail(T(16), "a moved-from signal is not empty"); }
      else {
        size_t k = 0;
        for (int l : w.order[m.impl]) k += w.links[l].connected;
        if (p->sig->num_slots() != k || p->sig->empty() != (k == 0)) fail(T(4, 16), "signal of node %zu has %zu slots, not %zu", n, p->sig->num_slots(), k);
      }
      for (int i = 0; i < NI; ++i) {
        if (p->plain[i].connected() != alive(m.plain[i])) fail(T(15), "handle of node %zu: connected() is %d", n, int(!alive(m.plain[i])));
        if (p->scoped[i].connected() != alive(m.scoped[i])) fail(T(15), "scoped handle of node %zu: connected() is %d", n, int(!alive(m.scoped[i])));
      }
    } else if (p) fail(T(7, 22), "an object nobody owns any more is still alive (node %zu)", n);
  }
  for (size_t f = 0; f < w.fns.size(); ++f) {
    if (w.fns[f].holders > 0 && w.fns[f].copies <= 0) fail(T(7), "function object %zu is destroyed though in use", f);
    if (w.fns[f].holders == 0 && w.fns[f].copies > 0 && !w.fns[f].maybe) fail(T(7), "function object %zu is not destroyed", f);
  }
  --w.inDestructor;
  stats().add("states_checked");
}

static void random_op();
static void fn_called(int f) {
  World &w = *W;
  w.calls.push_back(f);
  if (w.fns[f].copies <= 0) fail(T(7, 22), "call of a destroyed function object");
  if (w.depth < 3 && w.rng.chance(1, 5)) { w.opsInside = true; ++w.depth; random_op(); --w.depth; stats().add("ops_in_slots"); }
}
static void last_copy_gone(int) {
  World &w = *W;
  if (g_ending || w.inDestructor || !w.rng.chance(1, 3)) return;
  ++w.inDestructor;
  stats().add("destructor_ops");
  w.opsInside = true;
  if (w.rng.chance(1, 2) && !w.links.empty()) { // the destructor disconnects something
    int l = int(w.rng.below(unsigned(w.links.size())));
    tr("~dis %d", l);
    bs::connection c = w.links[l].c;
    model_disconnect(l);
    c.disconnect();
  } else {
    int n = pick_node();
    if (n >= 0 && n != w.target && n != w.targetOther) {
      boost::shared_ptr<Node> p = w.nodes[n].w.lock();
      if (p) { volatile bool e = p->sig->empty(); (void)e; volatile size_t k = p->sig->num_slots(); (void)k; for (int i = 0; i < NI; ++i) { volatile bool x = p->scoped[i].connected(); (void)x; } }
    }
  }
  --w.inDestructor;
}
struct Target { // member functions that are no destructors are not run on objects that go away meanwhile
  boost::shared_ptr<Node> keep;
  int o1, o2;
  int n;
  Target(int n_, int other = -1) : keep(W->nodes[n_].w.lock()), o1(W->target), o2(W->targetOther), n(n_) { ++W->nodes[n].refs; W->target = n; W->targetOther = other; }
  ~Target() { W->target = o1; W->targetOther = o2; node_unref(n); }
};

static void connect_op() {
  World &w = *W;
  int n = pick_node();
  if (n < 0 || w.nodes[n].impl < 0 || w.links.size() >= LINKS) return;
  MLink m;
  m.group = w.rng.chance(1, 2) ? int(w.rng.below(3)) : -1;
  m.front = w.rng.chance(1, 3);
  m.tracks = -1;
  m.connected = true;
  m.unsureBlock = false;
  bs::connect_position pos = m.front ? bs::at_front : bs::at_back;
  Node &nd = N(n);
  int im = w.nodes[n].impl;
  int from = -1, fromNode = -1;
  if (w.rng.chance(1, 4)) { // from a slot object of some node
    fromNode = pick_node();
    int i = int(w.rng.below(NI));
    if (w.nodes[fromNode].slot[i] >= 0 && !owned_by_fn(w.nodes[fromNode].slot[i], n)) from = i;
  }
  Target t(n);
  if (from >= 0) {
    m.fid = w.nodes[fromNode].slot[from];
    m.tracks = w.nodes[fromNode].slotTracks[from];
    if (m.tracks >= 0 && !w.nodes[m.tracks].alive) m.connected = false;
    const Sig::slot_type &s = *N(fromNode).slot[from];
    m.c = m.group >= 0 ? nd.sig->connect(m.group, s, pos) : nd.sig->connect(s, pos);
    if (!m.connected) w.fns[m.fid].maybe = true;
  } else {
    boost::shared_ptr<Node> child;
    m.fid = new_fn(child);
    Sig::slot_type s = Fn(m.fid, child);
    child.reset();
    if (w.fns[m.fid].child < 0 && w.rng.chance(1, 4)) { m.tracks = pick_node(); s.track(N(m.tracks).token); }
    m.c = m.group >= 0 ? nd.sig->connect(m.group, s, pos) : nd.sig->connect(s, pos);
    if (m.tracks >= 0 && !w.nodes[m.tracks].alive) m.connected = false;
  }
  m.impl = im;
  int l = int(w.links.size());
  tr("connect l%d n%d f%d child%d g%d%s tr%d", l, n, m.fid, w.fns[m.fid].child, m.group, m.front ? "f" : "", m.tracks);
  bool was = m.connected;
  w.links.push_back(m);
  if (was) add_holder(m.fid);
  if (was && w.order.count(im) == 0) { model_disconnect(l); return; }
  if (was || w.order.count(im)) insert_link(im, l);
  // the function object's own node gets handles, and somebody owns the connection
  int c = w.fns[m.fid].child;
  if (was && c >= 0 && w.nodes[c].alive && w.rng.chance(1, 2)) {
    int i = int(w.rng.below(NI)), x = int(w.rng.below(unsigned(w.links.size())));
    tr("plain n%d[%d]=l%d", c, i, x);
    w.nodes[c].plain[i] = x;
    N(c).plain[i] = w.links[x].c;
  }
  int s = pick_node();
  if (was && s >= 0 && w.rng.chance(1, 3))
    for (int i = 0; i < NI; ++i)
      if (w.nodes[s].scoped[i] < 0) {
        tr("scoped n%d[%d]=l%d", s, i, l);
        w.nodes[s].scoped[i] = l;
        N(s).scoped[i] = w.links[l].c;
        break;
      }
}
// a node owned by a slot of that link / of that implementation, or any node
static int pick_owned_by(int l, int im) {
  if (W->rng.chance(1, 2)) {
    if (alive(l) && W->fns[W->links[l].fid].child >= 0) return W->fns[W->links[l].fid].child;
    if (im >= 0)
      for (int k : W->order[im]) if (alive(k) && W->fns[W->links[k].fid].child >= 0 && W->rng.chance(2, 3)) return W->fns[W->links[k].fid].child;
  }
  return pick_node();
}
static int pick_link() { return W->links.empty() ? -1 : int(W->rng.below(unsigned(W->links.size()))); }
static void random_op() {
  World &w = *W;
  Rng &r = w.rng;
  unsigned k = r.below(100);
  int n = pick_node();
  if (n < 0) return;
  int i = int(r.below(NI)), j = int(r.below(NI));
  w.h.add(k);
  if (k < 30) connect_op();
  else if (k < 33) { // drop or make a root
    if (w.roots.size() < 4 && r.chance(1, 2)) {
      int x = new_node();
      if (x < 0) return;
      boost::shared_ptr<Node> p = boost::make_shared<Node>(x);
      w.nodes[x].w = p;
      w.nodes[x].refs = 1;
      w.roots.push_back(p);
      tr("root n%d", x);
    } else if (w.roots.size() > 1) {
      size_t x = r.below(unsigned(w.roots.size()));
      boost::shared_ptr<Node> p = w.roots[x];
      w.roots.erase(w.roots.begin() + x);
      tr("drop n%d", p->id);
      node_unref(p->id);
      p.reset();
    }
  } else if (k < 38) { // disconnect by some handle
    int l = pick_link();
    if (l < 0) return;
    tr("dis l%d", l);
    bs::connection c = w.links[l].c;
    model_disconnect(l);
    c.disconnect();
  } else if (k < 40) {
    int l = w.nodes[n].scoped[i];
    tr("scoped.dis n%d l%d", n, l);
    Target t(n);
    Node &nd = N(n);
    model_disconnect(l);
    nd.scoped[i].disconnect();
  } else if (k < 43) { // by function, group, all
    Target t(n);
    Node &nd = N(n);
    if (w.nodes[n].impl < 0) { nd.sig->disconnect_all_slots(); nd.sig->disconnect(1); return; }
    vector<int> o = w.order[w.nodes[n].impl];
    unsigned what = r.below(4);
    int owner = pick_owned_by(-1, w.nodes[n].impl); // whose key is used
    int g = int(r.below(3)), f = w.fns.empty() ? -1 : int(r.below(unsigned(w.fns.size())));
    if (what == 1 && f < 0) return;
    if (what == 3) { // by a function object which may be owned by what is disconnected
      what = 1;
      if (!o.empty()) f = w.links[o[r.below(unsigned(o.size()))]].fid;
      for (size_t x = 0; x < o.size(); ++x) if (w.fns[w.links[o[x]].fid].child == owner && r.chance(2, 3)) f = w.links[o[x]].fid;
      if (f < 0) return;
    } else owner = n;
    N(owner).key.reset(new Fn(f));
    const Fn &key = *N(owner).key;
    tr("sig.dis n%d what%u g%d f%d", n, what, g, f);
    for (size_t x = 0; x < o.size(); ++x)
      if (what == 2 || (what == 0 && w.links[o[x]].group == g) || (what == 1 && w.links[o[x]].fid == f)) model_disconnect(o[x]);
    if (what == 2) nd.sig->disconnect_all_slots();
    else if (what == 0) nd.sig->disconnect(g);
    else nd.sig->disconnect(key);
  } else if (k < 52) { // handles: the source may be owned by what the target gives up
    if (r.chance(1, 2)) for (int x = 0; x < NI; ++x) if (alive(w.nodes[n].scoped[x])) i = x;
    int old = w.nodes[n].scoped[i];
    int m = pick_owned_by(old, -1);
    if (r.chance(1, 2)) for (int x = 0; x < NI; ++x) if (alive(w.nodes[m].plain[x])) j = x;
    int l = pick_link();
    Target t(n);
    Node &nd = N(n), &from = N(m);
    switch (r.below(9)) {
    case 8: { // a handle to something is given to an object a slot owns
      tr("plain n%d[%d]=l%d", m, j, l);
      if (l >= 0) { w.nodes[m].plain[j] = l; from.plain[j] = w.links[l].c; }
      break;
    }
    case 0: case 1: tr("plain n%d[%d]=l%d", n, i, l); if (l >= 0) { w.nodes[n].plain[i] = l; nd.plain[i] = w.links[l].c; } break;
    case 2: { // scoped = plain
      int x = w.nodes[m].plain[j];
      tr("scoped n%d[%d](l%d) = plain n%d[%d](l%d)", n, i, old, m, j, x);
      w.nodes[n].scoped[i] = x;
      bs::connection &src = from.plain[j];
      if (old != x || x < 0) { model_disconnect(old); nd.scoped[i] = src; }
      else { model_disconnect(old); nd.scoped[i] = src; }
      break;
    }
    case 3: { // scoped = move(plain)
      int x = w.nodes[m].plain[j];
      tr("scoped n%d[%d](l%d) = move plain n%d[%d](l%d)", n, i, old, m, j, x);
      w.nodes[n].scoped[i] = x;
      w.nodes[m].plain[j] = -1;
      model_disconnect(old);
      nd.scoped[i] = std::move(from.plain[j]);
      break;
    }
    case 4: case 5: { // scoped = move(scoped)
      if (n == m && i == j) return;
      int x = w.nodes[m].scoped[j];
      tr("scoped n%d[%d](l%d) = move scoped n%d[%d](l%d)", n, i, old, m, j, x);
      w.nodes[n].scoped[i] = x;
      w.nodes[m].scoped[j] = -1;
      model_disconnect(old);
      nd.scoped[i] = std::move(from.scoped[j]);
      break;
    }
    case 6: { tr("release n%d[%d]", n, i); w.nodes[n].plain[j] = old; w.nodes[n].scoped[i] = -1; nd.plain[j] = nd.scoped[i].release(); break; }
    default: { // scoped from a new temporary
      int x = w.nodes[m].plain[j];
      tr("scoped n%d[%d](l%d) = scoped(plain n%d[%d](l%d))", n, i, old, m, j, x);
      w.nodes[n].scoped[i] = x;
      bs::scoped_connection tmp(from.plain[j]);
      model_disconnect(old);
      nd.scoped[i] = std::move(tmp);
    }
    }
  } else if (k < 62) { // signals: move-assign, move-construct, swap
    int m = pick_owned_by(-1, w.nodes[n].impl);
    if (m == n) return;
    int a = w.nodes[n].impl, b = w.nodes[m].impl;
    unsigned what = r.below(5);
    if (b >= 0 && owned_by_impl(b, n)) return; // would own itself
    if (what >= 3 && a >= 0 && owned_by_impl(a, m)) return;
    Target t(n, m);
    Node &nd = N(n), &from = N(m);
    w.nodes[n].impl = b;
    if (what >= 3) {
      tr("swap n%d n%d", n, m);
      w.nodes[m].impl = a;
      if (what == 3) nd.sig->swap(*from.sig); else { using std::swap; swap(*nd.sig, *from.sig); }
    } else if (what < 2) {
      tr("move-assign n%d = n%d", n, m);
      w.nodes[m].impl = -1;
      Sig &src = *from.sig;
      if (a >= 0) impl_gone(a);
      *nd.sig = std::move(src);
      stats().add("signals_moved");
    } else { // a new signal made from the other
      tr("move-construct n%d from n%d", n, m);
      w.nodes[m].impl = -1;
      std::unique_ptr<Sig> s(new Sig(std::move(*from.sig)));
      if (a >= 0) impl_gone(a);
      nd.sig.swap(s);
      s.reset();
    }
  } else if (k < 66) { // a new signal
    Target t(n);
    Node &nd = N(n);
    int a = w.nodes[n].impl;
    tr("new signal n%d", n);
    w.nodes[n].impl = w.impls++;
    w.order[w.nodes[n].impl];
    std::unique_ptr<Sig> s(new Sig);
    if (r.chance(1, 2)) { nd.sig.swap(s); if (a >= 0) impl_gone(a); s.reset(); }
    else { if (a >= 0) impl_gone(a); *nd.sig = std::move(*s); }
  } else if (k < 72) { // blocks
    int l = pick_link(), m = pick_node();
    Target t(n);
    Node &nd = N(n), &from = N(m);
    switch (r.below(4)) {
    case 0: case 1: if (l >= 0) { tr("block n%d[%d] l%d", n, i, l); w.nodes[n].block[i] = l; w.nodes[n].blocking[i] = true; nd.block[i].reset(new bs::shared_connection_block(w.links[l].c)); } break;
    case 2: if (nd.block[i] && from.block[j]) {
        tr("block n%d[%d] = n%d[%d]", n, i, m, j);
        w.nodes[n].block[i] = w.nodes[m].block[j]; w.nodes[n].blocking[i] = w.nodes[m].blocking[j];
        *nd.block[i] = *from.block[j];
      }
      break;
    default: if (nd.block[i]) {
        if (r.chance(1, 2)) { tr("unblock n%d[%d]", n, i); w.nodes[n].blocking[i] = false; nd.block[i]->unblock(); }
        else { tr("block drop n%d[%d]", n, i); w.nodes[n].block[i] = -1; nd.block[i].reset(); }
      }
    }
  } else if (k < 84) { // slot objects
    int m = pick_node();
    Target t(n);
    Node &nd = N(n);
    int old = w.nodes[n].slot[i];
    switch (r.below(5)) {
    case 0: case 1: {
      boost::shared_ptr<Node> child;
      int f = new_fn(child);
      tr("slot n%d[%d] = f%d child%d", n, i, f, w.fns[f].child);
      std::unique_ptr<Sig::slot_type> s(new Sig::slot_type(Fn(f, child)));
      child.reset();
      add_holder(f);
      w.nodes[n].slot[i] = f;
      w.nodes[n].slotTracks[i] = -1;
      nd.slot[i].swap(s);
      if (old >= 0) fn_release(old);
      s.reset();
      break;
    }
    case 2: { // assignment from a slot object the old function may own
      int x = w.nodes[m].slot[j];
      if (old < 0 || x < 0 || owned_by_fn(x, n) || (n == m && i == j)) return;
      tr("slot n%d[%d] = slot n%d[%d] (f%d)", n, i, m, j, x);
      const Sig::slot_type &src = *N(m).slot[j];
      add_holder(x);
      w.nodes[n].slot[i] = x;
      w.nodes[n].slotTracks[i] = w.nodes[m].slotTracks[j];
      fn_release(old);
      *nd.slot[i] = src;
      break;
    }
    case 3: if (old >= 0) {
        tr("track n%d[%d]", n, i);
        if (w.nodes[n].slotTracks[i] < 0 && w.fns[old].child < 0) { w.nodes[n].slotTracks[i] = m; nd.slot[i]->track(N(m).token); }
        else nd.slot[i]->track(*nd.slot[i]); // what it tracks itself
        if (r.chance(1, 3)) nd.slot[i]->track(*nd.slot[i]);
        if (nd.slot[i]->expired() != (w.nodes[n].slotTracks[i] >= 0 && !w.nodes[w.nodes[n].slotTracks[i]].alive)) fail(T(18), "slot object that tracks its own tracked objects: wrong expiry");
      }
      break;
    default: if (old >= 0) {
        tr("slot drop n%d[%d]", n, i);
        w.nodes[n].slot[i] = -1;
        std::unique_ptr<Sig::slot_type> s;
        s.swap(nd.slot[i]);
        fn_release(old);
        s.reset();
      }
    }
  } else { // invoke
    int im = w.nodes[n].impl;
    if (im < 0 || w.depth > 2 || w.inDestructor) return;
    vector<int> before, fb;
    std::map<int, bool> sure;
    // (within a slot things may go away only when that slot's function object does, later than in the model)
    ++w.inDestructor;
    for (size_t x = 0; x < w.order[im].size(); ++x) { int l = w.order[im][x]; if (alive(l) || (w.depth && w.links[l].c.connected())) before.push_back(l); }
    --w.inDestructor;
    for (int l : before) { if (!w.depth) w.links[l].unsureBlock = false; sure[l] = alive(l) && !blocked(l) && !w.links[l].unsureBlock; }
    bool oldInside = w.opsInside;
    w.opsInside = false;
    vector<int> oldCalls;
    oldCalls.swap(w.calls);
    tr("emit n%d", n);
    ++w.depth;
    (*N(n).sig)();
    --w.depth;
    vector<int> got = w.calls;
    bool changed = w.opsInside;
    w.calls.swap(oldCalls);
    w.opsInside = oldInside || changed;
    stats().add("invocations");
    stats().add("calls", (long long)got.size());
    size_t p = 0;
    for (int f : got) {
      w.h.add(f);
      bool isBlocked = false; // (several slots may have copies of one function object)
      while (p < before.size() && (w.links[before[p]].fid != f || (!changed && alive(before[p]) && blocked(before[p])))) {
        int l = before[p++];
        isBlocked |= w.links[l].fid == f;
        if (sure[l] && !changed) fail(T(1, 3, 16), "slot %d was skipped", l);
      }
      if (p == before.size()) fail(isBlocked ? T(5) : T(1, 2, 3, 4), "function %d was called %s", f, isBlocked ? "though its slot is blocked" : "out of order, twice or though not connected");
      ++p;
    }
    if (!changed) for (; p < before.size(); ++p) if (sure[before[p]]) fail(T(1, 3, 16), "slot %d was skipped", before[p]);
    // those that were there and callable all the time were called, whatever the others did
    if (changed) {
      stats().add("invocations_changing_the_world");
      std::map<int, int> cnt;
      for (int f : got) ++cnt[f];
      for (int l : before) if (alive(l) && sure[l] && !blocked(l) && !w.links[l].unsureBlock && cnt[w.links[l].fid]-- <= 0) {
        // it may have been blocked for a while
        bool touched = false;
        for (size_t x = 0; x < ctx().trace.size(); ++x) touched |= ctx().trace[x].compare(0, 6, "block ") == 0;
        if (!touched) fail(T(1, 3, 16), "slot %d was skipped though it is still connected", l);
      }
    }
  }
}

static void one_case(long long cno, uint64_t seed) {
  std::unique_ptr<World> wp(new World(seed));
  World &w = *wp;
  W = &w;
  g_ending = false;
  for (int x = 0; x < 2; ++x) {
    int n = new_node();
    boost::shared_ptr<Node> p = boost::make_shared<Node>(n);
    w.nodes[n].w = p;
    w.nodes[n].refs = 1;
    w.roots.push_back(p);
  }
  int ops = 20 + int(w.rng.below(150));
  for (int i = 0; i < ops; ++i) {
    w.opsInside = false;
    random_op();
    check_all();
  }
  g_ending = true;
  while (!w.roots.empty()) {
    boost::shared_ptr<Node> p = w.roots.back();
    w.roots.pop_back();
    node_unref(p->id);
    p.reset();
    check_all();
  }
  for (size_t f = 0; f < w.fns.size(); ++f) if (w.fns[f].copies) fail(T(7, 22), "function object %zu leaked", f);
  if (w.links.size() > 3 && stats().distinct.insert(w.h.h).second) stats().add("distinct_nontrivial");
  if (stats().samples.empty()) { string s = "case " + std::to_string(cno) + ":"; for (size_t i = 0; i < ctx().trace.size() && i < 40; ++i) s += " " + ctx().trace[i] + ";"; stats().samples.push_back(s); }
  wp.release()->links.clear();
  delete W;
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("own", a, one_case);
}
