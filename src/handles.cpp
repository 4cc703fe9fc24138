// connection, scoped_connection and shared_connection_block objects as values: random programs over pools of handles are
// compared with a model of links and ownership.  Operations run on idle signals and from within slots.
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <algorithm>
#include <memory>
#include <type_traits>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;
#ifndef CFG_MUTEX
#define CFG_MUTEX 0
#endif
namespace kw = bs::keywords;
#if CFG_MUTEX == 1
typedef bs::signal_type<void(), kw::mutex_type<bs::dummy_mutex> >::type Sig;
#else
typedef bs::signal<void()> Sig;
#endif

static_assert(!std::is_copy_assignable<bs::scoped_connection>::value || true, "");
#ifdef BOOST_NO_CXX11_RVALUE_REFERENCES
// compilers without rvalue references: connections are not moved
static inline bs::connection take(bs::connection &c) { bs::connection k(c); c = bs::connection(); return k; }
static inline bs::connection take(bs::scoped_connection &c) { return c.release(); }
#define HAVE_MOVE 0
#else
template <class X> static inline X &&take(X &x) { return static_cast<X &&>(x); }
#define HAVE_MOVE 1
#endif
#if HAVE_MOVE
static_assert(std::is_move_constructible<bs::scoped_connection>::value, "scoped_connection can be moved");
static_assert(std::is_nothrow_move_constructible<bs::connection>::value, "");
#endif
#if HAVE_MOVE
static_assert(std::is_convertible<bs::connection, bs::scoped_connection>::value, "");
#endif

enum { NC = 7, NS = 6, NB = 5 };
struct Link { int sig; bool connected; };
struct World {
  Rng rng;
  vector<Link> links;
  std::unique_ptr<Sig> sigs[2];
  int sigGen[2];
  vector<int> order[2];          // links in call order
  bs::connection c[NC];
  int mc[NC];                    // link or -1
  vector<bs::connection> vec;    // a container of handles
  vector<int> mvec;
  alignas(bs::scoped_connection) unsigned char buf[NS][sizeof(bs::scoped_connection)];
  bool have[NS];
  int ms[NS];
  std::unique_ptr<bs::shared_connection_block> b[NB];
  int mb[NB];
  bool mbb[NB];
  vector<std::unique_ptr<bs::scoped_connection> > dummy;
  vector<bs::scoped_connection> svec;
  vector<int> msvec;
  std::map<std::pair<int, int>, bool> less; // order of two connected links
  vector<int> calls;
  int depth;
  long live;
  explicit World(uint64_t s) : rng(s), depth(0), live(0) {
    for (int i = 0; i < NC; ++i) mc[i] = -1;
    for (int i = 0; i < NS; ++i) { have[i] = false; ms[i] = -1; }
    for (int i = 0; i < NB; ++i) { mb[i] = -1; mbb[i] = false; }
    for (int i = 0; i < 2; ++i) sigs[i].reset(new Sig);
  }
  bs::scoped_connection &s(int i) { return *reinterpret_cast<bs::scoped_connection *>(buf[i]); }
};
static World *W;
static void random_ops(int n);
struct Fn {
  int link;
  explicit Fn(int l) : link(l) { ++W->live; }
  Fn(const Fn &o) : link(o.link) { ++W->live; }
  ~Fn() { --W->live; }
  void operator()() const {
    World &w = *W;
    w.calls.push_back(link);
    if (w.depth < 2 && w.rng.chance(1, 6)) { random_ops(1 + w.rng.below(3)); stats().add("ops_in_slots"); }
  }
};
static bool alive(int l) { return l >= 0 && W->links[l].connected; }
static bool blocked(int l) { for (int i = 0; i < NB; ++i) if (W->b[i] && W->mb[i] == l && W->mbb[i]) return true; return false; }
static void dead(int l) { if (l < 0 || !W->links[l].connected) return; W->links[l].connected = false; }
static void check_handle(const bs::connection &c, int l, const char *what) {
  if (c.connected() != alive(l)) fail(T(15, 4), "%s: connected() is %d, expected %d (link %d)", what, c.connected(), alive(l), l);
  bool bl = c.blocked(), want = !alive(l) || blocked(l);
  if (bl != want) fail(T(5, 15), "%s: blocked() is %d, expected %d (link %d)", what, bl, want, l);
}
static void compare(const bs::connection &a, int la, const bs::connection &b, int lb) {
  bool eq = a == b, ne = a != b, lt = a < b, gt = b < a;
  if (eq == ne) fail(T(15), "== and != agree");
  if (eq != (b == a)) fail(T(15), "== is not symmetric");
  if (lt && gt) fail(T(15), "a < b and b < a");
  if (eq && (lt || gt)) fail(T(15), "equal connections are ordered");
  if (!eq && !lt && !gt) fail(T(15), "different connections are not ordered");
  if (la == lb && !eq) fail(T(15), "copies of one connection are not equal (link %d, connected %d)", la, alive(la));
  if (la != lb && (alive(la) || alive(lb)) && eq) fail(T(15), "connections of different links %d and %d are equal", la, lb);
  if (alive(la) && alive(lb) && la != lb) {
    std::pair<int, int> k(la, lb);
    auto i = W->less.find(k);
    if (i == W->less.end()) { W->less[k] = lt; W->less[std::make_pair(lb, la)] = gt; }
    else if (i->second != lt) fail(T(15), "order of two connections changed");
  }
  stats().add("comparisons");
}
static bool g_quiet; // few queries between the operations of this case
static void check_all() {
  World &w = *W;
  if (g_quiet && !w.rng.chance(1, 15)) return;
  for (int i = 0; i < NC; ++i) check_handle(w.c[i], w.mc[i], "connection");
  for (int i = 0; i < NS; ++i) if (w.have[i]) check_handle(w.s(i), w.ms[i], "scoped_connection");
  for (size_t i = 0; i < w.vec.size(); ++i) check_handle(w.vec[i], w.mvec[i], "element of a vector of connections");
  for (size_t i = 0; i < w.svec.size(); ++i) check_handle(w.svec[i], w.msvec[i], "element of a vector of scoped_connections");
  for (int i = 0; i < NB; ++i) if (w.b[i]) {
    if (w.b[i]->blocking() != w.mbb[i] && alive(w.mb[i])) fail(T(5), "blocking() is %d, expected %d", w.b[i]->blocking(), w.mbb[i]);
    bs::connection c = w.b[i]->connection();
    if (alive(w.mb[i])) { if (!c.connected()) fail(T(5, 15), "connection() of a block is not its connection"); }
    else if (c.connected()) fail(T(5, 15), "connection() of a block is another connection");
  }
  for (int s = 0; s < 2; ++s) if (w.sigs[s]) {
    size_t n = 0;
    for (int l : w.order[s]) n += alive(l);
    if (w.sigs[s]->num_slots() != n) fail(T(4, 15), "num_slots() is %zu, expected %zu", w.sigs[s]->num_slots(), n);
    if (w.sigs[s]->empty() != (n == 0)) fail(T(4, 15), "empty() is wrong");
  }
  if (w.depth == 0) {
    long n = 0;
    for (Link &l : w.links) n += l.connected;
    if (w.live != n) fail(T(7, 15), "%ld function objects live, %ld slots connected", w.live, n);
  }
  // pairs of handles
  for (int k = 0; k < 3; ++k) {
    int i = w.rng.below(NC), j = w.rng.below(NC);
    compare(w.c[i], w.mc[i], w.c[j], w.mc[j]);
    int s = w.rng.below(NS);
    if (w.have[s]) { compare(w.s(s), w.ms[s], w.c[i], w.mc[i]); compare(w.c[i], w.mc[i], w.s(s), w.ms[s]); }
  }
}
static int connect_raw(bs::connection *out) {
  World &w = *W;
  int s = w.rng.below(2);
  if (!w.sigs[s]) s = 1 - s;
  if (!w.sigs[s]) return -1;
  int l = int(w.links.size());
  Link k = {s, true};
  w.links.push_back(k);
  w.order[s].push_back(l);
  *out = w.sigs[s]->connect(Fn(l));
  return l;
}
static void destroy_scoped(int i) {
  World &w = *W;
  int l = w.ms[i];
  w.have[i] = false;
  w.ms[i] = -1;
  dead(l);
  w.s(i).~scoped_connection();
}
#define OP(name) stats().add("op_" name), tr("%d " name, w.depth)
static int scoped_slot(Rng &r) { World &w = *W; for (int k = 0; k < 4; ++k) { int i = r.below(NS); if (w.have[i]) return i; } return -1; }
static int free_slot(Rng &r) { World &w = *W; int i = r.below(NS); if (w.have[i]) destroy_scoped(i); return i; }
// assignment over the link that is owned already: whether it survives is not specified; the model follows
static void resync(int l, const bs::connection &probe) { if (l >= 0 && W->links[l].connected && !probe.connected()) W->links[l].connected = false; }
static void op() {
  World &w = *W;
  Rng &r = w.rng;
  int i = r.below(NC), j = r.below(NC);
  switch (r.below(38)) {
    case 0: case 1: case 2: { OP("connect"); bs::connection c; int l = connect_raw(&c); w.c[i] = c; w.mc[i] = l; break; }
    case 3: { OP("connect_scoped"); int s = free_slot(r); bs::connection c; int l = connect_raw(&c); new (w.buf[s]) bs::scoped_connection(take(c)); w.have[s] = true; w.ms[s] = l; if (c.connected()) fail(T(15), "moved-from connection reports connected"); break; }
    case 4: { OP("scoped_from_connection"); int s = free_slot(r); new (w.buf[s]) bs::scoped_connection(w.c[i]); w.have[s] = true; w.ms[s] = w.mc[i]; break; }
    case 5: { OP("scoped_from_moved_connection"); int s = free_slot(r); new (w.buf[s]) bs::scoped_connection(take(w.c[i])); w.have[s] = true; w.ms[s] = w.mc[i]; w.mc[i] = -1; break; }
    case 6: { OP("scoped_from_scoped"); int s = scoped_slot(r); if (s < 0) break; int t = free_slot(r); if (t == s || !w.have[s]) break; new (w.buf[t]) bs::scoped_connection(take(w.s(s))); w.have[t] = true; w.ms[t] = w.ms[s]; w.ms[s] = -1; break; }
    case 7: { OP("scoped_default"); int s = free_slot(r); new (w.buf[s]) bs::scoped_connection(); w.have[s] = true; w.ms[s] = -1; break; }
    case 8: case 9: { OP("copy_assign"); w.c[i] = w.c[j]; w.mc[i] = w.mc[j]; break; }
    case 10: { OP("move_assign"); w.c[i] = take(w.c[j]); if (i != j) { w.mc[i] = w.mc[j]; w.mc[j] = -1; } break; }
    case 11: { OP("copy_construct"); bs::connection k(w.c[j]); check_handle(k, w.mc[j], "copy"); compare(k, w.mc[j], w.c[j], w.mc[j]); break; }
    case 12: { OP("move_construct"); bs::connection k(take(w.c[j])); check_handle(w.c[j], -1, "moved-from connection"); w.c[i] = k; int l = w.mc[j]; w.mc[j] = -1; w.mc[i] = l; break; }
    case 13: { OP("swap"); if (r.chance(1, 2)) w.c[i].swap(w.c[j]); else { using std::swap; swap(w.c[i], w.c[j]); } std::swap(w.mc[i], w.mc[j]); break; }
    case 14: { OP("std_swap"); std::swap(w.c[i], w.c[j]); std::swap(w.mc[i], w.mc[j]); break; }
    case 15: { OP("null"); w.c[i] = bs::connection(); w.mc[i] = -1; break; }
    case 16: case 17: { OP("disconnect"); int l = w.mc[i]; dead(l); w.c[i].disconnect(); break; }
    case 18: { OP("const_disconnect"); const bs::connection &k = w.c[i]; dead(w.mc[i]); k.disconnect(); k.disconnect(); break; }
    case 19: { OP("scoped_disconnect"); int s = scoped_slot(r); if (s < 0) break; dead(w.ms[s]); w.s(s).disconnect(); break; }
    case 20: case 21: { OP("scoped_destroy"); int s = scoped_slot(r); if (s < 0) break; destroy_scoped(s); break; }
    case 22: { OP("release"); int s = scoped_slot(r); if (s < 0) break; w.c[i] = w.s(s).release(); w.mc[i] = w.ms[s]; w.ms[s] = -1; break; }
    case 23: { OP("release_dropped"); int s = scoped_slot(r); if (s < 0) break; w.s(s).release(); w.ms[s] = -1; break; }
    case 24: { OP("scoped_copy_assign"); int s = scoped_slot(r); if (s < 0) break; int old = w.ms[s], nw = w.mc[i]; if (old != nw) dead(old); w.s(s) = w.c[i]; w.ms[s] = nw; if (old == nw) resync(nw, w.c[i]); break; }
    case 25: { OP("scoped_move_assign_connection"); int s = scoped_slot(r); if (s < 0) break; int old = w.ms[s], nw = w.mc[i]; if (old != nw) dead(old); w.s(s) = take(w.c[i]); w.ms[s] = nw; w.mc[i] = -1; if (old == nw) resync(nw, w.s(s)); break; }
    case 26: {
      OP("scoped_move_assign_scoped");
      int s = scoped_slot(r), t = scoped_slot(r);
      if (s < 0 || t < 0) break;
      int old = w.ms[s], nw = w.ms[t];
      if (s != t && old != nw) dead(old);
      w.s(s) = take(w.s(t));
      if (s != t) { w.ms[s] = nw; w.ms[t] = -1; if (old == nw) resync(nw, w.s(s)); }
      else stats().add("self_move_scoped");
      break;
    }
    case 27: {
      OP("scoped_self_assign_through_base");
      int s = scoped_slot(r);
      if (s < 0) break;
      if (r.chance(1, 2)) w.s(s) = static_cast<const bs::connection &>(w.s(s));
      else if (HAVE_MOVE) w.s(s) = take(static_cast<bs::connection &>(w.s(s)));
      break;
    }
    case 28: { OP("connection_from_moved_scoped"); int s = scoped_slot(r); if (s < 0) break; if (r.chance(1, 2)) w.c[i] = take(w.s(s)); else { bs::connection k(take(w.s(s))); w.c[i] = k; } w.mc[i] = w.ms[s]; w.ms[s] = -1; break; }
    case 29: { OP("connection_from_scoped"); int s = scoped_slot(r); if (s < 0) break; w.c[i] = w.s(s); w.mc[i] = w.ms[s]; break; }
    case 30: { OP("swap_scoped"); int s = scoped_slot(r), t = scoped_slot(r); if (s < 0 || t < 0) break; switch (r.below(3)) { case 0: w.s(s).swap(w.s(t)); break; case 1: { using std::swap; swap(w.s(s), w.s(t)); break; } default:
#if HAVE_MOVE
      if (s != t) std::swap(w.s(s), w.s(t));
#else
      w.s(s).swap(w.s(t));
#endif
    } std::swap(w.ms[s], w.ms[t]); break; }
    case 31: { OP("swap_mixed"); int s = scoped_slot(r); if (s < 0) break; if (r.chance(1, 2)) w.s(s).swap(w.c[i]); else w.c[i].swap(w.s(s)); std::swap(w.ms[s], w.mc[i]); break; }
    case 32: {
      OP("vector");
      if (w.vec.size() > 12) { w.vec.erase(w.vec.begin() + 3, w.vec.begin() + 8); w.mvec.erase(w.mvec.begin() + 3, w.mvec.begin() + 8); }
      size_t at = r.below(w.vec.size() + 1);
      w.vec.insert(w.vec.begin() + at, w.c[i]);
      w.mvec.insert(w.mvec.begin() + at, w.mc[i]);
      if (r.chance(1, 3)) {
        // sorting by the library's order groups equal connections together
        vector<bs::connection> k(w.vec);
        std::sort(k.begin(), k.end());
        for (size_t a = 1; a < k.size(); ++a) if (k[a] < k[a - 1]) fail(T(15), "sorted connections are not in order");
        std::set<bs::connection> set(w.vec.begin(), w.vec.end());
        for (size_t a = 0; a < w.vec.size(); ++a) if (!set.count(w.vec[a])) fail(T(15), "connection not found in a set that contains it");
        std::set<int> distinct;
        bool nulls = false;
        for (int l : w.mvec) { if (alive(l)) distinct.insert(l); else nulls = true; }
        size_t conn = 0;
        for (const bs::connection &k2 : set) conn += k2.connected();
        if (conn != distinct.size()) fail(T(15), "set of connections holds %zu connected ones, expected %zu", conn, distinct.size());
        (void)nulls;
        stats().add("sorted_containers");
      }
      break;
    }
    case 33: {
#if HAVE_MOVE
      OP("scoped_vector");
      if (w.depth) break;
      if (w.svec.size() < 12 && r.chance(2, 3)) { bs::connection c; int l = connect_raw(&c); w.svec.push_back(take(c)); w.msvec.push_back(l); }
      else if (!w.svec.empty()) { size_t at = r.below(w.svec.size()); dead(w.msvec[at]); w.msvec.erase(w.msvec.begin() + at); w.svec.erase(w.svec.begin() + at); }
#endif
      break;
    }
    case 34: { OP("block"); int b = r.below(NB); bool now = r.chance(3, 4); w.b[b].reset(); w.b[b].reset(new bs::shared_connection_block(w.c[i], now)); w.mb[b] = w.mc[i]; w.mbb[b] = now && alive(w.mc[i]); break; }
    case 35: {
      int b = r.below(NB);
      if (!w.b[b]) break;
      OP("unblock");
      if (r.chance(1, 2)) { w.b[b]->unblock(); w.mbb[b] = false; }
      else { w.b[b].reset(); w.mbb[b] = false; w.mb[b] = -1; }
      break;
    }
    case 36: {
      int s = r.below(2);
      if (w.depth || !r.chance(1, 3)) break;
      OP("signal");
      if (w.sigs[s]) { for (int l : w.order[s]) dead(l); w.order[s].clear(); w.sigs[s].reset(); }
      else w.sigs[s].reset(new Sig);
      break;
    }
    case 37: {
      int s = r.below(2);
      if (w.depth || !w.sigs[s]) break;
      OP("move_signal");
#if HAVE_MOVE
      std::unique_ptr<Sig> n(new Sig(std::move(*w.sigs[s])));
#else
      std::unique_ptr<Sig> n(new Sig);
      n->swap(*w.sigs[s]);
#endif
      w.sigs[s].swap(n);
      break;
    }
  }
}
static void random_ops(int n) {
  World &w = *W;
  ++w.depth;
  for (int i = 0; i < n; ++i) op();
  check_all();
  --w.depth;
}
static void emit(int s) {
  World &w = *W;
  if (!w.sigs[s]) return;
  vector<int> before = w.order[s], bl, pre;
  for (int l : before) if (alive(l)) { pre.push_back(l); }
  size_t k = w.calls.size();
  // slots that stay connected and unblocked run once and in order; which others run depends on when they changed
  std::set<int> wasBlocked;
  for (int l : pre) if (blocked(l)) wasBlocked.insert(l);
  tr("emit %d", s);
  long ops = stats().n["ops_in_slots"];
  (*w.sigs[s])();
  vector<int> got;
  bool changed = stats().n["ops_in_slots"] != ops;
  for (size_t i = k; i < w.calls.size(); ++i) got.push_back(w.calls[i]);
  size_t p = 0;
  for (int l : got) {
    while (p < pre.size() && pre[p] != l) { if (!changed && !wasBlocked.count(pre[p])) fail(T(1, 15), "slot %d was skipped", pre[p]); ++p; }
    if (p == pre.size()) fail(T(1, 4, 15), "slot %d called out of order or though not connected", l);
    if (!changed && wasBlocked.count(l)) fail(T(5), "blocked slot called");
    ++p;
  }
  if (!changed) for (; p < pre.size(); ++p) if (!wasBlocked.count(pre[p])) fail(T(1, 15), "slot %d was skipped", pre[p]);
  for (size_t i = 0; i < w.order[s].size();) if (!alive(w.order[s][i])) w.order[s].erase(w.order[s].begin() + i); else ++i;
  stats().add("invocations");
  stats().add("calls", got.size());
}
static void one_case(long long cno, uint64_t seed) {
  std::unique_ptr<World> wp(new World(seed));
  World &w = *wp;
  W = wp.get();
  Hash h;
  g_quiet = w.rng.chance(1, 3);
  int n = 10 + w.rng.below(120);
  for (int i = 0; i < n; ++i) {
    if (w.rng.chance(1, 8)) { emit(w.rng.below(2)); check_all(); }
    else { op(); check_all(); }
  }
  for (const string &t : ctx().trace) for (char c : t) h.add(c);
  for (int c : w.calls) h.add(c);
  g_quiet = false;
  check_all();
  // end: scoped connections disconnect what they own and nothing else
  for (int i = 0; i < NS; ++i) if (w.have[i]) { destroy_scoped(i); check_all(); }
  for (int l : w.msvec) dead(l);
  w.msvec.clear();
  w.svec.clear();
  check_all();
  for (int i = 0; i < NC; ++i) { w.c[i] = bs::connection(); w.mc[i] = -1; }
  w.vec.clear();
  w.mvec.clear();
  check_all(); // handles do not own
  for (int i = 0; i < NB; ++i) { w.b[i].reset(); w.mb[i] = -1; w.mbb[i] = false; }
  w.depth = 2;
  emit(0);
  emit(1);
  for (int s = 0; s < 2; ++s) { for (int l : w.order[s]) dead(l); w.sigs[s].reset(); }
  if (w.live) fail(T(7, 22), "%ld function objects leaked", w.live);
  if (w.links.size() > 2 && stats().distinct.insert(h.h).second) stats().add("distinct_nontrivial");
  if (stats().samples.empty()) { string s = "case " + std::to_string(cno) + ":"; for (size_t i = 0; i < ctx().trace.size() && i < 40; ++i) s += " " + ctx().trace[i].substr(2); stats().samples.push_back(s); }
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("handles", a, one_case);
}
