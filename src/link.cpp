// Programs made of several translation units: every operation of a random program is done by a random unit, on objects
// made by other units, and compared with a model.  A unit that does not compile or a program that does not link is a
// violation of C21 too.
#include "common.hpp"
#include "link_world.hpp"
#include <algorithm>
#include <functional>
#ifdef BOOST_ENABLE_ASSERT_HANDLER // the other units call it
extern void (*const lk_assert_1)(char const *, char const *, char const *, long) = &boost::assertion_failed;
extern void (*const lk_assert_2)(char const *, char const *, char const *, char const *, long) = &boost::assertion_failed_msg;
#endif
using namespace vf;
using namespace lk;
using std::vector;
using std::string;

struct Slot { int id, kind; bool grouped; int group; bool front; long long seq; bool on = true; int sig; s2::connection c; s2::shared_connection_block *b = nullptr; bool blocking = false; s2::scoped_connection *sc = nullptr; };
static vector<std::pair<int, int>> calls;
static std::map<int, vector<int>> lives;
static std::map<int, boost::shared_ptr<void>> objs;
static std::map<int, const s2::connection *> conn_of;
static std::map<int, Slot> slots;
static UnitOps *checker;
namespace lk {
void called(int id, int x) { calls.push_back({id, x}); }
void life(int id, int w) { lives[id].push_back(w); }
boost::shared_ptr<void> obj(int id) { boost::shared_ptr<void> p(new int(id)); objs[id] = p; return p; }
void keep(int id, const boost::shared_ptr<void> &p) { objs[id] = p; }
void ext_conn(int id, const s2::connection &c) {
  if (!checker->same(c, slots[id].c)) fail(T(21, 17), "extended slot %d was given another connection", id);
}
}
static bool live(const Slot &s) { return s.on && (s.kind < 2 || objs.count(s.id)); }
static void one_case(long long, uint64_t seed) {
  Rng rng(seed);
  Hash h;
  UnitOps *U[] = {unit1(), unit2(), unit3(), unit4()};
  slots.clear(); objs.clear(); lives.clear(); calls.clear();
  auto u = [&] { return U[rng.below(4)]; };
  vector<Sig *> sig;
  for (unsigned i = 0, n = 1 + rng.below(3); i < n; ++i) sig.push_back(u()->make());
  long long seq = 0;
  int next = 10;
  auto order = [&](int s) {
    vector<Slot *> v;
    for (auto &p : slots) if (p.second.sig == s && live(p.second)) v.push_back(&p.second);
    std::sort(v.begin(), v.end(), [](Slot *a, Slot *b) {
      auto key = [](Slot *x) { return x->grouped ? std::make_pair(1, x->group) : std::make_pair(x->front ? 0 : 2, 0); };
      if (key(a) != key(b)) return key(a) < key(b);
      if (a->front != b->front) return a->front; // within a group: the front ones, the latest first, then the back ones
      return a->front ? a->seq > b->seq : a->seq < b->seq;
    });
    return v;
  };
  unsigned ops = 8 + rng.below(40);
  for (unsigned k = 0; k < ops; ++k) {
    int s = rng.below(sig.size());
    Slot *x = nullptr;
    if (!slots.empty()) { auto i = slots.begin(); std::advance(i, rng.below(slots.size())); x = &i->second; }
    unsigned o = rng.below(100), e = rng.below(4);
    checker = U[rng.below(4)];
    UnitOps *a = U[e];
    h.add(o * 4 + e);
    if (o < 30) {
      Slot n;
      n.id = next++; n.kind = rng.below(6); n.grouped = rng.chance(1, 2); n.group = int(rng.below(3)) - 1; n.front = rng.chance(1, 2); n.seq = ++seq; n.sig = s;
      tr("unit %u connects slot %d of kind %d to signal %d group %d front %d", e + 1, n.id, n.kind, s, n.grouped ? n.group : 99, n.front);
      slots[n.id] = n;
      slots[n.id].c = a->connect(*sig[s], n.id, n.kind, n.grouped, n.group, n.front);
      if (n.kind >= 4 && lives[n.id] != vector<int>{1}) fail(T(21, 19), "post-construction of object %d ran %zu times", n.id, lives[n.id].size());
    } else if (o < 50) {
      int arg = rng.below(1000);
      tr("unit %u emits signal %d", e + 1, s);
      calls.clear();
      vector<std::pair<int, int>> want;
      vector<int> res;
      for (Slot *p : order(s)) if (!p->blocking) { want.push_back({p->id, arg}); res.push_back(p->id * 1000 + arg); }
      vector<int> r = a->emit(*sig[s], arg);
      for (auto &c : calls) h.add(c.first);
      if (calls != want || r != res) fail(T(21), "emission in unit %u called %zu slots, expected %zu in another order or number", e + 1, calls.size(), want.size());
      stats().add("slot_calls", calls.size());
    } else if (o < 58 && x) {
      tr("unit %u disconnects slot %d", e + 1, x->id);
      a->disconnect(x->c); x->on = false;
    } else if (o < 61) {
      int g = int(rng.below(3)) - 1;
      tr("unit %u disconnects group %d of signal %d", e + 1, g, s);
      a->disconnect_group(*sig[s], g);
      for (auto &p : slots) if (p.second.sig == s && p.second.grouped && p.second.group == g) p.second.on = false;
    } else if (o < 62) {
      a->disconnect_all(*sig[s]);
      for (auto &p : slots) if (p.second.sig == s) p.second.on = false;
    } else if (o < 70 && x) {
      if (!x->b) { bool b = rng.chance(2, 3); x->b = a->block(x->c, b); x->blocking = b; }
      else if (rng.chance(1, 3)) { a->drop(x->b); x->b = nullptr; x->blocking = false; }
      else { x->blocking = rng.chance(1, 2); a->set_block(*x->b, x->blocking); if (a->blocking(*x->b) != x->blocking) fail(T(21, 5), "blocking() of the block of slot %d", x->id); }
    } else if (o < 76 && x) {
      if (!x->sc) x->sc = a->scope(x->c);
      else if (rng.chance(1, 2)) { s2::connection c = a->release(*x->sc); if (!checker->same(c, x->c)) fail(T(21, 15), "release() gave another connection"); a->drop(x->sc); x->sc = nullptr; }
      else { a->drop(x->sc); x->sc = nullptr; x->on = false; }
    } else if (o < 84 && x && objs.count(x->id)) {
      tr("the last owner of the object of slot %d goes away", x->id);
      objs.erase(x->id);
      if (x->kind >= 4 && lives[x->id] != vector<int>{1, 2, 3}) fail(T(21, 19), "object %d: its hooks did not run once each", x->id);
    } else if (o < 88 && sig.size() > 1) {
      int t = rng.below(sig.size());
      tr("unit %u swaps signals %d and %d", e + 1, s, t);
      if (s != t) { a->swap(*sig[s], *sig[t]); for (auto &p : slots) if (p.second.sig == s) p.second.sig = t; else if (p.second.sig == t) p.second.sig = s; }
    } else if (o < 91) {
      tr("unit %u replaces signal %d", e + 1, s);
      a->drop(sig[s]); sig[s] = u()->make();
      for (auto &p : slots) if (p.second.sig == s) { p.second.on = false; p.second.sig = -1; }
    } else if (o < 94) {
      calls.clear();
      int n = a->values();
      if (n != 5 || calls.size() != 1) fail(T(21), "unit %u: results of other signals and slots (%d of 5)", e + 1, n);
    } else {
      int id = next++;
      boost::shared_ptr<void> p = a->make_dec(id, rng.chance(1, 2));
      if (lives[id].size() > 0 && lives[id] != vector<int>{1}) fail(T(21, 19), "object %d: post-construction ran %zu times", id, lives[id].size());
      p.reset();
      if (lives[id].empty() || lives[id].back() != 3) fail(T(21, 19), "object %d was not destroyed", id);
    }
    checker = u();
    for (size_t i = 0; i < sig.size(); ++i) {
      size_t want = order(int(i)).size();
      if (checker->num_slots(*sig[i]) != want || checker->empty(*sig[i]) != (want == 0)) fail(T(21), "num_slots() of signal %zu is %zu, expected %zu", i, checker->num_slots(*sig[i]), want);
    }
    for (auto &p : slots) {
      Slot &q = p.second;
      if (checker->connected(q.c) != live(q)) fail(T(21), "connected() of slot %d is %d", q.id, !live(q));
      if (live(q) && checker->blocked(q.c) != q.blocking) fail(T(21), "blocked() of slot %d is %d", q.id, !q.blocking);
    }
    stats().add("operations");
    stats().add(("operations_in_unit" + std::to_string(e + 1)).c_str());
  }
  for (auto &p : slots) { if (p.second.b) u()->drop(p.second.b); if (p.second.sc) u()->drop(p.second.sc); }
  for (Sig *p : sig) u()->drop(p);
  objs.clear();
  if (stats().distinct.insert(h.h).second) stats().add("distinct_nontrivial", 1);
  if (stats().samples.empty() && ctx().trace.size() > 6) { string t = "case:"; for (auto &y : ctx().trace) t += " | " + y; stats().samples.push_back(t); }
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("link", a, one_case);
}
