// Cost: the work that operations take, counted deterministically: basic blocks executed (compiled with
// -fsanitize-coverage=trace-pc), group comparisons, copies of slot functions and bytes allocated.  Every case runs one random
// pattern of operations twice, once in a small and once in a large size, and compares the work per unit, where a unit is what
// the documentation says the cost grows with (slots for an invocation, one for a connect, log of the groups for ...).
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <new>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;
#if defined(__clang__)
#define NOCOV __attribute__((no_sanitize("coverage"), noinline))
#else
#define NOCOV __attribute__((no_sanitize_coverage, noinline))
#endif
enum { EDGES, CMPS, COPIES, BYTES, NM };
static const char *mname[] = {"basic blocks", "group comparisons", "copies of slot functions", "bytes allocated"};
static unsigned long long cnt[NM];
static int metering;
extern "C" void NOCOV __sanitizer_cov_trace_pc() { cnt[EDGES] += metering != 0; }
void *operator new(std::size_t n) { if (metering) cnt[BYTES] += n; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }

struct Seg { string name; double units; unsigned long long w[NM]; };
static vector<Seg> *segs;
struct Meter { // everything until its end counts for the segment
  unsigned long long at[NM];
  const char *name;
  double units;
  Meter(const char *n, double u) : name(n), units(u) { for (int i = 0; i < NM; ++i) at[i] = cnt[i]; ++metering; }
  ~Meter() {
    --metering;
    for (Seg &s : *segs) if (s.name == name) { s.units += units; for (int i = 0; i < NM; ++i) s.w[i] += cnt[i] - at[i]; return; }
    Seg s;
    s.name = name;
    s.units = units;
    for (int i = 0; i < NM; ++i) s.w[i] = cnt[i] - at[i];
    segs->push_back(s);
  }
};
static std::function<void(int)> *act_; // what the next called slot does
struct Fn {
  typedef int result_type;
  int id;
  explicit Fn(int i) : id(i) {}
  Fn(const Fn &o) : id(o.id) { if (metering) ++cnt[COPIES]; }
  int operator()(int x) const { if (act_) (*act_)(id); return x; }
  int operator()(const bs::connection &, int x) const { if (act_) (*act_)(id); return x; }
  bool operator==(const Fn &o) const { return id == o.id; }
};
struct Less { bool operator()(int a, int b) const { if (metering) ++cnt[CMPS]; return a < b; } };
struct Sum {
  typedef long long result_type;
  template <class I> long long operator()(I f, I l) const { long long s = 0; for (; f != l; ++f) s += *f; return s; }
};
#if CFG_MUTEX
typedef bs::signal<int(int), Sum, int, Less, boost::function<int(int)>, boost::function<int(const bs::connection &, int)>, bs::dummy_mutex> Sig;
#else
typedef bs::signal<int(int), Sum, int, Less> Sig;
#endif
struct Opt { // how slots are connected
  int section; // 0 back, 1 front, 2 groups at back, 3 groups at front, 4 all of these
  int groups;  // 0: one per slot in ascending order, 1: descending, 2: in random order, else so many
  int tracked; // so many objects per slot
  bool ext;
};
struct One { bs::connection c; boost::shared_ptr<int> o; int group; };
static int group_of(const Opt &o, int i, int n, Rng &r) {
  switch (o.groups) { case 0: return i; case 1: return -i; case 2: return int((unsigned(i) * 2654435761u) >> 4); default: return r.below(o.groups == 3 ? std::max(1, n / 4) : o.groups); }
}
static void connect(Sig &s, One &out, const Opt &o, int id, int n, Rng &r, const char *seg, double units = 1) {
  Fn f(id);
  Sig::slot_type sl(f);
  Sig::extended_slot_type xl(f);
  out.group = 0;
  out.o.reset();
  for (int k = 0; k < o.tracked; ++k) { if (!out.o) out.o = boost::make_shared<int>(1); sl.track(out.o); xl.track(out.o); }
  int sec = o.section == 4 ? r.below(4) : o.section;
  if (sec >= 2) out.group = group_of(o, id, n, r);
  bs::connect_position pos = sec & 1 ? bs::at_front : bs::at_back;
  bs::connection c;
  {
    Meter m(seg, units);
    if (sec >= 2) c = o.ext ? s.connect_extended(out.group, xl, pos) : s.connect(out.group, sl, pos);
    else c = o.ext ? s.connect_extended(xl, pos) : s.connect(sl, pos);
  }
  out.c = c;
}
static void fill(Sig &s, vector<One> &v, const Opt &o, int n, Rng &r, const char *seg) {
  int at = int(v.size());
  v.resize(at + n);
  for (int i = 0; i < n; ++i) connect(s, v[at + i], o, at + i, n, r, seg);
}
static double lg(double x) { double l = 1; while (x > 1) { x /= 2; ++l; } return l; }
enum { NPAT = 18 };
static const char *pname[NPAT] = {"connects", "churn", "invocations", "disconnect(group)", "queries", "removal of everything", "handles", "connects during an invocation", "slots that disconnect themselves",
  "a connect in every invocation", "disconnect(function)", "move and swap", "signals in a chain", "many tracked objects", "many blocks", "few left of many", "mixture", "nested invocations"};
static void pattern(int pat, int n, uint64_t seed) {
  Rng r(seed);
  Opt o;
  o.section = r.below(5);
  o.groups = r.below(5);
  if (o.groups == 4) o.groups = 4 + r.below(40);
  o.tracked = r.chance(1, 3) ? 1 + r.below(3) : 0;
  o.ext = r.chance(1, 5);
  std::unique_ptr<Sig> sp(new Sig);
  Sig &s = *sp;
  vector<One> v;
  const int way = r.below(8);
  switch (pat) {
  case 0: fill(s, v, o, n, r, "connect"); break;
  case 1: {
    fill(s, v, o, n, r, "connect");
    bool emits = r.chance(1, 3);
    const int rounds = 4 * n;
    int at = 0;
    for (int i = 0; i < rounds; ++i) {
      int k = way < 3 ? at++ % n : way < 6 ? n - 1 - i % std::min(n, 7) : r.below(n);
      One &x = v[k];
      switch (way % 3) {
      case 0: if (x.o) { x.o.reset(); break; } // fall through
      case 1: { Meter m("disconnect", 1); x.c.disconnect(); } break;
      default: { bs::scoped_connection c(x.c); Meter m("disconnect", 1); c.disconnect(); }
      }
      connect(s, x, o, n + i, n, r, "connect again");
      if (emits && i % (n / 2) == 0) { Meter m("invocation between", n); s(1); }
    }
    break;
  }
  case 2: {
    fill(s, v, o, n, r, "connect");
    vector<bs::shared_connection_block> b;
    if (way & 1) for (int i = 0; i < n; ++i) if (r.chance(1, 3)) b.push_back(bs::shared_connection_block(v[i].c));
    if (way & 2) for (int i = 0; i < n; ++i) if (r.chance(1, 3)) v[i].c.disconnect();
    if (way & 4) for (int i = 0; i < n; ++i) if (r.chance(1, 3)) v[i].o.reset();
    for (int i = 0; i < 6; ++i) { Meter m("invocation", n); if (i & 1) s(1); else static_cast<const Sig &>(s)(1); }
    break;
  }
  case 3: {
    o.section = 2 + r.below(2);
    fill(s, v, o, n, r, "connect");
    vector<int> g;
    for (One &x : v) g.push_back(x.group);
    std::sort(g.begin(), g.end());
    g.erase(std::unique(g.begin(), g.end()), g.end());
    for (size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[r.below(i)]);
    for (int x : g) { double k = 0; if (g.size() < 64) for (One &y : v) k += y.group == x; else k = double(n) / g.size(); Meter m("disconnect(group)", k + 1); s.disconnect(x); }
    if (s.num_slots()) fail(T(4), "slots left");
    break;
  }
  case 4: {
    fill(s, v, o, n, r, "connect");
    if (way & 1) for (int i = 0; i < n / 2; ++i) v[i].c.disconnect();
    if (way & 2) for (int i = 0; i < n; ++i) v[i].c.disconnect();
    for (int i = 0; i < 8; ++i) { Meter m("num_slots()", n); (void)s.num_slots(); }
    for (int i = 0; i < 8; ++i) { Meter m("empty()", n); (void)s.empty(); }
    break;
  }
  case 5: {
    fill(s, v, o, n, r, "connect");
    if (way & 4) for (int i = 0; i < n / 2; ++i) v[i].c.disconnect();
    if (way & 2) s(1);
    if (way & 1) { Meter m("disconnect_all_slots()", n); s.disconnect_all_slots(); }
    { Meter m("destructor", n); sp.reset(); }
    break;
  }
  case 6: {
    fill(s, v, o, n, r, "connect");
    if (way & 1) s(1);
    for (int i = 0; i < 200; ++i) {
      bs::connection c = v[r.below(n)].c, d = v[r.below(n)].c;
      Meter m("operations on handles", 1);
      (void)c.connected();
      (void)c.blocked();
      { bs::shared_connection_block b(c); (void)b.blocking(); bs::shared_connection_block e(b); e.unblock(); }
      (void)(c == d);
      (void)(c < d);
      if (i % 4 == 0) c.disconnect();
      bs::connection x(c);
      x = d;
      x.swap(c);
    }
    break;
  }
  case 7: {
    fill(s, v, o, n, r, "connect");
    vector<One> more(n);
    bool done = false;
    std::function<void(int)> f = [&](int) {
      if (done) return;
      done = true;
      for (int i = 0; i < n; ++i) { connect(s, more[i], o, n + i, n, r, "-", 1); if (way & 1) more[r.below(i + 1)].c.disconnect(); if (way & 2) v[i].c.disconnect(); }
    };
    act_ = &f;
    { Meter m("invocation with connects", 3 * n); s(1); }
    { Meter m("invocation after it", 3 * n); s(1); }
    act_ = 0;
    break;
  }
  case 8: {
    fill(s, v, o, n, r, "connect");
    vector<bs::connection> cs;
    for (One &x : v) cs.push_back(x.c);
    std::function<void(int)> f = [&](int id) { if (way < 4) cs[id].disconnect(); else if (way < 6) cs[(id + 1) % n].disconnect(); else if (id % 2) cs[id].disconnect(); };
    act_ = &f;
    { Meter m("invocation with disconnects", n); s(1); }
    act_ = 0;
    { Meter m("invocations after it", 3 * n); s(1); s(1); s(1); }
    fill(s, v, o, n, r, "connect after it");
    break;
  }
  case 9: {
    fill(s, v, o, n, r, "connect");
    vector<One> more(20);
    for (int i = 0; i < 20; ++i) {
      bool done = false;
      std::function<void(int)> f = [&](int) { if (done) return; done = true; if (i) more[i - 1].c.disconnect(); connect(s, more[i], o, n + i, n, r, "-", 1); };
      act_ = &f;
      { Meter m("invocation with a connect", n); s(1); }
      act_ = 0;
    }
    break;
  }
  case 10: {
    fill(s, v, o, n, r, "connect");
    for (int i = 0; i < 12; ++i) { Fn f(r.below(n)); Meter m("disconnect(function)", n); s.disconnect(f); }
    break;
  }
  case 11: {
    fill(s, v, o, n, r, "connect");
    Sig a, b;
    vector<One> av;
    fill(a, av, o, n / 2, r, "connect");
    for (int i = 0; i < 40; ++i) { Meter m("move and swap", 1); Sig t(std::move(s)); t.swap(a); a.swap(t); s = std::move(t); using std::swap; swap(s, a); }
    break;
  }
  case 12: {
    n = std::min(n, 400);
    vector<std::unique_ptr<Sig>> c;
    for (int i = 0; i < n; ++i) c.push_back(std::unique_ptr<Sig>(new Sig));
    for (int i = 0; i + 1 < n; ++i) { Meter m("connect a signal", 1); c[i]->connect(*c[i + 1]); }
    c[n - 1]->connect(Fn(0));
    for (int i = 0; i < 4; ++i) { Meter m("invocation of the chain", n); (*c[0])(1); }
    for (int i = 0; i < n; ++i) { int k = way & 1 ? n - 1 - i : i; Meter m("destructor of a signal", 1); c[k].reset(); }
    break;
  }
  case 13: {
    Fn f(0);
    Sig::slot_type sl(f);
    vector<boost::shared_ptr<int>> t;
    for (int i = 0; i < n; ++i) { t.push_back(boost::make_shared<int>(1)); Meter m("track()", 1); sl.track(t.back()); }
    bs::connection c;
    { Meter m("connect with tracked objects", n); c = s.connect(sl); }
    for (int i = 0; i < 5; ++i) { Meter m("invocation with tracked objects", n); s(1); }
    for (int i = 0; i < 5; ++i) { Meter m("connected() with tracked objects", n); (void)c.connected(); }
    for (int i = 0; i < 5; ++i) { Meter m("lock() and expired()", n); (void)sl.expired(); (void)sl.lock(); }
    { Meter m("slot called directly", n); sl(1); }
    break;
  }
  case 14: {
    fill(s, v, o, 8, r, "-");
    vector<bs::shared_connection_block> b;
    b.reserve(n + 1);
    bs::connection c = v[3].c;
    for (int i = 0; i < n; ++i) { Meter m("block", 1); b.push_back(way & 1 && i ? b[r.below(i)] : bs::shared_connection_block(c)); }
    for (int i = 0; i < 5; ++i) { Meter m("invocation", 1); s(1); (void)c.blocked(); }
    for (int i = 0; i < n; ++i) { Meter m("unblock", 1); b[way & 2 ? i : n - 1 - i].unblock(); }
    break;
  }
  case 15: {
    fill(s, v, o, n, r, "connect");
    for (int i = 0; i < n; ++i) if (i != n / 2) { if (way & 4 && v[i].o) v[i].o.reset(); else v[i].c.disconnect(); }
    if (way & 1) { Meter m("invocations with few left of many", 3 * n); for (int i = 0; i < n; ++i) s(1); }
    else { vector<One> w; fill(s, w, o, 2 * n, r, "connect with few left of many"); Meter m("invocations", 6 * n); for (int i = 0; i < 3; ++i) s(1); }
    break;
  }
  case 16: {
    fill(s, v, o, n, r, "connect");
    vector<unsigned> kinds;
    for (int i = 0; i < 8; ++i) kinds.push_back(r.below(9));
    bool touched = false;
    std::function<void(int)> f = [&](int) { if (touched) return; touched = true; int k = r.below(n); v[k].c.disconnect(); connect(s, v[k], o, k, n, r, "-"); };
    for (int i = 0; i < 3 * n; ++i) {
      int k = r.below(n);
      switch (kinds[r.below(8)]) {
      case 0: case 1: case 2: { { Meter m("disconnect", 1); v[k].c.disconnect(); } connect(s, v[k], o, k, n, r, "connect in a mixture"); break; }
      case 3: v[k].o.reset(); connect(s, v[k], o, k, n, r, "connect in a mixture"); break; // may leave the old one connected
      case 4: { Meter m("handles", 1); (void)v[k].c.connected(); bs::shared_connection_block b(v[k].c); break; }
      case 5: if (i % (n / 4 + 1) == 0) { Meter m("invocation", 4.0 * n); s(1); } break;
      case 6: if (i % (n / 4 + 1) == 0) { touched = false; act_ = &f; { Meter m("invocation with a connect", 4.0 * n); s(1); } act_ = 0; } break;
      case 7: if (i % (n / 4 + 1) == 0) { Meter m("num_slots()", 4.0 * n); (void)s.num_slots(); } break;
      default: if (i % (n / 4 + 1) == 0) { Meter m("set_combiner", n); s.set_combiner(Sum()); } break;
      }
    }
    break;
  }
  default: { // depth levels, each over all slots up to the one that goes deeper
    fill(s, v, o, n, r, "connect");
    int depth = 0;
    const int deepest = 6;
    bool went = false;
    std::function<void(int)> f = [&](int id) { if (depth < deepest && !went) { ++depth; if (way & 1) { int k = id; if (k < n) v[k].c.disconnect(); } s(1); --depth; went = true; } };
    act_ = &f;
    { Meter m("nested invocations", double(n) * deepest); s(1); }
    act_ = 0;
    { Meter m("invocation after it", n); s(1); }
  }
  }
}
static void one_case(long long, uint64_t seed) {
  Rng rng(seed);
  int pat = rng.below(NPAT);
  int n1 = 32 + rng.below(64), n2 = n1 * (24 + rng.below(40));
  uint64_t ps = rng.next();
  vector<Seg> a, b;
  tr("%s with %d and %d slots, pattern seed %llx", pname[pat], n1, n2, (unsigned long long)ps);
  segs = &a;
  pattern(pat, n1, ps);
  segs = &b;
  pattern(pat, n2, ps);
  segs = 0;
  Hash h;
  h.add(pat);
  bool some = false;
  for (Seg &x : b) for (Seg &y : a) if (x.name == y.name && x.name != "-") {
    some = true;
    static const double slack[NM] = {60, 4, 0.5, 200};
    for (int m = 0; m < NM; ++m) {
      double small = y.w[m] / y.units, big = x.w[m] / x.units;
      h.add(x.w[m]);
      double allowed = 4 * small + slack[m] + (m == CMPS ? 2 * lg(n2) : m == EDGES ? 10 * lg(n2) : 0);
      if (big > allowed) {
        for (Seg &z : b) if (z.name == x.name) tr("%s: %.0f units", z.name.c_str(), z.units);
        fail(T(24), "%s, %s: %.1f %s per unit with %d, but %.1f with %d", pname[pat], x.name.c_str(), small, mname[m], n1, big, n2);
      }
      static double worst;
      double q = big / allowed;
      if (q > worst) { worst = q; if (getenv("COST_VERBOSE")) printf("%s / %s / %s: %.2f small %.1f big %.1f\n", pname[pat], x.name.c_str(), mname[m], q, small, big); }
    }
    stats().add(("measured: " + x.name).c_str());
    stats().add("basic_blocks", (long long)x.w[EDGES]);
  }
  if (some && stats().distinct.insert(h.h).second) stats().add("distinct_nontrivial", 1);
  stats().add((string("pattern: ") + pname[pat]).c_str());
  if (stats().samples.size() < 2 && ctx().trace.size()) { string t = "case:"; for (auto &y : ctx().trace) t += " | " + y; stats().samples.push_back(t); }
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("cost", a, one_case);
}
