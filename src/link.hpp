// Every translation unit of the "link" workload: the same operations on shared objects, defined once per unit, so that
// what one unit makes with the library is used by the others (TU is the number of the unit; the unit has already
// included one public header before any other).
#include <boost/signals2.hpp>
#include <boost/signals2/signal_type.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/signals2/trackable.hpp>
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/signals2/last_value.hpp>
#include <boost/signals2/optional_last_value.hpp>
#include <boost/bind/bind.hpp>
#include <boost/make_shared.hpp>
#include <vector>
#include "link_world.hpp"

namespace {
namespace s2 = boost::signals2;
using namespace lk;
struct Fn {
  typedef int result_type;
  int id;
  int operator()(int x) const { called(id, x); return id * 1000 + x; }
};
struct Ext {
  typedef int result_type;
  int id;
  int operator()(const s2::connection &c, int x) const { called(id, x); ext_conn(id, c); return id * 1000 + x; }
};
struct Tr : s2::trackable {
  int id;
  int run(int x) const { called(id, x); return id * 1000 + x; }
};
struct Dec : s2::postconstructible, s2::predestructible {
  int id;
  explicit Dec(int i) : id(i) {}
  void postconstruct() { life(id, 1); }
  void predestruct() { life(id, 2); }
  ~Dec() { life(id, 3); }
  int run(int x) const { called(id, x); return id * 1000 + x; }
};
struct Adl {
  int id;
  explicit Adl(int i) : id(i) {}
  template <class T> friend void adl_postconstruct(const boost::shared_ptr<T> &, Adl *p) { life(p->id, 1); }
  friend void adl_predestruct(Adl *p) { life(p->id, 2); }
  ~Adl() { life(id, 3); }
  int run(int x) const { called(id, x); return id * 1000 + x; }
};

struct Unit : UnitOps {
  s2::connection connect(Sig &s, int id, int kind, bool grouped, int group, bool front) override {
    s2::connect_position at = front ? s2::at_front : s2::at_back;
    if (kind == 1) {
      Ext e = {id};
      return grouped ? s.connect_extended(group, Sig::extended_slot_type(e), at) : s.connect_extended(Sig::extended_slot_type(e), at);
    }
    if (kind == 2) {
      Fn f = {id};
      Sig::slot_type sl(f);
      sl.track(obj(id));
      return grouped ? s.connect(group, sl, at) : s.connect(sl, at);
    }
    if (kind == 3) {
      Tr *t = new Tr;
      t->id = id;
      keep(id, boost::shared_ptr<void>(t, del_tr));
      Sig::slot_type sl(&Tr::run, t, boost::placeholders::_1);
      return grouped ? s.connect(group, sl, at) : s.connect(sl, at);
    }
    if (kind == 4) {
      boost::shared_ptr<Dec> d = s2::deconstruct<Dec>(id);
      keep(id, d);
      Sig::slot_type sl(&Dec::run, d.get(), boost::placeholders::_1);
      sl.track(d);
      return grouped ? s.connect(group, sl, at) : s.connect(sl, at);
    }
    if (kind == 5) {
      boost::shared_ptr<Adl> d = s2::deconstruct<Adl>(id);
      keep(id, d);
      Sig::slot_type sl(&Adl::run, d.get(), boost::placeholders::_1);
      sl.track(d);
      return grouped ? s.connect(group, sl, at) : s.connect(sl, at);
    }
    Fn f = {id};
    return grouped ? s.connect(group, f, at) : s.connect(f, at);
  }
  static void del_tr(Tr *p) { delete p; }
  std::vector<int> emit(Sig &s, int x) override { return s(x); }
  std::size_t num_slots(const Sig &s) override { return s.num_slots(); }
  bool empty(const Sig &s) override { return s.empty(); }
  void disconnect(s2::connection &c) override { c.disconnect(); }
  bool connected(const s2::connection &c) override { return c.connected(); }
  bool blocked(const s2::connection &c) override { return c.blocked(); }
  bool same(const s2::connection &a, const s2::connection &b) override { return a == b && !(a != b) && !(a < b) && !(b < a); }
  void disconnect_group(Sig &s, int g) override { s.disconnect(g); }
  void disconnect_all(Sig &s) override { s.disconnect_all_slots(); }
  s2::shared_connection_block *block(s2::connection &c, bool b) override { return new s2::shared_connection_block(c, b); }
  void set_block(s2::shared_connection_block &b, bool on) override { if (on) b.block(); else b.unblock(); }
  bool blocking(const s2::shared_connection_block &b) override { return b.blocking(); }
  void drop(s2::shared_connection_block *b) override { delete b; }
  s2::scoped_connection *scope(const s2::connection &c) override { return new s2::scoped_connection(c); }
  s2::connection release(s2::scoped_connection &c) override { return c.release(); }
  void drop(s2::scoped_connection *c) override { delete c; }
  Sig *make() override { return new Sig; }
  void drop(Sig *s) override { delete s; }
  void swap(Sig &a, Sig &b) override { using boost::swap; a.swap(b); }
  boost::shared_ptr<void> make_dec(int id, bool adl) override {
    if (adl) { boost::shared_ptr<Adl> p = s2::deconstruct<Adl>(id); return p; }
    boost::shared_ptr<Dec> p = s2::deconstruct_ptr(new Dec(id));
    return p;
  }
  int values() override { // results of other combiners, mutexes, exceptions, named parameters
    int n = 0;
    s2::signal<int(), s2::last_value<int> > l;
    try { l(); } catch (const s2::no_slots_error &e) { ++n; } 
    s2::signal<void()> v;
    v();
    s2::signal_type<int(int), s2::keywords::mutex_type<s2::dummy_mutex> >::type d;
    Fn f = {9};
    d.connect(f);
    boost::optional<int> r = d(1);
    n += r && *r == 9001;
    s2::mutex m;
    n += m.try_lock();
    m.unlock();
    m.lock();
    m.unlock();
    Sig::slot_type sl(f);
    { boost::shared_ptr<int> p(new int(1)); sl.track(p); }
    n += sl.expired();
    try { sl(1); } catch (const s2::expired_slot &) { ++n; }
    return n; // 5, and one call of slot 9
  }
};
} // namespace
namespace lk {
#define LK_CAT2(a, b) a##b
#define LK_CAT(a, b) LK_CAT2(a, b)
UnitOps *LK_CAT(unit, TU)() { static Unit u; return &u; }
}
