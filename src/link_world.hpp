// what the translation units of the "link" workload share
#ifndef LINK_WORLD_HPP
#define LINK_WORLD_HPP
#include <boost/signals2/signal.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <vector>
namespace lk {
namespace s2 = boost::signals2;
struct Collect {
  typedef std::vector<int> result_type;
  template <class It> result_type operator()(It a, It b) const { result_type r; for (; a != b; ++a) r.push_back(*a); return r; }
};
typedef s2::signal<int(int), Collect> Sig;
void called(int id, int x);
void ext_conn(int id, const s2::connection &c);
void life(int id, int what);
boost::shared_ptr<void> obj(int id);
void keep(int id, const boost::shared_ptr<void> &p);
struct UnitOps {
  virtual s2::connection connect(Sig &s, int id, int kind, bool grouped, int group, bool front) = 0;
  virtual std::vector<int> emit(Sig &s, int x) = 0;
  virtual std::size_t num_slots(const Sig &s) = 0;
  virtual bool empty(const Sig &s) = 0;
  virtual void disconnect(s2::connection &c) = 0;
  virtual bool connected(const s2::connection &c) = 0;
  virtual bool blocked(const s2::connection &c) = 0;
  virtual bool same(const s2::connection &a, const s2::connection &b) = 0;
  virtual void disconnect_group(Sig &s, int g) = 0;
  virtual void disconnect_all(Sig &s) = 0;
  virtual s2::shared_connection_block *block(s2::connection &c, bool b) = 0;
  virtual void set_block(s2::shared_connection_block &b, bool on) = 0;
  virtual bool blocking(const s2::shared_connection_block &b) = 0;
  virtual void drop(s2::shared_connection_block *b) = 0;
  virtual s2::scoped_connection *scope(const s2::connection &c) = 0;
  virtual s2::connection release(s2::scoped_connection &c) = 0;
  virtual void drop(s2::scoped_connection *c) = 0;
  virtual Sig *make() = 0;
  virtual void drop(Sig *s) = 0;
  virtual void swap(Sig &a, Sig &b) = 0;
  virtual boost::shared_ptr<void> make_dec(int id, bool adl) = 0;
  virtual int values() = 0;
  virtual ~UnitOps() {}
};
UnitOps *unit1(); UnitOps *unit2(); UnitOps *unit3(); UnitOps *unit4();
}
#endif
