// Documented uses of the interface, by property.  Only compiled (never run), and only when the workload of a property does not
// compile: if the part of that property does not compile either, what the property promises can no longer be expressed.
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <boost/make_shared.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/signals2/signal_type.hpp>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
namespace bs = boost::signals2;
struct F { int n; int operator()(int) { return n; } int operator()(const bs::connection &, int) { return n; } };
static bool operator==(const F &a, const F &b) { return a.n == b.n; }
struct Sum { typedef int result_type; template <class It> int operator()(It f, It l) const { int n = 0; for (; f != l; ++f) n += *f; return n; } };
typedef bs::signal<int(int)> S;
typedef S::slot_type Slot;
typedef bs::signal<void(int)> V;
struct Tr : bs::trackable { int hit(int x) { return x; } int operator()(int x) { return x; } };
using namespace boost::placeholders;
void probe(S &s, const S &cs, F f, bs::connection c, boost::shared_ptr<int> p, std::shared_ptr<int> q) {
  (void)s; (void)cs; (void)f; (void)c; (void)p; (void)q;
#if PROBE == 1 || PROBE == 3 || PROBE == 12
  s.connect(f); s(1); cs(1);
#elif PROBE == 2
  s.connect(0, f, bs::at_front); s.connect(1, f); s.connect(f, bs::at_front); s.connect_extended(2, f, bs::at_back);
  bs::signal<int(int), Sum, std::string, std::greater<std::string> > g; g.connect("a", f); g(1);
#elif PROBE == 4
  s.connect(f); s.connect(boost::ref(f)); s.connect(3, f); s.disconnect(f); s.disconnect(boost::ref(f)); s.disconnect(3); s.disconnect(short(3)); s.disconnect_all_slots(); c.disconnect();
  bs::scoped_connection sc(c); (void)s.num_slots(); (void)s.empty(); (void)c.connected(); V t, v; v.connect(t); v.disconnect(t); v.disconnect(boost::ref(t));
#elif PROBE == 5
  bs::shared_connection_block b(c), d(c, false); b.block(); b.unblock(); d = b; (void)b.blocking(); (void)b.connection(); (void)c.blocked();
#elif PROBE == 6
  s.connect(Slot(f).track(p).track_foreign(q).track(s)); s.connect(Slot(f).track(Slot(f))); s.connect(Slot(f).track_foreign(std::weak_ptr<int>(q))); s.connect(Slot(f).track(boost::weak_ptr<void>(p)));
#elif PROBE == 7 || PROBE == 8 || PROBE == 9 || PROBE == 10 || PROBE == 11 || PROBE == 13 || PROBE == 22
  s.connect(f); s.connect(1, f); s.connect_extended(f); c.disconnect(); s(1); { bs::scoped_connection sc(s.connect(f)); bs::shared_connection_block b(sc); } s.disconnect(1); s.disconnect_all_slots();
#elif PROBE == 14
  bs::signal<int(int), Sum> a; a.connect(f); int r = a(1); (void)r; a.set_combiner(Sum()); (void)a.combiner(); bs::signal<int(int), bs::last_value<int> > l; l.connect(f); r = l(1); boost::optional<int> o = s(1); s.set_combiner(bs::optional_last_value<int>());
#elif PROBE == 15
  bs::connection d(c), e; e = d; e.swap(d); swap(d, e); (void)(d == e); (void)(d != e); (void)(d < e); bs::scoped_connection sc(c), sd; sd = c; c = sc.release();
#elif PROBE == 16
  S t; t.swap(s); swap(t, s); S u(boost::move(t)); t = boost::move(u); (void)t.null(); V v, w; v.connect(w); v.connect(boost::ref(w)); v.disconnect(w); V::slot_type sl(w); v.connect(sl);
#elif PROBE == 17
  s.connect_extended(f); s.connect_extended(1, f); s.connect_extended(f, bs::at_front); S::extended_slot_type x(f); x.track(p); s.connect_extended(x);
#elif PROBE == 18
  Slot a(f), b(boost::ref(f)), d(&Tr::hit, static_cast<Tr *>(0), _1), e(boost::bind<int>(f, _1)), g(a); a = g; a.track(p); a.track_foreign(q); a.track(s); a.track(b); (void)a(1); (void)a.expired(); (void)a.lock(); (void)a.tracked_objects(); (void)a.slot_function(); s.connect(a); s.connect(boost::ref(f));
#elif PROBE == 19
#elif PROBE == 20
  bs::mutex m; m.lock(); m.try_lock(); m.unlock(); bs::dummy_mutex d; d.lock(); d.try_lock(); d.unlock();
  bs::signal_type<int(int), bs::keywords::mutex_type<std::mutex> >::type a; a.connect(f); a(1);
  bs::signal_type<int(int), bs::keywords::mutex_type<bs::dummy_mutex> >::type b; b.connect(f); b(1);
#elif PROBE == 21
  s.connect(f);
#elif PROBE == 23
  Tr t; s.connect(boost::bind(&Tr::hit, &t, _1)); s.connect(boost::bind(&Tr::hit, boost::ref(t), _1)); s.connect(t); s.connect(boost::ref(t)); s.connect(Slot(&Tr::hit, &t, _1)); Tr u(t); u = t;
#endif
}
#if PROBE == 19
struct D { int x; D(int a) : x(a) {} friend void adl_predestruct(D *) {} template <class T> friend void adl_postconstruct(const boost::shared_ptr<T> &, D *) {} template <class T> friend void adl_postconstruct(const boost::shared_ptr<T> &, D *, int) {} };
struct E : bs::postconstructible, bs::predestructible { void postconstruct() {} void predestruct() {} };
void probe2() { boost::shared_ptr<D> a = bs::deconstruct<D>(1), b = bs::deconstruct<D>(2).postconstruct(3); boost::shared_ptr<E> e = bs::deconstruct_ptr(new E); }
#endif
