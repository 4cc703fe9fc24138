// C21: signals of every arity and of generated parameter, result and configuration kinds: positions, values and
// identity of arguments and results, published types.  CFG_PART selects a part of the signatures.
#include "common.hpp"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <functional>
#include <memory>
#include <mutex>
#include <tuple>
#include <type_traits>
using namespace vf;
namespace bs = boost::signals2;
using std::string;
using std::vector;
#ifndef CFG_PART
#define CFG_PART 0
#endif
#ifndef CFG_PARTS
#define CFG_PARTS 1
#endif

static Rng *R_;
// ---- parameter and result types
struct Val {
  uint64_t v;
  bool moved;
  explicit Val(uint64_t x = 0) : v(x), moved(false) {}
  Val(const Val &o) : v(o.v), moved(o.moved) {}
  Val(Val &&o) : v(o.v), moved(o.moved) { o.moved = true; o.v = 0xDEAD; }
  Val &operator=(const Val &o) { v = o.v; moved = o.moved; return *this; }
};
struct NonCopy { uint64_t v; NonCopy() : v(0) {} NonCopy(const NonCopy &) = delete; void operator=(const NonCopy &) = delete; };
struct Abstract { virtual ~Abstract() {} virtual uint64_t get() const = 0; virtual void set(uint64_t) = 0; };
struct Concrete : Abstract { uint64_t v; Concrete() : v(0) {} uint64_t get() const { return v; } void set(uint64_t x) { v = x; } };
enum En { en_first = 0, en_last = 255 };
struct NoDefault { uint64_t v; explicit NoDefault(uint64_t x) : v(x) {} }; // neither default constructible nor assignable from ints
static int f0(int x) { return x; }
static int f1(int x) { return x + 1; }
struct Mem { int a, b; };

// K<T>: how to make, name and recognise an argument of type T.  S: what the caller holds.
template <class Ty> struct K;
template <class Ty> struct Arith {
  typedef Ty S;
  static void make(S &s, uint64_t v) { s = Ty(v % 101); }
  static Ty pass(S &s) { return s; }
  static uint64_t val(const Ty &t) { return (uint64_t)t; }
  static const void *addr(const Ty &) { return 0; }
  static const void *want(const S &) { return 0; }
  static void change(Ty &t) { t = Ty(7); }   // of a copy: the caller must not see it
  enum { byref = 0 };
};
template <> struct K<int> : Arith<int> {};
template <> struct K<unsigned char> : Arith<unsigned char> {};
template <> struct K<long long> : Arith<long long> {};
template <> struct K<double> : Arith<double> {};
template <> struct K<En> : Arith<En> {};
template <> struct K<bool> : Arith<bool> {
  static void make(bool &s, uint64_t v) { s = v & 1; }
  static void change(bool &t) { t = !t; }
};
template <class Base, class Ty, bool Const> struct Ref : Base {
  static Ty &pass(typename Base::S &s) { return s; }
  static const void *addr(Ty &t) { return (const void *)&t; }
  static const void *want(const typename Base::S &s) { return (const void *)static_cast<const Ty *>(&s); }
  static void change(Ty &) {}
  enum { byref = 1 };
};
template <class Base, class Ty> struct Ref<Base, Ty, false> : Base {
  static Ty &pass(typename Base::S &s) { return s; }
  static const void *addr(Ty &t) { return (const void *)&t; }
  static const void *want(const typename Base::S &s) { return (const void *)static_cast<const Ty *>(&s); }
  static void change(Ty &t) { Base::bump(t); }
  enum { byref = 2 };
};
struct KInt : Arith<int> { static void bump(int &t) { t += 1000; } };
template <> struct K<int &> : Ref<KInt, int, false> {};
template <> struct K<const int &> : Ref<KInt, const int, true> {};
template <> struct K<volatile int &> { // only the address and the value can be looked at
  typedef int S;
  static void make(S &s, uint64_t v) { s = int(v % 101); }
  static volatile int &pass(S &s) { return s; }
  static uint64_t val(volatile int &t) { return (uint64_t)t; }
  static const void *addr(volatile int &t) { return (const void *)&t; }
  static const void *want(const S &s) { return &s; }
  static void change(volatile int &t) { t = t + 1000; }
  enum { byref = 2 };
};
struct KVal {
  typedef Val S;
  static void make(S &s, uint64_t v) { s = Val(v); }
  static Val pass(S &s) { return s; }
  static uint64_t val(const Val &t) { if (t.moved) fail(T(21), "a slot was given a moved-from argument"); return t.v; }
  static const void *addr(const Val &) { return 0; }
  static const void *want(const S &) { return 0; }
  static void change(Val &t) { Val gone(std::move(t)); (void)gone; }
  static void bump(Val &t) { t.v += 1000; }
  enum { byref = 0 };
};
template <> struct K<Val> : KVal {};
template <> struct K<Val &> : Ref<KVal, Val, false> {};
template <> struct K<const Val &> : Ref<KVal, const Val, true> {};
struct KStr {
  typedef string S;
  static void make(S &s, uint64_t v) { s = "a string that does not fit into the object " + std::to_string(v); }
  static string pass(S &s) { return s; }
  static uint64_t val(const string &t) { Hash h; for (char c : t) h.add(c); return h.h; }
  static const void *addr(const string &) { return 0; }
  static const void *want(const S &) { return 0; }
  static void change(string &t) { string gone(std::move(t)); t.clear(); }
  static void bump(string &t) { t += "+"; }
  enum { byref = 0 };
};
template <> struct K<string> : KStr {};
template <> struct K<string &> : Ref<KStr, string, false> {};
template <> struct K<const string &> : Ref<KStr, const string, true> {};
struct KNC {
  typedef NonCopy S;
  static void make(S &s, uint64_t v) { s.v = v; }
  static uint64_t val(const NonCopy &t) { return t.v; }
  static void bump(NonCopy &t) { t.v += 1000; }
};
template <> struct K<NonCopy &> : Ref<KNC, NonCopy, false> {};
template <> struct K<const NonCopy &> : Ref<KNC, const NonCopy, true> {};
struct KAb {
  typedef Concrete S;
  static void make(S &s, uint64_t v) { s.v = v; }
  static uint64_t val(const Abstract &t) { return t.get(); }
  static void bump(Abstract &t) { t.set(t.get() + 1000); }
};
template <> struct K<Abstract &> : Ref<KAb, Abstract, false> {};
template <> struct K<const Abstract &> : Ref<KAb, const Abstract, true> {};
template <class Ptr, class S_> struct KPtr {
  typedef S_ S; // pointers: identity is the value
  static Ptr pass(S_ &s) { return K<Ptr>::of(s); }
  static const void *want(const S_ &) { return 0; }
  static const void *addr(Ptr) { return 0; }
  static uint64_t val(Ptr p) { return (uint64_t)(uintptr_t)p; }
  static void change(Ptr &p) { p = 0; }
  enum { byref = 0 };
};
struct SInt { int a; bool null; };
inline void mk(SInt &s, uint64_t v) { s.a = int(v); s.null = v % 5 == 0; }
template <> struct K<int *> : KPtr<int *, SInt> { static void make(S &s, uint64_t v) { mk(s, v); } static int *of(S &s) { return s.null ? 0 : &s.a; } };
template <> struct K<const int *> : KPtr<const int *, SInt> { static void make(S &s, uint64_t v) { mk(s, v); } static const int *of(S &s) { return s.null ? 0 : &s.a; } };
template <> struct K<void *> : KPtr<void *, SInt> { static void make(S &s, uint64_t v) { mk(s, v); } static void *of(S &s) { return s.null ? 0 : &s.a; } };
template <> struct K<Abstract *> : KPtr<Abstract *, Concrete> { static void make(S &s, uint64_t v) { s.v = v; } static Abstract *of(S &s) { return &s; } };
template <> struct K<int (*)(int)> : KPtr<int (*)(int), int> { static void make(S &s, uint64_t v) { s = v & 1; } static int (*of(S &s))(int) { return s ? f1 : f0; } };
typedef int Mem::*MemPtr;
template <> struct K<MemPtr> {
  typedef int S;
  static void make(S &s, uint64_t v) { s = v & 1; }
  static MemPtr pass(S &s) { return s ? &Mem::a : &Mem::b; }
  static const void *want(const S &) { return 0; }
  static const void *addr(MemPtr) { return 0; }
  static uint64_t val(MemPtr p) { return p == &Mem::a ? 1 : p == &Mem::b ? 2 : 3; }
  static void change(MemPtr &p) { p = 0; }
  enum { byref = 0 };
};
typedef int Arr[3];
template <> struct K<Arr &> {
  struct S { int a[3]; };
  static void make(S &s, uint64_t v) { for (int i = 0; i < 3; ++i) s.a[i] = int(v >> i); }
  static Arr &pass(S &s) { return s.a; }
  static const void *want(const S &s) { return &s.a; }
  static const void *addr(Arr &a) { return &a; }
  static uint64_t val(Arr &a) { return a[0] * 31ull + a[1] * 7ull + a[2]; }
  static void change(Arr &a) { a[1] += 1000; }
  enum { byref = 2 };
};
template <> struct K<boost::shared_ptr<int>> {
  typedef boost::shared_ptr<int> S, Ty;
  static void make(S &s, uint64_t v) { s.reset(new int(int(v))); }
  static Ty pass(S &s) { return s; }
  static const void *want(const S &) { return 0; }
  static const void *addr(const Ty &) { return 0; }
  static uint64_t val(const Ty &p) { return (uint64_t)(uintptr_t)p.get(); }
  static void change(Ty &p) { p.reset(); }
  enum { byref = 0 };
};
template <> struct K<const vector<int> &> {
  typedef vector<int> S;
  static void make(S &s, uint64_t v) { s.assign(v % 7, int(v)); }
  static const vector<int> &pass(S &s) { return s; }
  static const void *want(const S &s) { return &s; }
  static const void *addr(const vector<int> &a) { return &a; }
  static uint64_t val(const vector<int> &a) { return a.size() * 1000 + (a.empty() ? 0 : a[0]); }
  static void change(const vector<int> &) {}
  enum { byref = 1 };
};
template <> struct K<boost::function<int(int)>> {
  typedef int S;
  typedef boost::function<int(int)> Ty;
  static void make(S &s, uint64_t v) { s = int(v % 1000); }
  struct Add { int n; int operator()(int x) const { return x + n; } };
  static Ty pass(S &s) { Add a = {s}; return Ty(a); }
  static const void *want(const S &) { return 0; }
  static const void *addr(const Ty &) { return 0; }
  static uint64_t val(const Ty &f) { return f ? f(0) : 9999; }
  static void change(Ty &f) { f.clear(); }
  enum { byref = 0 };
};
template <> struct K<NoDefault> {
  struct S { uint64_t v; };
  static void make(S &s, uint64_t v) { s.v = v; }
  static NoDefault pass(S &s) { return NoDefault(s.v); }
  static const void *want(const S &) { return 0; }
  static const void *addr(const NoDefault &) { return 0; }
  static uint64_t val(const NoDefault &n) { return n.v; }
  static void change(NoDefault &n) { n.v = 1; }
  enum { byref = 0 };
};

// ---- results: give(v) makes one, id() recognises it
static int rpool[64];
static Val vpool[64];
static const NonCopy *ncpool() { static NonCopy p[64]; return p; }
template <class Ty> struct RK {
  static Ty give(uint64_t v) { return Ty(v % 100); }
  static uint64_t id(const Ty &t) { return uint64_t(t); }
  static uint64_t want(uint64_t v) { return v % 100; }
};
template <> struct RK<bool> { static bool give(uint64_t v) { return v & 1; } static uint64_t id(bool b) { return b; } static uint64_t want(uint64_t v) { return v & 1; } };
template <> struct RK<void> { static void give(uint64_t) {} static uint64_t want(uint64_t) { return 0; } };
template <> struct RK<Val> { static Val give(uint64_t v) { return Val(v); } static uint64_t id(const Val &t) { if (t.moved) fail(T(21, 14), "moved-from result"); return t.v; } static uint64_t want(uint64_t v) { return v; } };
template <> struct RK<string> { static string give(uint64_t v) { return string(40, 'r') + std::to_string(v); } static uint64_t id(const string &s) { return KStr::val(s); } static uint64_t want(uint64_t v) { return KStr::val(give(v)); } };
template <> struct RK<NoDefault> { static NoDefault give(uint64_t v) { return NoDefault(v); } static uint64_t id(const NoDefault &s) { return s.v; } static uint64_t want(uint64_t v) { return v; } };
#define REFRK(TY, POOL) \
  template <> struct RK<TY &> { static TY &give(uint64_t v) { return POOL[v % 64]; } static uint64_t id(TY &t) { return uint64_t(&t - POOL); } static uint64_t want(uint64_t v) { return v % 64; } }; \
  template <> struct RK<TY *> { static TY *give(uint64_t v) { return &POOL[v % 64]; } static uint64_t id(TY *t) { return uint64_t(t - POOL); } static uint64_t want(uint64_t v) { return v % 64; } };
REFRK(int, rpool)
REFRK(const int, rpool)
REFRK(Val, vpool)
REFRK(const Val, vpool)
REFRK(const NonCopy, ncpool())
template <> struct RK<std::unique_ptr<int>> { static std::unique_ptr<int> give(uint64_t v) { return std::unique_ptr<int>(new int(int(v % 1000))); } static uint64_t id(const std::unique_ptr<int> &p) { return p ? *p : 5555; } static uint64_t want(uint64_t v) { return v % 1000; } };
template <> struct RK<boost::shared_ptr<int>> { static boost::shared_ptr<int> give(uint64_t v) { return boost::shared_ptr<int>(new int(int(v % 1000))); } static uint64_t id(const boost::shared_ptr<int> &p) { return p ? *p : 5555; } static uint64_t want(uint64_t v) { return v % 1000; } };

// ---- what slots saw
struct Seen { int slot; bool ext, conn_ok; vector<uint64_t> vals; vector<const void *> addrs; uint64_t gave; };
static vector<Seen> seen;
static uint64_t ticket;
static bool muting = true; // slots change what they are given
template <class R, class... A> struct Body {
  static R run(int slot, const bs::connection *c, const bs::connection *expected, A... a) {
    seen.push_back(Seen());
    Seen &s = seen.back();
    s.slot = slot;
    s.ext = c != 0;
    s.conn_ok = !c || !expected || *c == *expected;
    int dummy[] = {0, (s.vals.push_back(K<A>::val(a)), s.addrs.push_back(K<A>::addr(a)), 0)...};
    (void)dummy;
    if (muting) { int d2[] = {0, (K<A>::change(a), 0)...}; (void)d2; }
    s.gave = ++ticket;
    return RK<R>::give(ticket);
  }
};
template <class Sg> struct Rec;
template <class R, class... A> struct Rec<R(A...)> {
  typedef R result_type;
  int slot;
  explicit Rec(int s) : slot(s) {}
  R operator()(A... a) const { return Body<R, A...>::run(slot, 0, 0, static_cast<A>(a)...); }
  bool operator==(const Rec &o) const { return slot == o.slot; }
};
template <class Sg> struct RecMut; // a slot that can only be called as non-const
template <class R, class... A> struct RecMut<R(A...)> {
  typedef R result_type;
  int slot, n;
  explicit RecMut(int s) : slot(s), n(0) {}
  R operator()(A... a) { ++n; return Body<R, A...>::run(slot, 0, 0, static_cast<A>(a)...); }
};
template <class Sg> struct XRec;
template <class R, class... A> struct XRec<R(A...)> {
  typedef R result_type;
  int slot;
  boost::shared_ptr<bs::connection> expect;
  explicit XRec(int s, const boost::shared_ptr<bs::connection> &e) : slot(s), expect(e) {}
  R operator()(const bs::connection &c, A... a) const { return Body<R, A...>::run(slot, &c, expect.get(), static_cast<A>(a)...); }
};
template <class Sg> struct Obj;
template <class R, class... A> struct Obj<R(A...)> {
  int slot;
  R m(A... a) { return Body<R, A...>::run(slot, 0, 0, static_cast<A>(a)...); }
  R cm(A... a) const { return Body<R, A...>::run(slot, 0, 0, static_cast<A>(a)...); }
};
static int fptr_slot;
template <class Sg> struct Fp;
template <class R, class... A> struct Fp<R(A...)> { static R f(A... a) { return Body<R, A...>::run(fptr_slot, 0, 0, static_cast<A>(a)...); } };

// records the results in order
template <class R> struct Collect {
  typedef vector<uint64_t> result_type;
  template <class It> result_type operator()(It f, It l) const { result_type r; for (; f != l; ++f) r.push_back(RK<R>::id(*f)); return r; }
};
template <> struct Collect<void> {
  typedef vector<uint64_t> result_type;
  template <class It> result_type operator()(It f, It l) const { result_type r; for (; f != l; ++f) { *f; r.push_back(0); } return r; }
};

// ---- configurations
struct BackLess { bool operator()(const string &a, const string &b) const { return b < a; } };
template <class Sg> struct ExtOf;
template <class R, class... A> struct ExtOf<R(A...)> { typedef R type(const bs::connection &, A...); };
template <class Sg> struct ResOf;
template <class R, class... A> struct ResOf<R(A...)> { typedef R type; };
struct CountMutex { int depth; CountMutex() : depth(0) {} void lock() { if (depth++) fail(T(20), "recursive lock"); } bool try_lock() { if (depth) return false; ++depth; return true; } void unlock() { if (--depth) fail(T(20), "unlock without lock"); } };
namespace kw = bs::keywords;
#ifdef BOOST_NO_CXX11_RVALUE_REFERENCES // as with compilers that have no std::function
#define CFG_OLD 1
template <class Sg> struct StdFunction { typedef boost::function<Sg> type; };
#else
#define CFG_OLD 0
template <class Sg> struct StdFunction { typedef std::function<Sg> type; };
#endif
template <class Sg, int Cfg> struct Conf;
template <class Sg> struct Conf<Sg, 0> { typedef bs::signal<Sg> type; typedef bs::optional_last_value<typename ResOf<Sg>::type> comb; typedef int group; typedef std::less<int> gc; typedef boost::function<Sg> sf; typedef boost::function<typename ExtOf<Sg>::type> xf; enum { defcomb = 1 }; };
template <class Sg> struct Conf<Sg, 1> { typedef Collect<typename ResOf<Sg>::type> comb; typedef string group; typedef BackLess gc; typedef typename StdFunction<Sg>::type sf; typedef typename StdFunction<typename ExtOf<Sg>::type>::type xf; typedef bs::signal<Sg, comb, group, gc, sf, xf, bs::dummy_mutex> type; enum { defcomb = 0 }; };
template <class Sg> struct Conf<Sg, 2> { typedef bs::optional_last_value<typename ResOf<Sg>::type> comb; typedef long group; typedef std::greater<long> gc; typedef boost::function<Sg> sf; typedef typename StdFunction<typename ExtOf<Sg>::type>::type xf;
  typedef typename bs::signal_type<kw::mutex_type<CountMutex>, kw::signature_type<Sg>, kw::group_compare_type<gc>, kw::extended_slot_function_type<xf>, kw::group_type<long>>::type type; enum { defcomb = 1 }; };
template <class Sg> struct Conf<Sg, 3> { typedef Collect<typename ResOf<Sg>::type> comb; typedef int group; typedef std::less<int> gc; typedef boost::function<Sg> sf; typedef boost::function<typename ExtOf<Sg>::type> xf;
  typedef typename bs::signal_type<Sg, kw::combiner_type<comb>>::type type; enum { defcomb = 0 }; };
template <class G> struct GK { static G at(int i) { return G(i); } };
template <> struct GK<string> { static string at(int i) { return string(30, 'g') + char('a' + i); } };

// position of group index i in the order of the group comparison (0, 1, 2 ascending or descending)
template <class C> bool rising() { typedef typename C::group G; return typename C::gc()(GK<G>::at(0), GK<G>::at(1)); }

template <class R> struct Final { // what the default combiner returns
  static bool ok(const boost::optional<R> &r, bool any, uint64_t v) { return any ? bool(r) && RK<R>::id(*r) == RK<R>::want(v) : !r; }
};
#define SAMETYPE(...) do { if (!std::is_same<__VA_ARGS__>::value) fail(T(21), "arity %d config %d: types differ: %s", int(N), int(Cfg), #__VA_ARGS__); } while (0)

template <int I, class Sg> struct ArgN;
template <int I, class R, class A0, class... A> struct ArgN<I, R(A0, A...)> : ArgN<I - 1, R(A...)> {};
template <class R, class A0, class... A> struct ArgN<0, R(A0, A...)> { typedef A0 type; };
template <class S, class Sg, int I, int Cfg> struct ArgCheck {
  static void run(int N) {
    SAMETYPE(typename S::template arg<I - 1>::type, typename ArgN<I - 1, Sg>::type);
    SAMETYPE(typename S::slot_type::template arg<I - 1>::type, typename ArgN<I - 1, Sg>::type);
    ArgCheck<S, Sg, I - 1, Cfg>::run(N);
  }
};
template <class S, class Sg, int Cfg> struct ArgCheck<S, Sg, 0, Cfg> { static void run(int) {} };
template <class Sg> struct OneTwo { template <class S> static void run(int, int) {} };
template <class R, class A> struct OneTwo<R(A)> { template <class S> static void run(int N, int Cfg) { SAMETYPE(typename S::argument_type, A); SAMETYPE(typename S::slot_type::argument_type, A); } };
template <class R, class A, class B> struct OneTwo<R(A, B)> { template <class S> static void run(int N, int Cfg) {
  SAMETYPE(typename S::first_argument_type, A); SAMETYPE(typename S::second_argument_type, B);
  SAMETYPE(typename S::slot_type::first_argument_type, A); SAMETYPE(typename S::slot_type::second_argument_type, B); } };

template <class Tup> struct Store;
template <unsigned... I> struct Ix {};
template <unsigned N, unsigned... I> struct MkIx : MkIx<N - 1, N - 1, I...> {};
template <unsigned... I> struct MkIx<0, I...> { typedef Ix<I...> type; };

template <class Sg, int Cfg> struct Run;
template <int Cfg, class R, class... A> struct Run<R(A...), Cfg> {
  typedef R Sg(A...);
  typedef Conf<Sg, Cfg> C;
  typedef typename C::type Sig;
  typedef typename Sig::slot_type Slot;
  typedef typename C::group G;
  enum { N = sizeof...(A) };
  typedef std::tuple<typename K<A>::S...> Held;
  Held held;
  struct Model { int slot, where, fwd; bool ext; int shape; }; // where: 0 front, 1..3 groups, 4 back; fwd: index of the signal forwarded to or -1
  struct Entry { boost::shared_ptr<Sig> s; vector<Model> m; vector<bs::connection> c; };
  vector<Entry> sig;
  vector<boost::shared_ptr<Obj<Sg>>> objs;
  int next_slot, fp_used, depth_used;
  Hash h;

  static void traits() {
    SAMETYPE(typename Sig::signature_type, Sg);
    SAMETYPE(typename Sig::slot_result_type, R);
    SAMETYPE(typename Sig::combiner_type, typename C::comb);
    SAMETYPE(typename Sig::result_type, typename C::comb::result_type);
    SAMETYPE(typename Sig::group_type, typename C::group);
    SAMETYPE(typename Sig::group_compare_type, typename C::gc);
    SAMETYPE(typename Sig::slot_function_type, typename C::sf);
    SAMETYPE(typename Sig::extended_slot_function_type, typename C::xf);
    SAMETYPE(typename Slot::signature_type, Sg);
    SAMETYPE(typename Slot::result_type, R);
    SAMETYPE(typename Slot::slot_function_type, typename C::sf);
    SAMETYPE(typename Sig::extended_slot_type::slot_function_type, typename C::xf);
    SAMETYPE(typename Sig::extended_slot_type::result_type, R);
    if (int(Sig::arity) != int(N)) fail(T(21), "signal::arity is %d, should be %d", int(Sig::arity), int(N));
    if (int(Slot::arity) != int(N)) fail(T(21), "slot::arity is %d, should be %d", int(Slot::arity), int(N));
    if (int(Sig::extended_slot_type::arity) != int(N) + 1) fail(T(21), "extended_slot_type::arity is %d", int(Sig::extended_slot_type::arity));
    ArgCheck<Sig, Sg, N, Cfg>::run(N);
    OneTwo<Sg>::template run<Sig>(N, Cfg);
  }
  template <unsigned... I> void fill(Ix<I...>) { int d[] = {0, (K<A>::make(std::get<I>(held), R_->next()), 0)...}; (void)d; }
  template <unsigned... I> void now(Ix<I...>, vector<uint64_t> &v, vector<const void *> &a) {
    int d[] = {0, (v.push_back(K<A>::val(K<A>::pass(std::get<I>(held)))), a.push_back(K<A>::want(std::get<I>(held))), 0)...};
    (void)d;
  }
  // expected sequence of calls
  void expect(const Entry &e, vector<Model> &out) {
    for (const Model &m : e.m) if (m.fwd >= 0) expect(sig[m.fwd], out); else out.push_back(m);
  }
  void add(Entry &e, const Model &m, const bs::connection &c, bool front) {
    size_t p = 0;
    auto rank = [](int w) { return w == 0 ? 0 : w == 4 ? 4 : rising<C>() ? w : 4 - w; };
    if (front) while (p < e.m.size() && rank(e.m[p].where) < rank(m.where)) ++p;
    else while (p < e.m.size() && rank(e.m[p].where) <= rank(m.where)) ++p;
    e.m.insert(e.m.begin() + p, m);
    e.c.insert(e.c.begin() + p, c);
  }
  template <class F> bs::connection put(Entry &e, Model &m, const F &f) {
    bool front = R_->chance(1, 2);
    bs::connection c;
    int g = R_->below(5);
    if (g == 1 || g == 2 || g == 3) { m.where = g; c = e.s->connect(GK<G>::at(g - 1), f, front ? bs::at_front : bs::at_back); }
    else { m.where = front ? 0 : 4; c = e.s->connect(f, front ? bs::at_front : bs::at_back); }
    add(e, m, c, front);
    return c;
  }
  bs::connection putx(Entry &e, Model &m, const XRec<Sg> &f) {
    bool front = R_->chance(1, 2);
    bs::connection c;
    int g = R_->below(5);
    if (g == 1 || g == 2 || g == 3) { m.where = g; c = e.s->connect_extended(GK<G>::at(g - 1), f, front ? bs::at_front : bs::at_back); }
    else { m.where = front ? 0 : 4; c = e.s->connect_extended(f, front ? bs::at_front : bs::at_back); }
    *f.expect = c;
    add(e, m, c, front);
    return c;
  }
  template <class RR, bool Ok> struct Fwd { static void put(Run &, Entry &, Model &, int) {} enum { can = 0 }; };
  template <bool Ok> struct Fwd<void, Ok> { static void put(Run &r, Entry &e, Model &m, int to) { m.fwd = to; r.put(e, m, *r.sig[to].s); } enum { can = 1 }; };
  // binding constructors of slots: member functions of an object with a placeholder for every argument
  template <unsigned... I> Slot bound(const boost::shared_ptr<Obj<Sg>> &o, Ix<I...>, bool raw) {
    if (raw) return Slot(&Obj<Sg>::cm, o.get(), boost::arg<int(I) + 1>()...);
    return Slot(&Obj<Sg>::m, o, boost::arg<int(I) + 1>()...);
  }
  template <bool Small, int Dummy = 0> struct BoundPut { static bool put(Run &r, Entry &e, Model &m) {
    boost::shared_ptr<Obj<Sg>> o(new Obj<Sg>); o->slot = m.slot; r.objs.push_back(o);
    r.put(e, m, r.bound(o, typename MkIx<N>::type(), R_->chance(1, 2)));
    return true; } };
  template <int Dummy> struct BoundPut<false, Dummy> { static bool put(Run &, Entry &, Model &) { return false; } };

  void connect(int k) {
    Entry &e = sig[k];
    Model m = {next_slot++, 4, -1, false, int(R_->below(9))};
    switch (m.shape) {
      case 0: put(e, m, Rec<Sg>(m.slot)); break;
      case 1: put(e, m, RecMut<Sg>(m.slot)); break;
      case 2: if (fp_used) { put(e, m, Rec<Sg>(m.slot)); break; } fp_used = 1; fptr_slot = m.slot; put(e, m, &Fp<Sg>::f); break;
      case 3: if (!BoundPut<(N <= 8 && !CFG_OLD)>::put(*this, e, m)) put(e, m, Rec<Sg>(m.slot)); break;
      case 4: { m.ext = true; putx(e, m, XRec<Sg>(m.slot, boost::shared_ptr<bs::connection>(new bs::connection))); break; }
      case 5: { Slot s((Rec<Sg>(m.slot))); Slot t(s); put(e, m, t); break; }
      case 6: { Slot s((Rec<Sg>(m.slot + 1000000))); s = Slot(RecMut<Sg>(m.slot)); put(e, m, s); break; }
      case 7: { std::function<Sg> f((Rec<Sg>(m.slot))); put(e, m, f); break; }
      case 8: if (k == 0 && sig.size() > 1) { Fwd<typename C::comb::result_type, true>::put(*this, e, m, 1); if (m.fwd < 0) put(e, m, Rec<Sg>(m.slot)); } else put(e, m, Rec<Sg>(m.slot)); break;
    }
    tr("connect to %d: slot %d shape %d place %d", k, m.slot, m.shape, m.where);
  }
  void check_calls(const vector<Model> &exp, vector<uint64_t> v, const vector<const void *> &a, const vector<uint64_t> &orig_change, const char *how) {
    if (seen.size() != exp.size()) fail(T(21, 1), "arity %d config %d: %zu slots were called by %s, should be %zu", int(N), Cfg, seen.size(), how, exp.size());
    static const int refkind[] = {K<A>::byref..., 0};
    (void)refkind; (void)orig_change;
    for (size_t i = 0; i < seen.size(); ++i) {
      const Seen &s = seen[i];
      if (s.slot != exp[i].slot) fail(T(21, 2), "arity %d config %d: call %zu by %s went to slot %d, should be %d", int(N), Cfg, i, how, s.slot, exp[i].slot);
      if (s.ext != exp[i].ext || !s.conn_ok) fail(T(21, 17), "arity %d config %d: extended slot %d was given another connection", int(N), Cfg, s.slot);
      for (int k = 0; k < int(N); ++k) {
        if (s.addrs[k] != a[k]) fail(T(21, 1), "arity %d config %d: argument %d of slot %d is another object (%s)", int(N), Cfg, k, s.slot, how);
        if (refkind[k] != 2 && s.vals[k] != v[k]) fail(T(21, 1), "arity %d config %d: argument %d of slot %d (shape %d) has another value (%s)", int(N), Cfg, k, s.slot, exp[i].shape, how);
      }
      h.add(s.slot); for (uint64_t x : s.vals) h.add(x % 1000);
    }
  }
  template <unsigned... I> void call(Ix<I...> ix, int k, int how) {
    seen.clear();
    vector<uint64_t> v, none;
    vector<const void *> a;
    now(ix, v, a);
    vector<Model> exp;
    Entry &e = sig[k];
    static const char *names[] = {"call", "call as const", "slot holding the signal", "function holding a reference", "bound signal"};
    expect(e, exp);
    Call<typename C::comb::result_type, C::defcomb>::run(*this, *e.s, how, ix, exp, names[how]);
    // the value seen by the first slot is the caller's; references see what earlier slots did
    check_calls(exp, v, a, none, names[how]);
    vector<uint64_t> v2;
    vector<const void *> a2;
    now(ix, v2, a2);
    static const int refkind[] = {K<A>::byref..., 0};
    for (int i = 0; i < int(N); ++i) {
      if (refkind[i] != 2 && v2[i] != v[i]) fail(T(21), "arity %d: argument %d of the caller was changed", int(N), i);
      if (refkind[i] == 2) {
        if (!seen.empty() && seen[0].vals[i] != v[i]) fail(T(21, 1), "arity %d config %d: reference argument %d of the first slot has another value", int(N), Cfg, i);
        if (!seen.empty() && muting && v2[i] == v[i]) fail(T(21, 1), "arity %d config %d: a change of reference argument %d does not reach the caller", int(N), Cfg, i);
        for (size_t j = 1; j < seen.size(); ++j) if (muting && seen[j].vals[i] == seen[j - 1].vals[i]) fail(T(21, 1), "arity %d config %d: slot %zu does not see the change of argument %d", int(N), Cfg, j, i);
      }
    }
    stats().add("argument_checks", (long long)seen.size() * N);
    stats().add("slot_calls", (long long)seen.size());
    (void)refkind;
  }
  // result of the call in its different forms
  template <class Res, int Def> struct Call { // collecting combiner
    template <unsigned... I> static void run(Run &r, Sig &s, int how, Ix<I...>, const vector<Model> &exp, const char *name) {
      const Sig &cs = s;
      vector<uint64_t> res;
      uint64_t t0 = ticket;
      switch (how) {
        case 0: res = s(K<A>::pass(std::get<I>(r.held))...); break;
        case 1: res = cs(K<A>::pass(std::get<I>(r.held))...); break;
        default: { std::function<vector<uint64_t>(A...)> f(std::ref(s)); res = f(K<A>::pass(std::get<I>(r.held))...); }
      }
      if (res.size() != exp.size()) fail(T(21, 14), "arity %d config %d: %zu results for %zu slots (%s)", int(N), Cfg, res.size(), exp.size(), name);
      for (size_t i = 0; i < res.size(); ++i) if (res[i] != RK<R>::want(t0 + 1 + i)) fail(T(21, 14), "arity %d config %d: result %zu is another one (%s)", int(N), Cfg, i, name);
    }
  };
  template <class Res, class Dummy> struct CallOpt { // optional result
    template <unsigned... I> static void run(Run &r, Sig &s, int how, Ix<I...>, const vector<Model> &exp, const char *name) {
      const Sig &cs = s;
      bool ok = true;
      uint64_t last = ticket + exp.size();
      switch (how) {
        case 0: ok = Final<R>::ok(s(K<A>::pass(std::get<I>(r.held))...), !exp.empty(), last); break;
        case 1: ok = Final<R>::ok(cs(K<A>::pass(std::get<I>(r.held))...), !exp.empty(), last); break;
        default: { std::function<boost::optional<R>(A...)> f(std::ref(s)); ok = Final<R>::ok(f(K<A>::pass(std::get<I>(r.held))...), !exp.empty(), last); }
      }
      if (!ok) fail(T(21, 14), "arity %d config %d: result is not that of the last slot (%s)", int(N), Cfg, name);
    }
  };
  template <class X> struct Call<boost::optional<X>, 1> : CallOpt<boost::optional<X>, int> {};
  template <int Def> struct Call<void, Def> {
    template <unsigned... I> static void run(Run &r, Sig &s, int how, Ix<I...>, const vector<Model> &, const char *) {
      const Sig &cs = s;
      switch (how) {
        case 0: s(K<A>::pass(std::get<I>(r.held))...); break;
        case 1: cs(K<A>::pass(std::get<I>(r.held))...); break;
        case 2: { Slot sl(s); sl(K<A>::pass(std::get<I>(r.held))...); break; }
        case 3: { boost::function<void(A...)> f(boost::ref(s)); f(K<A>::pass(std::get<I>(r.held))...); break; }
        default: { std::function<void(A...)> f(std::ref(cs)); f(K<A>::pass(std::get<I>(r.held))...); }
      }
    }
  };
  // a slot object called directly
  template <class RR, class Dummy = void> struct Direct {
    template <unsigned... I> static uint64_t run(Slot &s, bool c, Run &r, Ix<I...>) {
      const Slot &cs = s;
      return c ? RK<R>::id(cs(K<A>::pass(std::get<I>(r.held))...)) : RK<R>::id(s(K<A>::pass(std::get<I>(r.held))...));
    }
  };
  template <class Dummy> struct Direct<void, Dummy> {
    template <unsigned... I> static uint64_t run(Slot &s, bool c, Run &r, Ix<I...>) {
      const Slot &cs = s;
      if (c) cs(K<A>::pass(std::get<I>(r.held))...); else s(K<A>::pass(std::get<I>(r.held))...);
      return 0;
    }
  };
  template <unsigned... I> void direct(Ix<I...> ix) {
    seen.clear();
    Model m = {next_slot++, 4, -1, false, 0};
    Slot s((Rec<Sg>(m.slot)));
    if (R_->chance(1, 2)) s = Slot(Rec<Sg>(m.slot));
    vector<uint64_t> v, none;
    vector<const void *> a;
    now(ix, v, a);
    uint64_t id = Direct<R>::run(s, R_->chance(1, 2), *this, ix);
    vector<Model> exp(1, m);
    check_calls(exp, v, a, none, "direct call of a slot");
    if (id != RK<R>::want(ticket)) fail(T(21, 18), "arity %d config %d: a slot called directly returned something else", int(N), Cfg);
    stats().add("direct_calls");
  }

  static void go() {
    traits();
    Run r;
    r.next_slot = 0;
    r.fp_used = r.depth_used = 0;
    typename MkIx<N>::type ix;
    int n = 1 + R_->below(2);
    r.sig.resize(n);
    for (int i = 0; i < n; ++i) r.sig[i].s.reset(new Sig);
    int steps = 6 + R_->below(14);
    muting = R_->chance(3, 4);
    for (int i = 0; i < steps; ++i) {
      unsigned k = R_->below(n);
      switch (R_->below(8)) {
        case 0: case 1: case 2: case 3: r.connect(k); break;
        case 4: { Entry &e = r.sig[k]; if (e.c.empty()) break; size_t p = R_->below(e.c.size()); e.c[p].disconnect(); e.c.erase(e.c.begin() + p); e.m.erase(e.m.begin() + p); break; }
        case 5: r.fill(ix); r.direct(ix); break;
        case 6: { Entry &e = r.sig[k]; int g = R_->below(3); e.s->disconnect(GK<G>::at(g)); for (size_t p = e.m.size(); p--;) if (e.m[p].where == g + 1) { if (e.c[p].connected()) fail(T(21, 4), "disconnect(group) left a slot connected"); e.c.erase(e.c.begin() + p); e.m.erase(e.m.begin() + p); } break; }
        case 7: { // a moved or swapped signal behaves the same
          if (r.sig[0].m.size() && R_->chance(1, 2)) { bool fwd = false; for (auto &m : r.sig[0].m) fwd |= m.fwd >= 0; if (fwd) break; }
          if (k == 1) break; // others may refer to it
          boost::shared_ptr<Sig> o(new Sig);
          if (R_->chance(1, 2)) { using std::swap; swap(*o, *r.sig[k].s); } else {
#ifdef BOOST_NO_CXX11_RVALUE_REFERENCES
            o->swap(*r.sig[k].s);
#else
            *o = std::move(*r.sig[k].s);
#endif
          }
          r.sig[k].s = o;
          break;
        }
      }
      if (r.sig[k].s->num_slots() != r.sig[k].m.size()) fail(T(21, 4), "arity %d config %d: num_slots() is %zu, should be %zu", int(N), Cfg, r.sig[k].s->num_slots(), r.sig[k].m.size());
      if (R_->chance(1, 2)) { r.fill(ix); r.call(ix, k, R_->below(5)); }
    }
    r.fill(ix);
    r.call(ix, 0, R_->below(5));
    stats().distinct.insert(r.h.h);
    stats().add("signatures_run");
  }
};

// ---- generated signatures: arity n, parameter kinds chosen by a walk through the list
template <class... X> struct L {};
template <unsigned I, class Li> struct At;
template <unsigned I, class X, class... Y> struct At<I, L<X, Y...>> : At<I - 1, L<Y...>> {};
template <class X, class... Y> struct At<0, L<X, Y...>> { typedef X type; };
typedef L<int, int &, const Val &, string, Val, const int *, Val &, double, boost::shared_ptr<int>, NonCopy &, const string &, En, int (*)(int), Abstract &, string &,
          unsigned char, const NonCopy &, int *, bool, Arr &, long long, const int &, void *, const vector<int> &, MemPtr, NoDefault, const Abstract &, boost::function<int(int)>, Abstract *, volatile int &> Params;
enum { NP = 30 };
typedef L<void, int, Val, int &, string, const Val &, int *, NoDefault, bool, boost::shared_ptr<int>, const int &, double, Val &, const NonCopy &, const Val *, long long> Results;
enum { NR = 16 };
template <unsigned Nn, unsigned Off, class IxT> struct SigOf_;
template <unsigned Nn, unsigned Off, unsigned... I> struct SigOf_<Nn, Off, Ix<I...>> {
  typedef typename At<(Off * 3 + Nn) % NR, Results>::type type(typename At<(Off * 11 + I * (Off % 2 ? 7 : 1) + Nn) % NP, Params>::type...);
};
template <unsigned Nn, unsigned Off> struct SigOf : SigOf_<Nn, Off, typename MkIx<Nn>::type> {};

typedef void (*Fn)();
static vector<Fn> table() {
  vector<Fn> t;
#define ONE(N, OFF) t.push_back(&Run<SigOf<N, OFF>::type, (N + OFF) % 4>::go);
#if CFG_PART == 0 || CFG_PARTS == 1
  ONE(0, 0) ONE(1, 0) ONE(2, 0) ONE(3, 0) ONE(4, 0) ONE(5, 0) ONE(6, 0) ONE(7, 0) ONE(8, 0) ONE(9, 0)
#endif
#if CFG_PART == 1 || CFG_PARTS == 1
  ONE(0, 1) ONE(1, 1) ONE(2, 1) ONE(3, 1) ONE(4, 1) ONE(5, 1) ONE(6, 1) ONE(7, 1) ONE(8, 1) ONE(9, 1)
#endif
#if CFG_PART == 2 || CFG_PARTS == 1
  ONE(0, 2) ONE(1, 2) ONE(2, 2) ONE(3, 2) ONE(4, 2) ONE(5, 2) ONE(6, 2) ONE(7, 2) ONE(8, 2) ONE(9, 2)
#endif
#if CFG_PART == 3 || CFG_PARTS == 1
  ONE(0, 3) ONE(1, 3) ONE(2, 3) ONE(3, 3) ONE(4, 3) ONE(5, 3) ONE(6, 3) ONE(7, 3) ONE(8, 3) ONE(9, 3)
#endif
#if CFG_PART == 4 || CFG_PARTS == 1
  ONE(1, 4) ONE(2, 4) ONE(1, 5) ONE(2, 5) ONE(1, 6) ONE(2, 6) ONE(3, 6) ONE(1, 7) ONE(1, 8) ONE(2, 9) ONE(0, 7)
#endif
  return t;
}
#if CFG_OLD
static vector<Fn> special() { return vector<Fn>(); }
#else
#include "arity_special.hpp"
#endif
static void one_case(long long c, uint64_t seed) {
  static const vector<Fn> t = table();
  static const vector<Fn> sp = special();
  Rng rng(seed);
  R_ = &rng;
  ticket = 0;
  seen.clear();
  size_t all = t.size() + sp.size();
  size_t k = size_t(c) % all;
  if (k < t.size()) t[k](); else { sp[k - t.size()](); stats().add("special_cases"); }
  stats().add("distinct_nontrivial", 0);
  if (stats().samples.empty() && ctx().trace.size() > 4) { string s = "case " + std::to_string(c) + ":"; for (auto &x : ctx().trace) s += " | " + x; stats().samples.push_back(s); }
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  return run_cases("arity", a, one_case);
}
