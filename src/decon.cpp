// deconstruct / deconstruct_ptr: programs over objects with every combination of hooks, constructor and post-construct
// arities, alignments, owners, and failures at every fault point; a per-object life-cycle monitor decides.
#include "heap.hpp"
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/signals2.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/weak_ptr.hpp>
#include <memory>
#include <type_traits>
namespace bs = boost::signals2;
using namespace vf;
using std::string;
using std::vector;
#if defined(BOOST_NO_CXX11_VARIADIC_TEMPLATES)
enum { VARIADIC = 0 };
#else
enum { VARIADIC = 1 };
#endif

// ---------------------------------------------------------------- monitor
struct Life { // what happened to one object
  const void *addr;
  int ctor, post, pre, dtor, postTries;
  vector<int> ctorArgs, postArgs; // value * 4 + category
  bool needPre;
};
struct Mon {
  Life cur;      // the object under construction
  vector<std::pair<const void *, int> > live;
  vector<Life> all;
  int find(const void *p) { for (size_t i = 0; i < live.size(); ++i) if (live[i].first == p) return live[i].second; return -1; }
};
static Mon *M;
static bool g_isPost, g_isPre; // hooks of the type in use
static int began() {
  Disarm d;
  Life l = Life();
  l.ctor = 1;
  l.needPre = g_isPre;
  M->all.push_back(l);
  return int(M->all.size()) - 1;
}
static void born(int id, const void *p) {
  Disarm d;
  if (M->find(p) >= 0) fail(T(19, 22), "object constructed in the storage of a living one");
  M->all[id].addr = p;
  M->all[id].ctor = 2;
  M->live.push_back(std::make_pair(p, id));
}
static Life &life(int id, const void *p, const char *what) {
  if (M->find(p) != id) fail(T(19, 22), "%s of an object that is not alive at this address", what);
  return M->all[id];
}
struct V { int v; explicit V(int x) : v(x) {} };
template <class X> struct Cat { enum { v = 2 }; };
template <class X> struct Cat<X &> { enum { v = 1 }; };
template <class X> struct Cat<const X &> { enum { v = 0 }; };
template <class X> int code(X &&x) { return x.v * 4 + Cat<X>::v; }
static void rec(vector<int> &) {}
template <class X, class... R> void rec(vector<int> &o, X &&x, R &&...r) { o.push_back(code(std::forward<X>(x))); rec(o, std::forward<R>(r)...); }
struct ThrowCtor {};
static int g_throwCtor;   // 1: the constructor throws in its body
static int g_throwPost;
static int g_throwPre;
static int g_nth;

// a member whose destruction shows that a partly built object is taken apart once
struct Part { static long live; Part() { ++live; } Part(const Part &) { ++live; } ~Part() { --live; } };
long Part::live;

template <int SIZE, int ALIGN> struct alignas(ALIGN) Core {
  char pad[SIZE];
  int id;
  Part part;
  unsigned magic;
  void check(const char *what) const { if (magic != 0x0B7EC7) fail(T(19, 22), "%s of a dead object", what); if ((size_t)(this) % ALIGN) fail(T(19, 22), "object at %p is not aligned to %d", (const void *)this, ALIGN); }
  template <class... A> explicit Core(int, A &&...a) : magic(0) {
    id = began();
    memset(pad, 0x5a, sizeof pad);
    { Disarm d; rec(M->all[id].ctorArgs, std::forward<A>(a)...); }
    fault_point(FK_COPY);
    if (g_throwCtor) throw ThrowCtor();
    magic = 0x0B7EC7;
    check("construction");
  }
  void post() {
    check("post-construction");
    Life &l = life(id, this, "post-construction");
    ++l.postTries;
    if (l.pre || l.dtor) fail(T(19), "post-construction after pre-destruction or destruction");
    if (l.ctor != 2) fail(T(19), "post-construction before construction was complete");
    if (l.post) fail(T(19), "post-construction runs twice");
    fault_point(FK_SLOT);
    if (g_throwPost) { --g_throwPost; throw ThrowCtor(); }
    ++l.post;
  }
  void pre() {
    check("pre-destruction");
    Life &l = life(id, this, "pre-destruction");
    if (l.pre) fail(T(19), "pre-destruction runs twice");
    if (l.dtor) fail(T(19), "pre-destruction after destruction");
    ++l.pre;
    for (size_t i = 0; i < sizeof pad; ++i) if (pad[i] != 0x5a) fail(T(19, 22), "object was overwritten");
  }
  ~Core() {
    Disarm d;
    check("destruction");
    magic = 0xDEAD;
    int f = M->find(this);
    if (f >= 0) {
      Life &l = M->all[id];
      if (++l.dtor > 1) fail(T(19, 22), "object destroyed twice");
      for (size_t i = 0; i < M->live.size(); ++i) if (M->live[i].first == this) { M->live.erase(M->live.begin() + i); break; }
      if (l.needPre != (l.pre == 1)) fail(T(19), "object destroyed %s pre-destruction", l.pre ? "with" : "without");
    }
  }
};
namespace user {
template <int SIZE, int ALIGN> struct Both : Core<SIZE, ALIGN> { // both hooks found by argument-dependent lookup
  enum { HASPOST = 1, HASPRE = 1 };
  template <class... A> explicit Both(A &&...a) : Core<SIZE, ALIGN>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<SIZE, ALIGN> *>(this)); }
  template <class Y, class... A> friend void adl_postconstruct(const boost::shared_ptr<Y> &sp, Both *p, A &&...a) {
    if (sp.get() != p) fail(T(19), "shared_ptr and pointer given to post-construction differ");
    if (sp.use_count() < 1) fail(T(19), "post-construction without an owner");
    { Disarm d; M->all[p->id].postArgs.clear(); rec(M->all[p->id].postArgs, std::forward<A>(a)...); }
    p->post();
  }
  friend void adl_predestruct(Both *p) { p->pre(); }
};
template <int SIZE, int ALIGN> struct OnlyPost : Core<SIZE, ALIGN> {
  enum { HASPOST = 1, HASPRE = 0 };
  template <class... A> explicit OnlyPost(A &&...a) : Core<SIZE, ALIGN>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<SIZE, ALIGN> *>(this)); }
  template <class Y, class... A> friend void adl_postconstruct(const boost::shared_ptr<Y> &sp, OnlyPost *p, A &&...a) {
    if (sp.get() != p) fail(T(19), "shared_ptr and pointer given to post-construction differ");
    { Disarm d; M->all[p->id].postArgs.clear(); rec(M->all[p->id].postArgs, std::forward<A>(a)...); }
    p->post();
  }
};
template <int SIZE, int ALIGN> struct OnlyPre : Core<SIZE, ALIGN> { // a post-constructor that does nothing
  enum { HASPOST = 0, HASPRE = 1 };
  template <class... A> explicit OnlyPre(A &&...a) : Core<SIZE, ALIGN>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<SIZE, ALIGN> *>(this)); }
  friend void adl_postconstruct(const boost::shared_ptr<const void> &, const OnlyPre *) {}
  friend void adl_predestruct(OnlyPre *p) { p->pre(); }
};
template <int SIZE, int ALIGN> struct Neither : Core<SIZE, ALIGN> {
  enum { HASPOST = 0, HASPRE = 0 };
  template <class... A> explicit Neither(A &&...a) : Core<SIZE, ALIGN>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<SIZE, ALIGN> *>(this)); }
  friend void adl_postconstruct(const boost::shared_ptr<const void> &, const Neither *) {}
};
// virtual hooks through the library's base classes
template <int SIZE, int ALIGN> struct VBoth : Core<SIZE, ALIGN>, bs::postconstructible, bs::predestructible {
  enum { HASPOST = 1, HASPRE = 1 };
  template <class... A> explicit VBoth(A &&...a) : Core<SIZE, ALIGN>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<SIZE, ALIGN> *>(this)); }
  void postconstruct() { this->post(); }
  void predestruct() { this->pre(); }
};
template <int SIZE, int ALIGN> struct VPost : bs::postconstructible, Core<SIZE, ALIGN> {
  enum { HASPOST = 1, HASPRE = 0 };
  template <class... A> explicit VPost(A &&...a) : Core<SIZE, ALIGN>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<SIZE, ALIGN> *>(this)); }
  void postconstruct() { this->post(); }
};
template <int SIZE, int ALIGN> struct VPre : bs::predestructible, Core<SIZE, ALIGN> {
  enum { HASPOST = 0, HASPRE = 1 };
  template <class... A> explicit VPre(A &&...a) : Core<SIZE, ALIGN>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<SIZE, ALIGN> *>(this)); }
  void predestruct() { this->pre(); }
};
template <int SIZE, int ALIGN> struct Shared : Core<SIZE, ALIGN>, boost::enable_shared_from_this<Shared<SIZE, ALIGN> > {
  enum { HASPOST = 1, HASPRE = 1 };
  template <class... A> explicit Shared(A &&...a) : Core<SIZE, ALIGN>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<SIZE, ALIGN> *>(this)); }
  template <class Y, class... A> friend void adl_postconstruct(const boost::shared_ptr<Y> &sp, Shared *p, A &&...a) {
    boost::shared_ptr<Shared> me = p->shared_from_this();
    if (me.get() != p || me < sp || sp < me) fail(T(19), "shared_from_this() in post-construction gives another owner");
    { Disarm d; M->all[p->id].postArgs.clear(); rec(M->all[p->id].postArgs, std::forward<A>(a)...); }
    p->post();
  }
  friend void adl_predestruct(Shared *p) { p->pre(); }
};
template <int SIZE, int ALIGN> struct Inherits : Both<SIZE, ALIGN> { // the hooks of its base
  template <class... A> explicit Inherits(A &&...a) : Both<SIZE, ALIGN>(std::forward<A>(a)...) {}
};
template <int SIZE, int ALIGN> struct VInherits : VBoth<SIZE, ALIGN> { // virtual hooks of its base, overridden
  template <class... A> explicit VInherits(A &&...a) : VBoth<SIZE, ALIGN>(std::forward<A>(a)...) {}
  void postconstruct() { VBoth<SIZE, ALIGN>::postconstruct(); }
  void predestruct() { VBoth<SIZE, ALIGN>::predestruct(); }
};
class Private : public Core<24, 8> { // may only be made by deconstruct
  friend class bs::deconstruct_access;
  template <class... A> explicit Private(A &&...a) : Core<24, 8>(0, std::forward<A>(a)...) { born(this->id, static_cast<Core<24, 8> *>(this)); }
public:
  enum { HASPOST = 1, HASPRE = 1 };
  template <class Y, class... A> friend void adl_postconstruct(const boost::shared_ptr<Y> &, Private *p, A &&...a) {
    { Disarm d; M->all[p->id].postArgs.clear(); rec(M->all[p->id].postArgs, std::forward<A>(a)...); }
    p->post();
  }
  friend void adl_predestruct(Private *p) { p->pre(); }
};
} // namespace user

// ---------------------------------------------------------------- calls with n arguments of chosen categories
// categories: 0 const lvalue, 1 lvalue, 2 rvalue; patterns keep the number of instantiations small
struct ArgSet { vector<V> v; vector<int> expect; };
static void mkargs(Rng &r, ArgSet &a, int n, int pattern) {
  a.v.clear();
  a.expect.clear();
  for (int i = 0; i < 9; ++i) a.v.push_back(V(1 + r.below(100000)));
  for (int i = 0; i < n; ++i) a.expect.push_back(a.v[i].v * 4 + (VARIADIC ? (pattern == 3 ? i % 3 : pattern) : 0));
}
template <int PAT, int I> struct Pick;
template <int I> struct Pick<0, I> { static const V &get(ArgSet &a) { return a.v[I]; } };
template <int I> struct Pick<1, I> { static V &get(ArgSet &a) { return a.v[I]; } };
template <int I> struct Pick<2, I> { static V &&get(ArgSet &a) { return static_cast<V &&>(a.v[I]); } };
template <int I> struct Pick<3, I> { static decltype(Pick<I % 3, 0>::get(std::declval<ArgSet &>())) get(ArgSet &a) { return static_cast<decltype(Pick<I % 3, 0>::get(a))>(a.v[I]); } };
#define P1 Pick<PAT, 0>::get(a)
#define P2 P1, Pick<PAT, 1>::get(a)
#define P3 P2, Pick<PAT, 2>::get(a)
#define P4 P3, Pick<PAT, 3>::get(a)
#define P5 P4, Pick<PAT, 4>::get(a)
#define P6 P5, Pick<PAT, 5>::get(a)
#define P7 P6, Pick<PAT, 6>::get(a)
#define P8 P7, Pick<PAT, 7>::get(a)
#define P9 P8, Pick<PAT, 8>::get(a)
template <class T, int PAT> bs::postconstructor_invoker<T> make(int n, ArgSet &a) {
  switch (n) {
    case 0: return bs::deconstruct<T>();
    case 1: return bs::deconstruct<T>(P1);
    case 2: return bs::deconstruct<T>(P2);
    case 3: return bs::deconstruct<T>(P3);
    case 4: return bs::deconstruct<T>(P4);
    case 5: return bs::deconstruct<T>(P5);
    case 6: return bs::deconstruct<T>(P6);
    case 7: return bs::deconstruct<T>(P7);
    case 8: return bs::deconstruct<T>(P8);
    default: return bs::deconstruct<T>(P9);
  }
}
template <int PAT, class I> boost::shared_ptr<typename std::remove_reference<decltype(*std::declval<I>().postconstruct())>::type> post(const I &i, int n, ArgSet &a, std::true_type) {
  switch (n) {
    case 0: return i.postconstruct();
    case 1: return i.postconstruct(P1);
    case 2: return i.postconstruct(P2);
    case 3: return i.postconstruct(P3);
    case 4: return i.postconstruct(P4);
    case 5: return i.postconstruct(P5);
    case 6: return i.postconstruct(P6);
    case 7: return i.postconstruct(P7);
    case 8: return i.postconstruct(P8);
    default: return i.postconstruct(P9);
  }
}
template <int PAT, class I> boost::shared_ptr<typename std::remove_reference<decltype(*std::declval<I>().postconstruct())>::type> post(const I &i, int, ArgSet &, std::false_type) { return i.postconstruct(); }

// ---------------------------------------------------------------- owners
struct Owner { int id; boost::shared_ptr<const void> sp; };
struct World {
  Rng rng;
  Mon mon;
  vector<Owner> owners;
  vector<std::pair<int, boost::weak_ptr<const void> > > weaks;
  explicit World(uint64_t s) : rng(s) {}
};
static World *W;
static int owners_of(int id) { int n = 0; for (Owner &o : W->owners) if (o.id == id) ++n; return n; }
static void check_all() {
  for (size_t i = 0; i < M->all.size(); ++i) {
    Life &l = M->all[i];
    if (l.ctor == 1) { if (l.post || l.pre || l.dtor) fail(T(19), "hooks ran on an object whose constructor failed"); continue; }
    bool owned = owners_of(i) > 0;
    if (owned && l.dtor) fail(T(19, 22), "owned object was destroyed");
    if (!owned && !l.dtor) fail(T(19, 22), "object without owners was not destroyed");
  }
  for (auto &w : W->weaks) if (w.second.expired() != (M->all[w.first].dtor > 0)) fail(T(19), "weak_ptr expiry does not agree with destruction");
}
static void own_ops() { // copy and drop owners at random
  Rng &r = W->rng;
  for (int k = r.below(6); k > 0 && !W->owners.empty(); --k) {
    size_t i = r.below(W->owners.size());
    switch (r.below(4)) {
      case 0: { Owner o = W->owners[i]; W->owners.push_back(o); break; }
      case 1: W->weaks.push_back(std::make_pair(W->owners[i].id, boost::weak_ptr<const void>(W->owners[i].sp))); break;
      default: {
        int id = W->owners[i].id;
        W->owners[i].sp.reset();
        W->owners.erase(W->owners.begin() + i);
        if (!owners_of(id) && !M->all[id].dtor) fail(T(19), "last owner released but the object still lives");
        stats().add("released_owners");
        break;
      }
    }
    check_all();
  }
}
template <class O_, int PAT> void use(World &w) {
  Rng &r = w.rng;
  g_isPost = O_::HASPOST;
  g_isPre = O_::HASPRE;
  int n = r.below(10), np = O_::HASPOST ? r.below(10) : 0;
  if (std::is_base_of<bs::postconstructible, O_>::value) np = 0;
  ArgSet a, pa;
  mkargs(r, a, n, PAT);
  mkargs(r, pa, np, PAT);
  int mode = r.below(10); // 0 constructor throws, 1 post-construction throws, 2 dropped without post-construction, 3 throws then tried again
  bool faulty = r.chance(1, 4);
  long blocks = heap().blocks, parts = Part::live;
  size_t objs = M->all.size();
  for (int k = 1; k < 60; ++k) {
    bool fired = false;
    g_throwCtor = mode == 0;
    g_throwPost = (mode == 1 || mode == 3) && O_::HASPOST ? 1 : 0;
    Owner o;
    o.id = -1;
    try {
      heap().count = 0;
      heap().fired = 0;
      heap().fail_at = faulty ? k : 0;
      heap().armed = FK_ALLOC | FK_COPY | FK_SLOT;
      long al = heap().allocs;
      bs::postconstructor_invoker<O_> inv = make<O_, PAT>(n, a);
      heap().armed = 0;
      o.id = int(M->all.size()) - 1;
      Life &l = M->all[o.id];
      (void)al;
      if (l.ctor != 2) fail(T(19), "deconstruct returned an object that is not constructed");
      if (l.post || l.postTries) fail(T(19), "post-construction before it was asked for");
      if (l.pre || l.dtor) fail(T(19), "object gone before it was handed out");
      if (l.ctorArgs != a.expect) fail(T(19), "constructor got other arguments (%d of %d)", (int)l.ctorArgs.size(), n);
      if (!(mode == 2)) {
        heap().armed = faulty ? FK_ALLOC | FK_COPY | FK_SLOT : 0;
        try {
          if (np == 0 && r.chance(1, 2)) { const boost::shared_ptr<O_> &c = inv; o.sp = c; }
          else o.sp = post<PAT>(inv, np, pa, std::integral_constant<bool, O_::HASPOST && !std::is_base_of<bs::postconstructible, O_>::value>());
        } catch (const ThrowCtor &) {
          heap().armed = 0;
          if (l.pre || l.dtor || l.post) fail(T(19), "failed post-construction had other effects");
          if (mode != 3) throw;
          o.sp = post<PAT>(inv, np, pa, std::integral_constant<bool, O_::HASPOST && !std::is_base_of<bs::postconstructible, O_>::value>());
          stats().add("postconstruct_retried");
        }
        heap().armed = 0;
        if (l.post != (O_::HASPOST ? 1 : 0)) fail(T(19), "post-construction ran %d times", l.post);
        if (O_::HASPOST && !std::is_base_of<bs::postconstructible, O_>::value && l.postArgs != pa.expect) fail(T(19), "post-construction got other arguments (%d of %d)", (int)l.postArgs.size(), np);
        if (o.sp.get() != static_cast<const void *>(inv.postconstruct().get())) fail(T(19), "other object");
        const boost::shared_ptr<O_> &again = inv;
        (void)again;
        if (l.post != (O_::HASPOST ? 1 : 0)) fail(T(19), "post-construction ran again when the invoker was used again");
        stats().add("post_constructed");
      }
    } catch (const ThrowCtor &) { heap().armed = 0; if (mode != 0 && mode != 1) fail(T(19), "unexpected exception"); }
    catch (const Injected &) { heap().armed = 0; fired = true; }
    catch (const std::bad_alloc &) { heap().armed = 0; fired = true; }
    g_throwCtor = g_throwPost = 0;
    if (o.sp) {
      W->owners.push_back(o);
      break; // kept
    }
    // nothing may be left: whatever was built has been taken apart
    o.sp.reset();
    for (size_t i = objs; i < M->all.size(); ++i) {
      Life &l = M->all[i];
      if (l.ctor == 1) { if (l.pre || l.dtor || l.post) fail(T(19), "hooks ran on an object whose constructor failed"); }
      else {
        if (l.dtor != 1) fail(T(19, 22), "abandoned object destroyed %d times", l.dtor);
        if (l.pre != (O_::HASPRE ? 1 : 0)) fail(T(19), "abandoned object pre-destructed %d times", l.pre);
      }
    }
    if (Part::live != parts) fail(T(19, 22), "%ld subobjects leaked", Part::live - parts);
    stats().add(fired ? "injected_failures" : mode == 2 ? "dropped" : "throwing_hooks");
    if (!fired) break;
  }
  (void)blocks;
  if (sizeof(O_) > 0) stats().add("objects");
}
// ---------------------------------------------------------------- deconstruct_ptr
struct CountingDeleter { int *n; bool pre; template <class T> void operator()(T *p) const { if (p) { if (pre) bs::predestructing_deleter<T>()(p); else delete p; } ++*n; } };
template <class O_> void use_ptr(World &w) {
  Rng &r = w.rng;
  bool virt = std::is_base_of<bs::postconstructible, O_>::value, virtPre = std::is_base_of<bs::predestructible, O_>::value;
  g_isPost = virt;
  int mode = r.below(6); // 0 post-construction throws, 1 null, 2-3 custom deleter
  bool custom = mode == 2 || mode == 3, pre = mode == 3;
  g_isPre = virtPre && (!custom || pre);
  if (mode == 1) {
    boost::shared_ptr<O_> z = bs::deconstruct_ptr(static_cast<O_ *>(0));
    if (z) fail(T(19), "deconstruct_ptr(0) is not null");
    int n = 0;
    { CountingDeleter d = {&n, false}; boost::shared_ptr<O_> y = bs::deconstruct_ptr(static_cast<O_ *>(0), d); if (y) fail(T(19), "deconstruct_ptr(0) is not null"); }
    if (n != 1) fail(T(19), "deleter of a null pointer ran %d times", n);
    stats().add("null");
    return;
  }
  ArgSet a;
  mkargs(r, a, 1, 0);
  bool faulty = r.chance(1, 3);
  for (int k = 1; k < 20; ++k) {
    int deleted = 0;
    O_ *p = new O_(a.v[0]);
    int id = int(M->all.size()) - 1;
    Life &l0 = M->all[id];
    if (l0.ctor != 2) fail(T(19), "harness");
    Owner o;
    o.id = id;
    bool threw = false;
    g_throwPost = mode == 0;
    try {
      heap().count = 0;
      heap().fired = 0;
      heap().fail_at = faulty ? k : 0;
      heap().armed = FK_ALLOC | FK_SLOT;
      boost::shared_ptr<O_> sp;
      if (custom) { CountingDeleter d = {&deleted, pre}; sp = bs::deconstruct_ptr(p, d); }
      else if (r.chance(1, 2)) sp = bs::deconstruct_ptr(p);
      else { boost::shared_ptr<const O_> c = bs::deconstruct_ptr(static_cast<const O_ *>(p)); sp = boost::const_pointer_cast<O_>(c); }
      heap().armed = 0;
      if (sp.get() != p) fail(T(19), "deconstruct_ptr owns another object");
      Life &l = M->all[id];
      if (l.post != (virt ? 1 : 0)) fail(T(19), "post-construction ran %d times", l.post);
      if (l.pre || l.dtor) fail(T(19), "object gone before it was handed out");
      o.sp = sp;
    } catch (const ThrowCtor &) { threw = true; if (mode != 0 || !virt) fail(T(19), "unexpected exception"); }
    catch (const Injected &) { threw = true; }
    catch (const std::bad_alloc &) { threw = true; }
    heap().armed = 0;
    g_throwPost = 0;
    Life &l = M->all[id];
    if (threw) {
      if (l.dtor != 1) fail(T(19, 22), "object destroyed %d times after a failure", l.dtor);
      if (virtPre && l.pre != (custom && !pre ? 0 : 1)) fail(T(19), "object pre-destructed %d times after a failure", l.pre);
      if (custom && deleted != 1) fail(T(19), "custom deleter ran %d times", deleted);
      stats().add("ptr_failures");
      if (mode == 0 && !heap().fired) break;
      continue;
    }
    if (custom) { o.sp.reset(); if (deleted != 1 || l.dtor != 1) fail(T(19), "custom deleter ran %d times", deleted); if (virtPre && l.pre != (pre ? 1 : 0)) fail(T(19), "custom deleter is not the one that runs"); stats().add("custom_deleters"); }
    else W->owners.push_back(o);
    break;
  }
  stats().add("ptr_objects");
}
// an object that connects itself to a signal in its post-constructor and is disconnected by its death
struct Listener : boost::enable_shared_from_this<Listener> {
  static int calls;
  bs::signal<void()> *s;
  bs::connection c;
  explicit Listener(bs::signal<void()> *sig) : s(sig) {}
  void run() { ++calls; }
  template <class Y> friend void adl_postconstruct(const boost::shared_ptr<Y> &sp, Listener *l, bs::connection *out) {
    *out = l->s->connect(bs::signal<void()>::slot_type(&Listener::run, l).track(sp));
  }
};
int Listener::calls;
static void listener(World &w) {
  bs::signal<void()> s;
  bs::connection c;
  boost::shared_ptr<Listener> l = bs::deconstruct<Listener>(&s).postconstruct(&c);
  boost::shared_ptr<Listener> m = l;
  int n = Listener::calls;
  s();
  if (Listener::calls != n + 1 || !c.connected()) fail(T(19), "object did not connect itself");
  l.reset();
  s();
  m.reset();
  if (c.connected()) fail(T(6, 19), "connection of a dead object");
  s();
  if (Listener::calls != n + 2) fail(T(6, 19), "slot of a dead object called");
  stats().add("listeners");
  (void)w;
}
// objects that make others in their post-constructor and let go of them in their pre-destructor, some of which fail
struct Tree {
  struct St { int ctor, post, pre, dtor, failed; };
  static vector<St> st;
  static Rng *rng;
  int id;
  vector<boost::shared_ptr<Tree> > kids;
  boost::weak_ptr<Tree> self;
  explicit Tree(int depth) : id(int(st.size())) {
    St x = {1, 0, 0, 0, 0};
    st.push_back(x);
    if (depth > 0 && rng->chance(1, 4)) kids.push_back(bs::deconstruct<Tree>(depth - 1).postconstruct(depth - 1)); // while it is being constructed
    st[id].ctor = 2;
  }
  ~Tree() { St &x = st[id]; if (++x.dtor != 1 || x.ctor != 2) fail(T(19, 22), "tree: destroyed %d times", x.dtor); if (x.pre != 1) fail(T(19), "tree: destroyed without pre-destruction"); }
  friend void adl_postconstruct(const boost::shared_ptr<Tree> &sp, Tree *p, int depth) {
    int id = p->id;
    if (sp.get() != p || st[id].ctor != 2 || st[id].post || st[id].pre) fail(T(19), "tree: post-construction at the wrong time");
    p->self = sp;
    for (int k = depth > 0 ? rng->below(4) : 0; k > 0; --k) {
      try { p->kids.push_back(bs::deconstruct<Tree>(depth - 1).postconstruct(depth - 1)); }
      catch (const ThrowCtor &) { if (rng->chance(1, 2)) { st[id].failed = 1; throw; } }
    }
    if (rng->chance(1, 12)) { st[id].failed = 1; throw ThrowCtor(); }
    ++st[id].post;
  }
  friend void adl_predestruct(Tree *p) {
    St &x = st[p->id];
    if (++x.pre != 1 || x.dtor || x.ctor != 2) fail(T(19), "tree: pre-destruction at the wrong time");
    if (p->self.lock()) fail(T(19), "tree: owned while it is pre-destructed");
    if (rng->chance(1, 2)) p->kids.clear();
    else if (rng->chance(1, 3)) { try { boost::shared_ptr<Tree> t = bs::deconstruct<Tree>(0).postconstruct(0); } catch (const ThrowCtor &) {} }
  }
};
vector<Tree::St> Tree::st;
Rng *Tree::rng;
static void tree(World &w) {
  Tree::st.clear();
  Tree::st.reserve(4000);
  Tree::rng = &w.rng;
  try {
    boost::shared_ptr<Tree> t = bs::deconstruct<Tree>(4).postconstruct(4);
    for (auto &x : Tree::st) if (x.ctor == 2 && !x.dtor && x.post != 1) fail(T(19), "tree: living object without post-construction");
    if (w.rng.chance(1, 2) && !t->kids.empty()) { boost::shared_ptr<Tree> k = t->kids[w.rng.below(t->kids.size())]; t.reset(); }
  } catch (const ThrowCtor &) {}
  for (auto &x : Tree::st) {
    if (x.ctor == 1 ? x.post || x.pre || x.dtor : x.pre != 1 || x.dtor != 1) fail(T(19, 22), "tree: object constructed to %d, post-constructed %d times, pre-destructed %d times, destroyed %d times", x.ctor, x.post, x.pre, x.dtor);
    if (x.post > 1 || (x.post && x.failed)) fail(T(19), "tree: post-construction ran %d times", x.post);
  }
  stats().add("tree_objects", Tree::st.size());
  vector<Tree::St>().swap(Tree::st);
}
template <int S, int A> void any(World &w, unsigned what) {
  using namespace user;
  unsigned pat = VARIADIC ? w.rng.below(4) : 3;
#define U(TYPE) switch (pat) { case 0: use<TYPE, 0>(w); break; case 1: use<TYPE, 1>(w); break; case 2: use<TYPE, 2>(w); break; default: use<TYPE, 3>(w); }
#define U3(TYPE) use<TYPE, 3>(w)
  typedef Both<S, A> TBoth; typedef OnlyPost<S, A> TPost; typedef OnlyPre<S, A> TPre; typedef Neither<S, A> TNone; typedef VBoth<S, A> TV; typedef VPost<S, A> TVPost; typedef VPre<S, A> TVPre; typedef Shared<S, A> TShared;
  switch (what) {
    case 0: U3(TBoth); break;
    case 1: U3(TPost); break;
    case 2: U3(TPre); break;
    case 3: U3(TNone); break;
    case 4: U3(TV); break;
    case 5: U3(TVPost); break;
    case 6: U3(TVPre); break;
    case 7: U3(TShared); break;
    case 8: U3(const TBoth); break;
    case 9: use_ptr<TV>(w); break;
    case 10: use_ptr<TVPost>(w); break;
    case 11: use_ptr<TVPre>(w); break;
    case 12: use_ptr<TNone>(w); break;
    case 13: { typedef Inherits<S, A> TI; U3(TI); break; }
    case 14: { typedef VInherits<S, A> TVI; U3(TVI); break; }
    case 15: { typedef VInherits<S, A> TVI; use_ptr<TVI>(w); break; }
  }
}
static void one_case(long long cno, uint64_t seed) {
  World *wp = new World(seed);
  World &w = *wp;
  W = wp;
  M = &w.mon;
  long parts = Part::live;
  M->all.reserve(2000);
  Hash h;
  int n = 1 + w.rng.below(6);
  for (int i = 0; i < n; ++i) {
    unsigned what = w.rng.below(16);
    unsigned lay = w.rng.below(6);
    h.add(what * 8 + lay);
    unsigned sp = w.rng.below(12);
    if (sp == 0) { use<user::Private, 3>(w); }
    else if (sp == 1) { using namespace user; typedef Both<8, 8> B8; unsigned pat = VARIADIC ? w.rng.below(4) : 3; U(B8); }
    else if (sp == 2) { if (w.rng.chance(1, 2)) listener(w); else tree(w); }
    else switch (lay) {
      case 0: any<1, 4>(w, what); break;
      case 1: any<40, 8>(w, what); break;
      case 2: any<201, 4>(w, what); break;
#ifdef __cpp_aligned_new
      case 3: any<64, 64>(w, what); break;
      case 4: any<3, 32>(w, what); break;
#endif
      default: any<17, 16>(w, what); break;
    }
    check_all();
    own_ops();
  }
  while (!w.owners.empty()) { w.owners.pop_back(); check_all(); }
  for (Life &l : M->all) { h.add(l.post * 27 + l.pre * 9 + l.dtor * 3 + l.ctor); h.add(l.ctorArgs.size() * 16 + l.postArgs.size()); }
  if (!M->live.empty()) fail(T(19, 22), "%d objects leaked", (int)M->live.size());
  if (Part::live != parts) fail(T(19, 22), "subobjects leaked");
  if (n >= 2 && stats().distinct.insert(h.h).second) stats().add("distinct_nontrivial");
  if (stats().samples.empty() && n > 3) {
    string s = "case " + std::to_string(cno) + ":";
    for (Life &l : M->all) s += " [ctor " + std::to_string(l.ctor) + " args " + std::to_string(l.ctorArgs.size()) + " post " + std::to_string(l.post) + " args " + std::to_string(l.postArgs.size()) + " pre " + std::to_string(l.pre) + " dtor " + std::to_string(l.dtor) + "]";
    stats().samples.push_back(s);
  }
  delete wp;
}
static void outer_case(long long cno, uint64_t seed) {
  // the first run warms up the statistics; storage must be balanced
  long b0 = heap().blocks;
  size_t d0 = stats().distinct.size(), k0 = stats().n.size(), s0 = stats().samples.size();
  ctx().trace.clear();
  one_case(cno, seed);
  if (stats().distinct.size() == d0 && stats().n.size() == k0 && stats().samples.size() == s0 && heap().blocks != b0) fail(T(19, 22), "%ld blocks of storage leaked", heap().blocks - b0);
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  // leaks are looked for by repeating every case whose bookkeeping changed
  return run_cases("decon", a, [](long long c, uint64_t s) { outer_case(c, s); outer_case(c, s); });
}
