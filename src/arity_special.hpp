// hand-written signatures and uses for arity.cpp
static uint64_t mixv(uint64_t h, uint64_t v) { return h * 1000003u + v + 17; }
static vector<uint64_t> log_;
// ---- compatible signatures
struct LongTaker { typedef short result_type; short operator()(long a, const string &b) const { log_.push_back(uint64_t(a)); log_.push_back(b.size()); return short(a % 100); } };
static int base_ref(const Abstract &a) { log_.push_back(a.get()); return 3; }
static int base_ptr(const Abstract *a) { log_.push_back(a->get()); return 4; }
struct Returns { typedef string result_type; string operator()(int a) const { log_.push_back(a); return "ignored"; } };
static void sp_convert() {
  bs::signal<int(int, const char *), bs::last_value<int>> s;
  log_.clear();
  s.connect(LongTaker());
  int v = int(R_->below(100000));
  string str(R_->below(30), 'x');
  int r = s(v, str.c_str());
  if (r != v % 100 || log_.size() != 2 || log_[0] != uint64_t(v) || log_[1] != str.size()) fail(T(21), "a slot with convertible parameters was given other values");
  Concrete c;
  c.v = R_->next();
  log_.clear();
  bs::signal<int(Concrete &)> s2;
  s2.connect(&base_ref);
  boost::optional<int> r2 = s2(c);
  bs::signal<long(Concrete *)> s3;
  s3.connect(&base_ptr);
  boost::optional<long> r3 = s3(&c);
  if (log_.size() != 2 || log_[0] != c.v || log_[1] != c.v || !r2 || *r2 != 3 || !r3 || *r3 != 4) fail(T(21), "a slot taking a base class was given another object");
  log_.clear();
  bs::signal<void(int)> s4; // results of the slots are dropped
  s4.connect(Returns());
  bs::signal<void(int)>::slot_type sl = Returns();
  s4.connect(sl);
  s4.connect_extended(boost::bind(Returns(), boost::arg<2>()));
  s4(v);
  sl(v);
  if (log_.size() != 4) fail(T(21), "a slot with a result was not called by a signal without: %zu calls", log_.size());
  for (uint64_t x : log_) if (x != uint64_t(v)) fail(T(21), "argument changed");
}
// ---- results that can only be moved
struct MoveGive { typedef std::unique_ptr<int> result_type; int k; std::unique_ptr<int> operator()(int x) const { return std::unique_ptr<int>(new int(x * 10 + k)); } };
struct MoveSum { typedef long result_type; template <class It> long operator()(It f, It l) const { long t = 0; for (; f != l; ++f) t = t * 1000 + **f; return t; } };
struct XGive { typedef std::unique_ptr<int> result_type; int k; std::unique_ptr<int> operator()(const bs::connection &c, int x) const { if (!c.connected()) return std::unique_ptr<int>(); return std::unique_ptr<int>(new int(x * 10 + k)); } };
static void sp_moveonly() {
  typedef std::unique_ptr<int> U;
  bs::signal<U(int)> s;
  bs::signal<U(int), MoveSum> s3;
  int v = int(R_->below(90)), n = int(R_->below(4));
  if (s(v)) fail(T(21, 14), "result without slots");
  long want = 0;
  for (int i = 0; i < n; ++i) {
    int k = R_->below(10);
    MoveGive g = {k};
    XGive x = {k};
    bool ext = R_->chance(1, 2);
    if (ext) { s.connect_extended(x); s3.connect_extended(x); } else { s.connect(g); s3.connect(g); }
    want = want * 1000 + v * 10 + k;
    boost::optional<U> r = s(v);
    if (!r || !*r || **r != v * 10 + k) fail(T(21, 14), "optional_last_value lost a movable result");
    if (s3(v) != want) fail(T(21, 14), "movable results reach a combiner wrong");
  }
  bs::signal<U(int)>::slot_type sl = MoveGive{3};
  U d = sl(v);
  if (!d || *d != v * 10 + 3) fail(T(21, 18), "slot called directly lost its result");
}
// ---- binding constructors of slots with any number of bound values and placeholders
struct Many {
  typedef uint64_t result_type;
  template <class... A> uint64_t operator()(A... a) const { uint64_t h = sizeof...(A); int d[] = {0, (h = mixv(h, a), 0)...}; (void)d; return h; }
};
static uint64_t free9(int a, int b, int c, int d, int e, int f, int g, int h, int i) { return Many()(a, b, c, d, e, f, g, h, i); }
static uint64_t free1(int a) { return Many()(a); }
static uint64_t free2(int a, int b) { return Many()(a, b); }
struct Holder {
  int base;
  uint64_t m0() { return Many()(base); }
  uint64_t m3(int a, int b, int c) const { return Many()(base, a, b, c); }
  uint64_t m8(int a, int b, int c, int d, int e, int f, int g, int h) { return Many()(base, a, b, c, d, e, f, g, h); }
};
typedef uint64_t S3(int, int, int);
typedef bs::signal<S3, bs::last_value<uint64_t>> Sig3;
static void sp_binding() {
  using namespace boost::placeholders;
  Sig3 s;
  int a = R_->below(100), b = 100 + R_->below(100), c = 200 + R_->below(100), x = 300 + R_->below(100), y = 400 + R_->below(100);
  Many m;
  typedef Sig3::slot_type Sl;
  struct T_ { Sl s; uint64_t want; };
  Holder ho = {int(R_->below(1000))};
  boost::shared_ptr<Holder> sh(new Holder(ho));
  vector<T_> t;
  t.push_back(T_{Sl(m, x), m(x)});
  t.push_back(T_{Sl(m, _3), m(c)});
  t.push_back(T_{Sl(m, _2, _1), m(b, a)});
  t.push_back(T_{Sl(m, x, _1, y), m(x, a, y)});
  t.push_back(T_{Sl(m, _3, x, _3, _1), m(c, x, c, a)});
  t.push_back(T_{Sl(m, 1, 2, 3, 4, 5), m(1, 2, 3, 4, 5)});
  t.push_back(T_{Sl(m, 1, _2, 3, 4, 5, _1), m(1, b, 3, 4, 5, a)});
  t.push_back(T_{Sl(m, 1, _2, 3, x, 5, _1, 7), m(1, b, 3, x, 5, a, 7)});
  t.push_back(T_{Sl(m, _1, 2, 3, 4, y, 6, _3, 8), m(a, 2, 3, 4, y, 6, c, 8)});
  t.push_back(T_{Sl(m, _1, 2, 3, 4, y, 6, _3, 8, _2), m(a, 2, 3, 4, y, 6, c, 8, b)});
  t.push_back(T_{Sl(&free9, 9, 8, _3, 6, 5, 4, x, _2, _1), m(9, 8, c, 6, 5, 4, x, b, a)});
  t.push_back(T_{Sl(&free1, _2), m(b)});
  t.push_back(T_{Sl(&free2, _2, boost::cref(x)), m(b, x)});
  t.push_back(T_{Sl(&Holder::m0, &ho), m(ho.base)});
  t.push_back(T_{Sl(&Holder::m0, sh), m(sh->base)});
  t.push_back(T_{Sl(&Holder::m0, boost::ref(ho)), m(ho.base)});
  t.push_back(T_{Sl(&Holder::m0, ho), m(ho.base)}); // a copy
  t.push_back(T_{Sl(&Holder::m3, &ho, _3, _2, _1), m(ho.base, c, b, a)});
  t.push_back(T_{Sl(&Holder::m8, sh, 1, _3, 3, _2, 5, _1, 7, x), m(sh->base, 1, c, 3, b, 5, a, 7, x)});
  t.push_back(T_{Sl(boost::bind(m, _3, _1)), m(c, a)});
  t.push_back(T_{Sl(std::bind(m, std::placeholders::_2, x)), m(b, x)});
  t.push_back(T_{Sl(m, boost::bind(m, _1, _2), _3), m(m(a, b), c)}); // nested bind
  for (int i = 0; i < 6; ++i) {
    T_ &k = t[R_->below(unsigned(t.size()))];
    if (k.s(a, b, c) != k.want) fail(T(21, 18), "a bound slot (%zu) called directly passes other arguments", size_t(&k - &t[0]));
    s.connect(k.s);
    if (s(a, b, c) != k.want) fail(T(21, 1), "a bound slot (%zu) passes other arguments", size_t(&k - &t[0]));
    if (R_->chance(1, 2)) s.disconnect_all_slots();
  }
}
// extended slots through bind and function pointers
static uint64_t ext3(const bs::connection &c, int a, int b, int d) { return c.connected() ? Many()(a, b, d) : 0; }
static uint64_t ext1(int a, const bs::connection &c) { return c.connected() ? Many()(a) : 0; }
struct XH { uint64_t m(const bs::connection &c, int a, int b, int d) { return c.connected() ? Many()(a, b, d) : 0; } };
static void sp_extbind() {
  using namespace boost::placeholders;
  Sig3 s;
  int a = R_->below(100), b = 100 + R_->below(100), c = 200 + R_->below(100);
  Many m;
  XH xh;
  typedef Sig3::extended_slot_type X;
  s.connect_extended(&ext3);
  if (s(a, b, c) != m(a, b, c)) fail(T(21, 17), "an extended slot passes other arguments");
  s.connect_extended(X(&ext3, _1, _3, _4, _2));
  if (s(a, b, c) != m(b, c, a)) fail(T(21, 17), "a bound extended slot passes other arguments");
  s.connect_extended(boost::bind(&ext1, _3, _1));
  if (s(a, b, c) != m(b)) fail(T(21, 17), "a bound extended slot passes other arguments");
  s.connect_extended(X(&XH::m, &xh, _1, _2, 77, _4));
  if (s(a, b, c) != m(a, 77, c)) fail(T(21, 17), "an extended slot bound to a member passes other arguments");
  X x(&ext3), y(x);
  bs::connection k = s.connect_extended(7, y, bs::at_front);
  if (s.num_slots() != 5) fail(T(21, 4), "num_slots() is wrong");
  bs::connection none;
  if (x(none, a, b, c) != 0 || x(k, a, b, c) != m(a, b, c)) fail(T(21, 18), "an extended slot called directly passes other arguments");
}
// ---- named template parameters: every subset and order means the same class
struct GrpCmp { bool operator()(long a, long b) const { return b < a; } };
template <class A, class B> static void same(const char *what) { if (!std::is_same<A, B>::value) fail(T(21), "signal_type: %s is another type", what); }
struct Comb0 { typedef int result_type; template <class I> int operator()(I f, I l) const { int n = 0; for (; f != l; ++f) n += *f; return n; } };
static void sp_keywords() {
  using namespace bs::keywords;
  typedef int Sg(int);
  typedef bs::optional_last_value<int> OLV;
  typedef boost::function<Sg> BF;
  typedef std::function<Sg> SF;
  typedef boost::function<int(const bs::connection &, int)> XF;
  typedef std::function<int(const bs::connection &, int)> XS;
  typedef bs::signal_type<Sg> T0;
  same<T0::type, bs::signal<Sg>>("signature only");
  same<bs::signal_type<signature_type<Sg>>::type, bs::signal<Sg>>("signature named");
  same<bs::signal_type<Sg, Comb0>::type, bs::signal<Sg, Comb0>>("combiner positional");
  same<bs::signal_type<Sg, Comb0, long, GrpCmp, SF, XS, bs::dummy_mutex>::type, bs::signal<Sg, Comb0, long, GrpCmp, SF, XS, bs::dummy_mutex>>("all positional");
  same<bs::signal_type<Sg, combiner_type<Comb0>>::type, bs::signal<Sg, Comb0>>("combiner");
  same<bs::signal_type<Sg, group_type<long>>::type, bs::signal<Sg, OLV, long>>("group");
  same<bs::signal_type<Sg, group_compare_type<std::greater<int>>>::type, bs::signal<Sg, OLV, int, std::greater<int>>>("group compare");
  same<bs::signal_type<Sg, slot_function_type<SF>>::type, bs::signal<Sg, OLV, int, std::less<int>, SF>>("slot function");
  same<bs::signal_type<Sg, extended_slot_function_type<XS>>::type, bs::signal<Sg, OLV, int, std::less<int>, BF, XS>>("extended slot function");
  same<bs::signal_type<Sg, mutex_type<bs::dummy_mutex>>::type, bs::signal<Sg, OLV, int, std::less<int>, BF, XF, bs::dummy_mutex>>("mutex");
  same<bs::signal_type<mutex_type<bs::dummy_mutex>, group_compare_type<GrpCmp>, signature_type<Sg>, group_type<long>, combiner_type<Comb0>>::type, bs::signal<Sg, Comb0, long, GrpCmp, BF, XF, bs::dummy_mutex>>("five in another order");
  same<bs::signal_type<Sg, Comb0, mutex_type<CountMutex>, extended_slot_function_type<XS>, slot_function_type<SF>, group_type<string>>::type, bs::signal<Sg, Comb0, string, std::less<string>, SF, XS, CountMutex>>("positional and named");
  typedef bs::signal_type<void(), mutex_type<std::mutex>> T1;
  same<T1::signature_type, void()>("signature_type");
  same<T1::combiner_type, bs::optional_last_value<void>>("combiner_type");
  same<T1::group_type, int>("group_type");
  same<T1::group_compare_type, std::less<int>>("group_compare_type");
  same<T1::slot_function_type, boost::function<void()>>("slot_function_type");
  same<T1::extended_slot_function_type, boost::function<void(const bs::connection &)>>("extended_slot_function_type");
  same<T1::mutex_type, std::mutex>("mutex_type");
  same<T0::mutex_type, bs::mutex>("default mutex_type");
  T1::type sig;
  int n = 0;
  sig.connect(3, [&n] { n = n * 10 + 3; });
  sig.connect(1, [&n] { n = n * 10 + 1; });
  sig.connect_extended([&n](const bs::connection &c) { n = n * 10 + 4; c.disconnect(); });
  sig();
  sig();
  if (n != 13413) fail(T(21), "a signal made through signal_type calls slots %d", n);
  bs::signal_type<Sg, mutex_type<bs::dummy_mutex>, group_compare_type<std::greater<int>>, combiner_type<Comb0>>::type s2;
  s2.connect(1, [&n](int x) { n = 1; return x; });
  s2.connect(2, [&n](int x) { n = 2; return x * 2; });
  if (s2(5) != 15 || n != 1) fail(T(21), "a signal made through signal_type ignores a parameter");
}
// ---- incomplete types, top-level const, function and noexcept types
struct Incomplete;
struct TakesInc { typedef void result_type; void operator()(Incomplete *p, Incomplete &r) const { if (p != &r) fail(T(21), "incomplete object"); log_.push_back(1); } };
typedef bs::signal<void(Incomplete *, Incomplete &)> SigInc;
static int fn(const int a) { return a + 1; }
#if __cplusplus >= 201703L
static int fnn(int a) noexcept { return a + 2; }
#endif
static void sp_types() {
  log_.clear();
  SigInc s;
  s.connect(TakesInc());
  SigInc t;
  s.connect(t);
  t.connect(TakesInc());
  long mem[2];
  Incomplete *p = reinterpret_cast<Incomplete *>(mem);
  s(p, *p);
  if (log_.size() != 2) fail(T(21), "a signal of incomplete types called %zu slots", log_.size());
  same<bs::signal<int(const int)>, bs::signal<int(int)>>("top-level const");
  bs::signal<int(const int)> c;
  int v = R_->below(1000);
  c.connect(fn);  // function, not pointer
  if (c(v).get() != v + 1) fail(T(21), "a function as a slot");
#if __cplusplus >= 201703L
  c.connect(&fnn);
  if (c(v).get() != v + 2) fail(T(21), "a noexcept function as a slot");
#endif
  // data members and members through bind
  Mem m = {v, v + 5};
  bs::signal<int(Mem &), bs::last_value<int>> d;
  d.connect(boost::bind(&Mem::b, boost::arg<1>()));
  if (d(m) != v + 5) fail(T(21), "a data member as a slot");
  // a slot kept by reference sees its own state
  struct Cnt { typedef int result_type; int n; int operator()(int x) { n += x; return n; } } cnt = {0};
  bs::signal<int(int), bs::last_value<int>> e;
  e.connect(boost::ref(cnt));
  e(v); e(v);
  if (cnt.n != 2 * v) fail(T(21, 18), "a slot given by reference was copied");
  // const signals: the same overloads
  const bs::signal<int(int), bs::last_value<int>> &ce = e;
  if (ce(1) != 2 * v + 1) fail(T(21), "const signal");
}
// ---- signal classes as bases and members; function objects wrapping a signal
struct Derived : bs::signal<void(int)> { int extra; Derived() : extra(7) {} };
static void sp_derived() {
  log_.clear();
  Derived d;
  bs::signal<void(int)> s;
  int v = R_->below(1000);
  auto push = [](int x) { log_.push_back(x); };
  d.connect(push);
  s.connect(d);
  s(v);
  boost::function<void(int)> f = boost::ref(d);
  f(v + 1);
  std::function<void(int)> g = std::ref(s);
  g(v + 2);
  if (log_.size() != 3 || log_[0] != uint64_t(v) || log_[1] != uint64_t(v + 1) || log_[2] != uint64_t(v + 2)) fail(T(21, 16), "a class derived from a signal does not behave like it");
  s.disconnect(d);
  s(v);
  if (log_.size() != 3) fail(T(21, 16), "disconnecting a class derived from a signal has no effect");
}
// ---- more parameters than the generated classes have: only limited by the compiler with variadic templates
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
struct Fourteen {
  typedef long result_type;
  long operator()(int a, short b, const string &c, long d, char e, double f, int &g, const int *h, unsigned i, Val j, long long k, string l, const Val &m, int n) const {
    log_.push_back(a); log_.push_back(b); log_.push_back(c.size()); log_.push_back(d); log_.push_back(e); log_.push_back(uint64_t(f)); log_.push_back(uint64_t(++g)); log_.push_back(uint64_t(*h));
    log_.push_back(i); log_.push_back(uint64_t(j.v)); log_.push_back(uint64_t(k)); log_.push_back(l.size()); log_.push_back(uint64_t(m.v)); log_.push_back(n);
    return n;
  }
  long operator()(const bs::connection &co, int a, short b, const string &c, long d, char e, double f, int &g, const int *h, unsigned i, Val j, long long k, string l, const Val &m, int n) const {
    if (!co.connected()) fail(T(17, 21), "an extended slot of fourteen parameters is given another connection");
    return (*this)(a, b, c, d, e, f, g, h, i, j, k, l, m, n);
  }
};
static void sp_many() {
  typedef long Sig(int, short, const string &, long, char, double, int &, const int *, unsigned, Val, long long, string, const Val &, int);
  typedef long ESig(const bs::connection &, int, short, const string &, long, char, double, int &, const int *, unsigned, Val, long long, string, const Val &, int);
  typedef bs::signal<Sig, bs::last_value<long>, int, std::less<int>, std::function<Sig>, std::function<ESig>> S; // (boost::function takes no more than ten)
  if (S::arity != 14 || S::slot_type::arity != 14) fail(T(21), "arity of fourteen parameters is %d", int(S::arity));
  same<S::arg<0>::type, int>("arg<0> of 14"); same<S::arg<1>::type, short>("arg<1> of 14"); same<S::arg<2>::type, const string &>("arg<2> of 14"); same<S::arg<3>::type, long>("arg<3> of 14");
  same<S::arg<4>::type, char>("arg<4> of 14"); same<S::arg<5>::type, double>("arg<5> of 14"); same<S::arg<6>::type, int &>("arg<6> of 14"); same<S::arg<7>::type, const int *>("arg<7> of 14");
  same<S::arg<8>::type, unsigned>("arg<8> of 14"); same<S::arg<9>::type, Val>("arg<9> of 14"); same<S::arg<10>::type, long long>("arg<10> of 14"); same<S::arg<11>::type, string>("arg<11> of 14");
  same<S::arg<12>::type, const Val &>("arg<12> of 14"); same<S::arg<13>::type, int>("arg<13> of 14");
  same<S::slot_type::arg<9>::type, Val>("slot::arg<9> of 14"); same<S::slot_type::arg<10>::type, long long>("slot::arg<10> of 14"); same<S::slot_type::arg<13>::type, int>("slot::arg<13> of 14");
  S s, t;
  S::slot_type sl = Fourteen();
  unsigned how = R_->below(5);
  if (how == 0) s.connect(Fourteen());
  else if (how == 1) s.connect(sl);
  else if (how == 2) s.connect_extended(Fourteen());
  else if (how == 3) { s.connect(t); t.connect(sl); }
  else s.connect(3, boost::ref(sl.slot_function()));
  int g = 6, h = 8, n = int(R_->below(1000));
  Val j; j.v = 10;
  Val m; m.v = 13;
  log_.clear();
  const S &cs = s;
  long r = how == 0 ? sl(1, 2, "abc", 4, 5, 6, g, &h, 9, j, 11, "abcdefghijkl", m, n) : R_->chance(1, 2) ? s(1, 2, "abc", 4, 5, 6, g, &h, 9, j, 11, "abcdefghijkl", m, n) : cs(1, 2, "abc", 4, 5, 6, g, &h, 9, j, 11, "abcdefghijkl", m, n);
  const uint64_t want[14] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, uint64_t(n)};
  if (r != n || log_.size() != 14 || g != 7) fail(T(21), "a slot of fourteen parameters returned %ld", r);
  for (int i = 0; i < 14; ++i) if (log_[i] != want[i]) fail(T(21), "parameter %d of fourteen changed", i);
}
#else
static void sp_many() {}
#endif
static vector<Fn> special() {
  vector<Fn> v;
  v.push_back(&sp_many);
  v.push_back(&sp_convert); v.push_back(&sp_moveonly); v.push_back(&sp_binding); v.push_back(&sp_extbind); v.push_back(&sp_keywords); v.push_back(&sp_types); v.push_back(&sp_derived);
  return v;
}
