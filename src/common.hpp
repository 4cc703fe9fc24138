// Shared by all workloads: PRNG, violation reporting, statistics.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

#ifdef BOOST_ENABLE_ASSERT_HANDLER
// set by the driver: a failed assertion of the library is reported with its place
namespace boost {
inline void assertion_failed(char const *expr, char const *function, char const *file, long line) {
  fflush(stdout);
  fprintf(stderr, "LIBRARY-ASSERTION %s at %s:%ld in %s\n", expr, file, line, function);
  fflush(stderr);
  abort();
}
inline void assertion_failed_msg(char const *expr, char const *, char const *function, char const *file, long line) {
  assertion_failed(expr, function, file, line);
}
} // namespace boost
#endif

namespace vf {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  // the streams of neighbouring seeds must not be shifts of each other: mix the seed with other constants than next()
  void reseed(uint64_t seed) {
    uint64_t z = seed + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 33)) * 0xFF51AFD7ED558CCDull;
    z = (z ^ (z >> 33)) * 0xC4CEB9FE1A85EC53ull;
    s = z ^ (z >> 33);
    for (int i = 0; i < 4; ++i) next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  unsigned below(unsigned n) { return n ? unsigned(next() % n) : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

typedef uint64_t Tags; // bit i = property Ci
inline Tags T(int a) { return Tags(1) << a; }
template <class... R> inline Tags T(int a, R... r) { return T(a) | T(r...); }

struct Ctx {
  long long case_no = -1;
  uint64_t case_seed = 0;
  const char *engine = "?";
  std::vector<std::string> trace; // what the current case did
  bool tracing = true;
};
inline Ctx &ctx() { static Ctx c; return c; }

inline std::string tagstr(Tags t) {
  std::string r;
  for (int i = 0; i < 64; ++i)
    if (t >> i & 1) { char b[8]; snprintf(b, sizeof b, "%sC%02d", r.empty() ? "" : ",", i); r += b; }
  return r;
}

// what else a mismatch refutes at this moment
inline Tags (*&more_tags())() { static Tags (*f)(); return f; }

// Report a violation of the tagged properties and end this process; the driver goes on with the next case.
inline void fail(Tags t, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
inline void fail(Tags t, const char *fmt, ...) {
  char msg[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  for (char *p = msg; *p; ++p) if (*p == '\n') *p = ' ';
  fflush(stdout);
  if (more_tags()) t |= more_tags()();
  size_t n = ctx().trace.size();
  for (size_t i = n > 120 ? n - 120 : 0; i < n; ++i) printf("TRACE %s\n", ctx().trace[i].c_str());
  printf("MISMATCH case=%lld props=%s engine=%s msg=%s\n", ctx().case_no, tagstr(t).c_str(), ctx().engine, msg);
  fflush(stdout);
  _exit(3);
}

// For checks whose outcome the rest of the case does not depend on: when the check of one property is run (--own), such a
// mismatch about others only is passed over, so that it does not hide what comes after it.
inline int &own_property() { static int p = 0; return p; }
inline bool pass_over(Tags t) { return own_property() && !((t | (more_tags() ? more_tags()() : 0)) >> own_property() & 1); }
#define SOFT(tags, ...) do { ::vf::Tags soft_t = (tags); if (!::vf::pass_over(soft_t)) ::vf::fail(soft_t, __VA_ARGS__); ++::vf::passed_over(); } while (0)
inline long long &passed_over() { static long long n; return n; }

inline void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void tr(const char *fmt, ...) {
  if (!ctx().tracing) return;
  char b[300];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  ctx().trace.push_back(b);
}

struct Stats {
  std::map<std::string, long long> n;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  void add(const char *k, long long d = 1) { n[k] += d; }
  void print(const char *extra = "") {
    printf("STATS {\"counts\":{");
    bool first = true;
    for (auto &p : n) { printf("%s\"%s\":%lld", first ? "" : ",", p.first.c_str(), p.second); first = false; }
    printf("},\"distinct\":%zu,\"hashes\":[", distinct.size());
    size_t k = 0;
    for (auto h : distinct) { if (k++ >= 20000) break; printf("%s\"%llx\"", k == 1 ? "" : ",", (unsigned long long)h); }
    printf("],\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) {
      printf("%s\"", i ? "," : "");
      for (char c : samples[i]) { if (c == '"' || c == '\\') putchar('\\'); if ((unsigned char)c >= 32) putchar(c); }
      printf("\"");
    }
    printf("]%s}\n", extra);
    fflush(stdout);
  }
};
inline Stats &stats() { static Stats s; return s; }

struct Hash {
  uint64_t h = 1469598103934665603ull;
  void add(uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
};

struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      size_t e = a.find('=');
      if (a.compare(0, 2, "--") == 0 && e != std::string::npos) m[a.substr(2, e - 2)] = a.substr(e + 1);
    }
  }
  long long num(const char *k, long long d) const { auto i = m.find(k); return i == m.end() ? d : atoll(i->second.c_str()); }
  std::string str(const char *k, const char *d) const { auto i = m.find(k); return i == m.end() ? d : i->second; }
};

// Every workload: for case in [from, from+cases): announce it (so that the driver knows which case died), run it.
// Each case depends only on (seed, case number).
template <class F> int run_cases(const char *engine, const Args &a, F f) {
  ctx().engine = engine;
  long long from = a.num("from", 0), cases = a.num("cases", 100), stride = a.num("stride", 1);
  uint64_t seed = (uint64_t)a.num("seed", 1);
  own_property() = int(a.num("own", 0));
  // progress is kept in a file the driver reads after a crash
  std::string pf = a.str("progress", "");
  FILE *p = pf.empty() ? nullptr : fopen(pf.c_str(), "w+");
  for (long long i = 0; i < cases; ++i) {
    long long c = from + i * stride;
    ctx().case_no = c;
    ctx().case_seed = seed * 1000003ull + (uint64_t)c;
    ctx().trace.clear();
    if (p) { char b[32]; int k = snprintf(b, sizeof b, "%-20lld\n", c); if (pwrite(fileno(p), b, k, 0) < 0) {} }
    f(c, ctx().case_seed);
    stats().add("cases");
  }
  ctx().case_no = -1;
  if (p) fclose(p);
  if (passed_over()) stats().add("mismatches_about_other_properties_passed_over", passed_over());
  stats().print();
  return 0;
}

} // namespace vf
#endif
