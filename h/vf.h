// Core of the monitoring harnesses: cases, deterministic randomness, violations,
// coverage accounting, watchdog, allocator accounting and fault injection.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <time.h>

typedef std::string Str;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  Str bytes(size_t n) { Str r(n, 0); for (auto &c : r) c = (char)next(); return r; }
};

uint64_t vf_hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t vf_hash(const Str &s, uint64_t h = 1469598103934665603ull) { return vf_hash(s.data(), s.size(), h); }

// ---- suites and cases ----
struct VfSuite {
  Str name;
  uint64_t quick, thorough;                // number of cases per tier
  std::function<void(Rng &, uint64_t)> fn; // run one case
};
void vf_suite(const Str &name, uint64_t quick, uint64_t thorough, std::function<void(Rng &, uint64_t)> fn);
void vf_setup();                           // provided by each harness: registers suites
extern bool vf_thorough;
extern uint64_t vf_seed;
extern int vf_worker;
extern Str vf_scratch;                     // private scratch directory of this worker (exists)

// ---- observation ----
// A violation of the property. 'key' identifies what failed (stable across runs), msg has details.
void vf_violation(const Str &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void vf_finding(const Str &key, const char *fmt, ...) __attribute__((format(printf, 2, 3))); // same, but the case goes on
bool vf_case_failed();                     // a violation was reported in this case
#define VF_CHECK(cond, key, ...) do { if (!(cond)) { vf_violation(key, __VA_ARGS__); } } while (0)
void vf_seen(uint64_t sig);                // a distinct non-trivial state/outcome was observed
void vf_eval(uint64_t n = 1);              // count an evaluation (default: one per case)
void vf_count(const char *what, uint64_t n = 1); // event counters
void vf_sample(const Str &s);              // a case written out (only the first few are kept)
bool vf_want_sample();
void vf_note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // append to the trace of this case
const Str &vf_trace();
void vf_cpu_limit(double seconds);         // CPU limit for each case (default 20 s)

Str vf_fmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
Str vf_q(const Str &s, size_t max = 300);  // printable quoting
Str vf_q(const char *p);

// ---- exact-size guarded buffers (ASan red zones on both sides, plus canaries) ----
// in memcheck jobs: the bytes were written at some time
#ifdef VF_MEMCHECK
void vf_defined(const void *p, size_t n, const char *what);
#else
inline void vf_defined(const void *, size_t, const char *) {}
#endif
struct Guarded {
  char *base, *p; size_t n; 
  explicit Guarded(size_t n, unsigned char fill = 0xA5);
  ~Guarded();
  bool intact() const;                     // canaries before and behind untouched
  Guarded(const Guarded &) = delete;
};

// ---- allocator accounting (calls made from evfs and harness C code via --wrap) ----
namespace vfalloc {
extern bool tracking;                      // count evfs allocations
extern long live;                          // allocations made while tracking and still live
extern long count;                         // allocations attempted while armed
extern long fail_at;                       // fail the k-th allocation (1-based) since arm(); 0 = never
extern bool failed;                        // the armed failure happened
void start();                              // begin tracking with an empty set
long stop();                               // end tracking, returns live allocations
void arm(long k);                          // count from here and fail the k-th
void disarm();
Str describe_live();
}

// ---- lock monitor (builds with -DVF_LOCKS) ----
namespace vflock {
long held();                               // locks currently held by this thread
long acquisitions();
void reset();
long live();                               // initialised locks
void fail_init(long n);                    // the n-th initialisation from here fails; 0 = none
bool init_failed();                        // that happened; disarms
extern void (*yield_hook)();               // called before/after lock operations
}

void vf_drop_privs();                      // become an unprivileged user (if root)
#endif
