#include "vf.h"
#ifdef VF_MEMCHECK
#include <valgrind/memcheck.h>
#endif
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <grp.h>
#include <mutex>

bool vf_thorough = false;
uint64_t vf_seed = 1;
int vf_worker = 0;
Str vf_scratch;

static std::vector<VfSuite> &suites() { static std::vector<VfSuite> s; return s; }
static FILE *s_out;
static std::unordered_set<uint64_t> s_seen;
static std::map<Str, uint64_t> s_counts;
static std::vector<Str> s_samples;
static uint64_t s_evals;
static int s_viol, s_case_viol;
static Str s_suite; static uint64_t s_case;
static double s_cpu_limit = 20;
static std::recursive_mutex s_mx;
static char *s_cur; // mmap'ed: current case and its trace, survives a crash
static const size_t CURSZ = 1 << 20;
static Str s_trace; static size_t s_trace_pos;

uint64_t vf_hash(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}

void vf_suite(const Str &name, uint64_t q, uint64_t t, std::function<void(Rng &, uint64_t)> fn) {
  suites().push_back({name, q, t, fn});
}

static Str jesc(const Str &s) {
  Str r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

Str vf_fmt(const char *fmt, ...) {
  va_list a; va_start(a, fmt); char *p = nullptr; int n = vasprintf(&p, fmt, a); va_end(a);
  Str r(p ? p : "", n > 0 ? n : 0); free(p); return r;
}
Str vf_q(const Str &s, size_t max) {
  Str r = "\"";
  size_t n = s.size();
  for (size_t i = 0; i < n && i < max; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c >= 0x7f) r += vf_fmt("\\x%02x", c);
    else r += (char)c;
  }
  r += "\"";
  if (n > max) r += vf_fmt("...(%zu bytes)", n);
  return r;
}
Str vf_q(const char *p) { return p ? vf_q(Str(p)) : Str("NULL"); }

static void viol_line(const Str &key, const Str &msg) {
  fprintf(s_out, "{\"t\":\"viol\",\"suite\":%s,\"case\":%llu,\"key\":%s,\"msg\":%s,\"trace\":%s}\n", jesc(s_suite).c_str(),
          (unsigned long long)s_case, jesc(key).c_str(), jesc(msg).c_str(),
          jesc(s_trace.size() > 6000 ? s_trace.substr(0, 2000) + " ... " + s_trace.substr(s_trace.size() - 4000) : s_trace).c_str());
  fflush(s_out);
}

void vf_violation(const Str &key, const char *fmt, ...) {
  std::lock_guard<std::recursive_mutex> g(s_mx);
  s_case_viol++;
  if (s_case_viol > 3 || s_viol >= 60) return;
  s_viol++;
  va_list a; va_start(a, fmt); char *p = nullptr; int n = vasprintf(&p, fmt, a); va_end(a);
  viol_line(key, Str(p ? p : "", n > 0 ? n : 0)); free(p);
}
void vf_finding(const Str &key, const char *fmt, ...) {
  std::lock_guard<std::recursive_mutex> g(s_mx); s_counts["findings"]++;
  static std::map<Str, int> n; if (++n[key] > 2) return;
  va_list a; va_start(a, fmt); char *p = nullptr; int k = vasprintf(&p, fmt, a); va_end(a);
  viol_line(key, Str(p ? p : "", k > 0 ? k : 0)); free(p);
}
bool vf_case_failed() { return s_case_viol > 0; }
void vf_seen(uint64_t sig) { std::lock_guard<std::recursive_mutex> g(s_mx); if (s_seen.size() < 400000) s_seen.insert(sig); }
void vf_eval(uint64_t n) { std::lock_guard<std::recursive_mutex> g(s_mx); s_evals += n; }
void vf_count(const char *w, uint64_t n) { std::lock_guard<std::recursive_mutex> g(s_mx); s_counts[w] += n; }
bool vf_want_sample() { return s_samples.size() < 4; }
void vf_sample(const Str &s) { std::lock_guard<std::recursive_mutex> g(s_mx); if (s_samples.size() < 4) s_samples.push_back(s.substr(0, 1500)); }
void vf_note(const char *fmt, ...) {
  std::lock_guard<std::recursive_mutex> g(s_mx);
  va_list a; va_start(a, fmt); char *p = nullptr; int n = vasprintf(&p, fmt, a); va_end(a);
  if (n < 0) return;
  if (s_trace.size() + n < CURSZ - 4096) {
    s_trace.append(p, n); s_trace += "; ";
    if (s_cur) { memcpy(s_cur + s_trace_pos, p, n); s_trace_pos += n; memcpy(s_cur + s_trace_pos, "; ", 3); s_trace_pos += 2; }
  }
  free(p);
}
const Str &vf_trace() { return s_trace; }
void vf_cpu_limit(double s) { s_cpu_limit = s; }

static void on_prof(int) {
  static const char m[] = "CPU LIMIT\n";
  if (s_cur) memcpy(s_cur + CURSZ - 64, "HANG", 5);
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}
static void arm_timer(double s) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

Guarded::Guarded(size_t n_, unsigned char fill) : n(n_) {
  // The payload ends exactly at the end of the heap block so that ASan sees an overrun;
  // canaries in front catch underruns without relying on ASan.
  base = (char *)::operator new(n + 32);
  memset(base, 0xC7, 32); p = base + 32; memset(p, fill, n);
}
Guarded::~Guarded() { ::operator delete(base); }
bool Guarded::intact() const { for (int i = 0; i < 32; i++) if ((unsigned char)base[i] != 0xC7) return false; return true; }

void vf_drop_privs() {
  if (geteuid() != 0) return;
  if (!vf_scratch.empty()) { (void)!chown(vf_scratch.c_str(), 65534, 65534); }
  (void)!setgroups(0, nullptr);
  if (setgid(65534) || setuid(65534)) { fprintf(stderr, "cannot drop privileges\n"); _exit(96); }
}

#ifdef VF_MEMCHECK
void vf_defined(const void *p, size_t n, const char *what) { if (n && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) vf_violation("memcheck:handed down", "%s is not initialised", what); }
// what an operation says it returned was written by it
extern "C" {
#include "evfs.h"
static void info_undef(EvfsInfo *i) { if (i) VALGRIND_MAKE_MEM_UNDEFINED(i, sizeof *i); }
static void info_check(EvfsInfo *i, int rv, bool name, const char *what) {
  if (!i) return;
  if (rv == EVFS_OK) {
    vf_defined(&i->type, sizeof i->type, what); vf_defined(&i->size, sizeof i->size, what); vf_defined(&i->mtime, sizeof i->mtime, what); vf_defined(&i->name, sizeof i->name, what);
    if (name && !VALGRIND_CHECK_MEM_IS_DEFINED(&i->name, sizeof i->name) && i->name) { size_t n = strlen(i->name); vf_defined(i->name, n, what); }
  }
  VALGRIND_MAKE_MEM_DEFINED(i, sizeof *i);
}
int __real_evfs_stat_ex(const char *, EvfsInfo *, const char *);
int __wrap_evfs_stat_ex(const char *p, EvfsInfo *i, const char *v) { info_undef(i); int rv = __real_evfs_stat_ex(p, i, v); info_check(i, rv, false, "the information from evfs_stat_ex"); return rv; }
int __real_evfs_dir_read(EvfsDir *, EvfsInfo *);
int __wrap_evfs_dir_read(EvfsDir *d, EvfsInfo *i) { info_undef(i); int rv = __real_evfs_dir_read(d, i); info_check(i, rv, true, "the entry from evfs_dir_read"); return rv; }
int __real_evfs_dir_find(EvfsDir *, const char *, EvfsInfo *);
int __wrap_evfs_dir_find(EvfsDir *d, const char *p, EvfsInfo *i) { info_undef(i); int rv = __real_evfs_dir_find(d, p, i); info_check(i, rv, true, "the entry from evfs_dir_find"); return rv; }
ptrdiff_t __real_evfs_file_read(EvfsFile *, void *, size_t);
ptrdiff_t __wrap_evfs_file_read(EvfsFile *f, void *b, size_t n) {
  if (b && n) VALGRIND_MAKE_MEM_UNDEFINED(b, n);
  ptrdiff_t rv = __real_evfs_file_read(f, b, n); vf_defined(&rv, sizeof rv, "the count from evfs_file_read");
  if (b && n) { if (rv > 0 && (size_t)rv <= n) vf_defined(b, (size_t)rv, "the data from evfs_file_read"); VALGRIND_MAKE_MEM_DEFINED(b, n); }
  return rv;
}
}
#endif
// ---- allocator ----
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
namespace vfalloc {
bool tracking; long live, count, fail_at; bool failed;
static bool armed;
static std::unordered_map<void *, size_t> *blocks;
static std::mutex mx;
void start() { std::lock_guard<std::mutex> g(mx); if (!blocks) blocks = new std::unordered_map<void *, size_t>; blocks->clear(); live = 0; tracking = true; }
long stop() { std::lock_guard<std::mutex> g(mx); tracking = false; return live; }
void arm(long k) { count = 0; fail_at = k; failed = false; armed = true; }
void disarm() { armed = false; fail_at = 0; }
Str describe_live() { Str r; if (blocks) { int i = 0; for (auto &b : *blocks) { if (i++ > 8) break; r += vf_fmt("%zu bytes ", b.second); } } return r; }
static bool deny() {
  if (!armed) return false;
  count++;
  if (fail_at && count == fail_at) { failed = true; return true; }
  return false;
}
static void *got(void *p, size_t n, bool fill) {
  if (p && fill) memset(p, 0xBE, n);   // uninitialized contents must not matter
#ifdef VF_MEMCHECK
  if (p && fill) VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
  if (p && tracking) { std::lock_guard<std::mutex> g(mx); (*blocks)[p] = n; live++; }
  return p;
}
static void gone(void *p) { if (p && blocks) { std::lock_guard<std::mutex> g(mx); auto i = blocks->find(p); if (i != blocks->end()) { blocks->erase(i); live--; } } }
}
extern "C" void *__wrap_malloc(size_t n) { if (vfalloc::deny()) return nullptr; return vfalloc::got(__real_malloc(n), n, true); }
extern "C" void __wrap_free(void *p) { vfalloc::gone(p); __real_free(p); }
extern "C" void *__wrap_calloc(size_t a, size_t b) { if (vfalloc::deny()) return nullptr; return vfalloc::got(__real_calloc(a, b), a * b, false); }
extern "C" void *__wrap_realloc(void *p, size_t n) {
  if (vfalloc::deny()) return nullptr;
  vfalloc::gone(p);
  return vfalloc::got(__real_realloc(p, n), n, false);
}

// ---- main ----
static void run_case(VfSuite &s, uint64_t idx) {
  s_suite = s.name; s_case = idx; s_case_viol = 0; s_trace.clear();
  if (s_cur) s_trace_pos = (size_t)snprintf(s_cur, 256, "%zu %s %llu | ", (size_t)(&s - &suites()[0]), s.name.c_str(), (unsigned long long)idx);
  Rng r(vf_hash(s.name, vf_seed * 1000003 + 17) ^ (idx * 0x9E3779B97F4A7C15ull));
#ifdef VF_MEMCHECK
  arm_timer(s_cpu_limit * 30);
  unsigned before = VALGRIND_COUNT_ERRORS; s.fn(r, idx);
  if (VALGRIND_COUNT_ERRORS != before) { // the log up to here belongs to this case
    VALGRIND_PRINTF("VFCASE %s %llu\n", s.name.c_str(), (unsigned long long)idx);
    if (s_cur) VALGRIND_PRINTF("VFTRACE %.1500s\n", s_cur);
  }
#else
  arm_timer(s_cpu_limit);
  s.fn(r, idx);
#endif
}

extern "C" const char *__asan_default_options() __attribute__((weak));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1"; }

int main(int argc, char **argv) {
  Str out, cur, seenf, only_suite, skip_file, suites_arg; long only_case = -1; int workers = 1; double soft = 0; uint64_t start_suite = 0, start_case = 0; bool resume = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    Str k = argv[i], v = argv[i + 1];
    if (k == "--seed") vf_seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--tier") vf_thorough = v == "thorough";
    else if (k == "--worker") vf_worker = atoi(v.c_str());
    else if (k == "--workers") workers = atoi(v.c_str());
    else if (k == "--out") out = v;
    else if (k == "--cur") cur = v;
    else if (k == "--seen") seenf = v;
    else if (k == "--scratch") vf_scratch = v;
    else if (k == "--suite") only_suite = v;
    else if (k == "--case") only_case = atol(v.c_str());
    else if (k == "--suites") suites_arg = v;   // comma separated subset
    else if (k == "--soft") soft = atof(v.c_str());   // seconds to spend: every suite gets its share, and stops after it between two cases
    else if (k == "--resume-suite") { start_suite = strtoull(v.c_str(), 0, 10); resume = true; }
    else if (k == "--resume-case") start_case = strtoull(v.c_str(), 0, 10);
  }
  s_out = out.empty() ? stdout : fopen(out.c_str(), "a");
  if (!s_out) { perror("out"); return 96; }
  if (!cur.empty()) {
    int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
    if (fd < 0 || ftruncate(fd, CURSZ)) { perror("cur"); return 96; }
    s_cur = (char *)mmap(nullptr, CURSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (s_cur == MAP_FAILED) { s_cur = nullptr; }
    close(fd);
  }
  int seenfd = -1;
  if (!seenf.empty()) seenfd = open(seenf.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPROF, on_prof);
  setvbuf(stderr, nullptr, _IOLBF, 0);
  auto now = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; };
  double t_end = soft > 0 ? now() + soft : 0;
  vf_setup();
  auto &ss = suites();
  auto skip = [&](const VfSuite &s) { return (!only_suite.empty() && s.name != only_suite) || (!suites_arg.empty() && ("," + suites_arg + ",").find("," + s.name + ",") == Str::npos); };
  for (uint64_t si = start_suite; si < ss.size(); si++) {
    auto &s = ss[si];
    if (skip(s)) continue;
    if (only_case >= 0) { run_case(s, (uint64_t)only_case); s_evals++; continue; }
    uint64_t n = vf_thorough ? s.thorough : s.quick;
    uint64_t i = (uint64_t)vf_worker;
    if (resume && si == start_suite) i = start_case;
    double stop = 0; if (t_end > 0) { int left = 0; for (uint64_t k = si; k < ss.size(); k++) left += !skip(ss[k]); double t = now(); stop = t + (t_end - t) / left; }
    for (; i < n; i += (uint64_t)workers) {
      run_case(s, i);
      s_evals++;
      if (stop > 0 && now() >= stop) { vf_count("time_box_ended"); break; }
      if (s_viol >= 60) goto done;
    }
  }
done:
  arm_timer(0);
  fprintf(s_out, "{\"t\":\"stats\",\"evals\":%llu,\"counts\":{", (unsigned long long)s_evals);
  bool first = true;
  for (auto &c : s_counts) { fprintf(s_out, "%s%s:%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(s_out, "},\"samples\":[");
  first = true;
  for (auto &c : s_samples) { fprintf(s_out, "%s%s", first ? "" : ",", jesc(c).c_str()); first = false; }
  fprintf(s_out, "]}\n");
  fflush(s_out);
  if (seenfd >= 0) { std::vector<uint64_t> v(s_seen.begin(), s_seen.end()); const char *p = (const char *)v.data(); size_t left = v.size() * 8; while (left) { ssize_t w = write(seenfd, p, left); if (w <= 0) break; p += w; left -= (size_t)w; } }
  _exit(0);
}
