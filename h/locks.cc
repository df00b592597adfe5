// Monitored implementation of the EVFS threading back end (the documented extension point:
// "You need to provide an implementation of these functions on platforms without pthreads").
#include "vf.h"
extern "C" {
#include "evfs.h"
}
#include <pthread.h>
#include <atomic>
#include <mutex>

#ifdef EVFS_USE_THREADING
#include "evfs_custom_threading.h"
static thread_local long t_held; static std::atomic<long> s_acq;
static std::mutex s_mx;
static std::map<void *, pthread_t> *s_owner;
static std::set<void *> *s_live; static long s_fail_in; static bool s_failed;      // initialised locks; injected failure of the n-th initialisation
extern "C" {
void evfs__lib_init(void);
static pthread_once_t s_once = PTHREAD_ONCE_INIT;
void evfs__init_once(void) { pthread_once(&s_once, evfs__lib_init); }
int evfs__lock_init(EvfsLock *l) {
  { std::lock_guard<std::mutex> g(s_mx);
    if (s_fail_in > 0 && --s_fail_in == 0) { s_failed = true; return EVFS_ERR; }
    if (!s_live) s_live = new std::set<void *>;
    s_live->insert(l); }
  return pthread_mutex_init(l, nullptr) == 0 ? EVFS_OK : EVFS_ERR;
}
static void need_live(EvfsLock *l, const char *what) {      // under s_mx
  if (s_live && s_live->count(l)) return;
  vf_violation("lock:not-initialised", "%s a lock that is not initialised", what); _Exit(95);
}
int evfs__lock_destroy(EvfsLock *l) {
  { std::lock_guard<std::mutex> g(s_mx);
    need_live(l, "destroying"); s_live->erase(l);
    if (s_owner && s_owner->count(l)) vf_violation("lock:destroyed-while-held", "a lock was destroyed while held"); }
  return pthread_mutex_destroy(l) == 0 ? EVFS_OK : EVFS_ERR;
}
int evfs__lock(EvfsLock *l) {
  if (vflock::yield_hook) vflock::yield_hook();
  { std::lock_guard<std::mutex> g(s_mx);
    need_live(l, "locking");
    if (!s_owner) s_owner = new std::map<void *, pthread_t>;
    auto i = s_owner->find(l);
    if (i != s_owner->end() && pthread_equal(i->second, pthread_self())) {
      vf_violation("lock:self-deadlock", "a thread waits for a lock it holds already (left locked by an earlier operation or taken twice)");
      _Exit(95);
    } }
  int e = pthread_mutex_lock(l);
  { std::lock_guard<std::mutex> g(s_mx); (*s_owner)[l] = pthread_self(); }
  t_held++; s_acq++;
  return e == 0 ? EVFS_OK : EVFS_ERR;
}
int evfs__unlock(EvfsLock *l) {
  { std::lock_guard<std::mutex> g(s_mx);
    need_live(l, "unlocking");
    auto i = s_owner ? s_owner->find(l) : std::map<void *, pthread_t>::iterator();
    if (!s_owner || i == s_owner->end() || !pthread_equal(i->second, pthread_self()))
      vf_violation("lock:unlock-not-held", "a lock was released by a thread that does not hold it");
    else s_owner->erase(i); }
  t_held--;
  int e = pthread_mutex_unlock(l);
  if (vflock::yield_hook) vflock::yield_hook();
  return e == 0 ? EVFS_OK : EVFS_ERR;
}
}
namespace vflock {
void (*yield_hook)();
long held() { return t_held; }
long acquisitions() { return s_acq; }
void reset() { t_held = 0; }
long live() { std::lock_guard<std::mutex> g(s_mx); return s_live ? (long)s_live->size() : 0; }
void fail_init(long n) { std::lock_guard<std::mutex> g(s_mx); s_fail_in = n; s_failed = false; }
bool init_failed() { std::lock_guard<std::mutex> g(s_mx); s_fail_in = 0; bool f = s_failed; s_failed = false; return f; }
}
#else
namespace vflock {
void (*yield_hook)();
long held() { return 0; }
long acquisitions() { return 0; }
void reset() {}
long live() { return 0; }
void fail_init(long) {}
bool init_failed() { return false; }
}
#endif
