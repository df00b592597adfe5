// C18: threads on the registry, on separate handles and on shared working directories. The race detector watches the
// accesses; the results are compared with the sequential ones, or searched for a sequential order that explains them.
#include "tiny.h"
#include <atomic>
#include <climits>
#include <thread>
// The host's calls get pauses around them as well
extern "C" {
int __real_stat(const char *, struct stat *); int __wrap_stat(const char *p, struct stat *s) { int r = __real_stat(p, s); int e = errno; t_pause(); errno = e; return r; }
FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *p, const char *m) { t_pause(); FILE *f = __real_fopen(p, m); int e = errno; t_pause(); errno = e; return f; }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { t_pause(); return __real_mkdir(p, m); }
int __real_remove(const char *); int __wrap_remove(const char *p) { t_pause(); return __real_remove(p); }
int __real_rename(const char *, const char *); int __wrap_rename(const char *p, const char *q) { t_pause(); return __real_rename(p, q); }
void *__real_opendir(const char *); void *__wrap_opendir(const char *p) { t_pause(); return __real_opendir(p); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { t_pause(); return __real_fwrite(b, s, n, f); }
int __real_fseek(FILE *, long, int); int __wrap_fseek(FILE *f, long o, int w) { int r = __real_fseek(f, o, w); int e = errno; t_pause(); errno = e; return r; }
}
struct Ev { long t0 = 0, t1 = 0; Str res; };
static std::atomic<long> s_clock(0), s_ready(0), s_heldlocks(0); static std::atomic<bool> s_go(false); // relaxed: they order nothing for the detector
static long tick() { return s_clock.fetch_add(1, std::memory_order_relaxed); }
static long held() {
#ifdef CONC_MON
  return vflock::held();
#else
  return 0;
#endif
}
// Runs body(thread, event index) for n[thread] events on each thread
static std::vector<std::vector<Ev>> together(const std::vector<size_t> &n, uint64_t seed, const std::function<Str(size_t, size_t)> &body, const std::function<void(size_t)> &last = nullptr) {
  std::vector<std::vector<Ev>> ev(n.size()); for (size_t i = 0; i < n.size(); i++) ev[i].resize(n[i]); s_ready.store(0, std::memory_order_relaxed); s_go.store(false, std::memory_order_relaxed); s_clock.store(0, std::memory_order_relaxed); std::vector<std::thread> th;
  for (size_t i = 0; i < n.size(); i++) th.emplace_back([&, i]() { Rng r(seed * 31 + i); t_rng = &r; s_ready.fetch_add(1, std::memory_order_relaxed); while (!s_go.load(std::memory_order_relaxed)) sched_yield(); for (size_t k = 0; k < ev[i].size(); k++) { Ev &e = ev[i][k]; t_pause(); e.t0 = tick(); e.res = body(i, k); e.t1 = tick(); if (held()) s_heldlocks.fetch_add(1, std::memory_order_relaxed); } if (last) last(i); t_rng = nullptr; });
  while (s_ready.load(std::memory_order_relaxed) < (long)n.size()) sched_yield(); s_go.store(true, std::memory_order_relaxed); for (auto &t : th) t.join();
  long h = s_heldlocks.exchange(0); VF_CHECK(h == 0, "conc:lock", "%ld operations returned with a lock held", h);
  std::vector<std::pair<long, int>> order; long overlap = 0; for (size_t i = 0; i < ev.size(); i++) for (auto &e : ev[i]) { order.push_back({e.t0, (int)i * 2}); order.push_back({e.t1, (int)i * 2 + 1}); if (e.t1 > e.t0 + 1) overlap++; } std::sort(order.begin(), order.end()); Str sig; for (auto &o : order) sig += (char)o.second; vf_seen(vf_hash(sig)); vf_count("events", order.size() / 2); vf_count("overlapping", (uint64_t)overlap); vf_eval(); return ev;
}
// Is there an order of the events, compatible with real time, in which every result is what the specification gives?
struct Spec { virtual ~Spec() {} virtual Str initial() = 0; virtual void apply(const Str &state, size_t th, size_t k, Str &res, Str &next) = 0; };
struct Search {
  const std::vector<std::vector<Ev>> &ev; Spec &sp; std::set<std::pair<std::vector<size_t>, Str>> dead; long nodes = 0, limit; Search(const std::vector<std::vector<Ev>> &e, Spec &s, long l) : ev(e), sp(s), limit(l) {}
  int go(std::vector<size_t> &at, const Str &state) { // 1 found, 0 none, -1 gave up
    bool done = true; long first = LONG_MAX; for (size_t i = 0; i < ev.size(); i++) if (at[i] < ev[i].size()) { done = false; first = std::min(first, ev[i][at[i]].t1); } if (done) return 1; if (++nodes > limit) return -1; auto key = std::make_pair(at, state); if (dead.count(key)) return 0;
    for (size_t i = 0; i < ev.size(); i++) if (at[i] < ev[i].size() && ev[i][at[i]].t0 < first) { Str res, next; sp.apply(state, i, at[i], res, next); if (res != ev[i][at[i]].res) continue; at[i]++; int r = go(at, next); at[i]--; if (r) return r; }
    dead.insert(key); return 0;
  }
};
static void linearize(const std::vector<std::vector<Ev>> &ev, Spec &sp, const char *key, const std::function<Str(size_t, size_t)> &show) {
  Search s(ev, sp, 60000); std::vector<size_t> at(ev.size(), 0); int r = s.go(at, sp.initial()); vf_count(r < 0 ? "undecided" : "linearized"); if (r != 0) return; Str h; std::vector<std::pair<long, Str>> lines; for (size_t i = 0; i < ev.size(); i++) for (size_t k = 0; k < ev[i].size(); k++) lines.push_back({ev[i][k].t0, vf_fmt("[%ld,%ld] t%zu %s -> %s; ", ev[i][k].t0, ev[i][k].t1, i, show(i, k).c_str(), vf_q(ev[i][k].res, 80).c_str())}); std::sort(lines.begin(), lines.end()); for (auto &l : lines) h += l.second; vf_violation(key, "no sequential order explains: %s", h.c_str());
}

// ---- stacks to work on ----
enum CKind { C_TAR, C_TARRSRC, C_ROM, C_ROMRSRC, C_JAIL, C_TRACE, C_FAT, C_STDIO, C_SJAIL, C_SROT, C_STRACE, C_SDEEP, C_TJAIL, C_NKINDS };
static const char *CNAMES[] = {"tar", "tar_rsrc", "romfs", "romfs_rsrc", "jail", "trace", "fat", "stdio", "jail on stdio", "rotate on stdio", "trace on stdio", "jail on trace on rotate on stdio", "trace on jail"};
static const Str &conc_fat_image(int threads) { static std::map<int, Str> all; Str &s = all[threads]; if (s.empty()) { MemFs m("fatmake"); m.reg(true); if (fatfs_make_image("/i", 1, 600000) || fatfs_mount_image("/i", 1) || evfs_register_fatfs("fatmk", 1, false)) abort(); for (int t = 0; t < threads; t++) { Str pre = vf_fmt("/t%d", t); if (evfs_make_dir_ex(pre.c_str(), "fatmk")) abort(); for (auto n : SDIRS) if (evfs_make_dir_ex((pre + "/" + n).c_str(), "fatmk")) abort(); for (auto &x : STREE) if (ev_write_all((pre + "/" + x.path).c_str(), s_content(x), "fatmk")) abort(); } evfs_unregister(evfs_find_vfs("fatmk")); fatfs_unmount_image(1); s = m.at("/i")->data; evfs_unregister(&m.vfs); } return s; }
struct World {
  int kind, threads; std::unique_ptr<TinyFs> base; std::unique_ptr<Guarded> mem; Str root; RotateConfig rc{700, 4};
  bool host() const { return kind >= C_STDIO && kind <= C_SDEEP; } bool own() const { return kind >= C_FAT && kind <= C_SDEEP; }
  World(int k, int n, int geo = 0) : kind(k), threads(n) { static const RotateConfig G[] = {{700, 4}, {64, 3}, {40, 2}, {200, 3}}; rc = G[geo];
    if (k == C_FAT) conc_fat_image(n); base.reset(new TinyFs("tiny")); evfs_register(&base->vfs, true); int rv = EVFS_OK;
    auto image = [&](const Str &bytes) { base->put("/img", bytes); EvfsFile *i = nullptr; if (evfs_open_ex("/img", &i, EVFS_READ, "tiny")) abort(); return i; }; auto memory = [&](const Str &b) { mem.reset(new Guarded(b.size())); memcpy(mem->p, b.data(), b.size()); return (uint8_t *)mem->p; };
    if (host()) { static std::atomic<long> serial(0); root = vf_scratch + "/w" + std::to_string(serial++ % 4); std::filesystem::remove_all(root); for (int t = 0; t < n; t++) for (auto d : SDIRS) std::filesystem::create_directories(root + vf_fmt("/t%d/", t) + d); if (evfs_register_stdio(false)) abort(); if (k != C_SROT && k != C_SDEEP) for (int t = 0; t < n; t++) for (auto &x : STREE) { FILE *o = fopen((root + vf_fmt("/t%d/", t) + x.path).c_str(), "wb"); Str c = s_content(x); fwrite(c.data(), 1, c.size(), o); fclose(o); } }
    switch (k) {
      case C_TAR: rv = evfs_register_tar_fs("top", image(Stack::tar_image()), false); break; case C_ROM: rv = evfs_register_romfs("top", image(Stack::rom_image()), false); break; case C_TARRSRC: { const Str &b = Stack::tar_image(); rv = evfs_register_tar_rsrc_fs("top", memory(b), b.size(), false); break; } case C_ROMRSRC: { const Str &b = Stack::rom_image(); rv = evfs_register_rsrc_romfs("top", memory(b), b.size(), false); break; }
      case C_JAIL: base->tree("/jail/in"); rv = evfs_register_jail("top", "tiny", "/jail/in", false); break; case C_TJAIL: base->tree("/jail/in"); rv = evfs_register_jail("mid", "tiny", "/jail/in", false); if (!rv) rv = evfs_register_trace("top", "mid", s_trace_sink, nullptr, false); break; case C_TRACE: base->tree(""); rv = evfs_register_trace("top", "tiny", s_trace_sink, nullptr, false); break;
      case C_FAT: base->writable = true; base->put("/img", conc_fat_image(n)); rv = fatfs_mount_image("/img", 0); if (!rv) rv = evfs_register_fatfs("top", 0, false); break; case C_STDIO: break;
      case C_SJAIL: rv = evfs_register_jail("top", "stdio", root.c_str(), false); break; case C_SROT: rv = evfs_register_rotate("top", "stdio", &rc, false); break; case C_STRACE: rv = evfs_register_trace("top", "stdio", s_trace_sink, nullptr, false); break;
      case C_SDEEP: rv = evfs_register_rotate("s1", "stdio", &rc, false); if (!rv) rv = evfs_register_trace("s2", "s1", s_trace_sink, nullptr, false); if (!rv) rv = evfs_register_jail("top", "s2", root.c_str(), false); break;
    }
    if (rv) { fprintf(stderr, "world %s: %s\n", CNAMES[k], ev_err(rv)); abort(); }
    if (k == C_SROT || k == C_SDEEP) for (int t = 0; t < n; t++) for (auto &x : STREE) { EvfsFile *o; if (evfs_open_ex((prefix(t) + "/" + x.path).c_str(), &o, EVFS_WRITE | EVFS_APPEND, top())) abort(); Str c = s_content(x); evfs_file_write(o, c.data(), c.size()); evfs_file_close(o); }
  }
  const char *top() const { return kind == C_STDIO ? "stdio" : "top"; }
  Str prefix(int t) const { return kind == C_FAT || kind == C_SJAIL || kind == C_SDEEP ? vf_fmt("/t%d", t) : host() ? root + vf_fmt("/t%d", t) : Str(); }
  int as() const { static const int M[] = {K_TAR, K_TARRSRC, K_ROM, K_ROMRSRC, K_JAIL, K_TRACE, K_FAT, K_JAIL, K_JAIL, K_ROTATE, K_TRACE, K_DEEP, K_JAIL}; return M[kind]; }
  Stack *view(int t) const { Stack *s = new Stack(as(), top(), "tiny", prefix(t), nullptr); s->mounted = true; return s; }
  ~World() { for (const char *n : {"top", "mid", "s2", "s1", "stdio"}) { Evfs *v = evfs_find_vfs(n); if (v) evfs_unregister(v); } if (kind == C_FAT) fatfs_unmount_image(0); evfs_unregister(&base->vfs); if (host()) std::filesystem::remove_all(root); }
};
static bool usable(int k) { return k != S_MOUNT && k != S_UNMOUNT && k != S_CTRL && k != S_SETCWD; }
// ---- separate handles, files and paths: every thread gets its sequential results ----
static void own_case(Rng &r, uint64_t idx) {
  int kind = (int)(idx % C_NKINDS), n = r.range(2, 4), geo = r.range(0, 3); std::vector<std::vector<SOp>> ops((size_t)n); std::vector<std::vector<Str>> want((size_t)n); std::vector<Str> fin((size_t)n); vf_note("%s, %d threads:", CNAMES[kind], n); SOp w; w.k = S_WALK; vf_count((Str("world ") + CNAMES[kind]).c_str());
  { World a(kind, n, geo); for (int t = 0; t < n; t++) { std::unique_ptr<Stack> v(a.view(t)); int m = r.range(4, 20); for (int i = 0; i < m; i++) { SOp o = v->gen(r); if (!usable(o.k) || (o.k == S_GETCWD && a.host())) { o.k = S_STAT; } if (kind == C_FAT && o.k == S_SEEK) { o.b = EVFS_SEEK_REV; o.a = labs(o.a); } /* a seek past the end leaves undefined data */ ops[(size_t)t].push_back(o); want[(size_t)t].push_back(v->run(o)); vf_note("t%d %s", t, o.show().c_str()); } v->close_all(); fin[(size_t)t] = v->run(w); } if (a.host()) { for (auto &x : ops) for (auto &o : x) for (Str *p : {&o.p, &o.q}) if (p->compare(0, a.root.size(), a.root) == 0) *p = "@" + p->substr(a.root.size()); } }
  if (vf_case_failed()) return; if (vf_want_sample()) vf_sample(vf_trace());
  World b(kind, n, geo); for (auto &x : ops) for (auto &o : x) for (Str *p : {&o.p, &o.q}) if (!p->empty() && (*p)[0] == '@') *p = b.root + p->substr(1); std::vector<std::unique_ptr<Stack>> v; std::vector<size_t> len; for (int t = 0; t < n; t++) { v.emplace_back(b.view(t)); len.push_back(ops[(size_t)t].size()); }
  auto ev = together(len, r.next(), [&](size_t t, size_t k) { return v[t]->run(ops[t][k]); }, [&](size_t t) { v[t]->close_all(); });
  for (size_t t = 0; t < ev.size(); t++) { for (size_t k = 0; k < ev[t].size(); k++) { Str got = ev[t][k].res, exp = want[t][k]; if (b.host()) for (Str *p : {&got, &exp}) for (size_t i = 0; (i = p->find("/w", i)) != Str::npos; i++) if (i + 2 < p->size() && isdigit((unsigned char)(*p)[i + 2])) { p->erase(i, 3); i = (size_t)-1; } vf_count((Str("op_") + SNAMES[ops[t][k].k]).c_str()); VF_CHECK(got == exp, "conc:result", "%s: thread %zu: %s returned %s, alone %s", CNAMES[kind], t, ops[t][k].show().c_str(), vf_q(got, 120).c_str(), vf_q(exp, 120).c_str()); }
    Str f = v[t]->run(w); VF_CHECK(f == fin[t], "conc:final", "%s: thread %zu leaves %s, alone %s", CNAMES[kind], t, vf_q(f).c_str(), vf_q(fin[t]).c_str()); }
}
// ---- one working directory shared by the threads ----
struct COp { int k; Str p; Str show() const { static const char *N[] = {"set_cur_dir", "get_cur_dir", "stat", "open", "absolute", "absolute in place", "list", "rename"}; return vf_fmt("%s(%s)", N[k], p.c_str()); } };
static Str cwd_run(const char *top, const COp &o) {
  switch (o.k) {
    case 0: return vf_fmt("%d", evfs_set_cur_dir_ex(o.p.c_str(), top) == EVFS_OK); case 1: { char b[EVFS_MAX_PATH]; StringRange g = RANGE_FROM_ARRAY(b); int rv = evfs_get_cur_dir_ex(&g, top); return rv == EVFS_OK ? Str(b) : Str(ev_err(rv)); }
    case 2: { EvfsInfo i; memset(&i, 0, sizeof i); int rv = evfs_stat_ex(o.p.c_str(), &i, top); return rv == EVFS_OK ? vf_fmt("%d %ld", i.type & EVFS_FILE_DIR, (i.type & EVFS_FILE_DIR) ? 0L : (long)i.size) : Str("none"); } case 3: { EvfsFile *f = nullptr; int rv = evfs_open_ex(o.p.c_str(), &f, EVFS_READ, top); if (rv != EVFS_OK) return "none"; long s = (long)evfs_file_size(f); evfs_file_close(f); return vf_fmt("%ld", s); }
    case 4: { char b[EVFS_MAX_PATH]; StringRange g = RANGE_FROM_ARRAY(b); int rv = evfs_path_absolute_ex(o.p.c_str(), &g, top); return rv == EVFS_OK ? Str(b) : Str(ev_err(rv)); } case 5: { char b[EVFS_MAX_PATH]; strcpy(b, o.p.c_str()); StringRange g = RANGE_FROM_ARRAY(b); int rv = evfs_path_absolute_ex(b, &g, top); return rv == EVFS_OK ? Str(b) : Str(ev_err(rv)); }
    case 7: return vf_fmt("%d", evfs_rename_ex(o.p.c_str(), "ren/ed", top)); // the base reports a fingerprint of the two paths it was given
    default: { EvfsDir *d = nullptr; int rv = evfs_open_dir_ex(o.p.c_str(), &d, top); if (rv != EVFS_OK) return "none"; Str s; EvfsInfo i; std::vector<Str> v; while ((rv = evfs_dir_read(d, &i)) == EVFS_OK) v.push_back(i.name); evfs_dir_close(d); std::sort(v.begin(), v.end()); for (auto &x : v) s += x + ";"; return s; }
  }
}
struct CwdSpec : Spec { const char *top; Str init; const std::vector<std::vector<COp>> &ops; std::map<Str, std::pair<Str, Str>> memo; bool lost = false; CwdSpec(const char *t, const Str &i, const std::vector<std::vector<COp>> &o) : top(t), init(i), ops(o) {} Str initial() override { return init; }
  void apply(const Str &state, size_t th, size_t k, Str &res, Str &next) override { const COp &o = ops[th][k]; Str key = state + "\n" + o.show(); auto i = memo.find(key); if (i == memo.end()) { COp set{0, state}, get{1, ""}; cwd_run(top, set); if (cwd_run(top, get) != state) lost = true; Str a = cwd_run(top, o), b = cwd_run(top, get); i = memo.emplace(key, std::make_pair(a, b)).first; } res = i->second.first; next = i->second.second; } };
static void cwd_case(Rng &r, uint64_t idx) {
  static const int KS[] = {C_TAR, C_TARRSRC, C_ROM, C_ROMRSRC, C_JAIL, C_FAT, C_TJAIL}; static const char *P[] = {"d", "d/sub", "..", "../..", "nest", "nest/deep", "deep", "sub", ".", "/", "/d", "/nest/deep", "/d/sub", "/empty", "q", "x", "z", "b.txt", "../x", "../d", "missing", "/nest/missing", "../nest/deep/z"}; int kind = KS[idx % 7], n = r.range(2, 4); World w(kind, 1); const char *top = w.top(); Str home = w.prefix(0);
  std::vector<std::vector<COp>> ops((size_t)n); std::vector<size_t> len; for (int t = 0; t < n; t++) { int m = r.range(2, n == 2 ? 6 : 4); for (int i = 0; i < m; i++) { COp o; o.k = (int)r.below(14); o.k = o.k < 6 ? 0 : o.k < 8 ? 1 : o.k - 6; if (o.k > 6) o.k = 4 + (int)r.below(2); o.p = P[r.below(sizeof P / sizeof *P)]; if (!o.p.empty() && o.p[0] == '/') o.p = home + o.p; if (o.k == 6 && (kind == C_TAR || kind == C_TARRSRC)) o.k = 2; if ((kind == C_JAIL || kind == C_TJAIL) && o.k >= 2 && r.chance(1, 4)) o.k = 7; ops[(size_t)t].push_back(o); vf_note("t%d %s", t, o.show().c_str()); } len.push_back((size_t)m); }
  COp set{0, home + P[r.below(14)]}; if (set.p[0] != '/') set.p = home + "/" + set.p; cwd_run(top, set); COp get{1, ""}; Str init = cwd_run(top, get); if (vf_want_sample()) vf_sample(Str(CNAMES[kind]) + " from " + init + ": " + vf_trace()); vf_count((Str("cwd ") + CNAMES[kind]).c_str());
  auto ev = together(len, r.next(), [&](size_t t, size_t k) { return cwd_run(top, ops[t][k]); }); CwdSpec sp(top, init, ops); linearize(ev, sp, "conc:cwd", [&](size_t t, size_t k) { return Str(CNAMES[kind]) + " " + ops[t][k].show(); }); VF_CHECK(!sp.lost, "conc:cwd-state", "%s: the working directory cannot be set to what get_cur_dir reports", CNAMES[kind]);
}
// ---- the registry ----
struct RObj { Evfs v; Str name; int id; }; static int r_open(Evfs *, const char *, EvfsFile *, int) { return EVFS_ERR_NO_FILE; } static int r_stat(Evfs *v, const char *, EvfsInfo *i) { memset(i, 0, sizeof *i); i->size = ((RObj *)v->fs_data)->id; return EVFS_OK; }
struct ROp { int k, o; bool d; Str n; Str show() const { static const char *N[] = {"register", "unregister", "find", "default", "stat", "register shim"}; return vf_fmt("%s(#%d %s%s)", N[k], o, n.c_str(), d ? " default" : ""); } };
static std::vector<std::unique_ptr<RObj>> s_ro;
static Str reg_run(const ROp &o) { switch (o.k) { case 0: return vf_fmt("%d", evfs_register(&s_ro[(size_t)o.o]->v, o.d)); case 1: return vf_fmt("%d", evfs_unregister(&s_ro[(size_t)o.o]->v)); case 2: { Evfs *v = evfs_find_vfs(o.n.c_str()); return v ? vf_fmt("#%d", ((RObj *)v->fs_data)->id) : Str("none"); } case 3: return evfs_default_vfs_name(); default: { EvfsInfo i; memset(&i, 0, sizeof i); int rv = evfs_stat_ex("/x", &i, o.d ? nullptr : o.n.c_str()); return rv == EVFS_OK ? vf_fmt("%ld", (long)i.size) : Str(ev_err(rv)); } } }
struct RegSpec : Spec { std::vector<ROp> start; const std::vector<std::vector<ROp>> &ops; std::map<Str, Str> memo; RegSpec(const std::vector<ROp> &s, const std::vector<std::vector<ROp>> &o) : start(s), ops(o) {} Str initial() override { return ""; } // the state is the history of changes
  void apply(const Str &state, size_t th, size_t k, Str &res, Str &next) override { Str me(1, (char)(1 + th * 16 + k)), key = state + me; auto i = memo.find(key); if (i == memo.end()) { evfs_unregister_all(); for (auto &o : start) reg_run(o); for (char c : state) reg_run(ops[(size_t)(c - 1) / 16][(size_t)(c - 1) % 16]); i = memo.emplace(key, reg_run(ops[th][k])).first; } res = i->second; next = ops[th][k].k < 2 ? key : state; } };
static void registry_case(Rng &r, uint64_t) {
  int n = r.range(2, 4); static const char *N[] = {"a", "b", "c"}; s_ro.clear(); std::vector<std::vector<ROp>> ops((size_t)n); std::vector<size_t> len; std::vector<ROp> start;
  for (int t = 0; t < n; t++) for (int j = 0; j < 2; j++) { s_ro.emplace_back(new RObj); RObj &o = *s_ro.back(); o.id = t * 2 + j; o.name = r.chance(1, 3) ? vf_fmt("own%d", o.id) : N[r.below(3)]; memset(&o.v, 0, sizeof o.v); o.v.vfs_name = o.name.c_str(); o.v.fs_data = &o; o.v.vfs_file_size = 16; o.v.m_open = r_open; o.v.m_stat = r_stat; }
  for (int j = 0, m = (int)r.below(4); j < m; j++) { ROp o{0, (int)r.below(s_ro.size()), r.chance(1, 2), ""}; start.push_back(o); vf_note("first %s", o.show().c_str()); }
  for (int t = 0; t < n; t++) { int m = r.range(2, n == 2 ? 6 : 4); for (int i = 0; i < m; i++) { ROp o; int k = (int)r.below(12); o.k = k < 4 ? 0 : k < 7 ? 1 : k < 9 ? 2 : k < 10 ? 3 : 4; o.o = t * 2 + (int)r.below(2); o.d = r.chance(1, 2); o.n = s_ro[r.below(s_ro.size())]->name; if (o.k == 4 && !o.d && r.chance(1, 4)) o.n = "nobody"; ops[(size_t)t].push_back(o); vf_note("t%d %s", t, o.show().c_str()); } len.push_back((size_t)m); }
  if (vf_want_sample()) vf_sample(vf_trace()); for (auto &o : start) reg_run(o); auto ev = together(len, r.next(), [&](size_t t, size_t k) { return reg_run(ops[t][k]); }); vf_count("registries"); RegSpec sp(start, ops); linearize(ev, sp, "conc:registry", [&](size_t t, size_t k) { return ops[t][k].show() + " " + s_ro[(size_t)ops[t][k].o]->name; }); evfs_unregister_all();
}
// ---- threads that remove everything while others register ----
struct CObj { Evfs v; Str name; int told = 0, ok = 0, removed = 0; };
static void clear_case(Rng &r, uint64_t) {
  int n = r.range(2, 4); std::vector<std::unique_ptr<CObj>> obj; struct Op { int k, o; bool d; }; std::vector<std::vector<Op>> ops((size_t)n); std::vector<size_t> len; static const char *N[] = {"register", "unregister", "unregister_all", "find", "stat"}; int wipers = r.range(1, n);
  for (int j = 0; j < 2 * n; j++) { obj.emplace_back(new CObj); CObj &o = *obj.back(); o.name = vf_fmt("own%d", j); memset(&o.v, 0, sizeof o.v); o.v.vfs_name = o.name.c_str(); o.v.fs_data = &o; o.v.vfs_file_size = 16; o.v.m_open = r_open; o.v.m_stat = [](Evfs *, const char *, EvfsInfo *i) { memset(i, 0, sizeof *i); return (int)EVFS_OK; }; o.v.m_vfs_ctrl = [](Evfs *v, int cmd, void *) -> int { if (cmd == EVFS_CMD_UNREGISTER) ((CObj *)v->fs_data)->told++; /* told under the library lock */ return EVFS_OK; }; }
  for (int t = 0; t < n; t++) { int m = r.range(2, 12); for (int i = 0; i < m; i++) { Op o; int k = (int)r.below(12); o.k = t < wipers && k < 3 ? 2 : k < 6 ? 0 : k < 8 ? 1 : k < 10 ? 3 : 4; o.o = t * 2 + (int)r.below(2); o.d = r.chance(1, 3); ops[(size_t)t].push_back(o); vf_note("t%d %s(own%d%s)", t, N[o.k], o.o, o.d ? " default" : ""); } len.push_back((size_t)m); }
  if (vf_want_sample()) vf_sample(vf_trace());
  auto ev = together(len, r.next(), [&](size_t t, size_t k) -> Str { const Op &o = ops[t][k]; CObj &x = *obj[(size_t)o.o]; switch (o.k) { case 0: { int rv = evfs_register(&x.v, o.d); if (rv == EVFS_OK) x.ok++; return vf_fmt("%d", rv); } case 1: { int rv = evfs_unregister(&x.v); if (rv == EVFS_OK) x.removed++; return vf_fmt("%d", rv); } case 2: evfs_unregister_all(); return ""; case 3: { Evfs *v = evfs_find_vfs(x.name.c_str()); return v ? v == &x.v ? "own" : "other" : "none"; } default: { EvfsInfo i; int rv = evfs_stat_ex("/x", &i, x.name.c_str()); return vf_fmt("%d", rv); } } });
  for (size_t t = 0; t < ev.size(); t++) for (size_t k = 0; k < ev[t].size(); k++) { const Op &o = ops[t][k]; vf_count((Str("clear_") + N[o.k]).c_str()); if (o.k == 0) VF_CHECK(ev[t][k].res == "0", "conc:clear", "registering own%d returned %s", o.o, ev[t][k].res.c_str()); if (o.k == 3) VF_CHECK(ev[t][k].res != "other", "conc:clear", "own%d was looked up, another object found", o.o); }
  std::vector<bool> left; for (auto &o : obj) left.push_back(evfs_find_vfs(o->name.c_str()) != nullptr); evfs_unregister_all();
  for (size_t j = 0; j < obj.size(); j++) { CObj &o = *obj[j]; VF_CHECK(!evfs_find_vfs(o.name.c_str()), "conc:clear", "%s is found after evfs_unregister_all", o.name.c_str()); VF_CHECK(o.told <= o.ok && o.told >= o.removed && (!o.ok || o.told) && (!left[j] || o.told > o.removed), "conc:clear", "%s: %d registrations, %d removals by name, %s at the end, and told of %d removals", o.name.c_str(), o.ok, o.removed, left[j] ? "registered" : "gone", o.told); }
  vf_count("registries_cleared");
}
// ---- threads that set up and remove file systems of their own ----
static void dyn_case(Rng &r, uint64_t) {
  static const int KS[] = {K_JAIL, K_TRACE, K_ROTATE, K_TAR, K_TARRSRC, K_ROM, K_ROMRSRC}; int n = r.range(2, 4); TinyFs base("tiny"); evfs_register(&base.vfs, true); base.tree("/jail/in"); base.tree(""); const Str &ti = Stack::tar_image(), &ri = Stack::rom_image(); Guarded tm(ti.size()), rm(ri.size()); memcpy(tm.p, ti.data(), ti.size()); memcpy(rm.p, ri.data(), ri.size());
  std::vector<std::vector<SOp>> ops((size_t)n); std::vector<std::vector<Str>> want((size_t)n); std::vector<std::unique_ptr<TinyFs>> bases; std::vector<int> kinds; std::vector<size_t> len; auto make = [&](int t) { int k = kinds[(size_t)t]; Stack *s = new Stack(k, vf_fmt("mine%d", t), k == K_TAR ? "tarbase" : k == K_ROM ? "rombase" : "tiny", "", k == K_TARRSRC ? &tm : k == K_ROMRSRC ? &rm : nullptr, vf_fmt("_%d", t)); s->dflt = t == 1; return s; };
  TinyFs tb("tarbase"), rb("rombase"); tb.put("/img", ti); rb.put("/img", ri); evfs_register(&tb.vfs, false); evfs_register(&rb.vfs, false);
  for (int t = 0; t < n; t++) { kinds.push_back(KS[r.below(7)]); std::unique_ptr<Stack> v(make(t)); int m = r.range(6, 24); for (int i = 0; i < m; i++) { SOp o = v->gen(r); if (v->mounted && !v->handles() && r.chance(1, 5)) { o = SOp(); o.k = S_UNMOUNT; } if (o.k == S_CTRL || (o.k == S_SETCWD && 0)) o.k = S_STAT; ops[(size_t)t].push_back(o); want[(size_t)t].push_back(v->run(o)); vf_note("t%d %s %s", t, KNAMES[kinds[(size_t)t]], o.show().c_str()); } v->close_all(); v->unmount(); len.push_back((size_t)m); }
  if (!vf_case_failed()) { if (vf_want_sample()) vf_sample(vf_trace()); std::vector<std::unique_ptr<Stack>> v; for (int t = 0; t < n; t++) v.emplace_back(make(t)); auto ev = together(len, r.next(), [&](size_t t, size_t k) { return v[t]->run(ops[t][k]); }, [&](size_t t) { v[t]->close_all(); v[t]->unmount(); });
    for (size_t t = 0; t < ev.size(); t++) for (size_t k = 0; k < ev[t].size(); k++) { vf_count((Str("dyn_") + SNAMES[ops[t][k].k]).c_str()); VF_CHECK(ev[t][k].res == want[t][k], "conc:dynamic", "%s: thread %zu: %s returned %s, alone %s", KNAMES[kinds[t]], t, ops[t][k].show().c_str(), vf_q(ev[t][k].res, 120).c_str(), vf_q(want[t][k], 120).c_str()); } }
  evfs_unregister_all();
}
// ---- the same names, by all threads at once: what can be done once is done by exactly one ----
static void race_case(Rng &r, uint64_t idx) {
  static const int KS[] = {C_FAT, C_STDIO, C_SJAIL, C_STRACE}; static const char *N[] = {"create", "make_dir", "delete", "rename", "make_path", "open_or_new", "append", "remove_dir"}; int kind = KS[idx % 4], n = r.range(2, 4), rounds = r.range(3, 10); World w(kind, 1); const char *top = w.top(); Str home = w.prefix(0);
  struct Round { int k; Str p; }; std::vector<Round> rd; static const char *B[] = {"race", "d/race", "nest/deep/race", "Long race name.data"};
  for (int i = 0; i < rounds; i++) { Round x; x.k = (int)r.below(kind == C_FAT ? 5 : 8); if (x.k == 4 && kind == C_FAT && r.chance(1, 2)) x.k = 0; x.p = home + "/" + vf_fmt("%s%d", B[r.below(4)], i); if (x.k == 4) x.p += r.chance(1, 2) ? "/x/y" : "/x"; rd.push_back(x); vf_note("%s %s", N[x.k], x.p.c_str());
    if (x.k == 2 || x.k == 3) { Str c = "content " + x.p; if (ev_write_all(x.p.c_str(), c, top)) abort(); } if (x.k == 7 && evfs_make_dir_ex(x.p.c_str(), top)) abort(); if (x.k == 6 && ev_write_all(x.p.c_str(), "", top)) abort(); }
  auto rec = [](size_t t, size_t j) { return Str(20, (char)('A' + t)) + vf_fmt("%03zu\n", j); }; if (vf_want_sample()) vf_sample(Str(CNAMES[kind]) + ": " + vf_trace()); vf_count((Str("race ") + CNAMES[kind]).c_str());
  auto ev = together(std::vector<size_t>((size_t)n, (size_t)rounds), r.next(), [&](size_t t, size_t k) -> Str { const Round &x = rd[k]; const char *p = x.p.c_str(); EvfsFile *f = nullptr; int rv;
    switch (x.k) {
      case 0: rv = evfs_open_ex(p, &f, EVFS_WRITE | EVFS_NO_EXIST, top); if (rv == EVFS_OK) { Str c = rec(t, 0); ptrdiff_t g = evfs_file_write(f, c.data(), c.size()); rv = evfs_file_close(f); if (g != (ptrdiff_t)c.size()) rv = EVFS_ERR; } return vf_fmt("%d", rv);
      case 1: return vf_fmt("%d", evfs_make_dir_ex(p, top)); case 2: case 7: return vf_fmt("%d", evfs_delete_ex(p, top)); case 3: return vf_fmt("%d", evfs_rename_ex(p, (x.p + vf_fmt("to%zu", t)).c_str(), top)); case 4: return vf_fmt("%d", evfs_make_path_ex(p, top));
      case 5: rv = evfs_open_ex(p, &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, top); if (rv == EVFS_OK) { Str c = rec(t, 0); rv = evfs_file_seek(f, (evfs_off_t)(t * c.size()), EVFS_SEEK_TO); ptrdiff_t g = evfs_file_write(f, c.data(), c.size()); int cl = evfs_file_close(f); if (g != (ptrdiff_t)c.size() || cl) rv = EVFS_ERR; } return vf_fmt("%d", rv);
      default: rv = evfs_open_ex(p, &f, EVFS_WRITE | EVFS_APPEND, top); if (rv == EVFS_OK) { for (size_t j = 0; j < 5 && !rv; j++) { Str c = rec(t, j); if (evfs_file_write(f, c.data(), c.size()) != (ptrdiff_t)c.size()) rv = EVFS_ERR; if (!rv) rv = evfs_file_sync(f); } int cl = evfs_file_close(f); if (!rv) rv = cl; } return vf_fmt("%d", rv);
    } });
  for (size_t k = 0; k < rd.size() && !vf_case_failed(); k++) { const Round &x = rd[k]; vf_count((Str("race_") + N[x.k]).c_str()); vf_eval(); Str all; size_t won = 0, winner = 0; for (size_t t = 0; t < ev.size(); t++) { all += ev[t][k].res + " "; if (ev[t][k].res == "0") { won++; winner = t; } }
    Str who = vf_fmt("%s: %d threads %s %s, results %s:", CNAMES[kind], n, N[x.k], x.p.c_str(), all.c_str()); bool once = x.k < 4 || x.k == 7; VF_CHECK(once ? won == 1 : won == (size_t)n, "conc:race", "%s %zu succeeded", who.c_str(), won); if (vf_case_failed()) break; Str lost = x.k < 2 ? vf_fmt("%d", EVFS_ERR_EXISTS) : vf_fmt("%d", EVFS_ERR_NO_FILE);
    if (once) for (size_t t = 0; t < ev.size(); t++) VF_CHECK(t == winner || ev[t][k].res == lost || (w.host() && ev[t][k].res == vf_fmt("%d", EVFS_ERR)), "conc:race-error", "%s thread %zu lost with another error", who.c_str(), t);
    EvRead g = ev_read_all(x.p.c_str(), top); EvfsInfo i; memset(&i, 0, sizeof i);
    switch (x.k) { case 0: VF_CHECK(g.rv == EVFS_OK && g.data == rec(winner, 0), "conc:race-data", "%s the file holds %s", who.c_str(), vf_q(g.data).c_str()); break;
      case 1: case 4: VF_CHECK(evfs_existing_dir_ex(x.p.c_str(), top), "conc:race-data", "%s there is no directory", who.c_str()); break; case 2: case 7: VF_CHECK(evfs_stat_ex(x.p.c_str(), &i, top) != EVFS_OK, "conc:race-data", "%s it is still there", who.c_str()); break;
      case 3: VF_CHECK(g.rv != EVFS_OK, "conc:race-data", "%s the old name is still there", who.c_str()); for (size_t t = 0; t < ev.size(); t++) { EvRead m = ev_read_all((x.p + vf_fmt("to%zu", t)).c_str(), top); VF_CHECK(t == winner ? m.rv == EVFS_OK && m.data == "content " + x.p : m.rv != EVFS_OK, "conc:race-data", "%s name %zu holds %s", who.c_str(), t, vf_q(m.data).c_str()); } break;
      case 5: { Str e; for (size_t t = 0; t < ev.size(); t++) e += rec(t, 0); VF_CHECK(g.data == e, "conc:race-data", "%s the file holds %s", who.c_str(), vf_q(g.data).c_str()); break; }
      case 6: { std::vector<Str> got; for (size_t a = 0; a < g.data.size(); a += 24) got.push_back(g.data.substr(a, 24)); std::vector<size_t> next(ev.size(), 0); bool ok = got.size() == ev.size() * 5; for (auto &c : got) { size_t t = (size_t)(c[0] - 'A'); if (t >= ev.size() || c != rec(t, next[t]++)) { ok = false; break; } } VF_CHECK(ok, "conc:race-data", "%s the file holds %s", who.c_str(), vf_q(g.data, 400).c_str()); break; } } }
}
void vf_setup() {
#ifdef CONC_MON
  vflock::yield_hook = t_pause;
#endif
  setenv("TZ", "UTC0", 1); { time_t t = 0; mktime(localtime(&t)); } // with TZ set the C library reads the time zone once, before the threads start (its own lock is invisible to TSan)
  vf_drop_privs(); umask(022); evfs_init(); vf_suite("own", 1300, 200000, own_case); vf_suite("cwd", 2800, 400000, cwd_case); vf_suite("registry", 2500, 400000, registry_case); vf_suite("race", 1200, 200000, race_case); vf_suite("clear", 1500, 200000, clear_case); vf_suite("dyn", 1000, 150000, dyn_case);
}
