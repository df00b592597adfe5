// C27: every allocation, handle and lock taken by a lifecycle operation is given back by its counterpart, and by nothing else.
#include "stack.h"
struct Acct { long live = 0, files = 0, dirs = 0, fds = 0, locks = 0; bool operator==(const Acct &o) const { return live == o.live && files == o.files && dirs == o.dirs && fds == o.fds && locks == o.locks; } Acct operator-(const Acct &o) const { return {live - o.live, files - o.files, dirs - o.dirs, fds - o.fds, locks - o.locks}; } void add(const Acct &o) { live += o.live; files += o.files; dirs += o.dirs; fds += o.fds; locks += o.locks; } Str show() const { return vf_fmt("%ld allocations, %ld base files, %ld base directories, %ld descriptors, %ld locks", live, files, dirs, fds, locks); } };
static long fd_count() { long n = 0; for (auto &e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; n++; } return n; }
struct World {
  std::vector<std::unique_ptr<Stack>> s; std::vector<Acct> mounted; std::map<EvfsFile *, Acct> fh; std::map<EvfsDir *, Acct> dh; bool host = false;
  Acct now() { Acct a; a.live = vfalloc::live; a.locks = vflock::live(); if (host) a.fds = fd_count(); for (auto &x : s) { a.files += x->base->open_files; a.dirs += x->base->open_dirs; } return a; }
};
// A registration that may or must fail
static int odd_mount(World &w, Rng &r, Str &what, bool &mustfail, Str &name) {
  Stack &s = *w.s[r.below(w.s.size())]; const char *m = s.base->name.c_str(); mustfail = true; name = r.chance(1, 3) ? Str("fresh") : s.mounted ? s.top : s.base->name; bool dup = name != "fresh"; RotateConfig rc{100, 3}; const char *n = name.c_str(); int k = (int)r.below(12); static uint8_t junk[2048]; for (auto &c : junk) c = (uint8_t)r.next(); if (r.chance(1, 2)) memset(junk, 0, r.below(sizeof junk));
  what = vf_fmt("odd registration %d as %s", k, n); vf_count((Str("odd_") + std::to_string(k)).c_str());
  switch (k) {
    case 0: mustfail = dup; return evfs_register_jail(n, m, "/", r.chance(1, 2)); case 1: mustfail = dup; return evfs_register_trace(n, m, s_trace_sink, nullptr, r.chance(1, 2)); case 2: mustfail = dup; return evfs_register_rotate(n, m, &rc, r.chance(1, 2));
    case 3: rc.chunk_size = 0; return evfs_register_rotate(n, m, &rc, false); case 4: rc.max_chunks = r.chance(1, 2) ? 0 : 1; return evfs_register_rotate(n, m, &rc, false); case 5: { Str root = "/" + Str(EVFS_MAX_PATH + r.below(20), 'r'); return evfs_register_jail(n, m, root.c_str(), false); }
    case 6: case 7: { EvfsFile *i = nullptr; Str bytes = k == 6 ? Stack::rom_image() : Stack::tar_image(); bool good = r.chance(1, 3); if (!good) { bytes.resize(r.below(700)); for (auto &c : bytes) if (r.chance(1, 2)) c = (char)r.next(); } s.base->put("/odd", bytes); if (evfs_open_ex("/odd", &i, EVFS_READ, m)) abort(); mustfail = good && dup; int rv = k == 6 ? evfs_register_romfs(n, i, false) : evfs_register_tar_fs(n, i, false); if (rv != EVFS_OK) { VF_CHECK(evfs_file_tell(i) >= 0, "life:image", "%s failed and its image handle is gone", what.c_str()); evfs_file_close(i); } return rv; }
    case 8: mustfail = dup; return evfs_register_tar_rsrc_fs(n, (uint8_t *)Stack::tar_image().data(), Stack::tar_image().size(), false); case 9: mustfail = dup; return evfs_register_rsrc_romfs(n, (uint8_t *)Stack::rom_image().data(), Stack::rom_image().size(), false);
    case 10: { mustfail = false; size_t len = r.below(sizeof junk); return evfs_register_rsrc_romfs(n, junk, len, false); }
    default: switch (r.below(5)) { case 0: return evfs_register_jail(nullptr, m, "/", false); case 1: return evfs_register_jail(n, m, nullptr, false); case 2: return evfs_register_rotate(n, m, nullptr, false); case 3: return evfs_register_romfs(n, nullptr, false); default: return evfs_register_tar_fs(n, nullptr, false); }
  }
}
static void life_case(Rng &r, uint64_t) {
  World w; int n = r.range(1, 3); bool stdio = false; uint8_t drive = 0; for (int i = 0; i < n; i++) { int k = (int)r.below(K_COUNT); if (k == K_STDIO) { if (stdio) k = K_JAIL; stdio = true; } if (k == K_FAT && drive > 1) k = K_TAR; w.s.emplace_back(new Stack(k, "_" + std::to_string(i), k == K_FAT ? drive++ : 0)); w.s.back()->dflt = r.chance(1, 2); w.mounted.push_back(Acct()); vf_note("%s", KNAMES[k]); }
  w.host = stdio; vfalloc::start(); vflock::reset(); Acct zero = w.now(); int steps = r.range(20, 80); std::map<Str, Acct> extra;
  for (int t = 0; t < steps && !vf_case_failed(); t++) {
    Acct a = w.now(); Str what, got; Acct expect = a; bool known = true;
    if (r.chance(1, 8)) {
      bool mustfail; Str name; bool nolock = r.chance(1, 4); if (nolock) vflock::fail_init(1 + (long)r.below(2)); int rv = odd_mount(w, r, what, mustfail, name); if (vflock::init_failed()) { what += " with a lock that cannot be initialised"; mustfail = true; vf_count("lock_failures"); } vf_note("%s", what.c_str()); got = ev_err(rv); VF_CHECK(!(mustfail && rv == EVFS_OK), "life:accepted", "%s succeeded", what.c_str());
      if (rv == EVFS_OK) { VF_CHECK(evfs_find_vfs(name.c_str()), "life:not-found", "%s succeeded but is not registered", what.c_str()); vf_count("odd_ok"); int u = evfs_unregister(evfs_find_vfs(name.c_str())); VF_CHECK(u == EVFS_OK, "life:unregister", "%s could not be unregistered: %s", what.c_str(), ev_err(u)); } else { vf_count("refused"); if (name == "fresh") VF_CHECK(!evfs_find_vfs("fresh"), "life:half", "%s failed but is registered", what.c_str()); }
    } else if (r.chance(1, 25)) { what = "unregister of an unregistered object"; Evfs v; memset(&v, 0, sizeof v); v.vfs_name = "nobody"; int rv = evfs_unregister(&v); got = ev_err(rv); vf_count("unregister_unknown"); VF_CHECK(rv != EVFS_OK, "life:unknown", "%s succeeded", what.c_str()); }
    else {
      size_t at = r.below(w.s.size()); Stack &s = *w.s[at]; if (s.kind == K_FAT && s.mounted == false) evfs_register(&s.base->vfs, true); SOp o = s.gen(r); what = Str(KNAMES[s.kind]) + ": " + o.show(); vf_note("%zu %s", at, o.show().c_str()); a = expect = w.now(); EvfsFile *of = o.k == S_CLOSE ? s.f[(size_t)o.slot] : nullptr; EvfsDir *od = o.k == S_CLOSEDIR ? s.d[(size_t)o.slot] : nullptr; bool was = s.mounted; int disturb = r.chance(1, 6) ? r.range(1, 2) : o.k == S_MOUNT && r.chance(1, 3) ? 3 : 0; long k = 1 + (long)r.below(r.chance(1, 2) ? 3 : 12); s.base->fault_hit = false; if (disturb == 1) vfalloc::arm(k); else if (disturb == 2) s.base->arm(k, EVFS_ERR_IO, r.chance(1, 3), r.chance(1, 3) ? 100 : 1); else if (disturb == 3) vflock::fail_init(1 + k % 3);
      got = s.run(o); bool nolock = vflock::init_failed(); bool hit = disturb == 1 ? vfalloc::failed : disturb == 2 && s.base->fault_hit; vfalloc::disarm(); s.base->disarm(); if (disturb && hit) { what += disturb == 1 ? vf_fmt(" with allocation %ld failing", k) : vf_fmt(" with a fault of the VFS below from operation %ld", k); vf_count(disturb == 1 ? "alloc_failures" : "base_faults"); } if (nolock) { what += " with a lock that cannot be initialised"; vf_count("lock_failures"); } bool err = got.size() > 1 && got[0] == 'E' && got[1] == '-'; Acct b = w.now(); vf_count((Str("op_") + SNAMES[o.k]).c_str()); VF_CHECK(!nolock || err, "life:lock-failure", "%s succeeded", what.c_str()); if (err) vf_count((Str("failed_") + SNAMES[o.k]).c_str());
      if (o.k == S_OPEN && !err) { w.fh[s.f[(size_t)o.slot]] = b - a; known = false; VF_CHECK((b - a).live >= 1, "life:open", "%s took %s", what.c_str(), (b - a).show().c_str()); }
      else if (o.k == S_OPENDIR && !err) { w.dh[s.d[(size_t)o.slot]] = b - a; known = false; }
      else if (o.k == S_MOUNT && !err && !was) { w.mounted[at] = b - a; known = false; }
      else if ((s.kind == K_ROTATE || s.kind == K_DEEP) && s_onhandle(o.k)) { /* the current chunk stays open */ Acct &d = w.fh[s.f[(size_t)o.slot]]; d.add(b - a); known = false; VF_CHECK(d.files >= 0 && d.files <= 1 && d.dirs == 0 && d.live <= 5, "life:handle", "%s -> %s: the handle now holds %s", what.c_str(), got.c_str(), d.show().c_str()); }
      else if (o.k == S_CLOSE) { Acct d = w.fh[of]; expect = a - d; w.fh.erase(of); } else if (o.k == S_CLOSEDIR) { Acct d = w.dh[od]; expect = a - d; w.dh.erase(od); } else if (o.k == S_UNMOUNT && was) { expect = a - w.mounted[at]; VF_CHECK(!evfs_find_vfs(s.top.c_str()) || s.kind == K_MEM, "life:still", "%s is registered after its unregistration", s.top.c_str()); }
    }
    vf_eval(); Acct b = w.now(); VF_CHECK(vflock::held() == 0, "life:lock", "%s -> %s: a lock is still held", what.c_str(), got.c_str()); if (known) { VF_CHECK(b == expect, "life:balance", "%s -> %s: there are %s, expected %s (%s)", what.c_str(), vf_q(got, 60).c_str(), b.show().c_str(), expect.show().c_str(), vfalloc::describe_live().c_str()); vf_count("balanced"); } vf_seen(vf_hash(what.substr(0, what.find('(')) + got.substr(0, 4)));
  }
  if (vf_want_sample()) vf_sample(vf_trace());
  for (auto &x : w.s) x->close_all(); Acct m = w.now(); Acct left = zero; for (size_t i = 0; i < w.s.size(); i++) if (w.s[i]->mounted) left.add(w.mounted[i]); if (!vf_case_failed()) VF_CHECK(m == left, "life:closed", "after closing every handle there are %s, expected %s", m.show().c_str(), left.show().c_str());
  for (auto &x : w.s) x->unmount(); Acct end = w.now(); if (!vf_case_failed()) VF_CHECK(end == zero, "life:end", "after unregistering everything there are %s: %s", end.show().c_str(), vfalloc::describe_live().c_str()); vfalloc::stop(); vf_count("histories");
  for (auto &x : w.s) x.reset();
}
void vf_setup() { vf_drop_privs(); umask(022); evfs_init(); vf_suite("life", 10000, 1500000, life_case); }
