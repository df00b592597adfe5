// C17: the VFS registry against a model of it.
#include "memfs.h"
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
}
static RotateConfig rc = {1000, 4};
static int s_noinit = 0; static bool s_noinit_found = false;
struct Obj { Evfs v; Str name; int id; long calls = 0, unreg = 0, want_unreg = 0; bool listed = false, notified_listed = false; Str last; bool minimal = false; };
static std::vector<std::unique_ptr<Obj>> s_obj;
static Obj *of(Evfs *v) { return (Obj *)v->fs_data; }
#define HIT(n) (of(v)->calls++, of(v)->last = n)
static int o_open(Evfs *v, const char *, EvfsFile *, int) { HIT("open"); return EVFS_ERR_NO_FILE; }
static int o_stat(Evfs *v, const char *, EvfsInfo *i) { HIT("stat"); memset(i, 0, sizeof *i); i->type = EVFS_FILE_DIR; i->size = of(v)->id; return EVFS_OK; }
static int o_delete(Evfs *v, const char *) { HIT("delete"); return of(v)->id; }
static int o_rename(Evfs *v, const char *, const char *) { HIT("rename"); return of(v)->id; }
static int o_mkdir(Evfs *v, const char *) { HIT("make_dir"); return of(v)->id; }
static int o_opendir(Evfs *v, const char *, EvfsDir *) { HIT("open_dir"); return EVFS_ERR_NO_PATH; }
static int o_getcwd(Evfs *v, StringRange *) { HIT("get_cur_dir"); return of(v)->id; }
static int o_setcwd(Evfs *v, const char *) { HIT("set_cur_dir"); return of(v)->id; }
static int o_ctrl(Evfs *v, int cmd, void *) { if (cmd == EVFS_CMD_UNREGISTER) { of(v)->unreg++; return EVFS_OK; } HIT("ctrl"); return of(v)->id; }
static bool o_root(Evfs *v, const char *p, StringRange *r) { HIT("root"); size_t n = *p == '/'; range_init(r, (char *)p, n); return n > 0; }
static int nosink(const char *, void *) { return 0; }

struct Entry { Str name; Obj *o; Evfs *v; int base; }; // registered, oldest first; base: index of the name a shim sits on
static void reg_case(Rng &r, uint64_t) {
  s_obj.clear(); std::vector<Entry> reg; Str dflt; // dflt: name of the default
  static const char *N[] = {"a", "b", "ab", "", "A", "a very long name for a file system that goes on", "b"}; int nobj = r.range(1, 8);
  for (int i = 0; i < nobj; i++) {
    s_obj.emplace_back(new Obj); Obj &o = *s_obj.back(); o.name = N[r.below(7)]; o.id = i + 1; memset(&o.v, 0, sizeof o.v); o.v.vfs_name = o.name.c_str(); o.v.vfs_file_size = 32; o.v.vfs_dir_size = 32; o.v.fs_data = &o; o.v.m_open = o_open; o.v.m_stat = o_stat; o.v.m_vfs_ctrl = o_ctrl; o.minimal = r.chance(1, 4);
    if (!o.minimal) { o.v.m_delete = o_delete; o.v.m_rename = o_rename; o.v.m_make_dir = o_mkdir; o.v.m_open_dir = o_opendir; o.v.m_get_cur_dir = o_getcwd; o.v.m_set_cur_dir = o_setcwd; o.v.m_path_root_component = o_root; }
    o.v.next = (Evfs *)(intptr_t)(r.chance(1, 2) ? 0 : 0); }
  auto find = [&](const Str &n) -> int { for (size_t i = 0; i < reg.size(); i++) if (reg[i].name == n) return (int)i; return -1; };
  auto any_other = [&](const Str &gone, const char *what) { // the default was demoted or removed: another registered one takes over
    if (reg.empty()) { dflt = ""; return; } Str now = evfs_default_vfs_name(); int k = find(now); VF_CHECK(k >= 0, "reg:default-unregistered", "after %s of %s the default is %s, which is not registered", what, vf_q(gone).c_str(), vf_q(now).c_str()); if (reg.size() > 1 || gone != (reg.empty() ? Str() : reg[0].name)) VF_CHECK(now != gone || (reg.size() == 1 && reg[0].name == gone), "reg:default-kept", "%s is still the default after its %s", vf_q(gone).c_str(), what); dflt = now; };
  int steps = r.range(3, 60); Str alien = "nobody"; static long made = 0;
  for (int s = 0; s < steps && !vf_case_failed(); s++) {
    int k = (int)r.below(24); Obj &o = *r.pick(s_obj);
    if (k < 8) {
      bool def = r.chance(1, 2); vf_note("register #%d %s %d", o.id, vf_q(o.name).c_str(), def); bool first = reg.empty(); int at = find(o.name); int rv = evfs_register(&o.v, def); vf_count("registers");
      VF_CHECK(rv == EVFS_OK, "reg:register", "registering %s returned %s", vf_q(o.name).c_str(), ev_err(rv));
      if (at < 0) { reg.push_back({o.name, &o, &o.v, -1}); o.listed = true; if (first || def) dflt = o.name; } else { vf_count("re_registers"); if (reg[(size_t)at].o != &o) vf_count("shared_names"); if (def) dflt = o.name; else if (dflt == o.name) { if (reg.size() > 1) any_other(o.name, "demotion"); vf_count("demotions"); } }
    } else if (k < 10 && reg.size() < 8) { // dynamic shims, each with a name of its own or one in use
      Str n = r.chance(1, 3) && !reg.empty() ? r.pick(reg).name : vf_fmt("shim%ld", made++ % 5), b = r.chance(1, 6) ? alien : reg.empty() ? alien : r.pick(reg).name; int kind = (int)r.below(3); bool def = r.chance(1, 2); int at = find(n), bi = find(b); if (at >= 0 && bi == at) continue;
      vf_note("shim %d %s over %s", kind, vf_q(n).c_str(), vf_q(b).c_str()); bool first = reg.empty(); int rv = kind == 0 ? evfs_register_jail(n.c_str(), b.c_str(), "/", def) : kind == 1 ? evfs_register_trace(n.c_str(), b.c_str(), nosink, nullptr, def) : evfs_register_rotate(n.c_str(), b.c_str(), &rc, def); vf_count("shims");
      if (bi < 0) VF_CHECK(rv < 0, "reg:shim-nobase", "a shim over the unregistered %s was registered", vf_q(b).c_str()); else if (at >= 0) VF_CHECK(kind == 2 ? rv != EVFS_OK : rv == EVFS_ERR_EXISTS, "reg:shim-exists", "a shim with the used name %s: %s", vf_q(n).c_str(), ev_err(rv)); else if (kind != 0) VF_CHECK(rv == EVFS_OK, "reg:shim", "shim kind %d %s over %s: %s", kind, vf_q(n).c_str(), vf_q(b).c_str(), ev_err(rv));
      if (rv == EVFS_OK) { reg.push_back({n, nullptr, evfs_find_vfs(n.c_str()), bi}); if (first || def) dflt = n; }
    } else if (k < 15) { // remove
      if (r.chance(1, 6)) { VF_CHECK(evfs_unregister(nullptr) < 0, "reg:unregister-null", "removing NULL succeeded"); continue; }
      Evfs *v; Str n; int at = -1; if (r.chance(1, 2) && !reg.empty()) { at = (int)r.below(reg.size()); v = reg[(size_t)at].v; n = reg[(size_t)at].name; } else { v = &o.v; n = o.name; for (size_t i = 0; i < reg.size(); i++) if (reg[i].v == v) at = (int)i; }
      bool used = false; for (auto &e : reg) if (at >= 0 && e.base == at) used = true; if (used) continue; // a shim still needs it
      vf_note("unregister %s%s", vf_q(n).c_str(), at < 0 ? " (not registered)" : ""); int rv = evfs_unregister(v); vf_count("unregisters"); VF_CHECK(at >= 0 ? rv == EVFS_OK : rv == EVFS_ERR_NO_VFS, "reg:unregister", "removing %s (%sregistered) returned %s", vf_q(n).c_str(), at < 0 ? "not " : "", ev_err(rv)); if (at < 0) { vf_count("unregister_absent"); continue; }
      Obj *ob = reg[(size_t)at].o; if (ob) { ob->want_unreg++; ob->listed = false; } reg.erase(reg.begin() + at); for (auto &e : reg) if (e.base > at) e.base--; if (dflt == n) any_other(n, "removal");
    } else if (k == 15 && r.chance(1, 3)) { vf_note("unregister_all"); evfs_unregister_all(); for (auto &e : reg) if (e.o) { e.o->want_unreg++; e.o->listed = false; } reg.clear(); dflt = ""; vf_count("unregister_alls"); }
    else { // operations reach the object the name stands for
      bool null = r.chance(1, 4); Str n = null ? Str() : reg.empty() ? o.name : r.pick(reg).name; int at = null ? find(dflt) : find(n); if (null && reg.empty()) at = -1; if (at >= 0 && !reg[(size_t)at].o) continue; // shims forward
      Obj *t = at < 0 ? nullptr : reg[(size_t)at].o; if (!null && at < 0 && !reg.empty()) continue; std::vector<long> before; for (auto &x : s_obj) before.push_back(x->calls); if (t) t->last = ""; const char *vn = null ? nullptr : n.c_str(); int rv = 0, want = t ? t->id : EVFS_ERR_NO_VFS, wcalls = 1; const char *wname = ""; EvfsInfo inf; char b[20]; StringRange g = RANGE_FROM_ARRAY(b); EvfsFile *f = nullptr; EvfsDir *d = nullptr;
      int op = (int)r.below(9); switch (op) {
      case 0: rv = evfs_open_ex("/x", &f, EVFS_READ, vn); wname = "open"; if (t) want = EVFS_ERR_NO_FILE; VF_CHECK(!f, "reg:handle", "a failed open left a handle"); break;
      case 1: rv = evfs_stat_ex("/x", &inf, vn); wname = "stat"; if (t && rv == EVFS_OK) { want = EVFS_OK; VF_CHECK(inf.size == t->id, "reg:stat", "stat answered by another object"); } break;
      case 2: rv = evfs_delete_ex("/x", vn); wname = "delete"; break; case 3: rv = evfs_rename_ex("/x", "/y", vn); wname = "rename"; break; case 4: rv = evfs_make_dir_ex("/x", vn); wname = "make_dir"; break;
      case 5: rv = evfs_open_dir_ex("/x", &d, vn); wname = "open_dir"; if (t) want = EVFS_ERR_NO_PATH; VF_CHECK(!d, "reg:handle", "a failed open_dir left a handle"); break; case 6: rv = evfs_get_cur_dir_ex(&g, vn); wname = "get_cur_dir"; break; case 7: rv = evfs_set_cur_dir_ex("/x", vn); wname = "set_cur_dir"; break;
      default: rv = evfs_vfs_ctrl_ex(1000, b, vn); wname = "ctrl"; break; }
      if (t && t->minimal && op >= 2 && op <= 7) { want = EVFS_ERR_NO_SUPPORT; wcalls = 0; vf_count("defaults_used"); } if (!t) wcalls = 0;
      VF_CHECK(rv == want, "reg:operation", "%s on %s returned %d, expected %d", wname, null ? "the default" : vf_q(n).c_str(), rv, want); for (size_t i = 0; i < s_obj.size(); i++) VF_CHECK(s_obj[i]->calls - before[i] == (s_obj[i].get() == t ? wcalls : 0), "reg:dispatch", "%s on %s reached object %d %ld times", wname, null ? "the default" : vf_q(n).c_str(), s_obj[i]->id, s_obj[i]->calls - before[i]); if (t && wcalls) VF_CHECK(t->last == wname, "reg:method", "%s called %s", wname, t->last.c_str());
      vf_count(t ? "operations" : "operations_without_vfs");
      if (!t && r.chance(1, 3)) { StringRange q; char pb[50]; StringRange pr = RANGE_FROM_ARRAY(pb); VF_CHECK(evfs_path_normalize_ex("/a/../b", &pr, vn) < 0 && evfs_path_absolute_ex("x", &pr, vn) < 0 && evfs_path_dirname_ex("a/b", &q, vn) < 0 && evfs_path_join_str_ex("a", "b", &pr, vn) < 0 && evfs_make_path_ex("/a/b", vn) < 0 && !evfs_path_is_absolute_ex("/a", vn) && !evfs_path_root_component_ex("/a", &q, vn) && !evfs_existing_dir_ex("/", vn) && !evfs_existing_file_ex("/", vn), "reg:no-vfs", "a path operation succeeded without a VFS"); }
    }
    // the whole registry
    for (auto &x : s_obj) { VF_CHECK(x->unreg == x->want_unreg, "reg:notify", "object %d (%s) was notified %ld times of %ld removals", x->id, vf_q(x->name).c_str(), x->unreg, x->want_unreg); Evfs *v = evfs_find_vfs(x->name.c_str()); int at = find(x->name); VF_CHECK(v == (at < 0 ? nullptr : reg[(size_t)at].v), "reg:find", "%s resolves to %s", vf_q(x->name).c_str(), !v ? "nothing" : at < 0 ? "an object although it is not registered" : "another object than the first registered"); }
    for (auto &e : reg) { Evfs *v = evfs_find_vfs(e.name.c_str()); VF_CHECK(v == e.v && v && e.name == evfs_vfs_name(v), "reg:find", "%s does not resolve to its object", vf_q(e.name).c_str()); }
    VF_CHECK(!evfs_find_vfs(alien.c_str()) && !evfs_find_vfs("a very long name for a file system that goes o") && !evfs_find_vfs(nullptr), "reg:find-absent", "a name nobody registered resolves"); Str now = evfs_default_vfs_name(); VF_CHECK(now == dflt, "reg:default", "the default is %s, expected %s (%zu registered)", vf_q(now).c_str(), vf_q(dflt).c_str(), reg.size());
    Str sig = dflt; for (auto &e : reg) sig += "|" + e.name + vf_fmt("%d", e.o ? e.o->id : 0); vf_seen(vf_hash(sig));
  }
  evfs_unregister_all(); for (auto &e : reg) if (e.o) e.o->want_unreg++; for (auto &x : s_obj) VF_CHECK(x->unreg == x->want_unreg, "reg:notify", "object %d was notified %ld times of %ld removals", x->id, x->unreg, x->want_unreg); VF_CHECK(Str(evfs_default_vfs_name()) == "", "reg:default-empty", "there is a default although nothing is registered");
  VF_CHECK(s_noinit < 0 && !s_noinit_found, "reg:init", "registering before evfs_init returned %s", ev_err(s_noinit)); Obj bad; memset(&bad.v, 0, sizeof bad.v); VF_CHECK(evfs_register(&bad.v, true) < 0 && evfs_register(nullptr, true) < 0, "reg:bad-argument", "an object without a name was registered");
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 300));
}
// the stdio object of the library itself
static void stdio_case(Rng &r, uint64_t) {
  MemFs a("a"), b("b"); std::vector<Str> order; Str dflt; bool have = false; int steps = r.range(3, 20);
  for (int i = 0; i < steps && !vf_case_failed(); i++) { int k = (int)r.below(4); bool def = r.chance(1, 2);
    if (k < 2) { int rv = evfs_register_stdio(def); VF_CHECK(rv == EVFS_OK, "reg:stdio", "%s", ev_err(rv)); bool first = order.empty(); if (!have) { have = true; order.push_back("stdio"); if (first || def) dflt = "stdio"; } else if (def) dflt = "stdio"; else if (dflt == "stdio" && order.size() > 1) { dflt = evfs_default_vfs_name(); VF_CHECK(dflt != "stdio", "reg:stdio-demote", "stdio stays the default"); } vf_count("stdio_registers"); }
    else if (k == 2) { MemFs &m = r.chance(1, 2) ? a : b; if (evfs_find_vfs(m.name.c_str())) continue; bool first = order.empty(); m.reg(def); order.push_back(m.name); if (first || def) dflt = m.name; }
    else if (have) { int rv = evfs_unregister(evfs_find_vfs("stdio")); VF_CHECK(rv == EVFS_OK && !evfs_find_vfs("stdio"), "reg:stdio-remove", "%s", ev_err(rv)); have = false; for (size_t j = 0; j < order.size(); j++) if (order[j] == "stdio") order.erase(order.begin() + (long)j); if (dflt == "stdio") dflt = order.empty() ? "" : evfs_default_vfs_name(); bool ok = order.empty(); for (auto &x : order) if (x == dflt) ok = true; VF_CHECK(ok, "reg:stdio-default", "the default %s is not registered", dflt.c_str()); }
    VF_CHECK(dflt == evfs_default_vfs_name(), "reg:stdio-default", "the default is %s, expected %s", evfs_default_vfs_name(), dflt.c_str()); vf_seen(vf_hash(vf_fmt("%s %zu %d", dflt.c_str(), order.size(), have)));
  }
  evfs_unregister_all();
}
void vf_setup() {
  static Evfs early; early.vfs_name = "early"; early.m_open = o_open; early.m_stat = o_stat; s_noinit = evfs_register(&early, true);
  vf_drop_privs(); evfs_init(); s_noinit_found = evfs_find_vfs("early") != nullptr;
  vf_suite("registry", 60000, 3000000, reg_case); vf_suite("registry_stdio", 5000, 100000, stdio_case);
}
