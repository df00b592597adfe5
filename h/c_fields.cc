// C34: the members of EvfsInfo a file system declares are valid, all others are 0.
#include "stack.h"
struct FNode { bool dir; Str data; long mtime = -1; bool container = false; };
static const unsigned ALLF = EVFS_INFO_NAME | EVFS_INFO_SIZE | EVFS_INFO_MTIME | EVFS_INFO_TYPE;
static void poison(EvfsInfo &i, Rng &r) { memset(&i, (int)r.range(1, 255), sizeof i); }
struct Fields {
  Stack &s; std::map<Str, FNode> m; unsigned sf = 0, df = 0; bool dots = false;
  explicit Fields(Stack &st) : s(st) { bool cont = rotates(); for (auto d : SDIRS) m[d] = {true, ""}; for (auto &x : STREE) m[x.path] = {cont, s_content(x), -1, cont}; }
  Str full(const Str &p) { return (s.kind == K_STDIO || s.kind == K_ROTATE ? s.root : Str()) + "/" + p; }
  Str below(const Str &p) { return (s.kind == K_JAIL || s.kind == K_DEEP ? Str("/jail/in") : s.kind == K_ROTATE ? s.root : Str()) + "/" + p; }
  bool rotates() const { return s.kind == K_ROTATE || s.kind == K_DEEP; } // a new file is a container: a directory to everything but open
  // the modification times of everything, set where the data are
  void times(Rng &r) {
    for (auto &x : m) { if (!r.chance(1, 2)) continue; long t = r.chance(1, 8) ? (long)r.below(4) - 1 : r.chance(1, 6) ? 0x7fffffffL + (long)r.below(5) : r.chance(1, 8) ? -(long)r.below(1000000000) : (long)r.below(2000000000);
      if (s.kind == K_STDIO) { struct timespec ts[2] = {{t, 0}, {t, (long)r.below(1000000000)}}; if (utimensat(AT_FDCWD, full(x.first).c_str(), ts, 0)) continue; x.second.mtime = t; vf_count("times"); }
      else if (s.kind == K_MEM || s.kind == K_JAIL || s.kind == K_TRACE || s.kind == K_ROTATE || s.kind == K_DEEP) { auto n = s.base->at(below(x.first)); if (!n) abort(); n->mtime = (time_t)t; x.second.mtime = t; vf_count("times"); } }
  }
  void masks(Rng &r) {
    for (int k = 0; k < 2; k++) { unsigned v[2] = {(unsigned)r.next(), 0x5a5a5a5au}; int rv = evfs_vfs_ctrl_ex(k ? EVFS_CMD_GET_DIR_FIELDS : EVFS_CMD_GET_STAT_FIELDS, v, s.top.c_str()); vf_eval(); VF_CHECK(rv == EVFS_OK && v[1] == 0x5a5a5a5au, "fields:query", "the query of the %s fields returned %s", k ? "directory" : "stat", ev_err(rv)); VF_CHECK(!(v[0] & ~ALLF), "fields:mask", "the %s fields are 0x%x", k ? "directory" : "stat", v[0]); (k ? df : sf) = v[0]; }
    VF_CHECK((sf & EVFS_INFO_SIZE) && (sf & EVFS_INFO_TYPE), "fields:minimum", "the stat fields 0x%x lack the size or the type", sf); vf_count("masks");
  }
  void check(const char *what, const EvfsInfo &i, unsigned mask, const Str &q, const Str &name, const FNode *n, bool sized) {
    vf_eval(); vf_seen(vf_hash(vf_fmt("%s %s %d %u %d %ld", KNAMES[s.kind], what, n ? n->dir : 2, mask, (int)i.type, (long)i.size)));
    if (mask & EVFS_INFO_NAME) { VF_CHECK(i.name && name == i.name, "fields:name", "%s %s: the name is %s, not %s", what, vf_q(q).c_str(), i.name ? vf_q(i.name).c_str() : "NULL", vf_q(name).c_str()); vf_count("names"); } else VF_CHECK(!i.name, "fields:undeclared-name", "%s %s: the name is not declared but %p", what, vf_q(q).c_str(), (void *)i.name);
    if (mask & EVFS_INFO_TYPE) { if (n) VF_CHECK(!!(i.type & EVFS_FILE_DIR) == n->dir && !(i.type & ~EVFS_FILE_DIR), "fields:type", "%s %s: the type is 0x%x of a %s", what, vf_q(q).c_str(), i.type, n->dir ? "directory" : "file"); vf_count("types"); } else VF_CHECK(i.type == 0, "fields:undeclared-type", "%s %s: the type is not declared but 0x%x", what, vf_q(q).c_str(), i.type);
    if (mask & EVFS_INFO_SIZE) { if (sized && n && !n->dir) { VF_CHECK((size_t)i.size == n->data.size(), "fields:size", "%s %s: the size is %ld, not %zu", what, vf_q(q).c_str(), (long)i.size, n->data.size()); vf_count("sizes"); } } else VF_CHECK(i.size == 0, "fields:undeclared-size", "%s %s: the size is not declared but %ld", what, vf_q(q).c_str(), (long)i.size);
    if (mask & EVFS_INFO_MTIME) { if (n && n->mtime != -1) { VF_CHECK((long)i.mtime == n->mtime, "fields:mtime", "%s %s: the modification time is %ld, not %ld", what, vf_q(q).c_str(), (long)i.mtime, n->mtime); vf_count("mtimes"); } } else { VF_CHECK(i.mtime == 0, "fields:undeclared-mtime", "%s %s: the modification time is not declared but %ld", what, vf_q(q).c_str(), (long)i.mtime); vf_count("no_mtimes"); }
  }
  Str cwd; // "" is the root of the tree
  Str spell(const Str &p, Rng &r) { Str q = full(p); if (p.empty()) return q; if (!cwd.empty() && p.compare(0, cwd.size() + 1, cwd + "/") == 0 && r.chance(2, 3)) { q = p.substr(cwd.size() + 1); vf_count("relative"); } if (r.chance(1, 8)) { size_t i = q.rfind('/'); q.insert(i == Str::npos ? 0 : i + 1, r.chance(1, 2) ? "./" : i == Str::npos ? "./" : "/"); } return q; }
  void stat_one(Rng &r) {
    bool gone = r.chance(1, 12); auto it = m.begin(); std::advance(it, (long)r.below(m.size())); Str p = it->first; if (gone) p += ".gone"; Str q = spell(p, r); EvfsInfo i; poison(i, r); int rv = evfs_stat_ex(q.c_str(), &i, s.top.c_str()); vf_note("stat %s -> %d", vf_q(q).c_str(), rv); vf_count("stats");
    if (gone) { VF_CHECK(rv != EVFS_OK, "fields:absent", "stat %s succeeded", vf_q(q).c_str()); return; } VF_CHECK(rv == EVFS_OK, "fields:stat", "stat %s returned %s", vf_q(q).c_str(), ev_err(rv)); if (rv != EVFS_OK) return; size_t b = p.rfind('/'); check("stat", i, sf, q, b == Str::npos ? p : p.substr(b + 1), &it->second, true);
  }
  void list_one(Rng &r) {
    std::vector<Str> ds = {""}; for (auto &x : m) if (x.second.dir && !x.second.container) ds.push_back(x.first); Str p = r.pick(ds), q = spell(p, r); if (s.kind == K_STDIO || s.kind == K_FAT || s.kind == K_ROM || s.kind == K_ROMRSRC) { unsigned off[2] = {(unsigned)r.below(2), 0}; dots = !off[0]; int rv = evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, off, s.top.c_str()); if (rv != EVFS_OK) dots = true; }
    EvfsDir *d = nullptr; int rv = evfs_open_dir_ex(q.c_str(), &d, s.top.c_str()); if (s.kind == K_TAR || s.kind == K_TARRSRC) { if (rv == EVFS_OK) VF_CHECK(false, "fields:tar-dir", "%s opened as a directory", vf_q(q).c_str()); else VF_CHECK(df == 0, "fields:no-listing", "directories cannot be opened but the fields 0x%x are declared for them", df); vf_count("no_listings"); return; }
    VF_CHECK(rv == EVFS_OK, "fields:open-dir", "%s: %s", vf_q(q).c_str(), ev_err(rv)); if (rv != EVFS_OK) return; VF_CHECK((df & EVFS_INFO_NAME) && (df & EVFS_INFO_TYPE), "fields:minimum", "the directory fields 0x%x lack the name or the type", df);
    bool find = r.chance(1, 3); std::set<Str> seen; vf_note("list %s", vf_q(q).c_str()); vf_count("listings"); for (int round = 0; round < (r.chance(1, 4) ? 2 : 1); round++) { if (round) { seen.clear(); evfs_dir_rewind(d); }
      for (int n = 0; n < 200; n++) { EvfsInfo i; poison(i, r); rv = find ? evfs_dir_find(d, "*", &i) : evfs_dir_read(d, &i); if (rv != EVFS_OK) { VF_CHECK(rv == EVFS_DONE, "fields:read", "%s: %s", vf_q(q).c_str(), ev_err(rv)); if (find) VF_CHECK(!i.name && !i.type, "fields:find-end", "%s: at the end of a search there are a name or a type", vf_q(q).c_str()); break; } if (!i.name) { VF_CHECK(false, "fields:null", "%s: an entry without a name", vf_q(q).c_str()); break; } Str nm = i.name; bool dot = nm == "." || nm == ".."; if (dot) { FNode dn{true, "", -1}; check("dir_read", i, df, q, nm, &dn, false); vf_count("dots"); continue; } Str c = p.empty() ? nm : p + "/" + nm; auto it = m.find(c); if (it == m.end()) { if (s.kind == K_MEM && p.empty()) continue; VF_CHECK(false, "fields:stranger", "%s lists %s", vf_q(q).c_str(), vf_q(nm).c_str()); break; } seen.insert(c); check("dir_read", i, df, q + "/" + nm, nm, &it->second, true); vf_count("entries"); } 
      if (rv == EVFS_DONE) for (auto &x : m) { size_t b = x.first.rfind('/'); Str par = b == Str::npos ? "" : x.first.substr(0, b); if (par == p) VF_CHECK(seen.count(x.first), "fields:missing", "%s does not list %s", vf_q(q).c_str(), vf_q(x.first).c_str()); } }
    evfs_dir_close(d);
  }
  void touched(const Str &p) { size_t b = p.rfind('/'); if (b != Str::npos) m[p.substr(0, b)].mtime = -1; }
  void change(Rng &r) {
    if (k_readonly(s.kind)) return; static const char *N[] = {"n1", "n2.dat", "d/n3", "nest/deep/n4", "empty/n5", "d/sub/n6"}; Str p = N[r.below(6)], q = full(p); touched(p); auto it = m.find(p);
    if (it != m.end() && r.chance(1, 3)) { int rv = evfs_delete_ex(q.c_str(), s.top.c_str()); VF_CHECK(rv == EVFS_OK, "fields:delete", "%s: %s", vf_q(q).c_str(), ev_err(rv)); m.erase(p); vf_count("deletes"); return; }
    if (it == m.end() && r.chance(1, 4)) { int rv = evfs_make_dir_ex(q.c_str(), s.top.c_str()); VF_CHECK(rv == EVFS_OK, "fields:make_dir", "%s: %s", vf_q(q).c_str(), ev_err(rv)); m[p] = {true, ""}; vf_count("make_dirs"); return; }
    if (it != m.end() && it->second.dir && !it->second.container) return; Str d = r.bytes(r.chance(1, 4) ? r.below(6000) : r.below(600)); int rv = ev_write_all(q.c_str(), d, s.top.c_str()); VF_CHECK(rv == EVFS_OK, "fields:write", "%s: %s", vf_q(q).c_str(), ev_err(rv)); m[p] = {rotates(), d, -1, rotates()}; vf_count("writes");
  }
};
static void fields_case(Rng &r, uint64_t n) {
  int k = (int)(n % K_COUNT); Stack s(k, "_f"); s.dflt = r.chance(1, 2); vf_note("%s", KNAMES[k]); if (s.mount()) abort(); vf_count((Str("kind_") + KNAMES[k]).c_str()); Fields f(s); f.masks(r); int steps = r.range(20, 60);
  for (int t = 0; t < steps && !vf_case_failed(); t++) { switch (r.below(8)) { case 0: f.change(r); break; case 1: f.times(r); break; case 2: f.masks(r); break; case 3: { Str c = r.chance(1, 3) ? Str() : Str(SDIRS[r.below(4)]); if (evfs_set_cur_dir_ex(f.full(c).c_str(), s.top.c_str()) == EVFS_OK) f.cwd = c; break; } case 4: case 5: f.stat_one(r); break; default: f.list_one(r); } }
  if (vf_want_sample()) vf_sample(vf_trace());
}
void vf_setup() { vf_drop_privs(); umask(022); evfs_init(); vf_suite("fields", 6000, 600000, fields_case); }
