// Every kind of VFS and shim in one shape: a fixed tree of files, a generic operation set with printable results, and
// mounting and unmounting as operations of their own. Used by the fault, lifecycle and concurrency monitors.
#ifndef STACK_H
#define STACK_H
#include "images.h"
#include <filesystem>
#include <atomic>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_rotate.h"
#include "ff.h"
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
}
enum StackKind { K_MEM, K_STDIO, K_JAIL, K_TRACE, K_ROTATE, K_TAR, K_TARRSRC, K_ROM, K_ROMRSRC, K_FAT, K_DEEP, K_COUNT };
static const char *KNAMES[] = {"mem", "stdio", "jail", "trace", "rotate", "tar", "tar_rsrc", "romfs", "romfs_rsrc", "fat", "deep"};
inline bool k_readonly(int k) { return k >= K_TAR && k <= K_ROMRSRC; }
inline bool k_onmem(int k) { return k != K_STDIO && k != K_TARRSRC && k != K_ROMRSRC; }
struct SFile { const char *path; size_t size; };
static const SFile STREE[] = {{"a", 0}, {"b.txt", 700}, {"d/x", 1500}, {"d/y.log", 3}, {"nest/deep/z", 4100}, {"d/sub/q", 512}};
static const char *SDIRS[] = {"d", "nest", "nest/deep", "d/sub", "empty"};
inline Str s_content(const SFile &f) { Rng r(vf_hash(Str(f.path))); return r.bytes(f.size); }
enum SOpKind { S_MOUNT, S_UNMOUNT, S_OPEN, S_CLOSE, S_READ, S_WRITE, S_SEEK, S_TRUNC, S_SYNC, S_QUERY, S_PRINTF, S_PUTS, S_COPY, S_FCTRL, S_STAT, S_EXF, S_EXD, S_DELETE, S_RENAME, S_MKDIR, S_MKPATH, S_OPENDIR, S_LIST, S_FIND, S_CLOSEDIR, S_GETCWD, S_SETCWD, S_CTRL, S_NORM, S_ABS, S_JOIN, S_DIRNAME, S_ISABS, S_WALK, S_NOPS };
static const char *SNAMES[] = {"mount", "unmount", "open", "close", "read", "write", "seek", "truncate", "sync", "query", "printf", "puts", "copy", "file_ctrl", "stat", "existing_file", "existing_dir", "delete", "rename", "make_dir", "make_path", "open_dir", "list", "find", "close_dir", "get_cur_dir", "set_cur_dir", "vfs_ctrl", "normalize", "absolute", "join", "dirname", "is_absolute", "walk"};
inline bool s_boolean(int k) { return k == S_EXF || k == S_EXD || k == S_ISABS; }
inline bool s_mutating(int k) { return k == S_WRITE || k == S_TRUNC || k == S_PRINTF || k == S_PUTS || k == S_COPY || k == S_DELETE || k == S_RENAME || k == S_MKDIR || k == S_MKPATH || k == S_SYNC; }
inline bool s_onhandle(int k) { return k == S_READ || k == S_WRITE || k == S_SEEK || k == S_TRUNC || k == S_SYNC || k == S_QUERY || k == S_PRINTF || k == S_PUTS || k == S_COPY || k == S_FCTRL; }
struct SOp { int k = 0, slot = 0; long a = 0, b = 0; Str p, q, data; Str show() const { return vf_fmt("%s#%d(%ld,%ld,%s%s%s)", SNAMES[k], slot, a, b, vf_q(p, 60).c_str(), q.empty() ? "" : ",", q.empty() ? "" : vf_q(q, 60).c_str()); } };
static std::atomic<long> s_trace_lines(0);
inline int s_trace_sink(const char *, void *) { s_trace_lines.fetch_add(1, std::memory_order_relaxed); return 0; }
struct Stack {
  int kind; Str top, sfx, root, bname, pre; bool view = false; std::unique_ptr<MemFs> base; RotateConfig rc{700, 4}; Str archive; Guarded *mem = nullptr; EvfsFile *img = nullptr; bool mounted = false, half = false; uint8_t drive = 0; std::vector<EvfsFile *> f; std::vector<EvfsDir *> d; int how[3] = {0}; Str where[3]; bool dflt = false, writing = false; int home = -1;
  // images of the fixed tree, made once
  static const Str &tar_image() { static Str s; if (s.empty()) { TarArchive t; for (auto n : SDIRS) { TarMember m; m.name = Str(n) + "/"; m.type = '5'; t.m.push_back(m); } for (auto &x : STREE) { TarMember m; m.name = x.path; m.data = s_content(x); t.m.push_back(m); } Rng r(5); t.build(r); s = t.bytes; } return s; }
  static const Str &rom_image() { static Str s; if (s.empty()) { RomImage t; t.volume = "vol"; t.n.resize(1); t.n[0].type = 1; std::map<Str, int> at; at[""] = 0; auto add = [&](const Str &p, char type, const Str &data) { size_t i = p.rfind('/'); Str dir = i == Str::npos ? "" : p.substr(0, i); RomNode x; x.parent = at[dir]; x.name = i == Str::npos ? p : p.substr(i + 1); x.type = type; x.data = data; t.n.push_back(x); int id = (int)t.n.size() - 1; t.n[(size_t)x.parent].kids.push_back(id); at[p] = id; }; for (auto n : SDIRS) add(n, 1, ""); for (auto &x : STREE) add(x.path, 2, s_content(x)); Rng r(5); t.build(r); s = t.bytes; } return s; }
  static const Str &fat_image() { static Str s; if (s.empty()) { MemFs m("fatmake"); m.reg(true); if (fatfs_make_image("/i", 1, 100000) || fatfs_mount_image("/i", 1) || evfs_register_fatfs("fatmk", 1, false)) abort(); for (auto n : SDIRS) if (evfs_make_dir_ex(n, "fatmk")) abort(); for (auto &x : STREE) if (ev_write_all((Str("/") + x.path).c_str(), s_content(x), "fatmk")) abort(); evfs_unregister(evfs_find_vfs("fatmk")); fatfs_unmount_image(1); s = m.at("/i")->data; evfs_unregister(&m.vfs); } return s; }
  explicit Stack(int k, const Str &suffix = "", uint8_t drv = 0) : kind(k), top("top" + suffix), sfx(suffix), drive(drv), f(3, nullptr), d(2, nullptr) {
    if (k == K_FAT) fat_image(); base.reset(new MemFs("mem" + sfx)); base->reg(true); bname = base->name;
    auto fill = [&](const Str &pre) { for (auto n : SDIRS) base->mkdirs(pre + "/" + n); for (auto &x : STREE) base->put(pre + "/" + x.path, s_content(x)); };
    switch (k) { case K_JAIL: fill("/jail/in"); break; case K_MEM: case K_TRACE: fill(""); break; case K_ROTATE: case K_DEEP: for (auto n : SDIRS) base->mkdirs(Str("/jail/in/") + n); break; case K_TAR: base->put("/img", tar_image()); break; case K_ROM: base->put("/img", rom_image()); break; case K_FAT: base->put("/img", fat_image()); break;
      case K_TARRSRC: case K_ROMRSRC: { const Str &s = k == K_TARRSRC ? tar_image() : rom_image(); mem = new Guarded(s.size()); memcpy(mem->p, s.data(), s.size()); break; }
      case K_STDIO: { root = vf_scratch + "/st" + sfx; std::filesystem::remove_all(root); std::filesystem::create_directories(root); for (auto n : SDIRS) std::filesystem::create_directories(root + "/" + n); for (auto &x : STREE) { FILE *o = fopen((root + "/" + x.path).c_str(), "wb"); Str s = s_content(x); fwrite(s.data(), 1, s.size(), o); fclose(o); } home = open(".", O_RDONLY | O_DIRECTORY); if (chdir(root.c_str())) abort(); break; } }
    if (k == K_STDIO) top = "stdio"; if (k == K_MEM) top = base->name;
    if (k == K_ROTATE || k == K_DEEP) { if (mount()) abort(); Str pre = k == K_ROTATE ? "/jail/in/" : "/"; for (auto &x : STREE) { EvfsFile *o; if (evfs_open_ex((pre + x.path).c_str(), &o, EVFS_WRITE | EVFS_APPEND, top.c_str())) abort(); Str s = s_content(x); if (evfs_file_write(o, s.data(), s.size()) != (ptrdiff_t)s.size()) abort(); evfs_file_close(o); } unmount(); root = k == K_ROTATE ? "/jail/in" : ""; }
  }
  // A view for one thread: handles of its own on something set up elsewhere; paths below 'pre'
  Stack(int k, const Str &topname, const Str &basename, const Str &prefix, Guarded *m, const Str &suffix = "") : kind(k), top(topname), sfx(suffix), bname(basename), pre(prefix), view(true), mem(m), f(3, nullptr), d(2, nullptr) {}
  ~Stack() { if (view) { close_all(); return; } close_all(); unmount(); if (home >= 0) { if (fchdir(home)) abort(); close(home); std::filesystem::remove_all(root); } evfs_unregister(&base->vfs); base.reset(); delete mem; }
  void close_all() { for (auto &x : f) if (x) { evfs_file_close(x); x = nullptr; } for (auto &x : d) if (x) { evfs_dir_close(x); x = nullptr; } }
  bool handles() const { for (auto x : f) if (x) return true; for (auto x : d) if (x) return true; return false; }
  Str unreg(const char *n) { Evfs *v = evfs_find_vfs(n); return v ? ev_err(evfs_unregister(v)) : "none"; }
  int mount() {
    int rv = EVFS_OK; const char *t = top.c_str(), *m = bname.c_str(); Str s1 = "shim1" + sfx, s2 = "shim2" + sfx;
    switch (kind) {
      case K_MEM: break; case K_STDIO: { rv = evfs_register_stdio(dflt); unsigned off[8] = {0}; if (rv == EVFS_OK) evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, off, t); break; } /* a static object keeps its options */ case K_JAIL: rv = evfs_register_jail(t, m, "/jail/in", dflt); break; case K_TRACE: rv = evfs_register_trace(t, m, s_trace_sink, nullptr, dflt); break; case K_ROTATE: rv = evfs_register_rotate(t, m, &rc, dflt); break;
      case K_TAR: case K_ROM: { EvfsFile *i = nullptr; rv = evfs_open_ex("/img", &i, EVFS_READ, m); if (rv == EVFS_OK) { rv = kind == K_TAR ? evfs_register_tar_fs(t, i, dflt) : evfs_register_romfs(t, i, dflt); if (rv != EVFS_OK) evfs_file_close(i); } break; }
      case K_TARRSRC: rv = evfs_register_tar_rsrc_fs(t, (uint8_t *)mem->p, mem->n, dflt); break; case K_ROMRSRC: rv = evfs_register_rsrc_romfs(t, (uint8_t *)mem->p, mem->n, dflt); break;
      case K_FAT: { evfs_register(&base->vfs, true); rv = fatfs_mount_image("/img", drive); if (rv == EVFS_OK) { rv = evfs_register_fatfs(t, drive, dflt); if (rv != EVFS_OK) fatfs_unmount_image(drive); } break; }
      case K_DEEP: rv = evfs_register_rotate(s1.c_str(), m, &rc, false); if (rv == EVFS_OK) { rv = evfs_register_trace(s2.c_str(), s1.c_str(), s_trace_sink, nullptr, false); if (rv == EVFS_OK) { rv = evfs_register_jail(t, s2.c_str(), "/jail/in", dflt); if (rv != EVFS_OK) unreg(s2.c_str()); } if (rv != EVFS_OK) unreg(s1.c_str()); } break;
    }
    mounted = rv == EVFS_OK; if (!mounted && kind != K_MEM) VF_CHECK(!evfs_find_vfs(t) && !(kind == K_DEEP && (evfs_find_vfs(s1.c_str()) || evfs_find_vfs(s2.c_str()))), "stack:half-registered", "a failed registration left %s registered", t); return rv;
  }
  Str unmount() { if (!mounted) return "not mounted"; mounted = false; Str s; if (kind != K_MEM) s = unreg(top.c_str()); if (kind == K_DEEP) { s += unreg(("shim2" + sfx).c_str()); s += unreg(("shim1" + sfx).c_str()); } if (kind == K_FAT) fatfs_unmount_image(drive); return s; }
  Str st(long rv, const Str &payload = "") { return rv < 0 ? vf_fmt("E%ld", rv) : vf_fmt("%ld", rv) + (payload.empty() ? "" : ":" + payload); }
  Str listing(EvfsDir *h, const char *pattern, long *err) { int rv = evfs_dir_rewind(h); std::vector<Str> o; *err = rv; if (rv < 0) return ""; EvfsInfo i; int n = 0; while (n++ < 500) { memset(&i, 0, sizeof i); rv = pattern ? evfs_dir_find(h, pattern, &i) : evfs_dir_read(h, &i); if (rv != EVFS_OK) break; bool dots = i.name && (!strcmp(i.name, ".") || !strcmp(i.name, "..")); o.push_back(Str(i.name ? i.name : "(null)") + (dots ? "" : vf_fmt("|%d|%ld", i.type & EVFS_FILE_DIR, (i.type & EVFS_FILE_DIR) ? 0L : (long)i.size))); } *err = rv == EVFS_DONE ? 0 : rv == EVFS_OK ? -99 : rv; std::sort(o.begin(), o.end()); Str s; for (auto &x : o) s += x + ";"; return s; }
  bool walk_on = false; // files that cannot be read are part of the result
  void walk(const Str &p, Str &out, long &err, int depth) {
    EvfsDir *h = nullptr; int rv = evfs_open_dir_ex(p.empty() ? (kind == K_STDIO ? root.c_str() : "/") : p.c_str(), &h, top.c_str()); if (rv) { err = rv; vf_note("walk %s: %d", p.c_str(), rv); return; } std::vector<std::pair<Str, bool>> kids; EvfsInfo i; int n = 0; while (n++ < 500 && (rv = evfs_dir_read(h, &i)) == EVFS_OK) if (strcmp(i.name, ".") && strcmp(i.name, "..")) kids.push_back({i.name, i.type & EVFS_FILE_DIR}); if (rv != EVFS_DONE) err = rv; if ((rv = evfs_dir_close(h)) < 0) err = rv; std::sort(kids.begin(), kids.end());
    for (auto &k : kids) { Str q = p + "/" + k.first; out += !pre.empty() ? q.substr(pre.size()) : kind == K_STDIO ? q.substr(root.size()) : q; bool dir = k.second; if (dir && (kind == K_ROTATE || kind == K_DEEP)) { EvfsDir *c = nullptr; int cr = evfs_open_dir_ex(q.c_str(), &c, top.c_str()); if (cr == EVFS_OK) evfs_dir_close(c); else if (cr == EVFS_ERR_NO_PATH) dir = false; /* containers are listed as directories */ } if (dir) out += "/;"; if (dir) { if (depth < 12) walk(q, out, err, depth + 1); } else { EvRead e = ev_read_all(q.c_str(), top.c_str()); if (e.rv < 0) { if (walk_on) { out += "=unreadable;"; continue; } err = e.rv; vf_note("walk %s: %d", q.c_str(), e.rv); } out += vf_fmt("=%zu:%016lx;", e.data.size(), (unsigned long)vf_hash(e.data)); } }
  }
  // FatFs and rotate containers do not support a file opened more than once, or removed while it is open
  bool single() const { return kind == K_FAT || kind == K_ROTATE || kind == K_DEEP; }
  bool supported(const SOp &o) { if (!single() || !handles()) return true; if (o.k == S_OPEN) { bool any = false; for (auto x : f) any |= x != nullptr; return !any || (!writing && o.a == EVFS_READ); } if (kind != K_FAT && s_onhandle(o.k) && s_mutating(o.k)) { int n = 0; for (auto x : f) n += x != nullptr; return n < 2; } /* a rotate handle writes whatever it was opened for */ return o.k != S_DELETE && o.k != S_RENAME; }
  bool applicable(const SOp &o) { if (o.k == S_MOUNT) return !mounted; if (o.k == S_UNMOUNT) return mounted && !handles(); if (!mounted) return false; if (o.k == S_OPEN) return !f[(size_t)o.slot]; if (o.k == S_CLOSE || s_onhandle(o.k)) return f[(size_t)o.slot] != nullptr; if (o.k == S_OPENDIR) return !d[(size_t)o.slot]; if (o.k == S_LIST || o.k == S_FIND || o.k == S_CLOSEDIR) return d[(size_t)o.slot] != nullptr; return true; }
  Str run(const SOp &o) {
    const char *v = top.c_str(), *p = o.p.c_str(), *q = o.q.c_str(); EvfsFile *h = s_onhandle(o.k) || o.k == S_CLOSE ? f[(size_t)o.slot] : nullptr; long rv; EvfsInfo inf; memset(&inf, 0, sizeof inf);
    switch (o.k) {
      case S_MOUNT: return st(mount()); case S_UNMOUNT: return unmount();
      case S_OPEN: { EvfsFile *n = (EvfsFile *)(intptr_t)1; rv = evfs_open_ex(p, &n, (int)o.a, v); if (rv == EVFS_OK) { f[(size_t)o.slot] = n; writing = o.a != EVFS_READ; how[o.slot] = (int)o.a; } else VF_CHECK(!n || n == (EvfsFile *)(intptr_t)1, "stack:open-handle", "a failed open left a handle"); return st(rv); }
      case S_CLOSE: f[(size_t)o.slot] = nullptr; return st(evfs_file_close(h));
      case S_READ: { Guarded b((size_t)o.a); rv = evfs_file_read(h, b.p, (size_t)o.a); VF_CHECK(rv <= o.a && b.intact(), "stack:read-overrun", "a read of %ld returned %ld", o.a, rv); return st(rv, rv > 0 && rv <= o.a ? Str(b.p, (size_t)rv) : ""); }
      case S_WRITE: return st(evfs_file_write(h, o.data.data(), o.data.size())); case S_SEEK: return st(evfs_file_seek(h, (evfs_off_t)o.a, (EvfsSeekDir)o.b)); case S_TRUNC: return st(evfs_file_truncate(h, (evfs_off_t)o.a)); case S_SYNC: return st(evfs_file_sync(h));
      case S_QUERY: { long a = o.a != 1 ? evfs_file_tell(h) : 0, b = o.a != 0 ? evfs_file_size(h) : 0; bool e = o.a == 2 ? evfs_file_eof(h) : false; return a < 0 || b < 0 ? vf_fmt("E%ld", a < 0 ? a : b) : vf_fmt("%ld %ld %d", a, b, e); }
      case S_PRINTF: return st(evfs_file_printf(h, "%s-%ld-%s\n", q, o.a, o.data.c_str())); case S_PUTS: return st(evfs_file_puts(h, o.data.c_str()));
      case S_COPY: { std::vector<char> buf((size_t)std::max(1l, o.a)); return st(evfs_copy_to_file_ex(p, h, o.b ? buf.data() : nullptr, (size_t)o.a, v)); }
      case S_FCTRL: { alignas(16) unsigned x[8] = {0}; return st(evfs_file_ctrl(h, (int)o.a, x)); }
      case S_STAT: rv = evfs_stat_ex(p, &inf, v); return st(rv, vf_fmt("%d %ld", inf.type & EVFS_FILE_DIR, (inf.type & EVFS_FILE_DIR) ? 0L : (long)inf.size)); case S_EXF: return st(evfs_existing_file_ex(p, v)); case S_EXD: return st(evfs_existing_dir_ex(p, v));
      case S_DELETE: return st(evfs_delete_ex(p, v)); case S_RENAME: return st(evfs_rename_ex(p, q, v)); case S_MKDIR: return st(evfs_make_dir_ex(p, v)); case S_MKPATH: { if (o.a) { StringRange g; range_init(&g, p, o.p.size()); return st(evfs_make_path_range_ex(&g, v)); } return st(evfs_make_path_ex(p, v)); }
      case S_OPENDIR: { EvfsDir *n = (EvfsDir *)(intptr_t)1; rv = evfs_open_dir_ex(p, &n, v); if (rv == EVFS_OK) d[(size_t)o.slot] = n; else VF_CHECK(!n || n == (EvfsDir *)(intptr_t)1, "stack:open-handle", "a failed open_dir left a handle"); return st(rv); }
      case S_LIST: case S_FIND: { long e = 0; Str l = listing(d[(size_t)o.slot], o.k == S_FIND ? q : nullptr, &e); return st(e, l); } case S_CLOSEDIR: { EvfsDir *n = d[(size_t)o.slot]; d[(size_t)o.slot] = nullptr; return st(evfs_dir_close(n)); }
      case S_GETCWD: case S_NORM: case S_ABS: case S_JOIN: { Guarded b((size_t)o.a); StringRange g; range_init(&g, b.p, (size_t)o.a); rv = o.k == S_GETCWD ? evfs_get_cur_dir_ex(&g, v) : o.k == S_NORM ? evfs_path_normalize_ex(p, &g, v) : o.k == S_ABS ? evfs_path_absolute_ex(p, &g, v) : evfs_path_join_str_ex(p, q, &g, v); VF_CHECK(b.intact(), "stack:path-overrun", "%s wrote outside its range", SNAMES[o.k]); return st(rv, rv >= 0 ? Str(g.start, strnlen(g.start, (size_t)(g.end - g.start))) : ""); }
      case S_SETCWD: return st(evfs_set_cur_dir_ex(p, v)); case S_CTRL: { unsigned x[8] = {(unsigned)o.b}; rv = evfs_vfs_ctrl_ex((int)o.a, x, v); return st(rv, vf_fmt("%u", x[0])); }
      case S_DIRNAME: { StringRange g; rv = evfs_path_dirname_ex(p, &g, v); return st(rv, rv >= 0 ? Str(g.start, (size_t)range_size(&g)) : ""); } case S_ISABS: return st(evfs_path_is_absolute_ex(p, v));
      case S_WALK: { Str out; long err = 0; if (kind == K_TAR || kind == K_TARRSRC) for (auto &x : STREE) { EvRead e = ev_read_all(x.path, top.c_str()); if (e.rv < 0) err = e.rv; out += vf_fmt("%s=%zu:%016lx;", x.path, e.data.size(), (unsigned long)vf_hash(e.data)); } else walk(!pre.empty() ? pre : kind == K_STDIO || kind == K_ROTATE ? root : "", out, err, 0); return err < 0 ? vf_fmt("E%ld", err) : out; }
    }
    return "?";
  }
  void locate(const SOp &o) { char a[EVFS_MAX_PATH]; StringRange g = RANGE_FROM_ARRAY(a); if (evfs_path_absolute_ex(o.p.c_str(), &g, top.c_str()) >= 0) { where[o.slot] = a; if (where[o.slot].size() > 1 && where[o.slot][1] == (char)58) where[o.slot].erase(0, 2); } }
  // FatFs refuses a file handle after a disk error until the file is opened again
  int reopen(int slot) { int fl = how[slot] & ~(EVFS_OVERWRITE | EVFS_NO_EXIST); evfs_file_close(f[(size_t)slot]); f[(size_t)slot] = nullptr; return evfs_open_ex(where[slot].c_str(), &f[(size_t)slot], fl, top.c_str()); }
  // random operations over the fixed tree
  Str path(Rng &r) {
    static const char *MORE[] = {"new1", "d/new2", "nest/n/e/w", "missing/x", "empty/f", "empty"}; Str n; int k = (int)r.below(10); n = k < 4 ? STREE[r.below(6)].path : k < 6 ? SDIRS[r.below(5)] : MORE[r.below(6)]; if (r.chance(1, 10)) n += "/.."; if (r.chance(1, 10)) n = "./" + n; if (r.chance(1, 12)) n = "d/../" + n; if (r.chance(1, 20)) n += "/"; if (r.chance(1, 30)) n = "";
    if (!pre.empty()) return pre + "/" + n; return r.chance(1, 4) && !view ? n : (kind == K_STDIO || kind == K_ROTATE ? root : Str()) + "/" + n;
  }
  SOp gen(Rng &r) {
    SOp o; static const int W[] = {S_OPEN, S_OPEN, S_OPEN, S_OPEN, S_CLOSE, S_READ, S_READ, S_READ, S_WRITE, S_WRITE, S_SEEK, S_TRUNC, S_SYNC, S_QUERY, S_PRINTF, S_PUTS, S_COPY, S_FCTRL, S_STAT, S_STAT, S_EXF, S_EXD, S_DELETE, S_RENAME, S_MKDIR, S_MKPATH, S_OPENDIR, S_OPENDIR, S_LIST, S_LIST, S_FIND, S_CLOSEDIR, S_GETCWD, S_SETCWD, S_CTRL, S_NORM, S_ABS, S_JOIN, S_DIRNAME, S_ISABS, S_UNMOUNT, S_MOUNT};
    for (int tries = 0; tries < 50; tries++) { o = SOp(); o.k = W[r.below(sizeof W / sizeof *W)]; o.slot = (int)r.below(o.k == S_OPENDIR || o.k == S_LIST || o.k == S_FIND || o.k == S_CLOSEDIR ? 2 : 3); if (o.k == S_READ || o.k == S_WRITE || o.k == S_CLOSE || o.k == S_COPY) for (int i = 0; i < 3; i++) if (f[(size_t)((o.slot + i) % 3)]) { o.slot = (o.slot + i) % 3; break; } if (applicable(o)) break; }
    if (!mounted) o.k = S_MOUNT; else if (!applicable(o)) o.k = S_STAT; o.p = path(r);
    switch (o.k) {
      case S_OPEN: { static const int F[] = {EVFS_READ, EVFS_READ, EVFS_READ, EVFS_WRITE, EVFS_RDWR, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST, EVFS_WRITE | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND}; o.a = F[r.below(k_readonly(kind) ? 3 : 10)]; if (k_readonly(kind) && r.chance(1, 12)) o.a = EVFS_RDWR; if (!supported(o)) o.a = EVFS_READ; if (!supported(o)) o.k = S_STAT; break; }
      case S_READ: o.a = r.chance(1, 3) ? (long)r.below(5000) : (long)r.below(300); break; case S_WRITE: case S_PUTS: o.data = o.k == S_PUTS ? Str(r.below(60), 't') : r.bytes(r.chance(1, 4) ? r.below(1500) : r.below(200)); break; case S_SEEK: o.a = (long)r.below(r.chance(1, 3) ? 5000 : 400); o.b = r.pick(std::vector<int>{EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); if (o.b == EVFS_SEEK_REL && r.chance(1, 2)) o.a = -o.a; break;
      case S_TRUNC: o.a = (long)r.below(1200); break; case S_QUERY: o.a = (long)r.below(3); break; case S_PRINTF: o.a = (long)r.below(100000); o.q = "fmt"; o.data = Str(r.chance(1, 3) ? r.below(400) : r.below(20), 'p'); break; case S_COPY: o.a = r.chance(1, 6) ? 0 : 1 + (long)r.below(r.chance(1, 2) ? 2000 : 40); o.b = r.chance(1, 2) && o.a; break; case S_FCTRL: o.a = r.pick(std::vector<int>{EVFS_CMD_UNREGISTER, 12345 << 2}); break;
      case S_RENAME: o.q = path(r); break; case S_MKPATH: o.a = (long)r.below(2); break; case S_FIND: o.q = r.pick(std::vector<Str>{"*", "*.txt", "?", "[a-d]*", "zzz"}); break; case S_GETCWD: case S_NORM: case S_ABS: case S_JOIN: o.a = r.chance(1, 5) ? (long)r.below(20) : EVFS_MAX_PATH; o.q = r.chance(1, 4) ? "" : "tail/../t"; break;
      case S_OPENDIR: if (r.chance(2, 3)) o.p = (!pre.empty() ? pre : kind == K_STDIO || kind == K_ROTATE ? root : Str()) + "/" + (r.chance(1, 4) ? "" : SDIRS[r.below(5)]); break; case S_SETCWD: if (r.chance(1, 2)) o.p = (kind == K_STDIO || kind == K_ROTATE ? root : Str()) + "/" + SDIRS[r.below(5)]; break;
      case S_CTRL: switch (r.below(3)) { case 0: o.a = EVFS_CMD_SET_NO_DIR_DOTS; o.b = (long)r.below(2); break; case 1: o.a = EVFS_CMD_GET_STAT_FIELDS; break; default: o.a = EVFS_CMD_GET_DIR_FIELDS; } break;
    }
    if (!supported(o)) o.k = S_EXF; return o;
  }
};
#endif
