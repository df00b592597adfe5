// C16: read-only file systems never modify the storage below (stdio, directly and through shims; tar and romfs).
#include "diff.h"
#include "images.h"
#include <filesystem>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
}
namespace fs = std::filesystem;
static int nosink(const char *, void *) { return 0; }
static Str hread(const Str &p) { Str o; int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return "(unreadable)"; char b[8192]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) o.append(b, (size_t)n); ::close(fd); return o; }
static void hwrite(const Str &p, const Str &d) { int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return; ssize_t n = ::write(fd, d.data(), d.size()); (void)n; ::close(fd); }
static Str tree(const Str &dir) { // everything on the host below dir: names, kinds, modes, sizes, modification times, contents
  std::set<Str> o; for (auto &e : fs::recursive_directory_iterator(dir)) { struct stat st; if (lstat(e.path().c_str(), &st)) continue; Str p = e.path().string().substr(dir.size()); o.insert(vf_fmt("%s %o %ld %ld.%ld ", vf_q(p).c_str(), st.st_mode, S_ISDIR(st.st_mode) ? 0l : (long)st.st_size, (long)st.st_mtim.tv_sec, (long)st.st_mtim.tv_nsec) + (S_ISREG(st.st_mode) ? hread(e.path().string()) : "")); }
  Str s; for (auto &x : o) s += x + "\n"; return s;
}
static bool mutates(const DOp &o) { return o.kind == D_WRITE || o.kind == D_TRUNC || o.kind == D_DELETE || o.kind == D_RENAME || o.kind == D_MKDIR; }
static Str client(Rng &r) { static const char *N[] = {"f", "g.txt", "dir", "dir/h", "dir/sub", "dir/sub/i", "new", "dir/new", "dir/empty", "..", ".", "dir/../f", "nodir/x"}; Str p = N[r.below(13)]; return p; }

static void stdio_case(Rng &r, uint64_t) {
  Str dir = vf_scratch + "/ro"; std::error_code ec; fs::remove_all(dir, ec); fs::create_directories(dir + "/dir/sub"); fs::create_directories(dir + "/dir/empty"); hwrite(dir + "/f", "hello world"); hwrite(dir + "/g.txt", Str(5000, 'g')); hwrite(dir + "/dir/h", r.bytes(r.below(3000))); hwrite(dir + "/dir/sub/i", "");
  evfs_register_stdio(true); int layer = (int)r.below(5); Str v = "stdio", pre = dir + "/";
  if (layer == 1 || layer == 3) { evfs_register_jail("jail", "stdio", dir.c_str(), false); v = "jail"; pre = "/"; }
  if (layer == 2 || layer == 3) { evfs_register_trace("tr", v.c_str(), nosink, nullptr, false); v = "tr"; }
  if (layer < 4) vf_count(layer == 0 ? "direct" : "layered"); bool rel = layer == 4; if (rel) { evfs_set_cur_dir_ex(dir.c_str(), "stdio"); pre = ""; vf_count("relative"); }
  Side s(v); bool ro = false; Str before; int steps = r.range(20, 120); bool written = false;
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    if (r.chance(1, 12)) {
      for (auto &f : s.f) if (f) evfs_file_sync(f);
      if (ro) { Str after = tree(dir); VF_CHECK(before == after, "ro-stdio:changed", "the tree changed while the file system was read-only:\n%s\nbecame\n%s", vf_q(before, 1500).c_str(), vf_q(after, 1500).c_str()); if (vf_case_failed()) break; }
      else before = tree(dir);
      ro = !ro; unsigned on = ro ? r.pick(std::vector<unsigned>{1, 2, 256, 0x80000000u}) : 0; Str cv = r.chance(1, 2) ? v : "stdio"; int rv = evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, cv.c_str()); VF_CHECK(rv == EVFS_OK, "ro-stdio:set", "SET_READONLY returned %s", ev_err(rv)); vf_note("%s", ro ? "readonly" : "writable"); vf_count(ro ? "set" : "cleared");
      if (!ro) { Str p = pre + vf_fmt("again%d", i); rv = ev_write_all(p.c_str(), "again", v.c_str()); Str got = hread(dir + vf_fmt("/again%d", i)); VF_CHECK(rv == EVFS_OK && got == "again", "ro-stdio:restore", "writing after the setting was cleared returned %s, the host file holds %s", ev_err(rv), vf_q(got).c_str()); vf_count("restored"); fs::remove(dir + vf_fmt("/again%d", i), ec); }
      continue;
    }
    if (ro && r.chance(1, 6)) { // reading stays possible
      const char *n = r.chance(1, 2) ? "f" : "g.txt"; Str want; struct stat st; if (stat((dir + "/" + n).c_str(), &st) || !S_ISREG(st.st_mode)) continue; want = hread(dir + "/" + n); EvRead e = ev_read_all((pre + n).c_str(), v.c_str()); VF_CHECK(e.rv == EVFS_OK && e.data == want, "ro-stdio:read", "reading %s on a read-only file system returned %s and %zu bytes of %zu", n, ev_err(e.rv), e.data.size(), want.size()); vf_count("readonly_reads"); continue;
    }
    DOp o = d_random(r, client); if (o.kind == D_CTRL || o.kind == D_SETCWD) continue; if (r.chance(1, 3)) { o.kind = r.pick(std::vector<int>{D_OPEN, D_WRITE, D_TRUNC, D_DELETE, D_RENAME, D_MKDIR, D_MKPATH}); if (o.kind == D_WRITE) o.data = r.bytes(1 + r.below(100)); if (o.kind == D_OPEN) o.a = (long)r.below(64); }
    if (!d_applicable(o, s)) continue; if (o.kind == D_WRITE && o.data.empty()) continue;
    Str p = pre + o.path, p2 = pre + o.path2; bool escape = o.path.find("..") == 0 || o.path2.find("..") == 0; if (escape && (v == "stdio" || layer == 2 || rel)) continue;
    if (!ro && (o.kind == D_DELETE || o.kind == D_RENAME) && (o.path == "." || o.path2 == ".")) continue;
    struct stat st; Str hp = dir + "/" + o.path; bool there = stat(hp.c_str(), &st) == 0; vf_note("%s", d_str(o).c_str());
    DRes x = d_run(o, s, p, p2); if (!ro) { if (o.kind == D_WRITE && x.rv > 0) written = true; continue; } vf_count("readonly_ops");
    if (mutates(o)) { VF_CHECK(x.rv < 0, "ro-stdio:accepted", "%s on a read-only file system returned %ld", d_str(o).c_str(), x.rv); vf_count(DNAMES[o.kind]); vf_seen(vf_hash(vf_fmt("%d %ld %d %s", o.kind, x.rv, layer, o.path.c_str()))); }
    if (o.kind == D_OPEN && ((o.a & EVFS_WRITE) || (!there && o.a))) { VF_CHECK(x.rv < 0, "ro-stdio:open", "%s on a read-only file system returned %s", d_str(o).c_str(), ev_err((int)x.rv)); vf_count("opens_refused"); vf_seen(vf_hash(vf_fmt("o %ld %ld %d %s", o.a, x.rv, layer, o.path.c_str()))); }
    if (o.kind == D_MKPATH && !there && !escape) VF_CHECK(x.rv < 0, "ro-stdio:make_path", "make_path %s on a read-only file system returned %s", vf_q(o.path).c_str(), ev_err((int)x.rv));
  }
  if (ro && !vf_case_failed()) { s.close_all(); Str after = tree(dir); VF_CHECK(before == after, "ro-stdio:changed", "the tree changed while the file system was read-only:\n%s\nbecame\n%s", vf_q(before, 1500).c_str(), vf_q(after, 1500).c_str()); }
  (void)written; s.close_all(); if (rel) { (void)!chdir("/"); } evfs_unregister_all(); fs::remove_all(dir, ec);
}

// tar and romfs: no operation reaches the storage below as a modification
static void image_case(Rng &r, uint64_t) {
  MemFs base("mem"); base.reg(true); int kind = (int)r.below(4); Str bytes; Model m; TarArchive t; RomImage ri;
  if (kind < 2) { t = tar_random(r); bytes = t.bytes; m = t.model(); } else { ri = rom_random(r); bytes = ri.bytes; m = ri.model(); }
  base.put("/img", bytes); base.put("/other", "o"); Str whole = base.dump(); uint8_t *mem = (uint8_t *)malloc(bytes.size() + 1); memcpy(mem, bytes.data(), bytes.size()); EvfsFile *f = nullptr; int rv;
  // the image is even opened for writing; nothing may use that
  if (kind == 0 || kind == 2) evfs_open_ex("/img", &f, r.chance(1, 2) ? EVFS_RDWR : EVFS_READ, "mem");
  rv = kind == 0 ? evfs_register_tar_fs("img", f, false) : kind == 1 ? evfs_register_tar_rsrc_fs("img", mem, bytes.size(), false) : kind == 2 ? evfs_register_romfs("img", f, false) : evfs_register_rsrc_romfs("img", mem, bytes.size(), false);
  VF_CHECK(rv == EVFS_OK, "ro-image:mount", "kind %d: %s", kind, ev_err(rv)); static const char *KN[] = {"tar", "tar_rsrc", "romfs", "romfs_rsrc"}; vf_count(KN[kind]);
  if (rv == EVFS_OK) {
    Str v = "img"; if (r.chance(1, 4)) { evfs_register_jail("j", "img", "/", false); v = "j"; } else if (r.chance(1, 4)) { evfs_register_trace("j", "img", nosink, nullptr, false); v = "j"; }
    std::vector<Str> files, all; for (auto &x : m) { all.push_back(x.first); if (!x.second.dir && !x.second.skip && x.first.size() < 200) files.push_back(x.first); }
    base.record = true; base.log.clear(); Side s(v); int steps = r.range(20, 150);
    for (int i = 0; i < steps && !vf_case_failed(); i++) {
      DOp o = d_random(r, [&](Rng &q) { Str p = q.pick(all); return q.chance(1, 4) ? ref_normalize(p + "/new") : p; }); if (r.chance(1, 2)) { o.kind = r.pick(std::vector<int>{D_OPEN, D_OPEN, D_WRITE, D_TRUNC, D_DELETE, D_RENAME, D_MKDIR, D_MKPATH}); if (o.kind == D_OPEN) o.a = r.chance(1, 2) ? EVFS_READ : (long)r.below(64); if (o.kind == D_WRITE) o.data = r.bytes(1 + r.below(50)); if (o.kind == D_TRUNC) o.a = (long)r.below(1000); }
      if (r.chance(1, 20)) { unsigned on = r.chance(1, 2); evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, v.c_str()); }
      if (!d_applicable(o, s) || o.path.size() > 200 || o.path2.size() > 200) continue; if (o.kind == D_WRITE && o.data.empty()) continue; vf_note("%s", d_str(o).c_str());
      bool there = m.count(o.path); DRes x = d_run(o, s, o.path, o.path2); vf_count("readonly_ops");
      if (mutates(o)) { VF_CHECK(x.rv < 0, Str("ro-image:accepted-") + KN[kind], "%s returned %ld", d_str(o).c_str(), x.rv); vf_count(DNAMES[o.kind]); vf_seen(vf_hash(vf_fmt("%d %ld %d", o.kind, x.rv, kind))); }
      if (o.kind == D_OPEN && ((o.a & EVFS_WRITE) || !there)) { VF_CHECK(x.rv < 0, Str("ro-image:open-") + KN[kind], "%s returned %s", d_str(o).c_str(), ev_err((int)x.rv)); vf_count("opens_refused"); vf_seen(vf_hash(vf_fmt("o%ld %ld %d", o.a, x.rv, kind))); }
      if (o.kind == D_MKPATH && !there) VF_CHECK(x.rv < 0, "ro-image:make_path", "make_path %s returned %s", vf_q(o.path).c_str(), ev_err((int)x.rv));
      for (auto &l : base.log) if (l.op == "write" || l.op == "truncate" || l.op == "delete" || l.op == "rename" || l.op == "make_dir" || (l.op == "open" && (l.a & ~EVFS_READ))) VF_CHECK(false, Str("ro-image:below-") + KN[kind], "%s made the call %s on the VFS below", d_str(o).c_str(), l.str().c_str()); base.log.clear();
      if (!files.empty() && r.chance(1, 15)) { const Str &p = r.pick(files); EvRead e = ev_read_all(p.c_str(), v.c_str()); VF_CHECK(e.rv == EVFS_OK && e.data == m[p].data, "ro-image:read", "reading %s returned %s, %zu bytes", vf_q(p).c_str(), ev_err(e.rv), e.data.size()); vf_count("readonly_reads"); }
    }
    s.close_all(); base.record = false;
  } else if (f) evfs_file_close(f);
  evfs_unregister(evfs_find_vfs("j")); evfs_unregister(evfs_find_vfs("img")); VF_CHECK(base.dump() == whole && !memcmp(mem, bytes.data(), bytes.size()), "ro-image:changed", "the storage of a %s changed", KN[kind]); free(mem); evfs_unregister_all();
}
void vf_setup() { vf_drop_privs(); umask(022); evfs_init(); vf_suite("ro_stdio", 4000, 150000, stdio_case); vf_suite("ro_image", 8000, 300000, image_case); }
