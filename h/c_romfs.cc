// C14: a mounted romfs image presents exactly the tree it encodes.
#include "hugeimg.h"
#include <sys/stat.h>
extern "C" {
#include "evfs/romfs_fs.h"
}
struct Exact { uint8_t *p; size_t n; explicit Exact(const Str &s) : p((uint8_t *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Exact() { free(p); } };

static void listings(Rng &r, const RomImage &t, const Model &m, unsigned &nodots) {
  evfs_set_cur_dir_ex("/", "rom"); if (r.chance(2, 3)) { nodots = r.chance(1, 2); int rv = evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &nodots, "rom"); VF_CHECK(rv == EVFS_OK, "romfs:nodots", "SET_NO_DIR_DOTS returned %s", ev_err(rv)); }
  for (size_t i = 0; i < t.n.size() && !vf_case_failed(); i++) {
    const RomNode &d = t.n[i]; Str p = t.path((int)i); if (p.empty()) p = "/"; auto it = m.find(p); if (it == m.end() || !it->second.dir || d.type != 1) continue; if (p.size() >= EVFS_MAX_PATH) { vf_count("beyond_limit"); continue; }
    std::vector<std::pair<Str, int>> want; if (!nodots) { want.push_back({".", 0}); want.push_back({"..", d.parent < 0 ? 0 : d.parent}); } for (int k : d.kids) if (t.n[(size_t)k].name.size() <= EVFS_ROMFS_MAX_NAME_LEN - 1) want.push_back({t.n[(size_t)k].name, k});
    EvfsDir *dh = nullptr; Str sp = img_spell(r, p, "/"); int rv = evfs_open_dir_ex(sp.c_str(), &dh, "rom"); VF_CHECK(rv == EVFS_OK, "romfs:opendir", "open_dir(%s) returned %s", vf_q(sp).c_str(), ev_err(rv)); if (rv) continue;
    size_t pos = 0; int total = (int)want.size() + 2, extra = r.range(0, 12); vf_count("listings");
    for (int s = 0; s < total + extra && !vf_case_failed(); s++) {
      if (r.chance(1, 12)) { rv = evfs_dir_rewind(dh); VF_CHECK(rv == EVFS_OK, "romfs:rewind", "rewind returned %s", ev_err(rv)); pos = 0; vf_count("rewinds"); continue; }
      EvfsInfo inf; memset(&inf, 0x5a, sizeof inf); rv = evfs_dir_read(dh, &inf);
      if (pos < want.size()) {
        VF_CHECK(rv == EVFS_OK && inf.name && want[pos].first == inf.name, "romfs:entry", "%s entry %zu: %s %s, stored %s", vf_q(p).c_str(), pos, ev_err(rv), rv == EVFS_OK && inf.name ? vf_q(inf.name).c_str() : "", vf_q(want[pos].first).c_str());
        const RomNode *e = &t.n[(size_t)want[pos].second]; bool dot = want[pos].first == "." || want[pos].first == ".."; if (!dot && e->type == 0) e = &t.n[(size_t)e->link]; bool isd = dot || e->type == 1;
        if (rv == EVFS_OK && (isd || e->type == 2)) VF_CHECK(!!(inf.type & EVFS_FILE_DIR) == isd && (isd || (size_t)inf.size == e->data.size()), "romfs:entry-info", "%s/%s: type %d size %ld, stored %s of %zu", vf_q(p).c_str(), want[pos].first.c_str(), inf.type, (long)inf.size, isd ? "directory" : "file", e->data.size());
        pos++; vf_count("entries");
      } else VF_CHECK(rv == EVFS_DONE, "romfs:done", "%s: after the last of %zu entries dir_read returned %s", vf_q(p).c_str(), want.size(), ev_err(rv));
    }
    rv = evfs_dir_close(dh); VF_CHECK(rv == EVFS_OK, "romfs:closedir", "dir_close returned %s", ev_err(rv)); vf_seen(vf_hash(p, want.size()));
    std::vector<Str> dirs; for (auto &w : want) dirs.push_back(w.first);
    if (r.chance(1, 4)) { std::vector<Str> got; int lr = ev_list(p.c_str(), "rom", &got); VF_CHECK(lr == EVFS_OK && got == dirs, "romfs:list", "listing %s: %zu entries, stored %zu", vf_q(p).c_str(), got.size(), dirs.size()); }
  }
  for (auto &x : m) if (!x.second.dir && !x.second.skip && r.chance(1, 4) && !vf_case_failed() && x.first.size() < EVFS_MAX_PATH) { EvfsDir *dh = (EvfsDir *)(intptr_t)1; int rv = evfs_open_dir_ex(x.first.c_str(), &dh, "rom"); VF_CHECK(rv < 0 && !dh, "romfs:opendir-file", "open_dir of the file %s returned %s", vf_q(x.first).c_str(), ev_err(rv)); if (rv == EVFS_OK) evfs_dir_close(dh); }
}
static void mount_case(Rng &r, uint64_t) {
  if (r.chance(1, 20)) { // an image that is shorter than it says
    RomImage t = rom_random(r); Str b = t.bytes; if (t.extra || r.chance(1, 2)) { uint64_t w = b.size() + (r.chance(1, 2) ? 1 + r.below(64) : r.next() % 0xffffffffu); RomImage::be(b, 8, w > 0xffffffffu ? 0xffffffffu : (uint32_t)w); } else b.resize(b.size() - 1 - r.below(b.size() / 2)); t.bytes = b; t.fix_super(); b = t.bytes; vf_note("%zu bytes of an image", b.size());
    bool rsrc = r.chance(1, 2); MemFs base("mem"); base.reg(false); Exact mem(b); EvfsFile *f = nullptr; int rv; if (rsrc) rv = evfs_register_rsrc_romfs("rom", mem.p, mem.n, false); else { base.put("/img", b); evfs_open_ex("/img", &f, EVFS_READ, "mem"); rv = evfs_register_romfs("rom", f, false); }
    VF_CHECK(rv != EVFS_OK, "romfs:short", "%zu bytes of an image that says it is longer are mounted", b.size()); vf_count("short_images"); if (rv != EVFS_OK && f) evfs_file_close(f); evfs_unregister_all(); return;
  }
  RomImage t = rom_random(r, true); Model m = t.model(); Str d; for (auto &x : m) d += vf_fmt("%s%s %zu; ", vf_q(x.first).c_str(), x.second.dir ? "/" : "", x.second.data.size());
  vf_note("image %s: %s", vf_q(t.volume).c_str(), d.c_str()); if (vf_want_sample()) vf_sample(d.substr(0, 300)); vf_count("entries_stored", m.size());
  bool rsrc = r.chance(1, 2); MemFs base("mem"); base.reg(false); Exact mem(t.bytes); ImgOpt o; o.vfs = "rom"; o.key = rsrc ? "romfs-rsrc" : "romfs"; o.no_stat = EVFS_ERR_NO_PATH;
  vfalloc::start();
  if (rsrc) { int rv = evfs_register_rsrc_romfs("rom", mem.p, mem.n, r.chance(1, 2)); VF_CHECK(rv == EVFS_OK, "romfs-rsrc:mount", "mounting %zu bytes returned %s", mem.n, ev_err(rv)); if (rv) { vfalloc::stop(); evfs_unregister_all(); return; } o.rsrc = true; o.res = mem.p; o.reslen = mem.n; }
  else { base.put("/img", t.bytes); EvfsFile *f = nullptr; evfs_open_ex("/img", &f, EVFS_READ, "mem"); int rv = evfs_register_romfs("rom", f, r.chance(1, 2)); VF_CHECK(rv == EVFS_OK, "romfs:mount", "mounting %zu bytes returned %s", t.bytes.size(), ev_err(rv)); if (rv) { evfs_file_close(f); vfalloc::stop(); evfs_unregister_all(); return; } }
  vf_count(rsrc ? "mounts_memory" : "mounts_file");
  unsigned nodots = 0; if (r.chance(1, 2)) listings(r, t, m, nodots);
  if (!vf_case_failed()) img_exercise(r, m, o, r.range(20, 120));
  if (!vf_case_failed()) listings(r, t, m, nodots);
  int rv = evfs_unregister(evfs_find_vfs("rom")); VF_CHECK(rv == EVFS_OK, o.key + ":unregister", "unregister returned %s", ev_err(rv));
  long l = vfalloc::stop(); if (!vf_case_failed()) { VF_CHECK(l == 0, o.key + ":leak", "%ld allocations live after unregistering: %s", l, vfalloc::describe_live().c_str()); VF_CHECK(base.open_files == 0, o.key + ":image-open", "the image is still open"); }
  if (rsrc) VF_CHECK(memcmp(mem.p, t.bytes.data(), mem.n) == 0, "romfs-rsrc:modified", "the resource was modified"); else VF_CHECK(base.at("/img")->data == t.bytes, "romfs:modified", "the image was modified");
  evfs_unregister_all();
}
// images and files of gigabytes (sparse host files): sizes are 32 bits in the image, as far as evfs_off_t reaches
static void huge_case(Rng &r, uint64_t) {
  evfs_register_stdio(false); Str p = vf_scratch + "/huge.rom"; int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0) abort(); std::vector<HugeFile> F; long at = 96, lim = std::min(huge_max(), 0xffffffffl) - 4096;
  for (int i = 0, n = r.range(1, 6); i < n; i++) { HugeFile f; f.path = "/" + vf_fmt("m%d", i); long room = lim - at - 100; if (room < 0) break; f.size = huge_pick(r, room); f.at = at + 32; at = f.at + (f.size + 15) / 16 * 16; F.push_back(f); vf_note("%s %ld at %ld", f.path.c_str(), f.size, f.at); }
  bool ok = !F.empty() && ftruncate(fd, at) == 0; auto put = [&](long pos, uint32_t next, char type, uint32_t spec, const Str &name, long size) { RomImage t; t.header(next, type, spec, "", name, size); ok = ok && pwrite(fd, t.bytes.data(), 32, pos) == 32; };
  put(32, 64, 1 | 8, 32, ".", 0); put(64, 96, 0, 32, "..", 0); for (size_t i = 0; i < F.size() && ok; i++) { put(F[i].at - 32, i + 1 < F.size() ? (uint32_t)(F[i + 1].at - 32) : 0, 2, 0, F[i].path.substr(1), F[i].size); huge_mark(r, fd, F[i]); }
  RomImage t; t.bytes.assign(512, 0); memcpy(&t.bytes[0], "-rom1fs-", 8); RomImage::be(t.bytes, 8, (uint32_t)at); memcpy(&t.bytes[16], "huge", 4); ok = ok && pread(fd, &t.bytes[32], 480, 32) >= 0; t.bytes.resize((size_t)std::min(512l, at)); t.fix_super(); ok = ok && pwrite(fd, t.bytes.data(), t.bytes.size(), 0) == (ssize_t)t.bytes.size(); ::close(fd);
  if (!ok) { unlink(p.c_str()); evfs_unregister_all(); return; }
  EvfsFile *f = nullptr; int rv = evfs_open_ex(p.c_str(), &f, EVFS_READ, "stdio"); VF_CHECK(rv == EVFS_OK, "romfs:huge-image", "opening the image returned %s", ev_err(rv)); if (rv != EVFS_OK) { evfs_unregister_all(); return; }
  rv = evfs_register_romfs("rom", f, false); VF_CHECK(rv == EVFS_OK, "romfs:huge-mount", "mounting %ld bytes returned %s", at, ev_err(rv)); if (rv != EVFS_OK) evfs_file_close(f); else huge_exercise(r, F, "rom", "romfs");
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 300)); evfs_unregister_all(); unlink(p.c_str());
}
void vf_setup() { vf_drop_privs(); umask(022); evfs_init(); vf_suite("huge", 300, 20000, huge_case); vf_suite("mount", 6000, 400000, mount_case); }
