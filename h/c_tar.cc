// C13: a mounted tar archive presents exactly the archive's contents.
#include "hugeimg.h"
#include <filesystem>
#include <sys/stat.h>
extern "C" {
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/tar_iter.h"
#include "evfs/tar_iter_rsrc.h"
}
namespace fs = std::filesystem;

struct Exact { uint8_t *p; size_t n; explicit Exact(const Str &s) : p((uint8_t *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Exact() { free(p); } };

static void mounted(Rng &r, const Str &bytes, const Model &model, bool rsrc, int steps) {
  MemFs base("mem"); base.reg(false); Exact mem(bytes); ImgOpt o; o.vfs = "tar"; o.key = rsrc ? "tar-rsrc" : "tar";
  long live0 = 0; vfalloc::start();
  if (rsrc) {
    int rv = evfs_register_tar_rsrc_fs("tar", mem.p, mem.n, r.chance(1, 2)); VF_CHECK(rv == EVFS_OK, "tar-rsrc:mount", "mounting %zu bytes returned %s", mem.n, ev_err(rv)); if (rv) { vfalloc::stop(); evfs_unregister_all(); return; }
    o.rsrc = true; o.res = mem.p; o.reslen = mem.n;
  } else {
    base.put("/archive.tar", bytes); EvfsFile *f = nullptr; evfs_open_ex("/archive.tar", &f, EVFS_READ, "mem"); if (r.chance(1, 3)) evfs_file_seek(f, (evfs_off_t)r.below(bytes.size() + 1), EVFS_SEEK_TO);
    int rv = evfs_register_tar_fs("tar", f, r.chance(1, 2)); VF_CHECK(rv == EVFS_OK, "tar:mount", "mounting %zu bytes returned %s", bytes.size(), ev_err(rv)); if (rv) { evfs_file_close(f); vfalloc::stop(); evfs_unregister_all(); return; }
  }
  vf_count(rsrc ? "mounts_memory" : "mounts_file");
  img_exercise(r, model, o, steps);
  int rv = evfs_unregister(evfs_find_vfs("tar")); VF_CHECK(rv == EVFS_OK, o.key + ":unregister", "unregister returned %s", ev_err(rv));
  if (!vf_case_failed()) { long l = vfalloc::stop(); VF_CHECK(l == live0, o.key + ":leak", "%ld allocations live after unregistering: %s", l, vfalloc::describe_live().c_str()); VF_CHECK(base.open_files == 0, o.key + ":archive-open", "the archive is still open"); } else vfalloc::stop();
  if (rsrc) VF_CHECK(memcmp(mem.p, bytes.data(), mem.n) == 0, "tar-rsrc:modified", "the resource was modified"); else VF_CHECK(base.at("/archive.tar")->data == bytes, "tar:modified", "the archive was modified");
  evfs_unregister_all();
}
static void mount_case(Rng &r, uint64_t) {
  TarArchive t = tar_random(r, true); Str d; for (auto &x : t.m) d += vf_fmt("%c %s|%s %zu; ", x.type ? x.type : '0', vf_q(x.prefix).c_str(), vf_q(x.name).c_str(), x.data.size());
  vf_note("archive: %s ending %d", d.c_str(), t.ending); if (vf_want_sample()) vf_sample(d.substr(0, 300));
  vf_count("members", t.m.size()); mounted(r, t.bytes, t.model(), r.chance(1, 2), r.range(20, 140));
}

// archives written by the host's tar
static void real_case(Rng &r, uint64_t idx) {
  Str dir = vf_scratch + "/rt"; std::error_code ec; fs::remove_all(dir, ec); fs::create_directories(dir + "/in"); Model m; m["/"].dir = true; std::vector<Str> dirs = {""};
  int n = r.range(1, 10); for (int i = 0; i < n; i++) { Str d = r.pick(dirs), nm = img_name(r, 50); if (nm[0] == '-' || nm.find('\\') != Str::npos) nm = "q" + nm; Str p = d + "/" + nm; if (m.count(p) || p.size() > 120) continue; if (r.chance(1, 3)) { fs::create_directory(dir + "/in" + p); m[p].dir = true; dirs.push_back(p); } else { m[p].data = img_data(r); FILE *f = fopen((dir + "/in" + p).c_str(), "wb"); if (f) { fwrite(m[p].data.data(), 1, m[p].data.size(), f); fclose(f); } } }
  if (r.chance(1, 3)) fs::create_symlink("nowhere", dir + "/in/symlink_entry");
  bool gnu = r.chance(1, 2); bool fits = true; for (auto &x : m) if (x.first.size() > (gnu ? 97u : 98u)) fits = false; if (gnu && !fits) gnu = false;
  Str cmd = "tar -C '" + dir + "/in' --format=" + (gnu ? "gnu" : "ustar") + " -cf '" + dir + "/t.tar' " + (r.chance(1, 2) ? "." : ". -b " + std::to_string(1 + r.below(8))) + " 2>/dev/null";
  (void)idx; if (system(cmd.c_str()) != 0) { vf_count("tar_refused"); return; }
  FILE *f = fopen((dir + "/t.tar").c_str(), "rb"); Str b; char buf[65536]; size_t g; while ((g = fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, g); fclose(f);
  vf_count("real_archives"); vf_note("real archive of %zu entries, %zu bytes, gnu %d", m.size(), b.size(), gnu);
  mounted(r, b, m, r.chance(1, 2), 30);
}

static void iter_case(Rng &r, uint64_t) {
  TarArchive t = tar_random(r, true); MemFs base("mem"); base.reg(false); base.put("/t", t.bytes); EvfsFile *f = nullptr; evfs_open_ex("/t", &f, EVFS_READ, "mem"); Exact mem(t.bytes);
  TarFileIterator it; tar_iter_init(&it, f); TarRsrcIterator ir; tar_rsrc_iter_init(&ir, mem.p, mem.n); int passes = r.range(1, 3);
  auto same = [&](size_t i, const TarHeader *h, long hoff, long size, long doff, const char *k) {
    const TarMember &x = t.m[i]; vf_count("iterated");
    VF_CHECK(hoff == (long)t.offs[i], Str("tariter:order-") + k, "member %zu: header at %ld, stored at %zu", i, hoff, t.offs[i]);
    VF_CHECK(strncmp((const char *)h->file_name, x.name.c_str(), 100) == 0 && (char)h->type_flag == x.type, Str("tariter:name-") + k, "member %zu: name %s type %c, stored %s %c", i, vf_q(Str((const char *)h->file_name, strnlen((const char *)h->file_name, 100))).c_str(), h->type_flag, vf_q(x.name).c_str(), x.type);
    size_t want = tar_has_data(x.type) ? x.data.size() : 0; VF_CHECK(size == (long)want, Str("tariter:size-") + k, "member %zu of type %c: size %ld, stored %zu", i, x.type, size, want);
    VF_CHECK(doff == (long)t.offs[i] + 512, Str("tariter:offset-") + k, "member %zu: data at %ld, stored at %zu", i, doff, t.offs[i] + 512); vf_seen(vf_hash(vf_fmt("%zu %ld %c", i, size, x.type)));
  };
  for (int p = 0; p < passes && !vf_case_failed(); p++) {
    bool ok = tar_iter_begin(&it), okr = tar_rsrc_iter_begin(&ir); size_t i = 0;
    for (; ok && okr && i < t.m.size() && !vf_case_failed(); i++) {
      same(i, &it.cur_header, (long)it.header_offset, (long)it.file_size, (long)tar_iter_file_offset(&it), "file"); same(i, ir.cur_header, (long)ir.header_offset, (long)ir.file_size, (long)tar_rsrc_iter_file_offset(&ir), "rsrc");
      if (r.chance(1, 3)) { Str d((size_t)it.file_size, 0); evfs_file_seek(f, tar_iter_file_offset(&it), EVFS_SEEK_TO); ptrdiff_t g = evfs_file_read(f, &d[0], d.size()); VF_CHECK(g == (ptrdiff_t)d.size() && (!tar_has_data(t.m[i].type) || d == t.m[i].data), "tariter:data", "member %zu: its data differs", i); }
      if (r.chance(1, 10)) { size_t j = r.below(t.m.size()); ok = tar_iter_seek(&it, (evfs_off_t)t.offs[j]); okr = tar_rsrc_iter_seek(&ir, (evfs_off_t)t.offs[j]); VF_CHECK(ok && okr, "tariter:seek", "seeking to member %zu failed", j); if (ok && okr) { same(j, &it.cur_header, (long)it.header_offset, (long)it.file_size, (long)tar_iter_file_offset(&it), "file"); same(j, ir.cur_header, (long)ir.header_offset, (long)ir.file_size, (long)tar_rsrc_iter_file_offset(&ir), "rsrc"); } i = j; vf_count("iter_seeks"); }
      if (i < t.m.size() && r.chance(1, 20)) { bool a = tar_iter_seek(&it, -1), b = tar_rsrc_iter_seek(&ir, -512); VF_CHECK(!a && !b, "tariter:negative", "a seek to a negative offset succeeded (file %d, memory %d)", a, b); a = tar_iter_next(&it); b = tar_rsrc_iter_next(&ir); VF_CHECK(!a && !b, "tariter:after-failed-seek", "after a failed seek there is a next member (file %d, memory %d)", a, b); ok = tar_iter_seek(&it, (evfs_off_t)t.offs[i]); okr = tar_rsrc_iter_seek(&ir, (evfs_off_t)t.offs[i]); VF_CHECK(ok && okr, "tariter:seek", "seeking back to member %zu failed", i); if (!ok || !okr) break; vf_count("iter_bad_seeks"); }
      if (r.chance(1, 10)) { ok = tar_iter_reset(&it); VF_CHECK(ok, "tariter:reset", "reset failed"); same(i, &it.cur_header, (long)it.header_offset, (long)it.file_size, (long)tar_iter_file_offset(&it), "file"); }
      ok = tar_iter_next(&it); okr = tar_rsrc_iter_next(&ir);
    }
    if (!vf_case_failed() && !ok && r.chance(1, 2)) for (int n = r.range(1, 3); n > 0; n--) { bool a = tar_iter_next(&it), b = tar_rsrc_iter_next(&ir); VF_CHECK(!a && !b, "tariter:beyond", "after the last of %zu members there is another one (file %d, memory %d)", t.m.size(), a, b); vf_count("iter_beyond"); }
    if (!vf_case_failed() && r.chance(1, 4)) { bool a = tar_iter_seek(&it, -(evfs_off_t)r.below(2000) - 1), b = tar_rsrc_iter_seek(&ir, -(evfs_off_t)r.below(2000) - 1); VF_CHECK(!a && !b, "tariter:negative", "a seek to a negative offset succeeded (file %d, memory %d)", a, b); a = tar_iter_next(&it); b = tar_rsrc_iter_next(&ir); VF_CHECK(!a && !b, "tariter:after-failed-seek", "after a failed seek there is a next member (file %d, memory %d)", a, b); vf_count("iter_bad_seeks"); }
    VF_CHECK(ok == okr && !ok && i == t.m.size(), "tariter:count", "iteration over %zu members stopped at %zu (file %d, memory %d)", t.m.size(), i, ok, okr);
  }
  tar_iter_close(&it); VF_CHECK(base.open_files == 0, "tariter:close", "closing the iterator left the archive open"); evfs_unregister_all();
}
// archives and members of gigabytes (sparse host files), as far as evfs_off_t reaches
static void huge_case(Rng &r, uint64_t) {
  evfs_register_stdio(false); Str p = vf_scratch + "/huge.tar"; int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0) abort(); std::vector<HugeFile> F; long at = 0, lim = std::min(huge_max(), 0x500000000l) - 4096; std::vector<long> heads;
  for (int i = 0, n = r.range(1, 6); i < n; i++) {
    HugeFile f; f.path = "/" + vf_fmt("m%d", i); long room = lim - at - 2048; if (room < 0) break; f.size = huge_pick(r, room); f.at = at + 512; TarMember m; m.name = f.path.substr(1); Str h = tar_encode(m, (unsigned long)f.size, true);
    if (pwrite(fd, h.data(), 512, at) != 512) abort(); heads.push_back(at); at += 512 + (f.size + 511) / 512 * 512; if (ftruncate(fd, at)) { ::close(fd); unlink(p.c_str()); evfs_unregister_all(); return; } huge_mark(r, fd, f); F.push_back(f); vf_note("%s %ld at %ld", f.path.c_str(), f.size, f.at); }
  if (ftruncate(fd, at + (r.chance(1, 2) ? 1024 : 0))) abort(); ::close(fd);
  EvfsFile *f = nullptr; int rv = evfs_open_ex(p.c_str(), &f, EVFS_READ, "stdio"); VF_CHECK(rv == EVFS_OK, "tar:huge-archive", "opening the archive returned %s", ev_err(rv)); if (rv != EVFS_OK) { evfs_unregister_all(); return; }
  if (r.chance(1, 3)) { // iteration
    TarFileIterator it; tar_iter_init(&it, f); bool ok = tar_iter_begin(&it); for (size_t i = 0; i < F.size() && !vf_case_failed(); i++) { VF_CHECK(ok && (long)it.header_offset == heads[i] && (long)it.file_size == F[i].size && (long)tar_iter_file_offset(&it) == F[i].at, "tariter:huge", "member %zu of %zu: found %d at %ld size %ld, stored at %ld size %ld", i, F.size(), ok, (long)it.header_offset, (long)it.file_size, heads[i], F[i].size); ok = tar_iter_next(&it); }
    VF_CHECK(!ok, "tariter:huge-end", "more members than stored"); tar_iter_close(&it); vf_count("huge_iterated");
  } else { rv = evfs_register_tar_fs("tar", f, false); VF_CHECK(rv == EVFS_OK, "tar:huge-mount", "mounting %ld bytes returned %s", at, ev_err(rv)); if (rv != EVFS_OK) evfs_file_close(f); else huge_exercise(r, F, "tar", "tar"); }
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 300)); evfs_unregister_all(); unlink(p.c_str());
}
void vf_setup() {
  vf_drop_privs(); umask(022); evfs_init();
  vf_suite("mount", 9000, 500000, mount_case);
  vf_suite("huge", 300, 20000, huge_case);
  vf_suite("real", 160, 4000, real_case);
  vf_suite("iter", 6000, 200000, iter_case);
}
