// C15: hostile archives, images and rotate metadata: no memory errors, no undefined behaviour, always finishes,
// what cannot be mounted leaves nothing registered.
#include "images.h"
extern "C" {
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/tar_iter.h"
#include "evfs/tar_iter_rsrc.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_rotate.h"
}
struct Exact { uint8_t *p; size_t n; explicit Exact(const Str &s) : p((uint8_t *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Exact() { free(p); } };

static uint32_t wild32(Rng &r, size_t size) {
  switch (r.below(8)) { case 0: return 0; case 1: return 0xFFFFFFFFu; case 2: return 0x7FFFFFFFu - (uint32_t)r.below(1100); case 3: return (uint32_t)size + (uint32_t)r.range(-40, 40); case 4: return 0x80000000u + (uint32_t)r.below(64); case 5: return (uint32_t)r.next(); case 6: return 0xFFFFFFF0u - 16 * (uint32_t)r.below(4); default: return (uint32_t)r.below(size + 1); }
}
static Str wild_path(Rng &r, const Model &m) {
  if (!m.empty() && r.chance(2, 3)) { auto it = m.begin(); std::advance(it, (long)r.below(m.size())); return r.chance(1, 3) ? img_spell(r, it->first, "/") : it->first; }
  switch (r.below(6)) { case 0: return ""; case 1: return Str(r.below(700), '/'); case 2: return "/" + Str(r.below(700), 'a'); case 3: { Str s = r.bytes(r.below(40)); for (auto &c : s) if (!c) c = 'x'; return s; } case 4: { Str s; for (int i = r.range(1, 120); i; i--) s += "../"; return s; } default: return "/" + img_name(r, 60); }
}
// Use a mounted image whatever it holds; only bounds and progress are judged
static void walk(Rng &r, const Model &m, const char *v, const char *K, size_t limit, bool rsrc, const uint8_t *res, size_t reslen, bool dirs, std::vector<Str> *found) {
  int steps = r.range(4, 30);
  std::vector<Str> names; for (auto &x : m) names.push_back(x.first); if (found) for (auto &x : *found) names.push_back(x);
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    Str p = names.empty() || r.chance(1, 4) ? wild_path(r, m) : r.pick(names); int k = (int)r.below(8); EvfsInfo inf; memset(&inf, 0, sizeof inf);
    if (k < 4) {
      EvfsFile *f = nullptr; int rv = evfs_open_ex(p.c_str(), &f, r.chance(1, 10) ? (int)r.below(64) : EVFS_READ, v); if (rv != EVFS_OK) { VF_CHECK(!f, Str(K) + ":handle", "failed open left a handle"); continue; } vf_count("opened");
      long size = evfs_file_size(f); VF_CHECK(size >= 0, Str(K) + ":size", "size %ld", size);
      size_t total = 0; int reads = r.range(1, 12); vf_note("read %s (%ld bytes)", vf_q(p).c_str(), size);
      for (int j = 0; j < reads && !vf_case_failed(); j++) {
        if (r.chance(1, 2)) { EvfsSeekDir d = (EvfsSeekDir)r.range(0, 3); long o = r.chance(1, 3) ? (long)(int32_t)wild32(r, limit) : (long)r.below((uint64_t)std::max(1l, size) + 3); evfs_file_seek(f, (evfs_off_t)o, d); long t = evfs_file_tell(f); VF_CHECK(t >= 0 && t <= std::max(size, 0l), Str(K) + ":position", "position %ld in a file of %ld bytes", t, size); }
        size_t n = r.chance(1, 8) ? r.below(20000) : r.below(700); Guarded b(n); ptrdiff_t g = evfs_file_read(f, b.p, n); VF_CHECK(g <= (ptrdiff_t)n && b.intact(), Str(K) + ":overrun", "read of %zu returned %ld", n, (long)g); if (g > 0) total += (size_t)g; (void)evfs_file_eof(f);
      }
      if (rsrc && r.chance(1, 2)) { void *a = nullptr; rv = evfs_file_ctrl(f, EVFS_CMD_GET_RSRC_ADDR, &a); if (rv == EVFS_OK && size > 0) { VF_CHECK((const uint8_t *)a >= res && (const uint8_t *)a + size <= res + reslen, Str(K) + ":rsrc-addr", "resource address outside the resource"); volatile uint8_t s = 0; for (long q = 0; q < size; q++) s = (uint8_t)(s + ((uint8_t *)a)[q]); vf_count("rsrc_addr"); } }
      evfs_file_close(f); vf_seen(vf_hash(vf_fmt("%ld %zu", size, total)));
    } else if (k == 4) { int rv = evfs_stat_ex(p.c_str(), &inf, v); if (rv == EVFS_OK) { vf_count("stats"); VF_CHECK(inf.size >= 0 || (inf.type & EVFS_FILE_DIR), Str(K) + ":stat", "size %ld", (long)inf.size); } }
    else if (k == 5) { evfs_set_cur_dir_ex(p.c_str(), v); char b[EVFS_MAX_PATH]; StringRange g = RANGE_FROM_ARRAY(b); int rv = evfs_get_cur_dir_ex(&g, v); VF_CHECK(rv == EVFS_OK && strnlen(b, sizeof b) < sizeof b, Str(K) + ":cwd", "get_cur_dir returned %s", ev_err(rv)); }
    else if (k == 6) { evfs_delete_ex(p.c_str(), v); evfs_make_dir_ex(p.c_str(), v); evfs_rename_ex(p.c_str(), "/n", v); }
    else if (dirs) {
      EvfsDir *d = nullptr; int rv = evfs_open_dir_ex(p.c_str(), &d, v); if (rv != EVFS_OK) continue; vf_count("opened_dirs"); size_t n = 0; bool done = false;
      for (; n < limit / 16 + 20; n++) { memset(&inf, 0, sizeof inf); rv = evfs_dir_read(d, &inf); if (rv != EVFS_OK) { done = true; break; } VF_CHECK(inf.name && strnlen(inf.name, 300) < 256, Str(K) + ":name", "entry without a name"); if (inf.name && names.size() < 400) { Str q = (p == "/" ? "" : p) + "/" + inf.name; if (q.size() < 200) names.push_back(q); } if (r.chance(1, 60)) evfs_dir_rewind(d); }
      VF_CHECK(done || r.s, Str(K) + ":endless", "unreachable"); evfs_dir_close(d);
      // without rewinds the listing ends
      rv = evfs_open_dir_ex(p.c_str(), &d, v); if (rv == EVFS_OK) { for (n = 0, done = false; n < limit / 16 + 20 && !done; n++) done = evfs_dir_read(d, &inf) != EVFS_OK; VF_CHECK(done, Str(K) + ":endless", "listing %s reported more than %zu entries of a %zu byte image", vf_q(p).c_str(), n, limit); evfs_dir_close(d); }
    }
  }
}
static void damage(Rng &r, Str &b, int n);
static void mounted(Rng &r, const Str &bytes, const Model &m, bool tar) {
  bool rsrc = r.chance(1, 2); MemFs base("mem"); base.reg(true); Exact mem(bytes); const char *K = tar ? (rsrc ? "hostile-tar-rsrc" : "hostile-tar") : (rsrc ? "hostile-romfs-rsrc" : "hostile-romfs"); bool dflt = r.chance(1, 2);
  EvfsFile *f = nullptr; vfalloc::start(); int rv;
  if (rsrc) rv = tar ? evfs_register_tar_rsrc_fs("img", mem.p, mem.n, dflt) : evfs_register_rsrc_romfs("img", mem.p, mem.n, dflt);
  else {
    base.put("/img", bytes); evfs_open_ex("/img", &f, EVFS_READ, "mem");
    if (r.chance(1, 6)) { // an image that changes while it is mounted and walked (its length stays)
      Str other = bytes; if (r.chance(1, 2)) damage(r, other, r.range(1, 8)); else { other = tar ? tar_random(r).bytes : rom_random(r).bytes; } other.resize(bytes.size()); int mode = (int)r.below(3); long at = r.range(1, mode == 2 ? 12 : r.chance(1, 2) ? 40 : 300); auto k = std::make_shared<long>(0); MemP n = base.at("/img"); vf_note("the image changes at operation %ld", at); vf_count("changing");
      base.before = [=](const MemOp &) { ++*k; if (mode == 2 ? *k % at == 0 : *k == at) n->data = mode == 2 && *k / at % 2 == 0 ? bytes : other; };
    }
    rv = tar ? evfs_register_tar_fs("img", f, dflt) : evfs_register_romfs("img", f, dflt); }
  vf_count("offered");
  if (rv != EVFS_OK) {
    vf_count("rejected"); VF_CHECK(rv < 0, Str(K) + ":code", "mounting returned %d", rv);
    VF_CHECK(evfs_find_vfs("img") == nullptr, Str(K) + ":left-registered", "a refused image (%s) is registered", ev_err(rv)); VF_CHECK(evfs_default_vfs_name() && Str(evfs_default_vfs_name()) == "mem", Str(K) + ":default", "a refused image changed the default");
    if (f) { char c; evfs_file_seek(f, 0, EVFS_SEEK_TO); VF_CHECK(base.open_files == 1 && evfs_file_read(f, &c, 1) == (bytes.empty() ? 0 : 1), Str(K) + ":image-closed", "a refused image was closed"); evfs_file_close(f); }
    vf_seen(vf_hash(vf_fmt("%d %zu", rv, bytes.size() / 64)));
  } else {
    vf_count("accepted"); if (!tar && r.chance(1, 2)) { unsigned nd = r.chance(1, 2); evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &nd, "img"); }
    walk(r, m, "img", K, bytes.size(), rsrc, mem.p, mem.n, !tar, nullptr);
    evfs_unregister(evfs_find_vfs("img")); VF_CHECK(base.open_files == 0, Str(K) + ":image-open", "the image is still open after unregistering");
  }
  long l = vfalloc::stop(); if (!vf_case_failed()) VF_CHECK(l == 0, Str(K) + ":leak", "%ld allocations live: %s", l, vfalloc::describe_live().c_str());
  if (rsrc) VF_CHECK(memcmp(mem.p, bytes.data(), mem.n) == 0, Str(K) + ":modified", "the resource was modified"); evfs_unregister_all();
}
static void damage(Rng &r, Str &b, int n) {
  for (int i = 0; i < n && !b.empty(); i++) switch (r.below(5)) {
    case 0: b[r.below(b.size())] = (char)r.next(); break;
    case 1: b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
    case 2: b.resize(r.below(b.size() + 1)); break;
    case 3: { size_t a = r.below(b.size()), l = std::min(b.size() - a, (size_t)r.below(64)); memset(&b[a], r.chance(1, 2) ? 0xFF : 0, l); break; }
    default: { size_t a = r.below(b.size()), c = r.below(b.size()), l = std::min(std::min(b.size() - a, b.size() - c), (size_t)r.below(600)); memmove(&b[a], &b[c], l); break; }
  }
}
static void tar_fix(Str &b, size_t at) { if (at + 512 > b.size()) return; memset(&b[at + 148], ' ', 8); unsigned long c = 0; for (size_t i = 0; i < 500; i++) c += (unsigned char)b[at + i]; Str s = tar_num(c, 8, 2); memcpy(&b[at + 148], s.data(), 8); }
static Str hostile_tar(Rng &r, Model &m) {
  TarArchive t = tar_random(r); m = t.model(); Str b = t.bytes; int kind = (int)r.below(8);
  if (kind == 0) { b = r.bytes(r.below(3000)); return b; }
  if (kind == 1) { damage(r, b, r.range(1, 6)); return b; }
  if (kind == 2) { b.resize(r.below(b.size() + 1)); return b; }
  int n = r.range(1, 4); static const size_t F[][2] = {{0, 100}, {124, 12}, {124, 12}, {124, 12}, {156, 1}, {257, 8}, {345, 155}, {148, 8}, {136, 12}};
  for (int i = 0; i < n && !t.offs.empty(); i++) {
    size_t at = r.pick(t.offs); const size_t *f = F[r.below(9)]; if (at + 512 > b.size()) continue;
    if (f[0] == 124) { Str s; switch (r.below(8)) { case 0: s = "77777777777"; break; case 1: s = "777777777777"; break; case 2: s = Str("\x80\0\0\0\0\0\0\0\0\0\0\xff", 12); break; case 3: s = Str(12, '\xff'); break; case 4: s = vf_fmt("%011lo", (unsigned long)wild32(r, b.size())); break; case 5: s = vf_fmt("%011lo", (unsigned long)(b.size() - at) + (unsigned long)r.range(-1100, 1100)); break; case 6: s = "-0000000001"; break; default: s = r.bytes(12); } s.resize(12, 0); memcpy(&b[at + 124], s.data(), 12); }
    else if (f[0] == 148) { Str s = r.bytes(8); memcpy(&b[at + 148], s.data(), 8); continue; }
    else for (size_t j = 0; j < f[1]; j++) b[at + f[0] + j] = r.chance(1, 6) ? '/' : r.chance(1, 8) ? '.' : (char)(r.chance(1, 2) ? 'a' + r.below(26) : r.next());
    tar_fix(b, at);
  }
  if (r.chance(1, 4)) b.resize(r.below(b.size() + 1));
  return b;
}
static void tar_case(Rng &r, uint64_t) { Model m; Str b = hostile_tar(r, m); vf_note("%zu bytes", b.size()); mounted(r, b, m, true); }
static void iter_case(Rng &r, uint64_t) {
  Model m; Str b = hostile_tar(r, m); MemFs base("mem"); base.reg(false); base.put("/t", b); EvfsFile *f = nullptr; evfs_open_ex("/t", &f, EVFS_READ, "mem"); Exact mem(b);
  TarFileIterator it; tar_iter_init(&it, f); TarRsrcIterator ir; tar_rsrc_iter_init(&ir, mem.p, mem.n); size_t bound = b.size() / 512 + 2;
  for (int pass = 0; pass < 3 && !vf_case_failed(); pass++) {
    size_t n = 0; bool ok = r.chance(1, 2) ? tar_iter_begin(&it) : tar_iter_seek(&it, (evfs_off_t)wild32(r, b.size()));
    while (ok && n <= bound) { n++; VF_CHECK(it.file_size >= 0 && it.header_offset >= 0, "hostile-iter:fields", "member at %ld of size %ld", (long)it.header_offset, (long)it.file_size); (void)tar_iter_file_offset(&it); ok = tar_iter_next(&it); } VF_CHECK(n <= bound, "hostile-iter:endless", "more than %zu members in %zu bytes", n, b.size()); vf_count("iterated", n);
    n = 0; ok = r.chance(1, 2) ? tar_rsrc_iter_begin(&ir) : tar_rsrc_iter_seek(&ir, (evfs_off_t)wild32(r, b.size()));
    while (ok && n <= bound) { n++; size_t o = tar_rsrc_iter_file_offset(&ir); VF_CHECK(o <= mem.n && ir.file_size <= mem.n - o, "hostile-iter:rsrc-bounds", "member data at %zu of size %zu in %zu bytes", o, ir.file_size, mem.n); if (o <= mem.n && ir.file_size <= mem.n - o) { volatile uint8_t s = 0; for (size_t q = 0; q < ir.file_size; q++) s = (uint8_t)(s + mem.p[o + q]); } ok = tar_rsrc_iter_next(&ir); } VF_CHECK(n <= bound, "hostile-iter:endless", "more than %zu members in %zu bytes", n, b.size());
    vf_seen(vf_hash(vf_fmt("%zu %zu", n, b.size() / 512)));
  }
  tar_iter_close(&it); evfs_unregister_all();
}
static void rom_case(Rng &r, uint64_t) {
  RomImage t = rom_random(r); Model m = t.model(); int kind = (int)r.below(8); Str &b = t.bytes;
  if (kind == 0) { b = r.bytes(r.below(2000)); if (r.chance(1, 2) && b.size() >= 16) memcpy(&b[0], "-rom1fs-", 8); if (b.size() > 32) { RomImage::be(b, 8, (uint32_t)b.size()); t.fix_super(); } }
  else if (kind == 1) { damage(r, b, r.range(1, 5)); if (r.chance(1, 2) && b.size() > 64) t.fix_super(); }
  else if (kind == 2) { b.resize(r.below(b.size() + 1)); if (r.chance(1, 2) && b.size() > 32) { RomImage::be(b, 8, (uint32_t)b.size()); t.fix_super(); } }
  else {
    std::vector<size_t> pos; for (auto &x : t.dp) { if (x.dot) pos.push_back(x.dot); if (x.dotdot) pos.push_back(x.dotdot); } for (auto &x : t.n) if (x.pos) pos.push_back(x.pos);
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
      size_t at = r.pick(pos); if (at + 32 > b.size()) continue; size_t nl = strnlen(&b[at + 16], b.size() - at - 16); size_t len = 16 + ((nl + 16) & ~(size_t)15);
      uint32_t target = r.chance(2, 3) ? (uint32_t)r.pick(pos) : wild32(r, b.size()) & ~15u;
      switch (r.below(7)) {
      case 0: RomImage::be(b, at, target | (uint32_t)((unsigned char)b[at + 3] & 15)); break;      // next pointer
      case 1: RomImage::be(b, at, (target & ~15u) | (uint32_t)r.below(16)); break;                   // next and type
      case 2: b[at + 3] = (char)(((unsigned char)b[at + 3] & 0xF0) | r.below(16)); break;           // type
      case 3: RomImage::be(b, at + 4, r.chance(1, 2) ? target : wild32(r, b.size())); break;        // spec info: link target, first entry
      case 4: RomImage::be(b, at + 8, wild32(r, b.size())); break;                                 // size
      case 5: { size_t l = std::min(b.size() - at - 16, (size_t)r.below(80)); for (size_t j = 0; j < l; j++) b[at + 16 + j] = r.chance(1, 8) ? '/' : (char)(1 + r.below(255)); nl = strnlen(&b[at + 16], b.size() - at - 16); len = 16 + ((nl + 16) & ~(size_t)15); break; } // name
      default: RomImage::be(b, 8, wild32(r, b.size())); break;                                     // image size
      }
      if (r.chance(15, 16)) t.fix(at, std::min(len, b.size() - at));
    }
    if (r.chance(1, 6)) b.resize(b.size() - r.below(std::min<size_t>(b.size(), 64)));
    if (b.size() > 64) t.fix_super();
  }
  vf_note("%zu bytes", b.size()); mounted(r, b, m, false);
}
static void rotate_case(Rng &r, uint64_t) {
  MemFs base("mem"); base.no_dots = r.chance(1, 2); base.reg(false); RotateConfig c; c.chunk_size = (uint32_t)r.pick(std::vector<int>{32, 40, 64}); c.max_chunks = (uint32_t)r.range(2, 6);
  // a genuine container first
  evfs_register_rotate("rot", "mem", &c, false); EvfsFile *f = nullptr; evfs_open_ex("/log", &f, EVFS_WRITE | EVFS_APPEND, "rot"); if (f) { Str d = r.bytes(r.below(400)); evfs_file_write(f, d.data(), d.size()); evfs_file_close(f); } evfs_unregister(evfs_find_vfs("rot"));
  MemP d = base.at("/log"); int n = r.range(1, 5);
  for (int i = 0; i < n && d; i++) switch (r.below(7)) {
    case 0: case 1: { Str nm; switch (r.below(9)) { case 0: nm = vf_fmt("%08X.cnk", (unsigned)wild32(r, 100)); break; case 1: nm = vf_fmt("%x.cnk", (unsigned)wild32(r, 100)); break; case 2: nm = ".cnk"; break; case 3: nm = "-1.cnk"; break; case 4: nm = Str(r.below(200) + 1, 'f') + ".cnk"; break; case 5: nm = img_name(r, 100) + ".cnk"; break; case 6: nm = vf_fmt("%08X.cnk ", (unsigned)r.below(9)); break; case 7: nm = vf_fmt("%u.cnk", (unsigned)wild32(r, 90)); break; default: nm = vf_fmt("%08d.cnk", (int)r.below(20)); } base.put("/log/" + nm, r.bytes(r.below(200))); break; }
    case 2: if (!d->kids.empty()) { auto &k = d->kids[r.below(d->kids.size())]; k.second->data = r.bytes(r.below(80)); } break;                 // replaced contents
    case 3: if (!d->kids.empty()) { auto &k = d->kids[r.below(d->kids.size())]; damage(r, k.second->data, 2); } break;
    case 4: if (!d->kids.empty()) d->kids.erase(d->kids.begin() + (long)r.below(d->kids.size())); break;
    case 5: for (auto &k : d->kids) if (k.first.find(".cnk") == Str::npos) { Str &s = k.second->data; for (size_t j = 0; j + 3 < s.size(); j += 4) if (r.chance(1, 3)) { uint32_t w = wild32(r, 300); memcpy(&s[j], &w, 4); } } break; // geometry data
    default: base.mkdirs("/log/" + vf_fmt("%08X.cnk", (unsigned)r.below(9))); break;
  }
  Str names; if (d) for (auto &k : d->kids) names += vf_q(k.first) + vf_fmt(" %zu; ", k.second->data.size()); vf_note("%s", names.c_str()); if (vf_want_sample()) vf_sample(names.substr(0, 300));
  vfalloc::start(); RotateConfig c2 = c; if (r.chance(1, 3)) { c2.chunk_size = 33; c2.max_chunks = 3; }
  if (evfs_register_rotate("rot", "mem", &c2, false) == EVFS_OK) {
    base.arm(100000000); long n0 = base.nops;
    for (int round = 0; round < 2 && !vf_case_failed(); round++) {
      f = nullptr; int rv = evfs_open_ex("/log", &f, r.pick(std::vector<int>{EVFS_READ, EVFS_RDWR, EVFS_WRITE | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_OVERWRITE}), "rot"); vf_count("offered");
      if (rv != EVFS_OK) { vf_count("rejected"); VF_CHECK(rv < 0 && !f, "hostile-rotate:open", "open returned %d", rv); vf_seen(vf_hash(vf_fmt("e%d", rv))); continue; } vf_count("accepted");
      long size = evfs_file_size(f); vf_seen(vf_hash(vf_fmt("s%ld", size)));
      for (int i = r.range(2, 14); i; i--) switch (r.below(7)) {
        case 0: { Str w = r.bytes(r.below(300)); ptrdiff_t g = evfs_file_write(f, w.data(), w.size()); VF_CHECK(g <= (ptrdiff_t)w.size(), "hostile-rotate:write", "write of %zu returned %ld", w.size(), (long)g); break; }
        case 1: evfs_file_seek(f, (evfs_off_t)(int32_t)wild32(r, 300), (EvfsSeekDir)r.range(0, 3)); break;
        case 2: { unsigned t = wild32(r, 300); evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t); break; }
        case 3: evfs_file_truncate(f, (evfs_off_t)r.below(400)); break;
        case 4: (void)evfs_file_tell(f); (void)evfs_file_eof(f); evfs_file_sync(f); break;
        default: { size_t q = r.below(700); Guarded b(q); ptrdiff_t g = evfs_file_read(f, b.p, q); VF_CHECK(g <= (ptrdiff_t)q && b.intact(), "hostile-rotate:read", "read of %zu returned %ld", q, (long)g); } }
      evfs_file_close(f);
      VF_CHECK(base.nops - n0 < 200000, "hostile-rotate:endless", "%ld operations on the base", base.nops - n0);
    }
    if (r.chance(1, 3)) evfs_delete_ex("/log", "rot");
    EvfsInfo inf; evfs_stat_ex("/log", &inf, "rot"); evfs_unregister(evfs_find_vfs("rot"));
  }
  long l = vfalloc::stop(); if (!vf_case_failed()) { VF_CHECK(l == 0, "hostile-rotate:leak", "%ld allocations live: %s", l, vfalloc::describe_live().c_str()); VF_CHECK(base.open_files == 0 && base.open_dirs == 0, "hostile-rotate:handles", "%ld files %ld dirs open", base.open_files, base.open_dirs); }
  evfs_unregister_all();
}
void vf_setup() {
  evfs_init();
  vf_suite("tar", 20000, 1000000, tar_case);
  vf_suite("iter", 10000, 400000, iter_case);
  vf_suite("rom", 20000, 1000000, rom_case);
  vf_suite("rotate", 12000, 600000, rotate_case);
}
