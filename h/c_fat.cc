// C24 (and the FAT part of C16, C26, C15): FAT volumes against a model file system and an independent reader of the image.
#include <climits>
#include <limits>
#include "images.h"
extern "C" {
#include "ff.h"
#include "evfs/fatfs_fs.h"
#include "evfs/fatfs_image.h"
}
#include <algorithm>

// ---------------------------------------------------------------- independent image reader
struct FatImg {
  const Str &b; bool ok = false; Str err; int type = 0; size_t base = 0, spc = 0, fatsz = 0, nfat = 0, rsvd = 0, rootents = 0, total = 0, rootstart = 0, datastart = 0, ncl = 0, rootclus = 0, freecl = 0;
  std::vector<uint32_t> fat; std::vector<int> used; Model tree; size_t rootfree = 0; std::map<Str, size_t> clusters;
  uint32_t u8(size_t o) const { return o < b.size() ? (unsigned char)b[o] : 0; }
  uint32_t u16(size_t o) const { return u8(o) | u8(o + 1) << 8; }
  uint32_t u32(size_t o) const { return u16(o) | u16(o + 2) << 16; }
  void bad(const Str &e) { if (err.empty()) err = e; }
  explicit FatImg(const Str &bytes, bool whole = true) : b(bytes) {
    if (b.size() < 512 || u16(510) != 0xAA55) { bad("no boot sector"); return; }
    if (!(u8(0) == 0xEB || u8(0) == 0xE9) || u16(11) != 512) { base = (size_t)u32(446 + 8) * 512; if (!base || base + 512 > b.size()) { bad("no partition"); return; } }
    if (u16(base + 11) != 512) { bad("no volume"); return; }
    spc = u8(base + 13); rsvd = u16(base + 14); nfat = u8(base + 16); rootents = u16(base + 17); total = u16(base + 19) ? u16(base + 19) : u32(base + 32); fatsz = u16(base + 22) ? u16(base + 22) : u32(base + 36);
    if (!spc || !nfat || !fatsz) { bad("bad parameters"); return; }
    size_t rootsec = rootents * 32 / 512; rootstart = rsvd + nfat * fatsz; datastart = rootstart + rootsec; if (datastart >= total || base + total * 512 > b.size()) { bad("volume larger than the image"); return; }
    ncl = (total - datastart) / spc; type = ncl < 4086 ? 12 : ncl < 65526 ? 16 : 32; if (rootents == 0) { type = 32; rootclus = u32(base + 44); }
    fat.resize(ncl + 2); used.assign(ncl + 2, 0); size_t f0 = base + rsvd * 512;
    for (size_t i = 0; i < ncl + 2; i++) { uint32_t v; if (type == 12) { v = u16(f0 + i + i / 2); v = i & 1 ? v >> 4 : v & 0xFFF; if (v >= 0xFF8) v = 0x0FFFFFF8; } else if (type == 16) { v = u16(f0 + i * 2); if (v >= 0xFFF8) v = 0x0FFFFFF8; } else { v = u32(f0 + i * 4) & 0x0FFFFFFF; } fat[i] = v; if (i >= 2 && v == 0) freecl++; }
    for (size_t k = 1; k < nfat; k++) if (memcmp(&b[f0], &b[f0 + k * fatsz * 512], fatsz * 512) != 0) bad("the copies of the allocation table differ");
    tree["/"].dir = true; Str root; if (type == 32) { std::vector<uint32_t> c; if (!chain(rootclus, "/", c)) return; root = bytes_of(c); } else root = b.substr(base + rootstart * 512, rootsec * 512);
    dir(root, "", 0, 0); size_t run = 0; for (size_t i = 0; i + 32 <= root.size(); i += 32) { unsigned char x = (unsigned char)root[i]; if (x == 0 || x == 0xE5) { run++; rootfree = std::max(rootfree, run); } else run = 0; }
    if (whole) for (size_t i = 2; i < ncl + 2; i++) if (fat[i] && !used[i]) { bad(vf_fmt("cluster %zu is allocated but belongs to no file", i)); break; }
    ok = err.empty();
  }
  bool chain(uint32_t c, const Str &who, std::vector<uint32_t> &out) {
    while (c >= 2 && c < ncl + 2) { if (used[c]) { bad(vf_fmt("%s shares cluster %u with another file or itself", vf_q(who).c_str(), c)); return false; } used[c] = 1; out.push_back(c); c = fat[c]; }
    if (c < 0x0FFFFFF8) { bad(vf_fmt("the chain of %s ends with %x", vf_q(who).c_str(), c)); return false; }
    clusters[who] = out.size(); return true;
  }
  Str bytes_of(const std::vector<uint32_t> &c) const { Str r; for (uint32_t x : c) r += b.substr(base + (datastart + (size_t)(x - 2) * spc) * 512, spc * 512); return r; }
  void dir(const Str &d, const Str &path, uint32_t self, uint32_t parent) {
    Str lfn; int want = 0; unsigned sum = 0; std::set<Str> names; bool end = false;
    for (size_t o = 0; o + 32 <= d.size() && err.empty(); o += 32) {
      const unsigned char *e = (const unsigned char *)&d[o]; if (e[0] == 0) { end = true; want = 0; } if (end) continue; if (e[0] == 0xE5) { want = 0; continue; }
      if ((e[11] & 0x3F) == 0x0F) {
        static const int P[] = {1, 3, 5, 7, 9, 14, 16, 18, 20, 22, 24, 28, 30}; int ord = e[0] & 0x3F; if (e[0] & 0x40) { lfn.clear(); want = ord; sum = e[13]; } else if (ord != want || e[13] != sum) { bad("broken long name sequence in " + path); return; }
        Str part; for (int p : P) { unsigned ch = e[p] | e[p + 1] << 8; if (ch == 0 || ch == 0xFFFF) break; part += (char)ch; } lfn = part + lfn; want = ord - 1; if (want == 0) want = -1; continue;
      }
      if (e[11] & 8) { want = 0; continue; }
      uint32_t cl = (uint32_t)(e[26] | e[27] << 8) | (type == 32 ? (uint32_t)(e[20] | e[21] << 8) << 16 : 0); uint32_t size = (uint32_t)e[28] | (uint32_t)e[29] << 8 | (uint32_t)e[30] << 16 | (uint32_t)e[31] << 24;
      if (e[0] == '.') { bool two = e[1] == '.'; if (cl != (two ? parent : self)) bad(vf_fmt("the %s entry of %s refers to cluster %u", two ? "'..'" : "'.'", vf_q(path).c_str(), cl)); want = 0; continue; }
      Str sfn; for (int i = 0; i < 8 && e[i] != ' '; i++) { char ch = (char)e[i]; if ((e[12] & 8) && isupper((unsigned char)ch)) ch = (char)tolower(ch); sfn += ch; } if (e[8] != ' ') { sfn += '.'; for (int i = 8; i < 11 && e[i] != ' '; i++) { char ch = (char)e[i]; if ((e[12] & 16) && isupper((unsigned char)ch)) ch = (char)tolower(ch); sfn += ch; } }
      unsigned char s = 0; for (int i = 0; i < 11; i++) s = (unsigned char)((s >> 1) + (s << 7) + e[i]);
      Str name = sfn; if (want == -1) { if (s == sum) name = lfn; else { bad("a long name does not belong to its entry in " + path); return; } } else if (want > 0) { bad("unfinished long name in " + path); return; } want = 0;
      Str key; for (char ch : name) key += (char)toupper((unsigned char)ch); if (!names.insert(key).second || !names.insert("\1" + Str((const char *)e, 11)).second) { bad(vf_fmt("%s appears twice in %s", vf_q(name).c_str(), vf_q(path).c_str())); return; }
      Str p = path + "/" + name; ModelNode n; n.dir = e[11] & 16; std::vector<uint32_t> c; if (cl || n.dir) if (!chain(cl, p, c)) return;
      if (n.dir) { tree[p] = n; Str sub = bytes_of(c); if (sub.size() < 64 || sub[0] != '.' || sub[32] != '.') { bad("directory without dot entries: " + p); return; } dir(sub, p, cl, self); }
      else { Str data = bytes_of(c); if (size > data.size() ) { bad(vf_fmt("%s of %u bytes has only %zu allocated", vf_q(p).c_str(), size, data.size())); return; } if (c.size() > (size + spc * 512 - 1) / (spc * 512) ) bad(vf_fmt("%s of %u bytes has %zu clusters", vf_q(p).c_str(), size, c.size())); n.data = data.substr(0, size); tree[p] = n; }
    }
  }
};

// ---------------------------------------------------------------- model
// The wall clock of the whole process is simulated, so that every date FAT can hold, and every hour, occurs.
static time_t s_clock; extern "C" time_t time(time_t *t) noexcept { time_t n = s_clock; if (!n) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); n = ts.tv_sec; } if (t) *t = n; return n; }
static void clock_start(Rng &r) { static const char *Z[] = {"UTC0", "UTC0", "XST5", "AAA-5:30", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3"}; const char *z = Z[r.below(6)]; setenv("TZ", z, 1); tzset(); s_clock = r.chance(1, 12) ? (time_t)r.below(315000000) : 315792000 + (time_t)r.below(4038000000ull); vf_note("clock %ld, time zone %s", (long)s_clock, z); vf_count(s_clock < 315532800 ? "clock_before_1980" : s_clock > 2335219200 ? "clock_after_2043" : "clock_1980_2043"); }
static void clock_tick(Rng &r) { if (s_clock) s_clock += r.chance(1, 30) ? (time_t)r.below(90000) : r.chance(1, 4) ? (time_t)r.below(40) : 0; }
static bool clock_between(time_t t, time_t from, time_t to) { // the two-second steps of FAT, and local times that occur twice
  if (from < 315360000 && to < 315360000) { struct tm b = {}; b.tm_year = 80; b.tm_mday = 1; b.tm_isdst = -1; return t == mktime(&b); } if (from < 315705600) return true; for (int d : {0, 3600, -3600}) { time_t x = t + d; if (x < from - 2 || x > to) continue; if (!d) return true; struct tm a, b; localtime_r(&t, &a); localtime_r(&x, &b); if (a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday) return true; } return false; }
struct FNode { Str name; bool dir = false; Str data, known; FNode *up = nullptr; std::vector<std::unique_ptr<FNode>> kids; int open = 0; bool dirty = false, touched = false; time_t mod = 0, closed = 0;
  static Str fold(const Str &s) { Str r; for (char c : s) r += (char)toupper((unsigned char)c); return r; }
  FNode *find(const Str &n) { Str f = fold(n); for (auto &k : kids) if (fold(k->name) == f) return k.get(); return nullptr; }
  Str path() const { return up ? (up->up ? up->path() : Str()) + "/" + name : Str("/"); }
  bool anyopen() const { if (open) return true; for (auto &k : kids) if (k->anyopen()) return true; return false; } };
struct FRes { int err = EVFS_OK; FNode *node = nullptr, *parent = nullptr; Str leaf; bool dot = false, none = false; };
struct FModel {
  FNode root; FNode *cwd = &root; FModel() { root.dir = true; }
  FRes walk(Str p) {
    FRes r; if (p.size() >= EVFS_MAX_PATH) { r.err = EVFS_ERR_TOO_LONG; return r; } if (p.size() > 1 && isdigit((unsigned char)p[0]) && p[1] == ':') p = p.substr(2);
    FNode *c = p.empty() || (p[0] != '/' && p[0] != '\\') ? cwd : &root; std::vector<Str> s = vf_split(p);
    if (s.empty()) { r.node = c; r.none = true; return r; }
    for (size_t i = 0; i < s.size(); i++) {
      bool last = i + 1 == s.size(); Str n = s[i];
      if (n == "." || n == "..") { bool at_root = !c->up; if (n == ".." && c->up) c = c->up; if (last) { r.node = c; r.dot = true; r.none = at_root; return r; } continue; }
      for (char ch : n) if (strchr("*:<>|\"?\x7f", ch) || (unsigned char)ch < 32) { r.err = EVFS_ERR_BAD_NAME; return r; }
      while (!n.empty() && (n.back() == ' ' || n.back() == '.')) n.pop_back(); if (n.empty()) { r.err = EVFS_ERR_BAD_NAME; return r; }
      FNode *k = c->find(n); if (!k) { r.err = last ? EVFS_ERR_NO_FILE : EVFS_ERR_NO_PATH; if (last) { r.parent = c; r.leaf = n; } return r; }
      if (last) { r.node = k; r.parent = c; r.leaf = n; return r; }
      if (!k->dir) { r.err = EVFS_ERR_NO_PATH; return r; } c = k;
    }
    return r;
  }
  static void all(FNode *n, std::vector<FNode *> &o) { o.push_back(n); for (auto &k : n->kids) all(k.get(), o); }
  std::vector<FNode *> all() { std::vector<FNode *> o; all(&root, o); return o; }
  FNode *add(FNode *p, const Str &n, bool dir) { p->kids.emplace_back(new FNode); FNode *k = p->kids.back().get(); k->name = n; k->dir = dir; k->up = p; k->mod = time(nullptr); return k; }
  static void drop(FNode *n) { auto &v = n->up->kids; for (size_t i = 0; i < v.size(); i++) if (v[i].get() == n) { v.erase(v.begin() + (long)i); return; } }
};
static bool same_data(const FNode *n, const Str &d, size_t at = 0) { for (size_t i = 0; i < d.size(); i++) if (n->known[at + i] && n->data[at + i] != d[i]) return false; return true; }

static Str fat_name(Rng &r) {
  static const char *N[] = {"a", "b", "FILE.TXT", "file.txt", "readme", "Mixed.Case", "longer name with spaces.text", "x.y.z", ".hidden", "12345678.123", "123456789.1234", "lower.TXT", "UPPER.txt", "plus+equal=", "sub", "dir", "tail.", "tail..", "sp ", " lead", "0", "a.b", "[br],;ok"};
  if (r.chance(5, 6)) return N[r.below(23)];
  if (r.chance(1, 6)) { static const char *B[] = {"st*r", "q?", "co:lon", "<", "a|b", "\"q\"", "...", "  ", "d\x7f", "."}; return B[r.below(10)]; }
  size_t n = r.chance(1, 3) ? 100 + r.below(140) : r.chance(1, 2) ? 12 + r.below(16) : 1 + r.below(13); Str s; for (size_t i = 0; i < n; i++) s += (char)('a' + r.below(6) + (r.chance(1, 3) ? 'A' - 'a' : 0)); return s;
}
static Str fat_spell(Rng &r, const Str &p, int pdrv) {
  Str o; for (char c : p) { if (c == '/' && r.chance(1, 8)) o += r.chance(1, 2) ? "\\" : "//"; else if (isalpha((unsigned char)c) && r.chance(1, 12)) o += (char)(c ^ 32); else o += c; }
  if (r.chance(1, 10) && !o.empty()) o += r.chance(1, 2) ? "/" : "\\"; if (r.chance(1, 12)) o = vf_fmt("%d:", pdrv) + o; if (r.chance(1, 15)) o += "/."; return o;
}

static const Str &fat32_image() { // large enough to need 32-bit cluster numbers
  static Str img; if (!img.empty()) return img; MemFs b("mk"); b.reg(true); b.put("/i", Str(36u << 20, 0)); EvfsFile *f = nullptr; evfs_open_ex("/i", &f, EVFS_RDWR, "mk"); (void)f; evfs_file_close(f);
  // format through the library: mount needs a volume first, so a plain image is made and formatted again as FAT32
  b.root->kids.clear(); if (fatfs_make_image("/i", 1, 36 << 20) != EVFS_OK || fatfs_mount_image("/i", 1) != EVFS_OK) { vf_violation("fat:make32", "cannot make the image"); return img; }
  MKFS_PARM o; memset(&o, 0, sizeof o); o.fmt = FM_FAT32 | FM_SFD; o.au_size = 512; static char buf[8192]; FRESULT e = f_mkfs("1:", &o, buf, sizeof buf); fatfs_unmount_image(1); if (e != FR_OK) vf_violation("fat:make32", "mkfs returned %d", e); img = b.at("/i")->data; evfs_unregister_all(); return img;
}

struct Vol {
  int pdrv; Str v, img; FModel m; MemFs &base; Rng &r; size_t maxw; bool readonly = false;
  struct H { EvfsFile *f = nullptr; FNode *n = nullptr; int flags = 0; size_t pos = 0; }; std::vector<H> h; bool full_seen = false;
  Vol(int p, MemFs &b, Rng &rr, const Str &name) : pdrv(p), v(vf_fmt("fat%d", p)), img(name), base(b), r(rr), maxw(3000), h(4) {}
  Str K(const char *s) { return Str("fat:") + s; }
  const Str &bytes() { return base.at(img)->data; }
  bool mount() { int rv = fatfs_mount_image(img.c_str(), (uint8_t)pdrv); VF_CHECK(rv == EVFS_OK, "fat:mount", "mounting returned %s", ev_err(rv)); if (rv) return false; rv = evfs_register_fatfs(v.c_str(), (uint8_t)pdrv, false); VF_CHECK(rv == EVFS_OK, "fat:register", "%s", ev_err(rv)); return rv == EVFS_OK; }
  void close_all() { for (auto &x : h) if (x.f) close(x); }
  void close(H &x) { int rv = evfs_file_close(x.f); VF_CHECK(rv == EVFS_OK, "fat:close", "close of %s returned %s", vf_q(x.n->path()).c_str(), ev_err(rv)); x.n->open--; x.n->dirty = false; x.n->closed = time(nullptr); x.f = nullptr; }
  void unmount() { close_all(); evfs_unregister(evfs_find_vfs(v.c_str())); fatfs_unmount_image((uint8_t)pdrv); m.cwd = &m.root; }
  // space is really exhausted
  bool full(FNode *parent) { for (auto &x : h) if (x.f) evfs_file_sync(x.f); FatImg i(bytes(), false); full_seen = true; vf_count("full"); return i.freecl < (parent ? 4 : 1) || (parent && !parent->up && i.type != 32 && i.rootfree < 22); }
  Str rpath() {
    std::vector<FNode *> a = m.all(); Str p;
    if (r.chance(3, 5)) { FNode *n = r.pick(a); p = n->path(); if (r.chance(1, 3)) p = (p == "/" ? "" : p) + "/" + fat_name(r); }
    else { std::vector<FNode *> d; for (auto x : a) if (x->dir) d.push_back(x); FNode *n = r.pick(d); p = (n->up ? n->path() : "") + "/" + fat_name(r); if (r.chance(1, 8)) p += "/" + fat_name(r); }
    if (r.chance(1, 4)) { Str c = m.cwd->path(); if (c == "/") p = p.substr(1); else if (p.size() > c.size() && p.compare(0, c.size(), c) == 0 && p[c.size()] == '/') p = p.substr(c.size() + 1); else if (r.chance(1, 2)) { Str up; for (FNode *n = m.cwd; n->up; n = n->up) up += "../"; p = up + p.substr(1); } }
    if (r.chance(1, 14)) p += r.pick(std::vector<Str>{"/..", "/.", "/../..", "/../b"}); if (r.chance(1, 60)) p = "/" + Str(r.range(230, 300), 'L'); if (r.chance(1, 60)) p = "";
    p = fat_spell(r, p, pdrv); return p;
  }
  void open() {
    H &x = h[r.below(4)]; if (x.f) { vf_note("close"); close(x); return; }
    Str p = rpath(); static const int F[] = {EVFS_READ, EVFS_RDWR, EVFS_WRITE, EVFS_WRITE | EVFS_OVERWRITE, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_NO_EXIST, EVFS_RDWR | EVFS_OVERWRITE, EVFS_WRITE | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_NO_EXIST}; int fl = readonly && r.chance(1, 2) ? 1 + (int)r.below(63) : F[r.below(11)];
    FRes w = m.walk(p); if (w.node && w.node->open) return; // FatFs does not support opening a file twice
    bool create = fl & (EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND); int want = EVFS_OK;
    if (readonly && (fl & ~EVFS_READ)) want = EVFS_ERR_DISABLED;
    else if (w.err && !(w.err == EVFS_ERR_NO_FILE && create)) want = w.err;
    else if (w.none) want = EVFS_ERR_BAD_NAME;
    else if (w.node && w.node->dir) want = create ? EVFS_ERR_AUTH : EVFS_ERR_NO_FILE;
    else if (w.node && (fl & EVFS_NO_EXIST)) want = EVFS_ERR_EXISTS;
    vf_note("%s open %s 0x%x", v.c_str(), vf_q(p).c_str(), fl); EvfsFile *f = (EvfsFile *)(intptr_t)1; int rv = evfs_open_ex(p.c_str(), &f, fl, v.c_str()); vf_count("opens");
    if (want == EVFS_OK && !w.node && rv == EVFS_ERR_AUTH) { VF_CHECK(!f, "fat:handle", "failed open left a handle"); VF_CHECK(full(w.parent), "fat:open-denied", "creating %s was refused although there is space", vf_q(p).c_str()); return; }
    VF_CHECK(rv == want, "fat:open", "open %s 0x%x returned %s, expected %s", vf_q(p).c_str(), fl, ev_err(rv), ev_err(want));
    if (rv != EVFS_OK) { VF_CHECK(!f, "fat:handle", "failed open left a handle"); return; } if (want != EVFS_OK) { evfs_file_close(f); return; }
    FNode *n = w.node; if (!n) { n = m.add(w.parent, w.leaf, false); } else if (fl & EVFS_OVERWRITE) { n->data.clear(); n->known.clear(); n->mod = time(nullptr); }
    n->open++; n->touched = true; x.f = f; x.n = n; x.flags = fl; x.pos = fl & EVFS_APPEND ? n->data.size() : 0;
  }
  void resize(FNode *n, size_t s) { n->data.resize(s, 0); n->known.resize(s, 0); }
  size_t rwlen() { return r.chance(1, 4) ? r.below(maxw) : r.chance(1, 4) ? 512 * (1 + r.below(4)) : r.below(80); }
  void wr_at(H &x, size_t len) {
    FNode *n = x.n; size_t size = n->data.size(); bool wr = x.flags & EVFS_WRITE;
      Str d = r.bytes(len); vf_note("%s write %zu at %zu of %zu", n->name.c_str(), len, x.pos, size); ptrdiff_t g = evfs_file_write(x.f, d.data(), len); vf_count("writes");
      if (readonly || !wr) { VF_CHECK(g == (readonly ? EVFS_ERR_DISABLED : EVFS_ERR_AUTH), "fat:write-refuse", "write returned %ld", (long)g); return; }
      if (x.flags & EVFS_APPEND) x.pos = size;
      if (g != (ptrdiff_t)len) { VF_CHECK(g > 0 ? g < (ptrdiff_t)len : g == EVFS_ERR_FS_FULL, "fat:write", "write of %zu returned %ld", len, (long)g); if (!vf_case_failed()) VF_CHECK(full(nullptr), "fat:write-short", "a write of %zu stored %ld although there is space", len, (long)g); }
      if (g > 0) { if (x.pos + (size_t)g > size) resize(n, x.pos + (size_t)g); n->data.replace(x.pos, (size_t)g, d, 0, (size_t)g); std::fill_n(n->known.begin() + (long)x.pos, g, 1); x.pos += (size_t)g; n->dirty = true; n->mod = time(nullptr); vf_seen(vf_hash(vf_fmt("w %zu %zu", x.pos, size))); }
  }
  void rd_at(H &x, size_t len) {
    FNode *n = x.n; size_t size = n->data.size();
      Guarded b(len); vf_note("%s read %zu at %zu of %zu", n->name.c_str(), len, x.pos, size); ptrdiff_t g = evfs_file_read(x.f, b.p, len); vf_count("reads");
      if (!(x.flags & EVFS_READ)) { VF_CHECK(g == EVFS_ERR_AUTH, "fat:read-refuse", "read returned %ld", (long)g); return; }
      size_t want = std::min(len, size - x.pos); VF_CHECK(g == (ptrdiff_t)want && b.intact(), "fat:read", "%s: read of %zu at %zu of %zu returned %ld", vf_q(n->name).c_str(), len, x.pos, size, (long)g);
      if (g == (ptrdiff_t)want) { VF_CHECK(same_data(n, Str(b.p, want), x.pos), "fat:data", "%s: the %zu bytes read at %zu differ", vf_q(n->path()).c_str(), want, x.pos); x.pos += want; vf_seen(vf_hash(vf_fmt("r %zu %zu", x.pos, size))); }
  }
  // accesses of whole and partial sectors close to each other: what one leaves in a buffer the next one must not miss
  void burst(H &x) {
    for (int i = r.range(3, 9); i-- > 0 && !vf_case_failed();) { size_t size = x.n->data.size(), sec = r.below(size / 512 + 1), to = std::min(size, sec * 512 + (r.chance(1, 3) ? r.below(512) : 0)); if (!(i & 1) || r.chance(1, 2)) { vf_note("%s to %zu", x.n->name.c_str(), to); int rv = evfs_file_seek(x.f, (evfs_off_t)to, EVFS_SEEK_TO); VF_CHECK(rv == EVFS_OK, "fat:seek", "seek to %zu of %zu returned %s", to, size, ev_err(rv)); x.pos = to; if (vf_case_failed()) return; }
      size_t len = r.chance(1, 3) ? 1 + r.below(40) : 512 * (1 + r.below(8)) + (r.chance(1, 3) ? r.below(300) : 0); if ((x.flags & EVFS_WRITE) && r.chance(2, 5)) wr_at(x, len); else rd_at(x, len); }
    vf_count("bursts");
  }
  void file(H &x) {
    FNode *n = x.n; size_t size = n->data.size(); int k = (int)r.below(20); bool wr = x.flags & EVFS_WRITE;
    if (k < 6) wr_at(x, rwlen());
    else if (k < 11) rd_at(x, rwlen());
    else if (k < 14) {
      EvfsSeekDir d = (EvfsSeekDir)r.pick(std::vector<int>{EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); long off = r.chance(1, 3) ? 512 * (long)r.below(5) : (long)r.below(r.chance(1, 2) ? size + 2 : 200); if (d == EVFS_SEEK_REL && r.chance(1, 2)) off = -off; if (d == EVFS_SEEK_REV && r.chance(1, 10)) off = -off; if (r.chance(1, 40)) { const __int128 lo = std::numeric_limits<evfs_off_t>::min(), hi = std::numeric_limits<evfs_off_t>::max(); __int128 w = wr || r.chance(1, 3) ? lo + (long)r.below(2) : (d == EVFS_SEEK_TO ? hi : d == EVFS_SEEK_REL ? hi - (long)x.pos : (__int128)size - hi) + r.range(-2, 2); if (!wr || d != EVFS_SEEK_REV) { off = (long)std::max(lo, std::min(hi, w)); vf_count("extreme_seeks"); } }
      __int128 to = d == EVFS_SEEK_TO ? off : d == EVFS_SEEK_REL ? (__int128)x.pos + off : (__int128)size - off; long np = to < 0 ? 0 : to > LONG_MAX ? LONG_MAX : (long)to; vf_note("%s seek %d %ld", n->name.c_str(), d, off); int rv = evfs_file_seek(x.f, (evfs_off_t)off, d); vf_count("seeks");
      if (np > (long)size && wr && readonly) VF_CHECK(rv == EVFS_ERR_DISABLED, "fat:seek-readonly", "seek beyond the end of a writable file on a read-only volume returned %s", ev_err(rv));
      else if (np > (long)size && wr) {
        if (rv == EVFS_ERR_FS_FULL) { long s2 = evfs_file_size(x.f); VF_CHECK(s2 >= (long)size && s2 < np, "fat:seek-full", "size %ld after a failed seek to %ld of %zu", s2, np, size); resize(n, (size_t)s2); if (s2 > (long)size) n->dirty = true; np = evfs_file_tell(x.f); VF_CHECK(np >= 0 && np <= s2, "fat:tell", "position %ld", np); VF_CHECK(full(nullptr), "fat:seek-refused", "no room although there is space"); x.pos = (size_t)np; return; }
        VF_CHECK(rv == EVFS_OK, "fat:seek", "extending seek to %ld returned %s", np, ev_err(rv)); if (rv == EVFS_OK) { resize(n, (size_t)np); x.pos = (size_t)np; n->dirty = true; n->mod = time(nullptr); vf_count("extended"); } }
      else { VF_CHECK(rv == EVFS_OK, "fat:seek", "seek to %ld of %zu returned %s", np, size, ev_err(rv)); x.pos = std::min((size_t)np, size); }
      long t = evfs_file_tell(x.f); VF_CHECK(t == (long)x.pos, "fat:tell", "position %ld after a seek, expected %zu", t, x.pos);
    } else if (k < 16) {
      long to = r.chance(1, 5) ? (long)size + (long)r.below(600) : r.chance(1, 12) ? -(long)r.below(100) - 1 : (long)r.below(size + 2); vf_note("%s truncate %zu -> %ld at %zu", n->name.c_str(), size, to, x.pos); int rv = evfs_file_truncate(x.f, (evfs_off_t)to); vf_count("truncates");
      if (readonly) VF_CHECK(rv == EVFS_ERR_DISABLED, "fat:truncate-readonly", "%s", ev_err(rv));
      else if (to < 0 || !wr) VF_CHECK(rv < 0, "fat:truncate-refuse", "truncate(%ld) of a %s file returned %s", to, wr ? "writable" : "read-only", ev_err(rv));
      else { VF_CHECK(rv == EVFS_OK, "fat:truncate", "truncate(%ld) of %zu returned %s", to, size, ev_err(rv)); if (to < (long)size) { resize(n, (size_t)to); n->dirty = true; n->mod = time(nullptr); } x.pos = std::min(x.pos, n->data.size()); long s2 = evfs_file_size(x.f), t = evfs_file_tell(x.f); VF_CHECK(s2 == (long)n->data.size() && t == (long)x.pos, "fat:truncate-size", "after truncate(%ld) of %zu: size %ld, position %ld (expected %zu, %zu)", to, size, s2, t, n->data.size(), x.pos); }
    } else if (k == 16) { int rv = evfs_file_sync(x.f); VF_CHECK(rv == EVFS_OK, "fat:sync", "%s", ev_err(rv)); n->dirty = false; vf_count("syncs"); }
    else if (k == 17) { vf_note("close %s", n->name.c_str()); close(x); }
    else if (k == 18 && !readonly && size > 512) burst(x);
    else { long s = evfs_file_size(x.f), t = evfs_file_tell(x.f); bool e = evfs_file_eof(x.f); VF_CHECK(s == (long)size && t == (long)x.pos && e == (x.pos >= size), "fat:query", "%s: size %ld tell %ld eof %d, expected %zu %zu", vf_q(n->path()).c_str(), s, t, e, size, x.pos); vf_count("queries"); }
  }
  void listing() {
    Str p = rpath(); FRes w = m.walk(p); int want = w.err == EVFS_ERR_NO_FILE ? EVFS_ERR_NO_PATH : w.err; if (!want && !w.node->dir) want = EVFS_ERR_NO_PATH;
    vf_note("%s list %s", v.c_str(), vf_q(p).c_str()); EvfsDir *d = (EvfsDir *)(intptr_t)1; int rv = evfs_open_dir_ex(p.c_str(), &d, v.c_str()); vf_count("listings");
    VF_CHECK(rv == want, "fat:open_dir", "open_dir %s returned %s, expected %s", vf_q(p).c_str(), ev_err(rv), ev_err(want)); if (rv != EVFS_OK) { VF_CHECK(!d, "fat:handle", "failed open_dir left a handle"); return; } if (want) { evfs_dir_close(d); return; }
    for (int pass = r.chance(1, 3) ? 0 : 1; pass < 2 && !vf_case_failed(); pass++) {
      size_t stop = pass == 0 ? r.below(w.node->kids.size() + 1) : (size_t)-1; std::set<Str> got; EvfsInfo i; size_t c = 0; rv = EVFS_OK;
      while (c < stop && (rv = evfs_dir_read(d, &i)) == EVFS_OK && c < 5000) {
        c++; Str nm = i.name ? i.name : "(null)"; FNode *k = nullptr; for (auto &y : w.node->kids) if (y->name == nm) k = y.get();
        VF_CHECK(k && got.insert(nm).second, "fat:listing", "%s lists %s%s", vf_q(w.node->path()).c_str(), vf_q(nm).c_str(), k ? " twice" : ", which is not there"); if (!k || vf_case_failed()) break;
        VF_CHECK(!!(i.type & EVFS_FILE_DIR) == k->dir && (k->dir || (k->open && k->dirty) || (size_t)i.size == k->data.size()), "fat:listing-info", "%s listed with type %d size %ld, it is a %s of %zu", vf_q(k->path()).c_str(), i.type, (long)i.size, k->dir ? "directory" : "file", k->data.size());
        if (k->mod && !k->open) { time_t last = std::max(k->mod, k->closed); vf_count("times_checked"); VF_CHECK(clock_between(i.mtime, k->mod, last), "fat:mtime", "%s has modification time %ld, it was last changed at %ld and closed at %ld", vf_q(k->path()).c_str(), (long)i.mtime, (long)k->mod, (long)last); }
      }
      if (stop == (size_t)-1 && !vf_case_failed()) { VF_CHECK(rv == EVFS_DONE, "fat:listing-end", "the listing of %s ends with %s", vf_q(w.node->path()).c_str(), ev_err(rv)); VF_CHECK(c == w.node->kids.size(), "fat:listing-missing", "%s lists %zu of %zu entries", vf_q(w.node->path()).c_str(), c, w.node->kids.size()); }
      if (pass == 0) { rv = evfs_dir_rewind(d); VF_CHECK(rv == EVFS_OK, "fat:rewind", "%s", ev_err(rv)); vf_count("rewinds"); }
    }
    rv = evfs_dir_close(d); VF_CHECK(rv == EVFS_OK, "fat:dir_close", "%s", ev_err(rv));
  }
  void ns() {
    Str p = rpath(); FRes w = m.walk(p); int k = (int)r.below(20);
    if (k < 5) {
      EvfsInfo i; memset(&i, 0x5a, sizeof i); vf_note("%s stat %s", v.c_str(), vf_q(p).c_str()); int rv = evfs_stat_ex(p.c_str(), &i, v.c_str()); vf_count("stats"); VF_CHECK(rv == w.err, "fat:stat", "stat %s returned %s, expected %s", vf_q(p).c_str(), ev_err(rv), ev_err(w.err));
      if (rv == EVFS_OK && !w.err) VF_CHECK(!!(i.type & EVFS_FILE_DIR) == w.node->dir && (w.node->dir || (w.node->open && w.node->dirty) || (size_t)i.size == w.node->data.size()), "fat:stat-info", "stat %s: type %d size %ld, it is a %s of %zu", vf_q(p).c_str(), i.type, (long)i.size, w.node->dir ? "directory" : "file", w.node->data.size());
      if (rv == EVFS_OK && !w.err && w.node->dir) VF_CHECK(i.size == 0, "fat:stat-dirsize", "stat of the directory %s gives size %ld", vf_q(p).c_str(), (long)i.size);
      if (rv == EVFS_OK && !w.err) { Str nm = i.name ? i.name : "(null)"; bool top = w.dot || w.none || !w.node->up; VF_CHECK(FNode::fold(nm) == FNode::fold(w.node->name) || (top && (nm == "" || nm == "/" || nm == "." || nm == "..")), "fat:stat-name", "stat %s gives the name %s, it is %s", vf_q(p).c_str(), vf_q(nm).c_str(), vf_q(w.node->name).c_str()); }
      bool ef = evfs_existing_file_ex(p.c_str(), v.c_str()), ed = evfs_existing_dir_ex(p.c_str(), v.c_str()); VF_CHECK(ef == (!w.err && !w.node->dir) && ed == (!w.err && w.node->dir), "fat:existing", "%s: existing_file %d existing_dir %d", vf_q(p).c_str(), ef, ed);
    } else if (k < 8) {
      int want = readonly ? EVFS_ERR_DISABLED : w.err == EVFS_ERR_NO_FILE ? EVFS_OK : w.err ? w.err : EVFS_ERR_EXISTS; vf_note("%s make_dir %s", v.c_str(), vf_q(p).c_str()); int rv = evfs_make_dir_ex(p.c_str(), v.c_str()); vf_count("make_dirs");
      if (want == EVFS_OK && rv == EVFS_ERR_AUTH) { VF_CHECK(full(w.parent), "fat:make_dir-denied", "make_dir %s refused although there is space", vf_q(p).c_str()); return; }
      VF_CHECK(rv == want, "fat:make_dir", "make_dir %s returned %s, expected %s", vf_q(p).c_str(), ev_err(rv), ev_err(want)); if (!want && !rv) m.add(w.parent, w.leaf, true);
    } else if (k < 12) {
      if (w.node && w.node->anyopen()) return; int want = readonly ? EVFS_ERR_DISABLED : w.err ? w.err : (w.dot || w.none) ? EVFS_ERR_BAD_NAME : w.node->dir && (!w.node->kids.empty() || w.node == m.cwd) ? EVFS_ERR_AUTH : EVFS_OK;
      vf_note("%s delete %s", v.c_str(), vf_q(p).c_str()); int rv = evfs_delete_ex(p.c_str(), v.c_str()); vf_count("deletes"); VF_CHECK(rv == want, "fat:delete", "delete %s returned %s, expected %s", vf_q(p).c_str(), ev_err(rv), ev_err(want)); if (!want && !rv) FModel::drop(w.node);
    } else if (k < 16) {
      if (w.node && w.node->anyopen()) return; Str q = rpath(); if (r.chance(1, 5) && w.node) { q = w.node->path(); for (auto &c : q) if (isalpha((unsigned char)c) && r.chance(1, 2)) c ^= 32; } if (r.chance(1, 8) && w.node && w.node->dir) q = w.node->path() + "/" + fat_name(r);
      FRes t = m.walk(q); int want = EVFS_OK; if (readonly) want = EVFS_ERR_DISABLED; else if (p.size() >= EVFS_MAX_PATH || q.size() >= EVFS_MAX_PATH) want = EVFS_ERR_TOO_LONG; else if (w.err) want = w.err; else if (w.dot || w.none) want = EVFS_ERR_BAD_NAME; else if (!t.err && t.node != w.node) want = EVFS_ERR_EXISTS; else if (!t.err && (t.dot || t.none)) want = EVFS_ERR_EXISTS; else if (t.err && t.err != EVFS_ERR_NO_FILE) want = t.err;
      bool sub = false; if (!want && w.node->dir) for (FNode *n = t.parent; n; n = n->up) if (n == w.node) sub = true; if (sub) want = EVFS_ERR_AUTH;
      vf_note("%s rename %s %s", v.c_str(), vf_q(p).c_str(), vf_q(q).c_str()); int rv = evfs_rename_ex(p.c_str(), q.c_str(), v.c_str()); vf_count("renames");
      if (want == EVFS_OK && rv == EVFS_ERR_AUTH && full(t.parent)) return;
      VF_CHECK(rv == want, "fat:rename", "rename %s to %s returned %s, expected %s", vf_q(p).c_str(), vf_q(q).c_str(), ev_err(rv), ev_err(want)); if (want || rv) return;
      auto &kv = w.node->up->kids; std::unique_ptr<FNode> own; for (size_t i = 0; i < kv.size(); i++) if (kv[i].get() == w.node) { own = std::move(kv[i]); kv.erase(kv.begin() + (long)i); break; } own->name = t.leaf; own->up = t.parent; t.parent->kids.push_back(std::move(own));
    } else if (k < 18) {
      int want = w.err == EVFS_ERR_NO_FILE ? EVFS_ERR_NO_PATH : w.err; if (!want && !w.node->dir) want = EVFS_ERR_NO_PATH; vf_note("%s cd %s", v.c_str(), vf_q(p).c_str()); int rv = evfs_set_cur_dir_ex(p.c_str(), v.c_str()); vf_count("set_cur_dir"); VF_CHECK(rv == want, "fat:set_cur_dir", "set_cur_dir %s returned %s, expected %s", vf_q(p).c_str(), ev_err(rv), ev_err(want)); if (!rv && !want) m.cwd = w.node;
    } else if (r.chance(1, 2)) { // what the volume says about paths: a digit or letter and ':' is a drive
      Str q = r.chance(1, 2) ? p : Str(1, "01aZ9:/\\.x"[r.below(10)]) + (r.chance(2, 3) ? ":" : "") + (r.chance(1, 2) ? Str(r.below(3), '/') : Str("\\")) + p.substr(p.find(':') == Str::npos ? 0 : p.find(':') + 1);
      size_t d = q.size() >= 2 && isalnum((unsigned char)q[0]) && q[1] == ':' ? 2 : 0, sp = q.find_first_not_of("/\\", d); if (sp == Str::npos) sp = q.size(); bool abs = sp > d; Guarded g(q.size() + 1); memcpy(g.p, q.c_str(), q.size() + 1); StringRange root; bool ra = evfs_path_root_component_ex(g.p, &root, v.c_str()); vf_count("path_queries"); if (d) vf_count("drive_paths");
      VF_CHECK(ra == abs && root.start == g.p && (size_t)range_size(&root) == sp, "fat:root", "%s: the root is %d bytes, absolute %d; expected %zu, %d", vf_q(q).c_str(), (int)range_size(&root), ra, sp, abs); VF_CHECK(evfs_path_is_absolute_ex(g.p, v.c_str()) == abs, "fat:is_absolute", "%s", vf_q(q).c_str());
      Str cw = m.cwd->path(), want = abs ? q.substr(0, d) + ref_normalize(q.substr(d)) : d ? q.substr(0, 2) + ref_normalize(cw + "/" + q.substr(2)) : vf_fmt("%d:", pdrv) + ref_normalize(cw + "/" + q); size_t n = EVFS_MAX_PATH; Guarded o(n); StringRange g2; range_init(&g2, o.p, n); int rv = evfs_path_absolute_ex(g.p, &g2, v.c_str()); bool fits = cw.size() + q.size() + 8 < EVFS_MAX_PATH; VF_CHECK(o.intact() && (rv == EVFS_OK ? want == o.p : !fits), "fat:absolute", "the absolute path of %s in %s is %s (%s), expected %s", vf_q(q).c_str(), vf_q(cw).c_str(), rv == EVFS_OK ? vf_q(o.p).c_str() : "", ev_err(rv), vf_q(want).c_str());
    } else {
      Str c = vf_fmt("%d:", pdrv) + m.cwd->path(); size_t n = r.chance(1, 3) ? c.size() + r.below(3) : EVFS_MAX_PATH + r.below(50); Guarded b(n); StringRange g; range_init(&g, b.p, n); int rv = evfs_get_cur_dir_ex(&g, v.c_str()); vf_count("get_cur_dir"); int want = n > c.size() && c.size() + 3 < EVFS_MAX_PATH ? EVFS_OK : EVFS_ERR_OVERFLOW;
      if (c.size() + 4 < EVFS_MAX_PATH || rv != EVFS_OK) VF_CHECK(rv == want || c.size() + 4 >= EVFS_MAX_PATH, "fat:get_cur_dir", "get_cur_dir into %zu returned %s", n, ev_err(rv)); if (rv == EVFS_OK) VF_CHECK(n > c.size() && strnlen(b.p, n) == c.size() && c == b.p && b.intact(), "fat:get_cur_dir-text", "get_cur_dir gave %s, it is %s", vf_q(Str(b.p, strnlen(b.p, n))).c_str(), vf_q(c).c_str());
    }
  }
  // occupies the volume up to where an entry of a FAT12 table lies in two sectors
  void prefill() {
    FatImg i(bytes()); size_t cl = i.spc * 512, want = i.type == 12 ? 341 * (1 + r.below(3)) - r.below(14) : 100 + r.below(400); if (!i.ok || want + 60 > i.ncl || want * cl > 500000) return; EvfsFile *f = nullptr; int rv = evfs_open_ex("/fill", &f, EVFS_WRITE | EVFS_NO_EXIST, v.c_str()); VF_CHECK(rv == EVFS_OK, "fat:fill", "%s", ev_err(rv)); if (!f) return;
    FNode *n = m.add(&m.root, "fill", false); n->data = Str(want * cl, 'f'); for (size_t k = 0; k < want; k++) memcpy(&n->data[k * cl], &k, 4); n->known = Str(want * cl, 1); ptrdiff_t g = evfs_file_write(f, n->data.data(), n->data.size()); VF_CHECK(g == (ptrdiff_t)n->data.size(), "fat:fill", "writing %zu returned %ld", n->data.size(), (long)g); rv = evfs_file_close(f); VF_CHECK(rv == EVFS_OK, "fat:fill", "%s", ev_err(rv)); n->closed = time(nullptr); vf_note("%s filled with %zu clusters of %zu", v.c_str(), want, cl); vf_count("prefilled");
  }
  // entries until no more fit, in the root directory whose size is fixed
  void fill_root() {
    if (readonly) return; bool dirs = r.chance(1, 4); vf_note("%s fill the root with %s", v.c_str(), dirs ? "directories" : "files");
    for (int i = 0; i < 70 && !vf_case_failed(); i++) { Str nm = r.chance(1, 3) ? vf_fmt("entry with a long name %d", i) : vf_fmt("R%d", i), p = vf_fmt("%d:/", pdrv) + nm; if (m.root.find(nm)) continue; EvfsFile *f = nullptr; int rv = dirs ? evfs_make_dir_ex(p.c_str(), v.c_str()) : evfs_open_ex(p.c_str(), &f, EVFS_WRITE | EVFS_NO_EXIST, v.c_str());
      if (rv != EVFS_OK) { VF_CHECK(rv == EVFS_ERR_AUTH || rv == EVFS_ERR_FS_FULL, "fat:root-error", "creating %s returned %s", vf_q(p).c_str(), ev_err(rv)); VF_CHECK(full(&m.root), "fat:root-denied", "%s was refused although there is space", vf_q(p).c_str()); vf_count("roots_filled"); break; }
      FNode *n = m.add(&m.root, nm, dirs); if (f) { rv = evfs_file_close(f); VF_CHECK(rv == EVFS_OK, "fat:close", "%s", ev_err(rv)); n->closed = time(nullptr); } }
    for (auto &k : m.root.kids) if (!vf_case_failed() && k->path().size() < 200) { EvfsInfo i; Str p = vf_fmt("%d:", pdrv) + k->path(); int rv = evfs_stat_ex(p.c_str(), &i, v.c_str()); VF_CHECK(rv == EVFS_OK, "fat:root-lost", "%s: %s", vf_q(p).c_str(), ev_err(rv)); }
    for (int i = 0; i < 70 && !vf_case_failed(); i++) if (r.chance(1, 2)) { FNode *n = m.root.find(vf_fmt("R%d", i)); if (!n || n == m.cwd || n->dir != dirs || n->open || !n->kids.empty()) continue; int rv = evfs_delete_ex(vf_fmt("%d:/R%d", pdrv, i).c_str(), v.c_str()); VF_CHECK(rv == EVFS_OK, "fat:root-delete", "R%d: %s", i, ev_err(rv)); if (!rv) FModel::drop(n); }
  }
  void step() { int k = (int)r.below(20); if (k < 4) open(); else if (k < 13) { H &x = h[r.below(4)]; if (x.f) file(x); else open(); } else if (k < 14) listing(); else ns(); }
  // everything closed: the image itself holds exactly the model
  void fsck() {
    FatImg i(bytes()); vf_count("images_checked"); vf_count(vf_fmt("fat%d", i.type).c_str()); VF_CHECK(i.ok, "fat:image", "the image is damaged: %s", i.err.c_str()); if (!i.ok) return;
    std::vector<FNode *> a = m.all(); VF_CHECK(i.tree.size() == a.size(), "fat:image-tree", "the image holds %zu entries, expected %zu", i.tree.size(), a.size());
    for (auto n : a) { auto it = i.tree.find(n->path()); VF_CHECK(it != i.tree.end(), "fat:image-tree", "the image has no %s", vf_q(n->path()).c_str()); if (it == i.tree.end()) return; VF_CHECK(it->second.dir == n->dir && it->second.data.size() == n->data.size() && same_data(n, it->second.data), "fat:image-data", "%s in the image has %zu bytes, expected %zu, or other contents", vf_q(n->path()).c_str(), it->second.data.size(), n->data.size()); }
    vf_seen(vf_hash(vf_fmt("%zu %zu", a.size(), i.freecl)));
  }
  void readback() { for (auto n : m.all()) { if (vf_case_failed()) return; Str p = n->path(); if (n->dir || p.size() >= EVFS_MAX_PATH) continue; EvRead e = ev_read_all(p.c_str(), v.c_str(), 1 + r.below(5000)); VF_CHECK(e.rv == EVFS_OK && e.data.size() == n->data.size() && same_data(n, e.data), "fat:readback", "%s: read %zu bytes (%s), expected %zu, or other contents", vf_q(p).c_str(), e.data.size(), ev_err(e.rv), n->data.size()); vf_count("whole_files"); } }
};

static bool make(Rng &r, MemFs &base, Vol &v, int kind, bool full, bool any = true) {
  long open0 = base.open_files;
  if (kind == 3) { const Str &i = fat32_image(); if (i.empty()) return false; base.put(v.img, i); return true; }
  long size = kind == 2 ? (5l << 20) + (long)r.below(1 << 20) : full ? 98000 + (long)r.below(30000) : 200000 + (long)r.below(900000); size = size / 512 * 512 + (r.chance(1, 3) ? (long)r.below(512) : 0);
  int rv = fatfs_make_image(v.img.c_str(), (uint8_t)v.pdrv, (evfs_off_t)size); VF_CHECK(rv == EVFS_OK, "fat:make", "make_image of %ld returned %s", size, ev_err(rv)); if (rv) return false;
  VF_CHECK((long)v.bytes().size() == size && base.open_files == open0, "fat:make-size", "the image has %zu bytes, expected %ld; %ld handles open", v.bytes().size(), size, base.open_files); rv = fatfs_make_image(v.img.c_str(), (uint8_t)v.pdrv, (evfs_off_t)size); VF_CHECK(rv != EVFS_OK, "fat:make-again", "an existing image was made again");
  if (any && r.chance(1, 2) && !vf_case_failed()) { // the volume as another formatter could have made it: two tables, other cluster sizes and root directories, no partition table
    static const int AU[] = {0, 512, 512, 512, 1024, 2048, 4096}, RT[] = {0, 16, 32, 64, 112, 240, 512, 1024}; MKFS_PARM o; memset(&o, 0, sizeof o); o.fmt = (BYTE)(FM_FAT | (r.chance(1, 2) ? FM_SFD : 0)); o.n_fat = (BYTE)r.range(1, 2); o.n_root = (UINT)RT[r.below(8)]; o.au_size = (DWORD)AU[r.below(full ? 4 : 7)]; o.align = (UINT)(r.chance(1, 2) ? 1 : 1 << r.below(4));
    Str old = v.bytes(); static char work[FF_MAX_SS * 4]; rv = fatfs_mount_image(v.img.c_str(), (uint8_t)v.pdrv); VF_CHECK(rv == EVFS_OK, "fat:make-mount", "mounting the new image returned %s", ev_err(rv)); if (rv) return false; FRESULT e = f_mkfs(vf_fmt("%d:", v.pdrv).c_str(), &o, work, sizeof work); fatfs_unmount_image((uint8_t)v.pdrv);
    if (e != FR_OK) base.at(v.img)->data = old; else { vf_count("formats"); if (o.n_fat == 2) vf_count("two_tables"); if (o.n_root && o.n_root < 240) vf_count("small_roots"); if (o.au_size == 512) vf_count("small_clusters"); vf_note("formatted: flags %d, %d tables, %u root entries, clusters of %u, alignment %u", o.fmt, o.n_fat, o.n_root, (unsigned)o.au_size, o.align); }
  }
  return !vf_case_failed();
}
static void model(Rng &r, uint64_t idx, bool full) {
  clock_start(r); struct Stop { ~Stop() { s_clock = 0; } } stop;
  MemFs base("mem"); base.reg(true); int nv = r.chance(1, 4) ? 2 : 1, first = (int)r.below(2); std::vector<std::unique_ptr<Vol>> vols; vfalloc::start();
  for (int i = 0; i < nv; i++) { vols.emplace_back(new Vol((first + i) & 1, base, r, i ? "/two" : "/one")); Vol &v = *vols.back(); int kind = full ? 0 : idx % 12 == 3 ? 2 : idx % 40 == 7 && i == 0 ? 3 : (int)r.below(2); if (full) v.maxw = 60000; else if (r.chance(1, 6)) v.maxw = 20000; if (!make(r, base, v, kind, full)) { evfs_unregister_all(); return; } v.fsck(); if (!v.mount()) { evfs_unregister_all(); return; } }
  for (auto &v : vols) if (!full && r.chance(1, 4)) v->prefill();
  int steps = r.range(30, vf_thorough ? 600 : 220), fill_at = r.chance(1, 8) ? (int)r.below((uint64_t)steps) : -1;
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    Vol &v = *vols[r.below(vols.size())]; v.step(); if (i == fill_at && !vf_case_failed()) v.fill_root(); clock_tick(r);
    if (r.chance(1, 150) && !vf_case_failed()) { vf_note("remount"); v.unmount(); v.fsck(); if (!v.mount()) break; vf_count("remounts"); }
    if (full && i == steps / 2 && !vf_case_failed()) { v.close_all(); std::vector<FNode *> a = v.m.all(); for (auto n : a) if (!n->dir && r.chance(1, 2) && n->path().size() < EVFS_MAX_PATH) { Str p = n->path(); int rv = evfs_delete_ex(p.c_str(), v.v.c_str()); VF_CHECK(rv == EVFS_OK, "fat:delete-full", "deleting %s on a full volume returned %s", vf_q(p).c_str(), ev_err(rv)); if (!rv) FModel::drop(n); } }
  }
  if (!vf_case_failed()) for (auto &v : vols) { v->close_all(); v->readback(); }
  for (auto &v : vols) { if (!vf_case_failed()) { v->unmount(); v->fsck(); } else { for (auto &x : v->h) if (x.f) evfs_file_close(x.f); evfs_unregister(evfs_find_vfs(v->v.c_str())); fatfs_unmount_image((uint8_t)v->pdrv); } }
  if (!vf_case_failed()) for (auto &v : vols) { if (v->mount()) { v->readback(); v->unmount(); } VF_CHECK(base.open_files == 0, "fat:image-open", "the image file is still open after unmounting"); }
  long l = vfalloc::stop(); if (!vf_case_failed()) VF_CHECK(l == 0, "fat:leak", "%ld allocations live: %s", l, vfalloc::describe_live().c_str()); evfs_unregister_all();
}

// One failing operation of the VFS below
static void fault(Rng &r, uint64_t) {
  MemFs base("mem"); base.reg(true); base.scribble = true; Vol v(0, base, r, "/one"); vfalloc::start(); if (!make(r, base, v, 0, false, false) || !v.mount()) { evfs_unregister_all(); return; } // one allocation table: FatFs tolerates failing writes to the second
  int steps = r.range(5, 60); for (int i = 0; i < steps && !vf_case_failed(); i++) v.step(); v.close_all(); if (vf_case_failed()) { evfs_unregister_all(); fatfs_unmount_image(0); return; }
  // single operations whose result is known when nothing fails
  for (int round = 0; round < 12 && !vf_case_failed(); round++) {
    std::vector<FNode *> a = v.m.all(), files, dirs; for (auto n : a) if (n->path().size() < 120) (n->dir ? dirs : files).push_back(n); FNode *n = files.empty() ? nullptr : r.pick(files), *d = r.pick(dirs); Str dp = d->up ? d->path() : "";
    int kind = (int)r.below(8); if (!n && (kind == 0 || kind == 1 || kind == 2 || kind == 4)) continue; Str np = n ? n->path() : "", fresh = vf_fmt("new%d.x", round); if (d->find(fresh)) continue;
    int code = r.pick(std::vector<int>{EVFS_ERR_IO, EVFS_ERR_FS_FULL, EVFS_ERR}); bool sh = r.chance(1, 3); long at = 1 + (long)r.below(r.chance(1, 2) ? 4 : 16); Str before = base.at("/one")->data; base.arm(at, code, sh, 1); long rv = 0; Str what; Str data = r.bytes(r.below(3000)); bool failed = false; EvfsFile *f = nullptr; long got = 0; Str rd; FNode *hit = nullptr;
    auto st = [&](long x) { if (x < 0 && !failed) { failed = true; rv = x; } };
    switch (kind) {
    case 0: { what = "stat"; EvfsInfo i; st(evfs_stat_ex(np.c_str(), &i, "fat0")); if (!failed) VF_CHECK((size_t)i.size == n->data.size() && !(i.type & EVFS_FILE_DIR), "fatfault:stat", "stat under a fault gave size %ld", (long)i.size); break; }
    case 1: { what = "read"; st(evfs_open_ex(np.c_str(), &f, EVFS_READ, "fat0")); if (f) { Guarded b(n->data.size() + 10); while (!failed) { got = evfs_file_read(f, b.p, n->data.size() + 10); st(got); if (got <= 0) break; rd.append(b.p, (size_t)got); if (rd.size() > n->data.size() + 10) break; } st(evfs_file_close(f)); } if (!failed) VF_CHECK(rd.size() == n->data.size() && same_data(n, rd), "fatfault:read", "reading under a fault gave %zu bytes of %zu, or other data, without an error", rd.size(), n->data.size()); else VF_CHECK(rd.size() <= n->data.size() && same_data(n, rd), "fatfault:read-partial", "the data read before the error differs"); break; }
    case 2: { what = "write"; hit = n; st(evfs_open_ex(np.c_str(), &f, EVFS_WRITE | EVFS_OVERWRITE, "fat0")); if (f) { long w = evfs_file_write(f, data.data(), data.size()); st(w < (long)data.size() && w >= 0 ? EVFS_ERR_IO : w); st(evfs_file_close(f)); } if (!failed) { n->data = data; n->known = Str(data.size(), 1); } break; }
    case 3: { what = "create"; st(evfs_open_ex((dp + "/" + fresh).c_str(), &f, EVFS_WRITE | EVFS_NO_EXIST, "fat0")); if (f) { long w = evfs_file_write(f, data.data(), data.size()); st(w < (long)data.size() && w >= 0 ? EVFS_ERR_IO : w); st(evfs_file_close(f)); } hit = v.m.add(d, fresh, false); hit->data = data; hit->known = Str(data.size(), 1); break; }
    case 4: { what = "delete"; st(evfs_delete_ex(np.c_str(), "fat0")); if (!failed) { FModel::drop(n); } else hit = n; break; }
    case 5: { what = "mkdir"; st(evfs_make_dir_ex((dp + "/" + fresh).c_str(), "fat0")); hit = v.m.add(d, fresh, true); break; }
    case 6: { what = "list"; EvfsDir *dh = nullptr; st(evfs_open_dir_ex(dp.empty() ? "/" : dp.c_str(), &dh, "fat0")); if (dh) { size_t c = 0; EvfsInfo i; int e; while ((e = evfs_dir_read(dh, &i)) == EVFS_OK && c < 1000) c++; if (e != EVFS_DONE) st(e); st(evfs_dir_close(dh)); if (!failed) VF_CHECK(c == d->kids.size(), "fatfault:list", "a listing under a fault gave %zu of %zu entries without an error", c, d->kids.size()); } break; }
    default: { what = "getcwd"; char b[EVFS_MAX_PATH]; StringRange g = RANGE_FROM_ARRAY(b); st(evfs_set_cur_dir_ex(dp.empty() ? "/" : dp.c_str(), "fat0")); if (!failed) { v.m.cwd = d; st(evfs_get_cur_dir_ex(&g, "fat0")); if (!failed) VF_CHECK("0:" + d->path() == b, "fatfault:cwd", "get_cur_dir under a fault gave %s", vf_q(b).c_str()); } break; }
    }
    bool hitf = base.fault_hit; base.disarm(); vf_count("fault_rounds"); if (hitf) { vf_count("faults_hit"); vf_count(("fault_" + what).c_str()); vf_count(("below_" + base.fault_op).c_str()); }
    vf_note("%s fault at %ld%s: %s", what.c_str(), at, sh ? " short" : "", ev_err((int)rv)); VF_CHECK(!failed || hitf, "fatfault:no-fault", "%s failed with %s without a fault below", what.c_str(), ev_err((int)rv));
    if (hitf && base.fault_op == "write") VF_CHECK(failed, "fatfault:write-hidden", "%s reported success although a write to the image failed", what.c_str());
    if (hitf && base.fault_op == "read" ) VF_CHECK(failed || sh, "fatfault:read-hidden", "%s reported success although a read of the image failed", what.c_str());
    if (hitf && base.fault_op == "sync") VF_CHECK(failed, "fatfault:sync-hidden", "%s reported success although the image could not be synced", what.c_str());
    vf_seen(vf_hash(what + base.fault_op + vf_fmt("%ld %d", at, failed)));
    if (vflock::held() != 0) vf_violation("fatfault:lock", "a lock is still held");
    // afterwards a remount finds everything else unchanged
    v.unmount(); if (vf_case_failed() || !v.mount()) break;
    if (failed) {
      // the entry the failed operation worked on may be in any state; the others are unchanged. Start over from the storage before it.
      std::vector<FNode *> b2 = v.m.all(); for (auto x : b2) { if (x == hit || x->dir || x->path().size() >= EVFS_MAX_PATH || vf_case_failed()) continue; EvRead e = ev_read_all(x->path().c_str(), "fat0"); VF_CHECK(e.rv == EVFS_OK && e.data.size() == x->data.size() && same_data(x, e.data), "fatfault:damage", "a failed %s changed %s (%zu bytes, %s)", what.c_str(), vf_q(x->path()).c_str(), e.data.size(), ev_err(e.rv)); }
      v.unmount(); base.at("/one")->data = before; if (hit && hit->name == fresh) FModel::drop(hit); if (vf_case_failed() || !v.mount()) break;
    } else { v.readback(); v.unmount(); v.fsck(); if (!v.mount()) break; }
  }
  if (!vf_case_failed()) { int k = 20; while (k-- && !vf_case_failed()) v.step(); v.unmount(); if (!vf_case_failed()) v.fsck(); VF_CHECK(base.open_files == 0, "fatfault:handles", "%ld handles still open", base.open_files); long l = vfalloc::stop(); if (!vf_case_failed()) VF_CHECK(l == 0, "fatfault:leak", "%ld live: %s", l, vfalloc::describe_live().c_str()); }
  else { for (auto &x : v.h) if (x.f) evfs_file_close(x.f); evfs_unregister_all(); fatfs_unmount_image(0); }
  vfalloc::stop(); evfs_unregister_all();
}
// Failing image creation and mounting
static void mkfault(Rng &r, uint64_t) {
  MemFs base("mem"); base.reg(true); vfalloc::start(); long size = 100000 + (long)r.below(300000); bool cap = r.chance(1, 5); if (cap) base.capacity = (long)r.below((uint64_t)size); base.arm(1 + (long)r.below(60), EVFS_ERR_IO, r.chance(1, 4), 1);
  int rv = fatfs_make_image("/i", 0, (evfs_off_t)size); bool hit = base.fault_hit && base.fault_op != "close"; Str op = base.fault_op; base.disarm(); vf_count("makes"); VF_CHECK((rv == EVFS_OK) == (!base.fault_hit && !cap) || base.fault_op == "delete" || (op == "read" && rv == EVFS_OK), "fatmake:result", "make_image with a fault in %s (hit %d) returned %s", op.c_str(), hit, ev_err(rv)); VF_CHECK(base.open_files == 0, "fatmake:handle", "a handle is still open");
  if (rv != EVFS_OK) { vf_count("makes_failed"); if (op != "delete") VF_CHECK(!base.at("/i"), "fatmake:left", "an unusable image was left behind"); base.capacity = -1; base.root->kids.clear(); rv = fatfs_make_image("/i", 0, (evfs_off_t)size); VF_CHECK(rv == EVFS_OK, "fatmake:retry", "the volume cannot be used after a failed make_image: %s", ev_err(rv)); }
  base.capacity = -1; base.arm(1 + (long)r.below(8), EVFS_ERR_IO, false, 1); rv = fatfs_mount_image("/i", 0); bool mh = base.fault_hit; base.disarm(); VF_CHECK(!mh || rv != EVFS_OK || base.fault_op == "size", "fatmount:hidden", "mounting succeeded although %s failed", base.fault_op.c_str()); VF_CHECK(rv == EVFS_OK || mh, "fatmount:failed", "%s", ev_err(rv));
  if (rv != EVFS_OK) { vf_count("mounts_failed"); VF_CHECK(base.open_files == 0, "fatmount:handle", "a failed mount keeps the image open"); fatfs_unmount_image(0); rv = fatfs_mount_image("/i", 0); VF_CHECK(rv == EVFS_OK, "fatmount:retry", "mounting after a failed mount returned %s", ev_err(rv)); }
  VF_CHECK(fatfs_mount_image("/i", 0) != EVFS_OK && base.open_files == 1, "fatmount:twice", "a volume in use was mounted again"); VF_CHECK(fatfs_mount_image("/i", 9) != EVFS_OK && fatfs_make_image("/z", 200, 200000) != EVFS_OK && evfs_register_fatfs("x", 7, false) != EVFS_OK, "fatmount:range", "a volume number out of range was accepted"); fatfs_unmount_image(77);
  fatfs_unmount_image(0); VF_CHECK(base.open_files == 0, "fatmount:open", "still open after unmounting"); fatfs_unmount_image(0); long l = vfalloc::stop(); VF_CHECK(l == 0, "fatmake:leak", "%ld live", l); vf_seen(vf_hash(op + vf_fmt("%d", rv))); evfs_unregister_all();
}
// A volume configured read-only never changes
static void readonly(Rng &r, uint64_t) {
  MemFs base("mem"); base.reg(true); Vol v(0, base, r, "/one"); if (!make(r, base, v, 0, false) || !v.mount()) { evfs_unregister_all(); return; }
  for (int round = 0; round < 3 && !vf_case_failed(); round++) {
    int k = r.range(5, 60); while (k-- && !vf_case_failed()) v.step(); for (auto &x : v.h) if (x.f) { evfs_file_sync(x.f); x.n->dirty = false; } if (vf_case_failed()) break;
    unsigned on = 1; int rv = evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, "fat0"); VF_CHECK(rv == EVFS_OK, "fatro:set", "%s", ev_err(rv)); v.readonly = true; Str before = v.bytes();
    k = r.range(10, 60); while (k-- && !vf_case_failed()) { v.step(); vf_count("readonly_ops"); } if (!vf_case_failed()) v.close_all();
    VF_CHECK(v.bytes() == before, "fatro:changed", "the image changed while the volume was read-only"); on = 0; evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, "fat0"); v.readonly = false;
    if (!vf_case_failed()) { EvfsFile *f = nullptr; Str p = vf_fmt("/again%d", round); rv = evfs_open_ex(p.c_str(), &f, EVFS_WRITE | EVFS_OVERWRITE, "fat0"); if (rv == EVFS_ERR_AUTH) continue; VF_CHECK(rv == EVFS_OK, "fatro:restore", "writing again returned %s", ev_err(rv)); if (f) evfs_file_close(f); if (!rv && !v.m.root.find(p.substr(1))) v.m.add(&v.m.root, p.substr(1), false); vf_count("restored"); }
  }
  if (!vf_case_failed()) { v.unmount(); v.fsck(); } else { for (auto &x : v.h) if (x.f) evfs_file_close(x.f); fatfs_unmount_image(0); } evfs_unregister_all();
}
// Damaged images
static void hostile(Rng &r, uint64_t) {
  MemFs base("mem"); base.reg(true); Vol v(0, base, r, "/one"); if (!make(r, base, v, r.chance(1, 30) ? 2 : 0, true) || !v.mount()) { evfs_unregister_all(); return; }
  int k = r.range(5, 80); while (k-- && !vf_case_failed()) v.step(); v.unmount(); if (vf_case_failed()) { evfs_unregister_all(); return; }
  Str b = v.bytes(); FatImg fi(b, false); Model m; std::vector<Str> names; for (auto n : v.m.all()) { m[n->path()].dir = n->dir; names.push_back(n->path()); }
  auto put = [&](size_t at, char c) { if (at < b.size()) b[at] = c; };
  switch (r.below(9)) {
  case 7: case 8: { // Parts of long names: well linked ones of any length, also longer than names can be, not ended or ended early
    size_t root = fi.base + fi.rootstart * 512, slots = std::min<size_t>((fi.datastart - fi.rootstart) * 512, b.size() > root ? b.size() - root : 0) / 32, s = 0; static const int at[] = {1, 3, 5, 7, 9, 14, 16, 18, 20, 22, 24, 28, 30}; int sets = r.range(1, 4); if (r.chance(1, 2)) while (s < slots && b[root + 32 * s]) s++;
    while (sets-- && !b.empty()) { size_t parts = r.chance(1, 3) ? (size_t)r.range(1, 30) : (size_t)r.range(19, 21); if (s + parts + 1 > slots) break; char sn[12]; snprintf(sn, sizeof sn, "LONG%04dTXT", (int)r.below(10000)); uint8_t sum = 0; for (int i = 0; i < 11; i++) sum = (uint8_t)((sum >> 1) + (sum << 7) + (uint8_t)sn[i]); size_t len = r.chance(1, 3) ? 13 * parts : r.chance(1, 2) ? 250 + r.below(14) : r.below(13 * parts + 1);
      for (size_t i = 0; i < parts; i++) { uint8_t *e = (uint8_t *)&b[root + 32 * s++]; memset(e, 0, 32); size_t ord = parts - i; e[0] = (uint8_t)(ord | (i ? 0 : 0x40)); if (r.chance(1, 60)) e[0] = (uint8_t)r.next(); e[11] = 0x0F; e[13] = r.chance(1, 60) ? (uint8_t)r.next() : sum; for (int k2 = 0; k2 < 13; k2++) { size_t c = (ord - 1) * 13 + (size_t)k2; uint16_t w = c < len ? (r.chance(1, 80) ? (uint16_t)r.next() : (uint16_t)('a' + c % 26)) : c == len ? 0 : r.chance(1, 40) ? 'x' : 0xFFFF; e[at[k2]] = (uint8_t)w; e[at[k2] + 1] = (uint8_t)(w >> 8); } }
      uint8_t *e = (uint8_t *)&b[root + 32 * s++]; memset(e, 0, 32); memcpy(e, sn, 11); e[11] = r.chance(1, 4) ? 0x10 : 0x20; e[26] = (uint8_t)r.below(60); e[28] = (uint8_t)r.next(); vf_count("long_parts"); }
    if (!names.empty()) names.push_back("/"); break; }
  case 0: { int n = r.range(1, 6); while (n--) { static const size_t O[] = {11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 32, 33, 34, 35, 36, 40, 44, 48, 54, 82, 510, 511}; size_t o = fi.base + O[r.below(25)]; b[o] = r.chance(1, 3) ? (char)0 : r.chance(1, 3) ? (char)0xFF : (char)r.next(); } break; }
  case 1: { int n = r.range(1, 40); while (n--) put(fi.base + fi.rsvd * 512 + r.below(fi.fatsz * 512), r.chance(1, 3) ? (char)0 : (char)r.next()); break; }
  case 2: { int n = r.range(1, 30); while (n--) put(fi.base + fi.rootstart * 512 + r.below(32 * (2 + 2 * names.size())), r.chance(1, 3) ? (char)0xFF : (char)r.next()); break; }
  case 3: b.resize(r.chance(1, 2) ? r.below(2000) : r.below(b.size())); break;
  case 4: { int n = r.range(1, 400); while (n--) b[r.below(b.size())] = (char)r.next(); break; }
  case 5: { int n = r.range(1, 30); size_t used = fi.base + (fi.datastart + 60 * fi.spc) * 512; while (n--) put(fi.base + fi.datastart * 512 + r.below(used - fi.base - fi.datastart * 512), (char)r.next()); break; }
  default: { // FAT entries redirected: loops, cross links, out of range
    int n = r.range(1, 20); while (n--) { size_t i = 2 + r.below(std::min<size_t>(fi.ncl, 60)); uint32_t to = r.chance(1, 4) ? (uint32_t)r.next() : 2 + (uint32_t)r.below(60); size_t o = fi.base + fi.rsvd * 512; if (fi.type == 12) { o += i + i / 2; if (i & 1) { b[o] = (char)((b[o] & 0x0F) | (to << 4)); b[o + 1] = (char)(to >> 4); } else { b[o] = (char)to; b[o + 1] = (char)((b[o + 1] & 0xF0) | ((to >> 8) & 15)); } } else { b[o + 2 * i] = (char)to; b[o + 2 * i + 1] = (char)(to >> 8); } } break; }
  }
  base.at("/one")->data = b; vf_count("offered"); const Str before = b; int rv = fatfs_mount_image("/one", 0);
  if (rv != EVFS_OK) { vf_count("rejected"); VF_CHECK(base.open_files == 0, "hostile-fat:handle", "a refused image is still open"); VF_CHECK(v.bytes() == before, "hostile-fat:changed", "a refused image was changed"); vf_seen(vf_hash(vf_fmt("%d %zu", rv, b.size() / 512))); evfs_unregister_all(); return; }
  vf_count("accepted"); rv = evfs_register_fatfs("fat0", 0, false); VF_CHECK(rv == EVFS_OK, "hostile-fat:register", "%s", ev_err(rv)); unsigned on = 1; evfs_vfs_ctrl_ex(EVFS_CMD_SET_READONLY, &on, "fat0");
  int steps = r.range(5, 40);
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    Str p = r.pick(names); int what = (int)r.below(10); EvfsInfo inf; memset(&inf, 0, sizeof inf); vf_note("%d %s", what, vf_q(p).c_str());
    if (what < 4) { EvfsFile *f = nullptr; if (evfs_open_ex(p.c_str(), &f, EVFS_READ, "fat0") != EVFS_OK) continue; vf_count("opened"); long size = evfs_file_size(f); size_t tot = 0; VF_CHECK(size >= 0, "hostile-fat:size", "%ld", size); int n = r.range(1, 10); while (n--) { if (r.chance(1, 2)) { long o = r.chance(1, 3) ? (long)(int32_t)(r.next() & 0x7fffffff) : (long)r.below((uint64_t)size + 3); evfs_file_seek(f, (evfs_off_t)o, (EvfsSeekDir)r.range(1, 3)); long t = evfs_file_tell(f); VF_CHECK(t >= 0 && t <= std::max(size, 0l), "hostile-fat:position", "position %ld of %ld", t, size); } size_t q = r.below(4000); Guarded g(q); ptrdiff_t got = evfs_file_read(f, g.p, q); VF_CHECK(got <= (ptrdiff_t)q && g.intact(), "hostile-fat:overrun", "%ld", (long)got); if (got > 0) tot += (size_t)got; (void)evfs_file_eof(f); } evfs_file_close(f); vf_seen(vf_hash(vf_fmt("%ld %zu", size, tot))); }
    else if (what < 6) { if (evfs_stat_ex(p.c_str(), &inf, "fat0") == EVFS_OK) { vf_count("stats"); VF_CHECK(inf.size >= 0, "hostile-fat:stat", "%ld", (long)inf.size); } }
    else if (what == 6) { evfs_set_cur_dir_ex(p.c_str(), "fat0"); char c[EVFS_MAX_PATH]; StringRange g = RANGE_FROM_ARRAY(c); if (evfs_get_cur_dir_ex(&g, "fat0") == EVFS_OK) VF_CHECK(strnlen(c, sizeof c) < sizeof c, "hostile-fat:cwd", "unterminated"); }
    else if (what == 7) { evfs_delete_ex(p.c_str(), "fat0"); evfs_make_dir_ex(p.c_str(), "fat0"); EvfsFile *f = nullptr; VF_CHECK(evfs_open_ex(p.c_str(), &f, EVFS_RDWR, "fat0") != EVFS_OK, "hostile-fat:readonly", "opened for writing"); }
    else { EvfsDir *d = nullptr; if (evfs_open_dir_ex(p.c_str(), &d, "fat0") != EVFS_OK) continue; vf_count("opened_dirs"); size_t n = 0; bool done = false; for (; n < 70000 && !done; n++) { if (evfs_dir_read(d, &inf) != EVFS_OK) { done = true; break; } VF_CHECK(inf.name && strnlen(inf.name, 600) < 600, "hostile-fat:name", "entry without a name"); if (inf.name && names.size() < 300) { Str q = (p == "/" ? "" : p) + "/" + inf.name; if (q.size() < 300) names.push_back(q); } } VF_CHECK(done, "hostile-fat:endless", "the listing does not end"); evfs_dir_close(d); }
  }
  evfs_unregister(evfs_find_vfs("fat0")); fatfs_unmount_image(0); VF_CHECK(base.open_files == 0, "hostile-fat:handle", "still open"); VF_CHECK(v.bytes() == before, "hostile-fat:changed", "a read-only volume was changed"); evfs_unregister_all();
}
void vf_setup() {
  evfs_init(); fat32_image(); vf_cpu_limit(60);
  vf_suite("fat_model", 10000, 60000, [](Rng &r, uint64_t i) { model(r, i, false); });
  vf_suite("fat_full", 5000, 20000, [](Rng &r, uint64_t i) { model(r, i, true); });
  vf_suite("fat_fault", 2000, 20000, fault);
  vf_suite("fat_make", 600, 10000, mkfault);
  vf_suite("fat_readonly", 500, 15000, readonly);
  vf_suite("fat_hostile", 2500, 60000, hostile);
}
