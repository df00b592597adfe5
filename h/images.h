// Encoders for tar archives and romfs images, and the monitor that compares a mounted image with its model.
#ifndef IMAGES_H
#define IMAGES_H
#include <limits>
#include "diff.h"

struct ModelNode { bool dir = false; Str data; bool skip = false; /* special files: not judged */ };
typedef std::map<Str, ModelNode> Model; // normalized absolute path -> node

// ---- tar ----
struct TarMember { Str name, prefix, data; char type = '0'; bool gnu = false; Str link; int numstyle = 0; };
inline Str tar_path(const TarMember &m) { return ref_normalize("/" + ((!m.gnu && !m.prefix.empty()) ? m.prefix + "/" : Str()) + m.name); }
inline bool tar_has_data(char t) { return !(t >= '1' && t <= '6'); }
inline Str tar_num(unsigned long v, size_t width, int style) {
  switch (style) {
  case 1: { Str s = vf_fmt("%*lo", (int)width - 1, v); s += ' '; return s; }        // space padded, space terminated (old tars)
  case 2: { Str s = vf_fmt("%0*lo", (int)width - 2, v); s += " "; s += '\0'; return s; } // the style of checksums
  case 3: return vf_fmt("%0*lo", (int)width, v);                                     // no terminator
  case 4: { Str s = vf_fmt("%lo", v); s.resize(width, 0); return s; }                // minimal digits
  default: { Str s = vf_fmt("%0*lo", (int)width - 1, v); s += '\0'; return s; }
  }
}
inline Str tar_encode(const TarMember &m, unsigned long sizefield, bool have_size = false) {
  Str h(512, 0);
  auto put = [&](size_t at, size_t n, const Str &s) { memcpy(&h[at], s.data(), std::min(n, s.size())); };
  put(0, 100, m.name); put(100, 8, "0000644"); put(108, 8, "0001750"); put(116, 8, "0001750");
  put(124, 12, tar_num(have_size ? sizefield : (tar_has_data(m.type) ? m.data.size() : sizefield), 12, m.numstyle)); put(136, 12, tar_num(1600000000ul, 12, 0));
  h[156] = m.type; put(157, 100, m.link);
  if (m.gnu) put(257, 8, Str("ustar  \0", 8)); else put(257, 8, Str("ustar\00000", 8));
  put(265, 32, "user"); put(297, 32, "group"); if (!m.gnu) put(345, 155, m.prefix); else if (vf_hash(m.name) % 4 == 0) put(345, 24, Str("14371234567\0" "14371234570\0", 24)); /* access and change time */
  put(148, 8, "        "); unsigned long c = 0; for (unsigned char ch : h) c += ch;
  put(148, 8, tar_num(c, 8, m.numstyle == 3 ? 3 : 2));
  return h;
}
struct TarArchive {
  std::vector<TarMember> m; Str bytes; std::vector<size_t> offs; int ending = 0;
  void build(Rng &r) {
    bytes.clear(); offs.clear();
    for (auto &x : m) { offs.push_back(bytes.size()); bytes += tar_encode(x, x.type >= '1' && x.type <= '6' && r.chance(1, 3) ? 77 : 0); if (tar_has_data(x.type)) { bytes += x.data; bytes.append((512 - x.data.size() % 512) % 512, r.chance(1, 2) ? '\0' : '\x7f'); } }
    if (ending == 0) bytes.append(1024, 0); else if (ending == 1) bytes.append(512, 0); else if (ending == 2) { bytes.append(1024, 0); bytes += tar_encode(TarMember{"after-the-end", "", "", '0'}, 0); bytes += r.bytes(700); } else if (ending == 3) bytes.append(10240 - bytes.size() % 10240, 0);
  }
  Model model() const { Model o; o["/"].dir = true; for (auto &x : m) { if (x.type == '0' || x.type == '\0') o[tar_path(x)] = ModelNode{false, x.data}; else if (x.type == '5') o[tar_path(x)] = ModelNode{true, ""}; } return o; }
};
inline Str img_name(Rng &r, size_t max) {
  static const char *N[] = {"a", "b", "c", "file.txt", "README", "x.y.z", "...", ".hidden", "with space", "UPPER", "upper", "\xc3\xa9t\xc3\xa9", "tail.", "0", "-", "%s"};
  if (r.chance(2, 3)) return N[r.below(16)];
  size_t n = r.chance(1, 3) ? max - r.below(std::min<size_t>(4, max)) : 1 + r.below(std::min<size_t>(20, max)); Str s; for (size_t i = 0; i < n; i++) s += (char)('a' + r.below(26)); return s;
}
// Scale of the image being made: 0 usual, 1 a few large files, 2 many entries
inline int &img_scale() { static int s; return s; }
inline void img_pick_scale(Rng &r, bool allowed) { img_scale() = !allowed ? 0 : r.chance(1, 30) ? r.range(1, 2) : 0; if (img_scale()) vf_count(img_scale() == 1 ? "large_images" : "many_entries"); }
inline Str img_bytes(Rng &r, size_t n) { Str s = r.bytes(std::min<size_t>(n, 5003)); s.reserve(n); while (s.size() < n) { s += vf_fmt("<%zu>", s.size()); s += Str(s, s.size() % 977, std::min<size_t>(n - s.size(), 4001)); } s.resize(n); return s; }
inline Str img_data(Rng &r) {
  if (img_scale() == 1 && r.chance(1, 3)) return img_bytes(r, r.chance(1, 12) ? 1000000 + r.below(4000000) : r.chance(1, 3) ? 65536 + r.below(5) - 2 : r.chance(1, 3) ? 32768 + r.below(5) - 2 : r.below(300000));
  if (img_scale() == 2) return r.chance(1, 2) ? "" : r.bytes(r.below(40));
  switch (r.below(8)) { case 0: return ""; case 1: return r.bytes(512 * r.below(4)); case 2: return r.bytes(512 * (1 + r.below(3)) - 1); case 3: return r.bytes(512 * r.below(3) + 1); case 4: return r.bytes(r.below(6000)); case 5: return r.bytes(16 * r.below(9)); default: return r.bytes(r.below(100)); }
}
inline TarArchive tar_random(Rng &r, bool scale = false) {
  img_pick_scale(r, scale); TarArchive t; int n = img_scale() == 2 ? r.range(200, 1100) : r.chance(1, 15) ? 0 : r.chance(1, 10) ? r.range(20, 120) : r.range(1, 14); std::vector<Str> dirs = {""}; bool gnu = r.chance(1, 3); t.ending = (int)r.below(5);
  for (int i = 0; i < n; i++) {
    TarMember x; x.gnu = r.chance(1, 20) ? !gnu : gnu; x.numstyle = r.chance(1, 3) ? (int)r.below(5) : 0;
    int k = (int)r.below(20);
    Str dir = r.pick(dirs), full = dir + (dir.empty() ? "" : "/") + img_name(r, 60);
    if (r.chance(1, 6)) { full = ""; int segs = r.range(1, 6); for (int j = 0; j < segs; j++) full += (j ? "/" : "") + img_name(r, 40); }
    if (i && r.chance(1, 8)) { auto &y = t.m[r.below(t.m.size())]; full = (y.prefix.empty() ? "" : y.prefix + "/") + y.name; while (!full.empty() && full.back() == '/') full.pop_back(); if (full.empty()) full = "z"; }
    if (r.chance(1, 12)) full = "./" + full; else if (r.chance(1, 20)) full = "/" + full; else if (r.chance(1, 25)) full = "../" + full; else if (r.chance(1, 25)) full = "q/../" + full; else if (r.chance(1, 25)) { size_t p = full.find('/'); if (p != Str::npos) full.insert(p, "//."); }
    if (!x.gnu && r.chance(1, 60)) { full = ""; while (full.size() < 154) full += (full.empty() ? "" : "/") + img_name(r, 60).substr(0, 154 - full.size()); if (full.back() == '/') full.back() = 'z'; full = full.substr(0, 155) + "/"; size_t w = 255 - full.size() - 1 + r.below(3) - 1; full += Str(std::min<size_t>(w, 100), (char)('a' + r.below(26))); vf_count("longest_paths"); }
    bool isdir = k < 5;
    if (isdir && r.chance(3, 4)) full += "/";
    // split: a name is at most 100 bytes, a prefix at most 155
    if (x.gnu || full.size() <= 100) {
      if (full.size() > 100) full = full.substr(0, 100);
      x.name = full;
      if (!x.gnu && r.chance(1, 5)) { size_t p = full.find('/', 1); if (p != Str::npos && p + 1 < full.size() && p > 0) { x.prefix = full.substr(0, p); x.name = full.substr(p + 1); } }
    } else {
      size_t p = Str::npos; for (size_t q = full.size() > 101 ? full.size() - 101 : 0; q < full.size() - 1; q++) if (full[q] == '/' && q > 0 && q <= 155) { p = q; break; }
      if (p == Str::npos) x.name = full.substr(0, 100); else { x.prefix = full.substr(0, p); x.name = full.substr(p + 1); }
    }
    if (isdir) { x.type = '5'; Str d = full; while (!d.empty() && d.back() == '/') d.pop_back(); if (d.size() < 70) dirs.push_back(d); }
    else if (k < 17) { x.type = r.chance(1, 5) ? '\0' : '0'; x.data = img_data(r); }
    else { x.type = r.pick(std::vector<char>{'1', '2', '3', '4', '6', 'g', 'x', 'V'}); if (x.type == '1' || x.type == '2') x.link = "target"; if (x.type == 'x' || x.type == 'g') x.data = "20 comment=whatever\n"; x.name = "other" + std::to_string(i); x.prefix = ""; }
    t.m.push_back(x);
  }
  t.build(r); return t;
}

// ---- romfs (layout of genromfs) ----
struct RomNode { Str name; char type = 2; /* 0 hard link, 1 directory, 2 file, 3 symlink.. */ Str data; int link = -1; bool exec = false; std::vector<int> kids; int parent = -1; uint32_t pos = 0; int spec = 0; /* 1: a device whose number is the position of a header */ };
struct RomImage {
  std::vector<RomNode> n; Str volume, bytes; bool extra = false; // n[0] is the root
  static void be(Str &s, size_t at, uint32_t v) { s[at] = (char)(v >> 24); s[at + 1] = (char)(v >> 16); s[at + 2] = (char)(v >> 8); s[at + 3] = (char)v; }
  static size_t name_len(const Str &s) { return (s.size() + 1 + 15) & ~(size_t)15; }
  size_t header(uint32_t next, char type, uint32_t spec, const Str &data, const Str &name, long size = -1) {
    size_t at = bytes.size(); bytes.append(16 + name_len(name), 0); be(bytes, at, next | (uint32_t)(unsigned char)type); be(bytes, at + 4, spec); be(bytes, at + 8, size >= 0 ? (uint32_t)size : (uint32_t)data.size());
    memcpy(&bytes[at + 16], name.data(), name.size()); fix(at, 16 + name_len(name)); bytes += data; bytes.append((16 - bytes.size() % 16) % 16, 0); return at;
  }
  void fix(size_t at, size_t len) { be(bytes, at + 12, 0); uint32_t c = 0; for (size_t i = at; i + 3 < at + len && i + 3 < bytes.size(); i += 4) c += (uint32_t)(unsigned char)bytes[i] << 24 | (uint32_t)(unsigned char)bytes[i + 1] << 16 | (uint32_t)(unsigned char)bytes[i + 2] << 8 | (unsigned char)bytes[i + 3]; be(bytes, at + 12, -c); }
  static size_t hsize(const Str &name, size_t data) { return 16 + name_len(name) + ((data + 15) & ~(size_t)15); }
  struct Pos { size_t dot = 0, dotdot = 0; };
  std::vector<Pos> dp;
  // first pass: positions. The root's "." is the root header itself.
  void place(int i, size_t &at) {
    RomNode &d = n[(size_t)i]; dp.resize(n.size());
    if (i == 0) { d.pos = (uint32_t)at; dp[0].dot = at; at += hsize(".", 0); } else { dp[(size_t)i].dot = at; at += hsize(".", 0); }
    dp[(size_t)i].dotdot = at; at += hsize("..", 0);
    for (int k : d.kids) { RomNode &c = n[(size_t)k]; c.pos = (uint32_t)at; at += hsize(c.name, (c.type == 2 || c.type == 3) ? c.data.size() : 0); if (c.type == 1) place(k, at); }
  }
  void emit(int i) {
    RomNode &d = n[(size_t)i]; uint32_t parent = i == 0 ? d.pos : n[(size_t)d.parent].pos;
    uint32_t first = d.kids.empty() ? 0 : n[(size_t)d.kids[0]].pos;
    if (i == 0) header((uint32_t)dp[0].dotdot, 1 | 8, d.pos, "", "."); else header((uint32_t)dp[(size_t)i].dotdot, 0, d.pos, "", ".");
    header(first, 0, parent, "", "..");
    for (size_t j = 0; j < d.kids.size(); j++) {
      RomNode &c = n[(size_t)d.kids[j]]; uint32_t next = j + 1 < d.kids.size() ? n[(size_t)d.kids[j + 1]].pos : 0;
      if (c.type == 1) { header(next, (char)(1 | (c.exec ? 8 : 0)), (uint32_t)dp[(size_t)d.kids[j]].dot, "", c.name); emit(d.kids[j]); }
      else if (c.type == 0) header(next, 0, n[(size_t)c.link].pos, "", c.name);
      else header(next, (char)(c.type | (c.exec ? 8 : 0)), c.type == 4 || c.type == 5 ? c.spec == 1 ? n[(size_t)c.link].pos : 0x00010002u : 0, c.data, c.name);
    }
  }
  void build(Rng &r) {
    bytes.assign(16, 0); memcpy(&bytes[0], "-rom1fs-", 8); Str v = volume; v.resize(name_len(volume), 0); bytes += v;
    size_t at = bytes.size(); dp.clear(); place(0, at); emit(0); be(bytes, 8, (uint32_t)bytes.size()); (void)r;
    fix_super(); size_t sz = bytes.size(); if (extra) bytes.append((1024 - sz % 1024) % 1024, 0);
  }
  void fix_super() { fix(0, std::min<size_t>(512, bytes.size())); }
  Str path(int i) const { return i <= 0 ? "" : path(n[(size_t)i].parent) + "/" + n[(size_t)i].name; }
  Model model() const { Model o; o["/"].dir = true; for (size_t i = 1; i < n.size(); i++) { const RomNode &x = n[i]; bool vis = true; for (int p = (int)i; p > 0; p = n[(size_t)p].parent) if (n[(size_t)p].name.size() > EVFS_ROMFS_MAX_NAME_LEN - 1) vis = false; if (!vis) continue; if (x.type == 1) o[path((int)i)].dir = true; else if (x.type == 2) o[path((int)i)].data = x.data; else if (x.type == 0 && n[(size_t)x.link].type == 2) o[path((int)i)].data = n[(size_t)x.link].data; else o[path((int)i)].skip = true; } return o; }
};
inline RomImage rom_random(Rng &r, bool scale = false) {
  img_pick_scale(r, scale); RomImage t; t.volume = r.chance(1, 8) ? Str(r.below(80), 'v') : img_name(r, 20); t.extra = r.chance(1, 2); t.n.resize(1); t.n[0].type = 1;
  int want = img_scale() == 2 ? r.range(200, 1100) : r.chance(1, 15) ? 0 : r.chance(1, 10) ? r.range(20, 90) : r.range(1, 14); std::vector<int> dirs = {0}; bool deep = r.chance(1, 8); if (deep) want = r.range(15, 40);
  for (int i = 0; i < want; i++) {
    RomNode x; x.parent = deep && r.chance(2, 3) ? dirs.back() : r.pick(dirs); x.name = img_name(r, 31); if (r.chance(1, 20)) x.name = Str((size_t)r.range(28, 60), (char)('p' + r.below(5)));
    bool dup = x.name == "." || x.name == ".."; for (int k : t.n[(size_t)x.parent].kids) if (t.n[(size_t)k].name == x.name) dup = true; if (dup) continue;
    size_t pl = t.path(x.parent).size(); if (pl > (deep ? 255u : 150u)) continue; if (deep && pl > 190 && pl < 254 && r.chance(2, 3)) { size_t w = 255 - pl - 1; if (w <= EVFS_ROMFS_MAX_NAME_LEN) x.name = Str(w - (w > 1 && r.chance(1, 3)) + r.below(2), (char)('a' + r.below(26))); for (int k : t.n[(size_t)x.parent].kids) if (t.n[(size_t)k].name == x.name) dup = true; if (dup) continue; }
    int k = (int)r.below(deep && r.chance(1, 2) ? 4 : 12); x.exec = r.chance(1, 4);
    if (k < 4) x.type = 1; else if (k < 10) { x.type = 2; x.data = img_data(r); } else if (k == 10) { std::vector<int> fl; for (size_t j = 1; j < t.n.size(); j++) if (t.n[j].type == 2) fl.push_back((int)j); if (fl.empty()) { x.type = 2; x.data = img_data(r); } else { x.type = 0; x.link = r.pick(fl); x.exec = false; } }
    else { x.type = r.pick(std::vector<char>{3, 4, 5, 6, 7}); if (x.type == 3) x.data = "target"; if ((x.type == 4 || x.type == 5) && t.n.size() > 1 && r.chance(1, 2)) { x.spec = 1; x.link = (int)(1 + r.below(t.n.size() - 1)); } }
    t.n.push_back(x); int id = (int)t.n.size() - 1; t.n[(size_t)x.parent].kids.push_back(id); if (x.type == 1) dirs.push_back(id);
  }
  if (img_scale() != 2 && r.chance(1, 10)) { // a chain of directories that ends at the longest paths
    auto add = [&](int parent, char type, const Str &name) { for (int k : t.n[(size_t)parent].kids) if (t.n[(size_t)k].name == name) return -1; RomNode x; x.parent = parent; x.type = type; x.name = name; if (type == 2) x.data = img_data(r); t.n.push_back(x); int id = (int)t.n.size() - 1; t.n[(size_t)parent].kids.push_back(id); return id; };
    int p = 0; size_t pl = 0, N = std::min<size_t>(EVFS_ROMFS_MAX_NAME_LEN - 1, 60); while (p >= 0 && 254 - pl > N) { size_t w = std::min<size_t>(1 + r.below(N), 252 - pl); if (r.chance(2, 3)) w = std::min<size_t>(N, 252 - pl); p = add(p, 1, Str(w, (char)('k' + r.below(5)))); pl += 1 + w; }
    if (p >= 0) { for (size_t total = 252; total <= 256; total++) if (total > pl + 1 && total - pl - 1 <= N) add(p, r.chance(1, 4) ? 1 : 2, Str(total - pl - 1, (char)('a' + r.below(9)))); vf_count("longest_paths"); } }
  t.build(r); return t;
}

// ---- the monitor ----
// A spelling of the normalized absolute path p, relative to cwd or absolute
inline Str img_spell(Rng &r, const Str &p, const Str &cwd) {
  std::vector<Str> t = vf_split(p), c = vf_split(cwd), seg; bool rel = r.chance(1, 3); size_t common = 0;
  if (rel) { while (common < t.size() && common < c.size() && t[common] == c[common]) common++; if (common && r.chance(1, 5)) common--; for (size_t i = common; i < c.size(); i++) seg.push_back(".."); }
  for (size_t i = common; i < t.size(); i++) seg.push_back(t[i]);
  Str o = rel ? "" : "/"; bool noisy = r.chance(1, 2); static const char *seps[] = {"/", "\\", "//", "/./", "\\/", "/.//"};
  if (!rel && r.chance(1, 6)) o += "../";
  for (size_t i = 0; i < seg.size(); i++) { if (noisy && r.chance(1, 6)) o += "zz/../"; if (noisy && r.chance(1, 8)) o += "./"; o += seg[i]; if (i + 1 < seg.size()) o += noisy ? seps[r.below(6)] : "/"; }
  if (seg.empty() && rel) o = "."; if (noisy && !seg.empty() && r.chance(1, 5)) o += r.chance(1, 2) ? "/" : "/.";
  if (o.size() + cwd.size() + 2 > EVFS_MAX_PATH - 1) return p;
  return o;
}
struct ImgOpt { Str vfs; int no_stat = EVFS_ERR_NO_FILE, no_open = EVFS_ERR_NO_FILE; bool rsrc = false; const uint8_t *res = nullptr; size_t reslen = 0; bool dirs = false; Str key; };
struct ImgHandle { EvfsFile *f = nullptr; Str path; Str data; long pos = 0; };
inline void img_exercise(Rng &r, const Model &m, const ImgOpt &o, int steps) {
  const char *v = o.vfs.c_str(); const Str &K = o.key; std::vector<Str> all, dirs; for (auto &x : m) { if (x.first.size() >= EVFS_MAX_PATH) continue; all.push_back(x.first); if (x.second.dir) dirs.push_back(x.first); }
  Str cwd = "/"; std::vector<ImgHandle> h(4);
  auto other = [&]() -> Str { // a path near the stored ones
    Str p = r.pick(all); switch (r.below(7)) { case 0: return p + "x"; case 1: return p == "/" ? "/nothing" : p.substr(0, p.size() - 1); case 2: return ref_normalize(p + "/.."); case 3: { for (auto &c : p) if (isalpha((unsigned char)c)) { c ^= 32; break; } return p; } case 4: { Str q = r.pick(all); return p + (r.chance(1, 2) ? "/sub" : q.substr(q.rfind('/'))); } case 5: return "/" + img_name(r, 30); default: return "/after-the-end"; } };
  { std::set<Str> names; for (auto &x : m) { if (names.size() < 25 && x.first.size() > 1) names.insert(x.first.substr(x.first.rfind('/'))); } int left = 8; // nothing is below what is no directory
    for (auto &x : m) if (!x.second.dir && x.first.size() < 200 && (x.second.skip || r.chance(1, 30)) && left-- > 0) for (auto &n : names) { Str p = x.first + n; if (m.count(p) || p.size() >= EVFS_MAX_PATH) continue; vf_count("below_files"); VF_CHECK(!evfs_existing_file_ex(p.c_str(), v) && !evfs_existing_dir_ex(p.c_str(), v), K + ":below-file", "%s exists below something that is no directory", vf_q(p).c_str()); } }
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    ImgHandle &x = h[r.below(4)]; int k = (int)r.below(24);
    Str p = r.chance(1, 4) ? other() : r.pick(all); p = ref_normalize(p); if (p.empty()) p = "/"; auto it = m.find(p); bool have = it != m.end(); if (have && it->second.skip) continue; Str sp = img_spell(r, p, cwd);
    if (k < 5) {
      if (x.f) { int c = evfs_file_close(x.f); x.f = nullptr; VF_CHECK(c == EVFS_OK, K + ":close", "close returned %s", ev_err(c)); }
      vf_note("open %s", vf_q(sp).c_str()); EvfsFile *f = nullptr; int rv = evfs_open_ex(sp.c_str(), &f, EVFS_READ, v); vf_count("opens");
      if (have && !it->second.dir) { VF_CHECK(rv == EVFS_OK, K + ":open", "opening %s as %s returned %s", vf_q(p).c_str(), vf_q(sp).c_str(), ev_err(rv)); if (rv == EVFS_OK) { x.f = f; x.path = p; x.data = it->second.data; x.pos = 0; } }
      else { vf_count("absent"); VF_CHECK(rv != EVFS_OK, K + ":open-absent", "%s opens although the image has %s", vf_q(sp).c_str(), have ? "a directory there" : "nothing there"); if (rv == EVFS_OK) evfs_file_close(f); else if (!have) VF_CHECK(rv == o.no_open || (p.size() >= EVFS_MAX_PATH && rv == EVFS_ERR_OVERFLOW), K + ":open-absent-code", "opening missing %s returned %s", vf_q(sp).c_str(), ev_err(rv)); }
    } else if (k < 9) {
      vf_note("stat %s", vf_q(sp).c_str()); EvfsInfo inf; memset(&inf, 0x5a, sizeof inf); int rv = evfs_stat_ex(sp.c_str(), &inf, v); vf_count("stats");
      VF_CHECK((rv == EVFS_OK) == have, K + ":stat", "stat of %s (%s) returned %s, the image has %s", vf_q(p).c_str(), vf_q(sp).c_str(), ev_err(rv), have ? "it" : "no such entry");
      if (have && rv == EVFS_OK) VF_CHECK(!!(inf.type & EVFS_FILE_DIR) == it->second.dir && (it->second.dir || (size_t)inf.size == it->second.data.size()), K + ":stat-info", "stat of %s: type %d size %ld, stored %s of %zu", vf_q(p).c_str(), inf.type, (long)inf.size, it->second.dir ? "directory" : "file", it->second.data.size());
      if (!have) VF_CHECK(rv == o.no_stat || (p.size() >= EVFS_MAX_PATH && rv == EVFS_ERR_OVERFLOW), K + ":stat-code", "stat of missing %s returned %s", vf_q(sp).c_str(), ev_err(rv));
      bool ef = evfs_existing_file_ex(sp.c_str(), v), ed = evfs_existing_dir_ex(sp.c_str(), v);
      VF_CHECK(ef == (have && !it->second.dir) && ed == (have && it->second.dir), K + ":existing", "%s: existing_file %d existing_dir %d, the image has %s", vf_q(sp).c_str(), ef, ed, !have ? "nothing" : it->second.dir ? "a directory" : "a file");
    } else if (k == 9) {
      Str to = r.chance(1, 2) ? r.pick(dirs) : p; Str s2 = img_spell(r, to, cwd); if (m.count(to) && m.at(to).skip) continue; bool ok = m.count(to) && m.at(to).dir; vf_note("cd %s", vf_q(s2).c_str()); int rv = evfs_set_cur_dir_ex(s2.c_str(), v); vf_count("set_cur_dir");
      VF_CHECK((rv == EVFS_OK) == ok, K + ":set_cur_dir", "set_cur_dir(%s) returned %s", vf_q(s2).c_str(), ev_err(rv)); if (rv == EVFS_OK) cwd = to;
    } else if (k == 10) {
      size_t n = r.chance(1, 3) ? cwd.size() + r.below(3) : EVFS_MAX_PATH; Guarded b(n); StringRange g; range_init(&g, b.p, n); int rv = evfs_get_cur_dir_ex(&g, v); vf_count("get_cur_dir");
      if (n > cwd.size()) VF_CHECK(rv == EVFS_OK && strnlen(b.p, n) == cwd.size() && cwd == b.p, K + ":get_cur_dir", "get_cur_dir returned %s %s, it is %s", ev_err(rv), vf_q(Str(b.p, strnlen(b.p, n))).c_str(), vf_q(cwd).c_str());
      else VF_CHECK(rv == EVFS_ERR_OVERFLOW && b.intact(), K + ":get_cur_dir-short", "get_cur_dir into %zu bytes returned %s", n, ev_err(rv));
    } else if (k == 11) { // whatever changes things is refused
      int rv; Str what; vf_count("refused");
      switch (r.below(5)) {
      case 0: rv = evfs_delete_ex(sp.c_str(), v); what = "delete"; break;
      case 1: rv = evfs_make_dir_ex(sp.c_str(), v); what = "make_dir"; break;
      case 2: rv = evfs_rename_ex(sp.c_str(), "/new", v); what = "rename"; break;
      default: { static const int F[] = {EVFS_WRITE, EVFS_RDWR, EVFS_WRITE | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_APPEND, EVFS_READ | EVFS_OVERWRITE, EVFS_READ | EVFS_OPEN_OR_NEW}; int fl = F[r.below(8)]; EvfsFile *f = (EvfsFile *)(intptr_t)1; rv = evfs_open_ex(sp.c_str(), &f, fl, v); what = vf_fmt("open 0x%x", fl); if (rv == EVFS_OK) evfs_file_close(f); else VF_CHECK(f == nullptr, K + ":handle", "a failed open left a handle"); break; }
      }
      VF_CHECK(rv < 0, K + ":refuse", "%s of %s returned %s", what.c_str(), vf_q(sp).c_str(), ev_err(rv));
    } else if (x.f) {
      long size = (long)x.data.size();
      if (k < 17) {
        size_t n = size > 20000 && r.chance(1, 2) ? r.below(150000) : r.chance(1, 4) ? r.below(3000) : r.chance(1, 4) ? (size_t)(size - x.pos) + r.below(3) : r.below(60); Guarded b(n); ptrdiff_t g = evfs_file_read(x.f, b.p, n); size_t want = (size_t)std::min<long>((long)n, size - x.pos); vf_note("read %zu at %ld", n, x.pos); vf_count("reads");
        VF_CHECK(g == (ptrdiff_t)want, K + ":read", "%s: read of %zu at %ld of %ld returned %ld", vf_q(x.path).c_str(), n, x.pos, size, (long)g);
        VF_CHECK(b.intact(), K + ":overrun", "read of %zu wrote outside the buffer", n);
        if (g == (ptrdiff_t)want) { VF_CHECK(memcmp(b.p, x.data.data() + x.pos, want) == 0, K + ":data", "%s: the %zu bytes at %ld differ", vf_q(x.path).c_str(), want, x.pos); x.pos += g; vf_seen(vf_hash(vf_fmt("%zu %ld %ld", want, x.pos, size))); }
      } else if (k < 21) {
        EvfsSeekDir d = (EvfsSeekDir)r.pick(std::vector<int>{EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); long off = r.chance(1, 12) ? 2147483647l : r.chance(1, 2) ? (long)r.below((uint64_t)size + 3) : (long)r.below(40); if (d == EVFS_SEEK_REL && r.chance(1, 2)) off = -off; if (r.chance(1, 25)) { // the ends of the offset range, and targets around the largest offset
          const __int128 lo = std::numeric_limits<evfs_off_t>::min(), hi = std::numeric_limits<evfs_off_t>::max(); __int128 w = r.chance(1, 3) ? lo + (long)r.below(2) : (d == EVFS_SEEK_TO ? hi : d == EVFS_SEEK_REL ? hi - x.pos : (__int128)size - hi) + r.range(-2, 2); off = (long)std::max(lo, std::min(hi, w)); vf_count("extreme_seeks"); }
        __int128 to = d == EVFS_SEEK_TO ? off : d == EVFS_SEEK_REL ? (__int128)x.pos + off : (__int128)size - off; long np = to < 0 ? 0 : to > size ? size : (long)to; vf_note("seek %d %ld", d, off); vf_count("seeks");
        int rv = evfs_file_seek(x.f, (evfs_off_t)off, d); VF_CHECK(rv == EVFS_OK, K + ":seek", "seek %ld origin %d returned %s", off, d, ev_err(rv)); x.pos = np;
        long t = evfs_file_tell(x.f); VF_CHECK(t == np, K + ":tell", "%s (%ld bytes): after seek %ld origin %d the position is %ld, not %ld", vf_q(x.path).c_str(), size, off, d, t, np);
      } else if (k == 21) {
        long s = evfs_file_size(x.f), t = evfs_file_tell(x.f); bool e = evfs_file_eof(x.f); vf_count("queries");
        VF_CHECK(s == size && t == x.pos && e == (x.pos >= size), K + ":query", "%s: size %ld tell %ld eof %d, expected %ld %ld %d", vf_q(x.path).c_str(), s, t, e, size, x.pos, x.pos >= size);
        if (o.rsrc) { void *a = nullptr; int rv = evfs_file_ctrl(x.f, EVFS_CMD_GET_RSRC_ADDR, &a); VF_CHECK(rv == EVFS_OK && (size == 0 || ((const uint8_t *)a >= o.res && (const uint8_t *)a + size <= o.res + o.reslen && memcmp(a, x.data.data(), (size_t)size) == 0)), K + ":rsrc-addr", "%s: the resource address (%s) does not hold its data", vf_q(x.path).c_str(), ev_err(rv)); vf_count("rsrc_addr"); }
      } else if (k == 22) {
        int w = (int)evfs_file_write(x.f, "zz", 2), t = evfs_file_truncate(x.f, 0); VF_CHECK(w < 0 && t < 0, K + ":write", "write returned %d and truncate %s on a read-only file", w, ev_err(t)); vf_count("refused");
      } else { int rv = evfs_file_sync(x.f); VF_CHECK(rv == EVFS_OK || rv == EVFS_ERR_NO_SUPPORT, K + ":sync", "sync returned %s", ev_err(rv)); }
    }
  }
  for (auto &x : h) if (x.f) evfs_file_close(x.f);
  // every stored file once more, whole
  for (auto &x : m) if (!vf_case_failed() && !x.second.dir && !x.second.skip && x.first.size() < EVFS_MAX_PATH) { EvRead e = ev_read_all(x.first.c_str(), v, r.chance(1, 2) ? 4096 : x.second.data.size() > 20000 ? 1000 + r.below(200000) : 1 + r.below(700)); VF_CHECK(e.rv == EVFS_OK && e.data == x.second.data, K + ":whole", "%s: read %zu bytes (%s) of %zu stored", vf_q(x.first).c_str(), e.data.size(), ev_err(e.rv), x.second.data.size()); vf_count("whole_files"); }
}
#endif
