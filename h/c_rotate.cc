// C10-C12: rotating logs keep an exact suffix, act as one byte array, and survive crashes and faults.
#include "diff.h"
#include <fcntl.h>
#include <filesystem>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_rotate.h"
#include "evfs/shim/shim_jail.h"
}
namespace fs = std::filesystem;

// Position-coded stream contents: any foreign, repeated or reordered byte shows.
static Str coded(uint32_t salt, size_t from, size_t n) {
  Str s(n, 0);
  for (size_t i = 0; i < n; i++) { uint64_t x = (from + i) * 0x9E3779B97F4A7C15ull + salt * 0xD1B54A32D192ED03ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; s[i] = (char)(x >> 40); }
  return s;
}
struct Geo { size_t chunk, max; size_t cap() const { return chunk * max; } size_t keep() const { return chunk * (max - 1); } };
static Geo pick_geo(Rng &r, bool scale = false) {
  if (scale && r.chance(1, 25)) { vf_count("large_geometries"); if (r.chance(1, 8)) return Geo{(size_t)r.range(32, 40), (size_t)r.pick(std::vector<int>{9999, 10000, 10001, 32768, 65535, 65536, 65537, 99998, 99999})}; return r.chance(1, 2) ? Geo{(size_t)r.pick(std::vector<int>{1000, 32767, 32768, 65535, 65536, 65537, 100000}), (size_t)r.range(2, 4)} : Geo{(size_t)r.range(32, 40), (size_t)r.pick(std::vector<int>{60, 127, 128, 129, 255, 256, 257, 300, 999, 1001, 1200})}; }
  return Geo{(size_t)r.pick(std::vector<int>{32, 33, 40, 64, 100, 257}), (size_t)r.pick(std::vector<int>{2, 2, 3, 4, 5, 9})}; }
static size_t pick_len(Rng &r, const Geo &g, size_t have) {
  if (g.max > 2000) return r.chance(1, 4) ? g.chunk - have % g.chunk : r.below(g.chunk * 40);
  switch (r.below(8)) {
  case 0: return 0;
  case 1: return r.below(4);
  case 2: return g.chunk - have % g.chunk;                       // exactly to the boundary
  case 3: return g.chunk * r.below(g.max + 2);
  case 4: return r.below(g.cap() * 3 + 1);
  case 5: return g.cap() > have ? g.cap() - have : g.chunk;      // exactly to capacity
  default: return r.below(g.chunk * 2);
  }
}
struct Base { // the storage below the shim
  std::unique_ptr<MemFs> mem; Str vfs, dir, hostdir;
  int kind;
  Base(Rng &r, int k) : kind(k) {
    if (kind == 3) { evfs_register_stdio(false); hostdir = vf_scratch + "/rot"; fs::create_directories(hostdir); vfs = "stdio"; dir = hostdir; }
    else {
      mem.reset(new MemFs("mem")); mem->buffered = kind == 1; mem->no_dots = r.chance(1, 2); mem->reg(false);
      if (kind == 2) { mem->mkdirs("/j/k"); evfs_register_jail("jail", "mem", "/j/k", false); vfs = "jail"; dir = ""; } else { vfs = "mem"; dir = ""; }
    }
  }
  ~Base() { if (!hostdir.empty()) { std::error_code e; fs::remove_all(hostdir, e); } }
};
static bool storage_ok(const Str &vfs, const Str &path, const Geo &g, size_t *bytes) {
  std::vector<Str> names; std::vector<EvfsInfo> inf; *bytes = 0; size_t chunks = 0;
  if (ev_list(path.c_str(), vfs.c_str(), &names, &inf) != EVFS_OK) return false;
  for (auto &n : names) if (n.size() > 4 && n.substr(n.size() - 4) == ".cnk") { chunks++; EvfsInfo i; if (evfs_stat_ex((path + "/" + n).c_str(), &i, vfs.c_str()) != EVFS_OK || (size_t)i.size > g.chunk) return false; *bytes += (size_t)i.size; }
  return chunks <= g.max;
}
// Puts a container that a log just created into a later state of its life: `n` chunks starting anywhere in the ring, in either generation,
// as if everything before them had been appended and rotated out. The chunk names are taken from what the library itself wrote.
static bool prefill(const Str &vfs, const Str &path, const Geo &g, const Str &data, size_t start, int gen) {
  std::vector<Str> names; if (ev_list(path.c_str(), vfs.c_str(), &names, nullptr) != EVFS_OK || std::find(names.begin(), names.end(), "c00000_0.cnk") == names.end()) return false;
  evfs_delete_ex((path + "/c00000_0.cnk").c_str(), vfs.c_str());
  for (size_t o = 0, c = start; o < data.size(); o += g.chunk, c++) {
    Str d = data.substr(o, g.chunk); EvfsFile *f; if (evfs_open_ex((path + vf_fmt("/c%05zu_%d.cnk", c % g.max, c >= g.max ? 1 - gen : gen)).c_str(), &f, EVFS_WRITE | EVFS_OVERWRITE, vfs.c_str()) != EVFS_OK) return false;
    bool ok = evfs_file_write(f, d.data(), d.size()) == (ptrdiff_t)d.size(); if (evfs_file_close(f) != EVFS_OK || !ok) return false;
  }
  return true;
}
static size_t pick_start(Rng &r, const Geo &g, size_t n) { // favours a wrap of the ring soon
  switch (r.below(4)) { case 0: return r.below(g.max); case 1: return g.max - 1; case 2: return g.max - 1 - r.below(std::min<size_t>(n + 3, g.max)); default: return r.below(std::min<size_t>(g.max, 3)); } }
// A new container at `path` (not yet open) brought to such a state; returns what it holds
static bool prepared(Rng &r, const Base &B, const Str &path, const Geo &g, uint32_t salt, Str *out) {
  EvfsFile *f; out->clear(); if (evfs_open_ex(path.c_str(), &f, EVFS_WRITE | EVFS_APPEND, "rot") != EVFS_OK) return false;
  bool ok = evfs_file_write(f, "x", 1) == 1; if (evfs_file_close(f) != EVFS_OK || !ok) return false;
  size_t n = g.max <= 2000 && g.cap() < 200000 && r.chance(1, 3) ? g.max : 1 + r.below(std::min<size_t>(g.max, 12)), start = pick_start(r, g, n); int gen = (int)r.below(2);
  Str d = coded(salt, 0, (n - 1) * g.chunk + (r.chance(1, 3) ? g.chunk : 1 + r.below(g.chunk)));
  ok = prefill(B.vfs, path, g, d, start, gen); VF_CHECK(ok, "rotate:prefill", "the prepared container could not be written"); vf_note("prepared %zu chunks from %zu generation %d, %zu bytes, geometry %zu x %zu", n, start, gen, d.size(), g.chunk, g.max);
  if (ok) { *out = d; vf_count("prepared"); if (start + n > g.max) vf_count("prepared_wrapped"); } return ok;
}
static Str read_from(EvfsFile *f, Rng &r, long want) { // sequential reads of varying size
  Str o; bool big = r.chance(1, 2);
  for (int guard = 0; guard < 1000000; guard++) {
    size_t n = big ? 1 + r.below(4000) : 1 + r.below(90); Guarded b(n); ptrdiff_t g = evfs_file_read(f, b.p, n);
    if (g < 0) { vf_violation("rotate:read-error", "reading returned %s after %zu of %ld bytes", ev_err((int)g), o.size(), want); break; }
    if ((size_t)g > n || !b.intact()) { vf_violation("rotate:read-overrun", "read of %zu returned %ld", n, (long)g); break; }
    if (g == 0) break; o.append(b.p, (size_t)g);
  }
  return o;
}

// ---- C10 ----
static void append_case(Rng &r, uint64_t) {
  Base B(r, (int)r.below(8) < 7 ? (int)r.below(3) : 3);
  struct Log { Str path, stream; Geo g; EvfsFile *f = nullptr; uint32_t salt; bool made = false; };
  std::vector<Log> logs; int nl = r.range(1, 3); Geo cfg = pick_geo(r, true);
  for (int i = 0; i < nl; i++) { Log l; l.path = B.dir + (r.chance(1, 3) ? "/log" + std::to_string(i) + ".txt" : "/d" + std::to_string(i) + "/" + Str((size_t)r.range(1, 60), (char)('a' + i))); l.salt = (uint32_t)r.next(); l.g = cfg; logs.push_back(l); if (l.path.compare(B.dir.size(), 2, "/d") == 0) evfs_make_dir_ex((B.dir + "/d" + std::to_string(i)).c_str(), B.vfs.c_str()); }
  auto mount = [&](const Geo &g) { RotateConfig c; c.chunk_size = (uint32_t)g.chunk; c.max_chunks = (uint32_t)g.max; int rv = evfs_register_rotate("rot", B.vfs.c_str(), &c, false); VF_CHECK(rv == EVFS_OK, "rotate:register", "registration returned %s", ev_err(rv)); };
  mount(cfg);
  int steps = r.range(8, 60); const int F[] = {EVFS_WRITE | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND | EVFS_OPEN_OR_NEW};
  auto verify = [&](Log &l, EvfsFile *f, const char *when) {
    long size = evfs_file_size(f); vf_count("verified");
    VF_CHECK(size >= 0 && (size_t)size <= l.stream.size() && (size_t)size <= l.g.cap(), "rotate:size", "%s: size %ld of %zu written, capacity %zu", when, size, l.stream.size(), l.g.cap());
    VF_CHECK((size_t)size >= std::min(l.stream.size(), l.g.keep()), "rotate:dropped", "%s: only %ld of %zu bytes kept, chunks %zu x %zu", when, size, l.stream.size(), l.g.chunk, l.g.max);
    int s = evfs_file_seek(f, 0, EVFS_SEEK_TO); VF_CHECK(s == EVFS_OK, "rotate:seek", "seek to the start returned %s", ev_err(s));
    Str d = read_from(f, r, size);
    VF_CHECK((long)d.size() == size, "rotate:read-length", "%s: read %zu bytes, reported size %ld", when, d.size(), size);
    if (d.size() <= l.stream.size()) VF_CHECK(l.stream.compare(l.stream.size() - d.size(), d.size(), d) == 0, "rotate:suffix", "%s: the %zu bytes read are not the last bytes of the %zu written", when, d.size(), l.stream.size());
    vf_seen(vf_hash(vf_fmt("%zu %zu %ld %zu", l.g.chunk, l.g.max, size, l.stream.size() > l.g.cap() ? l.g.cap() + l.stream.size() % l.g.cap() : l.stream.size())));
  };
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    Log &l = logs[r.below(logs.size())];
    if (!l.f) {
      if (!l.made && r.chance(cfg.max > 2000 ? 9 : 2, 10)) { Str d; if (prepared(r, B, l.path, cfg, l.salt, &d)) { l.made = true; l.g = cfg; l.stream = d; } else break; }
      int rv = evfs_open_ex(l.path.c_str(), &l.f, F[r.below(3)], "rot"); vf_note("open %s -> %d", vf_q(l.path).c_str(), rv);
      VF_CHECK(rv == EVFS_OK, "rotate:open", "opening %s returned %s", vf_q(l.path).c_str(), ev_err(rv)); if (rv) break;
      if (!l.made) { l.made = true; l.g = cfg; } vf_count("opens"); if (r.chance(1, 3)) verify(l, l.f, "after opening");
      continue;
    }
    switch (r.below(12)) {
    case 0: case 1: { int rv = evfs_file_close(l.f); l.f = nullptr; vf_note("close"); VF_CHECK(rv == EVFS_OK, "rotate:close", "close returned %s", ev_err(rv)); size_t b = 0; VF_CHECK(storage_ok(B.vfs, l.path, l.g, &b), "rotate:storage", "after closing storage exceeds %zu chunks of %zu", l.g.max, l.g.chunk); vf_count("closes"); break; }
    case 2: {
      if (!r.chance(1, 2)) { // change the configuration for new containers
        cfg = pick_geo(r, true); RotateConfig c; c.chunk_size = (uint32_t)cfg.chunk; c.max_chunks = (uint32_t)cfg.max; vf_count("reconfigured");
        int rv = evfs_vfs_ctrl_ex(EVFS_CMD_SET_ROTATE_CFG, &c, "rot"); VF_CHECK(rv == EVFS_OK, "rotate:config", "configuration refused: %s", ev_err(rv));
      } else { for (auto &x : logs) if (x.f) { evfs_file_close(x.f); x.f = nullptr; } evfs_unregister(evfs_find_vfs("rot")); mount(cfg); vf_count("remounts"); vf_note("remount"); }
      break; }
    case 3: verify(l, l.f, "while open"); break;
    case 4: { int rv = evfs_file_sync(l.f); VF_CHECK(rv == EVFS_OK, "rotate:sync", "sync returned %s", ev_err(rv)); break; }
    default: {
      size_t n = pick_len(r, l.g, l.stream.size()); Str d = coded(l.salt, l.stream.size(), n); ptrdiff_t g = evfs_file_write(l.f, d.data(), n);
      vf_note("append %zu -> %ld", n, (long)g); vf_count("appends"); if (l.stream.size() + n > l.g.cap()) vf_count("rotations");
      VF_CHECK(g == (ptrdiff_t)n, "rotate:append", "append of %zu returned %ld", n, (long)g); if (g > 0) l.stream += d.substr(0, (size_t)g);
      if (r.chance(1, 3)) { size_t b; VF_CHECK(storage_ok(B.vfs, l.path, l.g, &b), "rotate:storage", "storage exceeds %zu chunks of %zu", l.g.max, l.g.chunk); }
      break; }
    }
  }
  for (auto &l : logs) if (l.f) { evfs_file_close(l.f); l.f = nullptr; }
  evfs_unregister(evfs_find_vfs("rot")); if (!vf_case_failed()) mount(pick_geo(r)); // whatever the shim is configured to now, a container keeps its geometry
  for (auto &l : logs) if (l.made && !vf_case_failed()) { EvfsFile *f; int rv = evfs_open_ex(l.path.c_str(), &f, EVFS_READ, "rot"); VF_CHECK(rv == EVFS_OK, "rotate:reopen", "reopening returned %s", ev_err(rv)); if (rv == EVFS_OK) { verify(l, f, "after a remount"); evfs_file_close(f); } }
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 400));
  if (B.mem) VF_CHECK(B.mem->open_files == 0 && B.mem->open_dirs == 0, "rotate:handles", "%ld files and %ld directories of the base left open", B.mem->open_files, B.mem->open_dirs);
  evfs_unregister_all();
}

// capacities around multiples of 2^31 and 2^32: nothing of a few chunks is given up
static void wide_case(Rng &r, uint64_t) {
  Base B(r, (int)r.below(3)); uint64_t m = r.chance(1, 2) ? 2 + r.below(14) : r.chance(1, 2) ? 1ull << r.range(1, 16) : 2 + r.below(99998), total = (1ull << r.range(30, 34)) + r.below(1u << r.below(11)); if (m > 99999) m = 99999;
  uint64_t chunk = (total + m - 1) / m + r.below(3); if (chunk > 0x7fffffffu) chunk = 0x7fffffffu; if (chunk < 32) chunk = 32;
  RotateConfig c; c.chunk_size = (uint32_t)chunk; c.max_chunks = (uint32_t)m; evfs_register_rotate("rot", B.vfs.c_str(), &c, false); Str p = B.dir + "/log", D; uint32_t salt = (uint32_t)r.next();
  EvfsFile *f; int rv = evfs_open_ex(p.c_str(), &f, EVFS_RDWR | EVFS_APPEND, "rot"); vf_note("%llu chunks of %llu", (unsigned long long)m, (unsigned long long)chunk); VF_CHECK(rv == EVFS_OK, "rotate:open", "opening returned %s", ev_err(rv)); if (rv) { evfs_unregister_all(); return; }
  int steps = r.range(2, 12);
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    size_t n = chunk <= 70000 && r.chance(1, 3) && (D.size() / chunk + 3) < m ? chunk - D.size() % chunk + r.below(3) : 1 + r.below(600); if (D.size() + n > chunk * (m - 1)) break;
    ptrdiff_t w = evfs_file_write(f, coded(salt, D.size(), n).data(), n); VF_CHECK(w == (ptrdiff_t)n, "rotate:append", "append of %zu returned %ld", n, (long)w); if (w != (ptrdiff_t)n) break; D += coded(salt, D.size(), n);
    if (r.chance(1, 4)) { rv = evfs_file_close(f); f = nullptr; VF_CHECK(rv == EVFS_OK, "rotate:close", "close returned %s", ev_err(rv)); rv = evfs_open_ex(p.c_str(), &f, EVFS_RDWR | EVFS_APPEND, "rot"); VF_CHECK(rv == EVFS_OK, "rotate:reopen", "reopening returned %s", ev_err(rv)); if (rv) { f = nullptr; break; } }
    long z = (long)evfs_file_size(f); VF_CHECK(z == (long)D.size(), "rotate:dropped", "%ld of %zu bytes kept in %llu chunks of %llu", z, D.size(), (unsigned long long)m, (unsigned long long)chunk);
    evfs_file_seek(f, 0, EVFS_SEEK_TO); Str g = read_from(f, r, z); VF_CHECK(g == D, "rotate:suffix", "%zu bytes read back, %zu written", g.size(), D.size()); vf_count("wide");
  }
  vf_seen(vf_hash(vf_fmt("%llu %llu %zu", (unsigned long long)m, (unsigned long long)chunk, D.size()))); if (f) evfs_file_close(f); evfs_unregister_all();
}

// Logs of tens of thousands of chunks that are really there
static void many_case(Rng &r, uint64_t n) {
  Base B(r, 0); Geo g; g.chunk = 32 + r.below(9); g.max = n % 3 == 0 ? 2000 + r.below(20000) : n % 3 == 1 ? 65540 + r.below(1000) : 65500 + r.below(36); RotateConfig c; c.chunk_size = (uint32_t)g.chunk; c.max_chunks = (uint32_t)g.max; evfs_register_rotate("rot", B.vfs.c_str(), &c, false); Str p = B.dir + "/log"; uint32_t salt = (uint32_t)r.next(); size_t cap = (size_t)g.chunk * (size_t)g.max, total = 0, want = n % 3 == 1 ? cap - r.below(g.chunk) : n % 3 == 2 ? cap / 100 * (size_t)r.range(90, 99) : cap + g.chunk + r.below(5 * g.chunk); vf_note("%zu bytes to %ld chunks of %ld", want, (long)g.max, (long)g.chunk);
  EvfsFile *f = nullptr; bool app = true; auto open = [&] { int rv = evfs_open_ex(p.c_str(), &f, EVFS_RDWR | EVFS_APPEND, "rot"); VF_CHECK(rv == EVFS_OK, "rotate:open", "opening returned %s", ev_err(rv)); if (rv) f = nullptr; return rv == EVFS_OK; }; (void)app; if (!open()) { evfs_unregister_all(); return; }
  while (total < want && !vf_case_failed()) { size_t k = std::min<size_t>(want - total, 1 + r.below(200000)); ptrdiff_t w = evfs_file_write(f, coded(salt, total, k).data(), k); VF_CHECK(w == (ptrdiff_t)k, "rotate:append", "append of %zu returned %ld", k, (long)w); if (w != (ptrdiff_t)k) break; total += k; }
  for (int round = 0; round < 2 && f && !vf_case_failed(); round++) { long z = (long)evfs_file_size(f); VF_CHECK(z <= (long)cap && z >= (long)std::min(total, cap - (size_t)g.chunk), "rotate:dropped", "%ld of %zu bytes kept in %ld chunks of %ld", z, total, (long)g.max, (long)g.chunk); evfs_file_seek(f, 0, EVFS_SEEK_TO); Str got((size_t)z, 0); ptrdiff_t x = evfs_file_read(f, &got[0], (size_t)z); VF_CHECK(x == z && got == coded(salt, total - (size_t)z, (size_t)z), "rotate:suffix", "%ld bytes read back of %zu written are not the last ones (%ld)", (long)x, total, z);
    for (int i = 0; i < 20; i++) { size_t at = r.below((uint64_t)z), k = 1 + r.below(200); Str b(k, 0); evfs_file_seek(f, (evfs_off_t)at, EVFS_SEEK_TO); x = evfs_file_read(f, &b[0], k); k = std::min(k, (size_t)z - at); VF_CHECK(x == (ptrdiff_t)k && b.compare(0, k, coded(salt, total - (size_t)z + at, k)) == 0, "rotate:suffix", "the %zu bytes at %zu of %ld differ", k, at, z); }
    vf_count("many_chunks"); if (total / (size_t)g.chunk > 65536) vf_count("many_beyond_16_bits"); if (total > cap) vf_count("many_wrapped"); int rv = evfs_file_close(f); f = nullptr; VF_CHECK(rv == EVFS_OK, "rotate:close", "close returned %s", ev_err(rv)); if (round == 0) { if (!open()) break; if (r.chance(1, 2)) { size_t k = 1 + r.below(n % 3 ? 2 * g.chunk : 20 * g.chunk); ptrdiff_t w = evfs_file_write(f, coded(salt, total, k).data(), k); VF_CHECK(w == (ptrdiff_t)k, "rotate:append", "append of %zu returned %ld", k, (long)w); total += k; } } }
  if (f) evfs_file_close(f); evfs_unregister_all(); vf_seen(vf_hash(vf_fmt("%ld %ld %zu", (long)g.chunk, (long)g.max, total)));
}

// ---- C11: the retained data as a byte array ----
static void array_case(Rng &r, uint64_t) {
  Base B(r, (int)r.below(10) < 9 ? (int)r.below(3) : 3); Geo g = pick_geo(r, true); RotateConfig c; c.chunk_size = (uint32_t)g.chunk; c.max_chunks = (uint32_t)g.max;
  evfs_register_rotate("rot", B.vfs.c_str(), &c, false); Str p = B.dir + "/log"; Str D; uint32_t salt = (uint32_t)r.next(); size_t seq = 0;
  if (r.chance(g.max > 2000 ? 9 : 2, 10)) { if (!prepared(r, B, p, g, salt, &D)) { evfs_unregister_all(); return; } seq = D.size(); }
  int rounds = r.range(1, 4);
  for (int k = 0; k < rounds && !vf_case_failed(); k++) {
    bool app = r.chance(1, 2); EvfsFile *f; int rv = evfs_open_ex(p.c_str(), &f, app ? EVFS_RDWR | EVFS_APPEND : EVFS_RDWR | EVFS_OPEN_OR_NEW, "rot");
    VF_CHECK(rv == EVFS_OK, "rotate:open", "opening returned %s", ev_err(rv)); if (rv) break;
    long pos = 0; int steps = r.range(5, 60); vf_note("open %s", app ? "append" : "rdwr");
    for (int i = 0; i < steps && !vf_case_failed(); i++) {
      long size = (long)D.size(); int x = (int)r.below(30);
      if (x < 9) { // write
        size_t n = pick_len(r, g, app ? D.size() : (size_t)pos); if (n > g.cap() + 5 && r.chance(3, 4)) n %= g.cap(); Str d = coded(salt, seq, n); seq += n;
        ptrdiff_t w = evfs_file_write(f, d.data(), n); vf_note("write %zu at %ld -> %ld", n, app ? size : pos, (long)w); vf_count(app ? "appends" : (pos < size ? "overwrites" : "extends"));
        VF_CHECK(w == (ptrdiff_t)n, "rotate:write-count", "write of %zu returned %ld", n, (long)w);
        Str full = D; size_t at = app ? D.size() : (size_t)pos; full.replace(at, std::min(n, full.size() - at), d);
        long L = evfs_file_size(f); VF_CHECK(L >= 0 && (size_t)L <= full.size() && (size_t)L <= g.cap() && (size_t)L >= std::min(full.size(), g.keep()), "rotate:write-size", "size %ld after a write making it %zu, %zu chunks of %zu", L, full.size(), g.max, g.chunk);
        if (vf_case_failed()) break; long dropped = (long)full.size() - L; D = full.substr((size_t)dropped); if (dropped) vf_count("drops");
        if (!app) pos += (long)n; pos = std::max(0l, pos - dropped);
        long t = evfs_file_tell(f); VF_CHECK(t == pos, "rotate:write-tell", "position %ld after a write, expected %ld", t, pos);
      } else if (x < 16) { // read
        size_t n = r.chance(1, 3) ? r.below(g.cap() + 50) : r.below(g.chunk + 20); Guarded b(n); ptrdiff_t q = evfs_file_read(f, b.p, n); long av = std::max(0l, std::min((long)n, size - pos)); vf_note("read %zu at %ld -> %ld", n, pos, (long)q); vf_count("reads");
        VF_CHECK(q == av, "rotate:read-count", "read of %zu at %ld of %ld returned %ld", n, pos, size, (long)q);
        if (q == av) VF_CHECK(!memcmp(b.p, D.data() + pos, (size_t)av) && b.intact(), "rotate:read-data", "read of %zu at %ld of %ld returned other bytes", n, pos, size); pos += av;
      } else if (x < 21) { // seek
        EvfsSeekDir o = (EvfsSeekDir)(1 + r.below(3)); long off = r.chance(1, 3) ? (long)(g.chunk * r.below(g.max + 1)) : (long)r.below((uint64_t)size + 10); if (o == EVFS_SEEK_REL && r.chance(1, 2)) off = -off; if (r.chance(1, 15)) off = -off; if (r.chance(1, 40)) off = r.chance(1, 2) ? 2147483647l : -2147483647l;
        if (r.chance(1, 30)) { long hi = 2147483647l; off = r.chance(1, 2) ? -hi - (long)r.below(2) : std::max(-hi - 1, std::min(hi, (o == EVFS_SEEK_TO ? hi : o == EVFS_SEEK_REL ? hi - pos : size - hi) + r.range(-2, 2))); vf_count("extreme_seeks"); }
        long t = o == EVFS_SEEK_TO ? off : o == EVFS_SEEK_REL ? pos + off : size - off; int s = evfs_file_seek(f, (evfs_off_t)off, o); vf_note("seek %ld origin %d -> %d", off, o, s); vf_count("seeks");
        if (t > size) VF_CHECK(s < 0, "rotate:seek-beyond", "seek to %ld of %ld returned %d", t, size, s);
        else if (t >= 0) { VF_CHECK(s == EVFS_OK, "rotate:seek", "seek to %ld of %ld returned %s", t, size, ev_err(s)); pos = t; }
        else if (s == EVFS_OK) pos = 0;                        // negative targets are refused or limited to the start
        long q = evfs_file_tell(f); VF_CHECK(q == pos, "rotate:seek-tell", "position %ld after seek %ld origin %d, expected %ld", q, off, o, pos);
      } else if (x < 23) { long t = evfs_file_tell(f), s = evfs_file_size(f); bool e = evfs_file_eof(f); VF_CHECK(t == pos && s == size && e == (pos >= size), "rotate:query", "position %ld size %ld end %d, expected %ld %ld", t, s, e, pos, size); vf_count("queries"); }
      else if (x < 26) { // trim
        evfs_off_t n = r.chance(1, 8) ? -(evfs_off_t)r.below(1000) - 1 : r.chance(1, 8) ? (evfs_off_t)std::min<uint64_t>((g.chunk << r.range(4, 20)) + r.below(3 * g.chunk), 0x7fffffffu) : r.chance(1, 4) ? (evfs_off_t)r.below(g.cap() * 2) : r.chance(1, 2) ? (evfs_off_t)(g.chunk * r.below(g.max + 1) + r.below(3)) - 1 : (evfs_off_t)r.below((uint64_t)size + 1);
        int s = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &n); vf_note("trim %ld -> %d", (long)n, s); vf_count("trims");
        if (n < 0) VF_CHECK(s <= 0, "rotate:trim-negative", "trimming %ld bytes returned %d", (long)n, s);
        else { long t = (long)n / (long)g.chunk * (long)g.chunk; if (t > size) t = size; VF_CHECK(s == t, "rotate:trim", "trimming %ld of %ld bytes in chunks of %zu returned %d, expected %ld", (long)n, size, g.chunk, s, t); D.erase(0, (size_t)t); pos = std::max(0l, pos - t); if (t) vf_count("trimmed"); }
        long q = evfs_file_tell(f), z = evfs_file_size(f); VF_CHECK(q == pos && z == (long)D.size(), "rotate:trim-state", "after trimming position %ld size %ld, expected %ld %zu", q, z, pos, D.size());
      } else if (x < 28) { // truncate
        long n = r.chance(1, 12) ? -(long)r.below(100) - 1 : r.chance(1, 3) ? (long)(g.chunk * r.below(g.max + 1)) : (long)r.below((uint64_t)size + 20); int s = evfs_file_truncate(f, (evfs_off_t)n); vf_note("truncate %ld -> %d", n, s); vf_count("truncates");
        if (n < 0) VF_CHECK(s < 0, "rotate:truncate-negative", "truncating to %ld returned %d", n, s);
        else { VF_CHECK(s == EVFS_OK, "rotate:truncate", "truncating %ld to %ld returned %s", size, n, ev_err(s)); if (n < size) D.resize((size_t)n); if (pos > (long)D.size()) pos = (long)D.size(); }
        long q = evfs_file_tell(f), z = evfs_file_size(f); VF_CHECK(q == pos && z == (long)D.size(), "rotate:truncate-state", "after truncating position %ld size %ld, expected %ld %zu", q, z, pos, D.size());
      } else { int s = evfs_file_sync(f); VF_CHECK(s == EVFS_OK, "rotate:sync", "sync returned %s", ev_err(s)); }
      vf_seen(vf_hash(vf_fmt("%d %zu %zu %ld %zu", x, g.chunk, g.max, pos, D.size())));
    }
    rv = evfs_file_close(f); VF_CHECK(rv == EVFS_OK, "rotate:close", "close returned %s", ev_err(rv));
    size_t b; VF_CHECK(storage_ok(B.vfs, p, g, &b) && b == D.size(), "rotate:storage", "the chunks hold %zu bytes, expected %zu in at most %zu chunks", b, D.size(), g.max);
  }
  if (!vf_case_failed()) { EvRead e = ev_read_all(p.c_str(), "rot", 1 + r.below(300)); VF_CHECK(e.rv == EVFS_OK && e.data == D, "rotate:final", "reopened file has %zu bytes (%s), expected %zu, or other content", e.data.size(), ev_err(e.rv), D.size()); }
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 400));
  // a removed container leaves nothing
  if (!vf_case_failed() && r.chance(1, 2)) { int rv = evfs_delete_ex(p.c_str(), "rot"); VF_CHECK(rv == EVFS_OK && !evfs_existing_dir_ex(p.c_str(), B.vfs.c_str()), "rotate:delete", "deleting a container returned %s", ev_err(rv)); vf_count("container_deletes"); }
  evfs_unregister_all();
}
// ---- C11: containers of gigabytes (sparse chunk files on the host), around what evfs_off_t holds ----
static void huge_case(Rng &r, uint64_t) {
  const long MAXO = sizeof(evfs_off_t) == 8 ? INT64_MAX : INT32_MAX; evfs_register_stdio(false); Str dir = vf_scratch + "/rh"; std::error_code ec; fs::remove_all(dir, ec); fs::create_directories(dir); Str p = dir + "/log";
  static const long CS[] = {0x08000000, 0x10000000, 0x20000000, 0x3fffffff, 0x40000000, 0x40000001, 0x55555555, 0x7ffffff0, 0x7fffffff}; long chunk = CS[r.below(9)]; int max = r.range(2, 9); long cap = chunk * max, lim = std::min(cap, MAXO);
  RotateConfig c; c.chunk_size = (uint32_t)chunk; c.max_chunks = (uint32_t)max; int rv = evfs_register_rotate("rot", "stdio", &c, false); VF_CHECK(rv == EVFS_OK, "rotate:register", "registration returned %s", ev_err(rv));
  EvfsFile *f = nullptr; rv = evfs_open_ex(p.c_str(), &f, EVFS_RDWR | EVFS_APPEND, "rot"); if (rv == EVFS_OK) { rv = evfs_file_write(f, "x", 1) == 1 ? EVFS_OK : EVFS_ERR; evfs_file_close(f); } VF_CHECK(rv == EVFS_OK, "rotate:open", "creating returned %s", ev_err(rv));
  auto done = [&] { evfs_unregister_all(); fs::remove_all(dir, ec); };
  if (rv != EVFS_OK || unlink((p + "/c00000_0.cnk").c_str())) { done(); return; }
  long size = r.chance(2, 3) ? lim - (long)r.below(500) : r.chance(1, 2) ? std::min(lim, chunk * r.range(1, max) + r.range(-3, 300)) : 1 + (long)r.below((uint64_t)lim); if (size > lim) size = lim;
  std::map<long, char> M; uint32_t salt = (uint32_t)r.next(); long n = (size + chunk - 1) / chunk; int start = (int)r.below((uint64_t)max), gen = (int)r.below(2); size_t seq = 0;
  for (long i = 0; i < n; i++) { // every chunk has marks at both ends and holes between
    long len = std::min(chunk, size - i * chunk), k = std::min(len, 80l); int cn = (start + (int)i) % max; Str h = p + vf_fmt("/c%05d_%d.cnk", cn, start + i >= max ? 1 - gen : gen);
    int fd = ::open(h.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); Str a = coded(salt, seq, (size_t)k), b = coded(salt, seq + 1000, (size_t)k); seq += 2000; if (fd < 0 || ftruncate(fd, len) || pwrite(fd, a.data(), (size_t)k, 0) != k || pwrite(fd, b.data(), (size_t)k, len - k) != k) { if (fd >= 0) ::close(fd); done(); return; } ::close(fd);
    for (long j = 0; j < k; j++) M[i * chunk + j] = a[(size_t)j]; for (long j = 0; j < k; j++) M[i * chunk + len - k + j] = b[(size_t)j]; }
  bool app = r.chance(1, 2); rv = evfs_open_ex(p.c_str(), &f, app ? EVFS_RDWR | EVFS_APPEND : EVFS_RDWR, "rot"); vf_note("%ld bytes in %ld chunks of %ld (of %d) from %d generation %d, %s", size, n, chunk, max, start, gen, app ? "append" : "rdwr");
  VF_CHECK(rv == EVFS_OK, "rotate:huge-open", "opening %ld bytes returned %s", size, ev_err(rv)); if (rv != EVFS_OK) { done(); return; } vf_count("huge"); if (size > 0x7fffff00) vf_count("huge_limit");
  long pos = 0; auto drop = [&](long k) { std::map<long, char> N; for (auto &e : M) if (e.first >= k) N[e.first - k] = e.second; M = N; size -= k; pos = std::max(0l, pos - k); };
  for (int i = 0, steps = r.range(3, 25); i < steps && !vf_case_failed(); i++) {
    int x = (int)r.below(20); auto near = [&] { long b = r.chance(1, 2) ? size : r.chance(1, 2) ? chunk * (long)r.below((uint64_t)n + 1) : 0; return std::max(0l, std::min(MAXO, b + r.range(-150, 100))); };
    if (x < 6) {
      size_t k = r.below(400); Str d = coded(salt, seq, k); seq += k; long at = app ? size : pos; ptrdiff_t w = evfs_file_write(f, d.data(), k); vf_note("write %zu at %ld -> %ld", k, at, (long)w);
      VF_CHECK(w <= (ptrdiff_t)k, "rotate:huge-write", "write of %zu returned %ld", k, (long)w); if ((long)k <= MAXO - at) VF_CHECK(w == (ptrdiff_t)k, "rotate:huge-write", "write of %zu at %ld of %ld returned %ld", k, at, size, (long)w); else vf_count("huge_beyond");
      if (w < 0) w = 0; for (long j = 0; j < w; j++) M[at + j] = d[(size_t)j]; size = std::max(size, at + (long)w); if (!app) pos = at + w;
      if (size > cap) { drop((size - cap + chunk - 1) / chunk * chunk); vf_count("huge_drops"); }
      else { long z = (long)evfs_file_size(f); if (at + (long)k > cap && z == size - chunk) { drop(chunk); vf_count("huge_drops"); } }  // the start chunk may go as soon as the write needs another one
    } else if (x < 12) { long t = r.chance(1, 2) ? pos : near(); if (t != pos) { int s = evfs_file_seek(f, (evfs_off_t)t, EVFS_SEEK_TO); if (t > size) { VF_CHECK(s < 0, "rotate:huge-seek", "seek to %ld of %ld succeeded", t, size); t = pos; } else VF_CHECK(s == EVFS_OK, "rotate:huge-seek", "seek to %ld of %ld returned %s", t, size, ev_err(s)); pos = t; }
      size_t k = 1 + r.below(300); Guarded b(k); ptrdiff_t g = evfs_file_read(f, b.p, k); long av = std::max(0l, std::min((long)k, size - pos)); vf_note("read %zu at %ld -> %ld", k, pos, (long)g); VF_CHECK(g == av, "rotate:huge-read", "read of %zu at %ld of %ld returned %ld", k, pos, size, (long)g); if (g != av) break;
      for (long j = 0; j < av && !vf_case_failed(); j++) { auto it = M.find(pos + j); VF_CHECK(b.p[j] == (it == M.end() ? 0 : it->second), "rotate:huge-data", "byte %ld of %ld read wrong", pos + j, size); } pos += av; }
    else if (x < 15) { EvfsSeekDir o = r.chance(1, 2) ? EVFS_SEEK_REL : EVFS_SEEK_REV; long t = near(), off = o == EVFS_SEEK_REL ? t - pos : size - t; if (off > MAXO || off < -MAXO) continue; int s = evfs_file_seek(f, (evfs_off_t)off, o); vf_note("seek %ld origin %d -> %d", off, o, s); if (t > size) VF_CHECK(s < 0, "rotate:huge-seek", "seek to %ld of %ld succeeded", t, size); else { VF_CHECK(s == EVFS_OK, "rotate:huge-seek", "seek to %ld of %ld returned %s", t, size, ev_err(s)); pos = t; } }
    else if (x < 17) { long t = near(); int s = evfs_file_truncate(f, (evfs_off_t)t); vf_note("truncate %ld -> %d", t, s); VF_CHECK(s == EVFS_OK, "rotate:huge-truncate", "truncating %ld to %ld returned %s", size, t, ev_err(s)); if (t < size) { size = t; M.erase(M.lower_bound(t), M.end()); pos = std::min(pos, size); vf_count("huge_truncates"); } }
    else if (x < 18) { evfs_off_t t = (evfs_off_t)near(); if (chunk * (t / chunk) > 0x7fffffffl) continue; int s = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &t); long k = std::min(size, (long)t / chunk * chunk); vf_note("trim %ld -> %d", (long)t, s); VF_CHECK(s == k, "rotate:huge-trim", "trimming %ld of %ld bytes returned %d, expected %ld", (long)t, size, s, k); drop(k); vf_count("huge_trims"); }
    else if (x < 19) { rv = evfs_file_close(f); VF_CHECK(rv == EVFS_OK, "rotate:close", "close returned %s", ev_err(rv)); f = nullptr; rv = evfs_open_ex(p.c_str(), &f, app ? EVFS_RDWR | EVFS_APPEND : EVFS_RDWR, "rot"); pos = 0; VF_CHECK(rv == EVFS_OK, "rotate:huge-reopen", "reopening %ld bytes returned %s", size, ev_err(rv)); if (rv != EVFS_OK) break; }
    long z = (long)evfs_file_size(f), t = (long)evfs_file_tell(f); bool e = evfs_file_eof(f); VF_CHECK(z == size && t == pos && e == (pos >= size), "rotate:huge-state", "size %ld position %ld end %d, expected %ld %ld", z, t, e, size, pos); n = (size + chunk - 1) / chunk;
    vf_seen(vf_hash(vf_fmt("%d %ld %ld %d", x, pos, size, max)));
  }
  if (f) evfs_file_close(f); if (vf_want_sample()) vf_sample(vf_trace().substr(0, 400)); done();
}
// ordinary files and directories through the shim
static void plain_case(Rng &r, uint64_t) {
  MemFs A("baseA"), B("baseB"); for (MemFs *m : {&A, &B}) { m->reg(false); m->mkdirs("/dir/sub"); m->put("/a", "hello"); m->put("/dir/b.txt", Str(2000, 'q')); m->put("/dir/geom.dat", "not a log"); m->put("/c", ""); m->no_dots = false; A.root->kids[0].second->kids.size(); }
  for (MemFs *m : {&A, &B}) { m->at("/dir")->kids.pop_back(); } // no geometry file in /dir: it is a plain directory
  RotateConfig c; c.chunk_size = 64; c.max_chunks = 4; evfs_register_rotate("rot", "baseA", &c, false); Side a("rot"), b("baseB");
  auto gp = [](Rng &q) { static const char *n[] = {"a", "dir", "b.txt", "c", "sub", "..", ".", "new", "x"}; Str p = q.chance(2, 3) ? "/" : ""; int k = q.range(1, 3); for (int i = 0; i < k; i++) p += (i ? "/" : "") + Str(n[q.below(9)]); return p; };
  int steps = r.range(10, 60);
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    DOp o = d_random(r, gp); if (!d_applicable(o, a)) continue;
    if (o.kind == D_OPEN) { MemP n = B.root; for (auto &s : B.segs(o.path)) { n = n && n->dir ? n->find(s) : nullptr; } if (!n) continue; } // a missing path creates a log
    vf_note("%s", d_str(o).c_str()); DRes x = d_run(o, a, o.path, o.path2), y = d_run(o, b, o.path, o.path2); vf_count("plain_operations");
    VF_CHECK(x.rv == y.rv && x.out == y.out, Str("rotate:plain-") + DNAMES[o.kind], "%s: through the shim %ld %s, directly %ld %s", d_str(o).c_str(), x.rv, vf_q(x.out).c_str(), y.rv, vf_q(y.out).c_str());
    VF_CHECK(A.dump() == B.dump(), "rotate:plain-effect", "%s: the trees differ", d_str(o).c_str());
    vf_seen(vf_hash(d_str(o) + vf_fmt("%ld", x.rv) + B.dump()));
  }
  a.close_all(); b.close_all(); evfs_unregister_all();
}

// ---- C12 ----
struct Snap { MemP root; Str stream; size_t synced, attempted, start; Str at; bool creating; };
static void crash_case(Rng &r, uint64_t) {
  std::unique_ptr<MemFs> M(new MemFs("mem")); M->buffered = r.chance(1, 2); M->reg(false); Geo g = pick_geo(r); if (r.chance(1, 2)) g.chunk = 32;
  RotateConfig c; c.chunk_size = (uint32_t)g.chunk; c.max_chunks = (uint32_t)g.max; evfs_register_rotate("rot", "mem", &c, false);
  Str stream; size_t synced = 0, attempted = 0, start = 0, peak = 0; bool creating = true; std::vector<Snap> snaps; long nops = 0; Str what; uint32_t salt = 1;
  long every = r.range(1, 4);
  M->before = [&](const MemOp &op) { if (nops++ % every == 0 && snaps.size() < 400) snaps.push_back({M->root->clone(), stream, synced, attempted, start, what + " before " + op.str(), creating}); };
  int rounds = r.range(1, 4);
  for (int k = 0; k < rounds && !vf_case_failed(); k++) {
    EvfsFile *f; what = "open"; int rv = evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND, "rot"); VF_CHECK(rv == EVFS_OK, "rotate:open", "open returned %s", ev_err(rv)); if (rv) break; creating = false;
    int steps = r.range(2, 14);
    for (int i = 0; i < steps && !vf_case_failed(); i++) {
      int x = (int)r.below(14);
      if (x < 8) { size_t n = pick_len(r, g, stream.size()) % (g.cap() + g.chunk); Str d = coded(salt, stream.size(), n); what = vf_fmt("append %zu at %zu", n, stream.size()); vf_note("%s", what.c_str()); stream += d; attempted = stream.size(); if (attempted > peak) { peak = attempted; if (peak > g.keep()) start = std::max(start, peak - g.keep()); } ptrdiff_t w = evfs_file_write(f, d.data(), n); VF_CHECK(w == (ptrdiff_t)n, "rotate:append", "append of %zu returned %ld", n, (long)w); if (!M->buffered) synced = stream.size(); vf_count("appends"); }
      else if (x < 10) { what = "sync"; vf_note("sync"); int s = evfs_file_sync(f); VF_CHECK(s == EVFS_OK, "rotate:sync", "sync returned %s", ev_err(s)); synced = stream.size(); }
      else if (x == 10) { // trimming gives up the start
        evfs_off_t n = (evfs_off_t)r.below(g.cap()); long size = evfs_file_size(f); what = vf_fmt("trim %ld of %ld", (long)n, size); vf_note("%s", what.c_str()); long t = (long)n / (long)g.chunk * (long)g.chunk; if (t > size) t = size; start = std::max(start, stream.size() - (size_t)size + (size_t)t);
        synced = stream.size();
        int s = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &n); VF_CHECK(s == t, "rotate:trim", "trimming %ld of %ld returned %d", (long)n, size, s); vf_count("trims");
      } else if (x == 11) { // truncating gives up the end
        long size = evfs_file_size(f); synced = stream.size(); long n = (long)r.below((uint64_t)size + 1); size_t T = stream.size() - (size_t)(size - n); what = vf_fmt("truncate %ld of %ld", n, size); vf_note("%s", what.c_str()); synced = T; if (n == 0) start = std::max(start, T);
        int s = evfs_file_truncate(f, (evfs_off_t)n); VF_CHECK(s == EVFS_OK, "rotate:truncate", "truncate returned %s", ev_err(s)); stream.resize(T); attempted = T; salt++; vf_count("truncates");
      } else if (x == 12) { what = "read"; long z = evfs_file_size(f); synced = stream.size(); int s = evfs_file_seek(f, (evfs_off_t)r.below((uint64_t)z + 1), EVFS_SEEK_TO); (void)s; Guarded b(50); evfs_file_read(f, b.p, 50); }
    }
    what = "close"; vf_note("close"); int s = evfs_file_close(f); VF_CHECK(s == EVFS_OK, "rotate:close", "close returned %s", ev_err(s)); synced = stream.size();
    if (r.chance(1, 3)) { evfs_unregister(evfs_find_vfs("rot")); evfs_register_rotate("rot", "mem", &c, false); }
  }
  M->before = nullptr; snaps.push_back({M->root->clone(), stream, synced, attempted, start, "end", false});
  evfs_unregister_all(); M.reset();
  if (vf_want_sample()) vf_sample(vf_fmt("%zu crash points: ", snaps.size()) + vf_trace().substr(0, 300));
  for (size_t i = 0; i < snaps.size() && !vf_case_failed(); i++) {
    Snap &s = snaps[i]; MemFs N("mem"); N.root = s.root; N.reg(false); evfs_register_rotate("rot", "mem", &c, false); vf_count("crash_points"); vf_eval();
    MemP dir = N.at("/log"), geom = N.at("/log/geom.dat"); bool half = dir && (!geom || geom->data.size() < 16);
    EvfsFile *f; int rv = evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND, "rot");
    if (rv != EVFS_OK) {
      if (half && s.creating && dir->kids.size() == (geom ? 1u : 0u)) { vf_finding("rotate:crash-during-creation", "stopped while the container was being created (%s): opening it returns %s", s.at.c_str(), ev_err(rv)); evfs_unregister_all(); continue; }
      vf_violation("rotate:crash-open", "stopped at %s: opening returns %s", s.at.c_str(), ev_err(rv));
    } else {
      long size = evfs_file_size(f); evfs_file_seek(f, 0, EVFS_SEEK_TO); Str d = read_from(f, r, size); size_t n = d.size();
      VF_CHECK((long)n == size, "rotate:crash-size", "stopped at %s: size %ld, read %zu", s.at.c_str(), size, n);
      VF_CHECK(n <= g.cap(), "rotate:crash-capacity", "stopped at %s: %zu bytes", s.at.c_str(), n);
      bool ok = false; size_t end = 0;
      for (size_t e = s.attempted + 1; e-- > s.synced && !ok;) { // the end may lie anywhere from the last synced to the last attempted byte
        if (n > e) continue; size_t b = e - n; size_t maxb = s.start; if (b > maxb && n != 0) continue; if (n == 0 && e > maxb) continue;
        if (s.stream.compare(b, n, d) == 0) { ok = true; end = e; }
      }
      if (!ok && n == 0 && s.start >= s.synced) { ok = true; end = s.start; } // everything given up by a trim or truncation
      VF_CHECK(ok, "rotate:crash-content", "stopped at %s: the %zu bytes found are no part of the %zu appended (%zu synced, start up to %zu) ending after the synced ones, %zu chunks of %zu", s.at.c_str(), n, s.attempted, s.synced, s.start, g.max, g.chunk);
      vf_seen(vf_hash(vf_fmt("%zu %zu %zu %zu", g.chunk, g.max, n, s.attempted - end)));
      // later appends continue
      Str more = coded(99, 0, r.below(g.cap() + 10)); Str all = d + more; ptrdiff_t w = evfs_file_write(f, more.data(), more.size()); VF_CHECK(w == (ptrdiff_t)more.size(), "rotate:crash-append", "stopped at %s: a later append of %zu returned %ld", s.at.c_str(), more.size(), (long)w);
      rv = evfs_file_close(f); VF_CHECK(rv == EVFS_OK, "rotate:crash-close", "close returned %s", ev_err(rv));
      EvRead e = ev_read_all("/log", "rot", 500); bool suf = e.rv == EVFS_OK && e.data.size() <= all.size() && e.data.size() >= std::min(all.size(), g.keep()) && e.data.size() <= g.cap() && all.compare(all.size() - e.data.size(), e.data.size(), e.data) == 0;
      VF_CHECK(suf, "rotate:crash-later", "stopped at %s: after a later append of %zu to %zu bytes the file has %zu other bytes (%s)", s.at.c_str(), more.size(), n, e.data.size(), ev_err(e.rv));
      size_t bytes; VF_CHECK(storage_ok("mem", "/log", g, &bytes), "rotate:crash-storage", "stopped at %s: storage exceeds %zu chunks", s.at.c_str(), g.max);
    }
    evfs_unregister_all();
  }
}
static void fault_case(Rng &r, uint64_t) {
  MemFs M("mem"); M.buffered = r.chance(1, 4); M.reg(false); Geo g = pick_geo(r); if (r.chance(1, 2)) g.chunk = 32; RotateConfig c; c.chunk_size = (uint32_t)g.chunk; c.max_chunks = (uint32_t)g.max; evfs_register_rotate("rot", "mem", &c, false);
  Str stream; bool creating = true; EvfsFile *f = nullptr; size_t lost = 0; int steps = r.range(6, 40); size_t keepfrom = 0;
  auto check = [&](const char *when, EvfsFile *h) {
    long size = evfs_file_size(h); VF_CHECK(size >= 0 && (size_t)size <= stream.size() && (size_t)size <= g.cap(), "rotate:fault-size", "%s: size %ld of %zu", when, size, stream.size());
    size_t avail = stream.size() - keepfrom; VF_CHECK((size_t)size >= std::min(avail, g.keep()), "rotate:fault-dropped", "%s: %ld bytes kept of %zu, %zu chunks of %zu", when, size, avail, g.max, g.chunk); if (vf_case_failed()) return;
    evfs_file_seek(h, 0, EVFS_SEEK_TO); Str d = read_from(h, r, size); VF_CHECK((long)d.size() == size && stream.compare(stream.size() - d.size(), d.size(), d) == 0, "rotate:fault-content", "%s: %zu bytes read of size %ld are not the last bytes written", when, d.size(), size); vf_count("verified");
  };
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    bool arm = r.chance(1, 2), sh = false; int code = r.pick(std::vector<int>{EVFS_ERR_IO, EVFS_ERR_FS_FULL, EVFS_ERR_AUTH, EVFS_ERR_CORRUPTION, EVFS_ERR});
    M.fault_effect = false; long at = 0; if (arm) { sh = r.chance(1, 4); M.fault_effect = r.chance(1, 3); at = r.chance(1, 2) ? r.range(1, 5) : r.range(1, 25); M.arm(at, code, sh); } else { M.nops = 0; }
    auto hit = [&]() { bool h = arm && M.fault_hit; M.disarm(); if (h) { vf_count("faults_hit"); vf_count(("fault_" + M.fault_op).c_str()); } return h; };
    Str fo;
    if (!f) {
      Str before = M.dump("/log"); int rv = evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND, "rot"); long ops = M.nops; bool h = hit(); vf_note("open fault %ld(%s) %d -> %d", at, M.fault_op.c_str(), h, rv); VF_CHECK(ops < 200, "rotate:fault-time", "open took %ld operations", ops);
      if (h) VF_CHECK(rv != EVFS_OK, "rotate:fault-open-masked", "a failing %s while opening was not reported", M.fault_op.c_str()); else VF_CHECK(rv == EVFS_OK, "rotate:fault-open", "opening without a fault returned %s", ev_err(rv));
      if (rv != EVFS_OK) { f = nullptr; VF_CHECK(M.open_files == 0 && M.open_dirs == 0, "rotate:fault-handles", "failed open left %ld files and %ld directories open", M.open_files, M.open_dirs); VF_CHECK(creating || M.dump("/log") == before || h, "rotate:fault-open-effect", "failed open changed the container"); continue; }
      creating = false; check("after opening", f); continue;
    }
    switch (r.below(10)) {
    case 0: { int rv = evfs_file_close(f); f = nullptr; bool h = hit(); vf_note("close fault(%s) %d -> %d", M.fault_op.c_str(), h, rv); if (h) VF_CHECK(rv != EVFS_OK, "rotate:fault-close-masked", "a failing %s while closing was not reported", M.fault_op.c_str()); else VF_CHECK(rv == EVFS_OK, "rotate:close", "close returned %s", ev_err(rv)); VF_CHECK(M.open_files == 0, "rotate:fault-handles", "%ld files left open", M.open_files); break; }
    case 1: { int rv = evfs_file_sync(f); bool h = hit(); vf_note("sync %d -> %d", h, rv); VF_CHECK(h == (rv != EVFS_OK), "rotate:fault-sync", "sync with%s a failing %s returned %s", h ? "" : "out", M.fault_op.c_str(), ev_err(rv)); break; }
    case 2: { // read
      M.disarm(); long size = evfs_file_size(f); long pos = (long)r.below((uint64_t)size + 1); evfs_file_seek(f, (evfs_off_t)pos, EVFS_SEEK_TO); if (arm) M.arm(r.range(1, 8), code, sh);
      size_t n = r.below(g.cap() + 1); Guarded b(n); ptrdiff_t q = evfs_file_read(f, b.p, n); bool h = hit(); long av = std::min((long)n, size - pos); vf_note("read %zu at %ld fault %d -> %ld", n, pos, h, (long)q); VF_CHECK(q <= av, "rotate:fault-read-count", "read returned %ld of %ld", (long)q, av);
      if (h && !sh) VF_CHECK(q < av || av == 0, "rotate:fault-read-masked", "a failing %s while reading was not reported", M.fault_op.c_str()); if (!h) VF_CHECK(q == av, "rotate:fault-read", "read returned %ld of %ld", (long)q, av);
      if (q > 0) VF_CHECK(stream.compare(stream.size() - (size_t)size + (size_t)pos, (size_t)q, Str(b.p, (size_t)q)) == 0, "rotate:fault-read-data", "read returned other bytes"); long t = evfs_file_tell(f); VF_CHECK(t == pos + std::max(0l, (long)q), "rotate:fault-read-pos", "position %ld after reading %ld at %ld", t, (long)q, pos); break; }
    case 3: { // trim
      M.disarm(); long size = evfs_file_size(f); evfs_off_t n = (evfs_off_t)r.below(g.cap()); if (arm) M.arm(r.range(1, 6), code, false); int s = evfs_file_ctrl(f, EVFS_CMD_SET_ROTATE_TRIM, &n); bool h = hit(); long t = std::min(size, (long)n / (long)g.chunk * (long)g.chunk); vf_note("trim %ld of %ld fault(%s) %d -> %d", (long)n, size, M.fault_op.c_str(), h, s); vf_count("trims");
      keepfrom = std::max(keepfrom, stream.size() - (size_t)(size - t)); if (h) VF_CHECK(s < t, "rotate:fault-trim-masked", "a failing %s while trimming was not reported", M.fault_op.c_str()); else VF_CHECK(s == t, "rotate:fault-trim", "trim returned %d, expected %ld", s, t);
      long z = evfs_file_size(f); VF_CHECK(z <= size && z >= size - t && (h || z == size - t), "rotate:fault-trim-size", "size %ld after trimming %ld of %ld", z, t, size); break; }
    case 4: { // truncate
      M.disarm(); long size = evfs_file_size(f); long n = (long)r.below((uint64_t)size + 1); if (arm) M.arm(r.range(1, 8), code, false); int s = evfs_file_truncate(f, (evfs_off_t)n); bool h = hit(); vf_note("truncate %ld of %ld fault(%s) %d -> %d", n, size, M.fault_op.c_str(), h, s); vf_count("truncates");
      if (h) VF_CHECK(s != EVFS_OK, "rotate:fault-truncate-masked", "a failing %s while truncating was not reported", M.fault_op.c_str()); else VF_CHECK(s == EVFS_OK, "rotate:fault-truncate", "truncate returned %s", ev_err(s));
      long z = evfs_file_size(f); VF_CHECK(z <= size && z >= n && (h || z == n), "rotate:fault-truncate-size", "size %ld after truncating %ld to %ld", z, size, n); if (z >= 0 && z <= size) stream.resize(stream.size() - (size_t)(size - z)); keepfrom = std::min(keepfrom, stream.size()); if (z == 0) keepfrom = stream.size(); else keepfrom = std::max(keepfrom, stream.size() - (size_t)z); lost = 0; break; }
    default: {
      size_t n = pick_len(r, g, stream.size()) % (g.cap() + g.chunk + 1); Str d = coded((uint32_t)i + 5, stream.size(), n); ptrdiff_t w = evfs_file_write(f, d.data(), n); long ops = M.nops; bool h = hit(); vf_note("append %zu at %zu fault %ld(%s%s) %d -> %ld", n, stream.size(), at, M.fault_op.c_str(), sh ? " short" : M.fault_effect ? " effect" : "", h, (long)w); vf_count("appends");
      VF_CHECK(w <= (ptrdiff_t)n, "rotate:fault-append-count", "append of %zu returned %ld", n, (long)w); VF_CHECK(ops < 60 + 12 * (long)(n / g.chunk), "rotate:fault-time", "append of %zu took %ld operations", n, ops);
      if (h && !(sh && M.fault_op == "write")) VF_CHECK(w < (ptrdiff_t)n, "rotate:fault-append-masked", "a failing %s while appending %zu was not reported", M.fault_op.c_str(), n); if (!h) VF_CHECK(w == (ptrdiff_t)n, "rotate:append", "append of %zu returned %ld", n, (long)w);
      if (w > 0) stream += d.substr(0, (size_t)w); break; }
    }
    M.fault_effect = false; (void)lost; (void)fo;
    if (f && !vf_case_failed() && r.chance(1, 2)) check("afterwards", f);
    vf_seen(vf_hash(vf_fmt("%s %zu %zu %zu %d", M.fault_op.c_str(), g.chunk, g.max, stream.size(), (int)arm)));
  }
  M.disarm(); if (f) evfs_file_close(f); f = nullptr; VF_CHECK(M.open_files == 0 && M.open_dirs == 0, "rotate:fault-handles", "%ld files and %ld directories left open", M.open_files, M.open_dirs);
  if (!vf_case_failed() && !creating) { // all faults gone: remounting shows the same stream
    evfs_unregister(evfs_find_vfs("rot")); evfs_register_rotate("rot", "mem", &c, false); int rv = evfs_open_ex("/log", &f, EVFS_RDWR | EVFS_APPEND, "rot"); VF_CHECK(rv == EVFS_OK, "rotate:fault-reopen", "reopening returned %s", ev_err(rv)); if (rv == EVFS_OK) { check("after a remount", f); evfs_file_close(f); }
    size_t b; VF_CHECK(storage_ok("mem", "/log", g, &b), "rotate:fault-storage", "storage exceeds %zu chunks", g.max);
    // deleting with a fault can be repeated
    M.arm(r.range(1, 12)); rv = evfs_delete_ex("/log", "rot"); bool h = M.fault_hit; M.disarm(); VF_CHECK(h == (rv != EVFS_OK), "rotate:fault-delete", "deleting with%s a failing %s returned %s", h ? "" : "out", M.fault_op.c_str(), ev_err(rv)); vf_count("container_deletes");
    if (rv != EVFS_OK && M.at("/log")) { rv = evfs_delete_ex("/log", "rot"); VF_CHECK(rv == EVFS_OK, "rotate:fault-delete-again", "deleting again after a failing %s returned %s", M.fault_op.c_str(), ev_err(rv)); }
    VF_CHECK(M.open_dirs == 0, "rotate:fault-handles", "a directory was left open");
  }
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 400));
  evfs_unregister_all();
}

void vf_setup() {
  vf_cpu_limit(10);
  vf_drop_privs(); umask(022); evfs_init();
  vf_suite("append", 4000, 60000, append_case);
  vf_suite("array", 6000, 90000, array_case);
  vf_suite("wide", 800, 40000, wide_case);
  vf_suite("many", 6, 300, many_case);
  vf_suite("huge", 400, 20000, huge_case);
  vf_suite("plain", 2000, 20000, plain_case);
  vf_suite("crash", 700, 12000, crash_case);
  vf_suite("fault", 12000, 160000, fault_case);
}
