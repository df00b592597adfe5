// C07, C08: the stdio VFS against a byte-array model and against the host file system.
#include <limits>
#include "diff.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <filesystem>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "evfs/stdio_fs.h"
}
namespace fs = std::filesystem;

static Str host_read(const Str &p, bool *ok = nullptr) {
  Str o; int fd = ::open(p.c_str(), O_RDONLY); if (ok) *ok = fd >= 0; if (fd < 0) return o;
  char b[8192]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) o.append(b, (size_t)n); ::close(fd); return o;
}
static void host_write(const Str &p, const Str &d) { int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return; size_t k = 0; while (k < d.size()) { ssize_t n = ::write(fd, d.data() + k, d.size() - k); if (n <= 0) break; k += (size_t)n; } ::close(fd); }
static Str pat(Rng &r, size_t n) { Str s(n, 0); uint64_t x = r.next(); for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char)(x >> 56); } return s; }

// ---- C07: one handle, a byte array and a cursor ----
struct FModel { Str d; long pos = 0; bool rd = false, wr = false, app = false, posknown = true; };
static void bytes_case(Rng &r, uint64_t) {
  evfs_register_stdio(true);
  Str dir = vf_scratch + "/by"; fs::create_directories(dir); Str p = dir + "/f";
  std::map<Str, Str> world; // what the host should hold
  int rounds = r.range(1, 5); Str cur; bool exists = r.chance(1, 2), big = r.chance(1, 40); const long FAR = big ? 2000000 : 200000; if (big) vf_count("large_files");
  auto blen = [&]() -> size_t { return r.chance(1, 3) ? 65536 + r.below(5) - 2 : r.chance(1, 3) ? 32768 + r.below(5) - 2 : r.below(400000); };
  if (exists) { cur = pat(r, big ? blen() : r.chance(1, 4) ? r.below(20000) : r.below(300)); host_write(p, cur); }
  static const int F[] = {EVFS_READ, EVFS_WRITE, EVFS_RDWR, EVFS_OVERWRITE, EVFS_WRITE | EVFS_OVERWRITE, EVFS_RDWR | EVFS_OVERWRITE, EVFS_APPEND, EVFS_WRITE | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND,
                          EVFS_NO_EXIST, EVFS_WRITE | EVFS_NO_EXIST, EVFS_RDWR | EVFS_NO_EXIST, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_READ | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_OVERWRITE | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_APPEND | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_APPEND | EVFS_NO_EXIST};
  for (int k = 0; k < rounds && !vf_case_failed(); k++) {
    if (r.chance(1, 8) && exists) { fs::remove(p); exists = false; cur.clear(); }
    int fl = F[r.below(17)]; if (r.chance(1, 2)) fl = EVFS_RDWR | (exists ? 0 : EVFS_OPEN_OR_NEW);
    FModel m; m.app = fl & EVFS_APPEND;
    bool w = !m.app && ((fl & (EVFS_OVERWRITE | EVFS_NO_EXIST)) || ((fl & EVFS_WRITE) && !(fl & EVFS_READ)));
    bool plus = (fl & EVFS_RDWR) == EVFS_RDWR; m.rd = plus || (!m.app && !w); m.wr = plus || m.app || w;
    int want = EVFS_OK;
    if ((fl & EVFS_NO_EXIST) && exists) want = EVFS_ERR_EXISTS;
    else if (!exists && !m.app && !w && !(fl & EVFS_OPEN_OR_NEW)) want = EVFS_ERR_NO_FILE;
    EvfsFile *f = (EvfsFile *)(intptr_t)1; int rv = evfs_open_ex(p.c_str(), &f, fl, "stdio");
    vf_note("open 0x%x (%s)", fl, exists ? vf_fmt("%zu bytes", cur.size()).c_str() : "missing"); vf_count("opens");
    VF_CHECK(rv == want, "stdio:open", "opening a %s file with flags 0x%x gave %s, expected %s", exists ? "present" : "missing", fl, ev_err(rv), ev_err(want));
    if (rv != EVFS_OK) { bool ok; Str h = host_read(p, &ok); VF_CHECK(ok == exists && h == cur, "stdio:failed-open-effect", "a refused open changed the host file"); if (f == nullptr) continue; break; }
    if (vf_case_failed()) { evfs_file_close(f); break; }
    if (!exists || w) cur.clear();
    exists = true; m.d = cur; m.pos = m.app && !plus ? (long)cur.size() : 0; m.posknown = !m.app;
    int steps = r.range(1, 40); bool far = false; char last = 0;
    for (int i = 0; i < steps && !vf_case_failed(); i++) {
      long size = (long)m.d.size(); int x = (int)r.below(22);
      if (x < 5) { // read
        if (!m.posknown) continue;
        size_t n = big && r.chance(1, 2) ? blen() : r.chance(1, 5) ? r.below(9000) : r.below(200); Guarded b(n); ptrdiff_t g = evfs_file_read(f, b.p, n);
        vf_note("read %zu at %ld -> %ld", n, m.pos, (long)g); vf_count("reads");
        if (!m.rd) { if (n) { VF_CHECK(g < 0, "stdio:read-writeonly", "reading a file opened for writing only returned %ld", (long)g); } continue; }
        long av = m.pos < size ? std::min((long)n, size - m.pos) : 0;
        VF_CHECK(g == av, "stdio:read-count", "read of %zu at %ld of %ld returned %ld, expected %ld", n, m.pos, size, (long)g, av);
        if (g == av) VF_CHECK(!memcmp(b.p, m.d.data() + m.pos, (size_t)av) && b.intact(), "stdio:read-data", "read of %zu at %ld returned other bytes", n, m.pos);
        m.pos += av; last = 'r';
      } else if (x < 10) { // write
        if (far) continue;
        Str d = pat(r, big && r.chance(1, 2) ? blen() : r.chance(1, 5) ? r.below(9000) : r.below(200)); ptrdiff_t g = evfs_file_write(f, d.data(), d.size());
        vf_note("write %zu at %ld -> %ld", d.size(), m.pos, (long)g); vf_count("writes");
        if (!m.wr) { if (!d.empty()) VF_CHECK(g < 0, "stdio:write-readonly", "writing a file opened for reading returned %ld", (long)g); continue; }
        VF_CHECK(g == (long)d.size(), "stdio:write-count", "write of %zu returned %ld", d.size(), (long)g);
        if (d.empty()) continue;
        if (m.app) m.pos = size;
        if (m.pos > size) m.d.resize((size_t)m.pos, 0);
        m.d.replace((size_t)m.pos, std::min(d.size(), m.d.size() - (size_t)m.pos), d); m.pos += (long)d.size(); m.posknown = true; last = 'w';
      } else if (x < 15) { // seek
        EvfsSeekDir o = (EvfsSeekDir)(1 + r.below(3)); if (!m.posknown && o == EVFS_SEEK_REL) continue;
        long off = r.chance(1, 3) ? (long)r.below(4) : (long)r.below((uint64_t)size + 100); if (o == EVFS_SEEK_REL && r.chance(1, 2)) off = -off;
        if (o != EVFS_SEEK_REV && r.chance(1, 12)) off = -(long)r.below(1000) - 1;
        if (r.chance(1, 40) && o == EVFS_SEEK_TO) off = 2147483647;
        if (r.chance(1, 40)) { // the most negative offset: only backwards from the end it is a position
          evfs_off_t lo = std::numeric_limits<evfs_off_t>::min(); int s = evfs_file_seek(f, lo, o); vf_note("seek by the most negative offset from origin %d -> %d", o, s); vf_count("extreme_seeks");
          if (o != EVFS_SEEK_REV || sizeof lo == 8) VF_CHECK(s < 0, "stdio:seek-negative", "seeking before the start (%ld from origin %d) returned %d", (long)lo, o, s);
          s = evfs_file_seek(f, 0, EVFS_SEEK_TO); VF_CHECK(s == EVFS_OK, "stdio:seek", "seeking to the start returned %s", ev_err(s)); m.pos = 0; m.posknown = true; far = false; continue; }
        long t = o == EVFS_SEEK_TO ? off : o == EVFS_SEEK_REL ? m.pos + off : size - off;
        if (t > FAR && off != 2147483647) continue;
        if (t > 2147483647l) continue;
        int s = evfs_file_seek(f, (evfs_off_t)off, o); vf_note("seek %ld %d -> %d", off, o, s); vf_count("seeks");
        if (t < 0) { VF_CHECK(s < 0, "stdio:seek-negative", "seeking before the start (%ld from origin %d) returned %d", off, o, s); }
        else { VF_CHECK(s == EVFS_OK, "stdio:seek", "seek %ld origin %d returned %s", off, o, ev_err(s)); m.pos = t; m.posknown = true; far = t > FAR; }
      } else if (x < 17) { if (!m.posknown) continue; long t = evfs_file_tell(f); VF_CHECK(t == m.pos, "stdio:tell", "position %ld, expected %ld", t, m.pos); vf_count("tells"); }
      else if (x < 18) { long t = evfs_file_size(f); VF_CHECK(t == size, "stdio:size", "size %ld, expected %ld", t, size); vf_count("sizes"); }
      else if (x < 19) { int s = evfs_file_sync(f); VF_CHECK(s == EVFS_OK, "stdio:sync", "sync returned %s", ev_err(s)); Str h = host_read(p); VF_CHECK(h == m.d, "stdio:sync-content", "after a sync the host file has %zu bytes, expected %zu with other content", h.size(), m.d.size()); vf_count("syncs"); }
      else if (x < 20) { if (!m.posknown) continue; bool e = evfs_file_eof(f); VF_CHECK(e == (m.pos >= size), "stdio:eof", "end of file reported %d at %ld of %ld", e, m.pos, size); vf_count("eofs"); }
      else { // truncate
        long n = r.chance(1, 2) ? (long)r.below((uint64_t)size + 1) : (long)r.below((uint64_t)size + 500); if (r.chance(1, 20)) n = -1 - (long)r.below(5);
        int s = evfs_file_truncate(f, (evfs_off_t)n); vf_note("truncate %ld -> %d", n, s); vf_count("truncates");
        if (n < 0 || !m.wr) VF_CHECK(s < 0, "stdio:truncate-bad", "truncate to %ld (%s) returned %d", n, m.wr ? "writable" : "read only", s);
        else { VF_CHECK(s == EVFS_OK, "stdio:truncate", "truncate to %ld returned %s", n, ev_err(s)); m.d.resize((size_t)n, 0); last = 't'; if (m.posknown) { long t = evfs_file_tell(f); VF_CHECK(t == m.pos, "stdio:truncate-pos", "truncating to %ld moved the position from %ld to %ld", n, m.pos, t); } Str h; (void)h; }
      }
      vf_seen((uint64_t)x * 1000003 + (uint64_t)m.pos * 31 + m.d.size() * 7 + (uint64_t)last);
    }
    int c = evfs_file_close(f); VF_CHECK(c == EVFS_OK, "stdio:close", "close returned %s", ev_err(c));
    cur = m.d; Str h = host_read(p); VF_CHECK(h == cur, "stdio:close-content", "after closing the host file has %zu bytes, expected %zu, or other content", h.size(), cur.size());
  }
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 400));
  evfs_unregister_all();
  std::error_code ec; fs::remove_all(dir, ec);
}

// ---- C07: host failures are errors ----
static void hosterr_case(Rng &r, uint64_t) {
  evfs_register_stdio(true); Str dir = vf_scratch + "/he"; fs::create_directories(dir); int kind = (int)r.below(4);
  EvfsFile *f = nullptr;
  if (kind == 0) { // a full device: nothing written ever arrives
    int rv = evfs_open_ex("/dev/full", &f, r.pick(std::vector<int>{EVFS_WRITE, EVFS_RDWR, EVFS_WRITE | EVFS_APPEND}), "stdio");
    if (rv == EVFS_OK) {
      bool err = false; int n = r.range(1, 6); Str d = pat(r, r.chance(1, 2) ? 10 + r.below(50) : 3000 + r.below(9000));
      for (int i = 0; i < n; i++) { ptrdiff_t g = evfs_file_write(f, d.data(), d.size()); if (g != (ptrdiff_t)d.size()) err = true; VF_CHECK(g <= (ptrdiff_t)d.size(), "stdio:full-count", "write returned %ld", (long)g); if (err) break; if (r.chance(1, 4) && evfs_file_sync(f) != EVFS_OK) { err = true; break; } }
      int c = evfs_file_close(f); if (c < 0) err = true;
      VF_CHECK(err, "stdio:full-unreported", "writing %d x %zu bytes to a full device and closing it reported no error", n, d.size()); vf_count("full_device");
    }
  } else if (kind == 1) { // a file size limit
    Str p = dir + "/lim"; rlim_t lim = 1000 + r.below(12000); struct rlimit old, nw; getrlimit(RLIMIT_FSIZE, &old); nw = old; nw.rlim_cur = lim;
    if (evfs_open_ex(p.c_str(), &f, EVFS_WRITE | EVFS_OVERWRITE, "stdio") == EVFS_OK) {
      signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &nw);
      Str want; bool err = false; long acked = 0;
      for (int i = 0; i < 40 && !err; i++) { Str d = pat(r, 1 + r.below(1500)); ptrdiff_t g = evfs_file_write(f, d.data(), d.size()); want += d; if (g >= 0) acked += g; if (g != (ptrdiff_t)d.size()) err = true; else if (r.chance(1, 5) && evfs_file_sync(f) != EVFS_OK) err = true; }
      int c = evfs_file_close(f); if (c < 0) err = true;
      setrlimit(RLIMIT_FSIZE, &old);
      Str h = host_read(p); VF_CHECK(err || h == want, "stdio:limit-unreported", "%zu bytes were written without an error, the host file holds %zu", want.size(), h.size());
      VF_CHECK(want.compare(0, h.size(), h) == 0, "stdio:limit-content", "the host file is no prefix of the data written"); vf_count("size_limit");
    }
  } else if (kind == 2) { // reading a directory or a write-only handle
    if (evfs_open_ex(dir.c_str(), &f, EVFS_READ, "stdio") == EVFS_OK) { char b[64]; ptrdiff_t g = evfs_file_read(f, b, sizeof b); VF_CHECK(g < 0, "stdio:read-directory", "reading a directory as a file returned %ld", (long)g); evfs_file_close(f); }
    vf_count("read_directory");
  } else { // files the user may not open
    Str p = dir + "/np"; host_write(p, "secret"); chmod(p.c_str(), 0);
    int rv = evfs_open_ex(p.c_str(), &f, r.pick(std::vector<int>{EVFS_READ, EVFS_WRITE, EVFS_RDWR, EVFS_WRITE | EVFS_APPEND}), "stdio");
    if (geteuid() != 0) VF_CHECK(rv == EVFS_ERR_AUTH && !f, "stdio:permission", "opening a file without permission returned %s", ev_err(rv));
    else if (rv == EVFS_OK) evfs_file_close(f);
    vf_count("no_permission");
  }
  vf_seen(vf_hash(vf_trace()) + (uint64_t)kind);
  evfs_unregister_all(); std::error_code ec; fs::remove_all(dir, ec);
}

// ---- C07: sizes and positions around and beyond what evfs_off_t holds (sparse host files) ----
static void big_case(Rng &r, uint64_t) {
  evfs_register_stdio(true); Str dir = vf_scratch + "/bg"; fs::create_directories(dir); Str p = dir + "/f", q = dir + "/copy"; const long MAXO = sizeof(evfs_off_t) == 8 ? INT64_MAX : INT32_MAX;
  static const long AT[] = {0x7fffffffL, 0x80000000L, 0xffffffffL, 0x100000000L, 0x140000000L, 0x180000000L, 0x1ffffffffL}; long size = AT[r.below(7)] + (r.chance(1, 2) ? 0 : (long)r.range(-40, 40)); if (r.chance(1, 6)) size = 0x70000000 + (long)r.below(1000);
  int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, size)) { if (fd >= 0) ::close(fd); fs::remove_all(dir); evfs_unregister_all(); return; } Str mark = pat(r, 64); if (pwrite(fd, mark.data(), 64, size - 64) != 64) abort(); ::close(fd);
  bool fits = size <= MAXO; vf_count(fits ? "big_fits" : "big_beyond"); vf_note("%ld bytes", size);
  EvfsInfo i; memset(&i, 0x55, sizeof i); int rv = evfs_stat_ex(p.c_str(), &i, "stdio"); if (fits) VF_CHECK(rv == EVFS_OK && (long)i.size == size, "stdio:big-stat", "stat of %ld bytes: %s, size %ld", size, ev_err(rv), (long)i.size); else VF_CHECK(rv < 0, "stdio:big-stat", "stat of %ld bytes reported size %ld", size, (long)i.size);
  EvfsFile *f = nullptr; rv = evfs_open_ex(p.c_str(), &f, EVFS_RDWR, "stdio"); VF_CHECK(rv == EVFS_OK, "stdio:big-open", "opening gave %s", ev_err(rv)); if (rv != EVFS_OK) { fs::remove_all(dir); evfs_unregister_all(); return; }
  long pos = 0; auto state = [&](const char *when) { long s = (long)evfs_file_size(f), t = (long)evfs_file_tell(f); bool e = evfs_file_eof(f); if (fits) VF_CHECK(s == size, "stdio:big-size", "%s: size %ld of %ld", when, s, size); else VF_CHECK(s < 0, "stdio:big-size", "%s: size %ld of %ld", when, s, size); if (pos <= MAXO) VF_CHECK(t == pos, "stdio:big-tell", "%s: position %ld, expected %ld", when, t, pos); else { VF_CHECK(t < 0, "stdio:big-tell", "%s: position %ld, expected an error for %ld", when, t, pos); vf_count("big_positions"); } if (fits) VF_CHECK(e == (pos >= size), "stdio:big-eof", "%s: end of file %d at %ld of %ld", when, e, pos, size); else if (pos < size) VF_CHECK(!e, "stdio:big-eof", "%s: end of file at %ld of %ld", when, pos, size); };
  state("opened");
  for (int k = 0, n = r.range(2, 10); k < n && !vf_case_failed(); k++) {
    int x = (int)r.below(4); if (x < 2) { long t = std::min(MAXO, size) - (long)r.below(100); if (r.chance(1, 4)) t = (long)r.below(1000); int s = evfs_file_seek(f, (evfs_off_t)t, EVFS_SEEK_TO); VF_CHECK(s == EVFS_OK, "stdio:big-seek", "seek to %ld: %s", t, ev_err(s)); pos = t; }
    else if (x == 2) { size_t n2 = 1 + r.below(150); Guarded b(n2); ptrdiff_t g = evfs_file_read(f, b.p, n2); long av = pos < size ? std::min((long)n2, size - pos) : 0; VF_CHECK(g == av, "stdio:big-read", "read of %zu at %ld of %ld returned %ld", n2, pos, size, (long)g); for (long j = 0; j < av && g == av; j++) { char c = pos + j >= size - 64 ? mark[(size_t)(pos + j - (size - 64))] : 0; if (b.p[j] != c) { VF_CHECK(false, "stdio:big-data", "other data at %ld of %ld", pos + j, size); break; } } pos += av; }
    else { long d = r.range(-50, 50); if (pos + d < 0 || pos + d > MAXO || pos > MAXO) continue; int s = evfs_file_seek(f, (evfs_off_t)d, EVFS_SEEK_REL); VF_CHECK(s == EVFS_OK, "stdio:big-seek", "seek by %ld at %ld: %s", d, pos, ev_err(s)); pos += d; }
    state("later"); vf_seen((uint64_t)pos * 31 + (uint64_t)size);
  }
  if (!fits && !vf_case_failed()) { rv = evfs_copy_to_file_ex(q.c_str(), f, nullptr, 65536, "stdio"); struct stat st; VF_CHECK(rv < 0 || (!stat(q.c_str(), &st) && st.st_size == size), "stdio:big-copy", "copying %ld bytes reported success for another size", size); vf_count("big_copies"); }
  evfs_file_close(f); if (vf_want_sample()) vf_sample(vf_trace()); evfs_unregister_all(); std::error_code ec; fs::remove_all(dir, ec);
}

// ---- C08: twin trees, one changed through the VFS and one through the host calls ----
static Str tree(const Str &d) {
  Str o; std::vector<Str> n; DIR *dp = opendir(d.c_str()); if (!dp) return "?"; while (dirent *e = readdir(dp)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(dp); std::sort(n.begin(), n.end());
  for (auto &x : n) { struct stat s; Str p = d + "/" + x; if (lstat(p.c_str(), &s)) { o += x + "?"; continue; } if (S_ISDIR(s.st_mode)) o += x + "/{" + tree(p) + "}"; else o += x + "=" + host_read(p) + ";"; }
  return o;
}
static int mapped(int e) {
  switch (e) { case EIO: return EVFS_ERR_IO; case ENOENT: return EVFS_ERR_NO_FILE; case EEXIST: return EVFS_ERR_EXISTS; case ENOTDIR: return EVFS_ERR_NO_PATH; case EISDIR: return EVFS_ERR_IS_DIR; case ENOTEMPTY: return EVFS_ERR_NOT_EMPTY;
    case ERANGE: return EVFS_ERR_OVERFLOW; case EINVAL: return EVFS_ERR_BAD_ARG; case ENOSPC: return EVFS_ERR_FS_FULL; case ENOMEM: return EVFS_ERR_ALLOC; case ENAMETOOLONG: return EVFS_ERR_TOO_LONG; case EACCES: return EVFS_ERR_AUTH; default: return EVFS_ERR; }
}
static const char *NSN[] = {"a", "b", "dir", "sub", "f.txt", "x y", "deep", "..", ".", "missing", "..data", "...", ".hid"};
static Str nsrel(Rng &r) { Str p; int n = r.range(1, 3), up = 0; for (int i = 0; i < n; i++) { const char *s = NSN[r.below(13)]; if (!strcmp(s, "..")) { if (--up < 0) { s = "a"; up = 1; } } else if (strcmp(s, ".")) up++; if (i) p += "/"; p += s; } if (r.chance(1, 12)) p += "/"; if (r.chance(1, 40)) p += "/" + Str(300, 'n'); return p; }

static void ns_case(Rng &r, uint64_t) {
  evfs_register_stdio(true);
  Str top = vf_scratch + "/ns", A = top + "/A", B = top + "/B"; unsigned one = 1, zero = 0;
  for (auto &d : {A, B}) { fs::create_directories(d + "/dir/sub"); host_write(d + "/f.txt", "hello"); host_write(d + "/dir/a", "aaa"); fs::create_directories(d + "/deep"); fs::create_directories(d + "/noaccess"); host_write(d + "/noaccess/q", "q"); chmod((d + "/noaccess").c_str(), 0); }
  char save[4096]; if (!getcwd(save, sizeof save)) strcpy(save, "/");
  Str cwd; bool rel = r.chance(1, 2); // cwd below the roots, "" is the root itself
  if (rel && chdir(A.c_str())) rel = false;
  int steps = r.range(5, 40);
  auto pick = [&](Rng &q) { return q.chance(1, 25) ? Str("noaccess/q") : nsrel(q); };
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    Str p = pick(r), q = pick(r); bool userel = rel && r.chance(1, 2);
    // with a relative path both trees resolve it below the working directory; '..' may not leave the root
    Str pa = (userel ? "" : A + "/") + p, qa = (userel ? "" : A + "/") + q, pb = B + "/" + (userel && !cwd.empty() ? cwd + "/" : "") + p, qb = B + "/" + (userel && !cwd.empty() ? cwd + "/" : "") + q;
    if (userel && r.chance(1, 20)) { pa = ""; pb = ""; }
    int op = (int)r.below(11); int rv = 0, er = 0; Str name; struct stat sb; EvfsInfo inf; memset(&inf, 0x5A, sizeof inf);
    switch (op) {
    case 0: case 1: { name = "stat"; rv = evfs_stat_ex(pa.c_str(), &inf, "stdio"); errno = 0; er = ::stat(pb.c_str(), &sb) ? errno : 0; struct stat sa;
      if (rv == EVFS_OK && !er) { ::stat(pa.c_str(), &sa); VF_CHECK(((inf.type & EVFS_FILE_DIR) != 0) == (S_ISDIR(sb.st_mode) != 0) && inf.size == (evfs_off_t)sa.st_size && inf.mtime == sa.st_mtime && (S_ISDIR(sb.st_mode) || inf.size == (evfs_off_t)sb.st_size), "stdio:stat-info", "stat of %s: type %d size %ld", vf_q(p).c_str(), inf.type, (long)inf.size); }
      bool ef = evfs_existing_file_ex(pa.c_str(), "stdio"), ed = evfs_existing_dir_ex(pa.c_str(), "stdio");
      VF_CHECK(ef == (!er && !S_ISDIR(sb.st_mode)) && ed == (!er && S_ISDIR(sb.st_mode)), "stdio:existing", "existence of %s reported as file %d dir %d", vf_q(p).c_str(), ef, ed); break; }
    case 2: name = "make_dir"; rv = evfs_make_dir_ex(pa.c_str(), "stdio"); errno = 0; er = ::mkdir(pb.c_str(), 0700) ? errno : 0; break;
    case 3: name = "delete"; rv = evfs_delete_ex(pa.c_str(), "stdio"); errno = 0; er = ::remove(pb.c_str()) ? errno : 0; break;
    case 4: name = "rename"; rv = evfs_rename_ex(pa.c_str(), qa.c_str(), "stdio"); errno = 0; er = ::rename(pb.c_str(), qb.c_str()) ? errno : 0; break;
    case 5: { name = "create"; Str d = pat(r, r.below(20)); for (auto &c : d) c = (char)('a' + (c & 15)); int fl = r.pick(std::vector<int>{EVFS_WRITE | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST}); EvfsFile *f = nullptr; rv = evfs_open_ex(pa.c_str(), &f, fl, "stdio"); if (rv == EVFS_OK) { evfs_file_write(f, d.data(), d.size()); evfs_file_close(f); }
      errno = 0; FILE *h = fopen(pb.c_str(), (fl & EVFS_NO_EXIST) ? "wbx" : "wb"); er = h ? 0 : errno; if (h) { fwrite(d.data(), 1, d.size(), h); fclose(h); } break; }
    case 6: case 7: { name = "list"; unsigned *nd = r.chance(1, 2) ? &one : &zero; evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, nd, "stdio"); unsigned fields = 0; evfs_vfs_ctrl_ex(EVFS_CMD_GET_DIR_FIELDS, &fields, "stdio");
      EvfsDir *d = nullptr; rv = evfs_open_dir_ex(pa.c_str(), &d, "stdio"); errno = 0; DIR *h = opendir(pb.c_str()); er = h ? 0 : errno;
      if (rv == EVFS_OK && h) {
        std::vector<std::pair<Str, long>> hl; while (dirent *e = readdir(h)) { Str n = e->d_name; if (*nd && (n == "." || n == "..")) continue; struct stat s; Str fp = pb + "/" + n; if (fstatat(dirfd(h), e->d_name, &s, 0)) continue; hl.push_back({n, S_ISDIR(s.st_mode) ? -1 : (long)s.st_size}); } std::sort(hl.begin(), hl.end());
        for (int pass = 0; pass < 2 && !vf_case_failed(); pass++) {
          if (pass) { // partial scan first, then rewind
            VF_CHECK(evfs_dir_rewind(d) == EVFS_OK, "stdio:rewind", "rewind failed"); size_t k = r.below(4); while (k--) if (evfs_dir_read(d, &inf) != EVFS_OK) break; evfs_dir_rewind(d); }
          std::vector<std::pair<Str, long>> vl; int s; while ((s = evfs_dir_read(d, &inf)) == EVFS_OK && vl.size() < 10000) { VF_CHECK(inf.name, "stdio:list-noname", "entry without name"); if (!inf.name) break; long v = (inf.type & EVFS_FILE_DIR) ? -1 : (fields & EVFS_INFO_SIZE) ? (long)inf.size : -2; if (v == -2) for (auto &e : hl) if (e.first == inf.name && e.second >= 0) v = e.second; vl.push_back({inf.name, v}); if (!(fields & EVFS_INFO_SIZE)) VF_CHECK(inf.size == 0, "stdio:list-field", "a field that is not offered is %ld", (long)inf.size); }
          VF_CHECK(s == EVFS_DONE, "stdio:list-end", "the listing ended with %s", ev_err(s)); std::sort(vl.begin(), vl.end());
          Str va, vb; for (auto &e : vl) va += vf_fmt("%s:%ld ", e.first.c_str(), e.second); for (auto &e : hl) vb += vf_fmt("%s:%ld ", e.first.c_str(), e.second);
          VF_CHECK(va == vb, "stdio:list", "listing of %s%s: %s expected %s", vf_q(p).c_str(), pass ? " after a rewind" : "", va.c_str(), vb.c_str()); vf_count("listings");
        }
        evfs_dir_close(d);
      } else if (rv == EVFS_OK) evfs_dir_close(d);
      if (h) closedir(h);
      break; }
    case 8: { if (!rel) continue; name = "set_cur_dir"; Str t = userel ? p : pa; errno = 0; struct stat s; bool isdir = ::stat(pb.c_str(), &s) == 0 && S_ISDIR(s.st_mode) && access(pb.c_str(), X_OK) == 0; int e2 = errno;
      rv = evfs_set_cur_dir_ex(pa.c_str(), "stdio"); er = isdir ? 0 : (e2 ? e2 : ENOTDIR);
      if (rv == EVFS_OK) { char now[4096]; if (getcwd(now, sizeof now)) { Str n = now; if (n == A) cwd = ""; else if (n.compare(0, A.size() + 1, A + "/") == 0) cwd = n.substr(A.size() + 1); else { VF_CHECK(false, "stdio:setcwd", "the working directory became %s", now); } }
        Str wantd = fs::weakly_canonical(pb).string(); while (wantd.size() > 1 && wantd.back() == '/') wantd.pop_back(); VF_CHECK(wantd == (cwd.empty() ? B : B + "/" + cwd), "stdio:setcwd-target", "set_cur_dir(%s) went to %s", vf_q(p).c_str(), vf_q(cwd).c_str()); }
      break; }
    case 9: { name = "get_cur_dir"; char now[4096]; errno = 0; char *g = getcwd(now, sizeof now); size_t n = r.chance(1, 2) ? 4096 : 1 + r.below(strlen(g ? now : "x") + 3); Guarded b(n); StringRange gr; range_init(&gr, b.p, n); rv = evfs_get_cur_dir_ex(&gr, "stdio");
      if (g) { er = strlen(now) + 1 <= n ? 0 : ERANGE; if (rv == EVFS_OK && !er) VF_CHECK(!strcmp(b.p, now), "stdio:getcwd", "working directory %s, host %s", vf_q(b.p).c_str(), now); } else er = ENOENT; VF_CHECK(b.intact(), "stdio:getcwd-overrun", "wrote outside the range"); break; }
    case 10: { name = "append"; EvfsFile *f = nullptr; rv = evfs_open_ex(pa.c_str(), &f, EVFS_RDWR, "stdio"); if (rv == EVFS_OK) { evfs_file_seek(f, 0, EVFS_SEEK_REV); evfs_file_write(f, "+", 1); evfs_file_close(f); } errno = 0; FILE *h = fopen(pb.c_str(), "r+b"); er = h ? 0 : errno; if (h) { fseek(h, 0, SEEK_END); fwrite("+", 1, 1, h); fclose(h); } break; }
    }
    vf_note("%s %s%s -> %d (errno %d)", name.c_str(), vf_q(p).c_str(), op == 4 ? (" " + vf_q(q)).c_str() : "", rv, er); vf_count(name.c_str()); vf_count(er ? "refused" : "done");
    if (er) VF_CHECK(rv == EVFS_ERR || rv == mapped(er), "stdio:error-" + name, "%s %s returned %s, the host fails with %s", name.c_str(), vf_q(pa).c_str(), ev_err(rv), strerror(er));
    else VF_CHECK(rv == EVFS_OK, "stdio:ok-" + name, "%s %s returned %s, the host succeeds", name.c_str(), vf_q(pa).c_str(), ev_err(rv));
    if (op >= 2 && op != 6 && op != 7) { chmod((A + "/noaccess").c_str(), 0); chmod((B + "/noaccess").c_str(), 0); Str ta = tree(A), tb = tree(B); VF_CHECK(ta == tb, "stdio:effect-" + name, "after %s %s the trees differ: %s host %s", name.c_str(), vf_q(p).c_str(), vf_q(ta, 800).c_str(), vf_q(tb, 800).c_str()); vf_seen(vf_hash(ta)); }
    if (rel) { char now[4096]; if (!getcwd(now, sizeof now)) break; // our own working directory was removed
      Str n = now; if (n != A && n.compare(0, A.size() + 1, A + "/") != 0) break; cwd = n == A ? "" : n.substr(A.size() + 1); struct stat s; if (::stat((B + "/" + cwd).c_str(), &s)) break; }
  }
  if (chdir(save)) abort();
  evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &zero, "stdio");
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 400));
  evfs_unregister_all(); chmod((A + "/noaccess").c_str(), 0700); chmod((B + "/noaccess").c_str(), 0700);
  std::error_code ec; fs::remove_all(top, ec);
}

void vf_setup() {
  vf_drop_privs(); umask(022); evfs_init();
  vf_suite("bytes", 20000, 800000, bytes_case);
  vf_suite("big", 300, 20000, big_case); vf_suite("hosterr", 1500, 40000, hosterr_case);
  vf_suite("ns", 6000, 200000, ns_case);
}
