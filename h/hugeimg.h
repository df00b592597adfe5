// Sparse image files of gigabytes on the host, and the monitor that compares what a mounted one shows with what was stored.
#ifndef HUGEIMG_H
#define HUGEIMG_H
#include "images.h"
#include <fcntl.h>
#include <unistd.h>
extern "C" {
#include "evfs/stdio_fs.h"
}
struct HugeFile { Str path; long size = 0, at = 0; std::map<long, Str> marks; };
inline long huge_max() { return sizeof(evfs_off_t) == 8 ? INT64_MAX : INT32_MAX; }
inline void huge_mark(Rng &r, int fd, HugeFile &f) { // at the ends and around the places where offsets change width
  std::vector<long> at = {0, f.size - 50, 0x7fffffffl - 20, 0xffffffffl - 20, 0x80000000l - f.at - 20, 0x100000000l - f.at - 20}; if (f.size > 100) at.push_back((long)r.below((uint64_t)f.size - 50));
  for (long a : at) { if (a < 0 || a >= f.size) continue; bool clash = false; for (auto &m : f.marks) if (a < m.first + (long)m.second.size() && m.first < a + 50) clash = true; if (clash) continue; Str d = r.bytes((size_t)std::min(50l, f.size - a)); if (pwrite(fd, d.data(), d.size(), f.at + a) == (ssize_t)d.size()) f.marks[a] = d; }
}
inline char huge_byte(const HugeFile &f, long p) { auto it = f.marks.upper_bound(p); if (it == f.marks.begin()) return 0; --it; return p < it->first + (long)it->second.size() ? it->second[(size_t)(p - it->first)] : 0; }
inline void huge_exercise(Rng &r, const std::vector<HugeFile> &fs, const char *vfs, const Str &key) {
  for (int k = 0, n = r.range(2, 5); k < n && !vf_case_failed(); k++) {
    const HugeFile &x = fs[r.below(fs.size())]; EvfsInfo i; memset(&i, 0x55, sizeof i); int rv = evfs_stat_ex(x.path.c_str(), &i, vfs); VF_CHECK(rv == EVFS_OK && (long)i.size == x.size, key + ":huge-stat", "stat of %s (%ld bytes at %ld) returned %s, size %ld", x.path.c_str(), x.size, x.at, ev_err(rv), (long)i.size);
    EvfsFile *f = nullptr; rv = evfs_open_ex(x.path.c_str(), &f, EVFS_READ, vfs); VF_CHECK(rv == EVFS_OK, key + ":huge-open", "opening %s (%ld bytes at %ld) returned %s", x.path.c_str(), x.size, x.at, ev_err(rv)); if (rv != EVFS_OK) return; VF_CHECK((long)evfs_file_size(f) == x.size, key + ":huge-size", "size %ld of %ld", (long)evfs_file_size(f), x.size);
    long pos = 0; vf_count("huge_files"); if (x.size > 0x7fffffff) vf_count("huge_beyond_31_bits"); if (x.at > 0x7fffffff) vf_count("huge_late");
    for (int s = 0, steps = r.range(4, 14); s < steps && !vf_case_failed(); s++) {
      long t = x.marks.empty() || r.chance(1, 6) ? x.size : std::next(x.marks.begin(), (long)r.below(x.marks.size()))->first; t = std::max(0l, std::min(x.size, t + r.range(-60, 60))); EvfsSeekDir o = r.pick(std::vector<EvfsSeekDir>{EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}); long off = o == EVFS_SEEK_TO ? t : o == EVFS_SEEK_REL ? t - pos : x.size - t;
      rv = evfs_file_seek(f, (evfs_off_t)off, o); VF_CHECK(rv == EVFS_OK && (long)evfs_file_tell(f) == t, key + ":huge-seek", "seek to %ld of %ld (origin %d): %s, position %ld", t, x.size, o, ev_err(rv), (long)evfs_file_tell(f)); if (vf_case_failed()) break; pos = t;
      size_t len = 1 + r.below(200); Guarded b(len); ptrdiff_t g = evfs_file_read(f, b.p, len); long av = std::min((long)len, x.size - pos); vf_note("%s: read %zu at %ld of %ld -> %ld", x.path.c_str(), len, pos, x.size, (long)g); VF_CHECK(g == av && b.intact(), key + ":huge-read", "read of %zu at %ld of %ld returned %ld", len, pos, x.size, (long)g);
      for (long j = 0; j < av && !vf_case_failed(); j++) VF_CHECK(b.p[j] == huge_byte(x, pos + j), key + ":huge-data", "byte %ld of %ld read wrong", pos + j, x.size); pos += av; VF_CHECK((long)evfs_file_tell(f) == pos && evfs_file_eof(f) == (pos >= x.size), key + ":huge-pos", "position %ld after reading to %ld of %ld", (long)evfs_file_tell(f), pos, x.size);
      vf_seen((uint64_t)(x.at + pos) * 7 + (uint64_t)x.size);
    }
    rv = evfs_file_close(f); VF_CHECK(rv == EVFS_OK, key + ":huge-close", "close returned %s", ev_err(rv));
  }
}
inline long huge_pick(Rng &r, long room) { static const long S[] = {0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x40000000, 0x60000000, 0x1c0000000}; long s = S[r.below(7)] + r.range(-600, 600); if (r.chance(1, 3)) s = (long)r.below(3000); return s > room ? (long)r.below((uint64_t)std::min(room, 5000l) + 1) : s; }
#endif
