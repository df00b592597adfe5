// Differential driver: the same operation on two VFSs (the layer under test and its reference), results compared.
#ifndef DIFF_H
#define DIFF_H
#include "memfs.h"

struct Side {
  Str vfs;
  std::vector<EvfsFile *> f; std::vector<EvfsDir *> d;
  explicit Side(const Str &v = "") : vfs(v), f(6, nullptr), d(3, nullptr) {}
  void close_all() { for (auto &x : f) if (x) { evfs_file_close(x); x = nullptr; } for (auto &x : d) if (x) { evfs_dir_close(x); x = nullptr; } }
};
struct DOp {
  int kind = 0; Str path, path2, data; long a = 0, b = 0; int slot = 0; Str name;
};
struct DRes { long rv = 0; Str out; };

enum { D_OPEN, D_READ, D_WRITE, D_SEEK, D_TELL, D_SIZE, D_TRUNC, D_SYNC, D_EOF, D_FCTRL, D_CLOSE, D_STAT, D_EXF, D_EXD, D_DELETE, D_RENAME, D_MKDIR,
       D_OPENDIR, D_DREAD, D_DREWIND, D_DCLOSE, D_DFIND, D_GETCWD, D_SETCWD, D_CTRL, D_MKPATH, D_NKINDS };
static const char *DNAMES[] = {"open", "read", "write", "seek", "tell", "size", "truncate", "sync", "eof", "file_ctrl", "close", "stat", "existing_file", "existing_dir", "delete", "rename", "make_dir",
                               "open_dir", "dir_read", "dir_rewind", "dir_close", "dir_find", "get_cur_dir", "set_cur_dir", "vfs_ctrl", "make_path"};

inline Str d_info(const EvfsInfo &i, bool name) { return vf_fmt("%s type %d size %ld mtime %ld", name ? (i.name ? vf_q(i.name).c_str() : "(null)") : "", i.type, (long)i.size, (long)i.mtime); }

inline bool d_applicable(const DOp &o, const Side &s) {
  switch (o.kind) {
  case D_OPEN: return !s.f[(size_t)o.slot];
  case D_READ: case D_WRITE: case D_SEEK: case D_TELL: case D_SIZE: case D_TRUNC: case D_SYNC: case D_EOF: case D_FCTRL: case D_CLOSE: return s.f[(size_t)o.slot] != nullptr;
  case D_OPENDIR: return !s.d[(size_t)o.slot];
  case D_DREAD: case D_DREWIND: case D_DCLOSE: case D_DFIND: return s.d[(size_t)o.slot] != nullptr;
  default: return true;
  }
}
// p, p2: the paths to use on this side
inline DRes d_run(const DOp &o, Side &s, const Str &p, const Str &p2) {
  DRes r; const char *v = s.vfs.c_str();
  EvfsFile *f = o.kind <= D_CLOSE ? s.f[(size_t)o.slot] : nullptr; EvfsDir *d = (o.kind >= D_OPENDIR && o.kind <= D_DFIND) ? s.d[(size_t)o.slot] : nullptr;
  EvfsInfo inf; memset(&inf, 0x5A, sizeof inf);
  switch (o.kind) {
  case D_OPEN: { EvfsFile *h = (EvfsFile *)(intptr_t)0x1; r.rv = evfs_open_ex(p.c_str(), &h, (int)o.a, v); if (r.rv == EVFS_OK) s.f[(size_t)o.slot] = h; else r.out = h ? "handle not NULL" : ""; break; }
  case D_READ: { Guarded b((size_t)o.a); r.rv = evfs_file_read(f, b.p, (size_t)o.a); if (r.rv > 0) r.out = Str(b.p, std::min((size_t)r.rv, (size_t)o.a)); if (!b.intact()) r.out += " wrote in front of the buffer"; break; }
  case D_WRITE: r.rv = evfs_file_write(f, o.data.data(), o.data.size()); break;
  case D_SEEK: r.rv = evfs_file_seek(f, (evfs_off_t)o.a, (EvfsSeekDir)o.b); break;
  case D_TELL: r.rv = evfs_file_tell(f); break;
  case D_SIZE: r.rv = evfs_file_size(f); break;
  case D_TRUNC: r.rv = evfs_file_truncate(f, (evfs_off_t)o.a); break;
  case D_SYNC: r.rv = evfs_file_sync(f); break;
  case D_EOF: r.rv = evfs_file_eof(f); break;
  case D_FCTRL: { alignas(16) unsigned x[8] = {7}; r.rv = evfs_file_ctrl(f, (int)o.a, x); r.out = vf_fmt("%u", x[0]); break; }
  case D_CLOSE: r.rv = evfs_file_close(f); s.f[(size_t)o.slot] = nullptr; break;
  case D_STAT: r.rv = evfs_stat_ex(p.c_str(), &inf, v); if (r.rv == EVFS_OK) r.out = d_info(inf, false); break;
  case D_EXF: r.rv = evfs_existing_file_ex(p.c_str(), v); break;
  case D_EXD: r.rv = evfs_existing_dir_ex(p.c_str(), v); break;
  case D_DELETE: r.rv = evfs_delete_ex(p.c_str(), v); break;
  case D_RENAME: r.rv = evfs_rename_ex(p.c_str(), p2.c_str(), v); break;
  case D_MKDIR: r.rv = evfs_make_dir_ex(p.c_str(), v); break;
  case D_OPENDIR: { EvfsDir *h = (EvfsDir *)(intptr_t)0x1; r.rv = evfs_open_dir_ex(p.c_str(), &h, v); if (r.rv == EVFS_OK) s.d[(size_t)o.slot] = h; else r.out = h ? "handle not NULL" : ""; break; }
  case D_DREAD: r.rv = evfs_dir_read(d, &inf); if (r.rv == EVFS_OK) r.out = d_info(inf, true); break;
  case D_DREWIND: r.rv = evfs_dir_rewind(d); break;
  case D_DCLOSE: r.rv = evfs_dir_close(d); s.d[(size_t)o.slot] = nullptr; break;
  case D_DFIND: r.rv = evfs_dir_find(d, o.data.c_str(), &inf); if (r.rv == EVFS_OK) r.out = d_info(inf, true); break;
  case D_GETCWD: { size_t n = (size_t)o.a; Guarded b(n); StringRange g; range_init(&g, b.p, n); r.rv = evfs_get_cur_dir_ex(&g, v); if (r.rv == EVFS_OK) { size_t l = strnlen(b.p, n); r.out = Str(b.p, l) + (l == n ? " (unterminated)" : ""); } break; }
  case D_SETCWD: r.rv = evfs_set_cur_dir_ex(p.c_str(), v); break;
  case D_CTRL: { unsigned x = (unsigned)o.b; r.rv = evfs_vfs_ctrl_ex((int)o.a, &x, v); r.out = vf_fmt("%u", x); break; }
  case D_MKPATH: r.rv = evfs_make_path_ex(p.c_str(), v); break;
  }
  return r;
}
inline Str d_str(const DOp &o) {
  switch (o.kind) {
  case D_OPEN: return vf_fmt("open %d %s 0x%lx", o.slot, vf_q(o.path).c_str(), o.a);
  case D_WRITE: return vf_fmt("write %d %zu bytes", o.slot, o.data.size());
  case D_READ: case D_TRUNC: case D_FCTRL: return vf_fmt("%s %d %ld", DNAMES[o.kind], o.slot, o.a);
  case D_SEEK: return vf_fmt("seek %d %ld %ld", o.slot, o.a, o.b);
  case D_RENAME: return vf_fmt("rename %s %s", vf_q(o.path).c_str(), vf_q(o.path2).c_str());
  case D_CTRL: return vf_fmt("vfs_ctrl %ld", o.a);
  case D_DFIND: return vf_fmt("dir_find %d %s", o.slot, vf_q(o.data).c_str());
  default: return (o.kind < D_STAT || (o.kind >= D_DREAD && o.kind <= D_DFIND)) ? vf_fmt("%s %d", DNAMES[o.kind], o.slot) : vf_fmt("%s %s", DNAMES[o.kind], vf_q(o.path).c_str());
  }
}
// random operation; gp supplies client paths
inline DOp d_random(Rng &r, const std::function<Str(Rng &)> &gp) {
  static const int W[D_NKINDS] = {16, 16, 18, 9, 4, 5, 5, 3, 5, 2, 6, 6, 2, 2, 3, 4, 4, 5, 10, 3, 2, 4, 2, 3, 1, 2};
  int tot = 0; for (int w : W) tot += w;
  int x = (int)r.below((uint64_t)tot); DOp o; while (x >= W[o.kind]) x -= W[o.kind++];
  o.slot = (int)r.below(3);
  switch (o.kind) {
  case D_OPEN: { static const int F[] = {EVFS_READ, EVFS_WRITE, EVFS_RDWR, EVFS_WRITE | EVFS_OVERWRITE, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_NO_EXIST, EVFS_WRITE | EVFS_APPEND, EVFS_RDWR | EVFS_OVERWRITE, EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_NO_EXIST};
    o.a = r.chance(1, 12) ? (long)r.below(64) : F[r.below(10)]; break; }
  case D_READ: o.a = r.chance(1, 4) ? (long)r.below(3000) : (long)r.below(40); break;
  case D_WRITE: o.data = r.bytes(r.chance(1, 5) ? r.below(3000) : r.below(60)); break;
  case D_SEEK: o.a = r.chance(1, 3) ? (long)r.below(4) : (long)r.below(200); o.b = (long)(1 + r.below(3)); if (o.b == EVFS_SEEK_REL && r.chance(1, 2)) o.a = -o.a; break;
  case D_TRUNC: o.a = (long)r.below(r.chance(1, 2) ? 10 : 300); break;
  case D_FCTRL: o.a = r.pick(std::vector<long>{1000, EVFS_CMD_SET_ROTATE_TRIM, EVFS_CMD_GET_RSRC_ADDR, 0, -1}); break;
  case D_CTRL: o.a = r.pick(std::vector<long>{EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS, EVFS_CMD_SET_NO_DIR_DOTS, 1001, 0}); o.b = 1; break;
  case D_DFIND: o.data = r.pick(std::vector<Str>{"*", "a*", "*.txt", "?", "[a-c]*", "zz*"}); break;
  case D_GETCWD: o.a = r.chance(1, 3) ? (long)r.below(20) + 1 : EVFS_MAX_PATH; break;
  default: break;
  }
  o.path = gp(r); o.path2 = gp(r);
  return o;
}
#endif
