// A minimal base VFS without any synchronization or shared bookkeeping of its own, so that it hides no race of the layers
// above it: a tree that is never changed, plus file contents that only the owner of a handle touches.
#ifndef TINY_H
#define TINY_H
#include "stack.h"
#include <sched.h>
#include <unistd.h>
static thread_local Rng *t_rng = nullptr; static int s_yield = 4; // one operation in s_yield gives the processor away
inline void t_pause() { if (!t_rng) return; uint64_t x = t_rng->below((uint64_t)s_yield * 4); if (x < 3) sched_yield(); else if (x == 3) usleep((useconds_t)t_rng->below(60)); }
struct TNode { bool dir = false; Str data; std::vector<std::pair<Str, TNode *>> kids; TNode *find(const char *n, size_t l) const { for (auto &k : kids) if (k.first.size() == l && !memcmp(k.first.data(), n, l)) return k.second; return nullptr; } ~TNode() { for (auto &k : kids) delete k.second; } };
struct TinyFs;
struct TFile { EvfsFile b; TNode *n; size_t pos; int fl; }; struct TDir { EvfsDir b; TNode *n; size_t pos; };
struct TinyFs {
  Evfs vfs; Str name; TNode root; bool writable = false;
  TNode *at(const char *p, bool make = false, bool dir = false) { TNode *c = &root; while (*p) { while (*p == '/') p++; const char *e = p; while (*e && *e != '/') e++; size_t l = (size_t)(e - p); if (l == 0) break; if (l == 1 && *p == '.') { p = e; continue; } TNode *x = c->find(p, l); if (!x) { if (!make) return nullptr; x = new TNode; x->dir = true; c->kids.push_back({Str(p, l), x}); } c = x; p = e; if (!c->dir && *p) { while (*p == '/') p++; return *p ? nullptr : c; } } if (make) c->dir = dir; return c; }
  void put(const Str &p, const Str &d) { at(p.c_str(), true)->data = d; } void mkdir(const Str &p) { at(p.c_str(), true, true); }
  void tree(const Str &pre) { for (auto n : SDIRS) mkdir(pre + "/" + n); for (auto &x : STREE) put(pre + "/" + x.path, s_content(x)); }
  static int c_ctrl(EvfsFile *, int, void *) { return EVFS_ERR_NO_SUPPORT; } static int c_close(EvfsFile *) { t_pause(); return EVFS_OK; }
  static ptrdiff_t c_read(EvfsFile *h, void *b, size_t n) { TFile *f = (TFile *)h; t_pause(); size_t left = f->pos < f->n->data.size() ? f->n->data.size() - f->pos : 0; if (n > left) n = left; memcpy(b, f->n->data.data() + f->pos, n); t_pause(); f->pos += n; return (ptrdiff_t)n; }
  static ptrdiff_t c_write(EvfsFile *h, const void *b, size_t n) { TFile *f = (TFile *)h; t_pause(); if (!(f->fl & EVFS_WRITE)) return EVFS_ERR_DISABLED; if (f->pos + n > f->n->data.size()) return EVFS_ERR_FS_FULL; memcpy(&f->n->data[f->pos], b, n); t_pause(); f->pos += n; return (ptrdiff_t)n; }
  static int c_trunc(EvfsFile *, evfs_off_t) { return EVFS_ERR_NO_SUPPORT; } static int c_sync(EvfsFile *) { t_pause(); return EVFS_OK; } static evfs_off_t c_size(EvfsFile *h) { return (evfs_off_t)((TFile *)h)->n->data.size(); }
  static int c_seek(EvfsFile *h, evfs_off_t o, EvfsSeekDir w) { TFile *f = (TFile *)h; t_pause(); long s = (long)f->n->data.size(), p = w == EVFS_SEEK_TO ? (long)o : w == EVFS_SEEK_REL ? (long)f->pos + (long)o : s - (long)o; f->pos = (size_t)(p < 0 ? 0 : p > s ? s : p); t_pause(); return EVFS_OK; }
  static evfs_off_t c_tell(EvfsFile *h) { return (evfs_off_t)((TFile *)h)->pos; } static bool c_eof(EvfsFile *h) { TFile *f = (TFile *)h; return f->pos >= f->n->data.size(); }
  static int c_dclose(EvfsDir *) { return EVFS_OK; } static int c_drewind(EvfsDir *h) { ((TDir *)h)->pos = 0; return EVFS_OK; }
  static int c_dread(EvfsDir *h, EvfsInfo *i) { TDir *d = (TDir *)h; t_pause(); if (d->pos >= d->n->kids.size()) return EVFS_DONE; auto &k = d->n->kids[d->pos++]; memset(i, 0, sizeof *i); i->name = (char *)k.first.c_str(); i->type = k.second->dir ? EVFS_FILE_DIR : 0; i->size = (evfs_off_t)k.second->data.size(); return EVFS_OK; }
  static TinyFs *me(Evfs *v) { return (TinyFs *)v->fs_data; }
  static int c_open(Evfs *v, const char *p, EvfsFile *h, int fl) { static const EvfsFileMethods M = {c_ctrl, c_close, c_read, c_write, c_trunc, c_sync, c_size, c_seek, c_tell, c_eof}; t_pause(); TFile *f = (TFile *)h; f->b.methods = &M; TNode *n = me(v)->at(p); if (!n) return EVFS_ERR_NO_FILE; if (n->dir) return EVFS_ERR_IS_DIR; if ((fl & EVFS_WRITE) && !me(v)->writable) return EVFS_ERR_DISABLED; f->n = n; f->pos = 0; f->fl = fl; return EVFS_OK; }
  static int c_stat(Evfs *v, const char *p, EvfsInfo *i) { t_pause(); TNode *n = me(v)->at(p); if (!n) return EVFS_ERR_NO_FILE; memset(i, 0, sizeof *i); i->type = n->dir ? EVFS_FILE_DIR : 0; i->size = (evfs_off_t)n->data.size(); return EVFS_OK; }
  static int c_opendir(Evfs *v, const char *p, EvfsDir *h) { static const EvfsDirMethods M = {c_dclose, c_dread, c_drewind}; t_pause(); TDir *d = (TDir *)h; d->b.methods = &M; TNode *n = me(v)->at(p); if (!n || !n->dir) return EVFS_ERR_NO_PATH; d->n = n; d->pos = 0; return EVFS_OK; }
  static int c_rename(Evfs *, const char *o, const char *n) { t_pause(); uint64_t h = vf_hash(Str(o) + "\n" + n); t_pause(); return -(int)(1000 + h % 1000000); } // nothing changes: the code tells which paths arrived
  static int c_getcwd(Evfs *, StringRange *r) { if (range_size(r) < 2) return EVFS_ERR_OVERFLOW; strcpy((char *)r->start, "/"); return EVFS_OK; } static int c_vctrl(Evfs *, int cmd, void *) { return cmd == EVFS_CMD_UNREGISTER ? EVFS_OK : EVFS_ERR_NO_SUPPORT; }
  static bool c_root(Evfs *, const char *p, StringRange *r) { size_t n = 0; while (p[n] == '/') n++; range_init(r, (char *)p, n ? 1 : 0); return n > 0; }
  explicit TinyFs(const Str &n) : name(n) { root.dir = true; memset(&vfs, 0, sizeof vfs); vfs.vfs_name = name.c_str(); vfs.vfs_file_size = sizeof(TFile); vfs.vfs_dir_size = sizeof(TDir); vfs.fs_data = this; vfs.m_open = c_open; vfs.m_stat = c_stat; vfs.m_rename = c_rename; vfs.m_open_dir = c_opendir; vfs.m_get_cur_dir = c_getcwd; vfs.m_vfs_ctrl = c_vctrl; vfs.m_path_root_component = c_root; }
};
#endif
