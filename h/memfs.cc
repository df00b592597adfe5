#include "memfs.h"

const char *ev_err(int e) { return evfs_err_name(e); }

MemP MemNode::clone() const {
  MemP n = std::make_shared<MemNode>(); n->dir = dir; n->data = data; n->mtime = mtime;
  for (auto &k : kids) n->kids.push_back({k.first, k.second->clone()});
  return n;
}
MemP MemNode::find(const Str &nm) const {
  if (kids.size() > 500) {
    if (!indexed || indexed > kids.size() || kids[indexed - 1].first != last) { index.clear(); indexed = 0; }
    for (; indexed < kids.size(); indexed++) index[kids[indexed].first] = indexed; last = kids.back().first;
    auto it = index.find(nm); return it == index.end() ? nullptr : kids[it->second].second;
  }
  for (auto &k : kids) if (k.first == nm) return k.second; return nullptr;
}
Str MemOp::str() const { return vf_fmt("%s(%s%s%s, %ld, %ld)=%ld", op.c_str(), vf_q(path).c_str(), path2.empty() ? "" : " -> ", path2.empty() ? "" : vf_q(path2).c_str(), a, b, rval); }

std::vector<Str> vf_split(const Str &p) {
  std::vector<Str> r; Str cur;
  for (char c : p) { if (c == '/' || c == '\\') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
Str vf_join(const std::vector<Str> &v) { Str r; for (auto &s : v) r += "/" + s; return r.empty() ? "/" : r; }
Str ref_normalize(const Str &p) {
  bool abs = !p.empty() && (p[0] == '/' || p[0] == '\\');
  std::vector<Str> o;
  for (auto &s : vf_split(p)) {
    if (s == ".") continue;
    if (s == "..") { if (!o.empty() && o.back() != "..") o.pop_back(); else if (!abs) o.push_back(s); }
    else o.push_back(s);
  }
  Str r; for (size_t i = 0; i < o.size(); i++) r += (i ? "/" : "") + o[i];
  return abs ? "/" + r : r;
}

namespace {
struct MFile { EvfsFile base; MemFs *fs; MemP *node; long pos; int flags; bool hiteof; Str *path; Str *mine; };
// data as seen by this handle; buffered writes stay in the handle until it is synced or closed
Str &view(MFile *f) { return f->mine ? *f->mine : (*f->node)->data; }
void flush(MFile *f) { if (f->mine) { (*f->node)->data = *f->mine; delete f->mine; f->mine = nullptr; } }
struct MDir { EvfsDir base; MemFs *fs; std::vector<std::pair<Str, MemP>> *ents; size_t pos; Str *name; };

MemFs *M(Evfs *v) { return (MemFs *)v->fs_data; }

struct Op { // scope of one operation: recording and faults
  MemFs *m; MemOp op; bool fail = false;
  Op(MemFs *m_, const char *name, const Str &p = "", long a = 0, long b = 0, const Str &p2 = "") : m(m_) {
    op.op = name; op.path = p; op.path2 = p2; op.a = a; op.b = b;
    vf_defined(p.data(), p.size(), "the path given to the VFS below"); vf_defined(p2.data(), p2.size(), "the path given to the VFS below"); vf_defined(&a, sizeof a, "an argument given to the VFS below"); vf_defined(&b, sizeof b, "an argument given to the VFS below");
    if (m->before) m->before(op);
    bool counts = m->fault_only.empty() || m->fault_only == op.op;
    if (counts) m->nops++;
    if (counts && m->fault_at && m->nops >= m->fault_at && m->nops < m->fault_at + m->fault_len) { fail = true; m->fault_hit = true; m->fault_op = op.op; }
  }
  long done(long rv) { op.rval = rv; if (m->record) m->log.push_back(op); return rv; }
};

MemP walk(MemFs *m, const std::vector<Str> &s, size_t n, int *err) {
  MemP c = m->root; *err = EVFS_OK;
  for (size_t i = 0; i < n; i++) {
    if (!c->dir) { *err = EVFS_ERR_NO_PATH; return nullptr; }
    c = c->find(s[i]);
    if (!c) { *err = i + 1 < s.size() ? EVFS_ERR_NO_FILE : EVFS_ERR_NO_FILE; return nullptr; }
  }
  return c;
}
int f_ctrl(EvfsFile *fh, int cmd, void *) { MFile *f = (MFile *)fh; Op o(f->fs, "fctrl", *f->path, cmd); if (o.fail) return o.done(f->fs->fault_code); return o.done(EVFS_ERR_NO_SUPPORT); }
int f_close(EvfsFile *fh) {
  MFile *f = (MFile *)fh; MemFs *m = f->fs; Op o(m, "close", *f->path);
  m->open_files--; flush(f); delete f->node; delete f->path; f->node = nullptr; f->path = nullptr;
  if (o.fail) return o.done(m->fault_code);
  return o.done(EVFS_OK);
}
ptrdiff_t f_read(EvfsFile *fh, void *buf, size_t n) {
  MFile *f = (MFile *)fh; Op o(f->fs, "read", *f->path, (long)n, f->pos);
  if (o.fail && !f->fs->fault_short) return o.done(f->fs->fault_code);
  if (!(f->flags & EVFS_READ)) return o.done(EVFS_ERR_DISABLED);
  Str &d = view(f); size_t av = f->pos < (long)d.size() ? d.size() - (size_t)f->pos : 0;
  size_t k = n < av ? n : av; if (k < n) f->hiteof = true;
  if (o.fail) k = k / 2;
  MemFs *m = f->fs; if (m->bad_lo >= 0 && f->pos < m->bad_hi && f->pos + (long)k > m->bad_lo) { m->fault_hit = true; m->fault_op = "read"; if (!m->fault_short || f->pos >= m->bad_lo) return o.done(m->fault_code); k = (size_t)(m->bad_lo - f->pos); }
  memcpy(buf, d.data() + f->pos, k); f->pos += (long)k;
  if (o.fail && f->fs->scribble) memset((char *)buf + k, 0x6b, n - k);
  return o.done((long)k);
}
ptrdiff_t f_write(EvfsFile *fh, const void *buf, size_t n) {
  MFile *f = (MFile *)fh; Op o(f->fs, "write", *f->path, (long)n, f->pos); vf_defined(buf, n, "data written to the VFS below");
  if (f->fs->buffered && !f->mine && !o.fail) f->mine = new Str((*f->node)->data);
  Str &d = view(f);
  if (f->flags & EVFS_APPEND) f->pos = (long)d.size();
  size_t k = n;
  if (o.fail) { if (f->fs->fault_short || f->fs->fault_effect) k = n / 2; else return o.done(f->fs->fault_code); }
  if (!(f->flags & (EVFS_WRITE | EVFS_APPEND | EVFS_OVERWRITE | EVFS_NO_EXIST))) return o.done(EVFS_ERR_DISABLED);
  bool full = false;
  if (f->pos > (64l << 20)) return o.done(EVFS_ERR_FS_FULL);
  if (f->fs->capacity >= 0) {
    long grow = f->pos + (long)k - (long)d.size(); if (grow < 0) grow = 0;
    long left = f->fs->capacity - f->fs->used();
    if (grow > left) { long cut = grow - left; if ((long)k <= cut) { return o.done(EVFS_ERR_FS_FULL); } k -= (size_t)cut; full = true; }
  }
  if ((size_t)f->pos > d.size()) d.resize((size_t)f->pos, 0);
  d.replace((size_t)f->pos, std::min(k, d.size() - (size_t)f->pos), (const char *)buf, k);
  f->pos += (long)k; (void)full;
  if (o.fail && !f->fs->fault_short) return o.done(f->fs->fault_code);
  return o.done((long)k);
}
int f_trunc(EvfsFile *fh, evfs_off_t n) {
  MFile *f = (MFile *)fh; Op o(f->fs, "truncate", *f->path, n);
  if (o.fail) return o.done(f->fs->fault_code);
  if (!(f->flags & (EVFS_WRITE | EVFS_APPEND | EVFS_OVERWRITE | EVFS_NO_EXIST))) return o.done(EVFS_ERR_DISABLED);
  if (n < 0) return o.done(EVFS_ERR_BAD_ARG);
  flush(f);
  (*f->node)->data.resize((size_t)n, 0);
  return o.done(EVFS_OK);
}
int f_sync(EvfsFile *fh) { MFile *f = (MFile *)fh; Op o(f->fs, "sync", *f->path); if (!o.fail) flush(f); return o.done(o.fail ? f->fs->fault_code : EVFS_OK); }
evfs_off_t f_size(EvfsFile *fh) { MFile *f = (MFile *)fh; Op o(f->fs, "size", *f->path); return o.done(o.fail ? f->fs->fault_code : (long)view(f).size()); }
int f_seek(EvfsFile *fh, evfs_off_t off, EvfsSeekDir org) {
  MFile *f = (MFile *)fh; Op o(f->fs, "seek", *f->path, off, org);
  if (o.fail) return o.done(f->fs->fault_code);
  long p = off;
  if (org == EVFS_SEEK_REL) p = f->pos + off; else if (org == EVFS_SEEK_REV) p = (long)view(f).size() - off;
  if (p < 0 || p != (long)(evfs_off_t)p) return o.done(EVFS_ERR_BAD_ARG);
  f->pos = p; f->hiteof = false;
  return o.done(EVFS_OK);
}
evfs_off_t f_tell(EvfsFile *fh) { MFile *f = (MFile *)fh; Op o(f->fs, "tell", *f->path); return o.done(o.fail ? f->fs->fault_code : f->pos); }
bool f_eof(EvfsFile *fh) { MFile *f = (MFile *)fh; Op o(f->fs, "eof", *f->path); return o.done(f->pos >= (long)view(f).size()); }
EvfsFileMethods s_fm = {f_ctrl, f_close, f_read, f_write, f_trunc, f_sync, f_size, f_seek, f_tell, f_eof};

int d_close(EvfsDir *dh) { MDir *d = (MDir *)dh; MemFs *m = d->fs; Op o(m, "dclose"); m->open_dirs--; delete d->ents; delete d->name; d->ents = nullptr; d->name = nullptr; return o.done(o.fail ? m->fault_code : EVFS_OK); }
int d_read(EvfsDir *dh, EvfsInfo *info) {
  MDir *d = (MDir *)dh; Op o(d->fs, "dread");
  memset(info, 0, sizeof *info);
  if (o.fail) return o.done(d->fs->fault_code);
  if (d->pos >= d->ents->size()) return o.done(EVFS_DONE);
  auto &e = (*d->ents)[d->pos++];
  *d->name = e.first; info->name = (char *)d->name->c_str();
  if (e.second->dir) info->type = EVFS_FILE_DIR;
  if (d->fs->list_sizes && !e.second->dir) info->size = (evfs_off_t)e.second->data.size();
  info->mtime = e.second->mtime;
  return o.done(EVFS_OK);
}
int d_rewind(EvfsDir *dh) { MDir *d = (MDir *)dh; Op o(d->fs, "drewind"); if (o.fail) return o.done(d->fs->fault_code); d->pos = 0; return o.done(EVFS_OK); }
EvfsDirMethods s_dm = {d_close, d_read, d_rewind};

int v_open(Evfs *v, const char *path, EvfsFile *fh, int flags) {
  MemFs *m = M(v); MFile *f = (MFile *)fh; Op o(m, "open", path, flags);
  memset(f, 0xEE, sizeof *f);
  if (o.fail) return o.done(m->fault_code);
  if (strlen(path) >= m->max_path) return o.done(EVFS_ERR_TOO_LONG);
  auto s = m->segs(path); int err;
  if (s.empty()) return o.done(EVFS_ERR_IS_DIR);
  MemP par = walk(m, s, s.size() - 1, &err); if (!par) return o.done(err);
  if (!par->dir) return o.done(EVFS_ERR_NO_PATH);
  MemP n = par->find(s.back());
  if (n && n->dir) return o.done(EVFS_ERR_IS_DIR);
  if (n && (flags & EVFS_NO_EXIST)) return o.done(EVFS_ERR_EXISTS);
  bool create = flags & (EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND);
  if ((flags & EVFS_WRITE) && !(flags & EVFS_READ)) create = true;
  bool wipe = (flags & EVFS_OVERWRITE) && !(flags & EVFS_APPEND);
  if (!n) {
    if (!create) return o.done(EVFS_ERR_NO_FILE);
    n = std::make_shared<MemNode>(); par->kids.push_back({s.back(), n});
  } else if (wipe) n->data.clear();
  memset(f, 0, sizeof *f);
  f->base.methods = &s_fm; f->fs = m; f->node = new MemP(n); f->flags = flags; f->path = new Str(path);
  if (flags & EVFS_APPEND) f->pos = (long)n->data.size();
  m->open_files++;
  return o.done(EVFS_OK);
}
int v_stat(Evfs *v, const char *path, EvfsInfo *info) {
  MemFs *m = M(v); Op o(m, "stat", path); memset(info, 0, sizeof *info);
  if (o.fail) return o.done(m->fault_code);
  if (strlen(path) >= m->max_path) return o.done(EVFS_ERR_TOO_LONG);
  auto s = m->segs(path); int err; MemP n = walk(m, s, s.size(), &err); if (!n) return o.done(err);
  if (n->dir) info->type = EVFS_FILE_DIR; else info->size = (evfs_off_t)n->data.size();
  info->mtime = n->mtime;
  return o.done(EVFS_OK);
}
int v_delete(Evfs *v, const char *path) {
  MemFs *m = M(v); Op o(m, "delete", path); if (o.fail) return o.done(m->fault_code);
  auto s = m->segs(path); int err; if (s.empty()) return o.done(EVFS_ERR_AUTH);
  MemP n = walk(m, s, s.size(), &err); if (!n) return o.done(err);
  if (n->dir && !n->kids.empty()) return o.done(EVFS_ERR_NOT_EMPTY);
  MemP par = walk(m, s, s.size() - 1, &err);
  for (size_t i = 0; i < par->kids.size(); i++) if (par->kids[i].second == n) { par->kids.erase(par->kids.begin() + (long)i); break; }
  return o.done(EVFS_OK);
}
int v_rename(Evfs *v, const char *a, const char *b) {
  MemFs *m = M(v); Op o(m, "rename", a, 0, 0, b); if (o.fail) return o.done(m->fault_code);
  auto s = m->segs(a), t = m->segs(b); int err; if (s.empty() || t.empty()) return o.done(EVFS_ERR_AUTH);
  MemP n = walk(m, s, s.size(), &err); if (!n) return o.done(err);
  MemP par2 = walk(m, t, t.size() - 1, &err); if (!par2) return o.done(err);
  if (!par2->dir) return o.done(EVFS_ERR_NO_PATH);
  if (par2->find(t.back())) return o.done(EVFS_ERR_EXISTS);
  if (t.size() > s.size() && std::equal(s.begin(), s.end(), t.begin())) return o.done(EVFS_ERR_BAD_ARG);
  MemP par = walk(m, s, s.size() - 1, &err);
  for (size_t i = 0; i < par->kids.size(); i++) if (par->kids[i].second == n) { par->kids.erase(par->kids.begin() + (long)i); break; }
  par2->kids.push_back({t.back(), n});
  return o.done(EVFS_OK);
}
int v_mkdir(Evfs *v, const char *path) {
  MemFs *m = M(v); Op o(m, "mkdir", path); if (o.fail) return o.done(m->fault_code);
  if (strlen(path) >= m->max_path) return o.done(EVFS_ERR_TOO_LONG);
  auto s = m->segs(path); int err; if (s.empty()) return o.done(EVFS_ERR_EXISTS);
  MemP par = walk(m, s, s.size() - 1, &err); if (!par) return o.done(err);
  if (!par->dir) return o.done(EVFS_ERR_NO_PATH);
  if (par->find(s.back())) return o.done(EVFS_ERR_EXISTS);
  MemP n = std::make_shared<MemNode>(); n->dir = true; par->kids.push_back({s.back(), n});
  return o.done(EVFS_OK);
}
int v_opendir(Evfs *v, const char *path, EvfsDir *dh) {
  MemFs *m = M(v); MDir *d = (MDir *)dh; Op o(m, "opendir", path); memset(d, 0xEE, sizeof *d);
  if (o.fail) return o.done(m->fault_code);
  auto s = m->segs(path); int err; MemP n = walk(m, s, s.size(), &err); if (!n) return o.done(err);
  if (!n->dir) return o.done(EVFS_ERR_NO_PATH);
  memset(d, 0, sizeof *d);
  d->base.methods = &s_dm; d->fs = m; d->ents = new std::vector<std::pair<Str, MemP>>(); d->name = new Str;
  if (!m->no_dots) { d->ents->push_back({".", n}); d->ents->push_back({"..", n}); }
  for (auto &k : n->kids) d->ents->push_back(k);
  m->open_dirs++;
  return o.done(EVFS_OK);
}
int v_getcwd(Evfs *v, StringRange *r) {
  MemFs *m = M(v); Op o(m, "getcwd"); if (o.fail) return o.done(m->fault_code);
  Str c = vf_join(m->cwd); if (m->dos_root) c = "C:" + c;
  if ((long)c.size() + 1 > range_size(r)) return o.done(EVFS_ERR_OVERFLOW);
  memcpy((char *)r->start, c.c_str(), c.size() + 1);
  return o.done(EVFS_OK);
}
int v_setcwd(Evfs *v, const char *path) {
  MemFs *m = M(v); Op o(m, "setcwd", path); if (o.fail) return o.done(m->fault_code);
  auto s = m->segs(path); int err; MemP n = walk(m, s, s.size(), &err); if (!n) return o.done(err);
  if (!n->dir) return o.done(EVFS_ERR_NO_PATH);
  m->cwd = s; return o.done(EVFS_OK);
}
int v_ctrl(Evfs *v, int cmd, void *arg) {
  MemFs *m = M(v); Op o(m, "ctrl", "", cmd); if (o.fail && cmd != EVFS_CMD_UNREGISTER) return o.done(m->fault_code);
  switch (cmd) {
  case EVFS_CMD_UNREGISTER: m->unregistered++; return o.done(EVFS_OK);
  case EVFS_CMD_SET_NO_DIR_DOTS: m->no_dots = *(unsigned *)arg != 0; return o.done(EVFS_OK);
  case EVFS_CMD_GET_STAT_FIELDS: *(unsigned *)arg = EVFS_INFO_SIZE | EVFS_INFO_TYPE | EVFS_INFO_MTIME; return o.done(EVFS_OK);
  case EVFS_CMD_GET_DIR_FIELDS: *(unsigned *)arg = EVFS_INFO_NAME | EVFS_INFO_SIZE | EVFS_INFO_TYPE | EVFS_INFO_MTIME; return o.done(EVFS_OK);
  default: return o.done(EVFS_ERR_NO_SUPPORT);
  }
}
bool v_root(Evfs *v, const char *path, StringRange *root) {
  MemFs *m = M(v);
  if (m->dos_root && ((path[0] >= 'a' && path[0] <= 'z') || (path[0] >= 'A' && path[0] <= 'Z')) && path[1] == ':') {
    size_t n = 2 + strspn(path + 2, "/\\"); range_init(root, path, n); return n > 2;
  }
  size_t n = strspn(path, "/\\"); range_init(root, path, n); return n > 0;
}
}

MemFs::MemFs(const Str &nm) : name(nm) {
  memset(&vfs, 0, sizeof vfs);
  root = std::make_shared<MemNode>(); root->dir = true;
  vfs.vfs_name = name.c_str(); vfs.vfs_file_size = sizeof(MFile); vfs.vfs_dir_size = sizeof(MDir); vfs.fs_data = this;
  vfs.m_open = v_open; vfs.m_stat = v_stat; vfs.m_delete = v_delete; vfs.m_rename = v_rename; vfs.m_make_dir = v_mkdir;
  vfs.m_open_dir = v_opendir; vfs.m_get_cur_dir = v_getcwd; vfs.m_set_cur_dir = v_setcwd; vfs.m_vfs_ctrl = v_ctrl;
  vfs.m_path_root_component = v_root;
}
MemFs::~MemFs() {}
int MemFs::reg(bool d) { return evfs_register(&vfs, d); }
void MemFs::arm(long at, int code, bool sh, long len) { nops = 0; fault_at = at; fault_code = code; fault_short = sh; fault_len = len; fault_hit = false; }
void MemFs::disarm() { fault_at = 0; bad_lo = bad_hi = -1; fault_short = false; }
std::vector<Str> MemFs::segs(const Str &path0) const {
  Str path = path0;
  if (dos_root && path.size() >= 2 && isalpha((unsigned char)path[0]) && path[1] == ':') path = path.substr(2);
  bool abs = !path.empty() && (path[0] == '/' || path[0] == '\\');
  std::vector<Str> r = abs ? std::vector<Str>() : cwd;
  for (auto &s : vf_split(path)) {
    if (s == ".") continue;
    if (s == "..") { if (!r.empty()) r.pop_back(); } else r.push_back(s);
  }
  return r;
}
MemP MemFs::at(const Str &path) const { MemP c = root; for (auto &s : vf_split(path)) { if (!c || !c->dir) return nullptr; c = c->find(s); } return c; }
void MemFs::mkdirs(const Str &path) {
  MemP c = root;
  for (auto &s : vf_split(path)) { MemP n = c->find(s); if (!n) { n = std::make_shared<MemNode>(); n->dir = true; c->kids.push_back({s, n}); } c = n; }
}
void MemFs::put(const Str &path, const Str &data) {
  auto s = vf_split(path); Str last = s.back(); s.pop_back(); mkdirs(vf_join(s)); MemP p = at(vf_join(s)); MemP n = p->find(last);
  if (!n) { n = std::make_shared<MemNode>(); p->kids.push_back({last, n}); }
  n->data = data; n->dir = false;
}
static void dump_rec(const MemP &n, const Str &p, Str &o) {
  std::map<Str, MemP> k; for (auto &e : n->kids) k[e.first] = e.second;
  for (auto &e : k) {
    if (e.second->dir) { o += p + e.first + "/\n"; dump_rec(e.second, p + e.first + "/", o); }
    else o += p + e.first + vf_fmt(" %zu %016llx\n", e.second->data.size(), (unsigned long long)vf_hash(e.second->data));
  }
}
Str MemFs::dump() const { Str o; dump_rec(root, "/", o); return o; }
Str MemFs::dump(const Str &p) const { Str o; MemP n = at(p); if (n) dump_rec(n, "/", o); else o = "(missing)"; return o; }
uint64_t MemFs::fingerprint() const { return vf_hash(dump()); }
static long used_rec(const MemP &n) { long t = (long)n->data.size(); for (auto &k : n->kids) t += used_rec(k.second); return t; }
long MemFs::used() const { return used_rec(root); }

EvRead ev_read_all(const char *path, const char *vfs, size_t chunk) {
  EvRead r; EvfsFile *fh = nullptr; r.rv = evfs_open_ex(path, &fh, EVFS_READ, vfs);
  if (r.rv != EVFS_OK) return r;
  Guarded b(chunk);
  for (;;) { ptrdiff_t n = evfs_file_read(fh, b.p, chunk); if (n < 0) { r.rv = (int)n; break; } if (n == 0) break; r.data.append(b.p, (size_t)n); if (r.data.size() > (64u << 20)) { r.rv = -999; break; } }
  evfs_file_close(fh);
  return r;
}
int ev_write_all(const char *path, const Str &data, const char *vfs, int flags) {
  EvfsFile *fh = nullptr; int rv = evfs_open_ex(path, &fh, flags, vfs); if (rv != EVFS_OK) return rv;
  ptrdiff_t n = evfs_file_write(fh, data.data(), data.size());
  int c = evfs_file_close(fh);
  return n != (ptrdiff_t)data.size() ? (n < 0 ? (int)n : EVFS_ERR_IO) : c;
}
int ev_list(const char *path, const char *vfs, std::vector<Str> *names, std::vector<EvfsInfo> *infos) {
  EvfsDir *dh = nullptr; int rv = evfs_open_dir_ex(path, &dh, vfs); if (rv != EVFS_OK) return rv;
  for (;;) {
    EvfsInfo i; rv = evfs_dir_read(dh, &i); if (rv != EVFS_OK) break;
    names->push_back(i.name ? i.name : "(null)"); if (infos) { i.name = nullptr; infos->push_back(i); }
    if (names->size() > 100000) { rv = -999; break; }
  }
  evfs_dir_close(dh);
  return rv == EVFS_DONE ? EVFS_OK : rv;
}
