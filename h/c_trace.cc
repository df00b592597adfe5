// C09: the trace shim is transparent; every operation is reported.
#include "diff.h"
extern "C" {
#include "evfs/shim/shim_trace.h"
}

static std::vector<Str> s_rep; static int s_ret; static void *s_ctx;
static int sink(const char *buf, void *ctx) { s_ctx = ctx; s_rep.push_back(Str(buf, strlen(buf))); return s_ret; }
static int sink2(const char *buf, void *ctx) { (void)buf; ++*(long *)ctx; return -1; }

static Str plain(const Str &s) { // drop ANSI sequences
  Str o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !isalpha((unsigned char)s[i])) i++; continue; } o += s[i]; } return o;
}
static Str hostile(Rng &r) {
  static const char *names[] = {"a", "b.txt", "%s", "%n%n%n%n", "100%", "%d %ld %p", "dir", "sub", "..", ".", "very-long-name-that-exceeds-the-filename-buffer-of-the-shim.txt", "\x1b[31mred", "new\nline", "c", "%*d", "name_of_exactly_32_characters_xxx", "name_of_exactly_33_characters_xxxx"};
  Str p = r.chance(2, 3) ? "/" : ""; int n = r.range(1, 3);
  for (int i = 0; i < n; i++) { if (i) p += r.chance(1, 8) ? "\\" : "/"; p += names[r.below(17)]; }
  if (r.chance(1, 10)) p += "/"; if (r.chance(1, 40)) p = ""; if (r.chance(1, 30)) p += Str(r.below(600), 'x');
  return p;
}
static const char *METHOD[] = {"m_open", "m_read", "m_write", "m_seek", "m_tell", "m_size", "m_truncate", "m_sync", "m_eof", "m_ctrl", "m_close", "m_stat", "m_stat", "m_stat", "m_delete", "m_rename", "m_make_dir",
                               "m_open_dir", "m_dir_read", "m_dir_rewind", "m_dir_close", "m_dir_read", "m_get_cur_dir", "m_set_cur_dir", "m_vfs_ctrl", "m_stat"};
static Str logs(const MemFs &m) { Str o; for (auto &x : m.log) o += x.str() + "\n"; return o; }

static void trace_case(Rng &r, uint64_t) {
  MemFs A("baseA"), B("baseB"); A.dos_root = B.dos_root = r.chance(1, 6);
  for (MemFs *m : {&A, &B}) { m->reg(false); m->mkdirs("/dir/sub"); m->put("/a", "hello"); m->put("/%s", "percent"); m->put("/dir/b.txt", Str(2000, 'q')); m->put("/dir/100%", "x"); m->no_dots = false; }
  int marker = 0; long n2 = 0; s_ret = r.pick(std::vector<int>{0, -1, 5, EVFS_ERR_IO});
  Str top = r.pick(std::vector<Str>{"tr", "trace_with_a_longer_name", "100%s", "t%n"});
  bool nested = r.chance(1, 5);
  if (nested) VF_CHECK(evfs_register_trace("inner", "baseA", sink2, &n2, false) == EVFS_OK, "trace:register", "inner registration failed");
  VF_CHECK(evfs_register_trace(top.c_str(), nested ? "inner" : "baseA", sink, &marker, r.chance(1, 2)) == EVFS_OK, "trace:register", "registration failed");
  Side a(top), b("baseB"); int steps = r.range(5, 50); bool faults = r.chance(1, 2);
  A.record = B.record = true;
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    DOp o = d_random(r, hostile);
    if (r.chance(1, 25)) { o.kind = D_SEEK; o.b = r.pick(std::vector<long>{EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV, 0}); o.a = r.pick(std::vector<long>{0, -1, -7, 2147483647, -2147483647, 5}); }
    if (o.kind == D_OPEN && r.chance(1, 3)) o.path = "/%s";
    if (!d_applicable(o, a)) continue;
    vf_note("%s", d_str(o).c_str());
    bool arm = faults && r.chance(1, 3);
    if (arm) { int code = r.pick(std::vector<int>{EVFS_ERR_IO, EVFS_ERR_FS_FULL, EVFS_ERR_AUTH, EVFS_ERR_DISABLED, EVFS_ERR_CORRUPTION, EVFS_ERR, -77}); bool sh = r.chance(1, 3); long at = r.range(1, 2); A.arm(at, code, sh); B.arm(at, code, sh); }
    A.log.clear(); B.log.clear(); s_rep.clear(); long n2was = n2; s_ctx = nullptr;
    DRes x = d_run(o, a, o.path, o.path2), y = d_run(o, b, o.path, o.path2);
    if (arm) { if (B.fault_hit) vf_count("faults_hit"); A.disarm(); B.disarm(); }
    VF_CHECK(x.rv == y.rv && x.out == y.out, Str("trace:differs-") + DNAMES[o.kind], "%s: through the shim %ld %s, directly %ld %s", d_str(o).c_str(), x.rv, vf_q(x.out).c_str(), y.rv, vf_q(y.out).c_str());
    Str la = logs(A), lb = logs(B);
    VF_CHECK(la == lb, Str("trace:passed-") + DNAMES[o.kind], "%s reached the base as\n%sdirectly it is\n%s", d_str(o).c_str(), la.c_str(), lb.c_str());
    // the report
    Str rep; for (auto &s : s_rep) rep += s; rep = plain(rep);
    if (!lb.empty()) {
      VF_CHECK(!s_rep.empty() && s_ctx == &marker, Str("trace:unreported-") + DNAMES[o.kind], "%s was not reported to the sink", d_str(o).c_str());
      Str want = top + "." + METHOD[o.kind] + "(";
      if (o.kind == D_MKPATH) want = top + ".";
      if (o.kind == D_SIZE && x.rv < 0 && rep.find(want) == Str::npos) want = top + ".m_sync("; // a failed flush ends a size query
      VF_CHECK(rep.find(want) != Str::npos, Str("trace:report-") + DNAMES[o.kind], "%s: report %s does not name the operation", d_str(o).c_str(), vf_q(rep).c_str());
      if (nested) VF_CHECK(n2 > n2was, "trace:unreported-nested", "%s was not reported by the inner shim", d_str(o).c_str());
      Str res;
      switch (o.kind) {
      case D_READ: case D_WRITE: res = x.rv >= 0 ? vf_fmt("-> %ld", x.rv) : evfs_err_name((int)x.rv); break;
      case D_TELL: case D_SIZE: if (x.rv >= 0) res = vf_fmt("-> %ld", x.rv); break;
      case D_EXF: case D_EXD: case D_EOF: case D_MKPATH: case D_DFIND: break;
      default: res = Str("-> ") + evfs_err_name((int)x.rv);
      }
      VF_CHECK(rep.find(res) != Str::npos, Str("trace:report-result-") + DNAMES[o.kind], "%s returned %ld, report is %s", d_str(o).c_str(), x.rv, vf_q(rep).c_str());
      Str arg;
      switch (o.kind) {
      case D_READ: arg = vf_fmt("size=%ld", o.a); break;
      case D_WRITE: arg = vf_fmt("size=%ld", (long)o.data.size()); break;
      case D_TRUNC: arg = vf_fmt("size=%ld", o.a); break;
      case D_SEEK: arg = vf_fmt("offset=%ld,", o.a); break;
      case D_OPEN: arg = vf_fmt("0x%02lX", o.a); break;
      case D_STAT: case D_DELETE: case D_MKDIR: case D_SETCWD: if (plain(o.path) == o.path) arg = o.path; break;
      case D_RENAME: if (plain(o.path + o.path2) == o.path + o.path2) arg = o.path + ", " + o.path2; break;
      default: break;
      }
      VF_CHECK(rep.find(arg) != Str::npos, Str("trace:report-args-") + DNAMES[o.kind], "%s: report %s lacks %s", d_str(o).c_str(), vf_q(rep).c_str(), arg.c_str());
      vf_count("reports", s_rep.size());
    }
    // the root component of paths
    if (r.chance(1, 4)) {
      StringRange ra, rb; const char *p = o.path.c_str();
      bool ia = evfs_path_root_component_ex(p, &ra, top.c_str()), ib = evfs_path_root_component_ex(p, &rb, "baseB");
      VF_CHECK(ia == ib && ra.start == rb.start && ra.end == rb.end, "trace:root", "root component of %s differs", vf_q(o.path).c_str());
    }
    vf_count(DNAMES[o.kind]); vf_count("operations");
    vf_seen(vf_hash(x.out, (uint64_t)o.kind * 31 + (uint64_t)x.rv) ^ vf_hash(lb));
  }
  a.close_all(); b.close_all();
  if (!vf_case_failed()) VF_CHECK(A.dump() == B.dump() && A.open_files == 0 && A.open_dirs == 0, "trace:effect", "trees differ afterwards or handles stay open (%ld files, %ld dirs)", A.open_files, A.open_dirs);
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 400));
  evfs_unregister_all();
  VF_CHECK(A.unregistered == 1, "trace:unregister", "the base was notified %ld times", A.unregistered);
}

void vf_setup() {
  evfs_init();
  vf_suite("trace", 20000, 800000, trace_case);
}
