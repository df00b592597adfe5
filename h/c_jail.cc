// C05, C06: jail containment and equivalence with the base below the root.
#include "diff.h"
#include <unistd.h>
#include <filesystem>
#include <sys/stat.h>
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
}
static bool issep(char c) { return c == '/' || c == '\\'; }

static Str name1(Rng &r) { return r.pick(std::vector<Str>{"a", "b", "c", "dir", "f.txt", "g", "...", "..a", ".h", "longer_name", "sub"}); }
static Str hostile(Rng &r, const Str &root, bool dos) {
  Str p;
  if (r.chance(1, 2)) { if (dos && r.chance(1, 2)) p = r.pick(std::vector<Str>{"C:", "D:", "c:"}); p += r.chance(1, 4) ? "\\" : "/"; while (r.chance(1, 6)) p += r.chance(1, 2) ? "/" : "\\"; }
  int n = r.range(0, 6);
  if (r.chance(1, 25)) n = r.range(30, 45);
  if (r.chance(1, 12)) { // climb out and back in through the root's own name
    Str u; int k = r.range(1, 6); for (int i = 0; i < k; i++) u += r.chance(1, 4) ? "..\\" : "../";
    return p + u + (r.chance(1, 2) ? root.substr(root.empty() ? 0 : 1) + "/a" : Str("secret/key"));
  }
  for (int i = 0; i < n; i++) {
    Str s; int k = (int)r.below(10);
    if (k < 3) s = ".."; else if (k == 3) s = "."; else if (k == 4 && r.chance(1, 8)) s = Str((size_t)r.range(60, 250), 'x'); else s = name1(r);
    if (n > 20 && s.size() > 4) s = "..";
    p += s; if (i + 1 < n || r.chance(1, 4)) { p += r.chance(1, 6) ? "\\" : "/"; while (r.chance(1, 8)) p += "/"; }
  }
  if (r.chance(1, 15)) { // around the path limit
    long want = (long)EVFS_MAX_PATH - (long)root.size() - (long)r.range(-4, 12); Str s = "/"; while ((long)s.size() < want) { s += Str((size_t)std::min(60L, want - (long)s.size()), 'y'); if ((long)s.size() < want) s += "/"; } p = s;
  }
  return p;
}
static Str tame(Rng &r) {
  Str p; int n = r.range(1, 3); if (r.chance(1, 2)) p = "/";
  for (int i = 0; i < n; i++) { Str s = r.chance(1, 8) ? Str("..") : r.chance(1, 12) ? Str(".") : r.pick(std::vector<Str>{"a", "b", "dir", "f.txt", "sub"}); p += s; if (i + 1 < n) p += "/"; }
  return p;
}
// strip the client root (drive letters too), as a set of segments from the jail's root
static Str client_abs(const Str &cwd, const Str &p0, bool dos) {
  Str p = p0; bool drive = dos && p.size() >= 2 && isalpha((unsigned char)p[0]) && p[1] == ':';
  if (drive) p = p.substr(2);
  bool abs = !p.empty() && issep(p[0]);
  return ref_normalize(abs ? p : cwd + "/" + p);
}
static bool rel_drive(const Str &p) { return p.size() >= 2 && isalpha((unsigned char)p[0]) && p[1] == ':' && !(p.size() > 2 && issep(p[2])); }

// ---- C05 ----
static void contain_case(Rng &r, uint64_t idx) {
  bool dos = r.chance(1, 5); bool nested = r.chance(1, 5);
  MemFs fs("base"); fs.dos_root = dos; fs.reg(true);
  Str root = r.pick(std::vector<Str>{"/jail", "/j/deep/er", "/", "/jail", Str("/") + Str((size_t)r.range(1, 200), 'R'), "/a", "/..a"});
  fs.mkdirs(root); fs.mkdirs("/secret/dir"); fs.put("/secret/key", "outside"); fs.put("/a/outside", "outside"); fs.mkdirs("/jailbreak/a"); fs.mkdirs(root + "/dir/sub"); fs.mkdirs(root + "/a"); fs.put(root + "/f.txt", "inside"); fs.put(root + "/a/g", "inside2");
  Str spelled = root;
  if (r.chance(1, 3)) spelled = r.pick(std::vector<Str>{root + "/", "/x/.." + root, "/" + root, root + "/./", root + "/dir/.."});
  if (dos) spelled = "C:" + spelled;
  if (r.chance(1, 4) && root.size() > 1) { fs.cwd = {}; spelled = spelled.substr(spelled.find_first_of("/") + 1); }
  int rv = evfs_register_jail("jail", "base", spelled.c_str(), r.chance(1, 2));
  Str vfs = "jail", inner_root;
  if (rv != EVFS_OK) { VF_CHECK(spelled.size() > EVFS_MAX_PATH - 4, "jail:register", "registering a jail at %s returned %s", vf_q(spelled).c_str(), ev_err(rv)); evfs_unregister_all(); return; }
  if (nested) { inner_root = "/dir"; rv = evfs_register_jail("inner", "jail", "/dir", false); VF_CHECK(rv == EVFS_OK, "jail:register-nested", "nested jail: %s", ev_err(rv)); vfs = "inner"; if (rv != EVFS_OK) { evfs_unregister_all(); return; } }
  Str real_root = ref_normalize(root + inner_root);
  // everything outside the root must stay as it is
  auto outside = [&]() { Str d = fs.dump(), o; if (real_root == "/") return o; size_t i = 0; while (i < d.size()) { size_t e = d.find('\n', i); Str l = d.substr(i, e - i); Str pre = real_root + "/", pre2 = real_root + " "; if (l.compare(0, pre.size(), pre) != 0 && l.compare(0, pre2.size(), pre2) != 0) o += l + "\n"; i = e + 1; } return o; };
  Str before = outside();
  Str expect, expect2; bool checked = false; uint64_t sig = 0; Str cur;
  fs.before = [&](const MemOp &o) {
    if (o.path.empty() && o.path2.empty()) return;
    if (o.op == "getcwd" || o.op == "ctrl" || o.op == "dread" || o.op == "drewind" || o.op == "dclose") return;
    bool isf = o.op == "read" || o.op == "write" || o.op == "seek" || o.op == "tell" || o.op == "size" || o.op == "sync" || o.op == "close" || o.op == "truncate" || o.op == "eof" || o.op == "fctrl";
    if (isf) return;
    for (int k = 0; k < 2; k++) {
      Str p = k ? o.path2 : o.path; if (k && o.op != "rename") break;
      vf_count("paths_seen_below");
      if (dos && p.size() >= 2 && p[1] == ':') p = p.substr(2);
      bool abs = !p.empty() && issep(p[0]);
      Str n = ref_normalize(p);
      bool inside = abs && (real_root == "/" || n == real_root || n.compare(0, real_root.size() + 1, real_root + "/") == 0);
      VF_CHECK(inside, "jail:escape", "%s with client path %s reached the base as %s: outside %s", o.op.c_str(), vf_q(cur).c_str(), vf_q(k ? o.path2 : o.path).c_str(), vf_q(real_root).c_str());
      // '..' may appear in a raw path only above... none may remain after the root
      Str want = ref_normalize(real_root + (k ? expect2 : expect));
      if (inside && checked) { VF_CHECK(n == want, "jail:different-path", "%s of client path %s reached the base as %s, expected %s", o.op.c_str(), vf_q(cur).c_str(), vf_q(n).c_str(), vf_q(want).c_str()); sig = vf_hash(n, sig); }
    }
  };
  Str cwd = "/"; Side s(vfs); int steps = r.range(3, 12);
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    DOp o = d_random(r, [&](Rng &q) { return q.chance(2, 3) ? hostile(q, root, dos) : tame(q); });
    if (o.kind == D_CTRL || o.kind == D_MKPATH) continue;
    if (!d_applicable(o, s)) continue;
    bool rd = dos && (rel_drive(o.path) || (o.kind == D_RENAME && rel_drive(o.path2)));
    if (rd && o.kind == D_SETCWD) continue;
    expect = client_abs(cwd, o.path, dos); expect2 = client_abs(cwd, o.path2, dos); checked = true; cur = o.kind == D_RENAME ? o.path + " -> " + o.path2 : o.path;
    vf_note("%s", d_str(o).c_str());
    if (o.kind == D_GETCWD) o.a = EVFS_MAX_PATH;
    DRes x = d_run(o, s, o.path, o.path2);
    checked = false;
    vf_count("operations");
    bool pathop = o.kind == D_OPEN || (o.kind >= D_STAT && o.kind <= D_OPENDIR) || o.kind == D_SETCWD;
    if (pathop) vf_count(x.rv == EVFS_OK ? "path_ops_ok" : "path_ops_error");
    if (o.kind == D_SETCWD && x.rv == EVFS_OK) cwd = expect;
    if (o.kind == D_GETCWD) {
      Str g = x.out; if (dos && g.size() > 2 && g[1] == ':') g = g.substr(2);
      VF_CHECK(x.rv == EVFS_OK && g == cwd, "jail:cwd", "working directory reported as %s %s, expected %s", ev_err((int)x.rv), vf_q(x.out).c_str(), vf_q(cwd).c_str());
      vf_count("getcwd");
    }
    vf_seen(vf_hash(expect) ^ (uint64_t)o.kind * 77);
  }
  if (!vf_case_failed()) { s.close_all(); Str after = outside(); VF_CHECK(before == after, "jail:outside-changed", "something outside the root changed:\nbefore:\n%s\nafter:\n%s", before.c_str(), after.c_str()); }
  fs.before = nullptr;
  if (vf_want_sample()) vf_sample(vf_fmt("root %s: %s", vf_q(spelled).c_str(), vf_trace().substr(0, 300).c_str()));
  evfs_unregister_all();
}

// ---- C06 ----
static Str copy_tree_sig(const Str &dir) { // host tree
  Str o; EvfsDir *d; (void)d;
  std::vector<Str> n; std::vector<EvfsInfo> inf;
  if (ev_list(dir.c_str(), "stdio", &n, &inf) != EVFS_OK) return "(no dir)";
  std::sort(n.begin(), n.end());
  for (auto &x : n) { if (x == "." || x == "..") continue; Str p = dir + "/" + x; if (evfs_existing_dir_ex(p.c_str(), "stdio")) o += x + "/{" + copy_tree_sig(p) + "}"; else o += x + ":" + ev_read_all(p.c_str(), "stdio").data + ";"; }
  return o;
}
static void equiv_case(Rng &r, uint64_t idx) {
  bool host = r.chance(1, 6); bool dos = !host && r.chance(1, 6); bool faults = !host && r.chance(1, 3);
  bool longp = !host && !dos && r.chance(1, 3); // paths of every length up to the limit below the root
  MemFs A("baseA"), B("baseB"); A.dos_root = B.dos_root = dos;
  Str rootA, rootB, scratch; std::vector<Str> ldirs{""};
  if (host) {
    evfs_register_stdio(true);
    scratch = vf_scratch + "/eq"; rootA = scratch + "/A/root"; rootB = scratch + "/B/root";
    evfs_make_path_ex((rootA + "/dir/sub").c_str(), "stdio"); evfs_make_path_ex((rootB + "/dir/sub").c_str(), "stdio");
    ev_write_all((rootA + "/f.txt").c_str(), "hello", "stdio"); ev_write_all((rootB + "/f.txt").c_str(), "hello", "stdio");
    evfs_register_jail("jail", "stdio", rootA.c_str(), false);
  } else {
    A.reg(true); B.reg(false);
    rootA = rootB = r.pick(std::vector<Str>{"/jail", "/j/deep", "/"});
    if (longp) {
      if (r.chance(1, 2)) rootA = rootB = "/" + Str((size_t)r.range(1, 120), 'R');
      Str d; for (int i = 0; i < 3; i++) { d += "/" + Str((size_t)r.range(2, 90), (char)('d' + i)); if (rootA.size() + d.size() > 230) break; ldirs.push_back(d); for (MemFs *m : {&A, &B}) m->mkdirs(rootA + d); }
    }
    for (MemFs *m : {&A, &B}) { m->mkdirs(rootA + "/dir/sub"); m->put(rootA + "/f.txt", "hello"); m->put(rootA + "/dir/b", Str(500, 'q')); m->no_dots = true; }
    evfs_register_jail("jail", "baseA", ((dos ? "C:" : "") + rootA).c_str(), r.chance(1, 2));
  }
  Side a("jail"), b(host ? "stdio" : "baseB"); Str cwd = "/"; int steps = r.range(5, 40);
  auto longish = [&](Rng &q) { // a clean path whose real form is at most EVFS_MAX_PATH-2 bytes long
    if (q.chance(1, 6)) return tame(q);
    bool rel = q.chance(1, 3); Str d = rel ? cwd == "/" ? Str() : cwd : q.pick(ldirs), p = rel ? Str() : d;
    long room = (long)EVFS_MAX_PATH - 2 - (long)rootA.size() - (long)d.size() - 1; if (room < 1) return p.empty() ? Str("/f") : p;
    if (!rel && !d.empty() && q.chance(1, 3)) return p;
    Str n = q.chance(1, 3) ? Str((size_t)q.range(1, 5), 'n') : Str((size_t)(q.chance(1, 3) ? room - std::min(room - 1, (long)q.below(6)) : 1 + (long)q.below((uint64_t)room)), 'n'); if ((long)n.size() > room) n.resize((size_t)room);
    return rel ? n : p + "/" + n;
  };
  auto real_len = [&](const Str &p) { return rootA.size() + client_abs(cwd, p, dos).size(); };
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    DOp o = longp ? d_random(r, longish) : d_random(r, tame);
    if (!d_applicable(o, a)) continue;
    if (longp && (real_len(o.path) > EVFS_MAX_PATH - 2 || real_len(o.path2) > EVFS_MAX_PATH - 2 || rootA.size() + cwd.size() + 2 + o.path.size() > EVFS_MAX_PATH || rootA.size() + cwd.size() + 2 + o.path2.size() > EVFS_MAX_PATH)) continue;
    if (longp && real_len(o.path) > 128) vf_count("long_paths");
    if (host && (o.kind == D_CTRL || o.kind == D_FCTRL)) continue;
    if (o.kind == D_MKPATH) o.path = client_abs(cwd, o.path, dos);
    if (host && o.kind == D_OPEN) o.a = r.pick(std::vector<long>{EVFS_READ, EVFS_WRITE, EVFS_RDWR, EVFS_WRITE | EVFS_OVERWRITE, EVFS_RDWR | EVFS_OVERWRITE, EVFS_WRITE | EVFS_APPEND, EVFS_WRITE | EVFS_NO_EXIST});
    if (host && o.kind == D_OPEN && client_abs(cwd, o.path, dos) == "/") continue; // which error the host gives for opening a directory depends on the spelling
    Str pb = ref_normalize(rootB + client_abs(cwd, o.path, dos)), pb2 = ref_normalize(rootB + client_abs(cwd, o.path2, dos));
    if (dos) { pb = "C:" + pb; pb2 = "C:" + pb2; }
    vf_note("%s", d_str(o).c_str()); vf_count("operations");
    if (o.kind == D_SETCWD) {
      bool isdir = evfs_existing_dir_ex(pb.c_str(), b.vfs.c_str());
      DRes x = d_run(o, a, o.path, "");
      VF_CHECK((x.rv == EVFS_OK) == isdir, "jail:setcwd", "set_cur_dir(%s) returned %s, the target is %s", vf_q(o.path).c_str(), ev_err((int)x.rv), isdir ? "a directory" : "no directory");
      VF_CHECK(x.rv <= 0, "jail:setcwd-code", "set_cur_dir returned %ld", x.rv);
      if (x.rv == EVFS_OK) { cwd = client_abs(cwd, o.path, dos); vf_count("setcwd_ok"); } else vf_count("setcwd_refused");
      continue;
    }
    if (o.kind == D_GETCWD) {
      DRes x = d_run(o, a, "", "");
      Str g = x.out; if (dos && g.size() > 2 && g[1] == ':') g = g.substr(2);
      if ((size_t)o.a > cwd.size() + 2) VF_CHECK(x.rv == EVFS_OK && g == cwd, "jail:getcwd", "working directory %s %s, expected %s", ev_err((int)x.rv), vf_q(x.out).c_str(), vf_q(cwd).c_str());
      else VF_CHECK(x.rv < 0 || (x.rv == EVFS_OK && g == cwd), "jail:getcwd-short", "working directory %s in a range of %ld bytes gave OK %s", vf_q(cwd).c_str(), o.a, vf_q(x.out).c_str());
      continue;
    }
    bool arm = faults && r.chance(1, 5) && o.kind != D_MKPATH;
    if (arm) { int code = r.pick(std::vector<int>{EVFS_ERR_IO, EVFS_ERR_FS_FULL, EVFS_ERR_AUTH}); bool sh = r.chance(1, 3); long at = r.range(1, 2); A.arm(at, code, sh); B.arm(at, code, sh); }
    DRes x = d_run(o, a, o.path, o.path2), y = d_run(o, b, pb, pb2);
    if (arm) { if (A.fault_hit) vf_count("faults_hit"); A.disarm(); B.disarm(); }
    if (host) { // modification times and host order differ between the two trees
      size_t k = x.out.find(" mtime "); if (k != Str::npos) x.out.resize(k); k = y.out.find(" mtime "); if (k != Str::npos) y.out.resize(k);
      if (o.kind == D_DREAD || o.kind == D_DFIND) { x.out.clear(); y.out.clear(); }
      if (o.kind == D_DFIND || o.kind == D_DREAD) { if (x.rv != y.rv) continue; }
    }
    VF_CHECK(x.rv == y.rv && x.out == y.out, Str("jail:differs-") + DNAMES[o.kind], "%s (cwd %s): jail %ld %s %s, base %ld %s %s", d_str(o).c_str(), cwd.c_str(), x.rv, x.rv < 0 ? ev_err((int)x.rv) : "", vf_q(x.out).c_str(), y.rv, y.rv < 0 ? ev_err((int)y.rv) : "", vf_q(y.out).c_str());
    vf_count(DNAMES[o.kind]);
    vf_seen(vf_hash(x.out, (uint64_t)o.kind * 31 + (uint64_t)x.rv));
  }
  a.close_all(); b.close_all();
  if (!vf_case_failed()) {
    Str da = host ? copy_tree_sig(rootA) : A.dump(rootA), db = host ? copy_tree_sig(rootB) : B.dump(rootB);
    VF_CHECK(da == db, "jail:effect", "the trees differ afterwards: jail %s base %s", vf_q(da, 1500).c_str(), vf_q(db, 1500).c_str());
  }
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 400));
  evfs_unregister_all();
  if (host) { std::error_code ec; std::filesystem::remove_all(scratch, ec); }
}

void vf_setup() {
  vf_drop_privs(); umask(022);
  evfs_init();
  vf_suite("contain", 30000, 1500000, contain_case);
  vf_suite("equiv", 20000, 1000000, equiv_case);
}
