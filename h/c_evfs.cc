// C22 copy_to_file, C23 make_path, C28 formatted output and names.
#include "memfs.h"
#include <filesystem>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
}
namespace fs = std::filesystem;
static int nosink(const char *, void *) { return 0; }
static bool hread(const Str &p, Str *o) { o->clear(); int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return false; char b[8192]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) o->append(b, (size_t)n); ::close(fd); return n == 0; }
static void hwrite(const Str &p, const Str &d) { int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return; ssize_t n = ::write(fd, d.data(), d.size()); (void)n; ::close(fd); }

// ---------------------------------------------------------------- C22
// A place that holds files: the client path, the VFS to use and an independent look at the contents
struct Place { Str vfs, pre; MemFs *m = nullptr; Str root; bool get(const Str &n, Str *o) const { if (m) { MemP x = m->at(root + "/" + n); if (!x || x->dir) return false; *o = x->data; return true; } return hread(root + "/" + n, o); }
  void put(const Str &n, const Str &d) const { if (m) m->put(root + "/" + n, d); else hwrite(root + "/" + n, d); } };

static void copy_case(Rng &r, uint64_t) {
  Str dir = vf_scratch + "/cp"; std::error_code ec; fs::remove_all(dir, ec); fs::create_directories(dir);
  MemFs a("mema"), b("memb"); a.reg(true); b.reg(false); a.mkdirs("/j/k"); b.mkdirs("/j/k"); a.buffered = r.chance(1, 3); b.buffered = r.chance(1, 3); evfs_register_stdio(false);
  evfs_register_jail("jaila", "mema", "/j/k", false); evfs_register_trace("traceb", "memb", nosink, nullptr, false);
  Place P[] = {{"mema", "/", &a, ""}, {"memb", "/", &b, ""}, {"jaila", "/", &a, "/j/k"}, {"traceb", "/j/", &b, "/j"}, {"stdio", dir + "/", nullptr, dir}};
  for (int round = 0; round < 6 && !vf_case_failed(); round++) {
    Place &S = P[r.below(5)], &D = r.chance(1, 3) ? S : P[r.below(5)];
    static const size_t BS[] = {1, 2, 3, 7, 16, 63, 64, 100, 128, 255, 256, 512, 1000, 1024, 4096}; bool own = r.chance(2, 3); size_t bs = BS[r.below(15)]; size_t unit = own ? bs : r.pick(std::vector<size_t>{64, 128, 256, 512, 1024, 4096});
    size_t n; switch (r.below(6)) { case 0: n = 0; break; case 1: n = unit * r.below(4); break; case 2: n = unit * (1 + r.below(4)) + 1; break; case 3: n = unit * (1 + r.below(4)) - 1; break; default: n = r.below(3000); } if (n > 20000) n %= 20000; if (r.chance(1, 25)) { vf_count("large_copies"); static const size_t LB[] = {4096, 32767, 32768, 65535, 65536, 65537, 100000, 200000}; if (own) unit = bs = LB[r.below(8)]; n = r.chance(1, 2) ? unit * (1 + r.below(3)) + r.below(3) - 1 : 65536 + r.below(400000); if (unit <= 16) n %= 70000; } if (own && bs == 1 && n > 400) n = 400;
    Str data = r.bytes(n), sn = vf_fmt("src%d", round), dn = vf_fmt("dst%d", round); S.put(sn, data);
    EvfsFile *f = nullptr; int fl = r.chance(1, 2) ? EVFS_READ : EVFS_RDWR; int rv = evfs_open_ex((S.pre + sn).c_str(), &f, fl, S.vfs.c_str()); VF_CHECK(rv == EVFS_OK, "copy:open", "opening the source returned %s", ev_err(rv)); if (rv) break;
    long pos = 0; switch (r.below(4)) { case 0: pos = (long)n; break; case 1: pos = (long)r.below(n + 1); break; case 2: pos = (long)n + 5; break; default: break; }
    if (pos) evfs_file_seek(f, (evfs_off_t)pos, EVFS_SEEK_TO);
    if (fl == EVFS_RDWR && r.chance(1, 3)) { Str more = r.bytes(1 + r.below(200)); if (evfs_file_seek(f, 0, EVFS_SEEK_REV) == EVFS_OK && evfs_file_write(f, more.data(), more.size()) == (ptrdiff_t)more.size()) data += more; vf_count("unsynced_sources"); } // written through the same handle and not synced yet
    int special = (int)r.below(8); Str old; if (special == 0) { old = r.bytes(r.below(50)); D.put(dn, old); } // destination exists
    Str dpath = D.pre + dn; if (special == 1) dpath = D.pre + "missing/" + dn; if (special == 2) { if (D.m) D.m->mkdirs(D.root + "/" + dn); else fs::create_directory(D.root + "/" + dn); }
    bool fault = special == 3 || special == 4 || special == 6; bool shrt = false; static const int CODES[] = {EVFS_ERR_IO, EVFS_ERR_FS_FULL, EVFS_ERR_AUTH, EVFS_ERR_CORRUPTION, EVFS_ERR, -100};
    int code = CODES[r.below(6)]; MemFs *fm = nullptr; Str only;
    if (fault) { fm = (D.m && (r.chance(1, 2) || !S.m)) ? D.m : S.m; if (!fm) fault = false; }
    if (special == 5 && D.m) { fm = D.m; fm->capacity = fm->used() + (long)r.below(n + 2); }
    if (fault) { shrt = r.chance(1, 3); only = r.pick(std::vector<Str>{"", "", "", "read", "write", "close", "size", "seek", "open"}); fm->fault_only = only; long span = 6 + (long)(n / std::max<size_t>(unit, 1)) * 2; if (span > 400) span = 400; fm->arm((long)(1 + (r.chance(1, 2) ? r.below(6) : r.below((uint64_t)span))), code, shrt); }
    long of = a.open_files + b.open_files; bool badbuf = own && r.chance(1, 25); bool dflt = D.vfs == "mema" && r.chance(1, 2); Guarded buf(own && !badbuf ? bs : 0);
    vf_note("copy %zu bytes from %s at %ld to %s:%s buffer %s %zu special %d fault %s at %ld code %d short %d", data.size(), S.vfs.c_str(), pos, D.vfs.c_str(), vf_q(dpath).c_str(), own ? "own" : "none", badbuf ? (size_t)0 : bs, special, only.c_str(), fault ? fm->fault_at : 0, code, shrt);
    if (vf_want_sample()) vf_sample(vf_trace());
    vfalloc::start(); char *bp = own ? buf.p : nullptr; size_t bn = own ? (badbuf ? 0 : bs) : r.pick(std::vector<size_t>{0, 1, 100, 1000});
    rv = dflt ? evfs_copy_to_file(dpath.c_str(), f, bp, bn) : evfs_copy_to_file_ex(dpath.c_str(), f, bp, bn, D.vfs.c_str());
    long live = vfalloc::stop(); bool hit = fault && fm->fault_hit; Str fop = hit ? fm->fault_op : ""; if (fm) { fm->disarm(); fm->fault_only.clear(); fm->fault_hit = false; fm->capacity = -1; }
    vf_count("copies"); VF_CHECK(buf.intact(), "copy:buffer", "wrote in front of the transfer buffer"); VF_CHECK(live == 0, "copy:leak", "%ld allocations left: %s", live, vfalloc::describe_live().c_str()); VF_CHECK(a.open_files + b.open_files == of, "copy:handles", "%ld handles were open before, %ld after", of, a.open_files + b.open_files);
    Str got; bool have = D.get(dn, &got) && special != 1; bool clean = special > 2 && !hit && special != 5 && !badbuf;
    VF_CHECK(rv <= 0, "copy:status", "returned %d", rv);
    if (badbuf) { VF_CHECK(rv != EVFS_OK || (have && got == data), "copy:nobuffer", "a buffer of 0 bytes gave success without a copy"); }
    else if (special == 0) { VF_CHECK(rv != EVFS_OK, "copy:overwrote", "copying onto an existing file returned success"); vf_count("existing"); }
    else if (special == 1) { VF_CHECK(rv != EVFS_OK, "copy:nodir", "copying into a missing directory returned success"); vf_count("refused"); }
    else if (special == 2) { VF_CHECK(rv != EVFS_OK, "copy:ondir", "copying onto a directory returned success"); vf_count("refused"); have = false; }
    else if (clean) { VF_CHECK(rv == EVFS_OK, "copy:failed", "copying %zu bytes returned %s", data.size(), ev_err(rv)); vf_count("complete"); }
    else if (hit) { vf_count("faults_hit"); vf_count(("fault_" + fop).c_str()); if (!shrt || (fop != "read" && fop != "write")) VF_CHECK(rv != EVFS_OK || (fop == "close" && false), "copy:fault", "%s failed with %s while copying, the copy returned success", fop.c_str(), ev_err(code)); if (shrt && fop == "write") vf_count("short_writes"); if (shrt && fop == "read") vf_count("short_reads"); }
    if (special == 5 && rv != EVFS_OK) vf_count("full");
    if (special == 0) { VF_CHECK(have && got == old, "copy:changed", "the existing destination of %zu bytes was changed", old.size()); }
    else if (rv == EVFS_OK) VF_CHECK(have && got == data, "copy:differs", "success, but the destination %s %zu bytes of %zu and they %s", have ? "has" : "is missing:", got.size(), data.size(), got == data ? "match" : "differ");
    if (rv != EVFS_OK && special != 0 && have) VF_CHECK(got.size() <= data.size() && data.compare(0, got.size(), got) == 0, "copy:garbage", "the incomplete destination holds %zu bytes that are not the beginning of the source", got.size());
    // the source is as it was and its handle is still usable
    if (evfs_file_seek(f, 0, EVFS_SEEK_TO) == EVFS_OK) { Str back(data.size() + 10, 0); size_t g = 0; ptrdiff_t k; while (g < back.size() && (k = evfs_file_read(f, &back[g], back.size() - g)) > 0) g += (size_t)k; VF_CHECK(g == data.size() && back.compare(0, g, data) == 0, "copy:source", "the source handle gives %zu bytes of %zu after the copy (%s)", g, data.size(), ev_err(rv)); } else vf_violation("copy:source-seek", "the source handle cannot seek after the copy");
    rv = evfs_file_close(f); VF_CHECK(rv == EVFS_OK, "copy:source-close", "closing the source returned %s", ev_err(rv)); Str sd; VF_CHECK(S.get(sn, &sd) && sd == data, "copy:source-changed", "the source file changed");
    vf_seen(vf_hash(vf_fmt("%s %s %zu %d %zu %d %s %ld", S.vfs.c_str(), D.vfs.c_str(), data.size(), own, bs, special, fop.c_str(), pos)));
  }
  evfs_unregister_all(); fs::remove_all(dir, ec);
}
// NULL arguments and unknown VFS names are reported
static void copy_args_case(Rng &r, uint64_t) {
  MemFs a("mema"); a.reg(true); a.put("/s", r.bytes(100)); EvfsFile *f = nullptr; evfs_open_ex("/s", &f, EVFS_READ, "mema"); char b[10];
  VF_CHECK(evfs_copy_to_file_ex(nullptr, f, b, sizeof b, "mema") == EVFS_ERR_BAD_ARG, "copy:null", "a NULL path was accepted"); VF_CHECK(evfs_copy_to_file_ex("/d", nullptr, b, sizeof b, "mema") == EVFS_ERR_BAD_ARG, "copy:null", "a NULL handle was accepted");
  evfs_file_close(f); int rv = evfs_open_ex("/w", &f, EVFS_WRITE, "mema"); if (rv == EVFS_OK) { evfs_file_write(f, "abc", 3); rv = evfs_copy_to_file_ex("/x", f, b, sizeof b, "mema"); VF_CHECK(rv != EVFS_OK, "copy:writeonly", "copying from a handle that cannot be read returned success"); evfs_file_close(f); }
  vf_count("bad_arguments"); evfs_unregister_all();
}

// ---------------------------------------------------------------- C23
struct PathSpec { Str p; };
static Str mk_path(Rng &r) {
  static const char *SEG[] = {"a", "b", "dd", "file", "x.y", "new", "n2", "deep", ".", "..", "a b", "zzzz"}; static const char *SEP[] = {"/", "/", "/", "//", "\\", "/\\/", "///"};
  Str p; if (r.chance(2, 3)) p += SEP[r.below(7)]; int n = r.chance(1, 12) ? 0 : r.range(1, r.chance(1, 10) ? 25 : 6);
  for (int i = 0; i < n; i++) { if (i) p += SEP[r.below(7)]; p += r.chance(1, 20) ? Str(1 + r.below(60), 'L') : Str(SEG[r.below(12)]); } if (n && r.chance(1, 3)) p += SEP[r.below(7)]; return p;
}
static void mkpath_case(Rng &r, uint64_t) {
  MemFs m("mem"); m.dos_root = r.chance(1, 5); m.reg(true); m.mkdirs("/a/b/dd"); m.mkdirs("/dd/new"); m.put("/file", "f"); m.put("/a/file", "g"); m.put("/a/b/file", r.bytes(20)); if (r.chance(1, 2)) m.put("/b", "file b"); m.mkdirs("/j/a");
  Str v = "mem", root = ""; int layer = (int)r.below(5); if (layer == 1) { evfs_register_jail("jail", "mem", m.dos_root ? "C:/j" : "/j", false); v = "jail"; root = "/j"; m.put("/j/file", "in jail"); } if (layer == 2) { evfs_register_trace("tr", "mem", nosink, nullptr, false); v = "tr"; }
  for (int round = 0; round < 8 && !vf_case_failed(); round++) {
    if (r.chance(1, 4)) { Str c = r.pick(std::vector<Str>{"/", "/a", "/a/b", "/dd"}); if (!root.empty()) c = r.pick(std::vector<Str>{"/", "/a"}); evfs_set_cur_dir_ex(c.c_str(), v.c_str()); }
    Str cwd; { Guarded b(EVFS_MAX_PATH); StringRange g; range_init(&g, b.p, b.n); if (evfs_get_cur_dir_ex(&g, v.c_str()) == EVFS_OK) cwd = b.p; } if (m.dos_root && cwd.size() > 1 && cwd[1] == ':') cwd = cwd.substr(2);
    Str p = mk_path(r); Str pc = p; if (m.dos_root && r.chance(1, 2) && layer != 1) pc = "C:" + p; bool abs = !p.empty() && (p[0] == '/' || p[0] == '\\');
    // the directories meant by each prefix of the path
    std::vector<Str> prefixes; { std::vector<Str> cur; if (!abs) cur = vf_split(cwd); for (auto &s : vf_split(p)) { if (s == "..") { if (!cur.empty()) cur.pop_back(); } else if (s != ".") cur.push_back(s); prefixes.push_back(root + vf_join(cur)); } }
    std::map<Str, bool> before, after; auto scan = [&](std::map<Str, bool> &o) { std::function<void(const MemP &, const Str &)> w = [&](const MemP &n, const Str &q) { for (auto &k : n->kids) { o[q + "/" + k.first] = k.second->dir; if (k.second->dir) w(k.second, q + "/" + k.first); } }; w(m.root, ""); };
    auto norm = [](Str q) { while (q.size() > 1 && q.back() == '/') q.pop_back(); return q == "/" ? Str() : q; };
    scan(before); Str dump0 = m.dump(); bool blocked = false; { std::map<Str, bool> sim = before; for (auto &q : prefixes) { Str k = norm(q); if (k.empty()) continue; auto i = sim.find(k); if (i == sim.end()) sim[k] = true; else if (!i->second) { blocked = true; break; } } }
    bool longp = pc.size() + root.size() + cwd.size() + 4 >= EVFS_MAX_PATH && layer == 1;
    bool fault = r.chance(1, 4); int code = r.pick(std::vector<int>{EVFS_ERR_IO, EVFS_ERR_AUTH, EVFS_ERR_FS_FULL, EVFS_ERR_CORRUPTION, EVFS_ERR_NO_PATH, EVFS_ERR_EXISTS, EVFS_ERR}); if (fault) { m.fault_only = r.pick(std::vector<Str>{"stat", "mkdir", ""}); m.arm((long)(1 + r.below(prefixes.size() * 2 + 1)), code); }
    int mode = (int)r.below(4); int rv; Str extra = r.pick(std::vector<Str>{"/file.txt", "x", "/more/and/more", "", "/", "\\q"}); vf_note("make_path %s mode %d cwd %s layer %d fault %s at %ld %s", vf_q(pc).c_str(), mode, vf_q(cwd).c_str(), layer, m.fault_only.c_str(), fault ? m.fault_at : 0, ev_err(code)); if (vf_want_sample()) vf_sample(vf_trace());
    vfalloc::start();
    if (mode == 0) { Guarded b(pc.size() + 1); memcpy(b.p, pc.c_str(), pc.size() + 1); rv = evfs_make_path_ex(b.p, v.c_str()); VF_CHECK(memcmp(b.p, pc.c_str(), pc.size() + 1) == 0 && b.intact(), "mkpath:modified", "the path was modified"); }
    else if (mode == 1) { Guarded b(pc.size()); memcpy(b.p, pc.data(), pc.size()); StringRange g; range_init(&g, b.p, b.n); StringRange g0 = g; rv = evfs_make_path_range_ex(&g, v.c_str()); VF_CHECK(memcmp(b.p, pc.data(), pc.size()) == 0 && b.intact() && g.start == g0.start && g.end == g0.end, "mkpath:modified", "the range or its text was modified"); vf_count("exact_ranges"); }
    else if (mode == 2) { Str w = pc + extra; Guarded b(w.size() + 1); memcpy(b.p, w.c_str(), w.size() + 1); StringRange g; range_init(&g, b.p, pc.size()); rv = v == "mem" && r.chance(1, 2) ? evfs_make_path_range(&g) : evfs_make_path_range_ex(&g, v.c_str()); VF_CHECK(memcmp(b.p, w.c_str(), w.size() + 1) == 0 && b.intact() && range_size(&g) == (ptrdiff_t)pc.size() && g.start == b.p, "mkpath:modified", "the range or its text was modified"); vf_count("substrings"); }
    else { // a buffer larger than its text
      size_t n = pc.size() + 1 + r.below(40); Guarded b(n, 'Q'); memcpy(b.p, pc.c_str(), pc.size() + 1); StringRange g; range_init(&g, b.p, n); rv = evfs_make_path_range_ex(&g, v.c_str()); VF_CHECK(memcmp(b.p, pc.c_str(), pc.size() + 1) == 0 && b.intact() && range_size(&g) == (ptrdiff_t)n, "mkpath:modified", "the range or its text was modified"); for (size_t i = pc.size() + 1; i < n; i++) VF_CHECK(b.p[i] == 'Q', "mkpath:modified", "the buffer behind the path was modified"); vf_count("large_ranges"); }
    long live = vfalloc::stop(); bool hit = fault && m.fault_hit; m.disarm(); m.fault_only.clear(); m.fault_hit = false; VF_CHECK(live == 0, "mkpath:leak", "%ld allocations left", live); vf_count("make_paths");
    scan(after); bool all = true; for (auto &q : prefixes) { Str k = norm(q); if (!k.empty() && !(after.count(k) && after[k])) all = false; }
    std::set<Str> ps; for (auto &q : prefixes) ps.insert(norm(q));
    for (auto &x : after) if (!before.count(x.first)) VF_CHECK(x.second && ps.count(x.first), "mkpath:extra", "created %s", vf_q(x.first).c_str()); else VF_CHECK(before[x.first] == x.second, "mkpath:replaced", "%s was replaced", vf_q(x.first).c_str());
    for (auto &x : before) VF_CHECK(after.count(x.first), "mkpath:removed", "%s was removed", vf_q(x.first).c_str()); if (after == before) VF_CHECK(m.dump() == dump0, "mkpath:contents", "contents changed");
    VF_CHECK(rv <= 0, "mkpath:status", "returned %d", rv);
    if (rv == EVFS_OK) VF_CHECK(all, "mkpath:incomplete", "make_path %s returned success, but not every part of it is a directory", vf_q(pc).c_str()); else if (!hit && !blocked && !longp) vf_violation("mkpath:refused", "make_path %s in %s returned %s although nothing is in the way", vf_q(pc).c_str(), vf_q(cwd).c_str(), ev_err(rv));
    if (blocked) { VF_CHECK(rv != EVFS_OK, "mkpath:blocked", "a part of %s is not a directory, make_path returned success", vf_q(pc).c_str()); vf_count("blocked"); } if (hit) { vf_count("faults_hit"); VF_CHECK(rv != EVFS_OK || (all && code == EVFS_ERR_EXISTS), "mkpath:fault", "%s failed with %s, make_path returned success", m.fault_op.c_str(), ev_err(code)); }
    if (rv == EVFS_OK && after.size() > before.size()) vf_count("created"); vf_seen(vf_hash(vf_fmt("%s %s %d %d", p.c_str(), cwd.c_str(), rv, mode)));
  }
  evfs_unregister_all();
}
static void mkpath_host_case(Rng &r, uint64_t) {
  Str dir = vf_scratch + "/mp"; std::error_code ec; fs::remove_all(dir, ec); fs::create_directories(dir + "/a/b/dd"); fs::create_directories(dir + "/dd"); hwrite(dir + "/file", "f"); hwrite(dir + "/a/file", "g"); evfs_register_stdio(true); bool ro = false;
  for (auto n : {"new", "n2", "deep"}) if (r.chance(1, 6)) { Str l = dir + (r.chance(1, 2) ? "/" : "/a/") + n; if (symlink("nowhere", l.c_str()) == 0) vf_note("%s is a dangling link", l.c_str()); vf_count("links"); }
  for (int round = 0; round < 5 && !vf_case_failed(); round++) {
    Str p = mk_path(r); Str q; int depth = 0; bool skip = false; for (auto &s : vf_split(p)) { if (s == "..") { if (--depth < 0) skip = true; } else if (s != ".") depth++; } for (auto &c : p) if (c == '\\') c = '/'; if (skip) continue; (void)q;
    Str full = dir + "/" + p; bool all = true, blocked = false; Str cur = dir; std::set<Str> pre; struct stat st; for (auto &s : vf_split(p)) { cur += "/" + s; pre.insert(fs::path(cur).lexically_normal().string()); }
    std::set<Str> before; for (auto &e : fs::recursive_directory_iterator(dir)) before.insert(e.path().string() + (e.is_directory() ? "/" : ""));
    { Str c = dir; for (auto &s : vf_split(p)) { c += "/" + s; Str n = fs::path(c).lexically_normal().string(); if (n.size() > 1 && n.back() == '/') n.pop_back(); if (stat(n.c_str(), &st) == 0 ? !S_ISDIR(st.st_mode) : lstat(n.c_str(), &st) == 0) blocked = true; if (s.size() > 255) blocked = true; } }
    StringRange g; range_init(&g, (char *)full.data(), full.size()); int rv = evfs_make_path_range_ex(&g, "stdio"); vf_note("make_path %s", vf_q(full).c_str()); vf_count("host_make_paths");
    cur = dir; for (auto &s : vf_split(p)) { cur += "/" + s; if (stat(cur.c_str(), &st) || !S_ISDIR(st.st_mode)) all = false; }
    for (auto &e : fs::recursive_directory_iterator(dir)) { Str n = e.path().string(); if (!before.count(n + (e.is_directory() ? "/" : ""))) { bool ok = false; for (auto x : pre) { if (x.size() > 1 && x.back() == '/') x.pop_back(); if (x == n) ok = true; } VF_CHECK(ok && e.is_directory(), "mkpath-host:extra", "created %s", vf_q(n).c_str()); } else before.erase(n + (e.is_directory() ? "/" : "")); }
    VF_CHECK(before.empty(), "mkpath-host:removed", "%s is gone", before.empty() ? "" : before.begin()->c_str()); VF_CHECK(all == (rv == EVFS_OK), "mkpath-host:status", "make_path %s returned %s, every part is a directory: %d", vf_q(full).c_str(), ev_err(rv), all); if (!blocked) VF_CHECK(rv == EVFS_OK, "mkpath-host:refused", "make_path %s returned %s", vf_q(full).c_str(), ev_err(rv)); vf_seen(vf_hash(full.substr(dir.size()) + vf_fmt("%d", rv)));
  }
  (void)ro; evfs_unregister_all(); fs::remove_all(dir, ec);
}

// ---------------------------------------------------------------- C28
static void printf_case(Rng &r, uint64_t) {
  Str dir = vf_scratch + "/pf"; std::error_code ec; fs::create_directories(dir); MemFs m("mem"); m.buffered = r.chance(1, 4); m.reg(true); evfs_register_stdio(false); evfs_register_trace("tr", "mem", nosink, nullptr, false);
  Str v = r.pick(std::vector<Str>{"mem", "mem", "tr", "stdio"}); Str path = v == "stdio" ? dir + "/f" : "/f"; EvfsFile *f = nullptr; int fl = r.chance(1, 3) ? (EVFS_WRITE | EVFS_APPEND) : (EVFS_WRITE | EVFS_OVERWRITE); if (v == "stdio") fs::remove(path, ec);
  int rv = evfs_open_ex(path.c_str(), &f, fl, v.c_str()); VF_CHECK(rv == EVFS_OK, "printf:open", "open returned %s", ev_err(rv)); if (rv) { evfs_unregister_all(); return; }
  Str want; char *ref = nullptr; int n = 0;
#define P(...) do { n = asprintf(&ref, __VA_ARGS__); got = evfs_file_printf(f, __VA_ARGS__); what = #__VA_ARGS__; } while (0)
  int steps = r.range(1, 20); for (int i = 0; i < steps && !vf_case_failed(); i++) {
    Str s = r.chance(1, 12) ? Str(r.below(r.chance(1, 4) ? 120000 : 5000), (char)('a' + r.below(26))) : r.bytes(r.below(60)); for (auto &c : s) if (!c) c = 'z'; Str pct = s; for (size_t k = 0; k < pct.size(); k += 7) pct[k] = '%'; int d = (int)r.next(); if (r.chance(1, 2)) d %= 1000; long long L = (long long)r.next(); double x = (double)(long long)r.next() / (double)(1 + r.below(1000000)); int w = (int)r.below(r.chance(1, 10) ? 3000 : 30), pr = (int)r.below(20); int cut = (int)r.below(s.size() + 3); long got = 0; const char *what = ""; ref = nullptr; n = 0; bool puts_ = false;
    bool fault = r.chance(1, 12) && v != "stdio"; bool shrt = r.chance(1, 2); if (fault) { m.fault_only = "write"; m.arm(1, EVFS_ERR_IO, shrt); }
    vf_note("step %d %zu", i, s.size()); vfalloc::start();
    switch (r.below(22)) {
    case 0: P("%s", s.c_str()); break; case 1: P("%d", d); break; case 2: P("%*d|%-*d|%0*d", w, d, w, d, w, d); break; case 3: P("%.*s", cut, s.c_str()); break;
    case 4: P("%lld %llx %#llo", L, L, L); break; case 5: P("%f %e %g %a", x, x, x, x); break; case 6: P("%.*f", pr, x); break; case 7: P("%c%c", (int)(d & 0x7f), 'x'); break; case 8: P("%%"); break; case 9: { static const char *volatile EMPTY = ""; const char *e = EMPTY; n = asprintf(&ref, "%s", ""); got = evfs_file_printf(f, e); what = "\"\""; break; }
    case 10: P("%s%s", s.c_str(), s.c_str()); break; case 11: P("%p %zu %td", (void *)&m, s.size(), (ptrdiff_t)d); break; case 12: P("%2$s %1$d", d, s.c_str()); break; case 13: P("%-20s|%20s|%.3s", s.c_str(), "right", "truncated"); break; case 14: P("%hhd %hd %ld %jd", d, d, (long)d, (intmax_t)L); break;
    case 15: P("%s=%d\n%s\t%x", "key", d, s.c_str(), (unsigned)d); break; case 16: P("a%cb%s", 0, "after"); break; case 17: P("%+d % d %#x %05.1f", d, d, (unsigned)d, x); break; case 18: P("%u %i %X %o %lu", (unsigned)d, d, (unsigned)d, (unsigned)d, (unsigned long)L); break;
    case 19: puts_ = true; got = evfs_file_puts(f, pct.c_str()); n = (int)pct.size(); ref = strdup(pct.c_str()); what = "puts"; vf_count("puts"); break; case 20: puts_ = true; got = evfs_file_puts(f, ""); n = 0; ref = strdup(""); what = "puts empty"; break;
    default: { bool over = r.chance(1, 2); int big = over ? 70000 + (int)r.below(60000) : 0; P("%*s%n", big, "x", &w); break; }
    }
    long live = vfalloc::stop(); (void)puts_; VF_CHECK(live == 0, "printf:leak", "%ld allocations left by %s", live, what); bool hit = fault && m.fault_hit && n > 0; bool full = fault && m.fault_hit; m.disarm(); m.fault_only.clear(); m.fault_hit = false; Str text(ref ? ref : "", (size_t)std::max(n, 0)); free(ref); vf_count("prints"); if (text.size() > 4096) vf_count("long_texts"); if (memchr(text.data(), 0, text.size())) vf_count("embedded_nul");
    if (full && (hit || got < 0)) { vf_count("faults_hit"); if (shrt) { VF_CHECK(got == (long)(text.size() / 2), "printf:short", "%s wrote %zu bytes of %zu and returned %ld", what, text.size() / 2, text.size(), got); if (got > 0) want += text.substr(0, (size_t)got); } else VF_CHECK(got < 0, "printf:fault", "%s: the write failed, returned %ld", what, got); }
    else { VF_CHECK(got == (long)text.size(), "printf:count", "%s returned %ld, its text has %zu bytes", what, got, text.size()); want += text; }
    vf_seen(vf_hash(text.substr(0, 100) + what));
  }
  rv = evfs_file_close(f); VF_CHECK(rv == EVFS_OK, "printf:close", "close returned %s", ev_err(rv)); Str got; if (v == "stdio") hread(path, &got); else got = m.at("/f") ? m.at("/f")->data : ""; size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++; VF_CHECK(got == want, "printf:text", "the file holds %zu bytes instead of %zu, first difference at %zu", got.size(), want.size(), k); evfs_unregister_all();
}
static const struct { int v; const char *n; } ERRS[] = {{1, "EVFS_DONE"}, {0, "EVFS_OK"}, {-1, "EVFS_ERR"}, {-2, "EVFS_ERR_NO_SUPPORT"}, {-3, "EVFS_ERR_NO_VFS"}, {-4, "EVFS_ERR_IO"}, {-5, "EVFS_ERR_CORRUPTION"}, {-6, "EVFS_ERR_NO_FILE"}, {-7, "EVFS_ERR_EXISTS"}, {-8, "EVFS_ERR_NO_PATH"}, {-9, "EVFS_ERR_IS_DIR"}, {-10, "EVFS_ERR_NOT_EMPTY"}, {-11, "EVFS_ERR_OVERFLOW"}, {-12, "EVFS_ERR_BAD_ARG"}, {-13, "EVFS_ERR_FS_FULL"}, {-14, "EVFS_ERR_ALLOC"}, {-15, "EVFS_ERR_TOO_LONG"}, {-16, "EVFS_ERR_AUTH"}, {-17, "EVFS_ERR_BAD_NAME"}, {-18, "EVFS_ERR_INIT"}, {-19, "EVFS_ERR_DISABLED"}, {-20, "EVFS_ERR_INVALID"}, {-21, "EVFS_ERR_REPAIRED"}, {-22, "EVFS_ERR_NOT_OPEN"}};
#define CMD(n, m) (((n) << 2) | (m))
static const struct { int v; const char *n; } CMDS[] = {{CMD(10, 2), "EVFS_CMD_UNREGISTER"}, {CMD(11, 2), "EVFS_CMD_SET_READONLY"}, {CMD(12, 2), "EVFS_CMD_SET_NO_DIR_DOTS"}, {CMD(13, 1), "EVFS_CMD_GET_STAT_FIELDS"}, {CMD(14, 1), "EVFS_CMD_GET_DIR_FIELDS"}, {CMD(101, 2), "EVFS_CMD_SET_ROTATE_CFG"}, {CMD(201, 2), "EVFS_CMD_SET_ROTATE_TRIM"}, {CMD(202, 1), "EVFS_CMD_GET_RSRC_ADDR"}};
static void names_case(Rng &r, uint64_t idx) {
  for (int i = 0; i < 2000; i++) {
    int c = idx == 0 ? i - 1000 : r.chance(1, 2) ? (int)r.next() : r.range(-300, 3000); const char *e = evfs_err_name(c), *k = evfs_cmd_name(c); const char *we = "<unknown>", *wk = "<unknown>"; for (auto &x : ERRS) if (x.v == c) we = x.n; for (auto &x : CMDS) if (x.v == c) wk = x.n;
    VF_CHECK(e && (!strcmp(e, we) || (we[0] == '<' && !strncmp(e, "EVFS_", 5))), "names:err", "status %d is named %s, expected %s", c, e ? e : "NULL", we); VF_CHECK(k && (!strcmp(k, wk) || (wk[0] == '<' && !strncmp(k, "EVFS_CMD_", 9))), "names:cmd", "command %d is named %s, expected %s", c, k ? k : "NULL", wk); vf_eval(2); vf_count("names", 2); if (vf_case_failed()) return;
  }
  if (idx == 0) { std::map<Str, int> seen; for (int c = -70000; c < 70000; c++) for (const char *n : {evfs_err_name(c), evfs_cmd_name(c)}) if (n[0] != '<') { auto it = seen.find(n); VF_CHECK(it == seen.end() || it->second == c, "names:shared", "%s names both %d and %d", n, it->second, c); seen[n] = c; vf_seen(vf_hash(n)); } }
}
void vf_setup() {
  vf_drop_privs(); umask(022); evfs_init();
  vf_suite("copy", 12000, 600000, copy_case);
  vf_suite("copy_args", 20, 100, copy_args_case);
  vf_suite("mkpath", 16000, 800000, mkpath_case);
  vf_suite("mkpath_host", 2000, 60000, mkpath_host_case);
  vf_suite("printf", 12000, 600000, printf_case);
  vf_suite("names", 40, 4000, names_case);
}
