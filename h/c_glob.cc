// C19: glob matching and filtered directory reads.
#include "images.h"
#include <filesystem>
#include <sys/stat.h>
#include <bitset>
extern "C" {
#include "evfs/util/glob.h"
#include "evfs/stdio_fs.h"
#include "evfs/romfs_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
}
namespace fs = std::filesystem;
static int nosink(const char *, void *) { return 0; }
struct Tok { char k; unsigned char c; std::bitset<256> set; };
struct Pat { std::vector<Tok> t; bool malformed = false; };
static Pat parse(const Str &p) {
  Pat o; for (size_t i = 0; i < p.size();) {
    Tok k; k.c = (unsigned char)p[i]; if (p[i] == '*') { k.k = '*'; i++; } else if (p[i] == '?') { k.k = '?'; i++; }
    else if (p[i] == '[') {
      k.k = '['; i++; bool inv = false; if (i < p.size() && p[i] == '!') { inv = true; i++; }
      while (i < p.size() && p[i] != ']') { unsigned char a = (unsigned char)p[i]; if (i + 1 < p.size() && p[i + 1] == '-') { if (i + 2 >= p.size() || p[i + 2] == ']') { o.malformed = true; return o; } for (int c = a; c <= (unsigned char)p[i + 2]; c++) k.set.set((size_t)c); i += 3; } else { k.set.set(a); i++; } }
      if (i >= p.size()) { o.malformed = true; return o; } i++; if (inv) k.set.flip();
    } else { k.k = 'c'; i++; }
    o.t.push_back(k);
  }
  return o;
}
static bool ref(const Pat &p, const Str &s, const Str &seps) {
  size_t n = p.t.size(), m = s.size(); std::vector<char> cur(m + 1, 0), nx(m + 1); cur[0] = 1;
  for (size_t i = 0; i < n; i++) { std::fill(nx.begin(), nx.end(), 0); const Tok &t = p.t[i];
    for (size_t j = 0; j <= m; j++) { bool sep = j < m && seps.find(s[j]) != Str::npos; if (t.k == '*') { if (cur[j]) nx[j] = 1; if (nx[j] && j < m && !sep) nx[j + 1] = 1; } else if (cur[j] && j < m) { unsigned char c = (unsigned char)s[j]; bool ok = t.k == '?' ? !sep : t.k == '[' ? t.set[c] : c == t.c; if (ok) nx[j + 1] = 1; } }
    cur.swap(nx); }
  return cur[m];
}
// a set that can match a separator, with two stars, on a name with separators: not judged (see DESIGN.md)
static bool judged(const Pat &p, const Str &s, const Str &seps) { int stars = 0; bool sepset = false, named = false; for (auto &t : p.t) { if (t.k == '*') stars++; if (t.k == '[') for (char c : seps) if (t.set[(unsigned char)c]) sepset = true; } for (char c : s) if (seps.find(c) != Str::npos) named = true; return !(stars > 1 && sepset && named); }
static void one(const Str &p, const Str &s, const Str &seps, bool guard) {
  bool got; if (guard) { Guarded a(p.size() + 1), b(s.size() + 1); memcpy(a.p, p.c_str(), p.size() + 1); memcpy(b.p, s.c_str(), s.size() + 1); got = glob_match(a.p, b.p, seps.c_str()); VF_CHECK(!memcmp(a.p, p.c_str(), p.size() + 1) && !memcmp(b.p, s.c_str(), s.size() + 1) && a.intact() && b.intact(), "glob:modified", "a string was modified"); } else got = glob_match(p.c_str(), s.c_str(), seps.c_str());
  vf_count("matches"); Pat q = parse(p); if (q.malformed) { vf_count("malformed"); return; } if (!judged(q, s, seps)) { vf_count("not_judged"); return; }
  bool want = ref(q, s, seps); vf_count(want ? "matching" : "not_matching"); VF_CHECK(got == want, "glob:wrong", "pattern %s, name %s, separators %s: %s, the rules say %s", vf_q(p).c_str(), vf_q(s).c_str(), vf_q(seps).c_str(), got ? "match" : "no match", want ? "match" : "no match");
}
static Str gen_pat(Rng &r, int maxn) { static const Str A = "aabbc***??/\\-!xz."; Str p; int n = r.range(0, maxn); for (int i = 0; i < n; i++) { switch (r.below(12)) { case 0: { p += "["; if (r.chance(1, 3)) p += "!"; int k = r.range(0, 4); for (int j = 0; j < k; j++) { char a = r.chance(1, 8) ? (char)(1 + r.below(255)) : "abcxyz/-!0"[r.below(10)]; p += a; if (r.chance(1, 3)) { p += "-"; p += r.chance(1, 6) ? (char)(128 + r.below(128)) : "abcxyz~"[r.below(7)]; } } if (!r.chance(1, 12)) p += "]"; break; } case 1: p += (char)(1 + r.below(255)); break; default: p += A[r.below(A.size())]; } } return p; }
static Str gen_name(Rng &r, const Str &p, int maxn) { // names near the pattern
  Str s; if (r.chance(2, 3)) { Pat q = parse(p); for (auto &t : q.t) { if (r.chance(1, maxn > 1000 ? 3000 : 15)) continue; if (t.k == '*') { int n = (int)r.below(4); for (int i = 0; i < n; i++) s += "abc/x."[r.below(6)]; } else if (t.k == '?') s += "ab/c"[r.below(4)]; else if (t.k == '[') { for (int i = 0; i < 40; i++) { unsigned c = i < 20 ? (unsigned)"abcxyz0-/"[r.below(9)] : 1 + (unsigned)r.below(255); if (t.set[c] || i == 39) { s += (char)c; break; } } } else s += (char)t.c; if (r.chance(1, maxn > 1000 ? 3000 : 25)) s += (char)(1 + r.below(255)); } }
  else { int n = r.range(0, maxn); for (int i = 0; i < n; i++) s += r.chance(1, 10) ? (char)(1 + r.below(255)) : "abcx/\\.z-"[r.below(9)]; } return s; }
static void glob_random(Rng &r, uint64_t) {
  for (int i = 0; i < 60 && !vf_case_failed(); i++) { bool lg = r.chance(1, 1500); if (lg) vf_count("long_texts"); Str p = gen_pat(r, lg ? 700 : r.chance(1, 10) ? 60 : 8); Str seps = r.pick(std::vector<Str>{"/\\", "/\\", "/", "", "ab"}); for (int j = 0; j < 4; j++) { Str s = gen_name(r, p, lg ? 1500 : 12); vf_note("%s on %s", vf_q(p).c_str(), vf_q(s).c_str()); if (vf_want_sample()) vf_sample(vf_q(p) + " on " + vf_q(s)); one(p, s, seps, true); vf_eval(); } vf_seen(vf_hash(p)); }
  Str ig = gen_pat(r, 6); VF_CHECK(is_glob(ig.c_str()) == (ig.find_first_of("*?[") != Str::npos), "glob:is_glob", "is_glob(%s)", vf_q(ig).c_str());
  char c = (char)(1 + r.below(255)); VF_CHECK(char_match(c, ig.c_str()) == (ig.find(c) != Str::npos), "glob:char_match", "char_match(0x%02x, %s)", (unsigned char)c, vf_q(ig).c_str());
}
static void glob_exhaustive(Rng &, uint64_t idx) { // case = first two pattern characters
  static const Str A = "ab*?/[]!-", B = "ab/-"; int plen = vf_thorough ? 5 : 4; std::vector<Str> names = {""}; for (size_t i = 0, e; i < names.size() && names[i].size() < (vf_thorough ? 5u : 4u); i++) { e = names.size(); (void)e; for (char c : B) names.push_back(names[i] + c); }
  Str pre; if (idx < 81) { pre = Str(1, A[idx / 9]) + A[idx % 9]; } else pre = idx - 81 < 9 ? Str(1, A[idx - 81]) : ""; bool just = idx >= 81; std::vector<Str> ps = {pre}; if (!just) for (size_t i = 0; i < ps.size() && ps[i].size() < (size_t)plen; i++) for (char c : A) ps.push_back(ps[i] + c);
  for (auto &p : ps) { for (auto &s : names) one(p, s, "/", false); vf_seen(vf_hash(p)); if (vf_case_failed()) return; } vf_eval(ps.size() * names.size());
}
static void glob_long(Rng &r, uint64_t) { // many stars and long names finish
  Str unit = r.pick(std::vector<Str>{"a*", "*a", "*?", "[ab]*", "a*b*", "*[!c]"}); Str p; int n = r.range(5, 60); for (int i = 0; i < n; i++) p += unit; p += r.pick(std::vector<Str>{"", "c", "*", "b"}); Str s; int m = r.range(50, 900); for (int i = 0; i < m; i++) s += r.chance(1, 40) ? 'b' : 'a'; vf_note("%s on %d chars", vf_q(p).c_str(), m); one(p, s, "/", true); vf_count("long"); vf_seen(vf_hash(p + s));
}
// ---- evfs_dir_find
static void find_case(Rng &r, uint64_t) {
  Str dir = vf_scratch + "/gl"; std::error_code ec; MemFs m("mem"); m.no_dots = r.chance(2, 3); m.reg(true); Str v = "mem", path = "/d"; m.mkdirs("/d"); int kind = (int)r.below(5); std::vector<Str> names; int n = (int)r.below(r.chance(1, 6) ? 60 : 12);
  for (int i = 0; i < n; i++) { Str s; int k = r.range(1, r.chance(1, 10) ? 40 : 5); for (int j = 0; j < k; j++) s += r.chance(1, 12) && kind != 4 ? (char)(1 + r.below(255)) : "abcx.z-[]*"[r.below(10)]; for (auto &c : s) if (c == '/' || c == '\\') c = '_'; if (s == "." || s == ".." || std::find(names.begin(), names.end(), s) != names.end()) continue; names.push_back(s); }
  if (kind == 4) { fs::remove_all(dir, ec); fs::create_directories(dir); evfs_register_stdio(false); v = "stdio"; path = dir; unsigned nd = r.chance(1, 2); evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &nd, "stdio"); }
  for (auto &s : names) { if (kind == 4) { if (r.chance(1, 4)) fs::create_directory(dir + "/" + s); else { FILE *f = fopen((dir + "/" + s).c_str(), "w"); if (f) fclose(f); } } else if (r.chance(1, 4)) m.mkdirs("/d/" + s); else m.put("/d/" + s, r.bytes(r.below(20))); }
  if (kind == 1) { evfs_register_jail("jail", "mem", "/d", false); v = "jail"; path = "/"; } if (kind == 2) { evfs_register_trace("tr", "mem", nosink, nullptr, false); v = "tr"; }
  std::vector<Str> all; std::vector<EvfsInfo> infos; int rv = ev_list(path.c_str(), v.c_str(), &all, &infos); VF_CHECK(rv == EVFS_OK, "find:list", "listing returned %s", ev_err(rv)); EvfsDir *d = nullptr; rv = evfs_open_dir_ex(path.c_str(), &d, v.c_str()); VF_CHECK(rv == EVFS_OK, "find:open", "open_dir returned %s", ev_err(rv)); if (rv) { evfs_unregister_all(); return; }
  for (int round = 0; round < 5 && !vf_case_failed(); round++) {
    Str p = r.chance(1, 4) && !all.empty() ? r.pick(all) : r.chance(1, 3) ? r.pick(std::vector<Str>{"*", "?*", "*.*", "[!.]*", "?", "a*", "*a", "*a*", ".*", "??"}) : gen_pat(r, 4); Pat q = parse(p); bool change = r.chance(1, 6); if (!q.malformed && r.chance(1, 2)) for (int i = 0; i < 5 && !q.malformed; i++) { bool any = false; for (auto &s : all) any |= ref(q, s, "/\\"); if (any) break; p = gen_pat(r, 4); q = parse(p); }
    vf_note("find %s among %zu", vf_q(p).c_str(), all.size()); if (vf_want_sample()) vf_sample(vf_trace()); size_t pos = 0; bool done = false; long fault = v != "stdio" && r.chance(1, 5) ? (long)(1 + r.below(all.size() + 1)) : 0; if (fault) { m.fault_only = "dread"; m.arm(fault, EVFS_ERR_IO); }
    if (q.malformed) { EvfsInfo i; while ((rv = evfs_dir_find(d, p.c_str(), &i)) == EVFS_OK) vf_count("malformed_found"); m.disarm(); m.fault_only.clear(); m.fault_hit = false; evfs_dir_rewind(d); continue; }
    for (int guard = 0; guard < 1000 && !done && !vf_case_failed(); guard++) {
      EvfsInfo i; memset(&i, 0x5A, sizeof i); if (change && r.chance(1, 5)) { // plain reads in between
        bool willfault = fault && m.nops + 1 == fault; rv = evfs_dir_read(d, &i); if (willfault) { VF_CHECK(rv < 0, "find:fault", "a failing read returned %d", rv); continue; } if (pos < all.size()) { VF_CHECK(rv == EVFS_OK && i.name && all[pos] == i.name, "find:order", "dir_read gave %s %s, expected %s", ev_err(rv), rv == EVFS_OK ? vf_q(i.name).c_str() : "", vf_q(all[pos]).c_str()); pos++; } else VF_CHECK(rv == EVFS_DONE, "find:end", "dir_read after the last entry returned %s", ev_err(rv)); vf_count("mixed_reads"); continue; }
      size_t want = pos; long reads = 0; bool ferr = false; long base = m.nops; while (true) { reads++; if (fault && base + reads == fault) { ferr = true; break; } if (want >= all.size()) break; if (ref(q, all[want], "/\\")) break; want++; }
      rv = evfs_dir_find(d, p.c_str(), &i); vf_count("finds");
      if (ferr) { VF_CHECK(rv < 0, "find:fault", "a failing read was reported as %s", ev_err(rv)); vf_count("faults_hit"); pos = want; continue; }
      if (want >= all.size()) { VF_CHECK(rv == EVFS_DONE, "find:done", "pattern %s: no entry is left, returned %s %s", vf_q(p).c_str(), ev_err(rv), rv == EVFS_OK ? vf_q(i.name).c_str() : ""); vf_count("completed"); done = true; rv = evfs_dir_find(d, p.c_str(), &i); VF_CHECK(rv == EVFS_DONE, "find:done", "after completion returned %s", ev_err(rv)); }
      else { VF_CHECK(rv == EVFS_OK, "find:missed", "pattern %s: returned %s, expected %s", vf_q(p).c_str(), ev_err(rv), vf_q(all[want]).c_str()); if (rv == EVFS_OK) { VF_CHECK(i.name && all[want] == i.name && i.type == infos[want].type && i.size == infos[want].size, "find:entry", "pattern %s: gave %s type %d size %ld, expected %s type %d size %ld", vf_q(p).c_str(), vf_q(i.name).c_str(), i.type, (long)i.size, vf_q(all[want]).c_str(), infos[want].type, (long)infos[want].size); vf_count("found"); vf_seen(vf_hash(p + "|" + all[want])); } pos = want + 1; }
      if (change && r.chance(1, 12)) { rv = evfs_dir_rewind(d); VF_CHECK(rv == EVFS_OK, "find:rewind", "rewind returned %s", ev_err(rv)); pos = 0; change = false; }
    }
    m.disarm(); m.fault_only.clear(); m.fault_hit = false; evfs_dir_rewind(d);
  }
  evfs_dir_close(d); evfs_unregister_all(); if (kind == 4) fs::remove_all(dir, ec);
}
void vf_setup() {
  vf_drop_privs(); umask(022); evfs_init();
  vf_suite("glob", 12000, 1000000, glob_random);
  vf_suite("glob_exhaustive", 91, 91, glob_exhaustive);
  vf_suite("glob_long", 400, 20000, glob_long);
  vf_suite("find", 8000, 400000, find_case);
}
