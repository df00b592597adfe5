// C25 and C26: the same scenario with and without failing allocations, or failing operations of the VFS below.
#include "stack.h"
struct Run { std::vector<Str> res; Str fin, dump; };
static Str dump_of(Stack &s) { return s.kind == K_MEM || s.kind == K_JAIL || s.kind == K_TRACE || s.kind == K_ROTATE || s.kind == K_DEEP ? s.base->dump() : Str(); }
static bool is_err(const Str &s) { return !s.empty() && s[0] == 'E'; }
// Builds a scenario and its undisturbed results
static void baseline(int kind, Rng &r, int n, std::vector<SOp> &ops, Run &base) {
  Stack s(kind); for (int i = 0; i < n; i++) { SOp o = i == 0 ? SOp() : s.gen(r); vf_note("%s", o.show().c_str()); ops.push_back(o); base.res.push_back(s.run(o)); } s.close_all(); if (!s.mounted) { s.mount(); } SOp w; w.k = S_WALK; base.fin = s.run(w); s.unmount(); base.dump = dump_of(s);
}
// What a writing operation that was cut short still has to write
static Str text_of(const SOp &o) { if (o.k == S_PRINTF) return vf_fmt("%s-%ld-%s\n", o.q.c_str(), o.a, o.data.c_str()); return o.data; }
static bool cut_short(Stack &s, const SOp &o, const Str &got, const Str &base, const char *key, const Str &who) {
  if ((o.k != S_WRITE && o.k != S_PRINTF && o.k != S_PUTS) || is_err(got) || is_err(base) || atol(got.c_str()) >= atol(base.c_str())) return false; Str t = text_of(o).substr((size_t)atol(got.c_str())); long rv = evfs_file_write(s.f[(size_t)o.slot], t.data(), t.size());
  vf_count("completed"); VF_CHECK(rv + atol(got.c_str()) == atol(base.c_str()), Str(key) + ":complete", "%s returned %s of %s; writing the rest returned %ld", who.c_str(), got.c_str(), base.c_str(), rv); return true;
}
// A read that returned fewer bytes than it otherwise does: the rest must follow
static bool read_rest(Stack &s, const SOp &o, const Str &got, const Str &base, const char *key, const Str &who) {
  if (o.k != S_READ || is_err(got) || is_err(base) || atol(got.c_str()) >= atol(base.c_str()) || atol(got.c_str()) <= 0) return false; SOp p = o; p.a = o.a - atol(got.c_str()); Str rest = s.run(p), all = got.substr(got.find(':') + 1) + (is_err(rest) || rest == "0" ? Str() : rest.substr(rest.find(':') + 1));
  vf_count("short_counts"); VF_CHECK(base.substr(base.find(':') + 1) == all, Str(key) + ":rest", "%s returned %s; reading on returned %s, normally %s", who.c_str(), vf_q(got, 60).c_str(), vf_q(rest, 60).c_str(), vf_q(base, 60).c_str()); return true;
}
static void finish(Stack &s, const Run &base, const char *key) {
  s.close_all(); if (!s.mounted) s.mount(); SOp w; w.k = S_WALK; Str fin = s.run(w); VF_CHECK(fin == base.fin, Str(key) + ":final", "%s: at the end there is %s, without failures %s", KNAMES[s.kind], vf_q(fin).c_str(), vf_q(base.fin).c_str()); s.unmount(); long l = vfalloc::stop(); if (!vf_case_failed()) VF_CHECK(l == 0, Str(key) + ":leak", "%s: %ld live: %s", KNAMES[s.kind], l, vfalloc::describe_live().c_str());
  VF_CHECK(s.base->open_files == 0 && s.base->open_dirs == 0, Str(key) + ":base-handles", "%s: %ld files and %ld directories of the VFS below are still open", KNAMES[s.kind], s.base->open_files, s.base->open_dirs); if (!vf_case_failed()) { Str d = dump_of(s); VF_CHECK(d == base.dump, Str(key) + ":storage", "%s: the storage differs from that without failures", KNAMES[s.kind]); }
}
static void alloc_case(Rng &r, uint64_t idx) {
  int kind = (int)(idx % K_COUNT); std::vector<SOp> ops; Run base; baseline(kind, r, r.range(8, 30), ops, base); if (vf_want_sample()) vf_sample(Str(KNAMES[kind]) + ": " + vf_trace()); bool more = true;
  for (long k = 1; more && k < 60 && !vf_case_failed(); k++) {
    more = false; Stack s(kind); vfalloc::start(); vflock::reset();
    for (size_t i = 0; i < ops.size() && !vf_case_failed(); i++) {
      const SOp &o = ops[i]; long pos = o.k == S_COPY && s.f[(size_t)o.slot] ? evfs_file_tell(s.f[(size_t)o.slot]) : -1; EvfsInfo ci; bool fresh = o.k == S_COPY && evfs_stat_ex(o.p.c_str(), &ci, s.top.c_str()) != EVFS_OK; vfalloc::arm(k); Str got = s.run(o); bool hit = vfalloc::failed; vfalloc::disarm(); vf_count("operations"); vf_eval(); VF_CHECK(vflock::held() == 0, "alloc:lock", "%s %s: a lock is still held", KNAMES[kind], SNAMES[o.k]); Str who = vf_fmt("%s: %s with allocation %ld failing", KNAMES[kind], o.show().c_str(), k);
      if (!hit) { VF_CHECK(got == base.res[i], "alloc:later", "%s: %s returned %s after earlier failures, otherwise %s", KNAMES[kind], o.show().c_str(), vf_q(got).c_str(), vf_q(base.res[i]).c_str()); continue; }
      more = true; vf_count("failures"); vf_count((Str("fail_") + SNAMES[o.k]).c_str()); vf_seen(vf_hash(vf_fmt("%d %d %ld %d", kind, o.k, k, is_err(got))));
      if (!is_err(got)) { if ((s_boolean(o.k) && got == "0") || cut_short(s, o, got, base.res[i], "alloc", who) || read_rest(s, o, got, base.res[i], "alloc", who)) continue; VF_CHECK(got == base.res[i], "alloc:unreported", "%s returned %s, normally %s", who.c_str(), vf_q(got).c_str(), vf_q(base.res[i]).c_str()); vf_count("survived"); continue; }
      vf_count("reported"); if (o.k == S_CLOSE || o.k == S_CLOSEDIR) continue; if (o.k == S_COPY && fresh) { evfs_delete_ex(o.p.c_str(), s.top.c_str()); evfs_file_seek(s.f[(size_t)o.slot], (evfs_off_t)pos, EVFS_SEEK_TO); } Str again = s.run(o); vf_count("repeated"); VF_CHECK(again == base.res[i], "alloc:repeat", "%s returned %s; repeated it returns %s, normally %s", who.c_str(), vf_q(got).c_str(), vf_q(again).c_str(), vf_q(base.res[i]).c_str());
    }
    if (vf_case_failed()) { vfalloc::disarm(); s.close_all(); s.unmount(); vfalloc::stop(); return; } finish(s, base, "alloc");
  }
}
static void below_case(Rng &r, uint64_t idx) {
  static const int KS[] = {K_TAR, K_ROM, K_JAIL, K_TRACE, K_ROTATE, K_FAT, K_DEEP, K_TAR, K_ROM}; int kind = KS[idx % 9]; std::vector<SOp> ops; Run base; baseline(kind, r, r.range(8, 24), ops, base); if (vf_want_sample()) vf_sample(Str(KNAMES[kind]) + ": " + vf_trace()); bool more = true, shrt = r.chance(1, 3); int code = r.pick(std::vector<int>{EVFS_ERR_IO, EVFS_ERR_CORRUPTION, EVFS_ERR_AUTH, EVFS_ERR}); long len = r.chance(1, 4) ? 2 : r.chance(1, 3) ? 100000000 : 1; bool region = (kind == K_TAR || kind == K_ROM || kind == K_FAT) && r.chance(1, 3);
  for (long k = 1; (region ? k < 24 : more && k < 80) && !vf_case_failed(); k++) {
    more = false; Stack s(kind); long lo = -1, hi = -1; if (region) { MemP img = s.base->at("/img"); long z = (long)img->data.size(); lo = (long)r.below((uint64_t)z); if (kind == K_FAT && r.chance(2, 3)) lo = (long)r.below(60000); hi = lo + r.pick(std::vector<int>{1, 16, 512, 2000}); vf_note("bytes %ld to %ld cannot be read", lo, hi); vf_count("bad_regions"); } vfalloc::start(); vflock::reset();
    for (size_t i = 0; i < ops.size() && !vf_case_failed(); i++) {
      const SOp &o = ops[i]; bool writer = s_mutating(o.k) || (o.k == S_OPEN && (o.a != EVFS_READ || ((kind == K_ROTATE || kind == K_DEEP) && !evfs_existing_file_ex(o.p.c_str(), s.top.c_str())))) || o.k == S_CLOSE || o.k == S_FCTRL || o.k == S_UNMOUNT; long pos = s_onhandle(o.k) && !writer ? evfs_file_tell(s.f[(size_t)o.slot]) : -1;
      if (kind == K_FAT && o.k == S_OPEN && !s.f[(size_t)o.slot]) s.locate(o); s.base->fault_hit = false; if (!writer && region) { s.base->arm(0, code, shrt); s.base->bad_lo = lo; s.base->bad_hi = hi; } else if (!writer) s.base->arm(k, code, shrt, len); Str got = s.run(o); bool hit = s.base->fault_hit; Str fop = s.base->fault_op; s.base->disarm(); vf_count("operations"); vf_eval(); VF_CHECK(vflock::held() == 0, "below:lock", "%s %s: a lock is still held", KNAMES[kind], SNAMES[o.k]);
      Str who = vf_fmt("%s: %s with %s of the VFS below failing%s (operation %ld)", KNAMES[kind], o.show().c_str(), fop.c_str(), shrt ? " short" : "", k);
      if (!hit) { VF_CHECK(got == base.res[i], "below:later", "%s: %s returned %s after earlier faults, otherwise %s", KNAMES[kind], o.show().c_str(), vf_q(got).c_str(), vf_q(base.res[i]).c_str()); continue; }
      more = true; vf_count("faults_hit"); vf_count((Str("below_") + fop).c_str()); vf_count((Str("fault_") + SNAMES[o.k]).c_str()); vf_seen(vf_hash(vf_fmt("%d %d %s %ld %d", kind, o.k, fop.c_str(), k, is_err(got))));
      VF_CHECK(fop != "sync" || is_err(got), "below:sync", "%s returned %s, so what should be safe is not", who.c_str(), vf_q(got).c_str()); // nothing in the tree tells whether data has reached the storage below
      bool err = is_err(got); if (!err && !(s_boolean(o.k) && got == "0")) { bool same = got == base.res[i]; if (!same && o.k == S_READ && !is_err(base.res[i])) { size_t c1 = got.find(':'), c2 = base.res[i].find(':'); Str d1 = c1 == Str::npos ? "" : got.substr(c1 + 1), d2 = c2 == Str::npos ? "" : base.res[i].substr(c2 + 1); same = d1.size() <= d2.size() && d2.compare(0, d1.size(), d1) == 0 && !(d1.empty() && !shrt); if (same) vf_count("short_counts"); } VF_CHECK(same, "below:unreported", "%s returned %s, normally %s", who.c_str(), vf_q(got).c_str(), vf_q(base.res[i]).c_str()); }
      if (err) vf_count("reported"); if (vf_case_failed()) break; if (o.k == S_CLOSE || o.k == S_CLOSEDIR || (!err && got == base.res[i])) continue;
      if (kind == K_FAT && s_onhandle(o.k)) { vf_count("reopened"); int rv = s.reopen(o.slot); VF_CHECK(rv == EVFS_OK, "below:reopen", "%s: reopening %s after the fault returned %s", who.c_str(), s.where[o.slot].c_str(), ev_err(rv)); if (rv) break; }
      if (!err && o.k == S_READ && pos >= 0 && kind != K_FAT) { // a short count is a count: the rest comes next
        long n = atol(got.c_str()), at = evfs_file_tell(s.f[(size_t)o.slot]), want = atol(base.res[i].c_str()); VF_CHECK(at == pos + n, "below:short-position", "%s returned %ld at %ld and left the position at %ld", who.c_str(), n, pos, at); Str rest; char b[600]; long g; while (n + (long)rest.size() < want && (g = evfs_file_read(s.f[(size_t)o.slot], b, std::min<size_t>(sizeof b, (size_t)(want - n) - rest.size()))) > 0) rest.append(b, (size_t)g); size_t c2 = base.res[i].find(':'); VF_CHECK(c2 == Str::npos || rest == base.res[i].substr(c2 + 1 + (size_t)n), "below:short-rest", "%s returned %ld; the %zu bytes read after it are not the rest of %ld", who.c_str(), n, rest.size(), want); vf_count("short_rests"); }
      if (pos >= 0) { int rv = evfs_file_seek(s.f[(size_t)o.slot], (evfs_off_t)pos, EVFS_SEEK_TO); VF_CHECK(rv == EVFS_OK, "below:seek-back", "%s: seeking after the fault returned %s", who.c_str(), ev_err(rv)); } Str again = s.run(o); vf_count("repeated"); VF_CHECK(again == base.res[i], "below:repeat", "%s returned %s; repeated it returns %s, normally %s", who.c_str(), vf_q(got).c_str(), vf_q(again).c_str(), vf_q(base.res[i]).c_str());
    }
    if (vf_case_failed()) { s.base->disarm(); s.close_all(); s.unmount(); vfalloc::stop(); return; } finish(s, base, "below");
  }
}
static std::set<Str> entries(const Str &walk) { std::set<Str> o; size_t i = 0, j; while ((j = walk.find(';', i)) != Str::npos) { o.insert(walk.substr(i, j - i)); i = j + 1; } return o; }
// Changing operations: one operation meets a fault; success must mean that everything has happened, failure must leave everything else alone
static void change_case(Rng &r, uint64_t idx) {
  static const int KS[] = {K_JAIL, K_TRACE, K_ROTATE, K_FAT, K_DEEP}; int kind = KS[idx % 5]; std::vector<SOp> ops; std::vector<Str> res; Str before, after; std::set<Str> touched; int code = r.pick(std::vector<int>{EVFS_ERR_IO, EVFS_ERR_CORRUPTION, EVFS_ERR_AUTH, EVFS_ERR}); bool shrt = r.chance(1, 3); int want = r.range(4, 20); SOp w; w.k = S_WALK;
  auto prefix = [&](Stack &s, size_t n) { for (size_t i = 0; i < n; i++) s.run(ops[i]); };
  { Stack s(kind); for (int i = 0; i < 200; i++) { SOp o = i == 0 ? SOp() : s.gen(r); if (o.k == S_UNMOUNT) continue; bool change = s_mutating(o.k) || o.k == S_CLOSE || (o.k == S_OPEN && o.a != EVFS_READ) || (o.k == S_OPEN && (kind == K_ROTATE || kind == K_DEEP)); bool last = i >= want && change; if (last) { s.locate(o); touched.insert(s.where[o.slot]); SOp q = o; q.p = o.q; if (!o.q.empty()) { s.locate(q); touched.insert(s.where[o.slot]); } } else if (o.k == S_OPEN) { SOp q = o; Str keep = s.where[o.slot]; s.locate(q); Str mine = s.where[o.slot]; ops.push_back(o); res.push_back(s.run(o)); vf_note("%s", o.show().c_str()); if (is_err(res.back())) s.where[o.slot] = keep; else for (int j = 0; j < 1; j++) s.where[o.slot] = mine; continue; } vf_note("%s", o.show().c_str()); ops.push_back(o); res.push_back(s.run(o)); if (last) break; }
    s.close_all(); if (!s.mounted) s.mount(); after = s.run(w); }
  if (ops.empty() || vf_case_failed()) return; const SOp &o = ops.back(); if (!(s_mutating(o.k) || o.k == S_CLOSE || o.k == S_OPEN)) return; Str normal = res.back(); if (vf_want_sample()) vf_sample(Str(KNAMES[kind]) + ": " + vf_trace());
  { Stack s(kind); prefix(s, ops.size() - 1); std::vector<Str> h; s.close_all(); before = s.run(w); } if (is_err(before) || is_err(after)) { vf_count("root_gone"); return; }
  for (long k = 1; k < 60 && !vf_case_failed(); k++) {
    Stack s(kind); vfalloc::start(); vflock::reset(); prefix(s, ops.size() - 1); s.base->fault_hit = false; s.base->arm(k, code, shrt, 1); Str got = s.run(o); bool hit = s.base->fault_hit; Str fop = s.base->fault_op; s.base->disarm(); vf_eval(); vf_count("operations"); Str who = vf_fmt("%s: %s with %s of the VFS below failing%s (operation %ld)", KNAMES[kind], o.show().c_str(), fop.c_str(), shrt ? " short" : "", k);
    VF_CHECK(vflock::held() == 0, "change:lock", "%s: a lock is still held", who.c_str());
    if (hit) { vf_count("faults_hit"); vf_count((Str("change_") + SNAMES[o.k]).c_str()); vf_count((Str("below_") + fop).c_str()); bool err = is_err(got); vf_seen(vf_hash(vf_fmt("c %d %d %s %ld %d", kind, o.k, fop.c_str(), k, err)));
      VF_CHECK(fop != "sync" || err, "change:sync", "%s returned %s, so what should be safe is not", who.c_str(), got.c_str());
      bool part = !err && (o.k == S_WRITE || o.k == S_PRINTF || o.k == S_PUTS) && !is_err(normal) && atol(got.c_str()) < atol(normal.c_str()); if (!err && !part) VF_CHECK(got == normal, "change:result", "%s returned %s, normally %s", who.c_str(), got.c_str(), normal.c_str());
      if (err) vf_count("reported"); if (part) { vf_count("short_counts"); cut_short(s, o, got, normal, "change", who); }
      s.close_all(); if (!s.mounted) s.mount(); s.walk_on = kind == K_FAT && err && (s_onhandle(o.k) || o.k == S_CLOSE); /* FAT keeps a file's length and its clusters in two places: the file whose flush failed may be unreadable, no other */ Str fin = s.run(w); VF_CHECK(!is_err(fin), "change:walk", "%s returned %s; afterwards the tree cannot be read (%s)", who.c_str(), got.c_str(), fin.c_str());
      if (!err) { vf_count("succeeded"); VF_CHECK(fin == after, "change:lost", "%s returned %s; the tree then is %s, normally %s", who.c_str(), got.c_str(), fin.c_str(), after.c_str()); }
      else { std::set<Str> b = entries(before), f = entries(fin); int n = 0; for (auto &e : b) if (!f.count(e)) { Str p = e.substr(0, e.find('=')); if (p.back() == '/') p.pop_back(); bool mine = false; for (auto &t : touched) { Str x = t; if (kind == K_ROTATE && x.compare(0, 8, "/jail/in") == 0) x = x.substr(8); Str y = kind == K_ROTATE && p.compare(0, 8, "/jail/in") == 0 ? p.substr(8) : p; mine |= x.empty() || x == y || (y.compare(0, x.size(), x) == 0 && y[x.size()] == '/'); } for (auto &x : s.where) { Str t = x; mine |= t == p || t == "/jail/in" + p; } if (s_onhandle(o.k) || o.k == S_CLOSE) mine |= e.find('=') != Str::npos && !f.count(e) && n++ < 3; VF_CHECK(mine, "change:others", "%s returned %s; %s is gone or changed, now %s", who.c_str(), got.c_str(), e.c_str(), fin.c_str()); vf_count("touched"); } }
    } else s.close_all();
    s.unmount(); long l = vfalloc::stop(); if (!vf_case_failed()) { VF_CHECK(l == 0, "change:leak", "%s: %ld live: %s", who.c_str(), l, vfalloc::describe_live().c_str()); VF_CHECK(s.base->open_files == 0 && s.base->open_dirs == 0, "change:base-handles", "%s: %ld files and %ld directories of the VFS below are still open", who.c_str(), s.base->open_files, s.base->open_dirs); }
    if (!hit) break;
  }
}
void vf_setup() { vf_drop_privs(); umask(022); evfs_init(); vf_suite("alloc", 6600, 1000000, alloc_case); vf_suite("below", 3200, 200000, below_case); vf_suite("change", 12000, 600000, change_case); }
