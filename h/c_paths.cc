// C01-C04: path normalization, splitting, joining, absolute paths.
#include "memfs.h"

static MemFs *posix_fs, *dos_fs;

#ifdef ALLOW_LONG_PATHS
static const size_t PLIM = SIZE_MAX;
#else
static const size_t PLIM = EVFS_MAX_PATH;
#endif
static bool issep(char c) { return c == '/' || c == '\\'; }

// reference canonical form including drive letter roots
static Str ref_norm(const Str &p, bool dos) {
  if (dos && p.size() > 2 && isalpha((unsigned char)p[0]) && p[1] == ':' && issep(p[2])) return p.substr(0, 2) + ref_normalize(p.substr(2));
  return ref_normalize(p);
}
static size_t ref_root(const Str &p, bool dos) {
  size_t i = 0;
  if (dos && p.size() >= 2 && isalpha((unsigned char)p[0]) && p[1] == ':') i = 2;
  while (i < p.size() && issep(p[i])) i++;
  return i;
}

static Str gen_seg(Rng &r) {
  switch (r.below(14)) {
  case 0: case 1: case 2: return "..";
  case 3: return ".";
  case 4: return r.pick(std::vector<Str>{"...", "..a", "..foo", ".a", "a..", "a.", "....", ".hidden", "..\x80", ". .", "..."});
  case 5: return Str((size_t)r.range(1, 20), (char)('a' + r.below(26)));
  case 6: { Str s = r.bytes((size_t)r.range(1, 5)); for (auto &c : s) if (!c || issep(c)) c = 'x'; return s; }
  case 7: return r.chance(1, 6) ? Str((size_t)r.range(50, 300), 'L') : Str("b");
  default: return Str(1, (char)('a' + r.below(6)));
  }
}
static Str gen_sep(Rng &r) { Str s = r.chance(1, 5) ? "\\" : "/"; while (r.chance(1, 6)) s += r.chance(1, 3) ? "\\" : "/"; return s; }
static Str gen_path(Rng &r, bool dos) {
  Str p;
  if (r.chance(1, 2)) {
    if (dos && r.chance(2, 3)) p = r.pick(std::vector<Str>{"C:", "a:", "Z:"});
    p += gen_sep(r);
    if (r.chance(1, 12)) p += Str((size_t)r.range(10, 22), r.chance(1, 2) ? '/' : '\\');   // around the internal root buffer
  }
  int n;
  switch (r.below(8)) {
  case 0: n = 0; break;
  case 1: n = r.range(28, 38); break;
  case 2: n = r.range(60, 70); break;
  case 3: n = r.chance(1, 4) ? r.range(100, 300) : r.range(8, 20); break;
  default: n = r.range(1, 8);
  }
  // long paths: vary how many '..' they have
  int mode = (int)r.below(4);
  for (int i = 0; i < n; i++) {
    Str s = gen_seg(r);
    if (n > 20 && s.size() > 30) s = "q";
    if (mode == 1 && s == "..") s = "x";
    if (mode == 2 && i < n / 2) s = "..";
    p += s; if (i + 1 < n || r.chance(1, 3)) p += gen_sep(r);
  }
  return p;
}

static void check_norm(const Str &path, size_t size, bool inplace, bool dos, const char *where) {
  const char *vfs = dos ? "dos" : "posix";
  Str want = ref_norm(path, dos);
  bool fits = want.size() + 1 <= size;
  int rv; Str got; bool intact, term; Str input_after;
  if (inplace) {
    if (size < path.size() + 1) return;
    Guarded b(size); memcpy(b.p, path.c_str(), path.size() + 1);
    StringRange r; range_init(&r, b.p, size);
    rv = evfs_path_normalize_ex(b.p, &r, vfs);
    intact = b.intact(); size_t l = strnlen(b.p, size); term = l < size; got = Str(b.p, l);
    VF_CHECK(r.start == b.p && r.end == b.p + size, "norm:range-changed", "normalize changed the caller's output range for %s", vf_q(path).c_str());
    input_after = path;
  } else {
    Guarded in(path.size() + 1), b(size); memcpy(in.p, path.c_str(), path.size() + 1);
    StringRange r; range_init(&r, b.p, size);
    rv = evfs_path_normalize_ex(in.p, &r, vfs);
    intact = b.intact() && in.intact(); size_t l = strnlen(b.p, size); term = l < size; got = Str(b.p, l);
    input_after = Str(in.p, path.size());
    VF_CHECK(r.start == b.p && r.end == b.p + size, "norm:range-changed", "normalize changed the caller's output range for %s", vf_q(path).c_str());
  }
  vf_count(inplace ? "normalize_inplace" : "normalize_separate");
  VF_CHECK(intact, "norm:oob", "normalize(%s) into %zu bytes wrote in front of the range", vf_q(path).c_str(), size);
  VF_CHECK(input_after == path, "norm:input-modified", "normalize modified its separate input %s", vf_q(path).c_str());
  if (fits) {
    VF_CHECK(rv == EVFS_OK && term && got == want, "norm:wrong", "%s: normalize(%s, size %zu, %s, %s) = %s %s, expected %s", where, vf_q(path).c_str(), size,
             inplace ? "in place" : "separate", vfs, ev_err(rv), vf_q(got).c_str(), vf_q(want).c_str());
    if (rv == EVFS_OK) vf_count("ok_results");
  } else {
    VF_CHECK(rv == EVFS_ERR_OVERFLOW, "norm:overflow-not-reported", "%s: normalize(%s) needs %zu bytes, range has %zu, returned %s %s (%s)", where, vf_q(path).c_str(), want.size() + 1, size, ev_err(rv), vf_q(got).c_str(), inplace ? "in place" : "separate");
    vf_count("overflow_results");
  }
}

static size_t pick_size(Rng &r, size_t exact, size_t maxbig) {
  switch (r.below(9)) {
  case 0: return exact + 1;
  case 1: return exact;
  case 2: return exact + 2;
  case 3: return exact > 1 ? (size_t)r.below(exact) : 0;
  case 4: return (size_t)r.below(6);
  default: return exact + 1 + (size_t)r.below(maxbig);
  }
}

static void norm_case(Rng &r, uint64_t) {
  bool dos = r.chance(1, 4);
  Str p = gen_path(r, dos);
  vf_note("normalize %s%s", vf_q(p).c_str(), dos ? " (dos)" : "");
  Str want = ref_norm(p, dos);
  size_t sz = pick_size(r, want.size(), 300);
  check_norm(p, sz, false, dos, "random");
  check_norm(p, p.size() + 1 + r.below(40), true, dos, "random");
  check_norm(p, p.size() + 1, true, dos, "random");
  check_norm(p, want.size() + 1, false, dos, "exact size");
  check_norm(p, want.size(), false, dos, "one byte short");
  check_norm(want, want.size() + 1, r.chance(1, 2), dos, "idempotence");
  vf_seen(vf_hash(want) ^ vf_split(p).size());
  if (vf_want_sample() && p.size() < 60) vf_sample(vf_fmt("normalize(%s) -> %s", vf_q(p).c_str(), vf_q(want).c_str()));
}

static const char ALPHA[4] = {'/', '.', 'a', '\\'};
static void for_all(uint64_t block, int len, int fixed, const std::function<void(const Str &)> &f) {
  // strings of length 'len' whose first 'fixed' characters are given by block
  Str s((size_t)len, 0); uint64_t b = block;
  for (int i = 0; i < fixed; i++) { s[(size_t)i] = ALPHA[b & 3]; b >>= 2; }
  int fr = len - fixed; uint64_t n = 1ull << (2 * fr);
  for (uint64_t k = 0; k < n; k++) { uint64_t v = k; for (int i = 0; i < fr; i++) { s[(size_t)(fixed + i)] = ALPHA[v & 3]; v >>= 2; } f(s); }
}
static void norm_exh(Rng &, uint64_t idx) {
  // quick: all strings of length <= 7 in 64 blocks; thorough: <= 9
  int maxlen = vf_thorough ? 9 : 7; uint64_t n = 0;
  auto one = [&](const Str &s) { size_t w = ref_norm(s, false).size(); check_norm(s, w + 1, false, false, "exhaustive"); check_norm(s, s.size() + 1, true, false, "exhaustive"); if (w) check_norm(s, w, false, false, "exhaustive short"); n++; vf_seen(vf_hash(s)); };
  for (int len = 3; len <= maxlen; len++) for_all(idx, len, 3, one);
  if (idx == 0) for (int len = 0; len < 3; len++) for_all(0, len, 0, one);
  vf_eval(n);
}
// every combination of few '..' positions in paths whose segment count is around the mask width
static void norm_manyseg(Rng &r, uint64_t idx) {
  int n = 26 + (int)(idx % 46); bool abs = idx & 1;
  Str p = abs ? "/" : "";
  std::set<int> up; int k = r.range(0, 12); for (int i = 0; i < k; i++) up.insert((int)r.below((uint64_t)n));
  for (int i = 0; i < n; i++) { if (i) p += "/"; p += up.count(i) ? Str("..") : vf_fmt("s%d", i); }
  vf_note("normalize %s", vf_q(p).c_str());
  Str w = ref_norm(p, false);
  check_norm(p, w.size() + 1, false, false, "many segments"); check_norm(p, p.size() + 1, true, false, "many segments"); check_norm(p, 1024, false, false, "many segments");
  check_norm(p, w.size(), false, false, "many segments short");
  vf_seen(vf_hash(w) * 31 + (uint64_t)n);
}

// ---- C02 ----
static Str ref_base(const Str &p) { size_t i = p.find_last_of("/\\"); return i == Str::npos ? p : p.substr(i + 1); }
static Str ref_dir(const Str &p, bool dos) {
  size_t drv = (dos && p.size() >= 2 && isalpha((unsigned char)p[0]) && p[1] == ':') ? 2 : 0;
  Str d = p.substr(0, drv), q = p.substr(drv);
  size_t i = q.find_last_of("/\\"); Str h = i == Str::npos ? "" : q.substr(0, i + 1);
  size_t j = h.size(); while (j && issep(h[j - 1])) j--;
  return d + (j ? h.substr(0, j) : h);
}
static Str ref_ext(const Str &p) {
  Str b = ref_base(p); size_t d = b.rfind('.'); if (d == Str::npos) return "";
  for (size_t i = 0; i < d; i++) if (b[i] != '.') return b.substr(d);
  return "";
}
static void check_split(const Str &p, bool dos) {
  Guarded in(p.size() + 1); memcpy(in.p, p.c_str(), p.size() + 1);
  const char *vfs = dos ? "dos" : "posix";
  struct { const char *what; Str want; int rv; StringRange r; } t[3] = {{"basename", ref_base(p), 0, {0, 0}}, {"dirname", ref_dir(p, dos), 0, {0, 0}}, {"extname", ref_ext(p), 0, {0, 0}}};
  t[0].rv = evfs_path_basename(in.p, &t[0].r); t[1].rv = evfs_path_dirname_ex(in.p, &t[1].r, vfs); t[2].rv = evfs_path_extname(in.p, &t[2].r);
  for (int i = 0; i < 3; i++) {
    if (dos && i == 1 && p.size() >= 2 && p[1] == ':' && isalpha((unsigned char)p[0]) && !(p.size() > 2 && issep(p[2]))) continue; // relative drive path: not specified
    if (dos && i == 0 && p.size() >= 2 && p[1] == ':') continue;
    bool in_range = t[i].r.start >= in.p && t[i].r.end >= t[i].r.start && t[i].r.end <= in.p + p.size() + 1;
    VF_CHECK(in_range, Str("split:") + t[i].what + "-range", "%s(%s) returned a range outside the string (offset %ld, length %ld)", t[i].what, vf_q(p).c_str(), (long)(t[i].r.start - in.p), (long)(t[i].r.end - t[i].r.start));
    if (!in_range) continue;
    Str got(t[i].r.start, (size_t)(t[i].r.end - t[i].r.start));
    VF_CHECK(t[i].rv == EVFS_OK && got == t[i].want, Str("split:") + t[i].what, "%s(%s) = %s %s, expected %s", t[i].what, vf_q(p).c_str(), ev_err(t[i].rv), vf_q(got).c_str(), vf_q(t[i].want).c_str());
    vf_count(t[i].what);
    vf_seen(vf_hash(got) * 3 + (uint64_t)i);
  }
  if (!(dos && p.size() >= 2 && p[1] == ':' && !(p.size() > 2 && issep(p[2])))) { // the segments after the root in order, two scans advanced in turns
    std::vector<Str> want; Str seg; for (size_t i = ref_root(p, dos); i <= p.size(); i++) if (i < p.size() && !issep(p[i])) seg += p[i]; else if (!seg.empty()) { want.push_back(seg); seg.clear(); }
    Evfs *v = evfs_find_vfs(vfs); StringRange e[2] = {{0, 0}, {0, 0}}; size_t at[2] = {0, 0}; bool over[2] = {false, false};
    for (size_t k = 0; !(over[0] && over[1]); k++) {
      size_t w = k % 3 == 1 && !over[1] ? 1 : over[0] ? 1 : 0; int rv = evfs_vfs_scan_path(v, at[w] ? nullptr : in.p, &e[w]); size_t n = at[w]++;
      if (rv != EVFS_OK) { over[w] = true; VF_CHECK(rv == EVFS_ERR && n == want.size(), "split:scan-end", "scanning %s ended with %s after %zu of %zu segments", vf_q(p).c_str(), ev_err(rv), n, want.size()); continue; }
      bool inr = n < want.size() && e[w].start >= in.p && e[w].end >= e[w].start && e[w].end <= in.p + p.size(); VF_CHECK(inr && Str(e[w].start, (size_t)(e[w].end - e[w].start)) == want[n], "split:scan", "segment %zu of %s (%s) is %s", n, vf_q(p).c_str(), vfs, inr ? vf_q(Str(e[w].start, (size_t)(e[w].end - e[w].start))).c_str() : "not part of it"); if (!inr) break;
      vf_count("scanned");
    } }
  VF_CHECK(Str(in.p, p.size()) == p, "split:modified", "splitting modified %s", vf_q(p).c_str());
}
static void split_exh(Rng &, uint64_t idx) {
  int maxlen = vf_thorough ? 10 : 8; uint64_t n = 0;
  auto one = [&](const Str &s) { check_split(s, false); n++; };
  for (int len = 3; len <= maxlen; len++) for_all(idx, len, 3, one);
  if (idx == 0) for (int len = 0; len < 3; len++) for_all(0, len, 0, one);
  vf_eval(n);
}
static void split_case(Rng &r, uint64_t) {
  bool dos = r.chance(1, 4); Str p = gen_path(r, dos);
  if (r.chance(1, 2)) p += r.pick(std::vector<Str>{".txt", ".tar.gz", "..", ".", ".a.", "...x", ".bashrc", "/.profile", "/..a", "a.b/c", "//", "\\x.y"});
  vf_note("split %s", vf_q(p).c_str()); check_split(p, dos);
  if (vf_want_sample() && p.size() < 50) vf_sample(vf_fmt("%s: dir %s base %s ext %s", vf_q(p).c_str(), vf_q(ref_dir(p, dos)).c_str(), vf_q(ref_base(p)).c_str(), vf_q(ref_ext(p)).c_str()));
}

// ---- C03 ----
static Str ref_join(const Str &h, const Str &t, bool dos) {
  if (h.empty()) return t;
  if (ref_root(h, dos) == h.size()) return h + t;
  return h + "/" + t;
}
static void join_case(Rng &r, uint64_t) {
  bool dos = r.chance(1, 5); const char *vfs = dos ? "dos" : "posix";
  Str h = gen_path(r, dos), t = gen_path(r, false);
  if (r.chance(1, 6)) h = ""; if (r.chance(1, 6)) t = ""; if (r.chance(1, 6)) h = dos ? "C:/" : "/";
  if (r.chance(1, 5)) { h = Str((size_t)r.range(0, 260), 'h'); t = Str((size_t)r.range(0, 20), 't'); }
  if (r.chance(1, 5)) { // around the path limit
    long total = r.range(250, 260); h = Str((size_t)r.below((uint64_t)total), 'h'); long tl = total - (long)h.size() - 1; t = Str((size_t)(tl > 0 ? tl : 0), 't'); }
  Str want = ref_join(h, t, dos);
  int mode = (int)r.below(4); // 0 C strings, 1 substrings, 2 NUL-terminated inside larger ranges, 3 in place over head
  size_t size = pick_size(r, want.size(), 200);
  if (r.chance(1, 3)) size = h.size() + 1 + t.size() + (size_t)r.below(3);
  bool must_ok = h.size() + 1 + t.size() + 1 <= size && h.size() + 1 + t.size() + 1 < PLIM;
  bool must_fail = want.size() + 1 > size || want.size() >= PLIM;
  // documented: the assertion compares head + separator + tail with the limit
  vf_note("join %s + %s into %zu mode %d", vf_q(h).c_str(), vf_q(t).c_str(), size, mode);
  if (mode == 3 && size < h.size() + 1) size = h.size() + 1, must_ok = h.size() + 1 + t.size() + 1 <= size && h.size() + 1 + t.size() + 1 < PLIM, must_fail = want.size() + 1 > size || want.size() >= PLIM;
  Guarded out(size); StringRange jr; range_init(&jr, out.p, size);
  int rv; Str junk = r.pick(std::vector<Str>{"junk", "/x", "", "zzzzzzzzzzzzzzzzzzzz"});
  Guarded hb(h.size() + 1 + junk.size()), tb(t.size() + 1 + junk.size());
  memcpy(hb.p, h.data(), h.size()); memcpy(tb.p, t.data(), t.size());
  if (mode == 0) {
    hb.p[h.size()] = 0; tb.p[t.size()] = 0; rv = evfs_path_join_str_ex(hb.p, tb.p, &jr, vfs);
  } else if (mode == 1) { // substrings followed by other text, terminated further on
    Str hj = junk + Str(1, '\0'); memcpy(hb.p + h.size(), hj.data(), hj.size()); memcpy(tb.p + t.size(), hj.data(), hj.size());
    StringRange hr, tr; range_init(&hr, hb.p, h.size()); range_init(&tr, tb.p, t.size());
    rv = evfs_path_join_ex(&hr, &tr, &jr, vfs);
  } else if (mode == 2) {
    hb.p[h.size()] = 0; tb.p[t.size()] = 0; memset(hb.p + h.size() + 1, 'J', junk.size()); memset(tb.p + t.size() + 1, 'J', junk.size());
    StringRange hr, tr; range_init(&hr, hb.p, h.size() + 1 + junk.size()); range_init(&tr, tb.p, t.size() + 1 + junk.size());
    rv = evfs_path_join_ex(&hr, &tr, &jr, vfs);
  } else {
    memcpy(out.p, h.c_str(), h.size() + 1); tb.p[t.size()] = 0;
    StringRange tr; range_init(&tr, tb.p, t.size());
    StringRange hr; range_init(&hr, out.p, r.chance(1, 2) ? size : h.size());
    rv = r.chance(1, 2) ? evfs_path_join_ex(&hr, &tr, &jr, vfs) : evfs_path_join_str_ex(out.p, tb.p, &jr, vfs);
  }
  VF_CHECK(out.intact() && hb.intact() && tb.intact(), "join:oob", "join wrote outside its range");
  VF_CHECK(!memcmp(tb.p, t.data(), t.size()) && !memcmp(hb.p, h.data(), h.size()), "join:input-modified", "join modified its operands");
  vf_count("joins");
  if (rv == EVFS_OK) {
    size_t l = strnlen(out.p, size); Str got(out.p, l);
    VF_CHECK(l < size && got == want, "join:wrong", "join(%s, %s) into %zu bytes (mode %d, %s) returned OK and %s%s, expected %s", vf_q(h).c_str(), vf_q(t).c_str(), size, mode, vfs, vf_q(got).c_str(), l < size ? "" : " (unterminated)", vf_q(want).c_str());
    VF_CHECK(!must_fail || got == want, "join:no-overflow", "join of %zu+%zu bytes into %zu returned OK", h.size(), t.size(), size);
    VF_CHECK(want.size() < PLIM, "join:path-limit", "join gave a path of %zu bytes, over the limit, and returned OK", want.size());
    vf_count("ok_results");
  } else {
    VF_CHECK(!must_ok, "join:refused", "join(%s, %s) into %zu bytes (mode %d, %s) returned %s although %zu bytes suffice", vf_q(h).c_str(), vf_q(t).c_str(), size, mode, vfs, ev_err(rv), want.size() + 1);
    VF_CHECK(rv == EVFS_ERR_OVERFLOW, "join:error-code", "join returned %s (%d)", ev_err(rv), rv);
    vf_count("overflow_results");
  }
  vf_seen(vf_hash(want) * 7 + (size > want.size()) + (uint64_t)mode * 2);
  if (vf_want_sample() && want.size() < 50) vf_sample(vf_fmt("join(%s, %s, size %zu) -> %s", vf_q(h).c_str(), vf_q(t).c_str(), size, ev_err(rv)));
}

// ---- C04 ----
static void abs_case(Rng &r, uint64_t) {
  bool dos = r.chance(1, 5); MemFs *fs = dos ? dos_fs : posix_fs; const char *vfs = dos ? "dos" : "posix";
  // working directory
  std::vector<Str> cwd; int n = r.range(0, 4); for (int i = 0; i < n; i++) cwd.push_back(r.chance(1, 3) ? Str((size_t)r.range(1, 90), 'c') : vf_fmt("d%d", i));
  fs->cwd = cwd; Str cw = (dos ? "C:" : "") + vf_join(cwd);
  Str p = gen_path(r, dos); if (r.chance(1, 3)) p = p.substr(0, (size_t)r.below(10));
  if (dos && p.size() >= 2 && p[1] == ':' && isalpha((unsigned char)p[0]) && !(p.size() > 2 && issep(p[2]))) { if (r.chance(1, 2)) p = "x" + p.substr(2); }
  if (dos && r.chance(1, 8)) p = Str(1, "CcDZ"[r.below(4)]) + ":" + p.substr(ref_root(p, true));
  bool drive = dos && p.size() >= 2 && p[1] == ':' && isalpha((unsigned char)p[0]) && !(p.size() > 2 && issep(p[2])); // relative to the working directory below that letter
  bool isabs = !drive && ref_root(p, dos) > 0;
  Str want = isabs ? ref_norm(p, dos) : drive ? ref_norm(p.substr(0, 2) + cw.substr(2) + "/" + p.substr(2), true) : ref_norm(cw + "/" + p, dos); if (drive) vf_count("drive_relative");
  size_t size; 
  switch (r.below(6)) {
  case 0: size = want.size() + 1; break;
  case 1: size = want.size() ? want.size() : 1; break;
  case 2: size = 1 + r.below(want.size() + 20); break;
  case 3: size = EVFS_MAX_PATH; break;
  case 4: size = cw.size() + (size_t)r.range(0, 3) + (r.chance(1, 2) ? p.size() + 1 : 0); if (!size) size = 1; break;
  default: size = 1 + r.below(EVFS_MAX_PATH);
  }
  int mode = (int)r.below(5); // 0 separate, 1 same start, 2 path inside range, 3 range starts inside path, 4 range ends inside path
  int rv; Str got; bool term, intact; size_t off = 0;
  vf_note("absolute %s cwd %s size %zu mode %d %s", vf_q(p).c_str(), vf_q(cw).c_str(), size, mode, vfs);
  if (mode == 0) {
    Guarded in(p.size() + 1), out(size); memcpy(in.p, p.c_str(), p.size() + 1); StringRange a; range_init(&a, out.p, size);
    rv = evfs_path_absolute_ex(in.p, &a, vfs); intact = out.intact() && in.intact(); size_t l = strnlen(out.p, size); term = l < size; got = Str(out.p, l);
    VF_CHECK(Str(in.p, p.size()) == p, "abs:input-modified", "absolute modified its separate input");
  } else if (mode == 3) {
    off = r.below(p.size() + 1); size_t total = off + size; if (total < p.size() + 1) { size = p.size() + 1 - off; total = off + size; }
    Guarded buf(total); memcpy(buf.p, p.c_str(), p.size() + 1); StringRange a; range_init(&a, buf.p + off, size); Str front(buf.p, off);
    rv = evfs_path_absolute_ex(buf.p, &a, vfs); intact = buf.intact() && Str(buf.p, off) == front; size_t l = strnlen(buf.p + off, size); term = l < size; got = Str(buf.p + off, l);
  } else if (mode == 4) { // whatever fits: only a result that is reported has to be right, and nothing outside the range changes
    size_t lead = r.chance(1, 3) ? r.below(10) : 0; off = lead ? 0 : r.below(p.size() + 1); size = lead + r.below(p.size() - off + 1); if (!size) size = 1;
    Guarded buf(lead + p.size() + 1); memset(buf.p, 'L', lead); memcpy(buf.p + lead, p.c_str(), p.size() + 1); StringRange a; range_init(&a, buf.p + off, size); Str front(buf.p, off), back(buf.p + off + size, lead + p.size() + 1 - off - size);
    rv = evfs_path_absolute_ex(buf.p + lead, &a, vfs); intact = buf.intact() && Str(buf.p, off) == front && Str(buf.p + off + size, back.size()) == back; size_t l = strnlen(buf.p + off, size); term = l < size; got = Str(buf.p + off, l); if (rv == EVFS_OK) vf_count("range_ends_in_path_ok");
  } else {
    if (mode == 2 && !isabs) off = r.below(20);
    if (size < off + p.size() + 1) size = off + p.size() + 1;
    Guarded buf(size); memcpy(buf.p + off, p.c_str(), p.size() + 1); StringRange a; range_init(&a, buf.p, size);
    rv = evfs_path_absolute_ex(buf.p + off, &a, vfs); intact = buf.intact(); size_t l = strnlen(buf.p, size); term = l < size; got = Str(buf.p, l);
  }
  VF_CHECK(intact, "abs:oob", "absolute wrote outside its range");
  size_t need = cw.size() + 1 + p.size() + 1;
  bool must_ok = mode != 4 && size <= PLIM && need + 2 < PLIM && (mode == 3 && isabs && off ? p.size() + 1 <= size && want.size() + 1 <= size : mode == 0 ? (isabs ? want.size() + 1 <= size : cw.size() + 1 + (drive ? 2 : 0) <= size && want.size() + 1 <= size) : (isabs ? want.size() + 1 <= size : p.size() + 1 + cw.size() + 2 <= size));
  vf_count(mode == 0 ? "absolute_separate" : "absolute_overlap");
  if (rv == EVFS_OK) {
    VF_CHECK(term && got == want, "abs:wrong", "absolute(%s) with cwd %s, size %zu, mode %d (offset %zu) returned OK and %s, expected %s", vf_q(p).c_str(), vf_q(cw).c_str(), size, mode, off, vf_q(got).c_str(), vf_q(want).c_str());
    VF_CHECK(want.size() < PLIM, "abs:limit", "absolute gave a path over the limit");
    vf_count("ok_results");
  } else {
    VF_CHECK(!must_ok, "abs:refused", "absolute(%s) with cwd %s, size %zu, mode %d returned %s, expected %s", vf_q(p).c_str(), vf_q(cw).c_str(), size, mode, ev_err(rv), vf_q(want).c_str());
    VF_CHECK(rv < 0, "abs:code", "absolute returned the non-error code %d", rv);
    vf_count("overflow_results");
  }
  vf_seen(vf_hash(want) * 11 + (uint64_t)mode * 2 + (rv == EVFS_OK));
  if (vf_want_sample() && want.size() < 60) vf_sample(vf_fmt("absolute(%s) at %s -> %s", vf_q(p).c_str(), vf_q(cw).c_str(), vf_q(want).c_str()));
}

void vf_setup() {
  evfs_init();
  posix_fs = new MemFs("posix"); posix_fs->reg(true);
  dos_fs = new MemFs("dos"); dos_fs->dos_root = true; dos_fs->reg(false);
  vf_suite("norm_random", 40000, 1500000, norm_case);
  vf_suite("norm_exhaustive", 64, 64, norm_exh);
  vf_suite("norm_manyseg", 6000, 200000, norm_manyseg);
  vf_suite("split_exhaustive", 64, 64, split_exh);
  vf_suite("split_random", 20000, 500000, split_case);
  vf_suite("join", 60000, 2000000, join_case);
  vf_suite("absolute", 60000, 2000000, abs_case);
}
