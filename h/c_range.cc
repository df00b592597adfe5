// C21: string ranges, number conversion and the bounded string functions.
#include <algorithm>
#include <climits>
#include "vf.h"
#include <unistd.h>
#include <sys/mman.h>
extern "C" {
#include "evfs/util/range_strings.h"
#include "evfs/util/intmath.h"
#include "evfs/bsd/string.h"
}
typedef __int128 wide;
static Str text(Rng &r, size_t n, bool any = false) { Str s; static const char *A = "abcXYZ 019,;./\t%-"; while (s.size() < n) s += any && r.chance(1, 6) ? (char)(1 + r.below(255)) : A[r.below(17)]; return s; }
struct CStr { Guarded g; explicit CStr(const Str &s) : g(s.size() + 1) { memcpy(g.p, s.data(), s.size()); g.p[s.size()] = 0; } operator const char *() const { return (const char *)g.p; } };
struct Bytes { Guarded g; explicit Bytes(const Str &s) : g(s.size()) { if (!s.empty()) memcpy(g.p, s.data(), s.size()); } };
static Str fixed_text(bool neg, wide mag, wide scale, int digits) { wide p = 1; for (int i = 0; i < digits; i++) p *= 10; wide n = (2 * mag * p + scale) / (2 * scale); Str d; wide x = n; do { d += (char)('0' + (int)(x % 10)); x /= 10; } while (x); while ((int)d.size() <= digits) d += '0'; std::reverse(d.begin(), d.end()); if (digits) d.insert(d.size() - (size_t)digits, "."); return (neg && n ? "-" : "") + d; }
static int ndigits(wide n) { int d = 1; while (n >= 10) { n /= 10; d++; } return d; }
static size_t large(Rng &r) { vf_count("large_buffers"); static const size_t L[] = {255, 256, 257, 300, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000}; return L[r.below(12)]; }
static unsigned scale_value(Rng &r) { static const unsigned S[] = {1, 2, 3, 7, 8, 9, 10, 16, 60, 64, 99, 100, 101, 128, 256, 1000, 1024, 4096, 10000, 32768, 65535, 65536, 100000, 1000000, 1u << 24, 1u << 29, 1000000000}; return r.chance(2, 3) ? S[r.below(27)] : 1 + (unsigned)r.below(r.chance(1, 2) ? 2000 : 1000000000); }
// One buffer, many appends
static void append_case(Rng &r, uint64_t) {
  size_t n = r.chance(1, 300) ? large(r) : r.chance(1, 8) ? r.below(3) : r.chance(1, 6) ? r.below(300) : r.below(48); Guarded g(n, 0xA5); char *base = (char *)g.p; AppendRange a; range_init(&a, base, n); vf_note("buffer %zu", n); int ops = 1 + (int)r.below(12);
  for (int k = 0; k < ops && !vf_case_failed(); k++) {
    Str before(base, n); char *start = a.start; size_t cap = (size_t)(a.end - a.start), pos = (size_t)(start - base); vf_eval();
    size_t len = r.chance(1, 3) ? (cap ? cap - 1 + r.below(3) : r.below(3)) : r.chance(1, 5) ? r.below(2) : r.below(cap + 6); if (r.chance(1, 3)) len = std::min<size_t>(len, r.below(8)); Str t; int rv = 0; bool nul = true, wipes = true, minus_one = false; const char *what = "";
    switch (r.below(11)) {
      case 0: { t = text(r, len, true); CStr s(t); what = "cat_str"; rv = range_cat_str(&a, s); VF_CHECK(s.g.intact(), "range:source", "the source was modified"); break; }
      case 1: { t = text(r, len, true); CStr s(t); what = "cat_str_no_nul"; nul = false; rv = range_cat_str_no_nul(&a, s); break; }
      case 2: case 3: { t = text(r, len, true); Str src = t; bool inner = r.chance(1, 3); if (inner) src += Str(1, 0) + text(r, r.below(4)); Bytes b(src); StringRange sr; range_init(&sr, (char *)b.g.p, src.size()); nul = r.chance(1, 2); what = nul ? "cat_range" : "cat_range_no_nul"; rv = nul ? range_cat_range(&a, &sr) : range_cat_range_no_nul(&a, &sr); VF_CHECK(sr.start == b.g.p && Str(b.g.p, src.size()) == src, "range:source", "the source range was modified"); vf_count(inner ? "range_with_nul" : "range_without_nul"); break; }
      case 4: { char c = (char)(1 + r.below(255)); t = Str(1, c); nul = r.chance(2, 3); minus_one = true; wipes = false; what = nul ? "cat_char" : "cat_char_no_nul"; rv = nul ? range_cat_char(&a, c) : range_cat_char_no_nul(&a, c); break; }
      case 5: { uint32_t v = r.chance(1, 4) ? 0u - (uint32_t)r.below(3) : r.chance(1, 6) ? 0 : (uint32_t)(r.next() >> (32 + r.below(32))); t = vf_fmt("%u", v); what = "cat_uint"; rv = range_cat_uint(&a, v); vf_count("numbers"); break; }
      case 6: { int32_t v = r.chance(1, 5) ? INT32_MIN + (int32_t)r.below(2) : (int32_t)(r.next() >> (32 + r.below(32))); if (r.chance(1, 3) && v > 0) v = -v; t = vf_fmt("%d", v); what = "cat_int"; rv = range_cat_int(&a, v); vf_count("numbers"); break; }
      case 7: { what = "cat_fmt"; Str s = text(r, len); int v = (int)r.next(); switch (r.below(6)) {
          case 0: t = s; rv = range_cat_fmt(&a, "%s", s.c_str()); break; case 1: t = vf_fmt("%d|%s", v, s.c_str()); rv = range_cat_fmt(&a, "%d|%s", v, s.c_str()); break; case 2: t = ""; rv = range_cat_fmt(&a, "%s", ""); break;
          case 3: t = vf_fmt("%-12s%%%08x", s.c_str(), (unsigned)v); rv = range_cat_fmt(&a, "%-12s%%%08x", s.c_str(), (unsigned)v); break; case 4: t = s.substr(0, 5); rv = range_cat_fmt(&a, "%.*s", 5, s.c_str()); break; default: t = vf_fmt("%c%5.3f", 'q', v / 7.0); rv = range_cat_fmt(&a, "%c%5.3f", 'q', v / 7.0); } vf_count("formats"); break; }
      case 8: case 9: { unsigned v = r.chance(1, 4) ? 0u - (unsigned)r.below(5) : (unsigned)(r.next() >> (32 + r.below(32))), sc = scale_value(r), pl = (unsigned)r.below(13); int pad = r.chance(1, 2) ? 0 : (int)r.range(-25, 25); if (r.chance(1, 2)) v = (unsigned)r.below(3) * sc + (unsigned)(r.chance(1, 2) ? sc - 1 - r.below(std::min(sc, 9u)) : r.below(sc)); int d = std::max(1, ndigits(sc) - 1); d = std::min(d, (int)pl); t = vf_fmt("%*s", pad, fixed_text(false, v, sc, d).c_str()); what = "cat_ufixed"; vf_note("ufixed %u/%u %u %d", v, sc, pl, pad); rv = pad ? range_cat_ufixed_padded(&a, v, sc, pl, pad) : range_cat_ufixed(&a, v, sc, pl); vf_count("fixed"); break; }
      default: { long v = (long)(r.next() >> r.below(63)); if (r.chance(1, 2)) v = -v; if (r.chance(1, 20)) v = r.chance(1, 2) ? LONG_MIN : LONG_MAX; unsigned sc = scale_value(r); if (r.chance(1, 2)) v = (long)(r.range(-2, 2) * (int64_t)sc + r.range(-(int64_t)sc, (int64_t)sc)); int pl = (int)r.range(-1, 12), pad = r.chance(1, 2) ? 0 : (int)r.range(-25, 25); int d = sc > 1 ? ndigits(sc - 1) : 0; if (pl >= 0) d = std::min(d, pl); t = vf_fmt("%*s", pad, fixed_text(v < 0, v < 0 ? -(wide)v : (wide)v, sc, d).c_str()); what = "cat_fixed"; vf_note("fixed %ld/%u %d %d", v, sc, pl, pad); rv = pad ? range_cat_fixed_padded(&a, v, sc, pl, pad) : range_cat_fixed(&a, v, sc, pl); vf_count("fixed"); if (v < 0) vf_count("negative"); break; }
    }
    vf_note("%s %zu of %zu -> %d", what, t.size(), cap, rv); vf_count(what); vf_seen(vf_hash(vf_fmt("%s %zu %zu %d", what, t.size(), cap, rv)));
    bool must = nul || minus_one ? t.size() + 1 <= cap : t.size() < cap, may = must || (!nul && t.size() == cap) || (t.empty() && cap == 0); bool fits = rv >= 0 && may && (rv > 0 || t.empty());
    VF_CHECK(g.intact(), "range:outside", "%s of %zu bytes wrote outside a buffer with %zu bytes left", what, t.size(), cap); VF_CHECK(a.end == base + n, "range:end", "%s moved the end of the range", what); VF_CHECK(Str(base, pos) == before.substr(0, pos), "range:earlier", "%s changed earlier text", what);
    if (fits) { vf_count("fits"); VF_CHECK(rv == (int)t.size(), "range:count", "%s returned %d, the text has %zu bytes", what, rv, t.size()); VF_CHECK(a.start == start + t.size(), "range:start", "%s advanced by %td, the text has %zu bytes", what, a.start - start, t.size()); if (vf_case_failed()) return; VF_CHECK(Str(start, t.size()) == t, "range:text", "%s wrote %s, expected %s", what, vf_q(Str(start, t.size())).c_str(), vf_q(t).c_str()); size_t used = pos + t.size(); if (nul && used < n) { VF_CHECK(base[used] == 0, "range:nul", "%s did not terminate", what); used++; } VF_CHECK(Str(base + used, n - used) == before.substr(used), "range:later", "%s changed bytes behind its text", what); }
    else { vf_count("refused"); VF_CHECK(!must, "range:refused", "%s of %zu bytes was refused with %zu bytes left (%d)", what, t.size(), cap, rv); VF_CHECK(rv < 0 || t.empty(), "range:unreported", "%s of %zu bytes returned %d with %zu bytes left", what, t.size(), rv, cap); VF_CHECK(rv == (minus_one ? -1 : -(int)t.size()), "range:needed", "%s of %zu bytes returned %d", what, t.size(), rv); VF_CHECK(a.start == start, "range:start-failed", "%s moved the start by %td on failure", what, a.start - start); if (wipes && cap) VF_CHECK(*start == 0, "range:partial", "%s left partial text", what); }
  }
  if (vf_want_sample()) vf_sample(vf_trace());
}
static void copy_case(Rng &r, uint64_t) {
  size_t n = r.chance(1, 300) ? large(r) : r.below(24); Guarded g(n, 0xA5); size_t len = r.chance(1, 2) ? n + r.below(3) - std::min<size_t>(n, 1) : r.chance(1, 300) ? large(r) : r.below(30); Str t = text(r, len, true); CStr s(t); vf_eval();
  switch (r.below(4)) {
    case 0: { bool trunc = r.chance(1, 2); AppendRange a; range_init(&a, (char *)g.p, n); int rv = range_copy_str(&a, s, trunc); vf_note("copy %zu into %zu trunc %d -> %d", len, n, trunc, rv); vf_count("copy"); VF_CHECK(a.start == g.p && a.end == g.p + n, "copy:range", "the range was changed"); if (len + 1 <= n) VF_CHECK(rv == (int)len && t == (char *)g.p, "copy:text", "copy of %zu bytes into %zu returned %d", len, n, rv); else if (n && trunc) VF_CHECK(rv == -(int)n && t.substr(0, n - 1) == Str(g.p, n - 1) && g.p[n - 1] == 0, "copy:truncated", "truncated copy of %zu bytes into %zu returned %d", len, n, rv); else { VF_CHECK(rv == -(int)len, "copy:needed", "copy of %zu bytes into %zu returned %d", len, n, rv); if (n) VF_CHECK(g.p[0] == 0, "copy:partial", "partial text left"); } break; }
    case 1: { size_t rv = strlcpy((char *)g.p, s, n); vf_count("strlcpy"); VF_CHECK(rv == len, "strlcpy:result", "strlcpy of %zu bytes into %zu returned %zu", len, n, rv); if (n) VF_CHECK(Str((char *)g.p) == t.substr(0, n - 1), "strlcpy:text", "strlcpy of %zu bytes into %zu", len, n); break; }
    case 2: { Bytes b(t); bool bare = len + 1 >= n && r.chance(1, 2); const char *src = bare ? b.g.p : (const char *)s; vf_count(bare ? "strxcpy_bare" : "strxcpy_nul"); size_t rv = strxcpy((char *)g.p, src, n); size_t want = n ? std::min(len, n - 1) : 0; vf_count("strxcpy"); VF_CHECK(rv == want, "strxcpy:result", "strxcpy of %zu bytes into %zu returned %zu", len, n, rv); if (n) VF_CHECK(Str((char *)g.p) == t.substr(0, want), "strxcpy:text", "strxcpy of %zu bytes into %zu", len, n); break; }
    default: { size_t have = r.below(n + 2); Str d = text(r, std::min(have, n)); memcpy(g.p, d.data(), d.size()); if (d.size() < n) g.p[d.size()] = 0; size_t rv = strlcat((char *)g.p, s, n); vf_note("strlcat %zu + %zu in %zu", d.size(), len, n); vf_count("strlcat"); VF_CHECK(rv == d.size() + len, "strlcat:result", "strlcat of %zu bytes onto %zu in %zu returned %zu", len, d.size(), n, rv); Str want = d + t; if (d.size() < n) VF_CHECK(Str((char *)g.p) == want.substr(0, n - 1), "strlcat:text", "strlcat of %zu onto %zu in %zu", len, d.size(), n); else VF_CHECK(Str(g.p, n) == d, "strlcat:full", "the full buffer was changed"); }
  }
  VF_CHECK(g.intact() && s.g.intact() && t == (const char *)s, "copy:outside", "wrote outside the buffer, or changed the source"); vf_seen(vf_hash(vf_trace()));
}
static Str captured(const std::function<void(FILE *)> &fn) { static FILE *f = nullptr; if (!f) f = fdopen(memfd_create("out", 0), "w+"); rewind(f); fflush(f); if (ftruncate(fileno(f), 0)) abort(); fn(f); fflush(f); long n = ftell(f); Str o((size_t)n, 0); if (pread(fileno(f), &o[0], (size_t)n, 0) != n) abort(); return o; }
static void edit_case(Rng &r, uint64_t) { // operations on the text in a range; no byte outside is read or written
  static const char *WS = " \t\n\v\f\r"; Str t; for (size_t i = 0, n = r.below(3); i < n; i++) t += WS[r.below(6)]; t += r.chance(1, 3) ? Str() : text(r, r.chance(1, 300) ? large(r) : r.below(12), true); for (size_t i = 0, n = r.below(3); i < n; i++) t += WS[r.below(6)]; Str whole = t; bool nul = r.chance(1, 2); if (nul) { whole += '\0'; whole += text(r, r.below(5)); } if (r.chance(1, 20)) { whole.clear(); t.clear(); nul = false; }
  Bytes b(whole); char *p = b.g.p; size_t n = whole.size(); StringRange q; range_init(&q, p, n); AppendRange w; range_init(&w, p, n); Str want = whole; vf_eval(); int op = (int)r.below(12); vf_note("op %d on %s", op, vf_q(whole).c_str()); if (vf_want_sample()) vf_sample(vf_trace()); bool same = true;
  switch (op) {
    case 0: VF_CHECK(range_strlen(&q) == t.size(), "range:strlen", "the length of %s is reported as %zu", vf_q(whole).c_str(), range_strlen(&q)); vf_count("strlen"); break;
    case 1: case 2: case 3: { Str e = t; size_t l = 0; if (op != 2) { while (l < n && strchr(WS, whole[l]) && whole[l]) l++; } Str rest = whole.substr(l); if (op != 1) { size_t z = rest.find('\0'); if (z != Str::npos) rest.resize(z); while (!rest.empty() && strchr(WS, rest.back())) rest.pop_back(); } if (op == 1) range_ltrim(&q); else if (op == 2) range_rtrim(&q); else range_trim(&q); vf_count("trims"); VF_CHECK(q.start >= p && q.end <= p + n && q.start <= q.end, "trim:bounds", "the trimmed range [%td,%td) lies outside the %zu bytes", q.start - p, q.end - p, n); if (vf_case_failed()) return; VF_CHECK(Str(q.start, (size_t)range_size(&q)) == rest, "trim:text", "trimming %s gave %s, expected %s", vf_q(whole).c_str(), vf_q(Str(q.start, (size_t)range_size(&q))).c_str(), vf_q(rest).c_str()); break; }
    case 4: { char c = text(r, 1)[0]; int rv = range_pad_right(&q, c); size_t pad = n && t.size() < n - 1 ? n - 1 - t.size() : 0; if (pad) { want = t + Str(pad, c) + Str(1, 0); same = false; } vf_count("pads"); VF_CHECK(rv == (int)pad, "pad:count", "padding %s returned %d, expected %zu", vf_q(whole).c_str(), rv, pad); break; }
    case 5: range_terminate(&w); vf_count("terminates"); if (!nul && n) { want[n - 1] = 0; same = false; } VF_CHECK(w.start == p && w.end == p + n, "terminate:range", "the range was changed"); break;
    case 6: { size_t l = r.below(n + 3); range_set_len(&q, l); vf_count("set_lens"); if (l < n) { for (size_t i = l; i < n; i++) want[i] = 0; same = false; } VF_CHECK(range_strlen(&q) == (l < n ? std::min(l, t.size()) : t.size()), "set_len:length", "the length is %zu after truncation to %zu", range_strlen(&q), l); if (l < n) { for (size_t i = l + 1; i < n; i++) want[i] = p[i]; } break; }
    case 7: { Str o = r.chance(1, 3) ? t : r.chance(1, 3) ? t.substr(0, t.size() - std::min<size_t>(1, t.size())) : r.chance(1, 2) ? t + "x" : text(r, t.size()); if (r.chance(1, 5) && !o.empty()) o[r.below(o.size())] ^= 1; if (o.find('\0') != Str::npos) break; CStr s(o); bool e = range_eq(&q, s); vf_count(e ? "equal" : "different"); if (!nul) VF_CHECK(e == (whole == o), "eq:text", "%s == %s is reported as %d", vf_q(whole).c_str(), vf_q(o).c_str(), e); else VF_CHECK(!e || o == t, "eq:text", "%s == %s is reported as %d", vf_q(whole).c_str(), vf_q(o).c_str(), e); break; }
    case 8: { Str o = r.chance(1, 3) ? whole : r.chance(1, 3) ? whole.substr(0, n - std::min<size_t>(1, n)) : r.chance(1, 2) ? whole + "x" : text(r, n); Bytes s(o); StringRange q2; range_init(&q2, s.g.p, o.size()); bool e = range_eq_range(&q, &q2); vf_count(e ? "equal" : "different"); VF_CHECK(e == (whole == o), "eq:range", "%s == %s is reported as %d", vf_q(whole).c_str(), vf_q(o).c_str(), e); break; }
    case 9: { Str d; for (size_t i = 0, m = 1 + r.below(6); i < m; i++) d += (char)('0' + r.below(10)); if (r.chance(1, 2)) d[r.below(d.size())] = "x/: .\xb2"[r.below(6)]; bool digits = d.find_first_not_of("0123456789") == Str::npos; Bytes s(d); StringRange q2; range_init(&q2, s.g.p, d.size()); vf_count("is_int"); VF_CHECK(range_is_int(&q2) == digits, "range:is_int", "%s is an integer: %d", vf_q(d).c_str(), !digits); break; }
    default: { Str o = captured([&](FILE *f) { if (r.chance(1, 2)) { range_fputs(&q, f); return; } FILE *out = stdout; stdout = f; range_puts(&q); stdout = out; vf_count("stdout"); }); vf_count("outputs"); VF_CHECK(o == t, "range:output", "%s was printed as %s", vf_q(whole).c_str(), vf_q(o).c_str()); }
  }
  VF_CHECK(b.g.intact(), "range:outside", "operation %d wrote outside the range", op); VF_CHECK(Str(p, n) == want, same ? "range:modified" : "range:result", "operation %d left %s, expected %s", op, vf_q(Str(p, n)).c_str(), vf_q(want).c_str()); vf_seen(vf_hash(vf_trace()));
}
static void token_case(Rng &r, uint64_t) { // several strings tokenized in turns
  struct T { Str s, d; bool lim; size_t limit, used; std::vector<Str> want; size_t pos; bool done; Bytes *b; StringRange tok; CStr *del; std::vector<std::pair<size_t, size_t>> at; }; std::vector<T> ts(1 + r.below(3));
  for (auto &t : ts) { for (size_t i = 0, n = r.chance(1, 500) ? large(r) : r.below(25), rare = n > 200 ? 400 : 3; i < n; i++) t.s += r.chance(1, rare) ? ",; "[r.below(3)] : text(r, 1)[0]; t.d = r.chance(1, 10) ? "" : r.chance(1, 2) ? "," : r.chance(1, 2) ? ",; " : text(r, 1 + r.below(4)); t.lim = r.chance(1, 2); bool nul = !t.lim || r.chance(1, 3); Str mem = t.s + (nul ? Str(1, 0) : Str()); if (nul && t.lim) mem += text(r, r.below(4)); t.limit = t.lim ? (r.chance(1, 2) ? mem.size() : r.below(mem.size() + 1)) : mem.size(); Str eff = t.s.substr(0, std::min(t.limit, t.s.size())); size_t i = 0; while (true) { while (i < eff.size() && t.d.find(eff[i]) != Str::npos) i++; if (i >= eff.size()) break; size_t j = i; while (j < eff.size() && t.d.find(eff[j]) == Str::npos) j++; t.want.push_back(eff.substr(i, j - i)); t.at.push_back({i, j}); i = j; } t.pos = 0; t.done = false; t.b = new Bytes(mem); t.del = new CStr(t.d); memset(&t.tok, 0, sizeof t.tok); t.used = t.limit; vf_note("%s by %s limit %zu%s", vf_q(mem).c_str(), vf_q(t.d).c_str(), t.limit, t.lim ? "" : " (none)"); }
  size_t live = ts.size(); if (vf_want_sample()) vf_sample(vf_trace()); int extra = 2;
  while (live && !vf_case_failed()) { T &t = ts[r.below(ts.size())]; if (t.done) continue; const char *src = t.pos == 0 ? t.b->g.p : nullptr; bool ok = t.lim ? range_token_limit(src, *t.del, &t.tok, &t.used) : range_token(src, *t.del, &t.tok); vf_count("token_calls"); bool want = t.pos < t.want.size(); VF_CHECK(ok == want, "token:result", "call %zu on %s returned %d", t.pos, vf_q(t.s).c_str(), ok); if (!ok || vf_case_failed()) { if (ok != want) break; if (t.pos && extra-- > 0) { bool again = t.lim ? range_token_limit(nullptr, *t.del, &t.tok, &t.used) : range_token(nullptr, *t.del, &t.tok); VF_CHECK(!again, "token:after-end", "a token after the end of %s", vf_q(t.s).c_str()); } t.done = true; live--; continue; }
    VF_CHECK(t.tok.start == t.b->g.p + t.at[t.pos].first && t.tok.end == t.b->g.p + t.at[t.pos].second, "token:range", "token %zu of %s is [%td,%td), expected [%zu,%zu)", t.pos, vf_q(t.s).c_str(), t.tok.start - t.b->g.p, t.tok.end - t.b->g.p, t.at[t.pos].first, t.at[t.pos].second); if (t.lim) VF_CHECK(t.used == t.limit - t.at[t.pos].second, "token:limit", "limit is %zu after token %zu of %s, expected %zu", t.used, t.pos, vf_q(t.s).c_str(), t.limit - t.at[t.pos].second); t.pos++; vf_count("tokens"); }
  if (ts.size() > 1) vf_count("token_interleaved"); for (auto &t : ts) { VF_CHECK(t.b->g.intact() && Str(t.b->g.p, t.s.size()) == t.s, "token:modified", "the string was modified"); vf_seen(vf_hash(t.s + "|" + t.d + vf_fmt("%zu", t.limit))); delete t.b; delete t.del; } vf_eval(ts.size());
}
static void convert_case(Rng &r, uint64_t) { // base conversion behind the fixed point text
  for (int k = 0; k < 20; k++) {
    vf_eval(); unsigned long sc = scale_value(r); long v = (long)(r.next() >> (1 + r.below(62))); if (r.chance(1, 2)) v = r.range(0, 3) * (long)sc + (long)r.below(sc); if (r.chance(1, 2)) v = -v; long i = 77, f = 77; int d = to_fixed_base10_parts(v, sc, &i, &f); vf_note("%ld/%lu -> %ld,%ld e%d", v, sc, i, f, d); vf_count("parts"); wide p = 1; for (int j = 0; j < d; j++) p *= 10; wide got = (wide)i * p + f, err = got * (wide)sc - (wide)v * p; if (err < 0) err = -err;
    VF_CHECK(d == (sc > 1 ? ndigits((wide)sc - 1) : 0), "parts:digits", "%d digits for scale %lu", d, sc); VF_CHECK(2 * err <= (wide)sc && (f < 0 ? -f : f) < p && (i == 0 || f == 0 || (i < 0) == (f < 0)) && (f == 0 || (f < 0) == (v < 0)), "parts:value", "%ld/%lu became %ld and %ld/10^%d", v, sc, i, f, d);
    int pl = (int)r.range(-1, 11); long ai = i, af = f; int ad = fixed_base10_adjust(&ai, &af, d, pl); vf_count("adjusts"); int wd = pl < 0 ? d : std::min(d, pl); wide wp = 1; for (int j = 0; j < wd; j++) wp *= 10; wide drop = p / wp, mag = got < 0 ? -got : got, q = (2 * mag + drop) / (2 * drop); if (got < 0) q = -q; VF_CHECK(ad == wd && (wide)ai * wp + af == q && (af < 0 ? -af : af) < wp, "adjust:value", "%ld and %ld/10^%d to %d places became %ld and %ld/10^%d", i, f, d, pl, ai, af, ad);
    if (v > -1000000000L && v < 1000000000L) { int e = 9; long x = to_fixed_base10(v, sc, pl, &e); VF_CHECK(e == -wd && (wide)x == q, "base10:value", "%ld/%lu to %d places became %ld e%d", v, sc, pl, x, e); }
    if (vf_case_failed()) return; vf_seen(vf_hash(vf_fmt("%ld %ld %d", ai, af, ad)));
  }
}
void vf_setup() { vf_suite("append", 60000, 6000000, append_case); vf_suite("copy", 60000, 3000000, copy_case); vf_suite("edit", 80000, 5000000, edit_case); vf_suite("token", 40000, 3000000, token_case); vf_suite("convert", 10000, 1000000, convert_case); }
