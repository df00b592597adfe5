// C32: integer mathematics and unaligned access.
#include <climits>
#include <cmath>
#include <algorithm>
#include "vf.h"
extern "C" {
#include "evfs/util/intmath.h"
}
#include "evfs/util/unaligned_access.h"
#define ONE(T, S) extern "C" T vf_get_##S(void *p, int order); extern "C" void vf_set_##S(T v, void *p, int order);
ONE(uint16_t, u16) ONE(int16_t, s16) ONE(uint32_t, u32) ONE(int32_t, s32) ONE(uint64_t, u64) ONE(int64_t, s64)
#undef ONE
typedef unsigned __int128 U128; typedef __int128 I128;
// a value of any magnitude, often next to a power of two or ten
static uint64_t mag(Rng &r, int bits) {
  uint64_t top = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
  switch (r.below(6)) {
    case 0: v = r.next(); break;
    case 1: v = r.next() >> r.below(64); break;
    case 2: v = (1ull << r.below((uint64_t)bits)) + (uint64_t)r.range(-2, 2); break;
    case 3: { v = 1; for (uint64_t k = r.below(20); k; k--) v *= 10; v += (uint64_t)r.range(-2, 2); break; }
    case 4: v = top - r.below(4); break;
    default: v = r.below(200); break;
  }
  return v & top;
}
static long sval(Rng &r) { long v = (long)(mag(r, 64) >> r.below(64)); v &= INT64_MAX; return r.chance(1, 2) ? -v : v; }
static U128 p10(int k) { U128 v = 1; while (k-- > 0) v *= 10; return v; }
static I128 half_away(I128 a, I128 b) { return a < 0 ? -(I128)((-a + b / 2) / b) : (a + b / 2) / b; }      // b > 0
static int digits(uint64_t n) { int k = 1; while (n >= 10) n /= 10, k++; return k; }
static void ints(Rng &r, uint64_t) {
  for (int i = 0; i < 200 && !vf_case_failed(); i++) {
    uint32_t n = (uint32_t)mag(r, 32); if (!n) n = 1;
    if (n <= 0x80000000u) { uint32_t w = 1; while (w < n) w <<= 1; uint32_t g = ceil_pow2(n); VF_CHECK(g == w, "int:ceil-pow2", "ceil_pow2(%u) is %u, expected %u", n, g, w); }
    { uint32_t w = 0x80000000u; while (w > n) w >>= 1; uint32_t g = floor_pow2(n); VF_CHECK(g == w, "int:floor-pow2", "floor_pow2(%u) is %u, expected %u", n, g, w); }
    unsigned d = base10_digits(n), l = ilog10(n); VF_CHECK(d == (unsigned)digits(n) && l == d - 1 && base10_digits(0) == 1, "int:log10", "%u: ilog10 %u, %u digits", n, l, d);
    unsigned b = r.chance(1, 3) ? (unsigned)mag(r, 32) : (unsigned)r.range(2, 40); if (b < 2) b = 2; unsigned w = 0; for (uint64_t x = b; x <= n; x *= b) w++; unsigned g = ilog_b(n, b); VF_CHECK(g == w, "int:log-b", "ilog_b(%u, %u) is %u, expected %u", n, b, g, w);
    unsigned e = (unsigned)r.below(32); int32_t lg = log2_fixed(n, e); double t = (log2((double)n) - e) * 32768; VF_CHECK(fabs(lg - t) <= 4, "int:log2", "log2_fixed(%u, %u) is %d, expected %.1f", n, e, lg, t);
    vf_count("integers"); vf_seen(vf_hash(vf_fmt("%u %u %u %d", d, g, b, lg >> 12)));
  }
}
static void roots(Rng &r, uint64_t) {
  for (int i = 0; i < 300 && !vf_case_failed(); i++) {
    unsigned long v = mag(r, 64); if (r.chance(1, 3)) { uint64_t q = mag(r, 32); v = q * q + (uint64_t)r.range(-1, 1); } unsigned e = 2 * (unsigned)r.below(32);
    U128 x = (U128)v << e, q = 0; for (int k = 63; k >= 0; k--) { U128 t = q | ((U128)1 << k); if (t * t <= x) q = t; }
    unsigned long g = isqrt_fixed(v, e); VF_CHECK((U128)g + 1 >= q && (U128)g <= q + 1, "int:sqrt", "isqrt_fixed(%lu, %u) is %lu, expected %llu", v, e, g, (unsigned long long)q); if (e == 0 && q * q == x) VF_CHECK((U128)g == q, "int:sqrt", "isqrt_fixed(%lu, 0) is %lu", v, g);
    vf_count("roots"); if (v >> 62) vf_count("large_roots"); vf_seen(vf_hash(vf_fmt("%d %u", digits(g), e)));
  }
}
static void fixed(Rng &r, uint64_t) {
  for (int i = 0; i < 200 && !vf_case_failed(); i++) {
    { unsigned v = (unsigned)mag(r, 32), s = std::max(1u, (unsigned)mag(r, r.chance(1, 2) ? 10 : 32)), g = ufixed_to_uint(v, s); uint64_t w = ((uint64_t)v + s / 2) / s; VF_CHECK(g == w, "int:ufixed", "ufixed_to_uint(%u, %u) is %u, expected %llu", v, s, g, (unsigned long long)w); }
    { int v = (int)(uint32_t)mag(r, 32); unsigned s = std::max(1u, (unsigned)mag(r, r.chance(1, 2) ? 10 : 31)); int g = fixed_to_int(v, s); I128 w = half_away(v, s); VF_CHECK(g == (long)w, "int:fixed", "fixed_to_int(%d, %u) is %d, expected %ld", v, s, g, (long)w); }
    long v = r.chance(1, 40) ? LONG_MIN : sval(r); unsigned long s = mag(r, r.chance(1, 2) ? 12 : 32); if (r.chance(1, 4)) s = (unsigned long)p10(r.range(0, 9)); int D = s <= 1 ? 0 : std::min(9, digits(s - 1));
    I128 S = s <= 1 ? 1 : (I128)s, P = (I128)p10(D), q = v / S, rem = v % S; if (rem < 0) rem = -rem; I128 f = (rem * P + S / 2) / S; if (f >= P) { q += v < 0 ? -1 : 1; f = 0; } if (v < 0) f = -f;
    long vi = 99, vf = 99; int d = to_fixed_base10_parts(v, s, &vi, &vf); VF_CHECK(d == D && vi == (long)q && vf == (long)f, "int:parts", "to_fixed_base10_parts(%ld, %lu) is %ld + %ld / 10^%d, expected %ld + %ld / 10^%d", v, s, vi, vf, d, (long)q, (long)f, D);
    int places = r.range(-1, 11), E = D; I128 q2 = q, f2 = f; if (places >= 0 && places < D) { E = places; I128 k = (I128)p10(D - places); f2 = half_away(f, k); if (f2 >= (I128)p10(E) || -f2 >= (I128)p10(E)) { q2 += f < 0 ? -1 : 1; f2 = 0; } }
    if (q2 <= LONG_MAX && q2 >= LONG_MIN) {
      long ai = (long)q, af = (long)f; int ad = fixed_base10_adjust(&ai, &af, D, places); VF_CHECK(ad == E && ai == (long)q2 && af == (long)f2, "int:adjust", "fixed_base10_adjust(%ld, %ld, %d, %d) is %ld + %ld / 10^%d, expected %ld + %ld / 10^%d", (long)q, (long)f, D, places, ai, af, ad, (long)q2, (long)f2, E);
      I128 w = q2 * (I128)p10(E) + f2; if (q2 * (I128)p10(E) <= LONG_MAX && q2 * (I128)p10(E) >= LONG_MIN && w <= LONG_MAX && w >= LONG_MIN) { int x = 99; long g = to_fixed_base10(v, s, places, &x); VF_CHECK(x == -E && g == (long)w, "int:base10", "to_fixed_base10(%ld, %lu, %d) is %ld * 10^%d, expected %ld * 10^%d", v, s, places, g, x, (long)w, -E); vf_count("base10"); }
    }
    vf_count("fixed"); if (v < 0) vf_count("fixed_negative"); if (E < D) vf_count("fixed_rounded"); vf_seen(vf_hash(vf_fmt("%d %d %d %d", digits((uint64_t)std::labs(vi | 1)), D, E, v < 0)));
  }
}
static void si(Rng &r, uint64_t) {
  for (int i = 0; i < 200 && !vf_case_failed(); i++) {
    int x = r.chance(1, 3) ? 0 : r.range(-18, 18); bool p2 = r.chance(1, 3); unsigned s = r.chance(1, 2) ? (unsigned)p10(r.range(0, 6)) : std::max(1u, (unsigned)mag(r, 24)); long v = sval(r) >> r.below(20);
    int at = x >= 0 ? x / 3 : -((-x + 2) / 3), pre = x - 3 * at; I128 V = (I128)v * (I128)p10(pre), A = V < 0 ? -V : V; if (A > 1000000000000000000 || A * s > LONG_MAX) continue; I128 pw = x == 0 && p2 ? 1024 : 1000, m = 1;
    while (A >= m * pw && at < 6) { m *= pw; at++; }
    I128 w = (A * s + m / 2) / m; if (A * s + m / 2 > LONG_MAX || at < -6) continue; if (V < 0) w = -w; static const char P[] = "afpnum\0kMGTPE"; char want = P[at + 6], got = 'x'; long g = to_fixed_si(v, x, s, &got, p2);
    VF_CHECK(g == (long)w && got == want, "int:si", "to_fixed_si(%ld, %d, %u, %d) is %ld '%c', expected %ld '%c'", v, x, s, p2, g, got ? got : ' ', (long)w, want ? want : ' '); vf_count("si"); if (x < 0) vf_count("si_negative_exponent"); vf_seen(vf_hash(vf_fmt("%d %d %d %d", at, x, p2, digits((uint64_t)std::labs(g)))));
  }
}
static int16_t s16(Rng &r) { return r.chance(1, 4) ? (int16_t)r.pick(std::vector<int>{-32768, -32767, -1, 0, 1, 32766, 32767}) : (int16_t)r.next(); }
static uint16_t u16(Rng &r) { return r.chance(1, 4) ? (uint16_t)r.pick(std::vector<int>{0, 1, 32767, 32768, 65534, 65535}) : (uint16_t)r.next(); }
static double curve(int a, int b, int c, double t) { return (1 - t) * (1 - t) * a + 2 * t * (1 - t) * b + t * t * c; }
static void curves(Rng &r, uint64_t) {
  for (int i = 0; i < 100 && !vf_case_failed(); i++) {
    Point16 a = {s16(r), s16(r)}, b = {s16(r), s16(r)}, c = {s16(r), s16(r)}; uint16_t t = u16(r); double T = t / 65536.0;
    Point16 p = interpolate_points(a, b, t); double ex = a.x + T * (b.x - a.x), ey = a.y + T * (b.y - a.y); VF_CHECK(fabs(p.x - ex) <= 1 && fabs(p.y - ey) <= 1, "int:interpolate", "between %d,%d and %d,%d at %u: %d,%d, expected %.1f,%.1f", a.x, a.y, b.x, b.y, t, p.x, p.y, ex, ey);
    Point16 z = quadratic_bezier(a, b, c, t); double zx = curve(a.x, b.x, c.x, T), zy = curve(a.y, b.y, c.y, T); VF_CHECK(fabs(z.x - zx) <= 4 && fabs(z.y - zy) <= 4, "int:bezier", "curve %d %d %d / %d %d %d at %u: %d,%d, expected %.1f,%.1f", a.x, b.x, c.x, a.y, b.y, c.y, t, z.x, z.y, zx, zy); VF_CHECK(quadratic_eval(a.x, b.x, c.x, t) == z.x, "int:bezier-eval", "the polynomial and the curve differ");
    int q[3] = {a.x, b.x, c.x}; std::sort(q, q + 3); a.x = (int16_t)q[0]; b.x = (int16_t)q[1]; c.x = (int16_t)q[2]; int16_t x = (int16_t)(q[0] + (int)r.below((uint64_t)(q[2] - q[0] + 1))); uint16_t s = bezier_search_t(a, b, c, x); double at = curve(q[0], q[1], q[2], s / 65536.0); VF_CHECK(fabs(at - x) <= 12, "int:bezier-search", "curve %d %d %d is %.1f at %u, searched for %d", q[0], q[1], q[2], at, s, x);
    vf_count("curves"); vf_seen(vf_hash(vf_fmt("%d %d %d", z.x >> 9, z.y >> 9, t >> 10)));
  }
}
template <class T, class G, class S> static void access1(Rng &r, G get, S set, const char *what) {
  size_t n = sizeof(T), off = r.below(9); Guarded g(off + n, (unsigned char)r.next()), h(off + n, 0x5a); T v = (T)(r.chance(1, 4) ? (uint64_t)r.range(-3, 3) : r.next());
  for (int order = 0; order < 3; order++) {
    Str want(n, 0); for (size_t i = 0; i < n; i++) want[order == 1 ? n - 1 - i : i] = (char)((uint64_t)v >> (8 * i));
    Str before(g.p, off); set(v, g.p + off, order); VF_CHECK(Str(g.p + off, n) == want && Str(g.p, off) == before && g.intact(), "int:unaligned-set", "storing %s %llx in order %d wrote other bytes", what, (unsigned long long)v, order);
    T b = get(g.p + off, order); VF_CHECK(b == v && g.intact(), "int:unaligned-get", "loading %s %llx in order %d gave %llx", what, (unsigned long long)v, order, (unsigned long long)b);
    char *d = h.p + off; if (order == 0) set_unaligned(v, d); else if (order == 1) set_unaligned_be(v, d); else set_unaligned_le(v, d); VF_CHECK(Str(d, n) == want && h.intact(), "int:unaligned-set", "storing %s %llx in order %d (template) wrote other bytes", what, (unsigned long long)v, order);
    const T *q = (const T *)(const void *)d; T c = order == 0 ? get_unaligned(q) : order == 1 ? get_unaligned_be(q) : get_unaligned_le(q); VF_CHECK(c == v, "int:unaligned-get", "loading %s %llx in order %d (template) gave %llx", what, (unsigned long long)v, order, (unsigned long long)c);
    vf_count("unaligned"); vf_seen(vf_hash(vf_fmt("%s %zu %d %d", what, off, order, (int)(v & 255))));
  }
}
static void access(Rng &r, uint64_t) {
  for (int i = 0; i < 20 && !vf_case_failed(); i++) {
    access1<uint16_t>(r, vf_get_u16, vf_set_u16, "u16"); access1<int16_t>(r, vf_get_s16, vf_set_s16, "s16"); access1<uint32_t>(r, vf_get_u32, vf_set_u32, "u32");
    access1<int32_t>(r, vf_get_s32, vf_set_s32, "s32"); access1<uint64_t>(r, vf_get_u64, vf_set_u64, "u64"); access1<int64_t>(r, vf_get_s64, vf_set_s64, "s64");
  }
}
void vf_setup() {
  vf_suite("integers", 3000, 200000, ints); vf_suite("roots", 1500, 100000, roots); vf_suite("fixed", 3000, 200000, fixed);
  vf_suite("si", 2000, 100000, si); vf_suite("curves", 2000, 100000, curves); vf_suite("access", 2000, 100000, access);
}
