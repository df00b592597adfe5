// C29: sorted searches.
#include <algorithm>
#include "vf.h"
extern "C" {
#include "evfs/util/search.h"
void *vf_bsearch(const void *key, const void *base, size_t num, size_t item_size);
int vf_bs_compare(const void *k, const void *e);
}
static const char *s_base; static size_t s_num, s_isz; static const void *s_key; static uint64_t s_calls; static int s_dir = 1;
static int64_t val(const void *p) { int64_t v; if (s_isz >= 8) memcpy(&v, p, 8); else if (s_isz >= 4) { int32_t w; memcpy(&w, p, 4); v = w; } else if (s_isz >= 2) { int16_t w; memcpy(&w, p, 2); v = w; } else v = *(const signed char *)p; return v; }
static void setv(void *p, int64_t v) { if (s_isz >= 8) memcpy(p, &v, 8); else if (s_isz >= 4) { int32_t w = (int32_t)v; memcpy(p, &w, 4); } else if (s_isz >= 2) { int16_t w = (int16_t)v; memcpy(p, &w, 2); } else *(signed char *)p = (signed char)v; }
static void arg(const void *p) { const char *c = (const char *)p; if (p == s_key) return; if (c < s_base || c >= s_base + s_num * s_isz || (size_t)(c - s_base) % s_isz) { vf_violation("search:outside", "the comparison got %p, the array is %p with %zu items of %zu bytes", p, (const void *)s_base, s_num, s_isz); static char zero[64]; (void)zero; } }
static bool inside(const void *p) { const char *c = (const char *)p; return p == s_key || (c >= s_base && c < s_base + s_num * s_isz); }
static ptrdiff_t cmp(const void *k, const void *e) { s_calls++; arg(k); arg(e); if (!inside(k) || !inside(e)) return 0; return (ptrdiff_t)(s_dir * (val(k) - val(e))); }
int vf_bs_compare(const void *k, const void *e) { s_calls++; arg(k); arg(e); if (!inside(k) || !inside(e)) return 0; int64_t d = val(k) - val(e); return d < 0 ? -1 : d > 0; }
static void one(const std::vector<int64_t> &a, int64_t key) { // a sorted ascending in the order given by s_dir
  size_t n = a.size(); Guarded g(n * s_isz, 0x11), gk(s_isz, 0x22); for (size_t i = 0; i < n; i++) setv(g.p + i * s_isz, a[i]); setv(gk.p, key); key = val(gk.p); s_base = g.p; s_num = n; s_key = gk.p; Str before(g.p, n * s_isz); s_calls = 0;
  auto ord = [&](int64_t x) { return s_dir * x; }; bool present = false; for (auto x : a) if (x == key) present = true;
  ptrdiff_t e = search_exact(gk.p, g.p, n, s_isz, cmp); vf_count("exact"); VF_CHECK(present ? (e >= 0 && (size_t)e < n && a[(size_t)e] == key) : e == -1, "search:exact", "exact search for %lld in %zu items returned %td, it is %s", (long long)key, n, e, present ? "there" : "not there");
  size_t near = search_nearest(gk.p, g.p, n, s_isz, cmp), up = search_nearest_above(gk.p, g.p, n, s_isz, cmp), down = search_nearest_below(gk.p, g.p, n, s_isz, cmp); vf_count("nearest", 3);
  if (n) {
    VF_CHECK(near < n && up < n && down < n, "search:index", "searches for %lld in %zu items returned %zu, %zu, %zu", (long long)key, n, near, up, down); if (vf_case_failed()) return;
    int64_t best = INT64_MAX; for (auto x : a) best = std::min(best, std::labs(x - key)); VF_CHECK(std::labs(a[near] - key) == best, "search:nearest", "the nearest item to %lld is %ld away, item %zu is %lld", (long long)key, (long)best, near, (long long)a[near]);
    const int64_t *above = nullptr, *below = nullptr; for (auto &x : a) { if (ord(x) >= ord(key) && (!above || ord(x) < ord(*above))) above = &x; if (ord(x) <= ord(key) && (!below || ord(x) > ord(*below))) below = &x; }
    int64_t wa = above ? *above : a[n - 1], wb = below ? *below : a[0]; VF_CHECK(a[up] == wa, "search:above", "nearest above %lld gave %lld, expected %lld", (long long)key, (long long)a[up], (long long)wa); VF_CHECK(a[down] == wb, "search:below", "nearest below %lld gave %lld, expected %lld", (long long)key, (long long)a[down], (long long)wb);
    if (!above) { vf_count("beyond"); VF_CHECK(up == n - 1 && near <= n - 1, "search:beyond", "key after all items: %zu of %zu", up, n); } if (!below) { vf_count("before"); VF_CHECK(down == 0, "search:before", "key before all items: %zu", down); }
  } else { vf_count("empty"); VF_CHECK(s_calls == 0, "search:empty", "items of an empty array were compared"); }
  if (s_dir > 0) { s_calls = 0; void *p = vf_bsearch(gk.p, g.p, n, s_isz); vf_count("generated"); VF_CHECK(present ? (p && inside(p) && val(p) == key) : p == nullptr, "search:generated", "the generated search for %lld returned %p", (long long)key, p); }
  VF_CHECK(memcmp(before.data(), g.p, before.size()) == 0 && g.intact(), "search:modified", "the array was modified"); vf_seen(vf_hash(vf_fmt("%zu %zu %zu %zu %td %zu", n, near, up, down, e, s_isz)));
}
static void random_case(Rng &r, uint64_t) {
  static const size_t SZ[] = {1, 2, 4, 4, 8, 8, 12, 16, 24, 3, 40}; s_isz = SZ[r.below(11)]; s_dir = r.chance(1, 4) ? -1 : 1; size_t n = r.chance(1, 150) ? (vf_count("large_arrays"), r.pick(std::vector<size_t>{32767, 32768, 65535, 65536, 65537, 100000, 200000})) : r.chance(1, 8) ? r.below(2000) : r.below(30); int64_t span = r.chance(1, 3) ? 5 : r.chance(1, 2) ? 200 : (int64_t)1 << (s_isz >= 8 ? 40 : 14); if (s_isz < 2) span = std::min<int64_t>(span, 60); else if (s_isz < 4) span = std::min<int64_t>(span, 15000); std::vector<int64_t> a; int64_t off = r.chance(1, 2) ? 0 : -span / 2;
  for (size_t i = 0; i < n; i++) a.push_back(off + (int64_t)r.below((uint64_t)span)); std::sort(a.begin(), a.end()); if (r.chance(1, 2)) a.erase(std::unique(a.begin(), a.end()), a.end()); if (s_dir < 0) std::reverse(a.begin(), a.end());
  vf_note("%zu items of %zu bytes, span %lld, direction %d", a.size(), s_isz, (long long)span, s_dir); if (vf_want_sample()) vf_sample(vf_trace());
  for (int i = 0; i < 30 && !vf_case_failed(); i++) { int64_t k = !a.empty() && r.chance(1, 2) ? r.pick(a) + r.range(-1, 1) : off - 3 + (int64_t)r.below((uint64_t)span + 6); if (r.chance(1, 20) && s_isz >= 4) k = r.chance(1, 2) ? off - 100000 : off + span + 100000; one(a, k); vf_eval(); }
}
static void exhaustive(Rng &, uint64_t idx) { // every sorted array of up to 7 items over 0..7 step 2 with every key
  s_isz = idx & 1 ? 4 : 1; s_dir = idx & 2 ? -1 : 1; size_t n = idx >> 2; std::vector<int64_t> a(n); std::function<void(size_t, int)> rec = [&](size_t i, int from) { if (vf_case_failed()) return; if (i == n) { std::vector<int64_t> b = a; if (s_dir < 0) std::reverse(b.begin(), b.end()); for (int k = -2; k <= 16; k++) one(b, k); vf_eval(19); return; } for (int v = from; v <= 14; v += i % 2 ? 2 : 1) { a[i] = v; rec(i + 1, v); } }; rec(0, 0);
}
void vf_setup() { vf_suite("search", 6000, 600000, random_case); vf_suite("search_exhaustive", 24, 28, exhaustive); }
