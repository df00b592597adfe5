// C20: the hash table behaves as a map.
#include "vf.h"
#include <malloc.h>
#include <unordered_map>
#include <unordered_set>
extern "C" {
#include "evfs/util/dhash.h"
}
static int s_mode;            // hash distribution
static uint32_t s_mul;
static dhIKey hash_cb(dhKey k) { // computed from the bytes; adversarial distributions
  uint64_t h = vf_hash(k.data, k.length); switch (s_mode) { case 0: return (dhIKey)h; case 1: return 7; case 2: return (dhIKey)(h % 3) * s_mul; case 3: return (dhIKey)(h & 0xF) * s_mul + (dhIKey)(h >> 60); case 4: return 0; case 5: return (dhIKey)(h % 40) * s_mul; default: return (dhIKey)(h % 5); }
}
static dhIKey hash_int_cb(dhKey k) { uint64_t h = (uint64_t)(uintptr_t)k.data; switch (s_mode) { case 0: return dh_gen_hash_int(k); case 1: return 1; case 2: return (dhIKey)(h % 3); case 3: return (dhIKey)h * s_mul; case 4: return 0; case 5: return (dhIKey)(h & 7) * s_mul; default: return (dhIKey)(h >> 1); } }
static dhIKey hash_str_cb(dhKey k) { return s_mode ? hash_cb(k) : dh_gen_hash_string(k); }
struct Item { Str value; const char *keybuf; };
struct Table {
  dhash h; dhConfig cfg; bool ints = false, ownkeys = false; size_t vs = 8; std::map<Str, Item> model; std::set<Str> released; // released values: each handed out once
  Str expect_destroy; bool destroying = false; int destroyed = 0; bool refuse_replace = false; int replaces = 0, grows = 0; bool refuse_grow = false; size_t grown_to = 0; Str cur_key, cur_new; bool any = false; const Item *last = nullptr;
};
static Table *T;
static Str key_text(dhKey k) { return T->ints ? vf_fmt("%llu", (unsigned long long)(uintptr_t)k.data) : Str((const char *)k.data, k.length); }
static void destroy_cb(dhKey k, void *v, void *ctx) {
  if (ctx != T) { vf_violation("dhash:ctx", "the destructor got context %p", ctx); return; }
  T->destroyed++; if (!T->ints && !k.data && k.length == 0 && !T->model.count("")) { vf_violation("dhash:destroy-key", "the destructor got an empty key"); return; }
  Str key = key_text(k), val((const char *)v, T->vs); auto i = T->model.find(key); if (i == T->model.end()) { vf_violation("dhash:destroy-unknown", "the destructor got key %s which is not in the table", vf_q(key).c_str()); return; }
  VF_CHECK(val == i->second.value, "dhash:destroy-value", "the destructor for %s got value %s, the table held %s", vf_q(key).c_str(), vf_q(val).c_str(), vf_q(i->second.value).c_str()); if (!T->ints) VF_CHECK((const char *)k.data == i->second.keybuf, "dhash:destroy-keyptr", "the destructor for %s got another key object than was inserted", vf_q(key).c_str());
  if (T->vs >= 8 && !T->released.insert(val + key).second) vf_violation("dhash:destroy-twice", "the item of %s was released twice", vf_q(key).c_str());
  if (!T->any && key != T->expect_destroy) vf_violation("dhash:destroy-other", "the destructor got %s instead of %s", vf_q(key).c_str(), vf_q(T->expect_destroy).c_str());
  memset(v, 0xDD, T->vs); // the destructor may scribble on what it releases
}
static bool equal_cb(dhKey a, dhKey b, void *ctx) { if (ctx != T) vf_violation("dhash:ctx", "the comparison got context %p", ctx); return T->ints ? dh_equal_hash_keys_int(a, b, ctx) : dh_equal_hash_keys_string(a, b, ctx); }
static bool replace_cb(dhKey k, void *o, void *n, void *ctx) {
  T->replaces++; Str key = key_text(k); if (ctx != T) vf_violation("dhash:ctx", "the replace callback got context %p", ctx); auto i = T->model.find(key); if (i == T->model.end()) { vf_violation("dhash:replace-unknown", "the replace callback got key %s", vf_q(key).c_str()); return true; }
  VF_CHECK(key == T->cur_key && Str((const char *)o, T->vs) == i->second.value && Str((const char *)n, T->vs) == T->cur_new, "dhash:replace-args", "the replace callback for %s got the wrong values", vf_q(key).c_str()); return !T->refuse_replace;
}
static bool grow_cb(size_t n, void *ctx) { if (ctx != T) vf_violation("dhash:ctx", "the grow callback got context %p", ctx); T->grows++; T->grown_to = n; return !T->refuse_grow; }
static uint64_t s_id;
static Str new_value(Rng &r, size_t vs) { Str v = r.bytes(vs); uint64_t id = ++s_id; memcpy(&v[0], &id, std::min(vs, sizeof id)); return v; }
struct KeyBuf { std::vector<char *> all; char *make(const Str &s) { char *p = (char *)::operator new(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); all.push_back(p); return p; } ~KeyBuf() { for (auto p : all) ::operator delete(p); } };
static void verify_all(Table &t, const char *when) {
  VF_CHECK(dh_num_items(&t.h) == t.model.size(), "dhash:count", "%s: %zu items, the map holds %zu", when, dh_num_items(&t.h), t.model.size()); std::set<Str> seen; dhIter it; dh_iter_init(&t.h, &it); dhKey k; void *v;
  while (dh_iter_next(&it, &k, &v)) { Str key = key_text(k); auto i = t.model.find(key); if (i == t.model.end()) { vf_violation("dhash:iter-extra", "%s: iteration gave %s which is not in the map", when, vf_q(key).c_str()); return; } VF_CHECK(seen.insert(key).second, "dhash:iter-twice", "%s: iteration gave %s twice", when, vf_q(key).c_str()); VF_CHECK(Str((char *)v, t.vs) == i->second.value, "dhash:iter-value", "%s: iteration gave a wrong value for %s", when, vf_q(key).c_str()); if (!t.ints) VF_CHECK(k.data == i->second.keybuf, "dhash:iter-key", "%s: iteration gave another key object for %s", when, vf_q(key).c_str()); if (vf_case_failed()) return; }
  VF_CHECK(seen.size() == t.model.size(), "dhash:iter-missing", "%s: iteration gave %zu items of %zu", when, seen.size(), t.model.size()); VF_CHECK(!dh_iter_next(&it, &k, &v), "dhash:iter-end", "%s: iteration went on after its end", when); vf_count("iterated", seen.size()); vf_count("iterations");
}
struct FE { size_t n, stop; std::set<Str> seen; };
static FE s_fe;
static bool visit_cb(dhKey k, void *v, void *ctx) { if (ctx != &s_fe) vf_violation("dhash:ctx", "the visitor got context %p", ctx); Str key = key_text(k); auto i = T->model.find(key); if (i == T->model.end() || Str((char *)v, T->vs) != i->second.value || !s_fe.seen.insert(key).second) vf_violation("dhash:foreach", "the visitor got %s", vf_q(key).c_str()); s_fe.n++; return s_fe.n != s_fe.stop; }

static void ops(Rng &r, uint64_t, bool big) {
  Table t; T = &t; KeyBuf kb; memset(&t.h, 0x5A, sizeof t.h); s_mode = (int)r.below(7); s_mul = r.chance(1, 2) ? 1 : (uint32_t)r.next() | 1; if (big && s_mode != 0 && s_mode != 3) s_mode = 0; t.ints = r.chance(1, 3); static const size_t VS[] = {8, 8, 16, 24, 1, 4, 12, 3, 40, 64}; t.vs = VS[r.below(10)];
  memset(&t.cfg, 0, sizeof t.cfg); t.cfg.init_buckets = r.chance(1, 2) ? 0 : r.below(big ? 3000 : 200); t.cfg.value_size = t.vs; t.cfg.destroy_item = destroy_cb; t.cfg.gen_hash = t.ints ? hash_int_cb : hash_str_cb; t.cfg.is_equal = equal_cb; if (r.chance(1, 3)) t.cfg.replace_item = replace_cb; if (r.chance(1, 3)) t.cfg.grow_hash = grow_cb;
  int storage = big ? 0 : (int)r.below(4); std::unique_ptr<Guarded> ext; size_t bsz = 24 + ((t.vs + 7) & ~(size_t)7); if (storage == 2) t.cfg.max_storage = bsz * (11 + r.below(150)) + r.below(20); if (storage == 3) { t.cfg.max_storage = r.chance(1, 5) ? r.below(bsz * 12) : bsz * (11 + r.below(150)) + r.below(30); t.cfg.max_storage &= ~(size_t)7; ext.reset(new Guarded(t.cfg.max_storage)); t.cfg.ext_storage = ext->p; }
  vf_note("ints %d hash %d value %zu init %zu storage %d max %zu", t.ints, s_mode, t.vs, t.cfg.init_buckets, storage, t.cfg.max_storage); vfalloc::start(); bool ok = dh_init(&t.h, &t.cfg, &t);
  if (!ok) { VF_CHECK(storage >= 2, "dhash:init", "dh_init failed"); if (storage == 3) VF_CHECK(t.cfg.max_storage < bsz * 16 + 512, "dhash:init-ext", "dh_init refused %zu bytes of storage", t.cfg.max_storage); long l = vfalloc::stop(); VF_CHECK(l == 0, "dhash:init-leak", "a failed dh_init left %ld allocations", l); vf_count("init_refused"); return; }
  size_t universe = big ? 6000 : 1 + r.below(r.chance(1, 3) ? 400 : 40); int steps = big ? 12000 : r.range(20, 500); int bias = (int)r.below(3);
  auto mkkey = [&](Rng &q) { uint64_t n = q.below(universe); if (t.ints) return vf_fmt("%llu", (unsigned long long)(n == 1 ? 0xFFFFFFFFull : n == 2 ? (1ull << 32) : n)); switch (n % 5) { case 0: return vf_fmt("key/%llu", (unsigned long long)n); case 1: return Str("a") + Str(1, 0) + Str(1, (char)(n >> 8)) + Str(1, (char)n); case 2: return vf_fmt("%llu", (unsigned long long)n); case 3: return Str((size_t)(n % 37), 'x') + (char)(1 + n % 200); default: return n == 4 ? Str() : vf_fmt("/some/longer/path/with/%llu/file.txt", (unsigned long long)n); } };
  auto mk = [&](const Str &s, char **buf) { dhKey k; *buf = nullptr; if (t.ints) { k.data = (const void *)(uintptr_t)strtoull(s.c_str(), 0, 10); k.length = 0; } else { *buf = kb.make(s); k.data = *buf; k.length = s.size(); } return k; };
  for (int i = 0; i < steps && !vf_case_failed(); i++) {
    Str ks = mkkey(r); char *kbuf; dhKey k = mk(ks, &kbuf); auto it = t.model.find(ks); bool have = it != t.model.end(); uint64_t w = r.below(20); t.destroyed = 0; t.replaces = 0; t.grows = 0; t.any = false; t.expect_destroy = ks; t.cur_key = ks; if (bias == 1 && w > 14) w = 0; if (bias == 2 && w < 4) w = 12;
    if (w < 8) { // insert or update
      Str val = new_value(r, t.vs); Guarded g(t.vs); memcpy(g.p, val.data(), t.vs); t.cur_new = val; t.refuse_replace = r.chance(1, 6); t.refuse_grow = r.chance(1, 6); bool nomem = r.chance(1, 12); size_t items = dh_num_items(&t.h), cap = dh_cur_capacity(&t.h); if (!big) vf_note("insert %s%s", vf_q(ks, 40).c_str(), nomem ? " nomem" : "");
      if (nomem) vfalloc::arm(1); ok = dh_insert(&t.h, k, g.p); vfalloc::disarm(); bool denied = nomem && vfalloc::failed; vfalloc::failed = false; vf_count("inserts"); VF_CHECK(memcmp(g.p, val.data(), t.vs) == 0 && g.intact(), "dhash:value-modified", "inserting %s modified the caller's value", vf_q(ks).c_str()); if (!t.ints) VF_CHECK(memcmp(kbuf, ks.data(), ks.size()) == 0, "dhash:key-modified", "inserting modified the key");
      if (have) { bool refused = t.cfg.replace_item && t.refuse_replace; VF_CHECK(ok == !refused, "dhash:update", "updating %s returned %d, the replace callback %s", vf_q(ks).c_str(), ok, refused ? "refused" : "agreed"); VF_CHECK(t.replaces == (t.cfg.replace_item ? 1 : 0), "dhash:replace-calls", "%d calls of the replace callback", t.replaces); VF_CHECK(t.destroyed == (ok ? 1 : 0), "dhash:update-destroy", "%d destructor calls for the update of %s", t.destroyed, vf_q(ks).c_str()); vf_count(ok ? "updates" : "updates_refused"); if (ok) { it->second.value = val; it->second.keybuf = kbuf; } }
      else { VF_CHECK(t.destroyed == 0 && t.replaces == 0, "dhash:insert-destroy", "inserting a new key called the destructor %d times, replace %d times", t.destroyed, t.replaces); bool excused = (items >= cap && (storage >= 2 || (t.cfg.grow_hash && t.refuse_grow && t.grows))) || denied; VF_CHECK(ok || excused, "dhash:insert", "inserting %s with %zu items and capacity %zu failed", vf_q(ks).c_str(), items, cap); if (ok) { t.model[ks] = Item{val, kbuf}; if (t.grows) vf_count("grown"); } else { vf_count("insert_failed"); VF_CHECK(dh_cur_capacity(&t.h) == cap, "dhash:failed-grow", "a failed insertion changed the capacity"); } if (denied) vf_count("alloc_failed"); }
      if (t.grows && ok) VF_CHECK(t.grown_to >= t.model.size() && t.grown_to == dh_cur_capacity(&t.h), "dhash:grow-size", "the grow callback was told %zu, the capacity is %zu", t.grown_to, dh_cur_capacity(&t.h)); VF_CHECK(dh_cur_capacity(&t.h) >= dh_num_items(&t.h), "dhash:capacity", "%zu items, capacity %zu", dh_num_items(&t.h), dh_cur_capacity(&t.h));
    } else if (w < 12) {
      Guarded g(t.vs, 0x77); bool get = r.chance(3, 4); ok = dh_lookup(&t.h, k, get ? g.p : nullptr); VF_CHECK(ok == have, "dhash:lookup", "lookup of %s returned %d, in the map: %d", vf_q(ks).c_str(), ok, have); if (get && have) VF_CHECK(memcmp(g.p, it->second.value.data(), t.vs) == 0, "dhash:lookup-value", "lookup of %s gave another value", vf_q(ks).c_str()); vf_count(have ? "found" : "not_found");
    } else if (w < 14) {
      void *p = (void *)1; ok = dh_lookup_in_place(&t.h, k, &p); VF_CHECK(ok == have && (have ? p != nullptr : p == nullptr), "dhash:in-place", "lookup of %s in place returned %d", vf_q(ks).c_str(), ok); if (ok && p) { VF_CHECK(memcmp(p, it->second.value.data(), t.vs) == 0, "dhash:in-place-value", "lookup of %s in place gave another value", vf_q(ks).c_str()); VF_CHECK(((uintptr_t)p & 7) == 0 || storage == 3, "dhash:align", "the value is misaligned"); if (r.chance(1, 2)) { Str val = new_value(r, t.vs); memcpy(p, val.data(), t.vs); it->second.value = val; vf_count("changed_in_place"); } }
    } else if (w < 18) {
      bool take = r.chance(1, 2); Guarded g(t.vs, 0x77); if (!big) vf_note("remove %s%s", vf_q(ks, 40).c_str(), take ? " taking" : ""); ok = dh_remove(&t.h, k, take ? g.p : nullptr); VF_CHECK(ok == have, "dhash:remove", "removing %s returned %d, in the map: %d", vf_q(ks).c_str(), ok, have); VF_CHECK(t.destroyed == (have && !take ? 1 : 0), "dhash:remove-destroy", "%d destructor calls on removing %s%s", t.destroyed, vf_q(ks).c_str(), take ? " with its value taken" : ""); if (have && take) VF_CHECK(memcmp(g.p, it->second.value.data(), t.vs) == 0, "dhash:remove-value", "removing %s gave another value", vf_q(ks).c_str()); if (have) t.model.erase(it); vf_count(have ? "removed" : "remove_absent");
    } else if (w == 18 && r.chance(1, big ? 200 : 3)) {
      if (storage == 2) { size_t us = malloc_usable_size(t.h.buckets); VF_CHECK(us <= t.cfg.max_storage, "dhash:max-storage", "%zu bytes are used for buckets, the limit is %zu", us, t.cfg.max_storage); vf_count("limits_checked"); } verify_all(t, "after a step"); s_fe = FE(); s_fe.stop = r.chance(1, 2) ? 0 : 1 + r.below(t.model.size() + 2); dh_foreach(&t.h, visit_cb, &s_fe); size_t want = s_fe.stop && s_fe.stop < t.model.size() ? s_fe.stop : t.model.size(); VF_CHECK(s_fe.n == want, "dhash:foreach-count", "%zu items visited instead of %zu", s_fe.n, want); int lf = dh_load_factor(&t.h); VF_CHECK(lf >= 0 && lf <= 100, "dhash:load", "load factor %d", lf); int mx = dh_max_probe_count(&t.h), mean = dh_mean_probe_count(&t.h); VF_CHECK(t.model.empty() ? mx == 0 && mean == 0 : mx >= 1 && mean >= 100 && mean <= mx * 100 + 50, "dhash:probes", "mean %d max %d", mean, mx);
    } else if (w == 19 && r.chance(1, big ? 100 : 4)) {
      size_t add = r.chance(1, 40) ? ((size_t)1 << (31 + r.below(33))) + r.below(200) : r.below(big ? 2000 : 100); size_t cap = dh_cur_capacity(&t.h); t.refuse_grow = r.chance(1, 4); bool huge = add > (1u << 30); ok = dh_reserve_capacity(&t.h, add); vf_note("reserve %zu %d", add, ok); vf_count("reserves"); if (ok) VF_CHECK(dh_cur_capacity(&t.h) >= dh_num_items(&t.h) + add, "dhash:reserve", "room for %zu more was reserved, the capacity is %zu with %zu items", add, dh_cur_capacity(&t.h), dh_num_items(&t.h)); else { VF_CHECK(huge || storage >= 2 || t.refuse_grow, "dhash:reserve-failed", "reserving %zu failed", add); VF_CHECK(dh_cur_capacity(&t.h) == cap, "dhash:failed-reserve", "a failed reservation changed the capacity"); } VF_CHECK(dh_num_items(&t.h) == t.model.size(), "dhash:reserve-count", "reserving changed the number of items");
    }
    vf_seen(vf_hash(vf_fmt("%zu %d %d %zu %zu %d", t.model.size(), s_mode, (int)w, t.vs, dh_cur_capacity(&t.h), have)));
  }
  if (!vf_case_failed()) { verify_all(t, "at the end"); for (auto &m : t.model) { char *b; dhKey k = mk(m.first, &b); Guarded g(t.vs); if (!dh_lookup(&t.h, k, g.p) || memcmp(g.p, m.second.value.data(), t.vs)) { vf_violation("dhash:lost", "%s is not found at the end", vf_q(m.first).c_str()); break; } } }
  if (vf_want_sample()) vf_sample(vf_trace().substr(0, 800));
  if (vf_case_failed()) { vfalloc::stop(); return; }
  t.any = true; t.destroyed = 0; size_t n = t.model.size(); dh_free(&t.h); VF_CHECK((size_t)t.destroyed == n, "dhash:free", "dh_free released %d items of %zu", t.destroyed, n); long l = vfalloc::stop(); VF_CHECK(l == 0, "dhash:leak", "%ld allocations are left after dh_free", l); if (ext) VF_CHECK(ext->intact(), "dhash:ext", "wrote in front of the external storage"); vf_count("freed", n); dh_free(&t.h);
}
// more items with one hash than can be probed
static bool eq_fast(dhKey a, dhKey b, void *) { return a.data == b.data; }
static void none_cb(dhKey, void *, void *c) { ++*(long *)c; }
static dhIKey one_cb(dhKey) { return 99; }
static void probes(Rng &r, uint64_t idx) {
  vf_cpu_limit(300); long destroyed = 0; dhash h; dhConfig c; memset(&c, 0, sizeof c); c.value_size = 8; c.destroy_item = none_cb; c.gen_hash = one_cb; c.is_equal = eq_fast; dh_init(&h, &c, &destroyed); uint64_t n = 0, fails = 0; if (idx & 1) dh_reserve_capacity(&h, 40000);
  for (uint64_t i = 1; i < 32900 && fails < 3; i++) { dhKey k = {(void *)(uintptr_t)i, 0}; uint64_t v = i * 3; if (dh_insert(&h, k, &v)) { VF_CHECK(!fails, "dhash:probe-order", "an insertion succeeded after one had failed"); n++; } else fails++; VF_CHECK(v == i * 3, "dhash:value-modified", "the caller's value was modified"); }
  VF_CHECK(n >= 1000 && dh_num_items(&h) == n, "dhash:probe-count", "%llu insertions succeeded, %zu items", (unsigned long long)n, dh_num_items(&h)); vf_count("long_probes", n); vf_count("probe_limit", fails); std::vector<bool> seen(40000); dhIter it; dhKey k; void *v; dh_iter_init(&h, &it); uint64_t m = 0; while (dh_iter_next(&it, &k, &v)) { uint64_t i = (uintptr_t)k.data; if (i == 0 || i > n || seen[i] || *(uint64_t *)v != i * 3) { vf_violation("dhash:probe-lost", "iteration gave key %llu", (unsigned long long)i); break; } seen[i] = true; m++; } VF_CHECK(m == n, "dhash:probe-lost", "%llu items of %llu are left", (unsigned long long)m, (unsigned long long)n);
  for (int i = 0; i < 40; i++) { uint64_t q = 1 + r.below(n), g = 0; dhKey kq = {(void *)(uintptr_t)q, 0}; VF_CHECK(dh_lookup(&h, kq, &g) && g == q * 3, "dhash:probe-lookup", "key %llu is not found", (unsigned long long)q); } dhKey miss = {(void *)(uintptr_t)99999, 0}; VF_CHECK(!dh_lookup(&h, miss, nullptr), "dhash:probe-miss", "an absent key was found"); dh_free(&h); VF_CHECK(destroyed == (long)n, "dhash:free", "dh_free released %ld items of %llu", destroyed, (unsigned long long)n);
}
// The probe limit met by items that are moved, and by a table that grows. The hash function of the table is used
// to place the items; what is checked is only that each call does what it says and loses nothing.
static dhIKey data_cb(dhKey k) { return (dhIKey)(uintptr_t)k.data; }
static uint32_t placed(uint32_t x) { return (uint32_t)(((uint64_t)x * 0x9e3779b97f4a7c15ULL) >> 32); }
static std::unordered_map<uint64_t, uint32_t> *s_code; // key -> generated hash
static dhIKey code_cb(dhKey k) { auto f = s_code->find((uintptr_t)k.data); return f == s_code->end() ? 0 : f->second; }
static void all_there(dhash &h, const std::vector<uint64_t> &in, const char *when) {
  VF_CHECK(dh_num_items(&h) == in.size(), "dhash:limit-count", "%s there are %zu items instead of %zu", when, dh_num_items(&h), in.size());
  size_t step = in.size() > 5000 ? 1 + in.size() / 300 : 1; for (size_t i = 0; i < in.size(); i += i + 30 < in.size() ? std::min(step, in.size() - 30 - i) : 1) { uint64_t k = in[i], g = 0; dhKey kk = {(void *)(uintptr_t)k, 0}; if (!dh_lookup(&h, kk, &g) || g != k * 3) { vf_violation("dhash:limit-lost", "%s key %llu gives %llu", when, (unsigned long long)k, (unsigned long long)g); break; } }
  dhIter it; dhKey k; void *v; dh_iter_init(&h, &it); size_t m = 0; std::unordered_set<uint64_t> want(in.begin(), in.end()); while (m <= in.size() && dh_iter_next(&it, &k, &v)) { m++; uint64_t q = (uintptr_t)k.data; if (!want.erase(q) || *(uint64_t *)v != q * 3) { vf_violation("dhash:limit-iter", "%s iteration gives key %llu", when, (unsigned long long)q); return; } } VF_CHECK(m == in.size(), "dhash:limit-iter", "%s %zu items are visited instead of %zu", when, m, in.size());
}
static void limits(Rng &r, uint64_t idx) {
  vf_cpu_limit(300); long destroyed = 0; dhash h; dhConfig c; memset(&c, 0, sizeof c); c.value_size = 8; c.destroy_item = none_cb; c.is_equal = eq_fast; std::vector<uint64_t> in; auto put = [&](uint64_t k) { uint64_t v = k * 3; dhKey kk = {(void *)(uintptr_t)k, 0}; bool ok = dh_insert(&h, kk, &v); if (ok) in.push_back(k); return ok; };
  if (idx % 2 == 0) { // items in front of a run that is as long as it can be
    std::unordered_map<uint64_t, uint32_t> code; s_code = &code; c.gen_hash = code_cb; c.init_buckets = 40000 + r.below(3000); if (!dh_init(&h, &c, &destroyed)) { vf_violation("dhash:init", "dh_init failed"); return; }
    uint32_t P = (uint32_t)h.num_buckets, home = 5 + (uint32_t)r.below(P - 10), x[4] = {0, 0, 0, 0}; bool have[4] = {false, false, false, false}; for (uint32_t i = 1; i && !(have[0] && have[1] && have[2] && have[3]); i++) { uint32_t d = (home + P - placed(i) % P) % P; if (d < 4 && !have[d]) { have[d] = true; x[d] = i; } }
    uint64_t n = 0; for (uint64_t i = 1; i < 32900; i++) { code[i] = x[0]; if (put(i)) n++; else break; } vf_count("limit_run", n);
    all_there(h, in, "with a full run"); for (uint64_t i = 0; i < 12; i++) { uint64_t k = 100000 + i; code[k] = x[r.below(4)]; bool ok = put(k); vf_count(ok ? "limit_in" : "limit_refused"); vf_note("in front: %d", ok); } all_there(h, in, "after items in front of a full run");
    for (int i = 0; i < 30 && !in.empty(); i++) { size_t q = r.below(in.size()); dhKey kk = {(void *)(uintptr_t)in[q], 0}; VF_CHECK(dh_remove(&h, kk, nullptr), "dhash:limit-remove", "key %llu cannot be removed", (unsigned long long)in[q]); in.erase(in.begin() + q); uint64_t k = 200000 + i; code[k] = x[r.below(4)]; vf_count(put(k) ? "limit_in" : "limit_refused"); } destroyed = 0; all_there(h, in, "after removals from a full run"); s_code = &code; size_t left = in.size(); dh_free(&h); VF_CHECK(destroyed == (long)left, "dhash:free", "dh_free released %ld items of %zu", destroyed, left); vf_seen(vf_hash(vf_fmt("front %u %zu", home, left))); return;
  }
  c.gen_hash = data_cb; c.init_buckets = 36000 + r.below(2000); if (!dh_init(&h, &c, &destroyed)) { vf_violation("dhash:init", "dh_init failed"); return; } uint32_t P = (uint32_t)h.num_buckets; dhash nx; dhConfig c2 = c; c2.init_buckets = P + 1; if (!dh_init(&nx, &c2, &destroyed)) { vf_violation("dhash:init", "dh_init failed"); return; } uint32_t Q = (uint32_t)nx.num_buckets; dh_free(&nx);
  // spread in this table, next to each other in the table it grows to
  uint32_t w = 100 + (uint32_t)r.below(300), home = (uint32_t)r.below(Q - w - 1); size_t cap = dh_cur_capacity(&h), n = std::min<size_t>(33600, cap); bool fill = r.chance(1, 2) || n == cap; if (fill) n = cap; for (uint32_t i = 1; i && in.size() < n; i++) { uint32_t d = placed(i) % Q; if (d >= home && d < home + w && !put(i)) { vf_violation("dhash:limit-insert", "inserting item %zu of %zu failed", in.size(), cap); return; } }
  vf_note("%u buckets, then %u, %zu items", P, Q, n); bool ok; if (fill) { ok = put(2000000011u); } else { size_t add = cap - n + 1 + r.below(20); ok = dh_reserve_capacity(&h, add); VF_CHECK(!ok || dh_cur_capacity(&h) >= n + add, "dhash:reserve", "room for %zu was reserved, the capacity is %zu", add, dh_cur_capacity(&h)); } vf_count(ok ? "limit_grown" : "limit_not_grown"); if (!ok) VF_CHECK(dh_cur_capacity(&h) == cap, "dhash:failed-reserve", "growing failed but the capacity is %zu instead of %zu", dh_cur_capacity(&h), cap);
  all_there(h, in, "after growing"); for (int i = 0; i < 200 && !in.empty(); i++) { size_t q = r.below(in.size()); dhKey kk = {(void *)(uintptr_t)in[q], 0}; VF_CHECK(dh_remove(&h, kk, nullptr), "dhash:limit-remove", "key %llu cannot be removed", (unsigned long long)in[q]); in.erase(in.begin() + q); } for (int i = 0; i < 150; i++) { uint64_t k = 3000000000u + i; if (!put(k)) { vf_violation("dhash:limit-insert", "inserting after removals failed"); break; } } destroyed = 0; all_there(h, in, "at the end"); size_t left = in.size(); dh_free(&h); VF_CHECK(destroyed == (long)left, "dhash:free", "dh_free released %ld items of %zu", destroyed, left); vf_seen(vf_hash(vf_fmt("grow %u %u %zu %d", home, w, left, ok)));
}
static void helpers(Rng &r, uint64_t) { // provided callbacks
  for (int i = 0; i < 50; i++) { Str a = r.bytes(r.below(30)), b = a; if (r.chance(1, 2) && !b.empty()) b[r.below(b.size())] = (char)r.next(); if (r.chance(1, 4)) b += "x"; Guarded ga(a.size()), gb(b.size()); memcpy(ga.p, a.data(), a.size()); memcpy(gb.p, b.data(), b.size()); dhKey ka = {ga.p, a.size()}, kb = {gb.p, b.size()}; VF_CHECK(dh_equal_hash_keys_string(ka, kb, nullptr) == (a == b), "dhash:equal", "%s and %s compare %s", vf_q(a).c_str(), vf_q(b).c_str(), a == b ? "different" : "equal"); if (a == b) VF_CHECK(dh_gen_hash_string(ka) == dh_gen_hash_string(kb), "dhash:hash", "equal keys hash differently");
    Str u = a; for (auto &c : u) if (c >= 'a' && c <= 'z') c = (char)(c - 32); Guarded gu(u.size()); memcpy(gu.p, u.data(), u.size()); dhKey ku = {gu.p, u.size()}; VF_CHECK(dh_gen_hash_string_no_case(ka) == dh_gen_hash_string_no_case(ku), "dhash:hash-case", "%s and %s hash differently without case", vf_q(a).c_str(), vf_q(u).c_str()); dhKey x = {(void *)(uintptr_t)r.below(10), 0}, y = {(void *)(uintptr_t)r.below(10), 0}; VF_CHECK(dh_equal_hash_keys_int(x, y, nullptr) == (x.data == y.data), "dhash:equal-int", "integer keys"); vf_count("helpers"); }
}
void vf_setup() {
  vf_suite("map", 9000, 1000000, [](Rng &r, uint64_t i) { ops(r, i, false); });
  vf_suite("map_big", 60, 4000, [](Rng &r, uint64_t i) { ops(r, i, true); });
  vf_suite("helpers", 1000, 50000, helpers);
  vf_suite("probes", 2, 2, probes);
  vf_suite("limits", 8, 200, limits);
}
