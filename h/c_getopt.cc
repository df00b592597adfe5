// C30: command line options. The oracle is a model of the getopt_long rules as this parser documents them; it works on
// the vector of strings and never looks at the parser's own state.
#include <algorithm>
#include "vf.h"
#include <unistd.h>
#include <sys/mman.h>
extern "C" {
#include "evfs/util/getopt_r.h"
}
struct LongDef { Str name; int arg; bool flag; int val; };
struct Spec { Str opts; bool table; std::vector<LongDef> lo; bool permute; };
struct Item { int rval; bool has_arg; Str arg; int optopt; bool judge_optopt; int long_index; int flag; int flag_val; Str what; };
struct Result { std::vector<Item> items; std::vector<Str> final_args; size_t operand; };
static bool is_option(const Str &a) { return a.size() > 1 && a[0] == '-'; }
static int short_kind(const Str &opts, char c) { size_t i = opts[0] == ':' ? 1 : 0; if (c == ':') return -1; for (; i < opts.size(); i++) if (opts[i] == c) return opts.compare(i + 1, 2, "::") == 0 ? 2 : opts.compare(i + 1, 1, ":") == 0 ? 1 : 0; return -1; }
static Result model(const Spec &s, const std::vector<Str> &argv) {
  Result R; std::vector<Str> used, operands; size_t i = 1; size_t n = argv.size(); bool colon = !s.opts.empty() && s.opts[0] == ':'; auto missing = [&] { return colon ? ':' : '?'; };
  auto put = [&](int rval, const Str *arg, int optopt, bool judge, int li, Str what) { Item it; it.rval = rval; it.has_arg = arg != nullptr; if (arg) it.arg = *arg; it.optopt = optopt; it.judge_optopt = judge; it.long_index = li; it.flag = -1; it.flag_val = 0; it.what = what; R.items.push_back(it); };
  while (i < n) {
    const Str &a = argv[i];
    if (!is_option(a)) { if (!s.permute) break; operands.push_back(a); i++; continue; }
    if (a == "--") { used.push_back(a); i++; break; }
    if (a[1] == '-') {
      if (!s.table) break; // without a table of long options this is where the options end
      used.push_back(a); i++; size_t eq = a.find('='); Str name = a.substr(2, eq == Str::npos ? Str::npos : eq - 2); int m = -1; for (size_t k = 0; k < s.lo.size() && m < 0; k++) if (s.lo[k].name == name) m = (int)k;
      if (m < 0) { put('?', nullptr, 0, true, -1, a); continue; }
      const LongDef &d = s.lo[(size_t)m]; int err_opt = d.flag ? 0 : d.val; Str arg; bool have = false;
      if (eq != Str::npos) { if (d.arg == 0) { put('?', nullptr, err_opt, true, -1, a); continue; } arg = a.substr(eq + 1); have = true; }
      else if (d.arg == 1) { if (i < n) { arg = argv[i]; used.push_back(arg); i++; have = true; } else { put(missing(), nullptr, err_opt, true, -1, a); continue; } }
      put(d.flag ? 0 : d.val, have ? &arg : nullptr, 0, false, m, a); if (d.flag) { R.items.back().flag = m; R.items.back().flag_val = d.val; } continue;
    }
    used.push_back(a); i++;
    for (size_t k = 1; k < a.size(); k++) {
      char c = a[k]; int kind = short_kind(s.opts, c); int uc = (unsigned char)c;
      if (kind < 0) { put('?', nullptr, uc, true, -1, a); continue; }
      if (kind == 0) { put(uc, nullptr, uc, false, -1, a); continue; }
      Str rest = a.substr(k + 1); if (!rest.empty()) { put(uc, &rest, uc, false, -1, a); break; }
      if (kind == 1) { if (i < n) { Str arg = argv[i]; used.push_back(arg); i++; put(uc, &arg, uc, false, -1, a); } else put(missing(), nullptr, uc, true, -1, a); break; }
      if (i < n && argv[i][0] != '-') { Str arg = argv[i]; used.push_back(arg); i++; put(uc, &arg, uc, false, -1, a); } else put(uc, nullptr, uc, false, -1, a);
      break;
    }
  }
  for (; i < n; i++) operands.push_back(argv[i]); R.final_args.push_back(argv.empty() ? Str() : argv[0]); if (argv.empty()) { R.final_args.clear(); R.operand = 0; return R; }
  for (auto &x : used) R.final_args.push_back(x); R.operand = R.final_args.size(); for (auto &x : operands) R.final_args.push_back(x); return R;
}
// One parse that is advanced a step at a time. Every string and the vector itself end at an inaccessible page.
struct Parse {
  Spec s; std::vector<Str> args; Result want; std::vector<Guarded *> strs; Guarded *vec = nullptr, *optstr = nullptr, *table = nullptr; std::vector<Guarded *> names; std::vector<int> flags; std::vector<char *> orig; GetoptState st; size_t pos = 0; bool done = false; bool via_short = false;
  Parse(const Spec &sp, const std::vector<Str> &a, bool dirty) : s(sp), args(a) {
    want = model(s, args); for (auto &x : args) { auto *g = new Guarded(x.size() + 1, 0); memcpy(g->p, x.c_str(), x.size() + 1); strs.push_back(g); orig.push_back((char *)g->p); }
    vec = new Guarded((args.size() + 1) * sizeof(char *), 0); for (size_t i = 0; i < args.size(); i++) ((char **)vec->p)[i] = orig[i]; ((char **)vec->p)[args.size()] = nullptr;
    optstr = new Guarded(s.opts.size() + 1, 0); memcpy(optstr->p, s.opts.c_str(), s.opts.size() + 1); flags.assign(s.lo.size() + 1, -77);
    if (s.table) { table = new Guarded((s.lo.size() + 1) * sizeof(struct option), 0); auto *o = (struct option *)table->p; memset(o, 0, (s.lo.size() + 1) * sizeof *o); for (size_t i = 0; i < s.lo.size(); i++) { auto *g = new Guarded(s.lo[i].name.size() + 1, 0); memcpy(g->p, s.lo[i].name.c_str(), s.lo[i].name.size() + 1); names.push_back(g); o[i].name = (char *)g->p; o[i].has_arg = s.lo[i].arg; o[i].flag = s.lo[i].flag ? &flags[i] : nullptr; o[i].val = s.lo[i].val; } }
    memset(&st, 0, sizeof st); if (dirty) { st.optind = -3; st.next_char = "zzz"; st.optopt = 9; } st.permute_args = s.permute; st.report_errors = vf_hash(s.opts) % 61 == 1; via_short = !s.table && (vf_hash(s.opts) & 2);
  }
  ~Parse() { for (auto *g : strs) delete g; for (auto *g : names) delete g; delete vec; delete optstr; delete table; }
  char **argv() { return (char **)vec->p; }
  void step() {
    size_t before = (size_t)st.optind; int r = via_short ? getopt_r(argv(), (char *)optstr->p, &st) : getopt_long_r(argv(), (char *)optstr->p, s.table ? (struct option *)table->p : nullptr, &st); vf_count("calls"); (void)before;
    // the vector always holds the same strings
    std::vector<char *> now(argv(), argv() + args.size()); VF_CHECK(argv()[args.size()] == nullptr, "getopt:argv-end", "the end of the argument list was overwritten"); auto a = now, b = orig; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECK(a == b, "getopt:argv-lost", "the argument list does not hold the given strings any more"); if (!s.permute) VF_CHECK(now == orig, "getopt:argv-order", "the arguments were reordered without permute_args");
    for (size_t i = 0; i < args.size(); i++) VF_CHECK(Str(orig[i]) == args[i], "getopt:argv-text", "argument %zu was changed from %s", i, vf_q(args[i]).c_str());
    VF_CHECK(st.optind >= (args.empty() ? 0 : 1) && (size_t)st.optind <= args.size(), "getopt:optind-range", "optind is %d, there are %zu arguments", st.optind, args.size()); if (vf_case_failed()) { done = true; return; }
    if (pos == want.items.size()) {
      VF_CHECK(r == -1, "getopt:end", "the parse goes on with %d (%c) where the options end", r, r > 32 && r < 127 ? r : '.'); done = true; if (vf_case_failed()) return;
      VF_CHECK((size_t)st.optind == want.operand, "getopt:operand", "the first operand is reported at %d, expected %zu", st.optind, want.operand);
      for (size_t i = 0; i < args.size(); i++) VF_CHECK(Str(argv()[i]) == want.final_args[i], "getopt:final-order", "argument %zu is %s at the end, expected %s", i, vf_q(argv()[i]).c_str(), vf_q(want.final_args[i]).c_str());
      vf_count("parses"); if (want.operand < args.size()) vf_count("operands"); return;
    }
    const Item &w = want.items[pos++]; VF_CHECK(r == w.rval, "getopt:result", "result %zu is %d, expected %d at %s", pos - 1, r, w.rval, vf_q(w.what).c_str()); if (vf_case_failed()) { done = true; return; }
    bool err = w.judge_optopt; if (err) { vf_count(w.rval == ':' ? "missing" : "errors"); VF_CHECK(st.optopt == w.optopt, "getopt:optopt", "optopt is %d, expected %d at %s", st.optopt, w.optopt, vf_q(w.what).c_str()); return; }
    VF_CHECK((st.optarg != nullptr) == w.has_arg && (!w.has_arg || w.arg == st.optarg), "getopt:optarg", "the argument is %s, expected %s at %s", st.optarg ? vf_q(st.optarg).c_str() : "(none)", w.has_arg ? vf_q(w.arg).c_str() : "(none)", vf_q(w.what).c_str()); if (w.has_arg) vf_count("arguments");
    if (w.long_index >= 0) { vf_count("long"); VF_CHECK(st.long_index == w.long_index, "getopt:long-index", "long_index is %d, expected %d", st.long_index, w.long_index); } else vf_count("short");
    for (size_t i = 0; i < s.lo.size(); i++) { if (w.flag == (int)i) { VF_CHECK(flags[i] == w.flag_val, "getopt:flag", "the flag of --%s is %d", s.lo[i].name.c_str(), flags[i]); vf_count("flags"); flags[i] = -77; } else VF_CHECK(flags[i] == -77, "getopt:flag-other", "the flag of --%s was set to %d by %s", s.lo[i].name.c_str(), flags[i], vf_q(w.what).c_str()); }
  }
};
static const char *LN[] = {"alpha", "al", "alphabet", "beta", "b", "gamma-ray", "x y", "delta", "zeta1", "a"};
static Spec gen_spec(Rng &r) {
  Spec s; s.permute = r.chance(1, 2); if (r.chance(1, 3)) s.opts = ":"; static const Str CH = "abcdxyzABC019?@#+\xe9"; Str left = CH; for (size_t i = 0, n = r.below(7); i < n; i++) { size_t k = r.below(left.size()); s.opts += left[k]; left.erase(k, 1); int a = (int)r.below(4); if (a == 1) s.opts += ":"; else if (a == 2) s.opts += "::"; }
  s.table = r.chance(3, 4); if (s.table) { std::vector<Str> names(LN, LN + 10); for (size_t i = 0, n = r.below(6); i < n; i++) { size_t k = r.below(names.size()); LongDef d; d.name = names[k]; if (!r.chance(1, 20)) names.erase(names.begin() + (long)k); d.arg = (int)r.below(3); d.flag = r.chance(1, 4); d.val = r.chance(1, 3) ? 256 + (int)r.below(5000) : d.flag ? (int)r.below(300) : (unsigned char)CH[r.below(CH.size())]; s.lo.push_back(d); } }
  return s;
}
static std::vector<Str> gen_args(Rng &r, const Spec &s) {
  std::vector<Str> v; if (r.chance(1, 60)) return v; v.push_back(r.chance(1, 10) ? "" : "prog"); auto optch = [&]() -> Str { Str o; for (char c : s.opts) if (c != ':') o += c; if (o.empty() || r.chance(1, 6)) return Str(1, "abqz:W-;\x01\xff"[r.below(10)]); return Str(1, o[r.below(o.size())]); };
  for (size_t i = 0, n = r.chance(1, 20) ? r.below(40) : r.below(8); i < n; i++) switch (r.below(12)) {
    case 0: v.push_back("-" + optch()); break; case 1: case 2: { Str x = "-"; for (size_t k = 0, m = 1 + r.below(4); k < m; k++) x += optch(); v.push_back(x); break; }
    case 3: v.push_back("-" + optch() + "val"); break; case 4: if (!s.lo.empty()) { v.push_back("--" + r.pick(s.lo).name); break; } v.push_back("--alpha"); break;
    case 5: v.push_back("--" + (s.lo.empty() ? Str("beta") : r.pick(s.lo).name) + (r.chance(1, 4) ? "=" : r.chance(1, 4) ? "=a=b" : "=v1")); break;
    case 6: { Str nm = s.lo.empty() ? "gamma" : r.pick(s.lo).name; v.push_back("--" + (r.chance(1, 2) ? nm.substr(0, nm.size() - 1) : nm + "z") + (r.chance(1, 3) ? "=q" : "")); break; }
    case 7: if (r.chance(1, 3)) { v.push_back("--"); break; } v.push_back("--="); break; case 8: v.push_back(r.chance(1, 2) ? "-" : ""); break; case 9: v.push_back("---" + Str(r.chance(1, 2) ? "" : "a")); break; default: v.push_back(Str("file") + (char)('a' + r.below(20))); }
  return v;
}
static Str show(const Spec &s, const std::vector<Str> &a) { Str o = "\"" + vf_q(s.opts) + "\" "; if (s.table) { o += "["; for (auto &d : s.lo) o += d.name + vf_fmt(":%d%s=%d ", d.arg, d.flag ? "f" : "", d.val); o += "] "; } if (s.permute) o += "permute "; for (auto &x : a) o += "'" + vf_q(x) + "' "; return o; }
static void parse_case(Rng &r, uint64_t) { // several parses advanced in turns
  size_t n = r.chance(1, 2) ? 1 : 2 + r.below(3); std::vector<Parse *> ps; for (size_t i = 0; i < n; i++) { Spec s = i && r.chance(1, 2) ? ps[0]->s : gen_spec(r); auto a = gen_args(r, s); vf_note("%s", show(s, a).c_str()); ps.push_back(new Parse(s, a, r.chance(1, 3))); vf_seen(vf_hash(show(s, a))); }
  if (vf_want_sample()) vf_sample(vf_trace()); if (n > 1) vf_count("interleaved"); int live = (int)n; size_t last = 99; while (live && !vf_case_failed()) { size_t k = r.below(n); if (ps[k]->done) continue; if (last != 99 && last != k) vf_count("switches"); last = k; ps[k]->step(); if (ps[k]->done) live--; }
  vf_eval(n); for (auto *p : ps) delete p;
}
static void exhaustive(Rng &, uint64_t idx) { // every vector of up to 3 words over a small alphabet for fixed specifications
  static const char *W[] = {"-a", "-b", "-c", "-ab", "-bX", "-ca", "-q", "-ac", "--", "-", "f", "--req", "--req=", "--opt", "--opt=v", "--no", "--no=v", "--re", "", "-:", "--r=1", "g"}; const size_t NW = sizeof W / sizeof *W; Spec s; s.permute = idx & 1; s.opts = (idx & 2) ? ":ab:c::" : "ab:c::"; s.table = !(idx & 4); if (s.table) s.lo = {{"req", 1, false, 'r'}, {"opt", 2, false, 1000}, {"no", 0, true, 7}};
  idx >>= 3; size_t first = idx % (NW + 1); std::vector<std::vector<Str>> all = {{"p"}}; if (first < NW) { all.clear(); Str f = W[first]; all.push_back({"p", f}); for (size_t i = 0; i < NW; i++) { all.push_back({"p", f, W[i]}); for (size_t j = 0; j < NW; j++) { all.push_back({"p", f, W[i], W[j]}); if (idx > NW) for (size_t k = 0; k < NW; k++) all.push_back({"p", f, W[i], W[j], W[k]}); } } }
  for (auto &a : all) { Parse p(s, a, false); vf_note("%s", show(s, a).c_str()); while (!p.done && !vf_case_failed()) p.step(); vf_eval(); if (vf_case_failed()) return; }
}
static Str captured(const std::function<void()> &fn) { fflush(stdout); int fd = memfd_create("out", 0), save = dup(1); dup2(fd, 1); fn(); fflush(stdout); dup2(save, 1); close(save); off_t n = lseek(fd, 0, SEEK_END); Str o((size_t)n, 0); if (pread(fd, &o[0], (size_t)n, 0) != n) abort(); close(fd); return o; }
static void usage_case(Rng &r, uint64_t) { // the usage text lists everything, in any width
  Spec s = gen_spec(r); for (auto &c : s.opts) if (c == '?' || (unsigned char)c > 127) c = 'Q'; std::vector<struct option> lo; for (auto &d : s.lo) { struct option o; o.name = d.name.c_str(); o.has_arg = d.arg; static int fl; o.flag = d.flag ? &fl : nullptr; o.val = d.val; lo.push_back(o); } lo.push_back({nullptr, 0, nullptr, 0});
  std::vector<Str> help_names; for (auto &d : s.lo) if (r.chance(1, 2)) help_names.push_back(d.name); for (char c : s.opts) if (c != ':' && r.chance(1, 2)) help_names.push_back(Str(1, c)); std::vector<Str> posn; for (size_t i = 0, n = r.below(3); i < n; i++) { posn.push_back(vf_fmt("<file%zu>", i)); if (r.chance(1, 2)) help_names.push_back(posn.back()); }
  std::vector<Str> texts, argn; for (auto &x : help_names) { texts.push_back("Help-" + x + Str(r.below(60), 'h') + "%s end"); argn.push_back("<arg" + Str(r.below(20), 'g') + ">"); } std::vector<OptionHelp> oh; for (size_t i = 0; i < help_names.size(); i++) { OptionHelp h; h.name = help_names[i].c_str(); h.help = texts[i].c_str(); h.arg_name = r.chance(1, 2) ? argn[i].c_str() : nullptr; h.flags = (unsigned)r.below(2); oh.push_back(h); } oh.push_back({nullptr, nullptr, nullptr, 0});
  std::vector<const char *> pos; for (auto &x : posn) pos.push_back(x.c_str()); pos.push_back(""); Str app(r.chance(1, 4) ? r.below(120) : 3 + r.below(6), 'p'); int cols = r.chance(1, 4) ? (int)r.below(20) : 40 + (int)r.below(80); vf_note("usage %s app %zu columns %d", show(s, posn).c_str(), app.size(), cols); if (vf_want_sample()) vf_sample(vf_trace());
  Str out = captured([&] { print_command_usage(app.c_str(), s.opts.c_str(), s.table ? lo.data() : nullptr, pos.data(), oh.data(), cols); }); vf_count("usage"); vf_eval();
  if (s.table) for (auto &d : s.lo) VF_CHECK(out.find("--" + d.name) != Str::npos, "usage:long", "--%s is not in the usage text", d.name.c_str()); for (char c : s.opts) if (c != ':') VF_CHECK(out.find(Str("-") + c) != Str::npos, "usage:short", "-%c is not in the usage text", c); for (auto &x : posn) VF_CHECK(out.find(x) != Str::npos, "usage:positional", "%s is not in the usage text", x.c_str()); VF_CHECK(out.find(app) != Str::npos, "usage:app", "the name of the application is not in the usage text");
  // the summary gives each option's form, the list below it the argument
  Str sum = out.substr(0, out.find("\n\n")); auto help_of = [&](const Str &n) { for (auto &h : oh) if (h.name && n == h.name) return &h; return (OptionHelp *)nullptr; };
  auto form = [&](const Str &body, const Str &name) { OptionHelp *h = help_of(name); Str e = h && (h->flags & OPT_REQUIRED) ? " " + body : " [" + body + "]"; if (7 + app.size() + e.size() <= (size_t)cols) { vf_count("usage_forms"); VF_CHECK(sum.find(e) != Str::npos, "usage:form", "the summary does not have %s: %s", vf_q(e).c_str(), vf_q(sum, 600).c_str()); } };
  auto detail = [&](const Str &head, const Str &name, const Str &none, const char *sep) { OptionHelp *h = help_of(name); Str e = "\n" + head + (h ? h->arg_name ? Str(sep) + h->arg_name : Str() : none); bool ok = false; for (size_t i = 0; !ok && (i = out.find(e, i)) != Str::npos; i++) { char c = out[i + e.size()]; ok = c == '\n' || (h && c == ' '); } vf_count("usage_details"); VF_CHECK(ok, "usage:detail", "the list does not have %s: %s", vf_q(e).c_str(), vf_q(out, 1500).c_str()); };
  if (s.table) for (auto &d : s.lo) { bool sh = !d.flag && d.val > 0 && d.val <= 255 && isgraph(d.val); Str v(1, (char)d.val); form((sh ? "-" + v + "|--" : Str("--")) + d.name + (d.arg ? "=<>" : ""), d.name); detail((sh ? "  -" + v + ", --" : Str("      --")) + d.name, d.name, d.arg == 1 ? "=<required>" : d.arg ? "=<optional>" : "", "="); }
  for (size_t i = 0; i < s.opts.size(); i++) { char c = s.opts[i]; if (c == ':') continue; bool in_table = false; if (s.table) for (auto &d : s.lo) in_table |= !d.flag && d.val == c; if (in_table) continue; int colons = 0; while (i + 1 + (size_t)colons < s.opts.size() && s.opts[i + 1 + (size_t)colons] == ':') colons++; Str n(1, c); form("-" + n + (colons ? " <>" : ""), n); detail("  -" + n, n, colons == 0 ? "" : colons == 1 ? " <required>" : " <optional>", " "); }
  for (auto &x : posn) { form(x, x); detail("  " + x, x, "", " "); }
  for (size_t i = 0; i < help_names.size(); i++) { if (std::find(help_names.begin(), help_names.end(), help_names[i]) != help_names.begin() + (long)i) continue; bool shown = false; for (auto &x : posn) if (x == help_names[i]) shown = true; if (s.table) for (auto &d : s.lo) if (d.name == help_names[i]) shown = true; if (shown) VF_CHECK(out.find(texts[i]) != Str::npos, "usage:help", "the help of %s is not in the usage text", help_names[i].c_str()); }
}
void vf_setup() {  vf_suite("parse", 60000, 6000000, parse_case); vf_suite("parse_exhaustive", 8 * 23, 8 * 46, exhaustive); vf_suite("usage", 8000, 400000, usage_case); }
