"""Driver of the runtime-monitoring checks: snapshot /repo, build instrumented harnesses,
run them in parallel, collect violations and coverage, write evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "h")
NCPU = min(os.cpu_count() or 4, 16)

SAN = {
    # memory and undefined-behaviour sanitizers, uninitialised automatic variables made visible
    "asan": (["clang"], ["clang++"], ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=function,vptr", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]),
    "tsan": (["clang"], ["clang++"], ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"]),
    # the same code without instrumentation, watched by memcheck: reads of uninitialised memory
    "memcheck": (["gcc"], ["g++"], ["-O1", "-g", "-DVF_MEMCHECK"]),
    "plain": (["gcc"], ["g++"], ["-O1", "-g"]),
}
COMMON_C = ["-std=gnu11", "-funsigned-char", "-fno-common", "-w"]
COMMON_CXX = ["-std=gnu++17", "-funsigned-char", "-Wno-everything", "-w"]
# harness calls whose results memcheck is asked about
MCWRAP = ["-Wl,--wrap=evfs_stat_ex", "-Wl,--wrap=evfs_dir_read", "-Wl,--wrap=evfs_dir_find", "-Wl,--wrap=evfs_file_read"]
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]


class Job:
    """One harness binary run over some of its suites."""
    def __init__(self, name, src, suites="", mode="asan", threads="custom", fatfs=False, defines=(), config=(), extra=(),
                 workers=None, args=(), env=None, repo_files=None, wall=None, only=None, soft=None):
        self.soft = soft
        self.name, self.src, self.suites, self.mode, self.threads = name, src, suites, mode, threads
        self.fatfs, self.defines, self.config, self.extra = fatfs, list(defines), list(config), list(extra)
        self.workers = workers or NCPU
        self.args, self.env, self.repo_files, self.wall, self.only = list(args), env or {}, repo_files, wall, only

    def key(self):
        return (self.mode, self.threads, self.fatfs, tuple(self.defines), tuple(self.config), tuple(self.repo_files or ()))


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                fp = os.path.join(root, f)
                if fp.endswith((".c", ".h", ".cc", ".in", ".py")):
                    h.update(os.path.relpath(fp, p).encode()); h.update(open(fp, "rb").read())
    return h.hexdigest()[:16]


def snapshot(work, config):
    """Copy /repo's sources; give them a configuration of our own."""
    dst = os.path.join(work, "src-" + hashlib.sha256(repr(config).encode()).hexdigest()[:8])
    if os.path.isdir(dst):
        return dst
    tmp = dst + ".tmp%d" % os.getpid()
    for d in ("src", "include", "libraries"):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(tmp, d), symlinks=True, ignore=shutil.ignore_patterns(".git"))
    bc = os.path.join(tmp, "include", "evfs_build_config.h.in")
    text = open(bc).read() if os.path.exists(bc) else ""
    text = re.sub(r"#cmakedefine\s+(\w+)", r"/* \1 comes from the command line */", text).replace("@PROJECT_VERSION@", "1.0.0")
    open(os.path.join(tmp, "include", "evfs", "evfs_build_config.h"), "w").write(text)
    cfgp = os.path.join(tmp, "include", "evfs_config.h")
    cfg = open(cfgp).read()
    for name, val in config:  # (macro, None) removes it, (macro, text) sets it
        cfg = re.sub(r"(?m)^\s*#\s*define\s+%s\b.*$" % re.escape(name), "", cfg)
        if val is not None:
            cfg = re.sub(r"(#endif[^\n]*\s*)$", "#define %s %s\n\\1" % (name, val), cfg)
    open(cfgp, "w").write(cfg)
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def compile_all(cmds):
    """cmds: list of (cmd, output); skips outputs that exist."""
    def one(c):
        cmd, out = c
        if os.path.exists(out):
            return None
        tmp = out + ".tmp%d" % os.getpid()
        r = sh([tmp if x == out else x for x in cmd])
        if r.returncode:
            return (" ".join(cmd), r.stdout)
        os.rename(tmp, out)
        return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, cmds) if e]
    if errs:
        raise BuildError("%s\n%s" % errs[0])


def prepare(jobs):
    """Builds the libraries and harnesses of all jobs; returns {job.name: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash([os.path.join(REPO, d) for d in ("src", "include", "libraries")])
    work = os.path.join(BUILD, th)
    # keep only this tree's output and the most recent other ones
    olds = sorted([d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d) and os.path.basename(d) not in (th,) and not os.path.basename(d).startswith("run-")], key=os.path.getmtime)
    for d in olds[:-2]:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    bins, cmds, links = {}, [], []
    hh = tree_hash([H])
    for j in jobs:
        src = snapshot(work, j.config)
        kh = hashlib.sha256(repr(j.key()).encode()).hexdigest()[:10]
        odir = os.path.join(work, "o-" + kh)
        os.makedirs(odir, exist_ok=True)
        cc, cxx, fl = SAN[j.mode]
        inc = ["-I" + os.path.join(src, "include"), "-I" + os.path.join(src, "include", "evfs"), "-I" + os.path.join(src, "src")]
        if j.fatfs:
            inc += ["-I" + os.path.join(src, "libraries", "fatfs", "source")]
        defs = ["-D" + d for d in j.defines]
        if j.threads in ("custom", "pthread"):
            defs.append("-DUSE_PTHREADS")
        elif j.threads == "c11":
            defs.append("-DUSE_C11_THREADS")
        files = sorted(glob.glob(os.path.join(src, "src", "**", "*.c"), recursive=True))
        keep = []
        for f in files:
            b = os.path.basename(f)
            if b.startswith("littlefs_"):
                continue
            if b == "evfs_pthread.c" and j.threads != "pthread":
                continue
            if b == "evfs_c11_thread.c" and j.threads != "c11":
                continue
            if b.startswith("fatfs_") and not j.fatfs:
                continue
            if j.repo_files and not any(re.search(p, f) for p in j.repo_files):
                continue
            keep.append(f)
        if j.fatfs:
            keep += [os.path.join(src, "libraries", "fatfs", "source", x) for x in ("ff.c", "ffunicode.c")]
        objs = []
        for f in keep:
            o = os.path.join(odir, os.path.relpath(f, src).replace("/", "_") + ".o")
            cmds.append((cc + fl + COMMON_C + defs + inc + ["-c", f, "-o", o], o)); objs.append(o)
        hs = [j.src, "vf.cc", "memfs.cc"] + (["locks.cc"] if j.threads in ("custom", "none") else []) + [x for x in j.extra if x.endswith((".cc", ".c"))]
        hobjs = []
        for s in hs:
            o = os.path.join(odir, "h-%s-%s.o" % (hh, s.replace("/", "_")))
            if s.endswith(".c"):
                cmds.append((cc + fl + COMMON_C + defs + inc + ["-I" + H, "-c", os.path.join(H, s), "-o", o], o))
            else:
                cmds.append((cxx + fl + COMMON_CXX + defs + inc + ["-I" + H, "-c", os.path.join(H, s), "-o", o], o))
            hobjs.append(o)
        # harness-only includes also need -I H for repo objects built with special defines
        b = os.path.join(odir, "bin-%s-%s" % (hh, os.path.splitext(j.src)[0]))
        links.append((cxx + [x for x in fl if x.startswith("-f") or x.startswith("-O") or x == "-g"] + hobjs + objs + WRAP + (MCWRAP if j.mode == "memcheck" else []) + ["-lpthread", "-o", b] + [x for x in j.extra if not x.endswith((".cc", ".c"))], b))
        bins[j.name] = b
    uniq = {}
    for c, o in cmds:
        uniq[o] = c
    # compile the slow C++ harnesses first
    compile_all(sorted([(c, o) for o, c in uniq.items()], key=lambda x: 0 if x[1].find("/h-") >= 0 else 1))
    uniq = {}
    for c, o in links:
        uniq[o] = c
    compile_all([(c, o) for o, c in uniq.items()])
    for d in glob.glob(os.path.join(BUILD, "run-*")):
        # leftovers of interrupted runs
        try:
            pid = int(d.rsplit("-", 1)[1]); os.kill(pid, 0)
        except ProcessLookupError:
            shutil.rmtree(d, ignore_errors=True)
        except (ValueError, PermissionError):
            pass
    return bins


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")


def repo_frames(text):
    out = []
    for m in FRAME.finditer(text):
        if "/src-" in m.group(2):
            out.append(m.group(1))
    return out


def parse_san(text):
    """Returns list of (key, message) found in a sanitizer log."""
    res = []
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        fr = repo_frames(text)
        res.append(("asan:%s:%s" % (m.group(1), fr[0] if fr else "?"), text[:3000]))
    for m in re.finditer(r"(\S+): runtime error: (.*)", text):
        fr = repo_frames(text[m.start():])
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))[:80]
        loc = os.path.basename(m.group(1).split(":")[0])
        res.append(("ubsan:%s:%s:%s" % (loc, fr[0] if fr else "?", kind), text[m.start():m.start() + 1500]))
        break
    for blk in re.split(r"={10,}\n", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?)( \(pid|$)", blk, re.M)
        if m:
            # the first repo function of each of the two accesses
            parts = re.split(r"(?:Previous |Location is|Mutex |Thread T)", blk)
            fns = []
            for p in parts[:2]:
                fr = repo_frames(p)
                fns.append(fr[0] if fr else "?")
            res.append(("tsan:%s:%s" % (m.group(1).strip(), "/".join(sorted(set(fns)))), blk[:3500]))
    if not res and re.search(r"(DEADLYSIGNAL|Sanitizer|ABORTING)", text):
        res.append(("san:unparsed", text[:3000]))
    return res


VFRAME = re.compile(r"(?:at|by) 0x[0-9A-F]+: (\S+).*? \((.*)\)")


def parse_memcheck(text, srcroot=r"/src-[0-9a-f]+/(?:src|include)/"):
    """Errors whose innermost frame outside the C library is the library's: [(key, message, suite, case, trace)]"""
    res, pend = [], []
    text = re.sub(r"(?m)^(==|\*\*)\d+(==|\*\*) ?", "", text)
    for blk in re.split(r"\n\s*\n|(?=^VFCASE)", text, flags=re.M):
        m = re.match(r"\s*VFCASE (\S+) (\d+)\n(?:VFTRACE .*?\| (.*))?", blk, re.S)
        if m:
            res += [(k, t, m.group(1), int(m.group(2)), m.group(3) or "") for k, t in pend]
            pend = []
            continue
        m = re.search(r"^(Conditional jump or move depends on uninitialised|Use of uninitialised value|Syscall param \S+ (?:points to|contains) uninitialised|Invalid (?:read|write|free))", blk, re.M)
        if not m:
            continue
        fr = []
        for f in VFRAME.finditer(blk[m.start():]):
            if f.group(2).startswith("in ") or "vg_replace" in f.group(2) or "/csu/" in f.group(2) or f.group(2).startswith("./"):
                continue  # the C library or valgrind's replacement of it
            fr.append(f)
            break
        if fr and re.search(srcroot, fr[0].group(2)):
            kind = {"Con": "branch on uninitialised", "Use": "use of uninitialised", "Sys": "uninitialised to system call", "Inv": "invalid access"}[m.group(1)[:3]]
            pend.append(("memcheck:%s:%s" % (kind, fr[0].group(1)), blk[m.start():][:2500]))
        elif fr and "/libraries/" not in fr[0].group(2):
            pend.append(("memcheck:result:%s" % fr[0].group(1), blk[m.start():][:2500]))
    return res + [(k, t, "?", -1, "") for k, t in pend]


def cpu_ticks(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12])
    except Exception:
        return None


class Worker:
    def __init__(self, run, job, binp, w, seed, tier, extra=(), tag=""):
        self.run, self.job, self.bin, self.w, self.seed, self.tier = run, job, binp, w, seed, tier
        base = os.path.join(run, "%s-%d%s" % (job.name, w, tag))
        self.base, self.out, self.cur, self.seen = base, base + ".out", base + ".cur", base + ".seen"
        self.scratch = base + ".d"
        self.extra = list(extra)
        self.soft = 0
        self.crashes, self.inconclusive = [], []

    def once(self, extra, wall):
        os.makedirs(self.scratch, exist_ok=True)
        os.chmod(self.scratch, 0o777)
        for p in (self.out, self.seen):
            open(p, "a").close(); os.chmod(p, 0o666)
        log = self.base + ".san"
        for f in glob.glob(log + "*"):
            os.unlink(f)
        env = dict(os.environ)
        opts = "log_path=%s:detect_leaks=0:allocator_may_return_null=1:symbolize=1:handle_abort=1:print_stacktrace=1:detect_stack_use_after_return=1" % log
        env["ASAN_OPTIONS"] = opts
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=%s" % log
        env["TSAN_OPTIONS"] = "log_path=%s:halt_on_error=0:exitcode=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4" % log
        for c in ("/usr/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18", "/usr/lib/llvm-18/bin/llvm-symbolizer"):
            if os.path.exists(c):
                for k in ("ASAN_SYMBOLIZER_PATH", "TSAN_SYMBOLIZER_PATH", "UBSAN_SYMBOLIZER_PATH"):
                    env[k] = c
                break
        env.update(self.job.env)
        args = [self.bin, "--seed", str(self.seed), "--tier", self.tier, "--worker", str(self.w), "--workers", str(self.job.workers),
                "--out", self.out, "--cur", self.cur, "--seen", self.seen, "--scratch", self.scratch]
        if self.job.suites:
            args += ["--suites", self.job.suites]
        args += self.job.args + list(extra)
        if self.job.mode == "memcheck":
            args = ["valgrind", "--tool=memcheck", "-q", "--error-limit=no", "--num-callers=25", "--fullpath-after=", "--track-origins=no", "--leak-check=no", "--log-file=" + log] + args
        err = open(self.base + ".err", "wb")
        p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=self.scratch, start_new_session=True)
        t0 = time.time()
        status = None
        lastcpu, lastchg, lastcur = -1, time.time(), b""
        while True:
            try:
                p.wait(timeout=2)
                status = p.returncode
                break
            except subprocess.TimeoutExpired:
                pass
            c = cpu_ticks(p.pid)
            if c != lastcpu:
                lastcpu, lastchg = c, time.time()
            if time.time() - lastchg > 45:
                status = "stuck"
            elif time.time() - t0 > wall:
                status = "wall"
            try:
                if os.path.getsize(self.base + ".err") > 200 << 20:
                    os.truncate(self.base + ".err", 0)
            except OSError:
                pass
            if status:
                os.killpg(p.pid, signal.SIGKILL); p.wait()
                break
        err.close()
        san = ""
        for f in sorted(glob.glob(log + "*")):
            with open(f, "r", errors="replace") as fd:
                san += fd.read(4 << 20)
        return status, san

    def current(self):
        try:
            b = open(self.cur, "rb").read()
        except OSError:
            return None
        head = b.split(b"\0", 1)[0].decode("latin1")
        m = re.match(r"(\d+) (\S+) (\d+) \| (.*)", head, re.S)
        if not m:
            return None
        return int(m.group(1)), m.group(2), int(m.group(3)), m.group(4)

    def go(self, wall):
        t_end = time.time() + wall
        t_soft = time.time() + min(self.soft, wall * 0.9)
        extra = list(self.extra)
        for attempt in range(40):
            status, san = self.once(extra + (["--soft", "%.1f" % max(1, t_soft - time.time())] if self.soft else []), max(5, t_end - time.time()))
            found = parse_san(san)
            cur = self.current()
            if self.job.mode == "memcheck":
                done = {}
                for k, m, s_, c_, tr in parse_memcheck(san):
                    if k not in done:
                        self.crashes.append(dict(key=k, msg=m, suite=s_, case=c_, trace=tr))
                    done[k] = 1
            if status == 0:
                for k, m in found:
                    self.crashes.append(dict(key=k, msg=m, suite=cur[1] if cur else "?", case=cur[2] if cur else -1, trace=""))
                return
            if cur is None:
                self.inconclusive.append("worker %s-%d ended with %s before its first case: %s" % (self.job.name, self.w, status, self.tail()))
                return
            si, suite, case, trace = cur
            if status == 97:
                found = [("hang:%s" % suite, "the case used up its CPU limit: an operation does not finish")]
            elif status == "stuck":
                found = [("deadlock:%s" % suite, "no progress and no CPU use for 45 s: the threads wait for each other")]
            elif status == "wall":
                self.inconclusive.append("worker %s-%d reached its wall-clock limit in %s %d" % (self.job.name, self.w, suite, case))
                return
            elif status in (95,):
                found = []  # a violation was written before the exit
            elif not found:
                found = [("crash:%s:%s" % (status, suite), "the process ended with %s: %s" % (status, self.tail()))]
            for k, m in found:
                self.crashes.append(dict(key=k, msg=m, suite=suite, case=case, trace=trace[:2000] + (" ... " + trace[-3000:] if len(trace) > 5000 else trace[2000:])))
            if len(self.crashes) > 8 or time.time() > t_end or "--case" in self.extra:
                return
            # carry on after the failing case
            extra = list(self.extra) + ["--resume-suite", str(si), "--resume-case", str(case + self.job.workers)]

    def tail(self):
        try:
            b = open(self.base + ".err", "rb").read()
            return b[-600:].decode("latin1")
        except OSError:
            return ""


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def run_check(prop, spec, tier, seed, replay=None):
    t0 = time.time()
    jobs = [j for j in spec["jobs"] if not (j.only and j.only != tier)]
    run = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    try:
        bins = prepare(jobs)
    except BuildError as e:
        print("BUILD ERROR\n%s" % str(e)[:6000])
        return 2
    os.makedirs(run, exist_ok=True)
    os.chmod(run, 0o777)
    budget = float(os.environ.get("VF_BUDGET", 0)) or (780 if tier == "quick" else 3600)
    viol, evals, counts, samples, inconclusive = [], 0, {}, [], []
    seen = set()
    try:
        if replay:
            jobs = [j for j in jobs if j.name == replay["job"]] or jobs
        tasks = []
        for j in jobs:
            for w in range(1 if replay else j.workers):
                ex = ["--suite", replay["suite"], "--case", str(replay["case"])] if replay else []
                tasks.append(Worker(run, j, bins[j.name], w, seed, tier, ex))
        # the wall budget is shared: workers run NCPU at a time, and each stops by itself when its part of the time is used up
        if not replay:
            for t in tasks:
                t.soft = budget * 0.75 / -(-len(tasks) // NCPU)
                if t.job.soft:
                    t.soft = min(t.soft, t.job.soft * (1 if tier == "quick" else 20))
        def go(t):
            left = budget - (time.time() - t0)
            t.go(max(10, min(left, t.job.wall or left)))
            return t
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(go, tasks))
        for t in tasks:
            inconclusive += t.inconclusive
            if t.job.mode == "memcheck":
                t.crashes = [c for c in t.crashes if c["key"].startswith(("memcheck:", "crash:"))]
            for c in t.crashes:
                c["job"] = t.job.name; viol.append(c)
            if os.path.exists(t.out):
                for line in open(t.out, errors="replace"):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if d["t"] == "viol" and t.job.mode == "memcheck" and not d["key"].startswith("memcheck:"):
                        continue  # what the operations do is judged by the jobs without memcheck
                    if d["t"] == "viol":
                        d["job"] = t.job.name; viol.append(d)
                    else:
                        evals += d["evals"]
                        for k, v in d["counts"].items():
                            counts[k] = counts.get(k, 0) + v
                        samples += d["samples"]
            if os.path.exists(t.seen):
                b = open(t.seen, "rb").read()
                seen.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(run, ignore_errors=True)

    known = [k for k in load_known() if k["property"] == prop]
    kn_hit, fresh = {}, {}
    for v in viol:
        k = next((k for k in known if k["key"] == v["key"]), None)
        if k:
            kn_hit[k["key"]] = k
        else:
            fresh.setdefault(v["key"], []).append(v)
    if replay:
        for k, vs in fresh.items():
            print("reproduced: %s\n  %s\n  trace: %s" % (k, vs[0]["msg"], vs[0].get("trace", "")))
        return 1 if fresh else 0
    rule = spec["rule"]
    cov = {"evaluations": evals, "distinct_nontrivial": len(seen), "rule": rule, "samples": samples[:6] or ["(none)"], "events": counts,
           "inconclusive": inconclusive[:10], "instrumentation": sorted({j.mode for j in jobs}), "jobs": [j.name for j in jobs]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k["key"] in kn_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: listed finding did not show in this run: %s" % k["key"])
    print("%s %s: %d evaluations, %d distinct, %d violation keys, %.1f s, events %s" % (prop, tier, evals, len(seen), len(fresh), time.time() - t0, json.dumps(counts)))
    for i in inconclusive[:5]:
        print("inconclusive: " + i[:800])
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        n = 0
        for k, vs in sorted(fresh.items()):
            v = vs[0]
            rp = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha256(k.encode()).hexdigest()[:8]))
            with open(rp, "w") as f:
                json.dump({"property": prop, "job": v["job"], "suite": v["suite"], "case": v["case"], "seed": seed, "tier": tier, "key": k,
                           "msg": v["msg"], "trace": v.get("trace", ""), "count": len(vs),
                           "how": "python3 check --replay %s" % rp}, f, indent=1)
            print("  %s (%d times, %s case %s): %s" % (k, len(vs), v["suite"], v["case"], v["msg"][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            n += 1
            if n >= 8:
                break
        return 1
    missing = [c for c in spec.get("require", []) if not counts.get(c)]
    if missing or not evals:
        print("check is vacuous: no %s observed" % (missing or "evaluations"))
        return 2
    if inconclusive and not evals:
        return 2
    return 0


def setup():
    """Checks that the tools the checks need are installed."""
    for t in ("clang", "clang++", "gcc", "g++"):
        if not shutil.which(t):
            print("missing tool: " + t)
            return 1
    os.makedirs(BUILD, exist_ok=True)
    print("tools present")
    return 0
