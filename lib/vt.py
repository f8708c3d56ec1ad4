"""Runner shared by every check: builds a C++ driver from /repo's working tree, feeds it op
scripts, validates the recorded traces against a TLA+ trace specification with TLC, model-checks
the design specification, and writes the evidence file.

A script is a list of lines, one op per line; the driver appends exactly one JSON event per line
to the trace.  Lines that start with "reset" start a new, independent scenario."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
UTIL_SRCS = ["basic", "utils_array", "utils_filesystem", "utils_math", "utils_string", "utils_time"]
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s-%d" % (prop, seed))
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = 0
        self.mc_runs = []
        self.traces = self.events = self.scenarios = 0
        self.ops = {}
        self.samples = []
        self.violations = []
        self.known = load_known(prop)
        self.assumptions = []
        self.extra = {}

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------------ build
    def build(self, driver, raster=False, mongo=False, san="address", extra_srcs=(), defines=(),
              flags=(), opt="-O1", libs=(), extra_harness=(), par=False):
        """Compile harness/<driver>.cpp with /repo/src; returns the executable's path.
        par: the workers of parallel regions run as coroutines of harness/par_shim.cpp, every access recorded"""
        if par:
            san = None; extra_harness = tuple(extra_harness) + ("par_shim.cpp",); defines = tuple(defines) + ("-DVT_PAR",)
        srcs = [os.path.join(REPO, "src", s + ".cpp") for s in UTIL_SRCS]
        srcs += [os.path.join(REPO, s) for s in extra_srcs]
        defs = ["-DLINUX", "-DSUPPORT_OMP", "-DNDEBUG"] + list(defines)
        incs = ["-I" + REPO, "-I" + os.path.join(REPO, "src"), "-I" + HARN]
        lk = list(libs)
        if raster:
            srcs.append(os.path.join(REPO, "src", "data_raster.cpp"))
            defs.append("-DUSE_GDAL")
            incs += ["-isystem", "/usr/include/gdal"]
            lk.append("-lgdal")
        if mongo:
            srcs.append(os.path.join(REPO, "src", "db_mongoc.cpp"))
            defs.append("-DUSE_MONGODB")
            incs += ["-isystem", "/usr/include/libbson-1.0", "-isystem", "/usr/include/libmongoc-1.0"]
            lk += ["-lbson-1.0"]
        srcs += [os.path.join(HARN, s) for s in (driver + ".cpp",) + tuple(extra_harness)]
        fl = ["-std=gnu++11", "-fopenmp", opt, "-g1", "-w", "-ftrivial-auto-var-init=pattern"] + list(flags)
        if san:
            fl += ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "src"), os.path.join(REPO, "apps"), HARN):
            for f in sorted(os.listdir(root)):
                p = os.path.join(root, f)
                if os.path.isfile(p) and f.endswith((".h", ".hpp", ".cpp")):
                    h.update(f.encode()); h.update(open(p, "rb").read())
        h.update(json.dumps([srcs, defs, incs, lk, fl, par]).encode())
        cache = os.path.join(VERIF, ".cache")
        os.makedirs(cache, exist_ok=True)
        exe = os.path.join(cache, "%s-%s" % (driver, h.hexdigest()[:16]))
        if os.path.exists(exe):
            log("build: cached", os.path.basename(exe))
            return exe
        for f in os.listdir(cache):  # keep the cache small
            try:
                if f.startswith(driver + "-") and time.time() - os.path.getmtime(os.path.join(cache, f)) > 3600:
                    os.unlink(os.path.join(cache, f))
            except OSError: pass  # another thread was first
        objdir = os.path.join(self.work, "obj-" + os.path.basename(exe))
        os.makedirs(objdir, exist_ok=True)
        t = time.time()

        def comp(s):
            o = os.path.join(objdir, os.path.basename(s) + ".o")
            watch = ["-fsanitize=thread"] if par and not s.endswith("par_shim.cpp") else []
            r = subprocess.run(["g++"] + fl + watch + defs + incs + ["-c", s, "-o", o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (s, r.stdout[-4000:]))
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, srcs))
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + fl + objs + ["-o", tmp] + lk, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (driver, r.stdout[-4000:]))
        os.rename(tmp, exe)
        shutil.rmtree(objdir, ignore_errors=True)
        log("build: %s in %.1fs" % (driver, time.time() - t))
        return exe

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers="1", args=(), timeout=800, heap="3g", check=True):
        """Run TLC on spec/<module>.tla; returns (rc, output, generated, distinct)."""
        meta = os.path.join(self.work, "tlc-%s-%d" % (module, random.getrandbits(40)))
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-DTLA-Library=" + SPEC, "-cp", JAR,
               "tlc2.TLC", "-config", os.path.join(SPEC, cfg or module + ".cfg"), "-metadir", meta,
               "-workers", workers, "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ); e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + meta
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=e, cwd=meta, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return r.returncode, out, g, d

    def simulate(self, module, cfg, num, depth, timeout=300):
        """Behaviours of the specification, generated by TLC and printed by it as scripts for a driver."""
        rc, out, g, d = self.tlc(module, cfg, args=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.rng.getrandbits(30))), timeout=timeout)
        s = [x[1:-1][7:].split(";") for x in out.split("\n") if x.startswith('"SCRIPT ')]
        if len(s) < num:
            raise CheckError("simulation of %s gave %d of %d behaviours:\n%s" % (cfg, len(s), num, out[-3000:]))
        self.extra["simulated_behaviours"] = self.extra.get("simulated_behaviours", 0) + len(s)
        log("simulation %s: %d behaviours" % (cfg, len(s)))
        return s

    def model_check(self, module, cfg=None, timeout=800, heap="6g", workers="8", min_states=2, args=(), inv=None, sub=()):
        """Exhaustive check of the design spec: it must hold, whatever /repo contains.  inv: the invariants of
        the configuration to check, sub: (old, new) replacements in it."""
        if inv or sub:
            with open(os.path.join(SPEC, cfg)) as f:
                c = f.read()
            for a, b in sub:
                if a not in c: raise CheckError("no %s in %s" % (a, cfg))
                c = c.replace(a, b)
            if inv:
                missing = [i for i in inv.split() if not re.search(r"\b%s\b" % i, c)]
                if missing: raise CheckError("no invariant %s in %s" % (missing, cfg))
                c = re.sub(r"INVARIANTS.*", "INVARIANTS " + inv, c)
            cfg = os.path.join(self.work, "mc-%d-%s" % (len(self.mc_runs), cfg))
            with open(cfg, "w") as f:
                f.write(c)
        rc, out, g, d = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("design model %s/%s does not hold (a fault of the specification):\n%s"
                             % (module, cfg, out[-3000:]))
        if d < min_states:
            raise CheckError("design model %s explored only %d states" % (module, d))
        self.states += d; self.transitions += g
        cfg = os.path.basename(cfg or module)
        self.mc_runs.append({"model": cfg, "invariants": inv or "all", "distinct": d, "generated": g})
        log("model %s: %d distinct states, %d generated" % (cfg, d, g))
        return out

    # ------------------------------------------------------------------ driver
    def drive(self, exe, lines, tag, env=None, timeout=240, user=None, args=()):
        """Run the driver on a script. Returns (events path, n_events, status, stderr tail)."""
        d = os.path.join(self.work, "run-" + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        script = os.path.join(d, "script.txt"); trace = os.path.join(d, "trace.ndjson")
        with open(script, "w") as f:
            f.write("\n".join(lines) + "\n")
        scratch = os.path.join(d, "scratch"); os.makedirs(scratch)
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR")}
        e.update({"ASAN_OPTIONS": "detect_leaks=%d:leak_check_at_exit=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=65536:malloc_fill_byte=190:"
                  "allocator_may_return_null=1:detect_odr_violation=0:handle_segv=1" % ("VT_LOST" in (env or {})), "TZ": "UTC",
                  "GDAL_PAM_ENABLED": "NO", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive", "CPL_LOG": "/dev/null"})
        e.update(env or {})
        errp = os.path.join(d, "stderr.txt")
        with open(errp, "w") as ef:
            try:
                r = subprocess.run([exe, script, trace] + list(args), stdout=subprocess.DEVNULL, stderr=ef,
                                   env=e, cwd=scratch, timeout=timeout)
                st = "ok" if r.returncode == 0 else "exit %d" % r.returncode
            except subprocess.TimeoutExpired:
                st = "timeout"
        n = 0
        if os.path.exists(trace):
            data = open(trace, "rb").read()
            if data and not data.endswith(b"\n"):  # torn last line
                data = data[:data.rfind(b"\n") + 1]
                open(trace, "wb").write(data)
            n = data.count(b"\n")
        err = open(errp, errors="replace").read()
        shutil.rmtree(scratch, ignore_errors=True)
        return trace, n, st, err[-6000:]

    def judge(self, exe, spec, lines, tag, cfg=None, env=None, denv=None, timeout=240):
        """Run + validate. None if accepted, else (index of the first bad op, why)."""
        trace, n, st, err = self.drive(exe, lines, tag, env=denv, timeout=timeout)
        bad = None
        stats = (0, 0)
        if n > 0:
            ev = {"TRACE": trace}; ev.update(env or {})
            rc, out, g, d = self.tlc(spec, cfg, env=ev)
            stats = (d, g)
            if rc == 0 and "No error has been found" in out:
                pass
            else:
                m = re.search(r'"REJECTED_AT",\s*(\d+)', out)
                if not m:
                    raise CheckError("TLC failed on a trace of %s:\n%s" % (spec, out[-3500:]))
                i = int(m.group(1)) - 1
                with open(trace) as f:
                    evs = f.readlines()
                mm = re.findall(r'<<\s*"EXPECT".*?>>\s*\n(?=\S)', out, re.S)
                ex = mm[-1].strip()[:1500] if mm else ""
                bad = (i, "recorded event is no behaviour of the specification: %s %s"
                       % (evs[i].strip()[:1500], ("specification gives " + ex) if ex else ""))
        if bad is None and (st != "ok" or n != len(lines)):
            if n > len(lines):
                raise CheckError("driver wrote %d events for %d ops" % (n, len(lines)))
            summ = [l for l in err.splitlines() if "ERROR:" in l or "SUMMARY" in l or "terminate" in l or "what()" in l
                    or "signal" in l or l.lstrip().startswith("#") and "/repo/src" in l]
            if "LeakSanitizer has encountered a fatal error" in err:
                raise CheckError("the leak detector does not work here: " + err[-800:])
            if "HARNESS-ERROR" in err:
                raise CheckError("driver: " + err[-1500:])
            bad = (min(n, len(lines) - 1), "implementation did not complete the operation (%s): %s"
                   % (st, " | ".join(summ)[:900] or err[-600:]))
        return bad, n, stats, trace

    def run_batches(self, exe, spec, batches, cfg=None, env=None, denv=None, pool=6, timeout=240, name=""):
        """batches: list of scripts (lists of lines)."""
        def one(k):
            return k, self.judge(exe, spec, batches[k], "%s%s-%d" % (name, spec, k), cfg, env, denv, timeout)
        with cf.ThreadPoolExecutor(pool) as ex:
            res = list(ex.map(one, range(len(batches))))
        for k, (bad, n, stats, trace) in res:
            self.traces += 1
            self.events += n
            self.states += stats[0]; self.transitions += stats[1]
            self.scenarios += sum(1 for l in batches[k] if l.startswith("reset")) or 1
            for l in batches[k][:n]:
                w = l.split(" ", 1)[0]
                self.ops[w] = self.ops.get(w, 0) + 1
            if len(self.samples) < 4 and n:
                with open(trace) as f:
                    evs = f.readlines()
                self.samples.append({"script": batches[k][:12], "events": [json.loads(x) if len(x) < 1200 else x[:1200] for x in evs[:12]]})
            shutil.rmtree(os.path.dirname(trace), ignore_errors=True) if bad is None else None
            if bad:
                self.report(exe, spec, batches[k], bad, cfg, env, denv, timeout)
        log("%s%s: %d traces, %d events" % (name, spec, len(batches), sum(r[1][1] for r in res)))

    def report(self, exe, spec, lines, bad, cfg, env, denv, timeout=240):
        """Confirm by a second run (the failing scenario alone if that repeats it), then record."""
        if len(self.violations) >= 3:
            return
        i, why = bad
        s = i
        while s > 0 and not lines[s].startswith("reset"):
            s -= 1
        pre = []
        for l in lines:  # global settings before the first reset stay in every replay
            if l.startswith("reset"): break
            pre.append(l)
        small = (pre if s > 0 and s >= len(pre) else []) + lines[s:i + 1]
        script = None
        for cand in (small, lines[:i + 1], lines):
            b2 = self.judge(exe, spec, cand, "confirm-%d" % random.getrandbits(30), cfg, env, denv, timeout)[0]
            if b2:
                script, why = cand, b2[1]
                break
        if script is None:
            log("a rejection did not repeat; not reported: %s" % why[:400])
            self.extra["unrepeated_rejections"] = self.extra.get("unrepeated_rejections", 0) + 1
            return
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (spec, len(self.violations)))
        with open(p, "w") as f:
            f.write("\n".join(script) + "\n")
        with open(p + ".why", "w") as f:
            f.write(why + "\n")
        self.violations.append((p, why))
        log("VIOLATED:", why[:2500])

    def check_known(self, exe, spec, cfg=None, env=None, denv=None):
        """Listed findings: each has a script under known/ that must (still) be rejected."""
        for k in self.known:
            if k.get("spec") != spec:
                continue
            lines = [l for l in open(os.path.join(VERIF, k["script"])).read().split("\n") if l and not l.startswith("#")]
            bad = self.judge(exe, spec, lines, "known-%s" % k["id"], cfg, env, denv)[0]
            if bad:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
            else:
                log("listed finding %s no longer shows" % k["id"])

    # ------------------------------------------------------------------ result
    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "scenarios": self.scenarios, "events_validated": self.events,
               "ops": self.ops, "models": self.mc_runs}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        if self.violations:
            for path, why in self.violations[:1]:
                print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        log("%s: held; %d states, %d traces, %d events" % (self.prop, self.states, self.traces, self.events))
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    return out
