"""Shared machinery: building the drivers from /repo's working tree, running cases, letting TLC judge the records."""
import os, sys, json, time, hashlib, random, re, shutil, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(V, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NW = 8
ENV = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", LC_ALL="C.UTF-8")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
def sh(cmd, **kw):
    kw.setdefault("env", ENV)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
class CheckError(Exception): pass

# ------------------------------------------------------------------ building
MOCK = ["mpi/mock_mpi.cpp"]
LIB = ["src/heffte_plan_logic.cpp", "src/heffte_reshape3d.cpp", "src/heffte_compute_transform.cpp", "src/heffte_magma_helpers.cpp", "src/heffte_c.cpp"]
OPT = ["-O1", "-g1", "-w"] + (["--coverage", "-fno-inline", "-DVF_COV"] if os.environ.get("VERIF_COV") else [])      # VERIF_COV: how much of the library the cases reach
LINK = ["-lfftw3", "-lfftw3f", "-lmkl_intel_ilp64", "-lmkl_sequential", "-lmkl_core", "-lpthread", "-lm", "-ldl"]
def libsrcs():
    """The library's own source list, as its build file gives it."""
    r = []
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        if re.search(r"oneapi|\.hip\.", os.path.basename(s)): continue
        r.append("src/" + os.path.basename(s))
    return r or LIB
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, dirs, files in (os.walk(p) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]):
            dirs.sort()
            for f in sorted(files):
                q = os.path.join(root, f); h.update(q.encode())
                with open(q, "rb") as fh: h.update(fh.read())
    return h.hexdigest()[:20]
def config_h(avx=True, tracing=True, avx512=False):
    on = {"Heffte_ENABLE_FFTW", "Heffte_ENABLE_MKL"} | ({"Heffte_ENABLE_AVX"} if avx else set()) | ({"Heffte_ENABLE_AVX512"} if avx512 else set()) | ({"Heffte_ENABLE_TRACING"} if tracing else set())
    out = []
    for line in open(os.path.join(REPO, "include/heffte_config.cmake.h")):
        m = re.match(r"\s*#cmakedefine\s+(\w+)", line)
        if m: line = ("#define %s\n" if m.group(1) in on else "/* #undef %s */\n") % m.group(1)
        line = re.sub(r"@\w*VERSION_MAJOR@", "2", line); line = re.sub(r"@\w*VERSION_MINOR@", "4", line); line = re.sub(r"@\w*VERSION_PATCH@", "0", line)
        line = re.sub(r"@\w+@", "x", line)
        out.append(line)
    return "".join(out)
_built = {}
def has_avx512():
    """the processor can run the 512-bit variant of the stock engine"""
    try: return all(x in open("/proc/cpuinfo").read().split() for x in ("avx512f", "avx512dq"))
    except OSError: return False
def build(name, sources, avx=True, tracing=True, defs=(), lib=True, extra=(), opt=None, objs=()):
    """Compile sources (paths relative to /verif) with the library of the working tree; returns the executable."""
    opt = opt or OPT
    key = (name, tuple(sources), avx, tracing, tuple(defs), lib, tuple(opt), tuple(extra), tuple(objs))
    if key in _built: return _built[key]
    hh = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(V, "harness"), os.path.join(V, "mpi")] + [s for s in sources if os.path.isabs(s)])
    hid = hashlib.sha256((hh + repr(key)).encode()).hexdigest()[:16]
    bdir = os.path.join(V, "build", hid); exe = os.path.join(bdir, name)
    if not os.path.exists(exe + ".ok"):
        inc = os.path.join(bdir, "inc"); os.makedirs(inc, exist_ok=True)
        with open(os.path.join(inc, "heffte_config.h"), "w") as f: f.write(config_h(avx, tracing, avx == 512))
        flags = list(opt) + (["-mfma", "-mavx"] if avx else []) + (["-mavx512f", "-mavx512dq"] if avx == 512 else []) + ["-I" + inc, "-I" + V + "/mpi", "-I" + V + "/harness", "-I" + REPO + "/include", "-I/usr/include/mkl"] + ["-D" + d for d in defs] + list(extra)
        jobs = [(os.path.join(V, s), "x") for s in sources] + [(os.path.join(V, s), "m") for s in MOCK]
        if lib: jobs += [(os.path.join(REPO, s), "l") for s in libsrcs()]
        given = list(objs); objs = []
        def comp(job):
            src, kind = job; o = os.path.join(bdir, kind + "_" + os.path.basename(src) + ".o")
            # objects are shared between the drivers of one run
            comm = os.path.join(V, "build", "obj"); os.makedirs(comm, exist_ok=True)
            parts = [d for d in defs if d.startswith("NO_")]; fl = flags if kind == "x" else [x for x in flags if x[2:] not in parts]
            oid = hashlib.sha256((hh + src + repr((avx, tracing, fl, opt, extra) if parts else (avx, tracing, defs, opt, extra))).encode()).hexdigest()[:24]
            o = os.path.join(comm, oid + ".o")
            if os.path.exists(o): return o, None
            c = src.endswith(".c")
            r = sh(["gcc" if c else "g++"] + (["-std=c99"] if c else ["-std=c++14"]) + fl + ["-c", src, "-o", o + ".tmp"])
            if r.returncode: return o, "%s\n%s" % (src, r.stdout[-3000:])
            os.rename(o + ".tmp", o); return o, None
        with ThreadPoolExecutor(NW) as ex: res = list(ex.map(comp, jobs))
        for o, e in res:
            if e: raise CheckError("does not compile: " + e)
            objs.append(o)
        r = sh(["g++"] + [x for x in list(extra) + list(opt) if x.startswith("-fsan") or x == "--coverage"] + objs + given + ["-o", exe] + (["-lgfortran"] if given else []) + LINK)
        if r.returncode: raise CheckError("does not link: " + r.stdout[-3000:])
        open(exe + ".ok", "w").close()
    _built[key] = exe; return exe
def build_parts(name, sources, parts):
    """like build, for a driver that calls internal functions: leaves out the parts (NO_x) that no longer compile, unless that is all of them"""
    try: return build(name, sources)
    except CheckError as e:
        good = []
        for p in parts:
            try: build(name + "_" + p, sources, defs=["NO_" + q for q in parts if q != p]); good.append(p)
            except CheckError: pass
        if not good: raise e
        return build(name, sources, defs=["NO_" + q for q in parts if q not in good])
def build_py():
    """the shared library of the working tree on the in-process MPI, as the Python interface loads it; returns the command that runs sessions"""
    key = "python"
    if key in _built: return _built[key]
    hh = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(V, "harness"), os.path.join(V, "mpi")])
    d = os.path.join(V, "build", "py_" + hashlib.sha256((hh + repr(OPT)).encode()).hexdigest()[:16]); exe = os.path.join(d, "pysessions")
    if not os.path.exists(exe + ".ok"):
        inc = os.path.join(d, "inc"); os.makedirs(inc, exist_ok=True)
        with open(os.path.join(inc, "heffte_config.h"), "w") as f: f.write(config_h(True, False))
        flags = OPT + ["-fPIC", "-mfma", "-mavx", "-I" + inc, "-I" + V + "/mpi", "-I" + V + "/harness", "-I" + REPO + "/include", "-I/usr/include/mkl"]
        jobs = [os.path.join(REPO, s) for s in libsrcs()] + [os.path.join(V, s) for s in MOCK + ["harness/pyreal.cpp"]]
        def comp(src):
            o = os.path.join(d, os.path.basename(src) + ".o"); r = sh(["g++", "-std=c++14"] + flags + ["-c", src, "-o", o]); return o, r.stdout[-3000:] if r.returncode else None
        with ThreadPoolExecutor(NW) as ex: res = list(ex.map(comp, jobs))
        for o, e in res:
            if e: raise CheckError("does not compile: %s\n%s" % (o, e))
        r = sh(["g++", "-shared", "-Wl,-Bsymbolic"] + [o for o, e in res] + ["-o", d + "/libheffte_real.so"] + LINK)
        if r.returncode: raise CheckError("does not link: " + r.stdout[-3000:])
        r = sh(["gcc", "-std=gnu11", "-shared"] + flags + [V + "/harness/pyproxy.c", "-o", d + "/libheffte.so", "-lpthread", "-ldl"])
        if r.returncode: raise CheckError("does not compile: " + r.stdout[-3000:])
        t = open(os.path.join(REPO, "python/heffte_config.cmake.py")).read().replace("@heffte_library_path@", d + "/libheffte.so").replace("@PROJECT_VERSION@", "2.4.0")
        for x in ("FFTW", "MKL"): t = t.replace("@Heffte_ENABLE_%s@" % x, "ON")
        with open(d + "/heffte_config.py", "w") as f: f.write(re.sub(r"@\w+@", "", t))
        with open(exe, "w") as f: f.write('#!/bin/sh\nexec %s -B %s/harness/pydrive.py %s "$@"\n' % (PYTHON, V, d))
        os.chmod(exe, 0o755); open(exe + ".ok", "w").close()
    _built[key] = exe; return exe
def build_fort(be, main):
    """the Fortran module of a back end, as the working tree has it, with the drivers in fort_*.cpp"""
    import fortglue
    key = "fort_%s_%s" % (be, os.path.basename(main[0]).split(".")[0])
    if key in _built: return _built[key]
    hh = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "fortran", "generated"), os.path.join(V, "harness"), os.path.join(V, "mpi"), os.path.join(V, "tools", "fortglue.py")])
    d = os.path.join(V, "build", "fort_" + hashlib.sha256((hh + be + repr(OPT)).encode()).hexdigest()[:16]); os.makedirs(d, exist_ok=True); gen = os.path.join(REPO, "fortran", "generated")
    if not os.path.exists(d + "/glue.o"):
        with open(d + "/glue.f90", "w") as f: f.write(fortglue.module(be))
        for src, o in ((gen + "/heffte_%s.f90" % be, "module.o"), (d + "/glue.f90", "glue.o")):
            r = sh(["gfortran", "-O1", "-g1", "-w", "-ffree-line-length-none", "-c", src, "-o", d + "/" + o + ".tmp.o"], cwd=d)
            if r.returncode: raise CheckError("does not compile: %s\n%s" % (src, r.stdout[-3000:]))
            os.rename(d + "/" + o + ".tmp.o", d + "/" + o)
    exe = build(key, list(main) + [os.path.join(gen, "heffte_%sFORTRAN_wrap.cxx" % be)], defs=("VF_BE=" + be,), objs=(d + "/module.o", d + "/glue.o"))
    return exe
PYTHON = "/opt/veriftools/pyvenv/bin/python3"
NUM = ["harness/num_fftw.cpp", "harness/num_mkl.cpp", "harness/num_stock.cpp"]

# ------------------------------------------------------------------ scratch
class Scratch:
    def __init__(self, pid):
        self.dir = os.path.join(V, "build", "run_%s_%d" % (pid, os.getpid())); os.makedirs(self.dir, exist_ok=True)
    def path(self, *a): return os.path.join(self.dir, *a)
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

# ------------------------------------------------------------------ cases
def line(case): return " ".join("%s=%s" % (k, v) for k, v in case.items() if v is not None and v != "")
def boxes(bs): return ";".join(",".join(map(str, b)) for b in bs)
def run_driver(exe, cases, scratch, tag, timeout=30, workers=NW, wall=None, env=None):
    """Runs the cases; returns {id: json line}. Each case is a dict with an id. Several executables: one per back end."""
    if isinstance(exe, dict):
        recs = {}
        for be in exe:
            cs = [c for c in cases if c["be"] == be]
            if cs: recs.update(run_driver(exe[be], cs, scratch, tag + be, timeout, workers, wall, env))
        return recs
    cf = scratch.path(tag + ".cases"); of = scratch.path(tag + ".out")
    with open(cf, "w") as f:
        for c in cases: f.write(line(c) + "\n")
    try: r = sh([exe, cf, of, str(workers), str(timeout)], timeout=wall or 850, env=dict(ENV, **(env or {})), cwd=scratch.dir)
    except subprocess.TimeoutExpired: raise CheckError("driver ran out of time")
    recs = {}
    for w in range(workers):
        try:
            with open("%s.%d" % (of, w), errors="replace") as f:
                for l in f:
                    l = l.rstrip("\n")
                    m = re.match(r'\{"id":"([^"]*)"', l)
                    if m and l.endswith("}"): recs[m.group(1)] = l
        except FileNotFoundError: pass
        for q in ("%s.%d" % (of, w),):
            if os.path.exists(q): os.remove(q)
    missing = [c["id"] for c in cases if str(c["id"]) not in recs]
    if missing: raise CheckError("driver gave no record for %d cases, first %s (%s)" % (len(missing), missing[0], r.stdout[-500:]))
    return {i: l for i, l in recs.items() if '"status":"absent"' not in l[:200]}
def tlc(module, cfg=None, env=None, workers=1, meta=None, heap="2g", args=(), timeout=800):
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xss32m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-XX:TieredStopAtLevel=4", "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    try: return sh(cmd, cwd=SPEC, env=dict(ENV, **(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired: raise CheckError("TLC ran out of time on " + module)
def states_of(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
    m2 = re.findall(r"(\d+) states generated", out.replace(",", ""))
    d = re.findall(r"(\d+) distinct states found", out.replace(",", ""))
    return (int(m2[-1]) if m2 else 0, int(d[-1]) if d else 0)
class Judge:
    """Feeds recorded runs to a trace specification; TLC decides which records are behaviours of it."""
    def __init__(self, scratch): self.s = scratch; self.generated = self.distinct = self.validated = 0
    def judge(self, module, recs, chunks=NW, cfg=None, env=None):
        ids = list(recs); n = max(1, min(chunks, (len(ids) + 3) // 4)); jobs = []
        # balance by size
        order = sorted(ids, key=lambda i: -len(recs[i])); parts = [[] for _ in range(n)]; load = [0] * n
        for i in order:
            k = load.index(min(load)); parts[k].append(i); load[k] += len(recs[i]) + 2000
        def run(k, keep):
            f = self.s.path("%s_%d_%d.ndjson" % (module, k, time.time_ns()))
            with open(f, "w") as fh:
                for i in keep: fh.write(recs[i] + "\n")
            md = f + ".md"
            r = tlc(module, cfg=cfg, env=dict(env or {}, TRACE=f), meta=md)
            shutil.rmtree(md, ignore_errors=True)
            out = r.stdout
            rej = re.findall(r'<<"REJECT", "([^"]*)", (.*), (-?\d+)>>', out)
            m = re.search(r'<<"DONE", (\d+), (\d+)>>', out)
            if m and int(m.group(1)) == len(keep):
                os.remove(f)
                if len(rej) != int(m.group(2)): raise CheckError("TLC output not understood: %s" % out[-1500:])
                return rej, states_of(out), None
            # a record with values outside what the specification is defined on (an index that does not exist, a number too large) is no behaviour of it either
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
            if at and 1 <= int(at[-1]) <= len(keep) and re.search(r"^Error: .*|TLC threw an unexpected exception|Attempted to", out, re.M) and not re.search(r"OutOfMemory|StackOverflow|heap space|No space left", out):
                os.remove(f); return rej, states_of(out), int(at[-1]) - 1
            kf = os.path.join(V, "build", "tlc_failed.txt"); open(kf, "w").write(out); shutil.copy(f, os.path.join(V, "build", "tlc_failed.ndjson"))
            raise CheckError("TLC did not finish %s: %s" % (module, out[-900:]))
        def go(k):
            keep = list(parts[k]); rejs = []; g = d = 0
            for again in range(6):
                rej, (a, b), at = run(k, keep); rejs += rej; g += a; d += b
                if at is None or again == 5: break
                rejs.append((keep[at], "not-defined", "0")); keep = keep[at + 1:]
                if not keep: break
            return rejs, (g, d)
        bad = {}
        with ThreadPoolExecutor(n) as ex:
            for rej, (g, d) in ex.map(go, range(n)):
                self.generated += g; self.distinct += d
                for i, why, k in rej: bad[i] = (why.strip('"'), int(k))
        self.validated += len(ids)
        return bad

# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid; self.level = level; self.t0 = time.time(); self.s = Scratch(pid); self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}; self.assume = []; self.viol = []; self.j = Judge(self.s); self.known = self.load_known(); self.known_hit = []
        self.counts = {}
    def load_known(self):
        r = []
        p = os.path.join(V, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith("#") and not l.startswith("fixed:"):
                    k = json.loads(l)
                    if k["property"] == self.pid: r.append(k)
        return r
    def elapsed(self): return time.time() - self.t0
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def sample(self, x, cap=6):
        if len(self.cov["samples"]) < cap: self.cov["samples"].append(x)
    def model(self, module, cfg=None, workers=NW, heap="6g", args=(), env=None, expect_ok=True, timeout=700):
        """Check the specification itself (not the code). A failure is a fault of the specification, hence a check error."""
        md = self.s.path("md_%s_%d" % (module, time.time_ns()))
        r = tlc(module, cfg=cfg, workers=workers, meta=md, heap=heap, args=args, env=env, timeout=timeout); shutil.rmtree(md, ignore_errors=True)
        g, d = states_of(r.stdout)
        self.cov["states"] += d; self.cov["transitions"] += g
        ok = "No error has been found" in r.stdout or ("-simulate" in args and "Error" not in r.stdout)
        if expect_ok and not ok: raise CheckError("specification %s/%s: %s" % (module, cfg, r.stdout[-3000:]))
        self.count("spec_runs"); return r.stdout
    def models(self, jobs, parallel=4):
        """several specifications at once; a job is (module, cfg, should it hold)"""
        def go(j):
            out = self.model(j[0], cfg=j[1], workers=max(1, NW // parallel), heap="3g", expect_ok=j[2])
            if not j[2] and not re.search(r"Deadlock reached|is violated|were violated", out): raise CheckError("the faulty model %s was not told apart: %s" % (j[1], out[-800:]))
        with ThreadPoolExecutor(parallel) as ex: list(ex.map(go, jobs))
    def partitions(self, world, maxn, minn=1, idle=False):
        """the distributions of a small world, enumerated by TLC from Partitions.tla"""
        cfg = self.s.path("partitions_%d.cfg" % time.time_ns())
        with open(cfg, "w") as f: f.write("SPECIFICATION Spec\nCONSTANTS W0 = %d\n W1 = %d\n W2 = %d\n MaxN = %d\n MinN = %d\n Idle = %s\nINVARIANTS Covers Emit\nCHECK_DEADLOCK FALSE\n" % (*world, maxn, minn, "TRUE" if idle else "FALSE"))
        out = self.model("Partitions", cfg=cfg, workers=1)
        r = sorted(set(re.findall(r'<<"P", "(.*)">>', out)))
        if not r: raise CheckError("no partitions enumerated: " + out[-500:])
        return [json.loads(x) for x in r]
    def violation(self, what, case, detail="", how="", why=""):
        for k in self.known:
            if k.get("case_id") and k["case_id"] == case.get("fingerprint", "-") + ":" + why:
                if k not in self.known_hit: self.known_hit.append(k)
                return
        self.viol.append((what, case, detail, how))
    def run(self, exe, cases, module, tag="c", timeout=30, explain=None, cfg=None, confirm=True, how="", also=()):
        """Execute cases on the real code and judge the records; rejected ones are run again before they are reported."""
        if not cases: return {}
        recs = run_driver(exe, cases, self.s, tag, timeout)
        skipped = [i for i in recs if '"status":"skipped"' in recs[i][:200]]      # not run any more after the second hang of a worker
        for i in skipped: del recs[i]
        if skipped: self.count("skipped_after_hang", len(skipped))
        bad = self.j.judge(module, recs, cfg=cfg)
        for m in also:
            for i, w in self.j.judge(m, {i: recs[i] for i in recs if i not in bad}).items(): bad[i] = w
        byid = {str(c["id"]): c for c in cases}
        if bad and confirm:
            again = [byid[i] for i in list(bad)[:40]]
            r2 = run_driver(exe, again, self.s, tag + "x", timeout)
            b2 = self.j.judge(module, r2, cfg=cfg)
            for m in also: b2.update(self.j.judge(m, {i: r2[i] for i in r2 if i not in b2}))
            for i in list(bad)[:40]:
                if i not in b2: self.count("not_reproduced")
            # a rejected record stands on its own; only losses to the environment (time, killed) must show twice
            for i in list(bad):
                if i in r2 and i not in b2 and (bad[i][0] == "hang" or bad[i][0].startswith("exit")): del bad[i]
            recs.update({i: r2[i] for i in b2})
        for i, (why, k) in bad.items():
            self.violation("%s (%s, step %d)" % (module, why, k), byid[i], recs[i][:1500], how or (exe[byid[i]["be"]] if isinstance(exe, dict) else exe), why)
        for c in cases[:2]: self.sample(line(c)[:400])
        self.count("cases_" + tag, len(cases))
        return recs
    def finish(self):
        self.cov["states"] += self.j.distinct; self.cov["transitions"] += self.j.generated; self.cov["traces_validated_against_impl"] += self.j.validated
        self.cov.update({"counts": self.counts})
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov, "assumptions": self.assume, "wall_s": round(self.elapsed(), 2), "violations": len(self.viol)}
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        self.s.close()
        for k in self.known_hit: print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            for n, (what, case, detail, how) in enumerate(self.viol[:10]):
                rp = os.path.join(rd, "%s_%d.txt" % (self.pid, n))
                with open(rp, "w") as f: f.write("property: %s\nrejected by: %s\ncase:\n%s\nrecord:\n%s\nhow: %s\n" % (self.pid, what, line(case), detail, how))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp)); print("  " + what + ": " + line(case)[:300])
            if len(self.viol) > 10: print("  and %d more" % (len(self.viol) - 10))
        print("%s %s: %d records validated, %d model states, %s, %.1f s, %d violations" % (self.pid, TIER, self.cov["traces_validated_against_impl"], self.cov["states"], self.counts, self.elapsed(), len(self.viol)))
        return 1 if self.viol else 0
