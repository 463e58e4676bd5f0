"""One function per property."""
import vf, gen, cases, random, os, json, re, time
from vf import Check, THOROUGH
def rounds(quick, thorough):
    return thorough if THOROUGH else quick
def num_exe(): return vf.build("num", ["harness/num_main.cpp"] + vf.NUM)
def label_exe(): return vf.build("label", ["harness/label.cpp"])
def budget(c, seconds): return c.elapsed() < seconds
def reshape_exe(): return vf.build("reshape", ["harness/reshape.cpp"])
def batches(c, make, exe, module, n, tag, limit, also=()):
    """thorough runs repeat until the time is used, quick ones do one round"""
    k = 0
    while True:
        cs = [make(c.rng, "%s%d_%d" % (tag, k, i)) for i in range(n)]
        c.run(exe, cs, module, tag="%s%d" % (tag, k), also=also); k += 1
        if not THOROUGH or c.elapsed() > limit or c.viol: break
def large(c, make, exe, module, n, tag):
    c.run(exe, [make(c.rng, "%s_%d" % (tag, i)) for i in range(rounds(n, 12 * n))], module, tag=tag); c.count("large_cases", rounds(n, 12 * n))
def check_C01():
    c = Check("C01"); exe = num_exe(); lab = label_exe()
    batches(c, lambda r, i: cases.num(r, i, r2c=-1, dirs=(0,), rin=.3), exe, "NumTrace", 1000, "n", 300)
    batches(c, lambda r, i: cases.num(r, i, dirs=(0,), rin=.1, geo=cases.long_lines(r), groups=1, lin=.1), exe, "NumTrace", 300, "l", 420)
    batches(c, lambda r, i: cases.label(r, i, r2c=-1, seq="f"), lab, "FftTrace", 1000, "s", 600)
    large(c, lambda r, i: cases.big_num(r, i, r2c=-1, dirs=(0,)), exe, "NumTrace", 40, "B")
    large(c, lambda r, i: cases.big_label(r, i, r2c=-1, seq="f"), lab, "FftTrace", 24, "S")
    # the conditions the records are judged by are enough for, and needed by, the transform of a whole array
    c.models([("Pipeline", "Pipeline_221.cfg", True)] + [("Pipeline", "X_pipeline_%s.cfg" % x, False) for x in ("incomplete", "twice", "overlap")])
    if THOROUGH: c.models([("Pipeline", "Pipeline_222.cfg", True), ("Pipeline", "Pipeline_np3.cfg", True)], parallel=2)
    return c.finish()
def check_C02():
    c = Check("C02"); exe = num_exe()
    batches(c, lambda r, i: cases.num(r, i, r2c=[-1, -1, 0, 1, 2], dirs=(1, 0)), exe, "NumTrace", 1300, "n", 450)
    batches(c, lambda r, i: cases.num(r, i, dirs=(1,), rin=.1, geo=cases.long_lines(r), groups=1, lin=.1), exe, "NumTrace", 300, "l", 600)
    large(c, lambda r, i: cases.big_num(r, i, dirs=(1,)), exe, "NumTrace", 48, "B")
    c.run(exe, [cases.huge_num(c.rng, "H%d" % i) for i in range(rounds(300, 3000))], "NumTrace", tag="H")
    return c.finish()
def check_C03():
    c = Check("C03"); exe = num_exe(); lab = label_exe()
    batches(c, lambda r, i: cases.num(r, i, r2c=[0, 1, 2]), exe, "NumTrace", 1000, "n", 300)
    batches(c, lambda r, i: cases.num(r, i, geo=cases.long_lines(r, 0), groups=1, lin=.1), exe, "NumTrace", 300, "l", 420)
    batches(c, lambda r, i: cases.label(r, i, r2c=r.randrange(3)), lab, "FftTrace", 800, "s", 600)
    large(c, lambda r, i: cases.big_num(r, i, r2c=[0, 1, 2]), exe, "NumTrace", 36, "B")
    large(c, lambda r, i: cases.big_label(r, i, r2c=r.randrange(3)), lab, "FftTrace", 24, "S")
    c.models([("Pipeline", "Pipeline_r2c.cfg", True)], parallel=1)
    return c.finish()
WORLDS4 = [(2, 2, 2), (1, 2, 3), (3, 2, 1), (2, 1, 4), (2, 3, 2), (1, 1, 5), (3, 3, 1)]
def pairs(c, n, worlds, maxn, idle):
    """redistributions between two enumerated distributions of the same world on the same number of ranks"""
    r = []
    for w in worlds:
        byn = {}
        for p in c.partitions(w, maxn, idle=idle): byn.setdefault(len(p), []).append(p)
        allp = [(a, b) for m in byn for a in byn[m] for b in byn[m]]
        c.count("enumerated_pairs", len(allp)); c.rng.shuffle(allp)
        for a, b in allp[:n // len(worlds)]:
            k = cases.reshape(c.rng, "e%d" % len(r)); oa, ob = c.rng.choice(gen.ORDERS), c.rng.choice(gen.ORDERS)
            if c.rng.random() < .3: ob = oa
            k.update({"in": vf.boxes([x + list(oa) for x in a]), "out": vf.boxes([x + list(ob) for x in b])}); k.pop("perm", None); r.append(k)
    return r
def check_C04():
    c = Check("C04"); exe = reshape_exe()
    batches(c, lambda r, i: cases.reshape(r, i), exe, "ReshapeTrace", 3000, "r", 200)
    batches(c, lambda r, i: cases.reshape(r, i, maxn=4, wide=True, apps="1"), exe, "ReshapeTrace", 250, "w", 300)
    large(c, lambda r, i: cases.big_reshape(r, i), exe, "ReshapeTrace", 60, "B")
    for k in range(rounds(1, 8)):
        c.run(exe, pairs(c, rounds(1500, 12000), c.rng.sample(WORLDS4, 3), 3, bool(k % 2)), "ReshapeTrace", tag="p%d" % k)
        if c.elapsed() > 500 or c.viol: break
    c.models([("Redistribute", "Redistribute_deep.cfg" if THOROUGH else "Redistribute.cfg", True)] + [("Redistribute", "X_redistribute_%s.cfg" % x, False) for x in ("map", "stride")], parallel=3)
    return c.finish()
QUICK5 = ["Reshape_p2p_live", "Reshape_plined_live", "Reshape_a2av_live", "Reshape_a2a", "Reshape_a2av"]
DEEP5 = ["Reshape_plined", "Reshape_p2p", "Reshape_plined_two", "Reshape_p2p_two", "Reshape_plined_all", "Reshape_p2p_all"]
def check_C05():
    c = Check("C05"); lab = label_exe(); exe = reshape_exe()
    batches(c, lambda r, i: cases.label(r, i, rec=1, maxvol=40, batches=(1, 2)), lab, "MpiTrace", 500, "s", 120, also=("FftTrace",))
    batches(c, lambda r, i: cases.reshape(r, i, rec=1, maxvol=40), exe, "MpiTrace", 1000, "r", 240, also=("ReshapeTrace",))
    batches(c, lambda r, i: cases.label(r, i, maxvol=60), lab, "FftTrace", 1000, "u", 300)
    large(c, lambda r, i: cases.big_label(r, i, maxvol=15000), lab, "FftTrace", 24, "S")
    c.models([("Reshape", m + ".cfg", True) for m in QUICK5] + [("Reshape", m + ".cfg", False) for m in ("X_block", "X_slot")])
    # X_*: a protocol that sends before it receives, or that reuses a slot, must fail on the model
    if THOROUGH:
        for m in DEEP5: c.model("Reshape", cfg=m + ".cfg")
    return c.finish()
def geom_exe(): return vf.build_parts("geom", ["harness/geom.cpp"], ["plan", "split", "surf", "grid2", "grid3", "pencils", "overlap", "rel"])
def plan_pairs(c, n, worlds, maxn):
    r = []
    for w in worlds:
        for d in (-1, 0, 1, 2):
            A = {}; B = {}
            for p in c.partitions(w, maxn): A.setdefault(len(p), []).append(p)
            wo = gen.half(w, d)
            if wo == list(w): B = A
            else:
                for p in c.partitions(wo, maxn): B.setdefault(len(p), []).append(p)
            al = [(a, b) for m in A if m in B for a in A[m] for b in B[m]]; c.count("enumerated_pairs", len(al)); c.rng.shuffle(al)
            for a, b in al[:n // len(worlds) // 4]: r.append(cases.plan(c.rng, "q%d" % len(r), geo=(w, d, a, b)))
    return r
def check_C06():
    c = Check("C06"); lab = label_exe(); geo = geom_exe()
    batches(c, lambda r, i: cases.plan(r, i), geo, "PlanTrace", 6000, "p", 120)
    c.run(geo, plan_pairs(c, rounds(1500, 40000), rounds([c.rng.choice([(2, 2, 2), (1, 2, 3), (2, 3, 1), (4, 2, 1)])], WORLDS4), 3), "PlanTrace", tag="q")
    batches(c, lambda r, i: cases.label(r, i, batches=(1,), seq=r.choice(["fb", "f", "b"])), lab, "FftTrace", 1500, "s", 600)
    large(c, lambda r, i: cases.big_label(r, i, batches=(1,)), lab, "FftTrace", 30, "S")
    return c.finish()
def check_C07():
    c = Check("C07"); geo = geom_exe()
    batches(c, lambda r, i: cases.geom(r, i), geo, "GeomTrace", 12000, "g", 500)
    # every small case
    cs = []
    for w in [(a, b, d) for a in range(1, 6) for b in range(1, 6) for d in range(1, 6)]:
        for np in range(1, 13 if THOROUGH else 9):
            g = [(a, b, np // a // b) for a in range(1, np + 1) if np % a == 0 for b in range(1, np // a + 1) if (np // a) % b == 0]
            box = vf.boxes([[0, 0, 0] + [x - 1 for x in w] + [0, 1, 2]])
            if any(all(x[d] <= w[d] for d in range(3)) for x in g): cs.append(dict(id="x%d" % len(cs), op="surf", world=box, np=np))
            if THOROUGH or np < 7:
                for x in g: cs.append(dict(id="x%d" % len(cs), op="split", world=box, grid=",".join(map(str, x))))
    c.run(geo, cs, "GeomTrace", tag="x")
    return c.finish()
def check_C08():
    c = Check("C08"); exe = num_exe(); lab = label_exe()
    batches(c, lambda r, i: cases.label(r, i, batches=(2, 2, 3, 3, 4, 4, 7, 17), empties=.2), lab, "FftTrace", 1500, "s", 300)
    batches(c, lambda r, i: cases.num(r, i, batches=(2, 2, 3, 3, 5, 5, 9, 18), groups=1, lin=.2), exe, "NumTrace", 700, "n", 600)
    large(c, lambda r, i: cases.big_num(r, i, batches=(2, 4, 6, 9, 33), maxvol=12000), exe, "NumTrace", 20, "B")
    large(c, lambda r, i: cases.big_label(r, i, batches=(2, 5, 8, 12, 40, 70), maxvol=12000), lab, "FftTrace", 20, "S")
    return c.finish()
def check_C09():
    c = Check("C09"); exe = num_exe(); lab = label_exe()
    batches(c, lambda r, i: cases.label(r, i, pad=r.randint(0, 9), exws=1), lab, "FftTrace", 1700, "s", 300)
    batches(c, lambda r, i: cases.num(r, i, groups=1, lin=.1), exe, "NumTrace", 700, "n", 600)
    large(c, lambda r, i: cases.big_num(r, i), exe, "NumTrace", 24, "B")
    return c.finish()
def big_sub(r, i):
    k = cases.big_label(r, i, maxvol=20000, batches=(1, 1, 2)); n = k["in"].count(";") + 1; k["sub"] = r.choice([r.randint(1, n), r.randint(1, n), n, n + 1]); return k
def check_C10():
    c = Check("C10"); lab = label_exe()
    batches(c, lambda r, i: cases.label(r, i, sub=1, empties=.15, batches=(1, 1, 2)), lab, "FftTrace", 2200, "s", 600)
    large(c, lambda r, i: big_sub(r, i), lab, "FftTrace", 40, "S")
    # a communicator instead of a number: results must be right, and the work must be done by its ranks (see known_findings.jsonl)
    cs = []
    for i in range(rounds(60, 600)):
        k = cases.label(c.rng, "c%d" % i, sub=0, batches=(1,), fingerprint="use_subcomm"); n = k["in"].count(";") + 1
        k["part"] = ",".join(map(str, sorted(c.rng.sample(range(n), c.rng.randint(1, n))))); cs.append(k)
    c.run(lab, cs, "FftTrace", tag="c")
    return c.finish()

def r2r_exe(): return vf.build("r2r", ["harness/r2r_main.cpp", "harness/r2r_fftw.cpp", "harness/r2r_mkl.cpp", "harness/r2r_stock.cpp"])
def check_C13():
    c = Check("C13"); exe = r2r_exe()
    c.models([("R2rKernel", "R2rKernel_deep.cfg" if THOROUGH else "R2rKernel.cfg", True), ("R2rKernel", "X_r2rkernel_even.cfg", False), ("R2rKernel", "X_r2rkernel_shift.cfg", False)], parallel=3)
    batches(c, lambda r, i: cases.r2r(r, i), exe, "R2rTrace", 1800, "n", 600)
    large(c, lambda r, i: cases.r2r(r, i, big=True, lin=0, batches=(1, 1, 2, 5)), exe, "R2rTrace", 24, "B")
    return c.finish()
def exec_exe(avx=True): return vf.build("exec", ["harness/exec_main.cpp", "harness/exec_fftw.cpp", "harness/exec_mkl.cpp", "harness/exec_stock.cpp"], avx=avx)
BIGP = [100003, 100019, 100043, 100801, 110251, 114689, 131071, 147457, 150001, 199999, 209953, 262147, 299993, 331777]
PRIMES = [p for p in range(2, 400) if all(p % q for q in range(2, p))]
def maxprime(n):
    m, q = 1, 2
    while q * q <= n:
        if n % q == 0: m = q; n //= q
        else: q += 1
    return max(m, n) if n > 1 else m
def check_C15():
    c = Check("C15"); r = c.rng
    c.models([("Engine", "Engine_deep.cfg" if THOROUGH else "Engine.cfg", True)] + [("Engine", "X_engine_%s.cfg" % x, False) for x in ("twiddle", "order", "norm")], parallel=2)
    # call graphs: every length to a bound, then lengths with the kinds of factors the engine knows, and those of primes that are split by Rader's algorithm
    ns = list(range(1, rounds(6000, 60000))) + [x for x in (2 ** a * 3 ** b * r.choice([1, 1, 5, 7, 11, 35, 121, 1213, 1217, 1499, 10007]) for a in range(19) for b in range(12)) if x < 10 ** 6]
    ns += [r.randrange(6000, 10 ** 6) for _ in range(rounds(400, 4000))] + [p * q for p in r.sample(BIGP, 10) for q in (1, 2, 3, 5) if p * q < 10 ** 6]
    r.shuffle(ns); c.run(exec_exe(True), [dict(id="T%d" % i, be="tree", ns=",".join(map(str, ns[i * 100:i * 100 + 100]))) for i in range((len(ns) + 99) // 100)], "TreeTrace", tag="T")
    for avx in (True, False) + ((512,) if vf.has_avx512() else ()):
        exe = exec_exe(avx); t = {True: "v", False: "s", 512: "w"}[avx]
        if avx == 512:   # the same code with wider packs: more lines, shorter ones
            cs = [cases.execr(r, "w%d_%s" % (n, q), be="stock", n=n, nd=q, groups=1, maxvol=1200) for n in range(1, rounds(40, 130) + 1) for q in (1, "r")]
            cs += [cases.execr(r, "wL%d_%s" % (n, q), be="stock", n=n, nd=q, groups=rounds(1, 2), lin=0, lp=1, maxvol=2500, float=r.randrange(2) if maxprime(n) < 1300 else 0) for n in list(range(1, rounds(160, 1400))) + r.sample(range(160, 3000), rounds(40, 300)) for q in (1, "r")]
            cs += [cases.rader(r, "wr%d" % p, p, avx) for p in r.sample(PRIMES[1:], rounds(12, len(PRIMES) - 1))]
            r.shuffle(cs); c.run(exe, cs, "ExecTrace", tag="lw"); continue
        top = rounds(130 if avx else 60, 400); cs = [cases.execr(r, "%s%d_%s" % (t, n, q), be="stock", n=n, nd=q, groups=1) for n in range(1, top + 1) for q in (1, "r")]
        # by lines: every length to a bound, then lengths of all the kinds the engine distinguishes
        far = list(range(1, rounds(1400 if avx else 1100, 6000) + 1)); kinds = [2 ** a * 3 ** b * x for a in range(15) for b in range(9) for x in (1, 5, 7, 11, 13, 25, 35, 37, 49, 121, 311, 1213, 1217, 1231, 1223 * 3)]
        kinds = [x for x in kinds if far[-1] < x < 24999 and maxprime(x) < 5000] if avx or THOROUGH else []
        far += r.sample(kinds, min(len(kinds), rounds(25, 400))); far += [r.choice([1213 * 1213, 1223 * 1217, 2 ** 18, 3 ** 11, 2 ** 10 * 3 ** 5, 10 ** 5 + 8, 7 ** 6, 1217 * 37])] if avx else []
        cs += [cases.execr(r, "%sL%d_%s" % (t, i, q), be="stock", n=n, nd=q, groups=rounds(1, 2), lin=0, lp=1, maxvol=max(400, 2 * n), float=r.randrange(2) if n <= 3000 and maxprime(n) < 1300 else 0) for i, n in enumerate(far) for q in ((1, "r") if THOROUGH or n < 20000 else (r.choice([1, "r"]),))]
        ps = [p for p in PRIMES if p > 2]; cs += [cases.rader(r, "%sr%d" % (t, p), p, avx) for p in r.sample(ps, rounds(25, len(ps)))]
        r.shuffle(cs); c.run(exe, cs, "ExecTrace", tag="l" + t)
        if THOROUGH:
            batches(c, lambda r, i: cases.execr(r, i, be="stock", n=r.choice([r.randint(1, 64), r.randint(1, 400)]), groups=2), exe, "ExecTrace", 1500, "t" + t, 400 if avx else 700)
    return c.finish()
def check_C16():
    c = Check("C16")
    batches(c, lambda r, i: cases.execr(r, i), exec_exe(), "ExecTrace", 2500, "x", 400)
    batches(c, lambda r, i: cases.execr(r, i, n=r.choice([24, 25, 30, 32, 33, 36, 49, 64, 66, 100, 121, 128])), exec_exe(), "ExecTrace", 300, "y", 600)
    return c.finish()
def hist_exe(): return vf.build("hist", ["harness/hist_main.cpp", "harness/hist_fftw.cpp", "harness/hist_mkl.cpp", "harness/hist_stock.cpp", "harness/hist_capi.cpp", "harness/capi.c"])
def histories(c, n, length, slots, cfgs, bad, simulate, vec=False):
    """histories written out by TLC: every one of a short length, or random long ones"""
    cfg = c.s.path("hist_%d.cfg" % time.time_ns())
    with open(cfg, "w") as f: f.write("SPECIFICATION GSpec\nCONSTANTS Slots = {%s}\n Cfgs = {%s}\n Ranks = {1}\n MaxTake = 0\n N = %d\n Bad = {%s}\n Vec = %s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (",".join(map(str, range(slots))), ",".join(map(str, range(cfgs))), length, ",".join('"%s"' % b for b in bad), "TRUE" if vec else "FALSE"))
    out = c.model("HistoryGen", cfg=cfg, workers=1, args=("-simulate", "num=%d" % (n // 2), "-depth", str(length + 1), "-seed", str(vf.SEED * 131 + length)) if simulate else ())
    r = [json.loads(json.loads('"' + x + '"')) for x in sorted(set(re.findall(r'<<"H", "(.*)">>', out)))]
    if not r: raise vf.CheckError("no histories: " + out[-800:])
    if simulate and len(r) > n: r = c.rng.sample(r, n)
    c.count("histories", len(r)); return r
def check_hist(pid, capi):
    c = Check(pid); exe = hist_exe(); bad = ["bad_boxes"] if not capi else ["bad_boxes", "bad_backend", "bad_alg", "defaults"]
    c.models([("History", "History.cfg", True)], parallel=1)
    hs = histories(c, 0, 3, 2, 1, bad, False, not capi); c.rng.shuffle(hs)
    cs = [cases.hist(c.rng, "e%d" % i, h, capi) for i, h in enumerate(hs[:rounds(150, 100000)])]
    c.run(exe, cs, "HistTrace", tag="e")
    if capi:
        num = vf.build("capinum", ["harness/num_main.cpp", "harness/capi_num.cpp", "harness/capi.c"])
        c.run(num, [cases.capi_num(c.rng, "n%d" % i) for i in range(rounds(700, 4000))], "NumTrace", tag="n")
        large(c, lambda r, i: cases.capi_num(r, i, big=True), num, "NumTrace", 16, "B")
    k = 0
    while True:
        hs = histories(c, rounds(1200, 6000), c.rng.choice([9, 12, 16]) if k else 12, 3, 3, bad, True, not capi)
        c.run(exe, [cases.hist(c.rng, "h%d_%d" % (k, i), h, capi) for i, h in enumerate(hs)], "HistTrace", tag="h%d" % k); k += 1
        hs = histories(c, rounds(60, 400), 40, 2, 2, bad, True, not capi)        # and some long ones
        c.run(exe, [cases.hist(c.rng, "l%d_%d" % (k, i), h, capi) for i, h in enumerate(hs)], "HistTrace", tag="l%d" % k)
        if not THOROUGH or c.elapsed() > 500 or c.viol: break
    return c.finish()
def check_C12(): return check_hist("C12", False)
def check_C14(): return check_hist("C14", True)
def trace_exe(on): return vf.build("trace", ["harness/trace.cpp"], tracing=on)
def sessions(c, n, length, who):
    cfg = c.s.path("gen_%d.cfg" % time.time_ns())
    with open(cfg, "w") as f: f.write("SPECIFICATION GSpec\nCONSTANTS N = %d\n Who = {%s}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (length, ",".join(map(str, range(who)))))
    out = c.model("TraceGen", cfg=cfg, workers=1, args=("-simulate", "num=%d" % n, "-depth", str(length + 1), "-seed", str(vf.SEED * 131 + length)))
    r = [json.loads(json.loads('"' + x + '"')) for x in sorted(set(re.findall(r'<<"H", "(.*)">>', out)))]
    # the sessions that finish are the interesting ones
    r = [h + [["final", -1, 0]] if any(o[0] == "init" and o[1] == -1 for o in h) and c.rng.random() < .6 else h for h in r]
    r = [h for h in r if any(o[0] == "final" for o in h) and any(o[0] in ("run", "end") for o in h)]
    if not r: raise vf.CheckError("no sessions: " + out[-800:])
    if len(r) > n: r = c.rng.sample(r, n)
    c.count("histories", len(r)); return r
def check_C17():
    c = Check("C17"); c.models([("TraceLog", "TraceLog.cfg", True)], parallel=1); k = 0; apart = vf.sh([trace_exe(True), "separate"]).stdout.strip() == "yes"
    while True:
        cs = []
        for nw in (1, 2, 3, 4) if apart else (1, 1): cs += [cases.trace(c.rng, "t%d_%d_%d" % (k, len(cs), i), h, nw) for i, h in enumerate(sessions(c, rounds(150, 600), c.rng.choice([10, 14, 20]), nw))]
        on = vf.run_driver(trace_exe(True), cs, c.s, "on"); off = vf.run_driver(trace_exe(False), cs, c.s, "off"); recs = {}
        for i in on:
            a = json.loads(on[i]); b = json.loads(off[i]); a["off"] = b["status"]; a["offdigest"] = b.get("digest", []); a["offevents"] = b.get("events", ""); a["offnev"] = b.get("nev", -1); recs[i] = json.dumps(a)
        bad = c.j.judge("TraceLogTrace", recs); byid = {x["id"]: x for x in cs}
        for i, (why, st) in bad.items(): c.violation("TraceLogTrace (%s, step %d)" % (why, st), byid[i], recs[i][:1500], trace_exe(True), why)
        for x in cs[:2]: c.sample(vf.line(x)[:400])
        c.count("cases", len(cs)); k += 1
        if not THOROUGH or c.elapsed() > 400 or c.viol: break
    return c.finish()
def check_C18():
    c = Check("C18"); exe = vf.build_py()
    # every combination of arguments of CallsGen.tla, a few to a session
    out = c.model("CallsGen", cfg="CallsGen.cfg", workers=1); calls = [json.loads(json.loads('"' + x + '"')) for x in sorted(set(re.findall(r'<<"H", "(.*)">>', out)))]
    if len(calls) < 500: raise vf.CheckError("no calls: " + out[-800:])
    c.count("argument_combinations", len(calls)); cs = []
    for r in (0, 1):
        mine = [x for x in calls if x["r2c"] == r]; c.rng.shuffle(mine)
        cs += [cases.python(c.rng, "a%d_%d" % (r, q), mine[q:q + 6]) for q in range(0, len(mine), 6)]
    c.run(exe, cs, "PyTrace", tag="args")
    batches(c, cases.python, exe, "PyTrace", rounds(1000, 2500), "p", 500)
    return c.finish()
def fort_sessions(c, n, length, slots, cfgs, simulate):
    cfg = c.s.path("hand_%d.cfg" % time.time_ns())
    with open(cfg, "w") as f: f.write("SPECIFICATION GSpec\nCONSTANTS Vars = {%s}\n Cfgs = {%s}\n Ranks = {1}\n MaxTake = 0\n N = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (",".join(map(str, range(slots))), ",".join(map(str, range(cfgs))), length))
    out = c.model("HandlesGen", cfg=cfg, workers=1, args=("-simulate", "num=%d" % (n // 2), "-depth", str(length + 1), "-seed", str(vf.SEED * 131 + length)) if simulate else ())
    r = [json.loads(json.loads('"' + x + '"')) for x in sorted(set(re.findall(r'<<"H", "(.*)">>', out)))]
    if not r: raise vf.CheckError("no sessions: " + out[-800:])
    if len(r) > n: r = c.rng.sample(r, n)
    c.count("sessions", len(r)); return r
def check_C19():
    c = Check("C19"); k = 0
    num = {be: vf.build_fort(be, ["harness/num_main.cpp", "harness/fort_num.cpp"]) for be in cases.BACKENDS}; ses = {be: vf.build_fort(be, ["harness/fort_ses.cpp"]) for be in cases.BACKENDS}
    c.models([("Handles", "Handles.cfg", True)], parallel=1)
    large(c, lambda r, i: cases.fort_num(r, i, True), num, "NumTrace", 16, "B")
    c.run(ses, [cases.fort_ses(c.rng, "e%d" % i, h) for i, h in enumerate(fort_sessions(c, rounds(400, 4000), 4, 2, 1, False))], "HandlesTrace", tag="e")
    while True:
        c.run(num, [cases.fort_num(c.rng, "n%d_%d" % (k, i)) for i in range(rounds(700, 2000))], "NumTrace", tag="n%d" % k)
        hs = fort_sessions(c, rounds(700, 3000), c.rng.choice([9, 12, 16]) if k else 12, 3, 2, True)
        c.run(ses, [cases.fort_ses(c.rng, "s%d_%d" % (k, i), h) for i, h in enumerate(hs)], "HandlesTrace", tag="s%d" % k); k += 1
        if not THOROUGH or c.elapsed() > 500 or c.viol: break
    return c.finish()
def valid_exe(): return vf.build("valid", ["harness/valid_main.cpp", "harness/hist_fftw.cpp", "harness/hist_mkl.cpp", "harness/hist_stock.cpp"])
def requests(c, cs, tag):
    """abrupt ends carry no request: it is put back before TLC judges"""
    recs = vf.run_driver(valid_exe(), cs, c.s, tag); out = {}
    nums = lambda t: [[int(x) for x in b.split(",")] for b in t.split(";")]
    for k in cs:
        r = json.loads(recs[k["id"]])
        if r["status"] == "skipped": c.count("skipped_after_hang"); continue
        out[k["id"]] = json.dumps({"id": k["id"], "status": r["status"], "told": r.get("told", []), "in": nums(k["in"]), "out": nums(k["out"]), "r2c": -1 if k.get("r2c") is None else k["r2c"], "sub": k.get("sub", -1)})
    bad = c.j.judge("ValidTrace", out); byid = {k["id"]: k for k in cs}
    for i, (why, st) in bad.items(): c.violation("ValidTrace (%s)" % why, byid[i], out[i][:1500], valid_exe(), why)
    for k in cs[:2]: c.sample(vf.line(k)[:300])
    c.count("requests", len(cs)); c.count("refused", sum('"invalid"' in out[i] for i in out)); c.count("aborted", sum('"abort"' in out[i] for i in out)); c.count("accepted", sum('"accepted"' in out[i] for i in out))
def check_C11():
    c = Check("C11"); exe = hist_exe()
    c.models([("Validity", "Validity_deep.cfg" if THOROUGH else "Validity.cfg", True), ("Validity", "X_validity_next.cfg", False), ("Validity", "X_validity_count.cfg", False)], parallel=3)
    k = 0
    while True:
        requests(c, [cases.valid(c.rng, "v%d_%d" % (k, i)) for i in range(rounds(2500, 10000))], "v%d" % k)
        hs = [h for h in histories(c, rounds(500, 3000), 6, 1, 1, ["bad_boxes"], True, True) if any(o[0] in ("short", "vtransform", "bad_boxes") for o in h)]
        c.run(exe, [cases.hist(c.rng, "h%d_%d" % (k, i), h, False) for i, h in enumerate(hs)], "HistTrace", tag="h%d" % k); k += 1
        if not THOROUGH or c.elapsed() > 500 or c.viol: break
    return c.finish()
