"""Runs sessions of the Python interface: every rank is a thread, its library calls run on the in-process MPI.
usage: pydrive.py DIR CASES OUT WORKERS TIMEOUT   (DIR holds libheffte.so, libheffte_real.so, heffte_config.py)"""
import io, sys, os, json, math, time, signal, threading, random
LIBDIR, CASES, OUT = sys.argv[1:4]; NW = int(sys.argv[4]); TMO = int(sys.argv[5])
KIND = dict(f4="float32", c8="complex64", f8="float64", c16="complex128", i4="int32")
def lists(s): return [[int(x) for x in b.split(",")] for b in s.split(";")] if s else []
def load():
    global np, heffte, mpi, C, L
    os.environ["VF_PROXY"] = LIBDIR + "/libheffte.so"; os.environ["VF_REAL"] = LIBDIR + "/libheffte_real.so"
    sys.dont_write_bytecode = True
    sys.path[:0] = [LIBDIR, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"), os.environ.get("VERIF_REPO", "/repo") + "/python"]
    import ctypes as C, numpy as np, heffte
    from mpi4py import MPI as mpi
    L = mpi._lib
def cells(b):
    """global cells of a box in the order of its memory"""
    lo, hi, o = b[:3], b[3:6], b[6:9]; r = []
    n = [max(0, hi[d] - lo[d] + 1) for d in range(3)]
    for z in range(n[o[2]]):
        for y in range(n[o[1]]):
            for x in range(n[o[0]]):
                p = [0, 0, 0]; p[o[0]] = lo[o[0]] + x; p[o[1]] = lo[o[1]] + y; p[o[2]] = lo[o[2]] + z; r.append(tuple(p))
    return r
class Buf:
    """an array with marked surroundings"""
    G = 96
    def __init__(self, n, kind):
        dt = np.dtype(KIND[kind]); n = max(0, n); self.raw = np.full(n * dt.itemsize + 2 * self.G, 0xA5, np.uint8); self.n = n * dt.itemsize
        self.a = self.raw[self.G:self.G + self.n].view(dt); self.a[:] = 77
    def intact(self): return bool((self.raw[:self.G] == 0xA5).all() and (self.raw[self.G + self.n:] == 0xA5).all())
def volume(b): return math.prod(max(0, b[3 + d] - b[d] + 1) for d in range(3))
def say(e):
    old = sys.stdout; sys.stdout = io.StringIO()
    try: e.print_what()
    finally: sys.stdout = old
def outcome(f):
    try: f(); return "ok"
    except heffte.heffte_input_error as e:
        try: say(e)
        except Exception as x: return "other:print_what:" + type(x).__name__
        return "refused"
    except Exception as e: return "other:" + type(e).__name__ + ":" + str(e)[:80]
def run(k):
    ins, outs = lists(k["in"]), lists(k["out"]); r2c = int(k.get("r2c", -1)); perm = [int(x) for x in k["perm"].split(",")] if "perm" in k else list(range(len(ins)))
    nw = len(perm); n = [max(b[3 + d] for b in ins) + 1 for d in range(3)]; no = [max(b[3 + d] for b in outs) + 1 for d in range(3)]
    Lc = 4
    for x in n: Lc = math.lcm(Lc, x)
    N = math.prod(n); steps = []
    for v in json.loads(k["steps"].replace("~", " ")):
        s = dict(v); s["got"] = [""] * len(ins); s["res"] = [[] for _ in ins]; s["note"] = 0; s["size"] = [[-1, -1, -1] for _ in ins]; steps.append(s)
        if s["kind"] == "call":
            selfc = all((2 * s["c"][d]) % n[d] == 0 for d in range(3)); real = s["tin" if s["bk"] == 0 else "tout"][0] == "f"
            s["real"] = int(real); s["m"] = 2 if real and s["bk"] and not selfc else 1
            if real and (not s["bk"] or selfc): s["s"] = (s["s"] % 2) * (Lc // 2)
            s["s"] %= Lc
    maxerr = [0.0]; failure = []
    def rank(w):
        L.vf_enter(w); comm = sub = None
        try:
            comm = mpi.COMM_WORLD
            if "perm" in k: sub = comm.Split(-1 if perm[w] < 0 else 0, perm[w]); comm = sub
            if comm is not None and not L.vf_dead(): member(w, comm)
            if sub is not None: sub.Free()
        except BaseException as e: failure.append("%s: %s" % (type(e).__name__, e))
        finally: L.vf_leave()
    def member(w, comm):
        me = perm[w]; ib, ob = ins[me], outs[me]; plan = None
        if comm.Get_rank() != me or comm.Get_size() != len(ins): failure.append("wrong rank")
        for s in steps:
            if L.vf_dead(): break
            if s["kind"] == "create":
                plan = None; made = []
                def mk():
                    a = heffte.box3d(ib[:3], ib[3:6], ib[6:9]) if ib[6:9] != [0, 1, 2] or s["c"] else heffte.box3d(ib[:3], ib[3:6]); b = heffte.box3d(np.array(ob[:3]), ob[3:6], tuple(ob[6:9]))
                    made.append(heffte.fft3d_r2c(s["be"], a, b, s["dir"], comm) if s["dir"] != -1 else heffte.fft3d(s["be"], a, b, comm))
                s["got"][me] = outcome(mk)
                if made: plan = made.pop(); s["size"][me] = [plan.size_inbox(), plan.size_outbox(), plan.size_workspace()]
            elif s["kind"] == "call" and plan is not None:
                src, dst = (ib, ob) if s["bk"] == 0 else (ob, ib)
                size = lambda n, more: n + more if n + more >= 0 else n + 1        # a wrong length is wrong on every rank
                bi = Buf(size(volume(src), s["din"]), s["tin"]); bo = Buf(size(volume(dst), s["dout"]), s["tout"]); nw_ = plan.size_workspace() + s["dws"]; bw = Buf(nw_, s["tws"])
                if s["dws"] < 0 and plan.size_workspace() == 0: bi = Buf(volume(src) + 1, s["tin"])
                s["size"][me] = [bi.a.size, bo.a.size, bw.a.size]
                v = complex(math.cos(2 * math.pi * s["s"] / Lc), math.sin(2 * math.pi * s["s"] / Lc)); bi.a[:] = 0; at = {tuple(s["c"]): v}
                if s["m"] == 2:
                    p = tuple((n[d] - s["c"][d]) % n[d] for d in range(3))
                    if all(p[d] < no[d] for d in range(3)): at[p] = v.conjugate()
                for i, c in enumerate(cells(src)):
                    if c in at and i < bi.a.size: z = at[c]; bi.a[i] = z if s["tin"][0] == "c" else round(z.real) if s["tin"] == "i4" else z.real
                before = bi.a.copy(); f = getattr(plan, ("forward" if s["bk"] == 0 else "backward") + ("_buffered" if s["buf"] else ""))
                args = [bi.a, bo.a] + ([bw.a] if s["buf"] else []) + ([s["sc"]] if s["sc"] or s["c"][0] % 2 else [])
                if L.vf_dead(): break
                s["got"][me] = outcome(lambda: f(*args))
                if not (bi.intact() and bo.intact() and bw.intact()): s["note"] = 1
                if not (before == bi.a).all(): s["note"] = 2
                if s["got"][me] == "refused" and not (bo.a == 77).all(): s["note"] = 3
                if s["got"][me] == "ok": s["res"][me] = decode(bo.a, s)
            elif s["kind"] == "split":
                def sp():
                    w3 = heffte.box3d([s["low"][d] for d in range(3)], [s["low"][d] + s["c"][d] - 1 for d in range(3)], s["ord"])
                    g = heffte.proc_setup(w3, s["np"]) if not s["grid"] else np.array(s["grid"]); s["grid"] = [int(x) for x in g]
                    s["res"] = [[int(x) for x in list(b.low) + list(b.high) + list(b.order)] for b in heffte.split_world(w3, g)]
                if me == 0: s["got"] = [outcome(sp)]
    def decode(a, s):
        tol = (float(k.get("tolf", 100)) * 1e-6) if s["tout"] in ("f4", "c8") else float(k.get("told", 100)) * 1e-13
        amp = [1.0, 1.0 / N, 1.0 / math.sqrt(N)]; r = []
        if s["tout"][0] == "f":
            for x in a.tolist(): w = x / amp[s["sc"]] / s["m"] * 1e6; r.append(round(w) if abs(w) < 1e9 else 2000000000)
            return r
        for z in a.tolist():
            z = complex(z); v = -1
            for t in ((s["sc"] + j) % 3 for j in range(3)):
                w = z / amp[t]
                if not 0.5 < abs(w) < 1.5: continue
                p = round(math.atan2(w.imag, w.real) * Lc / (2 * math.pi)) % Lc; e = abs(w - complex(math.cos(2 * math.pi * p / Lc), math.sin(2 * math.pi * p / Lc)))
                if e < tol: v = 100000 * t + p; maxerr[0] = max(maxerr[0], e); break
            r.append(v)
        return r
    L.vf_prepare(nw); th = [threading.Thread(target=rank, args=(w,), daemon=True) for w in range(nw)]
    for t in th: t.start()
    pol = (C.c_long * 5)(*[int(k.get(x, d)) for x, d in (("sseed", 1), ("smode", 2), ("deliver", 2), ("sched", 1), ("waitany", 2))]); what = C.create_string_buffer(400)
    L.vf_run(pol, what, 400)
    for t in th: t.join()
    st, why = what.value.decode(errors="replace").split("|", 1)
    if failure: st = "exception"; why = failure[0]
    cos = [round(1e6 * math.cos(2 * math.pi * p / Lc)) for p in range(Lc // 2 + 1)]
    return dict(id=k["id"], status=st, what=why, n=n, L=Lc, r2c=r2c, **{"in": ins}, out=outs, sub=-1, cos=cos, tolf=int(k.get("tolf", 100)) + 2, told=2, steps=steps, maxerr="%.3e" % maxerr[0])
def child(cases, idx, out, cur):
    load(); os.dup2(os.open(out + ".err", os.O_WRONLY | os.O_CREAT | os.O_APPEND), 2)
    with open(out, "a") as f:
        for i in idx: open(cur, "w").write(str(i)); signal.alarm(TMO); f.write(json.dumps(run(cases[i]), separators=(",", ":")) + "\n"); f.flush()
    os._exit(0)
def worker(cases, w):
    out = "%s.%d" % (OUT, w); cur = out + ".cur"; todo = list(range(w, len(cases), NW)); open(out, "w").close(); hangs = 0
    while todo:
        if os.path.exists(cur): os.remove(cur)
        p = os.fork()
        if p == 0:
            try: child(cases, todo, out, cur)
            except BaseException as e: os.write(2, repr(e).encode()); os._exit(7)
        st = os.waitpid(p, 0)[1]
        if st == 0: break
        i = int(open(cur).read()) if os.path.exists(cur) else todo[0]
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0; why = {signal.SIGALRM: "hang", signal.SIGABRT: "abort", signal.SIGSEGV: "segv", signal.SIGBUS: "segv", signal.SIGFPE: "fpe"}.get(sig, "exit%d" % (st >> 8 if not sig else -sig))
        with open(out, "a") as f: f.write(json.dumps(dict(id=cases[i]["id"], status=why), separators=(",", ":")) + "\n")
        todo = [j for j in todo if j > i]; hangs += sig == signal.SIGALRM
        if hangs == 2:
            with open(out, "a") as f:
                for j in todo: f.write(json.dumps(dict(id=cases[j]["id"], status="skipped"), separators=(",", ":")) + "\n")
            break
    if os.path.exists(cur): os.remove(cur)
    os._exit(0)
if __name__ == "__main__":
    cs = [dict(t.split("=", 1) for t in l.split()) for l in open(CASES) if l.strip()]; pids = []
    for w in range(NW):
        p = os.fork()
        if p == 0: worker(cs, w)
        pids.append(p)
    for p in pids: os.waitpid(p, 0)
