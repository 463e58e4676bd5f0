"""Case builders shared by the checks (one dictionary per run of a driver)."""
import json, gen, vf
BACKENDS = ["fftw", "mkl", "stock"]
def grid_case(a, b, rng, perm=False):
    k = dict(**gen.policy(rng)); k["in"] = vf.boxes(a); k["out"] = vf.boxes(b)
    if perm: k["perm"] = gen.perm(rng, len(a))
    return k
def label(rng, i, r2c="any", sub=.2, batches=(1, 1, 1, 2, 3), maxn=8, maxvol=96, empties=.08, rin=.2, **force):
    d = rng.choice([-1, -1, 0, 1, 2]) if r2c == "any" else r2c
    w, d, a, b = gen.geometry(rng, maxvol=maxvol, maxn=maxn, r2c=d, empties=empties)
    k = dict(id=i, tag=rng.choice([1, 3]), r2c=d if d >= 0 else None, batch=rng.choice(batches), exws=rng.randrange(2), inplace=rng.choice([0, 0, 1]), ownws=rng.randrange(2), one=rng.randrange(2), float=rng.randrange(2), ll=rng.randrange(2))
    if d < 0 and rng.random() < rin: k["rin"] = 1
    if rng.random() < .3: k["pad"] = rng.randint(1, 9)
    if rng.random() < .25: k["seq"] = rng.choice(["f", "b", "fbfb", "ffbb", "bf"])
    k.update(gen.options(rng, len(a), subs=sub)); k.update(grid_case(a, b, rng, perm=rng.random() < .15)); k.update(force)
    return k
def num(rng, i, r2c="any", dirs=(0, 1), be=None, scales=(0, 1, 2), maxdim=40, maxvol=160, maxn=8, lin=.33, geo=None, fl=None, groups=2, batches=(1, 1, 1, 2, 3), sub=.2, rin=.2, **force):
    d = rng.choice([-1, -1, 0, 1, 2]) if r2c == "any" else (rng.choice(r2c) if isinstance(r2c, (list, tuple)) else r2c)
    w, d, a, b = geo or gen.geometry(rng, r2c=d, maxdim=maxdim, maxvol=maxvol, maxn=maxn)
    k = dict(id=i, be=be or rng.choice(BACKENDS), r2c=d if d >= 0 else None, batch=rng.choice(batches), inplace=rng.choice([0, 0, 1]), ownws=rng.randrange(2), one=rng.randrange(2), float=rng.randrange(2) if fl is None else fl, ll=rng.randrange(2), lin=rng.randint(1, 99) if rng.random() < lin else 0, off=rng.choice([0, 0, 0, 1]))
    if d < 0 and rng.random() < rin: k["rin"] = 1
    if max(w) > 20: k["tolf"] = k["told"] = 100 + 4 * max(w)     # the twiddle factors of a line are formed by recurrences: n eps
    runs = []
    for bk in dirs:
        for g in range(groups):
            sc = rng.choice(scales)
            for q in range(k["batch"]):
                ww = gen.half(w, d) if bk else w
                runs.append([bk, sc] + [rng.randrange(x) for x in ww] + [rng.randrange(1000)])
    k["runs"] = vf.boxes(runs); k.update(gen.options(rng, len(a), subs=sub)); k.update(grid_case(a, b, rng, perm=rng.random() < .15)); k["ctor"] = ctor(rng, k, w); k.update(force)
    return k
def ctor(rng, k, w):
    """which constructor asks for the plan (harness/ctors.h); some of them take fewer options"""
    if w[2] == 1 and rng.random() < .5: return 7
    if rng.random() < .5: return 0
    return rng.choice([1, 6, 7] if "sub" in k else [1, 2, 3, 4, 5, 6, 7])
def long_lines(rng, r2c=-1):
    """worlds with one long direction: other radices, and sizes for which the engines use aligned code"""
    while True:
        n = rng.choice([30, 42, 50, 54, 64, 45, 49, 47, 61, 72, 81, 97, 101, 121, 125, 128, 100, 128, 210]); w = [1, 1, 1]; d = rng.randrange(3); w[d] = n
        for x in range(3):
            if x != d: w[x] = rng.choice([1, 2, 3, 3, 5])
        if w[0] * w[1] * w[2] > 700: continue
        nn = rng.choice([1, 2, 3, 4, 5]); r = r2c if r2c < 0 else rng.randrange(3)
        wo = gen.half(w, r)
        if not (gen.fits(w, nn) and gen.fits(wo, nn)): continue
        a = gen.partition(rng, w, nn); b = gen.partition(rng, wo, nn)
        if a and b: return w, r, gen.with_orders(rng, a), gen.with_orders(rng, b)
def wide_world(rng):
    """extents beyond the blocks in which the packers transpose (16 to 64 elements)"""
    k = rng.random()
    if k < .5: w = [rng.randint(1, 3), rng.randint(1, 4), rng.choice([15, 16, 17, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 66, 96, 97, 129])]
    elif k < .9: w = [rng.randint(1, 2), rng.choice([16, 17, 20, 32, 33, 35]), rng.choice([16, 17, 18, 33, 34, 49])]
    else: w = [1, rng.choice([64, 65, 70]), rng.choice([33, 65, 66])]
    rng.shuffle(w); return w
def reshape(rng, i, maxn=9, maxvol=120, empties=.25, wide=False, **force):
    while True:
        w = wide_world(rng) if wide else gen.world(rng, maxvol); n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9]); 
        if n > maxn: continue
        ea, eb = rng.random() < empties, rng.random() < empties
        a = gen.partition(rng, w, n, empties=ea); b = gen.partition(rng, w, n, empties=eb) if a else None
        if rng.random() < .1 and a: b = [list(x) for x in a]; rng.shuffle(b)
        if a and b: break
    a = gen.with_orders(rng, a); b = gen.with_orders(rng, b)
    if rng.random() < .35: o = a[0][6:]; b = [x[:6] + o for x in b]
    k = dict(id=i, alg=rng.randrange(4), type=rng.choice("fdcz"), ll=rng.randrange(2), inplace=rng.choice([0, 0, 1]), gpu=rng.randrange(2), apps=",".join(str(rng.choice([1, 1, 2, 3])) for _ in range(rng.choice([1, 1, 2, 3]))), sync=rng.choice([0, 0, 1]))
    k.update(grid_case(a, b, rng, perm=rng.random() < .15)); k.update(force)
    return k

# ---- large: many ranks, tens of thousands of cells (records are packed, see Packed.tla)
def cells(w): return w[0] * w[1] * w[2]
def big_label(rng, i, r2c="any", batches=(1, 1, 2, 3), maxvol=30000, empties=.05, **force):
    d = rng.choice([-1, -1, 0, 1, 2]) if r2c == "any" else r2c
    w, d, a, b = gen.big_geometry(rng, d, maxvol, empties=empties); bt = rng.choice([x for x in batches if x * cells(w) <= 2 * maxvol] or [1])
    k = dict(id=i, pk=1, tag=rng.choice([1, 3]), r2c=d if d >= 0 else None, batch=bt, exws=rng.randrange(2), inplace=rng.choice([0, 0, 1]), ownws=rng.randrange(2), one=rng.randrange(2), float=rng.randrange(2), ll=rng.randrange(2))
    if d < 0 and rng.random() < .2: k["rin"] = 1
    k["seq"] = rng.choice(["f", "b"])
    k.update(gen.options(rng, len(a), subs=.2)); k.update(grid_case(a, b, rng, perm=rng.random() < .15)); k.update(force)
    return k
def big_num(rng, i, r2c="any", dirs=(0, 1), be=None, batches=(1, 1, 2, 3), maxvol=30000, **force):
    d = rng.choice([-1, -1, 0, 1, 2]) if r2c == "any" else (rng.choice(r2c) if isinstance(r2c, (list, tuple)) else r2c)
    w, d, a, b = gen.big_geometry(rng, d, maxvol); bt = rng.choice([x for x in batches if x * cells(w) <= 2 * maxvol] or [1]); m = max(w)
    k = dict(id=i, pk=1, be=be or rng.choice(BACKENDS), r2c=d if d >= 0 else None, batch=bt, inplace=rng.choice([0, 0, 1]), ownws=rng.randrange(2), one=rng.randrange(2), float=rng.randrange(2) if gen.lcm4(w) * m <= 2000000 else 0, ll=rng.randrange(2), lin=0, off=rng.choice([0, 0, 0, 1]), tolf=100 + 4 * m, told=100 + 4 * m)
    if d < 0 and rng.random() < .2: k["rin"] = 1
    runs = []
    for bk in dirs:
        sc = rng.randrange(3); wo = gen.half(w, d)
        for q in range(bt):
            wave = rng.random() < .5
            runs.append([bk, sc] + [rng.randrange(x) for x in (wo if bk and not wave else w)] + [rng.randrange(100000), int(wave)])
    k["runs"] = vf.boxes(runs); k.update(gen.options(rng, len(a), subs=.2)); k.update(grid_case(a, b, rng, perm=rng.random() < .1)); k["ctor"] = ctor(rng, k, w); k.update(force)
    return k
def big_reshape(rng, i, maxvol=40000, **force):
    w, d, a, b = gen.big_geometry(rng, -1, maxvol); o = a[0][6:]
    if rng.random() < .35: b = [x[:6] + o for x in b]
    k = dict(id=i, pk=1, alg=rng.randrange(4), type=rng.choice("fdcz"), ll=rng.randrange(2), inplace=rng.choice([0, 0, 1]), gpu=rng.randrange(2), apps=",".join(str(rng.choice([1, 1, 2, 3])) for _ in range(rng.choice([1, 1, 2]))), sync=rng.choice([0, 0, 1]))
    k.update(grid_case(a, b, rng, perm=rng.random() < .15)); k.update(force)
    return k
# ---- plans and geometry (no data involved)
def big_world(rng):
    k = rng.random()
    if k < .4: return [rng.randint(1, 9) for _ in range(3)]
    if k < .7: return [rng.choice([1, 2, 3, 5, 7, 16, 31, 64, 100, 129]) for _ in range(3)]
    w = [rng.choice([1, 2, 3, 17, 512, 4096, 20000, 65537]), rng.choice([1, 5, 511, 1000, 30000]), rng.choice([1, 2, 64, 4097, 100000])]; rng.shuffle(w); return w
def plan(rng, i, geo=None, **force):
    while True:
        w, d, a, b = geo or (None, rng.choice([-1, -1, 0, 1, 2]), None, None)
        if not geo:
            many = rng.random(); w = big_world(rng); wo = gen.half(w, d); n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24] if many < .97 else [30, 36, 48, 60, 64, 72]); e = rng.random() < .08
            if not (gen.fits(w, n) and gen.fits(wo, n)) and rng.random() < .9: continue
            a = gen.partition(rng, w, n, empties=e); b = gen.partition(rng, wo, n, empties=e) if a else None
            if a and d < 0 and rng.random() < .15: b = [list(x) for x in a]
            if a and b and rng.random() < .05: rng.shuffle(b)
        if a and b: break
    a = gen.with_orders(rng, a); b = gen.with_orders(rng, b)
    k = {"id": i, "op": "plan", "in": vf.boxes(a), "out": vf.boxes(b), "r2c": d if d >= 0 else None, "reorder": rng.randrange(2), "pencils": rng.randrange(2), "ll": rng.randrange(2)}
    if rng.random() < .3: k["sub"] = rng.randint(1, len(a) + 1)
    k.update(force); return k
def some_boxes(rng, w, n):
    """boxes that are mostly, but not always, a partition"""
    a = gen.partition(rng, w, n, empties=rng.random() < .2)
    if a is None: return None
    if rng.random() < .5:
        for _ in range(rng.choice([1, 1, 2])):
            b = rng.choice(a); d = rng.randrange(3); m = rng.randrange(4)
            if m == 0: b[d] += rng.choice([-1, 1])
            elif m == 1: b[d + 3] += rng.choice([-1, 1])
            elif m == 2: b[:] = list(rng.choice(a))
            else: s = rng.choice([-1, 1]); b[d] += s; b[d + 3] += s
    return a
def huge(rng):
    """worlds of more indexes than an int can count (fewer than a long long can)"""
    while True:
        w = [rng.choice([1, 2, 3, 7, 100, 4097, 30000, 46341, 60000, 65537, 100000, 131072, 1000003, 2 ** 24, 10 ** 9]) for _ in range(3)]
        if w[0] * w[1] * w[2] < 4 * 10 ** 18: return w
def huge_num(rng, i, **force):
    """plans for worlds of more cells than an int (and than a float) can count; nothing is transformed"""
    while True:
        w = [rng.choice([1, 2, 3, 5, 37, 100, 512, 999, 1024, 1290, 1291, 1625, 2048, 2049, 4096, 10000, 30000, 46341, 65536, 65537, 100003]) for _ in range(3)]
        if not 2 ** 24 < w[0] * w[1] * w[2] < 2 ** 49: continue
        d = rng.choice([-1, -1, 0, 1, 2]); wo = gen.half(w, d); n = rng.choice([1, 2, 3, 4, 6, 8, 9, 12, 16]); ll = w[0] * w[1] * w[2] > 2 ** 29 * n or rng.random() < .4
        if not (gen.fits(w, n) and gen.fits(wo, n)): continue
        a = gen.partition(rng, w, n, empties=rng.random() < .1); b = gen.partition(rng, wo, n) if a else None
        if not a or not b: continue
        if not ll and max((x[3] - x[0] + 1) * (x[4] - x[1] + 1) * (x[5] - x[2] + 1) for x in a + b) > 2 ** 30: continue
        break
    k = dict(id=i, be=rng.choice(BACKENDS), ll=int(ll), float=rng.randrange(2), L=4, runs="", r2c=d if d >= 0 else None)
    if d < 0 and rng.random() < .3: k["rin"] = 1
    k.update(gen.options(rng, n, subs=0)); a, b = gen.with_orders(rng, a), gen.with_orders(rng, b); k.update(grid_case(a, b, rng, perm=rng.random() < .1)); k["ctor"] = ctor(rng, k, w); k.update(force); return k
def geom(rng, i, op=None):
    op = op or rng.choice(["split", "split", "surf", "surf", "grid2", "grid3", "pencils", "pencils", "slabs", "overlap", "rel", "rel"]); k = dict(id=i, op=op, ll=rng.randrange(2))
    o = lambda: list(rng.choice(gen.ORDERS)); small = [rng.randint(1, 9) for _ in range(3)]
    world = lambda w, lo=(0, 0, 0): vf.boxes([list(lo) + [lo[d] + w[d] - 1 for d in range(3)] + o()])
    if op == "split":
        big = rng.random() < .3; w = [rng.randint(1, 400) for _ in range(3)] if big else huge(rng) if rng.random() < .2 else small; lo = [rng.choice([0, 0, rng.randint(-9, 40)]) for _ in range(3)]
        g = [rng.randint(1, 4) for _ in range(3)]
        if rng.random() < .7: g = [min(g[d], w[d]) for d in range(3)]
        if rng.random() < .2: g = [1, 1, 1]; g[rng.randrange(3)] = rng.randint(1, 30)
        k.update(world=world(w, lo), grid=",".join(map(str, g)))
        if rng.random() < .3: k["ranks"] = g[0] * g[1] * g[2] + rng.randint(1, 4)
    elif op == "surf":
        w = rng.choice([small, [rng.randint(1, 64) for _ in range(3)], [rng.choice([1, 2, 3, 100, 999, 4096, 20000]) for _ in range(3)], huge(rng)])
        while True:
            np = rng.choice([rng.randint(1, 40), rng.choice([64, 96, 128, 120, 210, 343, 512, 1000, 1024, 97])])
            g = [(a, b, np // a // b) for a in range(1, np + 1) if np % a == 0 for b in range(1, np // a + 1) if (np // a) % b == 0]
            if any(all(x[d] <= w[d] for d in range(3)) for x in g): break      # the function asserts that such a grid exists
        k.update(world=world(w, [rng.choice([0, 0, 5]) for _ in range(3)]), np=np)
    elif op == "grid2": k.update(np=rng.choice([rng.randint(1, 400), rng.randint(1, 20000)]))
    elif op == "grid3": k.update(world=world(rng.choice([small, [rng.choice([1, 2, 3, 4, 6, 8, 100]) for _ in range(3)]])), dim=rng.randrange(3), grid="%d,%d" % (rng.randint(1, 8), rng.randint(1, 8)))
    else:
        while True:
            v = rng.random(); w = [rng.randint(1, 9) for _ in range(3)] if v < .65 else [rng.choice([1, 2, 40, 90, 100]) for _ in range(3)] if v < .9 else huge(rng)
            if w[0] * w[1] * w[2] > 10 ** 17: continue
            n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12] if rng.random() < .94 else [15, 16, 17, 20, 24, 32])
            a = some_boxes(rng, w, n) if op == "rel" else gen.partition(rng, w, n, empties=rng.random() < .2)
            b = (gen.partition(rng, w, n) if op != "rel" or rng.random() < .8 else gen.partition(rng, w, rng.randint(1, 6))) if a else None
            if op == "rel" and a and rng.random() < .15: b = [list(x) for x in a]
            if a and b: break
        od = o(); k.update(world=world(w), order=",".join(map(str, od)), dim=rng.randrange(3)); k["in"] = vf.boxes([x + o() for x in a]); k["out"] = vf.boxes([x + o() for x in b])
        if op in ("pencils", "slabs", "overlap") and rng.random() < .4: k["sub"] = rng.randint(1, n)
        k["dim2"] = rng.choice([d for d in range(3) if d != k["dim"]])
        if op == "overlap": k.pop("sub", None) if any(-1 in x[3:6] for x in a) else None
    return k
# ---- sine and cosine transforms
R2R = [("fftw", "cos"), ("fftw", "sin"), ("fftw", "cos1"), ("fftw", "sin1"), ("mkl", "cos"), ("mkl", "sin"), ("stock", "cos"), ("stock", "sin"), ("stock", "cos1")]
def r2r(rng, i, maxdim=12, maxvol=100, groups=1, batches=(1, 1, 2, 3), lin=.3, long=.1, pick=None, big=False, **force):
    be, kind = pick or rng.choice(R2R)
    while True:
        w, d, a, b = gen.big_geometry(rng, -1, 4500) if big else long_lines(rng) if rng.random() < long else gen.geometry(rng, r2c=-1, maxdim=maxdim, maxvol=maxvol)
        if big and (gen.lcm4([4 * (x - (kind == "cos1") + (kind == "sin1")) for x in w]) > 30000 or max(w) > 300): continue
        if kind == "cos1" and min(w) < 2: continue
        break
    k = dict(id=i, be=be, kind=kind, batch=rng.choice(batches), inplace=rng.choice([0, 0, 1]), ownws=rng.randrange(2), one=rng.randrange(2), float=rng.randrange(2), ll=rng.randrange(2), lin=rng.randint(1, 99) if rng.random() < lin else 0, off=rng.choice([0, 0, 1]))
    if max(w) > 8: k["tolf"] = k["told"] = 100 + 16 * max(w)
    runs = []
    for bk in (0, 1):
        for g in range(groups):
            sc = rng.randrange(3)
            for q in range(k["batch"]): runs.append([bk, sc] + [rng.choice([0, x - 1, rng.randrange(x)]) for x in w])
    k["runs"] = vf.boxes(runs); k.update(gen.options(rng, len(a), subs=.15)); k.update(grid_case(a, b, rng, perm=rng.random() < .1)); k["ctor"] = ctor(rng, k, w); k.update(force)
    return k
# ---- node-local engines
def execr(rng, i, be=None, n=None, nd=None, d=None, maxvol=400, tol=None, lin=.4, groups=2, **force):
    be = be or rng.choice(BACKENDS); nd = nd or (rng.choice([1, 1, "r", "r"]) if be == "stock" else rng.choice([1, 1, 2, 2, 3, "r", "r"]))
    while True:
        w = [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16]) for _ in range(3)]
        dd = rng.randrange(3) if d is None else d
        if n is not None:
            w = [rng.choice([1, 1, 2, 3, 4, 5, 7]) for _ in range(3)]; w[dd] = n
            if w[0] * w[1] * w[2] > max(maxvol, 2 * n): continue
        elif w[0] * w[1] * w[2] > maxvol: continue
        break
    lo = [rng.choice([0, 0, 0, rng.randint(1, 20)]) for _ in range(3)]; o = list(rng.choice(gen.ORDERS))
    dirs = [dd] if nd in (1, "r") else (rng.sample(range(3), 2) if nd == 2 else [0, 1, 2])
    k = dict(id=i, be=be, box=",".join(map(str, lo + [lo[j] + w[j] - 1 for j in range(3)] + o)), dirs=",".join(map(str, dirs)), float=rng.randrange(2), ll=rng.randrange(2), off=rng.choice([0, 0, 1, 2, 3]), r2c=dd if nd == "r" else None)
    m = max(w[j] for j in dirs)
    k["tolf"] = k["told"] = tol or (100 if m <= 20 else 100 + 4 * m)
    if w[0] * w[1] * w[2] * m < 200000 and rng.random() < lin: k["lin"] = rng.randint(1, 99)
    runs = []
    for g in range(groups):
        for bk in rng.sample([0, 1], 2): runs.append([bk, 1 if nd == "r" else rng.choice([0, 0, 1])] + [rng.randrange(x // 2 + 1 if nd == "r" and bk and j == dd else x) for j, x in enumerate(w)] + [rng.randrange(1000), rng.randint(0, 5), rng.randint(0, 7)])
    k["runs"] = vf.boxes(runs); k.update(force); return k
def rader(rng, i, p, avx=True):
    fl = rng.randrange(2); pack = 1 if not avx else (16 if fl else 8) if avx == 512 else rng.choice([1, 4, 8] if fl else [1, 2, 4]); lanes = max(1, pack // 2)
    k = dict(id=i, be="rader", box="0,0,0,%d,%d,0,0,1,2" % (p - 1, lanes - 1), dirs="0", float=fl, pack=pack, tolf=300 + p * 3, told=300 + p * 3)
    k["runs"] = vf.boxes([[bk, 0, rng.randrange(p), 0, 0, rng.randrange(1000), rng.randint(0, 5), rng.randint(0, 7)] for bk in (0, 1)]); return k
# ---- histories of plans
def hist_cfg(rng, capi, nw, kinds=True):
    """one configuration: geometry, back end, kind, options, and the ranks it lives on"""
    while True:
        n = rng.choice([nw, nw, rng.randint(1, nw)]); r2r = not capi and kinds and rng.random() < .25
        d = -1 if r2r else rng.choice([-1, -1, 0, 1, 2])
        wide = rng.random() < .12; w, d, a, b = gen.geometry(rng, maxvol=160 if wide else 40, maxn=8, r2c=d, maxdim=20 if wide else 9, n=n, small=1.0)
        be, kind = rng.choice(R2R) if r2r else (rng.choice(BACKENDS), "fft")
        if kind == "cos1" and min(w) < 2: continue
        break
    c = {"in": vf.boxes(a), "out": vf.boxes(b), "be": be}
    if kind != "fft": c["kind"] = kind
    if d >= 0: c["r2c"] = d
    elif kind == "fft" and rng.random() < .25: c["rin"] = 1
    if not capi or rng.random() < .7:
        o = gen.options(rng, n, subs=0 if capi else .2)
        if capi: o["alg"] %= 3
        c.update(o)
        if not (gen.fits(w, min(n, c.get("sub", n))) and gen.fits(gen.half(w, d), min(n, c.get("sub", n)))): c.pop("sub")
    if n < nw or rng.random() < .2: c["ranks"] = ",".join(map(str, rng.sample(range(nw), n)))
    elif rng.random() < .3: c["split"] = 1
    c["_n"] = n; return c
def ext(bs): return [min(b[d] for b in bs) for d in range(3)] + [max(b[d + 3] for b in bs) for d in range(3)]
def bad_cfg(rng, capi, nw):
    """boxes that overlap or leave a gap, on all ranks; or too few indexes for that many ranks"""
    while True:
        c = hist_cfg(rng, capi, nw, False)
        if c.get("rin"): c.pop("rin")
        bs = [list(map(int, x.split(","))) for x in c["in"].split(";")]
        w0 = ext(bs); live = [i for i, b in enumerate(bs) if b[3] >= b[0]]; i = rng.choice(live); d = rng.randrange(3)
        if len(bs) == 1: continue
        j = rng.choice([x for x in live if x != i] or [i])
        if i == j: continue
        how = rng.randrange(2)
        if how == 0: bs[i][:6] = bs[j][:6]                        # two ranks claim the same cells
        elif bs[i][d + 3] > bs[i][d]: bs[i][d + 3] -= 1           # a gap
        else: continue
        # stay within the branches that report by an exception: the extents must still agree with the output
        if ext(bs) != w0: continue
        c["in"] = vf.boxes(bs); return c
OPC = dict(create=0, transform=1, move=2, destroy=3, query=4, bad_boxes=5, bad_backend=6, bad_alg=7, defaults=8, swap=9, vtransform=10, short=11)
def hist(rng, i, h, capi=False, slots=3):
    """h: abstract history [[op, a, b]...] of HistoryGen.tla"""
    nw = rng.choice([1, 2, 2, 3, 3, 4, 4, 6]); ncfg = 1 + max([x[2] for x in h if x[0] == "create"] or [0]); cf = [hist_cfg(rng, capi, nw) for _ in range(ncfg)]
    if rng.random() < .3 and ncfg > 1:      # plans of one type and geometry that differ in options only
        for c in cf[1:]:
            if rng.random() < .6: keep = {x: c[x] for x in ("alg", "reorder", "pencils") if x in c}; c.clear(); c.update(cf[0]); c.update(keep)
    # a failing creation needs boxes that are wrong whatever the build
    bad = None
    if any(x[0] == "bad_boxes" for x in h):
        if nw > 1: bad = bad_cfg(rng, capi, nw)
        else: h = [x for x in h if x[0] != "bad_boxes"]
    k = dict(id=i, slots=slots, capi=int(capi), **gen.policy(rng)); allc = cf + ([bad] if bad else [])
    for q, c in enumerate(allc):
        for x, v in c.items():
            if x[0] != "_": k["c%d.%s" % (q, x)] = v
    ops = []
    for op, a, b in h:
        if op in ("vtransform", "short"):
            ops.append([OPC[op], a, b, rng.randrange(3)] + [rng.randrange(100) if op == "vtransform" or rng.random() < .4 else 0 for _ in range(3)] + [rng.randrange(2), 1, 0, 0, 0, 0, rng.randrange(1000), rng.choice([0, 0, 1, 5])])
        elif op == "transform":
            bt = 1 if capi else rng.choice([1, 1, 2, 3])
            ops.append([1, a, b, rng.randrange(3)] + [rng.randrange(100) for _ in range(3)] + [rng.randrange(2), bt, rng.randrange(2), rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), 1 if capi else rng.randrange(2), rng.randrange(1000)])
        elif op == "create": ops.append([0, a, b])
        elif op == "move": ops.append([2, a, b, rng.randrange(2)])
        elif op == "swap": ops.append([9, a, b])
        elif op == "defaults": ops.append([8, rng.choice([0, 1, 2, 2, 5, 77])])
        elif op == "bad_boxes": ops.append([5, 0, len(allc) - 1])
        elif op == "bad_alg": ops.append([7, 0, rng.randrange(ncfg), rng.choice([3, 4, 99, -5])])
        elif op == "bad_backend": ops.append([6, 0, rng.randrange(ncfg)])
        else: ops.append([OPC[op], a])
    k["ops"] = vf.boxes(ops); return k
# ---- tracing
def trace(rng, i, h, nw):
    while True:
        n = rng.choice([nw, nw, max(1, nw - 1)]); d = rng.choice([-1, -1, 0, 1, 2])
        w, d, a, b = gen.geometry(rng, maxvol=40, maxn=8, r2c=d, maxdim=9, n=n, small=1.0, empties=.05)
        break
    k = dict(id=i, be=rng.choice(BACKENDS), r2c=d if d >= 0 else None, clock=rng.randrange(3), **gen.policy(rng)); k.update(gen.options(rng, n, subs=0)); k["in"] = vf.boxes(a); k["out"] = vf.boxes(b)
    if n < nw or rng.random() < .2: p = list(range(n)) + [-1] * (nw - n); rng.shuffle(p); k["perm"] = ",".join(map(str, p))
    code = dict(init=0, begin=1, end=2, run=3, final=4, flood=5); ops = []
    for op, who, x in h:
        if op == "run": ops.append([3, rng.randrange(2), rng.randrange(3), rng.randrange(2)])
        else: ops.append([code[op], who, rng.choice([0, 0, 1, 2]) if op == "begin" else rng.choice([0, 1, 3, 40, 300, 300, 2500, 2500, 9000, 18000]) if op == "flood" else x])
    k["ops"] = vf.boxes(ops); return k
# ---- sessions of the Python interface
SPECTRUM = dict(f4="c8", c8="c8", f8="c16", c16="c16", i4="c16")
def pycall(rng, w, d, wrong):
    wo = gen.half(w, d); bk = rng.randrange(2); side = rng.choice(["f4", "f8"] if d >= 0 or rng.random() < .3 else ["c8", "c16"]); other = SPECTRUM[side]
    s = dict(kind="call", bk=bk, buf=rng.randrange(2), sc=rng.choice([0, 0, 1, 2]), tin=side if not bk else other, tout=other if not bk else side, tws=other, din=0, dout=0, dws=rng.choice([0, 0, 0, 5]), c=[rng.randrange(x) for x in (wo if bk else w)], s=rng.randrange(1000))
    if wrong:
        m = rng.choice(["sc", "din", "dout", "dws", "tin", "tout", "tws", "cross", "real"])
        if m == "sc": s["sc"] = rng.choice([-1, 3, 7])
        elif m in ("din", "dout"): s[m] = rng.choice([-1, 1, 1, 7])
        elif m == "dws": s["dws"] = -rng.choice([1, 1, 2, 50]); s["buf"] = 1
        elif m == "cross": s["din"], s["dout"] = 1, -1
        elif m == "real":
            x = rng.choice(["c8", "c16"]); s["tin"] = s["tout"] = s["tws"] = x
        else: s[m] = rng.choice(["f4", "c8", "f8", "c16", "i4"]); s["buf"] |= m == "tws"
    return s
def python(rng, i, calls=None):
    r = (rng.randrange(3) if calls[0]["r2c"] else -1) if calls else rng.choice([-1, -1, 0, 1, 2]); w, d, a, b = gen.geometry(rng, r2c=r, maxdim=10, maxvol=60, maxn=6)
    def make(wrong):
        s = dict(kind="create", be=rng.choice([0, 1, 2]), dir=d, c=rng.randrange(2))
        if wrong: s.update(rng.choice([dict(be=rng.choice([3, 10, 11, -1, 12])), dict(dir=rng.choice([3, -2, 7]))]))
        return s
    st = [] if rng.random() < .8 else [make(True)]; st.append(make(False))
    for q in range(rng.randint(2, 7)): st.append(pycall(rng, w, d, rng.random() < .4) if rng.random() < .9 else make(rng.random() < .3))
    if calls:
        st = [make(False)]
        for x in calls: wx = gen.half(w, d) if x["bk"] else w; st.append(dict(x, kind="call", c=[rng.randrange(y) for y in wx], s=rng.randrange(1000)))
    if st[-1]["kind"] == "create": st.append(pycall(rng, w, d, False))
    if rng.random() < .3:
        n = [rng.randint(1, 7) for _ in range(3)]; o = [0, 1, 2]; rng.shuffle(o); np = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12]); g = []
        if rng.random() < .3: x = rng.choice([y for y in range(1, np + 1) if np % y == 0]); y = rng.choice([y for y in range(1, np // x + 1) if np // x % y == 0]); g = [x, y, np // x // y]
        st.insert(rng.randrange(len(st) + 1), dict(kind="split", c=n, np=np, ord=o, grid=g, free=int(not g), low=[rng.choice([0, 0, 2, -3]) for _ in range(3)]))
    for s in st: s.setdefault("c", [0, 0, 0])
    k = dict(id=i, r2c=d if d >= 0 else None, steps=json.dumps(st, separators=(",", ":")).replace(" ", "~"), **gen.policy(rng)); k.update(grid_case(a, b, rng, perm=rng.random() < .15))
    if max(w) > 20: k["tolf"] = k["told"] = 100 + 4 * max(w)
    return k
# ---- requests for plans
def spoil(rng, bs):
    """a family near a distribution; returns it, or None"""
    bs = [list(b) for b in bs]; live = [i for i, b in enumerate(bs) if all(b[d + 3] >= b[d] for d in range(3))]
    m = rng.choice(["shift", "shrink", "grow", "copy", "drop", "trade", "trade", "away", "low", "swap", "far"]); i = rng.choice(live); j = rng.choice(live); d = rng.randrange(3); b = bs[i]
    if m == "shift": s = rng.choice([-1, 1]); b[d] += s; b[d + 3] += s
    elif m == "shrink":
        if b[d + 3] == b[d]: return None
        if rng.random() < .5: b[d] += 1
        else: b[d + 3] -= 1
    elif m == "grow":
        if rng.random() < .5: b[d] -= 1
        else: b[d + 3] += 1
    elif m == "copy":
        if i == j: return None
        b[:6] = bs[j][:6]
    elif m == "drop": b[:6] = [0, 0, 0, -1, -1, -1]
    elif m == "trade":           # as many cells as the world has, one of them twice and one not at all
        c = [x for x in live if x != i and (bs[x][d + 3] > bs[x][d])]
        if not c: return None
        j = rng.choice(c); e = [(a, s) for a in range(3) for s in (-1, 1)]
        w = [max(x[a + 3] for x in bs) for a in range(3)]
        def area(x, a): return (x[(a + 1) % 3 + 3] - x[(a + 1) % 3] + 1) * (x[(a + 2) % 3 + 3] - x[(a + 2) % 3] + 1)
        rng.shuffle(e)
        for a, s in e:
            if (s < 0 and b[a] > 0) or (s > 0 and b[a + 3] < w[a]):
                for q in rng.sample(c, len(c)):
                    for f in rng.sample(range(3), 3):
                        if bs[q][f + 3] > bs[q][f] and area(bs[q], f) == area(b, a):
                            if s < 0: b[a] -= 1
                            else: b[a + 3] += 1
                            if rng.random() < .5: bs[q][f] += 1
                            else: bs[q][f + 3] -= 1
                            return bs
        return None
    elif m == "away":
        for x in bs: x[d] += 1; x[d + 3] += 1
    elif m == "low": b[d] -= rng.randint(1, 3)
    elif m == "swap":
        if i == j: return None
        b[d], bs[j][d] = bs[j][d], b[d]
    else: k = rng.choice([2, 5, 1000]); b[d] += k; b[d + 3] += k
    if any(x[q] < -100 for x in bs for q in range(3)): return None
    # empty boxes other than the usual one say nothing, and may lie outside of what the others span
    for x in bs:
        if any(x[q + 3] < x[q] for q in range(3)): x[:6] = [0, 0, 0, -1, -1, -1]
    return bs if any(x[3] >= x[0] for x in bs) else None
def valid(rng, i, **force):
    while True:
        planner = rng.random() < .5; d = rng.choice([-1, -1, 0, 1, 2]); n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9] if rng.random() < .95 else [12, 16, 18, 24, 32]); big = planner and rng.random() < .5
        w = big_world(rng) if big else gen.world(rng, 150); vast = not planner and rng.random() < .12
        if vast:             # more cells than an int can count, on every engine
            w = [rng.choice([512, 1024, 1290, 1291, 2048, 2049, 3000, 5000]) for _ in range(3)]
            if w[0] * w[1] * w[2] > 2 ** 28 * n: continue
        wi = list(w); dd = d
        how = rng.choice(["valid", "valid", "valid", "boxes", "boxes", "boxes", "boxes", "worlds"])
        wo = gen.half(wi, d)
        if how == "worlds":
            q = rng.randrange(4); x = rng.randrange(3)
            if q == 0: wo[x] += rng.choice([-1, 1, 2])
            elif q == 1 and d >= 0: wo = list(wi)                                 # not reduced
            elif q == 2: dd = rng.choice([-1, 0, 1, 2])                            # reduced along another direction
            else: wi[x] += 1
            if min(wo) < 1: continue
        e = rng.random() < .15
        a = gen.partition(rng, wi, n, empties=e); b = gen.partition(rng, wo, n, empties=e) if a else None
        if not a or not b: continue
        if rng.random() < .2 and wi == wo: b = [list(x) for x in a]
        if not (gen.fits(wi, n) and gen.fits(wo, n)) and rng.random() < .8: continue
        if vast and max((x[3] - x[0] + 1) * (x[4] - x[1] + 1) * (x[5] - x[2] + 1) for x in a + b) > 2 ** 30: continue
        a, b = gen.with_orders(rng, a), gen.with_orders(rng, b)
        if how == "boxes":
            s = rng.randrange(3); a2 = spoil(rng, a) if s != 1 else a; b2 = spoil(rng, b) if s == 1 else b
            if s == 2 and wi == wo: b2 = [list(x) for x in a2] if a2 else None     # the same mistake on both sides
            if not a2 or not b2: continue
            a, b = a2, b2
        break
    k = {"id": i, "be": "plan" if planner else rng.choice(BACKENDS), "in": vf.boxes(a), "out": vf.boxes(b), "r2c": dd if dd >= 0 else None, "ll": rng.randrange(2)}
    k.update(gen.policy(rng)); k.update(gen.options(rng, n, subs=0))
    if rng.random() < .25: k["sub"] = rng.choice([-1, 0, rng.randint(1, n), n, n + 1, n + 3])
    k.update(force); return k
# ------------------------------------------------------------------ Fortran
def fort_num(rng, i, big=False):
    """transforms through the variables of the Fortran module"""
    k = big_num(rng, i) if big else num(rng, i, sub=0, batches=(1, 1, 2, 3)); k.pop("sub", None); k.pop("gpu", None); k.pop("ll", None); k.pop("ctor", None)
    bs = [list(map(int, x.split(","))) for x in (k["in"] + ";" + k["out"]).split(";")]
    k["how"] = rng.choice([0, 0, 1]) if any(b[6:] != [0, 1, 2] for b in bs) else rng.choice([0, 1, 2])
    k["nosc"] = rng.randrange(2); return k
def capi_num(rng, i, big=False, **force):
    """transforms through the C interface"""
    k = big_num(rng, i, batches=(1,), **force) if big else num(rng, i, sub=0, batches=(1,), lin=.2, **force)
    for x in ("sub", "ll", "ctor"): k.pop(x, None)
    k["one"] = 1; k["noopt"] = int(rng.random() < .25); k["noord"] = rng.randrange(2); k["alg"] = k.get("alg", 0) % 3
    return k
FOPC = {"create": 0, "transform": 1, "assign": 2, "release": 3, "query": 4, "unset": 5}
def fort_ses(rng, i, h, slots=3):
    """h: abstract session [[op, a, b]...] of HandlesGen.tla; all plans of a session are of one class"""
    nw = rng.choice([1, 2, 2, 3, 4]); r2c = rng.random() < .4; nc = 1 + max([x[2] for x in h if x[0] == "create"] or [0]); k = dict(id=i, slots=slots, nw=nw, split=rng.randrange(2), be=rng.choice(BACKENDS), **gen.policy(rng)); plain = []
    for q in range(nc):
        d = rng.choice([0, 1, 2]) if r2c else -1; w, d, a, b = gen.geometry(rng, maxvol=40, maxn=8, r2c=d, maxdim=9, n=nw, small=1.0)
        c = {"in": vf.boxes(a), "out": vf.boxes(b)}; o = gen.options(rng, nw, subs=0); c.update({x: o[x] for x in ("reorder", "alg", "pencils") if x in o})
        if d >= 0: c["r2c"] = d
        elif rng.random() < .3: c["rin"] = 1
        plain.append(all(list(x[6:]) == [0, 1, 2] for x in list(a) + list(b)))
        for x, v in c.items(): k["c%d.%s" % (q, x)] = v
    ops = []
    for op, a, b in h:
        if op == "create": ops.append([0, a, b, rng.choice([0, 1, 2] if plain[b] else [0, 0, 1])])
        elif op == "transform": ops.append([1, a, b, rng.randrange(3)] + [rng.randrange(100) for _ in range(3)] + [rng.randrange(2), rng.choice([1, 1, 2, 3]), rng.randrange(2), rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), rng.randrange(2), rng.randrange(2), rng.randrange(1000)])
        elif op == "assign": ops.append([2, a, b])
        elif op == "unset": ops.append([5, a, rng.randrange(5)])
        else: ops.append([FOPC[op], a])
    k["ops"] = vf.boxes(ops); return k
