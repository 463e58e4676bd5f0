"""Cases: worlds, partitions, memory orders, options, schedules."""
import itertools, math
ORDERS = list(itertools.permutations((0, 1, 2)))
def cuts(rng, n, p, even=False):
    """p non-empty intervals of 0..n-1 (p <= n)"""
    if even or rng.random() < .5: c = [n * i // p for i in range(p + 1)]
    else: c = [0] + sorted(rng.sample(range(1, n), p - 1)) + [n]
    return [(c[i], c[i + 1] - 1) for i in range(p)]
def procgrid(rng, n, world):
    """a random factorisation of n that fits the world, or None"""
    g = [(a, b, n // a // b) for a in range(1, n + 1) if n % a == 0 for b in range(1, n // a + 1) if (n // a) % b == 0]
    g = [x for x in g if all(x[i] <= world[i] for i in range(3))]
    return rng.choice(g) if g else None
def grid(rng, world, g, even=False, split_even=None):
    ds = [cuts(rng, world[d], g[d], even) for d in range(3)]
    return [[ds[d][k][0] for d, k in zip(range(3), ix)] + [ds[d][k][1] for d, k in zip(range(3), ix)] for ix in [(a, b, c) for c in range(g[2]) for b in range(g[1]) for a in range(g[0])]]
def guillotine(rng, world, n):
    bs = [[0, 0, 0] + [w - 1 for w in world]]
    while len(bs) < n:
        opts = [(i, d) for i, b in enumerate(bs) for d in range(3) if b[d + 3] > b[d]]
        if not opts: return None
        i, d = rng.choice(opts); b = bs.pop(i); c = rng.randrange(b[d], b[d + 3])
        x = list(b); y = list(b); x[d + 3] = c; y[d] = c + 1; bs += [x, y]
    return bs
def partition(rng, world, n, kind=None, empties=False):
    """n boxes without orders"""
    kind = kind or rng.choice(["brick", "brick", "pencil", "pencil", "slab", "guillotine", "guillotine", "uneven", "one"] if empties else ["brick", "brick", "pencil", "pencil", "slab", "guillotine", "guillotine", "uneven"])
    bs = None
    if kind == "pencil":
        d = rng.randrange(3); g = [(a, n // a) for a in range(1, n + 1) if n % a == 0]; rng.shuffle(g)
        for a, b in g:
            gg = [0, 0, 0]; gg[d] = 1; gg[(d + 1) % 3] = a; gg[(d + 2) % 3] = b
            if all(gg[i] <= world[i] for i in range(3)): bs = grid(rng, world, gg, rng.random() < .7); break
    elif kind == "slab":
        d = rng.randrange(3)
        if world[d] >= n: gg = [1, 1, 1]; gg[d] = n; bs = grid(rng, world, gg, rng.random() < .7)
    elif kind == "brick":
        g = procgrid(rng, n, world)
        if g: bs = grid(rng, world, g, True)
    elif kind == "uneven":
        g = procgrid(rng, n, world)
        if g: bs = grid(rng, world, g, False)
    elif kind == "one":
        m = rng.choice([1, 1, max(1, n - 1), max(1, n // 2)])
        bs = guillotine(rng, world, m)
        if bs: bs = bs + [[0, 0, 0, -1, -1, -1] for _ in range(n - m)]
    if bs is None: bs = guillotine(rng, world, n)
    if bs is None: return None
    if rng.random() < .4: rng.shuffle(bs)
    return bs
def with_orders(rng, bs, mode=None):
    mode = mode or rng.choice(["default", "same"])
    if mode == "default": o = (0, 1, 2); return [b + list(o) for b in bs]
    o = rng.choice(ORDERS); return [b + list(o) for b in bs]     # the library requires one order for all ranks
def world(rng, maxvol=96, maxdim=16, small=True):
    while True:
        kind = rng.random()
        if kind < .45: w = [rng.randint(1, 6) for _ in range(3)]
        elif kind < .7: w = [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16]) for _ in range(3)]
        elif kind < .82: w = [rng.choice([2, 4, 8]) for _ in range(3)]
        elif kind < .86: w = [rng.randint(2, 9), rng.randint(2, 9), 1]      # two-dimensional
        else:
            w = [rng.randint(1, 3), rng.randint(1, 3), rng.randint(4, maxdim)]; rng.shuffle(w)
        if max(w) <= maxdim and w[0] * w[1] * w[2] <= maxvol: return w
def half(w, d):
    w = list(w)
    if d >= 0: w[d] = w[d] // 2 + 1
    return w
def fits(w, n):
    """every direction allows a two-dimensional grid of n pencils"""
    return all(any(a * b == n and a <= w[(d + 1) % 3] and b <= w[(d + 2) % 3] for a in range(1, n + 1) for b in [n // a]) for d in range(3))
def policy(rng):
    return dict(sseed=rng.randrange(1, 10**6), smode=rng.randrange(3), deliver=rng.randrange(3), sched=rng.choice([0, 1, 1, 1, 2]), waitany=rng.randrange(3))
def options(rng, n, subs=.2, backend=None):
    o = dict(alg=rng.randrange(4))
    if rng.random() < .7: o["reorder"] = rng.randrange(2)
    if rng.random() < .8: o["pencils"] = rng.randrange(2)
    if rng.random() < .3: o["gpu"] = rng.randrange(2)
    if rng.random() < subs: o["sub"] = rng.randint(1, n + 1)
    return o
def geometry(rng, maxvol=96, maxn=8, r2c=None, maxdim=16, empties=.08, n=None, small=.97):
    """(world, r2c, in boxes, out boxes)"""
    while True:
        w = world(rng, maxvol, maxdim); d = r2c if r2c is not None else -1
        wo = half(w, d); nn = n or rng.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 6, 7, 8, 8] + ([9, 12] if maxn >= 12 else []))
        if nn > maxn: continue
        if not (fits(w, nn) and fits(wo, nn)) and rng.random() < small: continue
        e = rng.random() < empties
        a = partition(rng, w, nn, empties=e)
        if a is None: continue
        b = None
        r = rng.random()
        if r < .15 and d < 0: b = [list(x) for x in a]
        elif r < .25:  # same process grid shifted: out = in with the ranks exchanged, when the worlds agree
            b = [list(x) for x in a] if d < 0 else None
            if b: rng.shuffle(b)
        if b is None: b = partition(rng, wo, nn, empties=e)
        if b is None: continue
        return w, d, with_orders(rng, a), with_orders(rng, b)
def perm(rng, n):
    """world rank -> rank in the communicator, -1 outside"""
    extra = rng.choice([0, 0, 1, 2]); p = list(range(n)) + [-1] * extra; rng.shuffle(p); return ",".join(map(str, p))
# ---- worlds well beyond the small ones: many ranks, tens of thousands of cells, long lines
def lcm4(w):
    l = 4
    for x in w: l = l * x // math.gcd(l, x)
    return l
BIGN = [9, 10, 12, 14, 15, 16, 18, 20, 21, 24, 25, 27, 30, 32, 36]
def big_geometry(rng, r2c=-1, maxvol=40000, n=None, empties=0):
    while True:
        k = rng.random(); nn = n or rng.choice(BIGN + [2, 3, 4, 6, 7, 8])
        if k < .55: w = [rng.randint(8, 40) for _ in range(3)]
        elif k < .8: w = [rng.choice([8, 12, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 64, 65]) for _ in range(3)]
        else: w = [rng.randint(2, 6), rng.randint(2, 9), rng.choice([100, 128, 130, 200, 255, 256, 257, 300, 384, 512, 600, 729, 1000, 1024, 1030, 1500, 2048, 2050])]; rng.shuffle(w)
        if w[0] * w[1] * w[2] > maxvol or lcm4(w) >= 100000: continue
        wo = half(w, r2c)
        if not (fits(w, nn) and fits(wo, nn)): continue
        a = partition(rng, w, nn, empties=empties and rng.random() < empties); b = None
        if a and r2c < 0 and rng.random() < .15: b = [list(x) for x in a]; rng.shuffle(b)
        if a and b is None: b = partition(rng, wo, nn)
        if a and b: return w, r2c, with_orders(rng, a), with_orders(rng, b)
