"""Statistics and approximate functions: scripts for math_driver, judged by MathTrace.tla."""
import itertools


def batches(ctx, ops, threads=("1", "2", "3", "5", "8", "8", "4", "7")):
    ctx.rng.shuffle(ops)
    exe = ctx.build("math_driver")
    n = (len(ops) + 7) // 8
    for k, t in enumerate(sorted(set(threads))):
        B = [["reset"] + ops[i:i + n] for i in range(0, len(ops), n)]
        B = [b for i, b in enumerate(B) if threads[i % len(threads)] == t]
        if B: ctx.run_batches(exe, "MathTrace", B, pool=8, denv={"OMP_NUM_THREADS": t}, name="-t" + t)


def ls(v): return " ".join([str(len(v))] + [str(x) for x in v])


SC = {"i": [0], "s": [0], "f": [-2, 0, 90, -60], "d": [-2, 0, 200, -90, 130]}


def m01(ctx):
    r = ctx.rng
    ctx.model_check("MCStats", "MCStats.cfg")
    ops = []
    for n in range(1, 5 if not ctx.thorough else 6):
        for s in itertools.product((-2, 0, 1, 3), repeat=n):
            if n > 3 and r.random() < .5: continue
            t = r.choice("isfd"); e = r.choice(SC[t])
            ops.append("max %s %d %s" % (t, e, ls(s))); ops.append("stat %s %d %d 0 %s" % (t, e, r.choice((-2, 0, 1, 3, 7)), ls(s)))
    for _ in range(500 * (6 if ctx.thorough else 1)):
        t = r.choice("isfd"); e = r.choice(SC[t])
        big = r.random() < .15
        n = r.choice([63, 64, 100, 257, 500]) if big else r.randint(1, 8)
        v = [r.randint(-3, 3) if big else r.randint(-20, 20) for _ in range(n)]
        if r.random() < .3: v = [abs(x) + 1 for x in v]
        if r.random() < .3: v = [-abs(x) - 1 for x in v]
        ops.append("max %s %d %s" % (t, e, ls(v))); ops.append("sum %s %d %s" % (t, e, ls(v if r.random() < .9 else [])))
        ops.append("sumidx %s %d %s %s" % (t, e, ls(v), ls([r.randrange(n) for _ in range(r.choice([0, 1, 3, n]))])))
        x = r.choice(v) if r.random() < .7 else r.randint(-25, 25)
        if r.random() < .4: v = [x if r.random() < .4 else y for y in v]
        if r.random() < .05: v = [x] * n
        ops.append("stat %s %d %d 0 %s" % (t, e, x, ls(v)))
        if r.random() < .2: ops.append("stat %s 0 -9999 1 %s" % (t, ls([-9999 if r.random() < .3 else y for y in v])))
        c = r.randint(1, 4); m = r.choice([1, 2, 3, 5, 8]) if not big else 150
        w = [r.randint(-3, 3) if big else r.randint(-20, 20) for _ in range(m * c)]
        for j in range(c):   # columns of different kinds: all excluded, all positive, all negative
            y = r.random()
            for i in range(m):
                k = i * c + j
                if y < .1: w[k] = x
                elif y < .3: w[k] = abs(w[k]) + 1
                elif y < .5: w[k] = -abs(w[k]) - 1
                elif r.random() < .3: w[k] = x
        ops.append("stat2 %s %d %d %d 0 %s" % (t, e, c, x, ls(w)))
        if r.random() < .2: ops.append("stat2 %s 0 %d -9999 1 %s" % (t, c, ls([-9999 if r.random() < .3 else y for y in w])))
        ops.append("macro %d %d" % (r.randint(-5, 5), r.randint(-5, 5)))
    batches(ctx, ops)


def m02(ctx):
    r = ctx.rng
    ctx.model_check("MCStats", "MCStats.cfg")
    ops = []
    for a in range(-24, 25):
        for b in range(-24, 25):
            if abs(a - b) != 10: ops.append("eq %d %d 1 0" % (a, b))
    for _ in range(1500):
        ty = r.randint(0, 3)
        a = r.choice([0, 4, -4, 40000, r.randint(-400, 400) * 4, r.randint(-2000000, 2000000) * 4]) if ty == 3 else r.randint(-4000000, 4000000)
        ops.append("eq %d %d 0 %d" % (a, r.choice([a, a, -a, a + 1, a - 1, a + 4]), ty))
    n = 2500 * (6 if ctx.thorough else 1)
    for _ in range(n):
        m = (1 + r.choice([0, r.random(), r.randrange(64) / 64., 1 - 2. ** -23])) * 2. ** r.randint(-30, 29)
        for f in ("sqrtf", "sqrt", "lnf", "ln"): ops.append("near %s %r" % (f, m))
        x = r.choice([r.uniform(-40, 40), r.randint(-57, 57) * 0.6931471805599453, r.randint(-40, 40), 0.0, r.uniform(-1, 1)])
        x = max(-40., min(40., x))
        for f in ("expf", "exp"): ops.append("near %s %r" % (f, x))
        b = (1 + r.random()) * 2. ** r.randint(-6, 6)
        ops.append("near pow %r %r" % (b, r.choice([r.uniform(-3, 3), r.randint(-3, 3), .5])))
    for x in range(-140, 141):
        ops.append("expo %d 1 0 0" % x)
        lo = r.randint(-60, 40); ops.append("expo %d 0 %d %d" % (x, r.randint(lo, 60), lo))
    for a in range(-12, 13):
        for k in range(0, 6): ops.append("power %d %d" % (a, k))
    for k in range(0, 30): ops.append("cal %d %d" % (k, r.randint(0, 5)))
    batches(ctx, ops, threads=("2",))
