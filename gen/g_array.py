"""Arrays, array objects and lists: scripts for array_driver, judged by ArrayTrace.tla."""

T = "isfd"


class Gen:
    def __init__(self, r, faults=True):
        self.r, self.ops, self.faults = r, ["reset"], faults
        self.one, self.two, self.cls = {}, {}, {}

    def q(self, t=None): return self.r.choice([self.r.randint(-40, 40), self.r.randint(-40, 40), self.r.randint(-9, 9) * 4, 0, -1, 1, 3, -3, 4 * 1000])

    def ty(self):
        """element type, with a failing allocation at times"""
        t = self.r.choice(T)
        return t, t + (str(self.r.randint(1, 3)) if self.faults and self.r.random() < .1 else "")

    def h(self): return self.r.randint(1, 3)

    def vals(self, n): return "%d %s" % (n, " ".join(str(self.q()) for _ in range(n))) if n else "0"

    def n(self): return self.r.choice([1, 1, 2, 3, 4, 5, 7, 16, 33, 0, -1])

    def a1(self):
        r = self.r
        t, tt = self.ty()
        h = self.h()
        x = r.random()
        k = (t, h)
        if x < .25:
            n = self.n()
            self.ops.append("init1 %s %d %d %s %d" % (tt, h, n, r.choice(T), self.q()))
            if n > 0 and k not in self.one and tt == t: self.one[k] = n
        elif x < .45:
            n = self.n(); null = r.random() < .1
            self.ops.append("from1 %s %d %d %s %d %s" % (tt, h, n, r.choice(T), null, self.vals(max(n, 1) + r.randint(0, 2))))
            if n > 0 and not null and k not in self.one and tt == t: self.one[k] = n
        elif x < .6:
            g = r.choice(list(self.one)) if self.one and r.random() < .8 else (r.choice(T), self.h())
            self.ops.append("copy1 %s %d %s %d" % (tt, h, g[0], g[1]))
            if g in self.one and k not in self.one and tt == t: self.one[k] = self.one[g]
        elif x < .72 and self.one:
            k = r.choice(list(self.one))
            self.ops.append("set1 %s %d %d %d" % (k[0], k[1], r.choice([1, self.one[k], r.randint(1, self.one[k])]), self.q()))
        elif x < .82:
            if r.random() < .8 and self.one: k = r.choice(list(self.one))
            self.ops.append("rel1 %s %d" % k); self.one.pop(k, None)
        elif x < .92:
            s = r.sample([1, 2, 3], r.randint(1, 3))
            s = s[:1] + [i for i in s[1:] if (t, i) in self.one]   # an empty handle ends the list
            self.ops.append("batch1 %s %d %s" % (t, len(s), " ".join(map(str, s))))
            for i in s: self.one.pop((t, i), None)
        else:
            c = [k for k in self.one if k[0] == "f"]
            if c: self.ops.append("text1 f %d" % r.choice(c)[1])

    def a2(self):
        r = self.r
        t, tt = self.ty()
        h = self.h()
        x = r.random()
        k = (t, h)
        dim = lambda: r.choice([1, 1, 2, 3, 4, 6, 0, -2] if r.random() < .4 else [1, 2, 3, 5])
        if x < .2:
            n, m = dim(), dim()
            self.ops.append("init2 %s %d %d %d %s %d" % (tt, h, n, m, r.choice(T), self.q()))
            if n > 0 and m > 0 and k not in self.two and tt == t: self.two[k] = [m] * n
        elif x < .35:
            n, m = dim(), dim(); null = r.random() < .1
            self.ops.append("from2 %s %d %d %d %s %d %s" % (tt, h, n, m, r.choice(T), null, self.vals(max(1, n * m) if n > 0 and m > 0 else max(n, m, 1))))
            if n > 0 and m > 0 and not null and k not in self.two and tt == t: self.two[k] = [m] * n
        elif x < .48:
            c = [g for g in self.two if len(set(self.two[g])) == 1]
            g = r.choice(c) if c else None
            if g:
                self.ops.append("copy2 %s %d %s %d" % (tt, h, g[0], g[1]))
                if k not in self.two and tt == t: self.two[k] = list(self.two[g])
        elif x < .62:
            if k in self.two: return
            n = r.choice([1, 2, 3, 4, 0]); null = r.random() < .08
            L = [4 * n]; cols = []
            for _ in range(n):
                c = r.choice([0, 1, 2, 3, 5]); cols.append(c + 1)
                L += [4 * c] + [self.q() for _ in range(c)]
            self.ops.append("rag %s %d %s %d %d %s" % (tt, h, r.choice(T), null, len(L), " ".join(map(str, L))))
            if n and not null and tt == t: self.two[k] = cols
        elif x < .75 and self.two:
            k = r.choice(list(self.two)); i = r.randint(1, len(self.two[k]))
            self.ops.append("set2 %s %d %d %d %d" % (k[0], k[1], i, r.choice([1, self.two[k][i - 1]]), self.q()))
        elif x < .84:
            if r.random() < .8 and self.two: k = r.choice(list(self.two))
            self.ops.append("rel2 %s %d" % k); self.two.pop(k, None)
        elif x < .93:
            s = r.sample([1, 2, 3], r.randint(1, 3))
            s = s[:1] + [i for i in s[1:] if (t, i) in self.two]
            self.ops.append("batch2 %s %d %s" % (t, len(s), " ".join(map(str, s))))
            for i in s: self.two.pop((t, i), None)
        else:
            c = [k for k in self.two if k[0] == "f"]
            if c: self.ops.append("text2 f %d" % r.choice(c)[1])

    def c2(self):
        r = self.r
        t = r.choice("ifd"); h = self.h(); g = self.h(); k = (t, h); j = (t, g); x = r.random()
        if self.cls and r.random() < .6: j = r.choice(list(self.cls)); t, g = j; k = (t, h)
        if x < .25:
            n, m = r.choice([1, 2, 3, 0, 4]), r.choice([1, 2, 5, 0, 3])
            self.ops.append("new %s %d %d %d %d %d" % (t, h, n, m, self.q(), r.randint(0, 2)))
            if n and m: self.cls[k] = (n, m)
        elif x < .42:
            self.ops.append("ccopy %s %d %d %d" % (t, h, g, r.randint(0, 1)))
            if h != g: self.put(k, self.cls.get(j))
        elif x < .58 and h != g:
            ctor = r.randint(0, 1)
            self.ops.append("cmove %s %d %d %d" % (t, h, g, ctor))
            old = self.cls.get(k); self.put(k, self.cls.get(j)); self.put(j, None if ctor else old)
        elif x < .64: self.ops.append("cself %s %d %d" % (t, g, r.randint(0, 2)))
        elif x < .74:
            self.ops.append("cswap %s %d %d" % (t, h, g))
            a, b = self.cls.get(k), self.cls.get(j); self.put(k, b); self.put(j, a) if h != g else None
        elif x < .88 and j in self.cls:
            n, m = self.cls[j]
            self.ops.append("cset %s %d %d %d %d" % (t, g, r.randint(1, n), r.randint(1, m), self.q()))
        elif x < .94: self.ops.append("cshape %s %d" % (t, g))
        else: self.ops.append("cdel %s %d" % (t, g)); self.put(j, None)

    def put(self, k, v):
        if v is None: self.cls.pop(k, None)
        else: self.cls[k] = v


def sweep(ctx, kinds, n, length):
    r = ctx.rng
    exe = ctx.build("array_driver")
    B = []
    for _ in range(8):
        L = []
        for _ in range(n * (6 if ctx.thorough else 1) // 8):
            g = Gen(r)
            for _ in range(length): getattr(g, r.choice(kinds))()
            L += g.ops
        B.append(L)
    ctx.run_batches(exe, "ArrayTrace", B, pool=8, denv={"OMP_NUM_THREADS": "4"})


def a01(ctx):
    ctx.model_check("MCArrays", "MCArrays1.cfg")
    sweep(ctx, ["a1", "a1", "a1", "a2"], 240, 24)


def a02(ctx):
    ctx.model_check("MCArrays", "MCArrays2.cfg")
    sweep(ctx, ["a2", "a2", "c2", "c2", "a1"], 240, 24)


def a03(ctx):
    import itertools
    r = ctx.rng
    ctx.model_check("MCArrays", "MCLists.cfg")
    exe = ctx.build("array_driver")
    ops = []
    n = 5 if ctx.thorough else 4
    for k in range(n + 1):
        for s in itertools.product((0, 4, 2), repeat=k):
            for v in (0, 4, 2, 8):
                t = T[(len(ops) + k) % 4]
                ops.append("%s %s %d %d %s" % (r.choice(["value", "remove", "remove"]), t, v, len(s), " ".join(map(str, s))))
    for _ in range(1500):
        s = [r.choice([0, 1, 2, 3, 4, -4, 8, r.randint(-40, 40)]) for _ in range(r.randint(0, 12))]
        ops.append("%s %s %d %d %s" % (r.choice(["value", "remove"]), r.choice(T), r.choice(s) if s and r.random() < .8 else r.randint(-40, 40), len(s), " ".join(map(str, s))))
    r.shuffle(ops)
    m = (len(ops) + 7) // 8
    ctx.run_batches(exe, "ArrayTrace", [["reset"] + [o.rstrip() for o in ops[i:i + m]] for i in range(0, len(ops), m)], pool=8)
