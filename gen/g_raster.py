"""Scripts for raster_driver, judged by RasterTrace.tla.  Values are in quarters, coordinates in eighths."""
import concurrent.futures as cf

ND = -9999 * 4


class Gen:
    def __init__(self, rng, vt="float", big=False):
        self.rng, self.vt, self.big, self.far = rng, vt, big, False
        self.s = []
        self.reset()

    # ------------------------------------------------------------- little choices
    def reset(self):
        self.s.append("reset")
        self.used = set()      # masks some raster may refer to
        self.live = set()
        self.two = set()
        self.nf = 0
        self.g = self.geo()
        self.has_sub = set()
        self.masked = set()

    def geo(self):
        r = self.rng
        cs = r.choice([8, 8, 16, 4, 24, 12])
        if self.far and r.random() < .5: return (r.randint(100000, 900000) * 8 + r.randint(0, 3) * 2, r.randint(1000000, 5000000) * 8 + r.randint(0, 3) * 2, cs)
        return (r.randint(-6, 6) * 4, r.randint(-6, 6) * 4, cs)

    def near(self, same=.45, cells=3):
        """a geometry close to this scenario's: same grid, shifted by whole or part cells, other cell size"""
        r = self.rng
        x, y, cs = self.g
        k = r.random()
        if k < same: return self.g
        if k < same + .3: return (x + r.randint(-cells, cells) * cs, y + r.randint(-cells, cells) * cs, cs)
        if k < same + .42: return (x + r.randint(-5, 5) * (cs // 4), y + r.randint(-5, 5) * (cs // 4), cs)
        c2 = r.choice([cs * 2, cs // 2, cs * 3, cs // 4 or 1, cs])
        return (x + r.randint(-4, 4) * (cs // 4), y + r.randint(-4, 4) * (cs // 4), c2)

    def whole(self, reg):
        return reg < 4 or self.vt in ("int", "short", "char", "long")

    def val(self, whole, groups=False):
        r = self.rng
        if groups: return 4 * r.randint(1, 4) + (0 if whole or r.random() < .7 else r.randint(0, 3))
        v = r.randint(-5, 12) * 4
        return v if whole or r.random() < .6 else v + r.randint(0, 3)

    def nod(self, whole):
        r = self.rng
        return r.choice([ND, ND, ND, 0, -4, 40, 4] + ([] if whole else [-38, 2]))

    def dim(self):
        r = self.rng
        return r.choice([1, 2, 3, 3, 4, 4, 5, 6]) if not self.big else r.choice([1, 2, 3, 5, 7, 9])

    def grid(self, n, nod, whole, groups=None, pnod=None):
        r = self.rng
        p = r.choice([0, 0, .15, .3, .5, .8, .97]) if pnod is None else pnod
        if groups is None: groups = r.random() < .5
        return [nod if r.random() < p else self.val(whole, groups) for _ in range(n)]

    def block(self, rows, cols, nod, whole):
        """valid cells in one corner, so that the data does not span the grid"""
        r = self.rng
        r0, r1 = sorted((r.randint(0, rows - 1), r.randint(0, rows - 1)))
        c0, c1 = sorted((r.randint(0, cols - 1), r.randint(0, cols - 1)))
        return [self.val(whole) if r0 <= i // cols <= r1 and c0 <= i % cols <= c1 and r.random() < .8 else nod for i in range(rows * cols)]

    def values(self, rows, cols, nod, whole):
        return self.block(rows, cols, nod, whole) if self.rng.random() < .25 else self.grid(rows * cols, nod, whole)

    # ------------------------------------------------------------- building blocks
    def put(self, *a):
        self.s.append(" ".join(str(x) for x in a))

    def dest(self, lo=4, hi=7):
        c = [i for i in range(lo, hi + 1) if i not in self.used]
        return self.rng.choice(c) if c else None

    def born(self, reg, two=False):
        self.live.add(reg)
        (self.two.add if two else self.two.discard)(reg)
        self.has_sub.discard(reg); self.masked.discard(reg)

    def arr(self, reg, two=None, geo=None, shape=None, mode=None, **kw):
        r = self.rng
        rows, cols = shape or (self.dim(), self.dim())
        w = self.whole(reg)
        nod = kw.get("nod", self.nod(w))
        if two is None: two = r.random() < .4
        L = r.choice([1, 2, 3]) if two else 1
        base = self.values(rows, cols, nod, w)
        v = []
        for b in base:
            v += [b] + [nod if r.random() < .25 else self.val(w) for _ in range(L - 1)]
        self.put("arr", reg, int(two), rows, cols, L, nod, *(geo or self.near()), r.randint(0, 2) if mode is None else mode, *v)
        self.born(reg, two)

    def wfile(self, whole, geo=None, ext=None, shape=None, nod=None, name=None, pnod=None, typ=None):
        r = self.rng
        self.nf += 1
        ext = ext or r.choice(["asc", "asc", "tif"])
        name = (name or "f%d" % self.nf) + "." + ext
        rows, cols = shape or (self.dim(), self.dim())
        if nod is None: nod = self.nod(whole)
        typ = typ or ("int32" if whole else r.choice(["float32", "float64"]))
        v = self.values(rows, cols, nod, whole) if pnod is None else self.grid(rows * cols, nod, whole, pnod=pnod)
        self.put("wfile", name, rows, cols, nod, *(geo or self.near()), typ, *v)
        return name

    def mask(self, reg, **kw):
        """an integer raster over this scenario's grid"""
        r = self.rng
        kw.setdefault("geo", self.g)
        if r.random() < .6: self.arr(reg, **kw)
        else:
            f = self.wfile(True, geo=kw["geo"])
            self.put("read", reg, r.randint(0, 2), 1, f, r.randint(0, 1), -1, 0, ND)
            self.born(reg)

    def deadmask(self, reg):
        """a mask without any valid cell"""
        rows, cols = self.dim(), self.dim()
        self.put("arr", reg, 0, rows, cols, 1, ND, *self.g, 0, *[ND] * (rows * cols))
        self.born(reg)

    def read(self, reg, n=None, mask=None, calc=None, ext=None, dflt=None, files=None, how=None, geo=None):
        r = self.rng
        if n is None: n = r.choice([1, 1, 1, 2, 3])
        w = self.whole(reg)
        if files is None:
            files = []
            base = "m%d" % self.nf
            for k in range(n):
                files.append(self.wfile(w, geo=geo if geo and k == 0 else None, name="%s_%d" % (base, k + 1) if n > 1 else None,
                                        pnod=r.choice([None, None, 0])))
        if mask is None: mask = r.choice([-1] + sorted(self.live & {0, 1, 2, 3}) * 2)
        if mask == reg: mask = -1
        if mask >= 0: self.used.add(mask)
        if dflt is None: dflt = r.choice([ND, ND, ND, 28, -8, 0])
        self.put("read", reg, r.randint(0, 5) if how is None else how, len(files), *files, r.randint(0, 1) if calc is None else int(calc), mask,
                 r.randint(0, 1) if ext is None else int(ext), dflt)
        self.born(reg, len(files) > 1)
        if mask >= 0: self.masked.add(reg)
        return mask

    def setv(self, reg):
        r = self.rng
        k = r.random()
        row, col = (r.randint(-1, 6), r.randint(-1, 6)) if k < .3 else (r.randint(0, 3), r.randint(0, 3))
        self.put("setv", reg, row, col, r.choice([1, 1, 1, 2, 3, 0, -1, 4]),
                 self.val(self.whole(reg)) if r.random() < .85 else r.choice([0, -4, 40, 4]))

    def xy(self, reg, n=6):
        r = self.rng
        x, y, cs = self.g
        for _ in range(n):
            h = cs // 2
            self.put("xy", reg, x + r.choice([-2, -1, 0, 1, 2, 3, 5, 7, 9, 11, 13]) * h + r.choice([0, 0, 0, 1, -1]),
                     y + r.choice([-2, -1, 0, 1, 2, 3, 5, 7, 9, 11, 13]) * h + r.choice([0, 0, 0, 1, -1]))

    def gmap(self):
        r = self.rng
        k = r.random()
        if k < .4: return [0]
        ks = r.sample(range(-2, 6), r.randint(1, 4))
        out = [len(ks)]
        for a in ks: out += [a, r.randint(0, 3)]
        return out

    def recls(self, reg, lyrs=None, empty=True):
        r = self.rng
        ks = r.sample(range(-2, 7), r.choice([0, 1, 3, 5, 7]))
        out = [len(ks)]
        L = lyrs or r.choice([1, 1, 2, 3] * 8 + [0] * empty)
        for a in ks:
            l = L if r.random() < .98 else r.choice([L + 1] + [0] * empty)
            out += [a, l] + [self.val(self.whole(reg)) for _ in range(l)]
        return out

    def outsub(self, reg):
        r = self.rng
        rec = [0] if r.random() < .4 else self.recls(reg)
        self.put("outsub", reg, "w%d" % r.randint(0, 2), r.choice(["asc", "tif"]), r.randint(0, 1), r.randint(0, 1),
                 r.choice([ND, ND, 28, -8, 0]), *rec)

    def subdata(self, reg, ids=range(-2, 7)):
        """data for every subset: the driver takes as many values as the subset has cells"""
        r = self.rng
        L = r.choice([1, 1, 2, 3])
        for i in ids:
            if r.random() < .05: continue
            l = L if r.random() < .95 else L + 1
            self.put("subdata", reg, i, -1, l, r.randint(0, 1), *[self.val(self.whole(reg)) for _ in range(12 * l)])

    def reread(self):
        """read one of the files that may have been written"""
        r = self.rng
        d = self.dest(4)
        if d is None: return
        sfx = r.choice(["asc", "tif"])
        k = r.random()
        w = "w%d" % r.randint(0, 2)
        if k < .4: fs = [w + "." + sfx]
        elif k < .7: fs = ["%s_%d.%s" % (w, i, sfx) for i in range(r.randint(0, 1), 3)]
        elif k < .85: fs = ["0_" + w + "." + sfx]
        else: fs = ["%d_%s.%s" % (r.randint(1, 4), w, sfx)]
        self.read(d, files=fs)

    def bigv(self, reg):
        """numbers of more than six significant digits, exact in quarters before and after rounding to six"""
        r = self.rng
        s = r.choice([1, -1])
        if self.whole(reg): return s * 4 * r.choice([r.randint(1000, 10**6), r.randint(10**6, 4 * 10**6)])
        k = r.random()
        if k < .3: return s * r.randint(1, 39999)              # < 10^4, quarters
        if k < .6: return s * 2 * r.randint(20000, 199999)     # < 10^5, halves
        if k < .9: return s * r.randint(400000, 3999998)       # < 10^6: rounded to units
        return s * r.randint(4000000, 16000000)                # rounded to tens

    def pair(self, a, b):
        """the same files read twice: the switches asked for at once and afterwards"""
        r = self.rng
        n = r.choice([1, 1, 2])
        w = self.whole(a)
        base = "p%d" % self.nf
        fs = [self.wfile(w, name="%s_%d" % (base, k + 1), pnod=r.choice([None, None, 0])) for k in range(n)]
        m = r.choice([-1] + sorted(self.live & {0, 1, 2, 3}) * 3)
        c, e, d = r.randint(0, 1), r.randint(0, 1), r.choice([ND, ND, 28])
        self.read(a, files=fs, mask=m, calc=c, ext=e, dflt=d)
        self.read(b, files=fs, mask=m, calc=0, ext=0, dflt=d)
        todo = (["calcpos"] if c else []) + (["useext"] if e else []) + r.choice([[], ["calcpos"], ["stats"], ["useext"]])
        r.shuffle(todo)
        for t in todo:
            if t == "stats": self.put("stats", b, r.randint(0, 1))
            elif t == "calcpos" and r.random() < .3: self.put("getpos", b, r.randint(0, 2))
            else: self.put(t, b)
        for x in (a, b): self.put("probe", x); self.put("updstats", x, r.randint(0, 1))

    def badread(self, reg):
        """a list of files one or more of which cannot be read, or a mask without valid cells"""
        r = self.rng
        n = r.choice([1, 1, 2, 3])
        w = self.whole(reg)
        bad = {r.randrange(n)} | ({r.randrange(n)} if r.random() < .2 else set())
        if r.random() < .15: bad = set()
        base = "b%d" % self.nf
        fs = []
        for k in range(n):
            if k in bad:
                self.nf += 1
                f = "%s_%d.%s" % (base, k + 1, r.choice(["asc", "tif", "asc"]))
                self.put("badfile", f, r.randint(0, 6 if f.endswith("asc") else 3))
                fs.append(f)
            else: fs.append(self.wfile(w, name="%s_%d" % (base, k + 1), pnod=r.choice([None, 0, 1])))
        self.read(reg, files=fs)

    def ascfile(self, whole, name=None, bad=0.0):
        """an ASCII grid in some layout, possibly with one thing wrong"""
        r = self.rng
        self.nf += 1
        name = (name or "f%d" % self.nf) + ".asc"
        rows, cols = self.dim(), self.dim()
        x, y, cs = self.near()
        cs = max(4, cs // 4 * 4)
        x, y = x // 2 * 2, y // 2 * 2
        nod = self.nod(whole)
        v = self.values(rows, cols, nod, whole)
        cx, cy = r.random() < .5, r.random() < .5
        head = [["h:NCOLS", "n:%d" % (cols * 4)], ["h:NROWS", "n:%d" % (rows * 4)],
                ["h:XLLCORNER", "n:%d" % ((x - cs // 2) // 2)] if cx else ["h:XLLCENTER", "n:%d" % (x // 2)],
                ["h:YLLCORNER", "n:%d" % ((y - cs // 2) // 2)] if cy else ["h:YLLCENTER", "n:%d" % (y // 2)],
                ["h:CELLSIZE", "n:%d" % (cs // 2)], ["h:NODATA_VALUE", "n:%d" % nod]]
        if r.random() < .4: r.shuffle(head)
        toks = ["n:%d" % q for q in v]
        k = r.random()
        if k < .4: data = [toks[i:i + cols] for i in range(0, len(toks), cols)]
        elif k < .5: data = [toks]
        elif k < .6: data = [[t] for t in toks]
        else:
            data, i = [], 0
            while i < len(toks):
                n = r.randint(1, 2 * cols); data.append(toks[i:i + n]); i += n
        if len(data) == 1 and len(toks) > 1 and r.random() < .5: data = [toks[:1], toks[1:]]
        late = [head.pop(i) for i in range(len(head) - 1, -1, -1) if head[i][0] not in ("h:NCOLS", "h:NROWS") and r.random() < .06]
        lines = head + data
        for h in late: lines.insert(r.randint(len(head), len(lines)), h)
        if r.random() < bad:
            k = r.randint(0, 9)
            heads = [i for i in range(len(lines)) if lines[i][0].startswith("h:")]
            datas = [i for i in range(len(lines)) if not lines[i][0].startswith("h:")]
            hi, di = r.choice(heads), r.choice(datas)
            if k == 0: del lines[hi]
            elif k == 1: lines[hi][1] = "x:" + r.choice(["abc", "1,5", "--1", "1.2.3", "5x", "1e"])
            elif k == 2: lines[hi] = lines[hi][:1]
            elif k == 3: lines[di] = lines[di][1:]
            elif k == 4: lines[di] = lines[di] + ["n:4"]
            elif k == 5: lines[di][r.randrange(len(lines[di]))] = "x:" + r.choice(["abc", "1,5", "-", "1.2.3", "5x", ".", "1e+", "0x"])
            elif k == 6: i = [j for j in heads if lines[j][0] in ("h:NCOLS", "h:NROWS")]; lines[r.choice(i)][1] = "n:%d" % r.choice([0, -4, 4 * (rows + 1), 10, 4 * (cols + 1), -4 * rows])
            elif k == 7: lines.append(lines.pop(hi))
            elif k == 8: lines = [l for j, l in enumerate(lines) if j != di]
            elif k == 9: lines.insert(r.randint(0, len(lines)), r.choice([["x:FOO", "n:4"], ["n:4"], ["n:4"] * cols, ["x:NCOL", "n:8"]]))
            if not any(l and l[0] == "h:NODATA_VALUE" for l in lines) and len(lines) < 7: lines = lines[:4]
        lay = r.choice([0, 0, r.randrange(8192), r.randrange(8192), 1 << r.randrange(13)])
        self.put("ascfile", name, lay, *[t for l in lines for t in l + ["|"]])
        return name

    def ascread(self, reg, bad=0.0):
        r = self.rng
        n = r.choice([1, 1, 1, 2])
        base = "a%d" % self.nf
        w = self.whole(reg)
        self.read(reg, files=[self.ascfile(w, name="%s_%d" % (base, k + 1), bad=bad) for k in range(n)])

    def some(self, lo=0, hi=7):
        c = [i for i in sorted(self.live) if lo <= i <= hi]
        return self.rng.choice(c) if c else None

    def any_raster(self, reg):
        r = self.rng
        k = r.random()
        if reg < 4: return self.mask(reg)
        m = sorted(self.live & {0, 1, 2, 3})
        if k < .3: self.arr(reg)
        elif k < .9 or not m: self.read(reg)
        else: self.maskvals(reg, r.choice(m))

    def maskvals(self, reg, m, length=None, two=None):
        r = self.rng
        two = r.random() < .4 if two is None else two
        L = r.choice([1, 2, 3]) if two else 1
        self.used.add(m)
        # the number of valid cells of the mask is not tracked here: it is written so that the driver fills it in
        w = self.whole(reg)
        self.put("maskvals", reg, m, -1 if length is None else length, L, int(two), r.randint(0, 2), *[self.val(w) for _ in range(40 * L)])
        self.born(reg, two)

    def mutate(self, kinds):
        r = self.rng
        k = r.choice(kinds)
        reg = self.some(4) if r.random() < .75 else self.some()
        if reg is None: return
        if k == "setv": self.setv(reg)
        elif k == "replnod": self.put("replnod", reg, self.nod(self.whole(reg)))
        elif k == "recls":
            ks = r.sample(range(-3, 6), r.randint(0, 5))
            out = [len(ks)]
            for a in ks: out += [a, self.val(self.whole(reg))]
            self.put("recls", reg, *out)
        elif k == "calcpos": self.put("calcpos", reg)
        elif k == "useext": self.put("useext", reg)
        elif k == "getpos": self.put("getpos", reg, r.randint(0, 2))
        elif k == "build": self.put(r.choice(["build", "rebuild"]), reg, *self.gmap())
        elif k == "relsub": self.put("relsub", reg)
        elif k == "stats": self.put(r.choice(["stats", "stats", "updstats"]), reg, r.randint(0, 1))
        elif k == "updstats": self.put("updstats", reg, r.randint(0, 1))
        elif k == "probe": self.put("probe", reg)
        elif k == "xy": self.xy(reg, 2)
        elif k == "setdflt": self.put("setdflt", reg, self.val(True))
        elif k == "copy":
            src = self.some(4) if r.random() < .8 else self.some(0, 3)
            if src is None: return
            to = self.dest(0, 3) if src < 4 else r.randint(4, 7)
            if to is None or to == src: return
            self.put(r.choice(["copy", "copyctor"]), to, src)
            self.born(to, src in self.two)
        elif k == "del":
            if reg in self.used: return
            self.put("del", reg); self.live.discard(reg)
        elif k == "new":
            d = self.dest(4)
            if d is not None: self.any_raster(d)
        elif k == "subdata":
            L = r.choice([1, 1, 2, 3])
            n = r.choice([1, 2, 2, 3, 4, 5])
            self.put("subdata", reg, r.randint(1, 4), n, L, r.randint(0, 1), *[self.val(False) for _ in range(n * L)])
        elif k == "subout": self.put("subout", reg, r.randint(0, 4), r.choice([ND, 0, -4]))
        elif k == "out": self.put("out", reg, "w%d" % r.randint(0, 2), r.choice(["asc", "tif"]), int(r.random() < .8))
        elif k == "outsub": self.outsub(reg)
        elif k == "part":   # a partition with data for every subset
            self.put("build", reg, *self.gmap())
            self.subdata(reg)
        elif k == "reread": self.reread()
        elif k == "badread":
            d = self.dest(4)
            if d is not None: self.badread(d)
        elif k == "ascread":
            d = self.dest(4)
            if d is not None: self.ascread(d)
        elif k == "ascbad":
            d = self.dest(4)
            if d is not None: self.ascread(d, .7)
        elif k == "outasc": self.put("out", reg, "w%d" % r.randint(0, 2), "asc", 1)
        elif k == "bigv": self.put("setv", reg, r.randint(0, 3), r.randint(0, 3), r.choice([1, 1, 2]), self.bigv(reg))
        elif k == "pair":
            d = [i for i in range(4, 8) if i not in self.used]
            if len(d) > 1: self.pair(*r.sample(d, 2))
        elif k == "emptymask":
            d = self.dest(0, 3)
            if d is not None: self.deadmask(d)
        elif k == "empty":
            d = self.dest(4)
            if d is not None:
                self.put("empty", d, r.randint(0, 1)); self.live.add(d)
        elif k == "subuse": self.put("subuse", reg, r.randint(1, 4), r.randint(0, 1))


def mwords(r, inc=None, typ=None):
    o = [("SCEN", str(r.randint(0, 1)))]
    if inc is not None: o.append(("INCLUDE_NODATA", inc))
    if typ: o.append(("DATATYPE_OUT", typ))
    return "%d %s" % (len(o), " ".join("%s %s" % kv for kv in o))


def mmutate(g, kinds):
    r = g.rng
    k = r.choice(kinds)
    if not k.startswith("m"): return g.mutate([k])
    reg = g.some(4) if r.random() < .8 else g.some()
    name = "d%d" % r.randint(0, 2)
    sub = lambda: r.choice(["0_" + name, "%d_%s" % (r.randint(0, 4), name)]) if r.random() < .4 else name
    own = {"float": "FLOAT", "double": "DOUBLE", "int": "INT32"}[g.vt]
    if k == "mout" and reg is not None: g.put("mout", reg, name, r.randint(0, 1), int(r.random() < .6), int(r.random() < .85), mwords(r))
    elif k == "moutsub" and reg is not None:
        rec = [0] if r.random() < .5 else g.recls(reg)
        g.put("moutsub", reg, name, r.randint(0, 1), int(r.random() < .6), r.randint(0, 1), r.randint(0, 1), r.choice([ND, ND, 28, -8, 0]), *rec, mwords(r))
    elif k in ("mread", "mreadv"):
        d = g.dest(4) if r.random() < .8 else g.dest(0)
        if d is None: return
        m = r.choice([-1] + sorted(g.live & {0, 1, 2, 3}) * 2)
        if m == d: m = -1
        if m >= 0: g.used.add(m)
        inc = r.choice([None, "TRUE"]) if k == "mread" else "FALSE"
        g.put("mread", d, r.choice([0, 0, 1, 2, 5]), sub(), int(r.random() < .5), m, int(r.random() < (.5 if k == "mread" else .85)), r.choice([ND, ND, ND, 28, -8, 0]), mwords(r, inc, own if r.random() < .1 else None))
        g.born(d)
        if m >= 0: g.masked.add(d)
    elif k == "mround":   # kept whole or by its valid cells, and read again the same way, through its own mask if it has one
        if reg is None: return
        inc = r.random() < .4; o = mwords(r)
        m = r.choice([-1] + sorted(g.live & {0, 1, 2, 3}) * 3)
        if r.random() < .5 and m >= 0 and reg >= 4: g.maskvals(reg, m)
        g.put("mout", reg, name, 0, int(inc), 1, o)
        d = g.dest(4)
        if d is None: return
        if m == d: m = -1
        if m >= 0: g.used.add(m)
        g.put("mread", d, r.choice([0, 1, 2, 5]), name, int(r.random() < .5), m, int(r.random() < .8), ND, "2 INCLUDE_NODATA %s %s" % ("TRUE" if inc else "FALSE", o[2:]))
        g.born(d)
    elif k == "mpre":
        d = g.dest(4); m = g.some(0, 3)
        if d is None or m is None: return
        g.used.add(m)
        if r.random() < .7: g.put("mout", m, name, 0, r.randint(0, 1), 1, "1 SCEN 0"); w = "2 INCLUDE_NODATA %s SCEN 0" % r.choice(["TRUE", "FALSE", "FALSE"])
        else: w = mwords(r, r.choice(["TRUE", "FALSE", "FALSE"]))
        g.put("mpre", d, m, name, w)
        g.born(d)
    elif k == "msubread" and reg is not None:
        i = r.randint(0, 4)
        g.put("submread", reg, i, "%d_%s" % (i, name) if r.random() < .85 else sub(), mwords(r, r.choice([None, "TRUE", "FALSE"])) if r.random() < .7 else "0")
    elif k == "msubs" and reg is not None:   # every subset stored and its data read back
        inc = r.random() < .5; c = r.randint(0, 3)
        if r.random() < .8: g.put("build", reg, *g.gmap())
        if r.random() < .6: g.subdata(reg)
        rec = [0] if r.random() < .5 else g.recls(reg)
        g.put("moutsub", reg, name, 0, int(inc), r.randint(0, 1), 0, ND, *rec, "1 SCEN 1")
        for i in range(0, 5): g.put("submread", reg, i, "%d_%s" % (i, name), "2 SCEN 1 INCLUDE_NODATA %s" % ("TRUE" if inc else "FALSE"))
    elif k == "mbad":
        g.put("mbad", name, r.randint(0, 14), r.randint(0, 1))
        d = g.dest(4)
        if d is not None: g.put("mread", d, r.choice([0, 1, 2, 5]), name, r.randint(0, 1), -1, 0, ND, mwords(r)); g.born(d)
    elif k == "mfault":
        kind = r.choice(["write", "write", "save", "read", "find", "remove"])
        g.put("mplan", kind, r.choice(["1111", "01111", "1", "11111", "001111", "1*"]) if kind != "save" else r.choice(["1111", "LLLL", "1*", "L"]))
        if r.random() < .5 and reg is not None:   # failures while subsets are stored one by one
            g.put("build", reg, *g.gmap()); g.put("mplan", kind, r.choice(["1111", "01111", "1", "1111111", "001111", "1*"]) if kind != "save" else r.choice(["1111", "LLLL", "1*", "L"]))
            g.put("moutsub", reg, name, 0, r.randint(0, 1), 1, 0, ND, 0, mwords(r))
        else: mmutate(g, ["mout", "moutsub", "moutsub", "mread", "msubread", "mround"])
        g.put("mplan", kind, "%")


ALL = ["setv", "replnod", "recls", "calcpos", "useext", "getpos", "build", "relsub", "stats", "updstats", "probe", "copy", "del", "new", "subuse", "setdflt"]


def scenario(ctx, kinds, steps=10, masks=(0, 2), data=2, vt="float", n=60, first=None, last=("probe",), far=False, mutate=Gen.mutate):
    g = Gen(ctx.rng, vt, ctx.thorough and ctx.rng.random() < .3)
    g.far = far
    r = ctx.rng
    g.s.pop()
    for _ in range(n):
        g.reset()
        for m in range(r.randint(*masks)): g.mask(m)
        for d in range(r.randint(1, data)):
            (first or Gen.any_raster)(g, 4 + d)
        for _ in range(r.randint(steps // 2, steps)): mutate(g, kinds)
        for reg in sorted(g.live):
            for k in last:
                if k == "xy": g.xy(reg)
                elif k == "stats": g.put("updstats", reg, r.randint(0, 1))
                elif k == "outasc1": g.put("out", reg, "w0", "asc", 1)
                else: g.put(k, reg)
    return g.s


def run(ctx, kinds, types=("float", "double", "int"), per=None, n=40, denvs=None, spec="RasterTrace", build={}, defines=(), weave=lambda x: x, **kw):
    """drive the rasters of each element type through scenarios; denvs: environments the batches are run under"""
    k = (per or 4) * (6 if ctx.thorough else 1)
    jobs = [(vt, [weave(scenario(ctx, kinds, vt=vt, n=n, **kw)) for _ in range(k)]) for vt in types]
    with cf.ThreadPoolExecutor(len(types)) as ex:
        exes = list(ex.map(lambda vt: ctx.build("raster_driver", raster=True, defines=["-DVT=" + vt] + list(defines), **build), types))
        list(ex.map(lambda j: ctx.run_batches(exes[types.index(j[0])], spec, j[1], name=j[0] + "-", pool=6 if len(types) == 1 else 3), jobs))


def design(ctx, ops="", read="", layers=""):
    """the laws of the specification itself, for every small raster, and its behaviours as scripts for the real classes"""
    big = ctx.thorough
    if read: ctx.model_check("MCRasterRead", "MCRasterRead.cfg", inv=read, sub=[("Wide = FALSE", "Wide = TRUE")] if big else (), min_states=100000, timeout=3000 if big else 800)
    if layers: ctx.model_check("MCRasterRead", "MCRasterLayers.cfg", inv=layers, min_states=100000)
    if ops:
        ctx.model_check("MCRasterOps", "MCRasterOps.cfg", inv=ops, sub=[("MaxSteps = 3", "MaxSteps = 4")] if big else (), min_states=100000, timeout=3000 if big else 800)
        s = ctx.simulate("MCRasterOps", "GenRasterOps.cfg", 1500 if big else 240, 12)
        exe = ctx.build("raster_driver", raster=True, defines=["-DVT=double"])
        ctx.run_batches(exe, "RasterTrace", [sum(s[i::4], []) for i in range(4)], name="simulated-")


def r01(ctx): design(ctx, ops="Shape Indexed SameView"); run(ctx, ["setv", "calcpos", "getpos", "probe", "probe", "copy", "new", "build", "useext"])
def r03(ctx): design(ctx, read="Refused RefusedPlain Plain Selects"); run(ctx, ["probe", "new", "new", "useext"], masks=(1, 2), data=3, first=Gen.read, steps=4, last=("probe",))
def r05(ctx): design(ctx, ops="Shape Counted"); run(ctx, ["setv", "replnod", "recls", "stats", "stats", "updstats", "copy", "calcpos"], last=("stats",))
def r02(ctx): run(ctx, ["xy", "xy", "new", "calcpos"], masks=(0, 2), data=2, last=("xy", "probe"), steps=8)
def r04(ctx): design(ctx, read="Grounded Small Follows"); run(ctx, ["probe", "new", "new", "calcpos", "useext", "setdflt"], masks=(1, 3), data=3, first=Gen.read, steps=5, last=("probe", "xy"))
def r06(ctx): design(ctx, ops="Shape SetFrame"); run(ctx, ["setv"] * 5 + ["copy", "calcpos", "probe"], last=("probe",), steps=14)
def r07(ctx): design(ctx, ops="Shape Replaced Reclassed"); run(ctx, ["replnod", "recls", "replnod", "recls", "copy", "calcpos", "probe", "setv"], last=("probe", "stats"), steps=8)
def r08(ctx): run(ctx, ["copy"] * 4 + ["setv", "replnod", "recls", "calcpos", "useext", "build", "relsub", "subuse", "part", "stats", "del", "new", "getpos"], masks=(1, 2), last=("probe", "stats"), steps=14)
def r09(ctx): design(ctx, ops="Partition Built", read="Follows"); run(ctx, ["build", "build", "relsub", "new", "new", "copy", "calcpos", "setv", "getpos"], masks=(1, 3), last=("probe",), steps=10)
def r10(ctx): design(ctx, ops="Partition Combining Pieces"); run(ctx, ["part", "outsub", "outsub", "out", "subuse", "subout", "reread", "subdata", "relsub"], masks=(1, 2), last=("probe",), steps=10)
def r11(ctx): run(ctx, ["build", "outsub", "outsub", "outsub", "part", "reread", "setdflt"], masks=(0, 1), last=("probe",), steps=8)
def r12(ctx): design(ctx, layers="Stored Aligned"); run(ctx, ["new", "new", "out", "reread", "probe", "calcpos"], masks=(0, 2), data=3, first=lambda g, d: g.read(d, n=g.rng.choice([2, 3, 4])), last=("probe",), steps=6)
def r18(ctx): run(ctx, ["setv", "copy", "probe", "out", "reread", "stats", "build", "useext", "calcpos", "replnod"], masks=(1, 2), data=3, first=lambda g, d: g.maskvals(d, min(g.live)), last=("probe", "stats"), steps=8)
def r19(ctx): run(ctx, ["badread"] * 4 + ["emptymask", "empty", "new", "copy", "probe", "setv", "calcpos", "useext", "getpos", "stats", "out", "build", "del", "reread"], masks=(0, 2), data=2, last=("probe",), steps=10)
def r20(ctx): design(ctx, read="Stored Later"); run(ctx, ["pair", "pair", "calcpos", "useext", "getpos", "setv", "copy", "stats", "build", "replnod"], masks=(1, 2), data=2, last=("probe", "stats"), steps=8)
def r13(ctx): run(ctx, ["ascread", "ascread", "outasc", "outasc", "reread", "bigv", "bigv", "calcpos", "part", "outsub"], masks=(0, 2), data=2, last=("outasc1", "probe"), steps=12, far=True)
def r15(ctx): run(ctx, ["ascbad"] * 5 + ["probe", "copy"], masks=(0, 1), data=1, last=("probe",), steps=14)


def g02(ctx):
    run(ctx, ["mround"] * 4 + ["mout"] * 3 + ["moutsub", "mread", "mread", "mreadv", "mreadv", "mpre", "msubs", "msubread", "mbad", "mfault", "part", "setv", "calcpos", "stats", "new", "copy", "getpos", "subuse"],
        masks=(1, 2), data=2, last=("probe", "stats"), steps=12, mutate=mmutate, spec="RasterDbTrace", build=dict(mongo=True, extra_harness=("fake_mongoc.cpp",)))


def pmutate(g, kinds):
    """a request to the masking tool over files, or stored rasters, made for it"""
    r = g.rng
    k = r.choice(kinds)
    if k == "appbad": return g.put("appbad", r.randint(0, 11))
    g.no = getattr(g, "no", 0) + 1
    mode = k
    gi, go, gm = (r.random() < p for p in (.3, .35, .25))
    store = lambda reg, name: g.put("mout", reg, name, 0, 1, 1, "1 DATATYPE_OUT DOUBLE")
    shape = (g.dim(), g.dim())
    mask = "-"
    if mode == "COM" or r.random() < .85:
        f = g.wfile(r.random() < .8, geo=g.g, shape=shape, pnod=r.choice([0, .2, .4, None, None, .95]))
        mask = f
        if r.random() < .03: mask = "gone.tif"
        if gm:
            d = g.dest(4)
            if d is not None:
                g.put("read", d, 2, 1, f, 0, -1, 0, ND); g.born(d); mask = "m%d" % g.no; store(d, mask)
            else: gm = False
    mfmt = "none" if mask == "-" else "gfs" if gm else "file"
    inc = r.random() < (.8 if gi else .6)
    ents = []
    def inputs(n=None):
        n = n or r.choice([1, 1, 1, 2, 3])
        sh = shape if r.random() < .5 else (g.dim(), g.dim()); ge = g.near()
        return [g.wfile(r.random() < .5, geo=ge if j == 0 or r.random() < .6 else g.near(), shape=sh if r.random() < .8 else None, pnod=None if r.random() < .7 else .1) for j in range(n)]
    def rec():
        if r.random() < .6: return [0]
        return g.recls(4, empty=False) if r.random() < .93 else [2, 1, 1, 4, 2, 2, 8, 12]
    for i in range(r.choice([1, 1, 1, 2, 3])):
        ot = r.choice(["DOUBLE", "DOUBLE", "FLOAT", "INT32"])
        dflt = r.choice([ND, ND, ND, 28, -8, 0])
        out = "r%d_%d" % (g.no, i) + ("" if go else "." + r.choice(["asc", "tif"]))
        if mode == "COM" and r.random() < .9:   # what an earlier decomposition left, some of it gone, some of another shape
            if g.parts: fmt, ins, gi = r.choice(g.parts[-2:]); ins = list(ins)
            else: ins = ["%d_f.tif" % j for j in range(3)]
            ins = [x for x in ins if r.random() < .9] or ins[:1]
            r.shuffle(ins)
        else:
            ins = inputs()
            if gi:
                d = g.dest(4)
                if d is None: return
                g.put("read", d, 2, len(ins), *ins, 0, -1, 0, ND); g.born(d)
                ins = ["d%d_%d" % (g.no, i)]
                ot2 = ot if r.random() < .9 else r.choice(["DOUBLE", "FLOAT"])
                g.put("mout", d, ins[0], 0, int(inc), 1, "1 DATATYPE_OUT " + ot2)
        if r.random() < .04: ins = ["gone.asc"]
        if r.random() < .03 and not gi: g.put("badfile", ins[0], r.randint(0, 6 if ins[0].endswith("asc") else 3))
        upd = mode != "COM" and r.random() < .3
        rc = [0] if mode == "COM" else rec()
        ents.append((ins, out, dflt, int(upd), r.choice([-4, 40, 396, -8]), ot, rc))
    lay = r.getrandbits(15)
    g.put("app", lay, mode, mfmt, mask, "gfs" if gi else "file", "gfs" if go else "file", int(inc), len(ents), *[" ".join(str(x) for x in (len(e[0]), *e[0], *e[1:6], *e[6])) for e in ents])
    if mode in ("DEC", "MASKDEC") and len(ents) == 1 and mask not in ("-", "gone.tif"):
        core, _, sfx = ents[0][1].partition(".")
        if go: g.parts.append(("gfs", ["%d_%s" % (i, core) for i in range(0, 5)], True))
        else: g.parts.append(("file", ["%d_%s.%s" % (i, core, sfx) for i in range(0, 5)], False))
        if r.random() < .7:   # put together again over the same mask
            f, ins, g2 = g.parts[-1]; o2 = r.choice(["file", "file", "gfs"])
            ins = [x for x in ins if r.random() < .9] or ins
            g.put("app", r.getrandbits(15), "COM", mfmt, mask, f, o2, int(inc), 1, len(ins), *ins, "c%d%s" % (g.no, ".tif" if o2 == "file" else ""), r.choice([ND, ND, 28]), 0, 0, ents[0][5], 0)


def p01(ctx):
    def first(g, d): g.parts = []; g.no = 0
    run(ctx, ["MASK"] * 4 + ["DEC"] * 4 + ["MASKDEC"] * 3 + ["COM"] * 2 + ["NONE", "appbad"], types=("double",), masks=(0, 0), data=1, steps=6, n=30, per=12, first=first, last=(), mutate=pmutate, spec="RasterAppTrace",
        build=dict(mongo=True, extra_harness=("fake_mongoc.cpp", "app_main.cpp")), defines=["-DUSE_APP"])


class Teams:
    """a check's context that builds for coroutine workers and looks at the loops' use of memory as well"""
    def __init__(self, ctx): self.ctx = ctx
    def __getattr__(self, k): return getattr(self.ctx, k)
    def build(self, *a, **k): k.pop("san", None); return self.ctx.build(*a, par=True, **k)
    def run_batches(self, exe, spec, batches, cfg=None, env=None, denv=None, **k):
        d = dict(denv or {}); d["VT_PAR_AUTO"] = str(self.ctx.rng.getrandbits(30))
        self.ctx.run_batches(exe, spec, batches, cfg, env, d, **k)
        self.ctx.run_batches(exe, "ParTrace", batches, None, None, d, **k)


class Owned:
    """a check's context in which everything is given back at the end of a scenario, and what is left is looked at"""
    def __init__(self, ctx): self.ctx = ctx
    def __getattr__(self, k): return getattr(self.ctx, k)
    def run_batches(self, exe, spec, batches, cfg=None, env=None, denv=None, **k):
        B = []
        for b in batches:
            o = []
            for x in b:
                if x.startswith("reset") and o: o.append("drop")
                o.append(x)
            B.append(o + ["drop"])
        self.ctx.run_batches(exe, spec, B, cfg, env, dict(denv or {}, VT_LOST="1"), **k)


def o01(ctx):
    t = Owned(ctx)
    big = [("{o1, o2}", "{o1, o2, o3}")] if ctx.thorough else ()
    ctx.model_check("Ownership", "Ownership.cfg", sub=big, min_states=10000, timeout=3000 if big else 800)
    run(t, ["new", "new", "badread", "badread", "ascbad", "emptymask", "empty", "copy", "setv", "replnod", "recls", "calcpos", "useext", "getpos", "build", "relsub", "stats", "updstats", "out", "outasc", "outsub", "part", "subuse", "subdata", "subout", "reread", "pair", "probe", "del"],
        masks=(0, 3), data=3, steps=12)
    g02(t)
    import g_types, g_mongo
    g_types.r14(t)
    g_mongo.g01(t)
    g_mongo.g03(t)


def r17(ctx):
    r = ctx.rng
    ctx.model_check("MCParLoop", min_states=100000)
    def weave(lines):   # teams of workers and their schedules
        out = []
        for x in lines:
            if x.startswith("reset") or r.random() < .25:
                t = "threads %d %d" % (r.choice([1, 2, 2, 3, 4, 5, 7, 8, 8, 16, 40, 0, -1]), r.getrandbits(30))
                out += [x, t] if x.startswith("reset") else [t, x]
            else: out.append(x)
        return out
    run(ctx, ["new", "new", "new", "probe", "calcpos", "useext", "replnod", "recls", "stats", "updstats", "copy", "build", "outsub", "part", "subuse", "out", "out", "reread", "setv", "getpos", "setdflt", "relsub"],
        types=("float", "double", "int"), masks=(0, 2), data=3, last=("probe", "stats"), steps=12, spec="RasterParTrace", build=dict(par=True), weave=weave, per=2)
    import g_types, g_math
    t = Teams(ctx)
    g_types.r14(t)
    g_math.m01(t)
    g02(t)
