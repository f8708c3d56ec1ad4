"""The file store: scripts for mongo_driver, judged by GridFsTrace.tla."""
import itertools


def esc(s):
    if isinstance(s, str): s = s.encode()
    return "".join("%%%02X" % b if b in b" %\n\r\t" or b > 126 or b < 32 else chr(b) for b in s) or "%"


STORES = ["d1/SPATIAL", "d1/a.b", "d2/SPATIAL", "d2/x"]
NAMES = ["f", "f", "g", "dem.tif", "F", "f "]
OPTS = [("SCENARIOID", "0"), ("SCENARIOID", "1"), ("SCENARIOID", "10"), ("V", "TRUE"), ("V", "FALSE"), ("V", ""), ("N", "3000000000"), ("N", "-2147483649"),
        ("N", "1e300"), ("X", "0.25"), ("X", "-12.5"), ("X", "007"), ("T", "abc"), ("T", "1a"), ("T", "2147483647"), ("T", "-0.000001")]
TYPES = ["UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"]
HDR = [("NCOLS", "4"), ("NROWS", "3"), ("CELLSIZE", "30"), ("XLLCENTER", "634575.5"), ("YLLCENTER", "4500000000"), ("YLLCENTER", "-30"), ("NODATA_VALUE", "-9999"), ("NODATA_VALUE", "-3.4028234663852886e+38"), ("LAYERS", "1")]


def pick(r, pool, n):
    d = {}
    for k, v in r.sample(pool, min(n, len(pool))): d[k] = v
    return d


def opts(d): return " ".join(["%d" % len(d)] + ["%s %s" % (esc(k), esc(v)) for k, v in d.items()])


def data(r, big=True): return bytes(r.choice([0, 1, 10, 32, 37, 65, 200, 255]) for _ in range(r.choice([0, 1, 2, 5, 15, 16, 17, 40] if big else [1, 3])))


class Gen:
    def __init__(self, r, stores=None):
        self.r, self.stores, self.seen, self.ops = r, stores or r.sample(STORES, r.choice([1, 1, 2, 3])), [], ["reset"]

    def st(self): return self.r.choice(self.stores)
    def mode(self): return self.r.choice([0, 0, 0, 1, 1, 2]) if self.r.random() < .5 else 0

    def sel(self):
        """a selection: nothing, what some file was stored with, part of it, or something else"""
        r = self.r
        if self.seen and r.random() < .6:
            s, n, d = r.choice(self.seen)
            k = r.sample(sorted(d), r.randint(0, len(d)))
            return n, {x: d[x] for x in k}
        return r.choice(NAMES), pick(r, OPTS, r.choice([0, 0, 1, 1, 2]))

    def put(self):
        r = self.r
        n, d = self.sel() if r.random() < .4 else (r.choice(NAMES), pick(r, OPTS, r.choice([0, 1, 2, 3])))
        s = self.st()
        if r.random() < .06: self.ops.append("put %s %d %s %s -1" % (s, self.mode(), esc(n), esc(data(r)))); return
        m = []
        for k, v in d.items():
            try: t = "d" if r.random() < .3 or abs(float(v)) > 2e9 or float(v) != int(float(v)) else r.choice("il")
            except ValueError: t = "s"
            m.append("%s %s %s" % (esc(k), t, esc(v)))
        if r.random() < .3: m.append("W %s" % r.choice(["b 1", "t 1600000000000", "n %", "i 5"]))
        self.ops.append("put %s %d %s %s %d %s" % (s, self.mode(), esc(n), esc(data(r)), len(m), " ".join(m)))
        self.ops[-1] = self.ops[-1].strip(); self.seen.append((s, n, d))

    def puta(self, typ=None):
        r = self.r
        n, d = self.sel()
        d = dict(d); d.pop("DATATYPE_OUT", None)
        x = r.random()
        if typ: d["DATATYPE_OUT"] = typ
        elif x < .3: d["DATATYPE_OUT"] = r.choice(TYPES)
        elif x < .33: d["DATATYPE_OUT"] = r.choice(["NOTYPE", "Unknown"])
        t = r.choice("fdisb"); whole = t in "isb" or d.get("DATATYPE_OUT", "").strip("U").startswith("INT")
        nv = r.choice([1, 2, 3, 9]); v = [r.randint(0, 100) + (0 if whole else r.choice([0, .5, .25])) for _ in range(nv)]
        if d.get("DATATYPE_OUT", "").startswith("U") is False and t not in "b" and r.random() < .5: v[0] = -v[0]
        h = pick(r, HDR, r.randint(0, 6)); s = self.st()
        self.ops.append("puta %s %s %s %d %s %s %s" % (s, t, esc(n), nv, " ".join("%g" % x for x in v), opts(h), opts(d)))
        if d.get("DATATYPE_OUT") not in ("NOTYPE", "Unknown"):
            d.setdefault("DATATYPE_OUT", {"f": "FLOAT", "d": "DOUBLE", "i": "INT32", "s": "INT16", "b": "UINT8"}[t]); self.seen.append((s, n, d))

    def ask(self):
        r = self.r; n, d = self.sel()
        s = r.choice(self.seen)[0] if self.seen and r.random() < .5 else self.st()
        x = r.random()
        if x < .45: self.ops.append("get %s %d %s %s" % (s, self.mode(), esc(n), opts(d)))
        elif x < .65: self.ops.append("meta %s %d %s %s" % (s, self.mode(), esc(n), opts(d)))
        elif x < .75: self.ops.append("has %s %d %s %s" % (s, self.mode(), esc(n), opts(d)))
        else: self.ops.append("names %s %d" % (s, r.choice([0, 1, 2, 3])))

    def lists(self):
        r = self.r; x = r.random()
        if x < .3: self.ops.append("dbs")
        elif x < .6: self.ops.append("colls " + r.choice(["d1", "d2", "d3"]))
        elif x < .8: self.ops.append("coll %s %s" % (r.choice(["d1", "d2", "d3"]), r.choice(["SPATIAL.files", "main", "no", "a.b.chunks", "x"])))
        else: self.ops.append("mkcoll %s %s %d" % (r.choice(["d1", "d2"]), r.choice(["main", "q.files", "q.r.chunks", "files", "x.y.files", "x.y.chunks", "z.chunks"]), r.choice([0, 0, 3, 70000])))

    def drop(self):
        n, d = self.sel()
        self.ops.append("del %s %d %s %s" % (self.st(), self.mode(), esc(n), opts(d)))


def sweep(ctx, one, n, pool=8):
    exe = ctx.build("mongo_driver", raster=True, mongo=True, extra_harness=("fake_mongoc.cpp",))
    B = []
    for k in range(8):
        L = []
        for _ in range(max(1, n // 8)): L += one()
        B.append(L)
    ctx.run_batches(exe, "GridFsTrace", B, pool=pool)


def g01(ctx):
    r = ctx.rng
    ctx.model_check("MCGridFs", "MCGridFs.cfg")

    def one():
        g = Gen(r)
        for _ in range(r.randint(6, 22)):
            x = r.random()
            (g.put if x < .22 else g.puta if x < .40 else g.drop if x < .52 else g.ask if x < .88 else g.lists)()
        return g.ops
    sweep(ctx, one, 320 * (6 if ctx.thorough else 1))


def g03(ctx):
    r = ctx.rng
    ctx.model_check("MCGridFs", "MCGridFs.cfg")
    todo = []
    # every placement of failures in the first attempts of one operation, over a store with and without the file
    for op in ("puta", "put"):
        for w in itertools.product("01", repeat=3 if op == "puta" else 1):
            for s in itertools.product("01L", repeat=3 if op == "puta" else 1):
                for rm in (("", "1", "01", "001") if op == "puta" else ("", "1")): todo.append((op, {"write": "".join(w), "save": "".join(s), "remove": rm}))
    for k in ("write", "save"):
        for c in ("1", "L") if k == "save" else ("1",):
            for n in range(1, 8): todo.append(("puta", {k: c * n}))
            todo.append(("puta", {k: c + "*"}))
    for f in ["1" * n for n in range(1, 8)] + ["1*", "01", "0101", "001", "0001", "011"]:
        for op in ("get", "meta", "has", "puta", "del"): todo.append((op, {"find": f}))
    for f in ("1", "11", "1*"): todo.append(("get", {"read": f})); todo.append(("names", {"find": f})); todo.append(("lists", {"list": f}))
    for f in ("1", "01", "001", "1*", "11"): todo.append(("del", {"remove": f}))
    if not ctx.thorough: r.shuffle(todo)
    it = iter(itertools.cycle(todo))

    def one():
        g = Gen(r, [r.choice(STORES)])
        g.stores = g.stores * 3 + [r.choice(STORES)]
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])): r.choice((g.put, g.puta))()
        for _ in range(3 if not ctx.thorough else 4):
            op, plan = next(it) if r.random() < .85 else ("mix", {k: "".join(r.choice("0001L" if k == "save" else "001") for _ in range(r.randint(1, 6))) for k in r.sample(["find", "read", "write", "save", "remove", "list"], 2)})
            for k, v in plan.items():
                if v: g.ops.append("plan %s %s" % (k, v))
            n0 = len(g.ops)
            if op in ("get", "meta", "has", "names"):
                g.ask()
                if op != "names" and g.ops[-1].split(" ")[0] != op: n, d = g.sel(); g.ops[-1] = "%s %s 0 %s %s" % (op, g.st(), esc(n), opts(d))
            elif op == "lists": g.lists()
            elif op == "del": g.drop()
            elif op == "mix": r.choice((g.put, g.puta, g.puta, g.ask, g.drop))()
            else: getattr(g, op)()
            for k in plan: g.ops.append("plan %s %%" % k)
            for _ in range(2): g.ask()
        return g.ops
    sweep(ctx, one, 400 * (5 if ctx.thorough else 1))


def g04(ctx):
    r = ctx.rng
    TX = ["", "0", "1", "-1", "12.5", "TRUE", "true", "False", "abc", "1a", "a1", "-", "+", ".", "1e5", "2147483648", "-0.0", "0.1", "yes", "n/a", " 7"]

    def stamp():
        y, mo = r.choice([1970, 1999, 2000, 2016, 2038, 2100, r.randint(1970, 2399)]), r.choice([1, 2, 2, 9, 10, 12])
        d = r.choice([1, 7, 9, 10, 28, 29 if mo == 2 and y % 4 == 0 and (y % 100 or y % 400 == 0) else 27, 30 if mo != 2 else 8])
        t = [r.choice([0, 1, 9, 10, 23]), r.choice([0, 5, 10, 59]), r.choice([0, 7, 12, 59])]
        w = r.random() < .5  # leading zeros
        s = ("%d-%02d-%02d" if w else "%d-%d-%d") % (y, mo, d)
        return s if r.random() < .4 else s + (" %02d:%02d:%02d" if w else " %d:%d:%d") % tuple(t)

    def one():
        ops = ["reset"]
        for _ in range(40):
            n = r.randint(0, 4); f = []
            for _ in range(n):
                t = r.choice("iildddsssssbtn")
                v = {"i": lambda: r.choice([0, 1, -1, 7, 2147483647, -2147483648, r.randint(-10**6, 10**6)]), "l": lambda: r.choice([0, 1, -1, 10**15, -10**12, 3000000000, r.randint(-10**9, 10**9)]),
                     "d": lambda: r.choice([0.0, 1.0, -1.0, .25, -2.5,  123456.789, -9999.0, 3.4e38, r.uniform(-1000, 1000), 0.001, 5e9]),
                     "s": lambda: r.choice(TX) if r.random() < .6 else stamp(), "b": lambda: r.choice("01"), "t": lambda: r.choice([0, 1, 999, 1000, 1500, 1600000000123, 2147483648000, 4102444800000, 5, 12, 253402300799999, r.randint(0, 10**13)]), "n": lambda: ""}[t]()
                f.append("%s %s %s" % (r.choice("abcd"), t, esc(str(v))))
            ops.append(("val %s %d %s" % (r.choice("abcd"), n, " ".join(f))).strip())
        return ops
    sweep(ctx, one, 64 * (6 if ctx.thorough else 1))
