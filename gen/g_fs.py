"""File system functions: scripts for fs_driver, judged by FsTrace.tla."""
from g_text import esc

NAMES = ["a", "b", "a b", "x.tif", "y.TIF", "z.asc", "dir.d", "n", ".hid", ".tif", "v.tif.bak", "tif", "-f", "*", "c\xe4", "w.", "a.b.c", "data.tiff", "#x", "%s%n.txt"]
TEXTS = ["", "x", "a\nb\n", "a\r\n\r\n# c\r\n b \t\r\n", "\n\n#\n # d\n", "1 2\n#no\n3\n", "last\n\n  end", "\t# t\nx#y\n", "\r", "a\rb\n", "a\n\n\nb", " #\nq"]


class Gen:
    """Keeps a tree only to aim the operations; what they must do is decided by the specification."""
    def __init__(self, r, faults=True, links=True):
        self.r, self.faults, self.links, self.t, self.ops = r, faults, links, {}, ["reset"]

    def dirs(self): return [()] + [p for p in self.t if self.t[p] == 0]

    def any(self): return list(self.t) or [()]

    def grow(self, n):
        r = self.r
        for _ in range(n):
            d = r.choice(self.dirs())
            if len(d) > 3: continue
            p = d + (r.choice(NAMES),)
            if p in self.t: continue
            k = r.choice([0, 0, 1, 1, 1, 2] if self.links else [0, 0, 1, 1])
            c = ""
            if k == 1: c = r.choice(TEXTS)
            if k == 2:
                c = self.text(r.choice(self.any())) if r.random() < .6 else r.choice([r.choice(NAMES), "../" + r.choice(NAMES), "missing", "/R/" + r.choice(NAMES), "../missing/x.tif", "."])
            self.t[p] = k
            m = 7
            if k == 1 and self.faults and r.random() < .12: m = 0
            self.ops.append("node %s %d %d %s" % (esc("/".join(p)), k, m, esc(c)))

    def text(self, p):
        """a text that names p"""
        r = self.r
        s = "/R/" + "/".join(p) if p else "/R"
        # with closed directories "." and ".." in a path are left out: the kernel and realpath differ on them
        x = r.random()
        if x < .45 or self.faults and x > .75: pass
        elif x < .75: s = "/".join(p) if p else "."
        elif x < .9:
            cs = list(p)
            out = []
            for i, c in enumerate(cs):
                if r.random() < .3: out.append(".")
                if r.random() < .15: out.append("")
                if r.random() < .2 and i and self.t.get(p[:i]) == 0: out += ["..", cs[i - 1]]
                out.append(c)
            s = r.choice(["/R/", "./"]) + "/".join(out)
        else: s = "/R/./" + "/".join(p)
        if self.t.get(p, 0 if p == () else 1) == 0 and r.random() < .15: s += r.choice(["/", "//"] if self.faults else ["/", "/.", "//"])
        return s

    def aim(self, kinds=(0, 1, 2), miss=.2):
        r = self.r
        c = [p for p in self.t if self.t[p] in kinds]
        if not c or r.random() < miss: return self.text(r.choice(self.dirs()) + (r.choice(NAMES + ["missing", "new"]),))
        return self.text(r.choice(c))

    def shut(self):
        """make some directories unwritable or closed"""
        for p in sorted([q for q in self.t if self.t[q] == 0], key=len, reverse=True):
            if self.r.random() < .22: self.ops.append("chmod %s %d" % (esc("/".join(p)), self.r.choice([5, 5, 0])))


def sweep(ctx, one, n, pool=8, per=1):
    exe = ctx.build("fs_driver")
    B = []
    for k in range(8):
        L = []
        for _ in range(n // 8): L += one(k)
        B.append(L)
    ctx.run_batches(exe, "FsTrace", B, pool=pool)


SUFF = ["tif", ".tif", "*.tif", "TIF", "*.Tif", "*.asc", "*.*", ".*", "bak", "*.bak", "d", "txt", "*", "tiff", "*.ti", "*.tif.bak", "c", "hid"]


def pathtext(r):
    n = r.randint(1, 4)
    s = "/".join(r.choice(["a", "b.c", "x.tif", "no", "dir.d", ".h", "..x", "a b", "t.", "s.t.u", "", "w", "7.z", "x.tif.tif", "x.tif_1.tif", "a.b.b.c.b", "t..", "q.q"]) for _ in range(n))
    return r.choice(["", "", "/", "/R/", "./", "../q/", "zz/"]) + s


def f01(ctx):
    r = ctx.rng
    ctx.model_check("MCFs", "MCFsNames%s.cfg" % ("Big" if ctx.thorough else ""))

    def one(k):
        g = Gen(r, faults=False)
        g.grow(r.randint(0, 9))
        for _ in range(12):
            x = r.random()
            if x < .75:
                s = pathtext(r) if r.random() < .6 else g.aim()
                g.ops.append("path %s %s %d %s" % (esc(s), esc(r.choice(["", "asc", "x.y", "a b", "tif", "_"])), r.choice([0, 7, -3, 12, 2147483647]), esc(r.choice("_-. "))))
            elif x < .97:
                g.ops.append("concat %s %s %s" % (esc(g.aim((0,)) if r.random() < .5 else r.choice(["", "/", "q", "q/", "/zz", "zz/.", "a//"])), esc(r.choice(["core", "a.b", "", "x y", ".h"])), esc(r.choice(["", "tif", "x.y"]))))
            else: g.ops.append("app")
        return g.ops
    sweep(ctx, one, 240 * (5 if ctx.thorough else 1))


def f02(ctx):
    r = ctx.rng
    ctx.model_check("MCFs", "MCFsTree%s.cfg" % ("Big" if ctx.thorough else ""))

    def one(k):
        g = Gen(r, faults=r.random() < .5)
        g.grow(r.randint(1, 14))
        if g.faults: g.shut()
        for _ in range(r.randint(2, 6)):
            x = r.random()
            if x < .22: g.ops.append("mkdir " + esc(g.aim(miss=.6)))
            elif x < .42: g.ops.append("clean " + esc(g.aim((0, 0, 2), miss=.25)))
            elif x < .62: g.ops.append("delete " + esc(g.aim((0, 0, 2), miss=.1)))
            elif x < .70: g.ops.append("flat " + esc(g.aim((0,), miss=.1)))
            elif x < .82:
                s = g.aim((1, 2), miss=.2)
                g.ops.append("unlink " + esc(s)) if not s.endswith("/") else None
            elif x < .92: g.ops.append("exist " + esc(g.aim()))
            else: g.ops.append(" ".join(["all"] + [esc(g.aim(miss=.05)) for _ in range(r.randint(0, 3))]))
        if r.random() < .08: g.ops.append(r.choice(["delete", "clean"]) + " " + esc(r.choice(["/R", ".", "/R/."])))
        return g.ops
    sweep(ctx, one, 360 * (5 if ctx.thorough else 1))


def f03(ctx):
    r = ctx.rng
    ctx.model_check("MCFs", "MCFsFind%s.cfg" % ("Big" if ctx.thorough else ""))

    def one(k):
        g = Gen(r, faults=r.random() < .5)
        g.grow(r.randint(2, 16))
        if g.faults and r.random() < .4: g.shut()
        for _ in range(6):
            if r.random() < .55: g.ops.append("find %s %s" % (esc(g.aim((0, 0, 2), miss=.1) if r.random() < .7 else r.choice(["/R", "."])), esc(r.choice(SUFF))))
            else: g.ops.append("load " + esc(g.aim((1, 1, 1, 2, 0), miss=.1)))
        if r.random() < .3:
            p = "f%d" % r.randint(0, 9)
            g.ops.append("node %s 1 7 %s" % (esc(p), esc("".join(r.choice("ab# \t\r\n\n1;") for _ in range(r.randint(0, 30))))))
            g.ops.append("load " + esc(p))
        return g.ops
    sweep(ctx, one, 360 * (5 if ctx.thorough else 1))
