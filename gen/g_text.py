"""Texts, numbers in texts, IP addresses: scripts for text_driver, judged by TextTrace.tla."""
import itertools


def esc(s):
    if s == "": return "%"
    return "".join("%%%02x" % ord(c) for c in s)


def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k): yield "".join(t)


def chunks(ops, k=8):
    n = (len(ops) + k - 1) // k
    return [["reset"] + ops[i:i + n] for i in range(0, len(ops), n)]


def run(ctx, ops, model=None):
    if model:
        ctx.model_check("MCText", model)
    exe = ctx.build("text_driver")
    ctx.run_batches(exe, "TextTrace", chunks(ops), pool=8)


def s01(ctx):
    r = ctx.rng
    ops = []
    for s in words("a, \t", 5 if not ctx.thorough else 6): ops.append("split %2c " + esc(s)); ops.append("words " + esc(s)); ops.append("trim " + esc(s))
    for s in words("a \n\r\t", 4): ops.append("trim " + esc(s)); ops.append("words " + esc(s))
    for _ in range(1500 * (4 if ctx.thorough else 1)):
        s = "".join(r.choice("aB1#,;.-|\t\n\r \v\f\x80\xc4\0") for _ in range(r.randint(0, 14)))
        ops.append("split %s %s" % (esc(r.choice(",;.-|\t\n a")), esc(s)))
        ops.append("words " + esc(s)); ops.append("trim " + esc(s))
    r.shuffle(ops)
    run(ctx, ops, "MCText.cfg")


LIMS = [0, 1, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 5, 2**53, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 1, 10**19, 10**20, 10**30]


def num_text(r):
    x = r.random()
    if x < .3: s = str(r.choice(LIMS) + r.choice([0, 0, -1, 1]))
    elif x < .5: s = str(r.randint(0, 10 ** r.randint(1, 15)))
    else:
        w = "".join(r.choice("0123456789") for _ in range(r.randint(0, 6))); f = "".join(r.choice("0123456789") for _ in range(r.randint(0, 6)))
        s = w + r.choice([".", ".", "", ",", ".."]) + f
        if r.random() < .35: s += r.choice(["e", "E", "e+", "e-", "E-", "e ", "ee"]) + "".join(r.choice("0123456789") for _ in range(r.randint(0, 3)))
    s = r.choice(["", "", "", "-", "-", "+", "--", " ", " -", "- "]) + s
    if r.random() < .15: s += r.choice([" ", "\t", "a", ".", "-", "0", "f"])
    if r.random() < .1: s = r.choice(["nan", "NaN", "inf", "-inf", "INF", "+Infinity", "infinit", "na", "nanx", "-nan", " inf", "inf "])
    return s


def s02(ctx):
    r = ctx.rng
    ops = []
    for s in words("01-+. e", 4): ops.append("int " + esc(s)); ops.append("dbl " + esc(s))
    if ctx.thorough:
        for s in words("09-.e", 6): ops.append("dbl " + esc(s))
    for n in LIMS:
        for d in (-1, 0, 1):
            for sg in ("", "-", "+", "0", "-0", " "):
                for suf in ("", " ", ".", "0"): ops.append("int " + esc(sg + str(abs(n + d)) + suf))
            for v in (n + d, -(n + d)):
                if -2**63 <= v < 2**64: ops.append("fmt " + esc(str(v)))
    for _ in range(1200 * (4 if ctx.thorough else 1)):
        s = num_text(r); ops.append("int " + esc(s)); ops.append("dbl " + esc(s))
        ops.append("fmt " + esc(str(r.choice([1, -1, 1]) * r.randint(0, 2**r.choice([8, 16, 31, 32, 62, 63])))))
        w = str(r.randint(0, 10 ** r.randint(0, 9))); f = "".join(r.choice("0123456789") for _ in range(r.randint(0, min(6, 15 - len(w))))).rstrip("0")
        t = w + ("." + f if f else "")
        if t != "0": t = r.choice(["", "-"]) + t
        ops.append("ftoa " + esc(t))
        d = r.choice(",;| ")
        k = r.randint(0, 4)
        L = []
        for _ in range(k):
            x = r.random()
            if x < .75:
                w = str(r.randint(0, 9999)) + (".%d" % r.randint(0, 999) if r.random() < .4 else "") + (r.choice(["e1", "E-2", "e3"]) if r.random() < .2 else "")
                L.append(r.choice(["", "-", "+", " "]) .replace(" ", " " if d != " " else "") + w + (r.choice([" ", "\t"]) if r.random() < .1 and d != " " else ""))
            else: L.append(r.choice(["", "a", "1a", "a1", "-", "1-2", "1.2.3", "abc", " ", "3 4", "0x", ".", "e5", "1e"]))
        ops.append("vals %s %s" % (esc(d), esc(d.join(L))))
    r.shuffle(ops)
    run(ctx, ops, "MCTextNum.cfg")


def s03(ctx):
    r = ctx.rng
    ops = []
    W = list(words("aAzZ_", 2)) + ["@`", "[{", "Kk1", "ab", "aB", "ABC", "abc", "ABCd", "\xe4", "\xc4", "\0", "a\0", "a\0b", "A\0c", "A\0B", "\0a"]
    for s in W:
        ops.append("upper " + esc(s))
        for t in W: ops.append("match %s %s" % (esc(s), esc(t)))
    for c in range(256): ops.append("upper %%%02x" % c); ops.append("match %%%02x %%%02x" % (c, c ^ 32)) if c != 32 else None
    for _ in range(600 * (5 if ctx.thorough else 1)):
        s = "".join(chr(r.randint(0 if r.random() < .3 else 1, 255)) if r.random() < .9 else "\0" for _ in range(r.randint(0, 8)))
        t = "".join(r.choice([c, c.upper() if ord(c) < 128 else c, c.lower() if ord(c) < 128 else c]) for c in s)
        if r.random() < .3 and t: t = t[:-1] + chr(r.randint(1, 255))
        ops.append("match %s %s" % (esc(s), esc(t))); ops.append("upper " + esc(s))
    r.shuffle(ops)
    K = ["a", "A", "SRS", "srs", "DATATYPE", "", "k 1"]
    for _ in range(500):
        if r.random() < .6: ops.append("put %s %s" % (esc(r.choice(K)), esc(r.choice(["", "x", "Y", "y"]))))
        else: ops.append(" ".join(["copy"] + [esc(r.choice(K if i % 2 == 0 else ["", "v", "W"])) for i in range(2 * r.randint(0, 4))]))
    run(ctx, ops)


def b01(ctx):
    r = ctx.rng
    F = ["", "0", "00", "000", "0000", "1", "01", "25", "099", "255", "256", "300", "999", "1000", "a", " 1", "1 ", "-1", "+1", "4294967296", "4294967297", "1.1", "2e1", "0x1"]
    ops = ["ip " + esc(s) for s in words("1.", 9 if not ctx.thorough else 12)]
    for k in range(4):
        for f in F:
            for g in F:
                q = ["192", "168", "0", "1"]; q[k] = f; q[(k + 1) % 4] = g if r.random() < .5 else q[(k + 1) % 4]
                ops.append("ip " + esc(".".join(q)))
    for _ in range(2500):
        s = r.choice([".", ".", ".", "..", ",", ". "]).join(r.choice(F) if r.random() < .3 else str(r.randint(0, 270)) for _ in range(r.choice([3, 4, 4, 4, 4, 5])))
        if r.random() < .2: s = r.choice(["", " ", ".", "x"]) + s + r.choice(["", " ", ".", "\n", "x", ".0"])
        ops.append("ip " + esc(s))
    r.shuffle(ops)
    run(ctx, ops, "MCTextIp.cfg")
