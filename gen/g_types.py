"""Element and file types: scripts for types_driver, judged by TypeTrace.tla."""
from g_time import esc
INTS = {"UINT8": (0, 255), "INT8": (-128, 127), "UINT16": (0, 65535), "INT16": (-32768, 32767), "UINT32": (0, 2**32 - 1), "INT32": (-2**31, 2**31 - 1),
        "UINT64": (0, 2**64 - 1), "INT64": (-2**63, 2**63 - 1)}
TYPES = list(INTS) + ["FLOAT", "DOUBLE"]
OUT = ["", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE", "char", "uChar", "gdt_int32", "GDT_Float32", "float", "nosuch"]
NAMES = ["UINT8", "uint8", "UCHAR", "uChar", "GDT_Byte", "gdt_byte", "INT8", "Int8", "CHAR", "char", "GDT_Int8", "UINT16", "UInt16", "GDT_UInt16", "GDT_UINT16",
         "INT16", "int16", "GDT_Int16", "UINT32", "uint32", "GDT_UInt32", "INT32", "int32", "GDT_Int32", "gdt_int32", "UINT64", "uint64", "GDT_UInt64", "INT64", "Int64", "GDT_Int64",
         "FLOAT", "float", "Float", "GDT_Float32", "DOUBLE", "double", "GDT_Float64", "GDT_FLOAT64", "", "Unknown", "INT", "UINT", "INT 8", "FLOAT32", "GDT_Unknown", "BYTE", "INT128", "INT88"]


def exact(x, t):
    """can the element type hold the number exactly (floats: with all quarters, at most 24 bits)?"""
    if t in INTS: return x == int(x) and INTS[t][0] <= x <= INTS[t][1]
    import struct
    if x == 3.4028234663852886e38 or x == -3.4028234663852886e38: return True
    if abs(x) > 1e30: return t == "DOUBLE"
    y = struct.unpack("f", struct.pack("f", float(x)))[0]
    return y == x


def pool(t, rng):
    """values at the limits of every type that an element of type t can hold"""
    c = [0, 1, -1, 2, 7, 100, -9999]
    for lo, hi in INTS.values():
        for b in (lo, hi):
            c += [b - 1, b, b + 1] if abs(b) < 2**50 else [b]       # next to these, doubles have no numbers
    if t not in INTS:
        c += [.5, -.5, .25, -.25, 255.5, 254.75, -128.5, -127.5, 127.5, 65535.5, -32768.5, -9999.5, 3.4028234663852886e38, -3.4028234663852886e38]
        if t == "DOUBLE": c += [1e39, -1e39, 1e300 if False else -1e40]
    return [x for x in c if exact(x, t)]


def txt(x):
    return repr(x) if isinstance(x, float) else str(x)


def dec(x):
    return str(int(x)) if x == int(x) and abs(x) > 1e15 else txt(x)


def around(t, out, rng):
    """mostly values that the output type holds"""
    p = pool(t, rng)
    lo, hi = INTS.get(out.upper(), (None, None))
    if out in ("FLOAT", "DOUBLE"): p = [x for x in p if exact(x, out) or (x in (2**31 - 1, 2**32 - 1, 2**63 - 1, 2**64 - 1) or abs(x) > 1e30)]   # rounded as Rnd says
    inside = [x for x in p if lo is None or lo <= x <= hi]
    return p, inside or p


def shape(rng):
    return rng.choice([(1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3)])


def script(rng, n):
    s = ["reset"]
    for k in range(n):
        if k % 40 == 39: s.append("reset")
        f = "f%d.tif" % rng.randint(0, 5)
        x = rng.random()
        if x < .7:
            t = rng.choice(TYPES)
            o = rng.choice(OUT)
            canon = {"CHAR": "INT8", "UCHAR": "UINT8", "GDT_INT32": "INT32", "GDT_FLOAT32": "FLOAT"}.get(o.upper(), o.upper())
            p, inside = around(t, canon, rng)
            nod = rng.choice([q for q in (p if rng.random() < .5 else inside) if q != 2**63 - 1 or t == o == 'INT64'])
            r, c = shape(rng)
            pn = rng.choice([0, .3, .3, 1])
            v = [nod if rng.random() < pn else rng.choice(inside) for _ in range(r * c)]
            for _ in range(rng.choice([0, 0, 0, 0, 0, 0, 1, 1, 2, 4])): v[rng.randrange(r * c)] = rng.choice(p)
            s.append("gt %s %s %s %d %d %d %d %d %d %s %s" % (t, f, esc(o), r, c, rng.randint(-9, 9) * 4, rng.randint(-9, 9) * 4, rng.choice([8, 4, 24]),
                                                          rng.randint(0, 1) if any(q != nod for q in v) else 0, dec(nod), " ".join(map(dec, v))))
        else:
            t = rng.choice(TYPES)
            p = [q for q in pool(t, rng) if abs(q) < 1e38]
            nod = rng.choice(p)
            r, c = shape(rng)
            pn = rng.choice([0, .3, 1])
            low = [q for q in p if abs(q) < 128]
            v = [nod if rng.random() < pn else rng.choice(low if rng.random() < .4 else p) for _ in range(r * c)]
            s.append("raw %s %s %d %d %d %s %s" % (t, f, r, c, rng.randint(0, 1), dec(nod), " ".join(map(dec, v))))
        for _ in range(rng.randint(1, 2)):
            s.append("rd %s %s %d" % (rng.choice(["DOUBLE", "DOUBLE", t, rng.choice(TYPES)]), f, rng.randint(0, 1)))
    return s


def r14(ctx):
    exe = ctx.build("types_driver", raster=True)
    n = 8 * (6 if ctx.thorough else 1)
    ctx.run_batches(exe, "TypeTrace", [script(ctx.rng, 250) for _ in range(n)], pool=8)


def r16(ctx):
    exe = ctx.build("types_driver", raster=True)
    r = ctx.rng
    s = ["reset", "cpp"] + ["code %d" % c for c in range(-2, 16)]
    for nm in NAMES: s.append("name %s" % esc(nm))
    for _ in range(400):
        o = []
        for _ in range(r.randint(0, 3)): o += [esc(r.choice(["DATATYPE_OUT", "DATATYPE_OUT", "DATATYPE", "SRS", "datatype_out", "LAYERS"])), esc(r.choice(NAMES[:39] + ["nosuch"]))]
        s.append("opts " + " ".join(o) if o else "opts")
    ctx.run_batches(exe, "TypeTrace", [s, script(r, 150), script(r, 150)], pool=4)
