"""Calendar and time: scripts for time_driver, judged by TimeTrace.tla."""
import calendar, datetime as D


def esc(s):
    return "".join("%%%02x" % b for b in s.encode("latin-1")) or "%"


ZONES = [("UTC0", 0, 0), ("AAA-5:30", 19800, 0), ("AAA8", -28800, 0), ("AAA-12", 43200, 0), ("AAA11", -39600, 0)]
DST = [("EST5EDT,M3.2.0,M11.1.0", -18000, 1), ("AAA-1BBB,M3.2.0,M11.1.0", 3600, 1),
       ("AAA-10BBB,M10.1.0,M4.1.0/3", 36000, 2), ("AAA4BBB,M10.1.0,M4.1.0/3", -14400, 2)]


def zone(z):
    return "reset %s %d %d" % (esc(z[0]), z[1], z[2])


def dim(y, m):
    return calendar.monthrange(y, m)[1]


EPOCH = D.date(1970, 1, 1).toordinal()


def interesting_days(rng, y0, y1, n):
    out = []
    for _ in range(n):
        y = rng.randint(y0, y1)
        k = rng.random()
        if k < .2: d = D.date(y, 2, rng.choice([28, 27, dim(y, 2)]))
        elif k < .35: d = D.date(y, 3, 1)
        elif k < .5: d = D.date(y, 12, rng.choice([30, 31]))
        elif k < .6: d = D.date(y, 1, 1)
        elif k < .75: m = rng.randint(1, 12); d = D.date(y, m, rng.choice([1, dim(y, m)]))
        else: m = rng.randint(1, 12); d = D.date(y, m, rng.randint(1, dim(y, m)))
        out.append(d.toordinal() - EPOCH)
    return out


def secs(rng):
    return rng.choice([0, 1, 59, 60, 3599, 3600, 86399, 43200, 86340, 82800, rng.randrange(86400), rng.randrange(86400)])


def t01(ctx):
    exe = ctx.build("time_driver")
    ctx.model_check("MCCalendar", "MCCalendarFull.cfg" if ctx.thorough else "MCCalendar.cfg", workers="4")
    batches = []
    y0, y1 = (1, 4000) if ctx.thorough else (1583, 2420)
    years = list(range(y0, y1)) + [9996, 9999, 8000, 4, 100, 400, 1]
    for c in range(8):
        s = [zone(ZONES[0])]
        for y in years[c::8]:
            s.append("leap %d" % y)
            for m in range(1, 13):
                s.append("jdmonth %d %d %d" % (y, m, dim(y, m)))
        batches.append(s)
    # the getters over instants, in every zone
    for z in ZONES + DST:
        s = [zone(z)]
        lo, hi = (1902, 2200) if z[2] == 0 else (1975, 2100)
        for d in interesting_days(ctx.rng, lo, hi, 150 if not ctx.thorough else 1500):
            s.append("cal %d %d %d" % (d, secs(ctx.rng), ctx.rng.random() < .3))
        batches.append(s)
    ctx.run_batches(exe, "TimeTrace", batches)


def t02(ctx):
    exe = ctx.build("time_driver")
    ctx.model_check("MCCalendar", workers="4")
    rng = ctx.rng
    batches = []
    for z in ZONES + DST:
        s = [zone(z)]
        lo, hi = (1902, 2300) if z[2] == 0 else (1975, 2150)
        for d in interesting_days(rng, lo, hi, 250 if not ctx.thorough else 3000):
            s.append("conv %d %d %d" % (d, secs(rng), rng.random() < .3))
        if z[2]:  # around every kind of switch, and month ends just after midnight
            for y in range(1976, 2060, 1 if ctx.thorough else 5):
                for m in range(1, 13):
                    base = D.date(y, m, 1).toordinal() - EPOCH
                    local_midnight = base * 86400 - z[1]
                    for off in (-3601, -3600, -1, 0, 1799, 3599, 3600):
                        t = local_midnight + off
                        s.append("conv %d %d 0" % (t // 86400, t % 86400))
                for m in (3, 4, 10, 11):
                    first = D.date(y, m, 1)
                    for wk in (0, 1):
                        sun = first + D.timedelta((6 - first.weekday()) % 7 + 7 * wk)
                        for hh in (0, 1, 2, 3):
                            for q in (-1, 0, 1):
                                t = (sun.toordinal() - EPOCH) * 86400 - z[1] + hh * 3600 + q
                                s.append("conv %d %d 0" % (t // 86400, t % 86400))
        for _ in range(150 if not ctx.thorough else 1500):
            d = D.date.fromordinal(interesting_days(rng, lo, hi, 1)[0] + EPOCH)
            h, mi, se = rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)])
            utc = int(rng.random() < .4)
            fmt = rng.randrange(5)
            if fmt == 0: t = "%04d%02d%02d" % (d.year, d.month, d.day)
            elif fmt == 1: t = "%04d-%02d-%02d" % (d.year, d.month, d.day)
            elif fmt == 4: t = "%d-%d-%d" % (d.year, d.month, d.day)
            else: t = "%04d-%02d-%02d %02d:%02d:%02d" % (d.year, d.month, d.day, h, mi, se)
            if fmt in (0, 1, 4): h = mi = se = 0
            s.append("parse %d %d %s %d %d %d %d %d %d" % (fmt, utc, esc(t), d.year, d.month, d.day, h, mi, se))
            s.append("ymd %d %d %d %d" % (d.year, d.month, d.day, utc))
        for bad in ("", "abc", "2000", "2000-", "2000-01", "--", "x2000-01-02", "2000/01/02"):
            for utc in (0, 1):
                for hr in (0, 1):
                    s.append("badparse %d %d %s" % (hr, utc, esc(bad)))
        batches.append(s)
    ctx.run_batches(exe, "TimeTrace", batches)


def t03(ctx):
    exe = ctx.build("time_driver")
    ctx.model_check("MCCalendar", workers="4")
    rng = ctx.rng
    batches = []
    for z in ZONES + DST:
        for rep in range(1 if not ctx.thorough else 6):
            s = []
            for _ in range(40 if not ctx.thorough else 100):
                s.append(zone(z))
                for r in (0, 1):
                    d = interesting_days(rng, 1971, 2100, 1)[0]
                    sec = secs(rng)
                    ms = rng.choice([0, 1, 999, rng.randrange(1000)])
                    if z[2] == 0 and rng.random() < .6:
                        dd = D.date.fromordinal(d + EPOCH)
                        s.append("dt_from %d %d %d %d %d %d %d %d" % (r, dd.year, dd.month, dd.day, sec // 3600, sec % 3600 // 60, sec % 60, ms))
                    else:
                        s.append("dt_file %d %d %d %d" % (r, d, sec, ms))
                if rng.random() < .3:  # registers that are equal or next to each other
                    s[-1] = s[-2].replace("dt_from 0", "dt_from 1").replace("dt_file 0", "dt_file 1")
                s.append("dt_cmp")
                for _ in range(rng.randint(2, 8)):
                    r = rng.randrange(2)
                    n = rng.choice([0, 1, 999, 1000, 1001, 60000, 3600000, 86400000, 2000000000, rng.randrange(1000), rng.randrange(10 ** 9),
                                    -1, -1000, -rng.randrange(10 ** 8)])
                    s.append("dt_move %d %d %d" % (r, rng.randrange(2), n))
                    if rng.random() < .4:
                        s.append("dt_move %d %d %d" % (r, rng.randrange(2), n))
                    if z[2] == 0 and rng.random() < .4:
                        s.append("dt_utc %d" % r)
                    if rng.random() < .5:
                        s.append("dt_cmp")
            batches.append(s)
    ctx.run_batches(exe, "TimeTrace", batches)
