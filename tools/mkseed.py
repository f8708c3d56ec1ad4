#!/usr/bin/env python3
"""Development tool: mkseed.py SPEC.py  where SPEC.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, WHAT, DEMO (C++ main
   body file text), FLAGS (extra g++ flags), RASTER (bool)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(ID, PROP, EDITS, NEEDS, WHAT, DEMO, FLAGS="", RASTER=False, SRCS=None, SH=None, FILES=None, LIBS=""):
    d = os.path.join(V, "seeded", ID); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = "/tmp/mkseed"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git add -A -f; git -c user.name=a -c user.email=a@b commit -qm x" % (t, t), shell=True, check=True)
    for f, o, n in EDITS:
        p = os.path.join(t, f); s = open(p, newline="").read()
        if "\r\n" in s: o = o.replace("\n", "\r\n"); n = n.replace("\n", "\r\n")
        assert s.count(o) == 1, (ID, f, s.count(o), o)
        open(p, "w", newline="").write(s.replace(o, n))
    with open(d + "/patch.diff", "wb") as f:
        f.write(subprocess.run(["git", "diff"], cwd=t, stdout=subprocess.PIPE, check=True).stdout)
    shutil.rmtree(t)
    json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": WHAT}, open(d + "/meta.json", "w"), indent=1)
    for k, v in (FILES or {}).items(): open(os.path.join(d, k), "w").write(v)
    if DEMO:
        open(d + "/demo.cpp", "w").write(DEMO)
    srcs = SRCS if SRCS is not None else ["basic", "utils_array", "utils_filesystem", "utils_math", "utils_string", "utils_time"] + (["data_raster"] if RASTER else [])
    extra = "-DUSE_GDAL -I/usr/include/gdal" if RASTER else ""
    libs = ("-lgdal " if RASTER else "") + LIBS
    open(d + "/demo.sh", "w").write(SH or """#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
g++ -std=gnu++11 -w -O1 -fopenmp -DLINUX -DSUPPORT_OMP %s %s -I"$R" -I"$R/src" "$H/demo.cpp" %s -o "$W/demo" %s || exit 2
TZ=${TZ:-UTC} timeout 120 "$W/demo" "$W"
""" % (extra, FLAGS, " ".join('"$R/src/%s.cpp"' % s for s in srcs), libs))
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    for f in sys.argv[1:]:
        exec(open(f).read(), {"make": make})
