#!/usr/bin/env python3
"""Development tool: confirm planted bugs in a scratch copy of /repo and see which checks catch them.
   seedcheck.py [--tests] [--checks P1,P2|own|none] [--thorough] ID..."""
import json, os, re, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
tests = False; checks = "own"; tier = "quick"; ids = []
while a:
    x = a.pop(0)
    if x == "--tests": tests = True
    elif x == "--checks": checks = a.pop(0)
    elif x == "--thorough": tier = "thorough"
    else: ids.append(x)
ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
base = "/tmp/seedcheck"
os.makedirs(base, exist_ok=True)
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    rep = os.path.join(base, i)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % rep, shell=True, check=True)
    res = {"id": i, "property": meta["property"]}
    demo = "/tmp/seedcheck/%s.demo" % i
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    env = dict(os.environ, VERIF_REPO=rep)
    r = subprocess.run(["bash", demo + "/demo.sh"], cwd=rep, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    r = subprocess.run("git apply --unsafe-paths --directory=%s %s/patch.diff" % (rep, d), shell=True, cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(i, "PATCH FAILS", r.stdout); continue
    r = subprocess.run(["bash", demo + "/demo.sh"], cwd=rep, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    res["demo_bug"] = r.returncode
    if tests:
        com = open("/opt/vp/common.sh").read().replace("REPO=/repo", "REPO=" + rep)
        open(base + "/common-%s.sh" % i, "w").write(com)
        t = open("/opt/vp/test.sh").read().replace(". /opt/vp/common.sh", ". %s/common-%s.sh" % (base, i))
        open(base + "/test-%s.sh" % i, "w").write(t)
        o = base + "/out-%s.json" % i
        r = subprocess.run(["bash", base + "/test-%s.sh" % i, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        j = json.load(open(o)); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        res["tests_missing"] = sorted(st - set(j["passed"]))[:5]
    shutil.rmtree(rep + "/_build", ignore_errors=True)
    cs = [meta["property"]] if checks == "own" else [] if checks == "none" else checks.split(",")
    for c in cs:
        if not c: continue
        r = subprocess.run([sys.executable, V + "/check.py", c, "--tier", tier], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"VIOLATED: (.*)", r.stdout)
        res["check_" + c] = r.returncode
        if m: res["why_" + c] = m.group(1)[:300]
        elif r.returncode not in (0, 1): print(r.stdout[-1500:])
    print(json.dumps(res), flush=True)
    shutil.rmtree(rep, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
