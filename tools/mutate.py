#!/usr/bin/env python3
"""Developer helper: apply one textual change to a scratch copy of /repo and run checks on it.
usage: mutate.py FILE  with lines of python: M(name, file, old, new, [properties], nth=0)"""
import os, shutil, subprocess, sys, time
MUTS = []
def M(name, f, old, new, props, nth=0): MUTS.append((name, f, old, new, props, nth))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
for name, f, old, new, props, nth in MUTS:
    if only and name not in only: continue
    d = "/tmp/mut/tree"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("include", "src", "CMakeLists.txt"):
        subprocess.run(["cp", "-a", "/repo/" + x, d])
    p = os.path.join(d, f)
    t = open(p).read()
    if old not in t: print(name, "PATTERN NOT FOUND"); continue
    i = -1
    for _ in range(nth + 1): i = t.index(old, i + 1)
    t = t[:i] + new + t[i + len(old):]
    open(p, "w").write(t)
    for pr in props:
        t0 = time.time()
        r = subprocess.run(["./check", pr], cwd=os.environ.get("VF_DIR","/verif"), env=dict(os.environ, VF_REPO=d, VF_EVID="/tmp/mut/ev"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("property ")]
        print("%-28s %s rc=%d %.0fs %s" % (name, pr, r.returncode, time.time() - t0, (v[0] if v else r.stdout[-300:])[:330]), flush=True)
shutil.rmtree("/tmp/mut/tree", ignore_errors=True)
