#!/usr/bin/env python3
"""Developer helper: make and verify planted bugs.
usage: seed.py make ID FILE <<< "old\n====\nnew"   -> writes seeded/ID/patch.diff (append to an existing one with 'add')
       seed.py verify ID...    build + stable tests + demo with and without the patch, in a scratch copy
       seed.py check ID...     run the property's quick check against a scratch copy with the patch"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tree(d):
    """make d equal to /repo, rewriting only files whose content differs (so that ninja notices both directions)"""
    os.makedirs(d, exist_ok=True)
    want = {}
    for top in ("include", "src", "test", "sample", "project", "CMakeLists.txt"):
        p = "/repo/" + top
        if os.path.isfile(p): want[top] = p
        for r, _, fs in os.walk(p):
            for f in fs: want[os.path.relpath(os.path.join(r, f), "/repo")] = os.path.join(r, f)
    for top in ("include", "src", "test", "sample", "project"):
        for r, _, fs in os.walk(os.path.join(d, top)):
            for f in fs:
                if os.path.relpath(os.path.join(r, f), d) not in want: os.unlink(os.path.join(r, f))
    for k, p in want.items():
        q = os.path.join(d, k); b = open(p, "rb").read()
        if not os.path.exists(q) or open(q, "rb").read() != b:
            os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "wb").write(b)
cmd, args = sys.argv[1], sys.argv[2:]
if cmd in ("make", "add"):
    sid, f = args
    old, new = sys.stdin.read().split("\n====\n")
    new = new.rstrip("\n"); old = old.strip("\n") if not old.startswith(" ") else old.rstrip("\n")
    d = "/tmp/seed/mk"; shutil.rmtree(d, ignore_errors=True)
    for x in "ab": sh("mkdir -p %s/%s; cp -a /repo/include /repo/src %s/%s" % (d, x, d, x))
    p = os.path.join(V, sid); os.makedirs(p, exist_ok=True)
    if cmd == "add": print(sh("cd %s/b && patch -p1 < %s/patch.diff" % (d, p)).stdout)
    t = open(os.path.join(d, "b", f)).read()
    assert t.count(old) == 1, "pattern occurs %d times" % t.count(old)
    open(os.path.join(d, "b", f), "w").write(t.replace(old, new))
    open(os.path.join(p, "patch.diff"), "w").write(sh("cd %s && diff -ru a b | sed -E \"s,^(---|\\+\\+\\+) ([ab]/[^[:space:]]*).*,\\1 \\2,; /^diff -ru/d\"" % d).stdout)
    shutil.rmtree(d)
    print(open(os.path.join(p, "patch.diff")).read())
elif cmd == "verify":
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
    d = "/tmp/seed/tree"
    for sid in args:
        p = os.path.join(V, sid); res = []
        for patched in (False, True):
            tree(d)
            if patched:
                r = sh("cd %s && patch -p1 < %s/patch.diff" % (d, p))
                if r.returncode: print(sid, "PATCH FAILS", r.stdout); break
            b = d + "/_build"
            if not os.path.exists(b + "/build.ninja"):
                sh("cmake -S /opt/vp/cmake -B %s -G Ninja -DR=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo" % (b, d))
            r = sh("ninja -C %s -j8" % b)
            if r.returncode: print(sid, "BUILD FAILS", r.stdout[-1500:]); break
            if patched:
                sh("python3 /opt/vp/run_tests.py %s %s %s/vp-results.txt; python3 /opt/vp/results.py /tmp/seed/out.json lines:%s/vp-results.txt" % (d, b, b, b))
                o = json.load(open("/tmp/seed/out.json"))
                res.append("tests %d passed, failed %s" % (len(o["passed"]), o["failed"]))
            q = tempfile.mkdtemp(dir="/tmp/seed"); sh("cp -a %s/. %s; rm -f %s/*.diff %s/meta.json" % (p, q, q, q))
            try:
                r = sh("bash %s/demo.sh" % q, cwd=d, timeout=300); rc = r.returncode
            except subprocess.TimeoutExpired: rc = "timeout"
            res.append("demo %s: rc=%s %s" % ("patched" if patched else "clean", rc, r.stdout[-200:].strip().replace("\n", " | ")))
            shutil.rmtree(q)
        print(sid, "; ".join(res), flush=True)
elif cmd == "check":
    d = "/tmp/seed/chk"
    for sid in args:
        p = os.path.join(V, sid); pr = json.load(open(p + "/meta.json"))["property"]
        tree(d); sh("cd %s && patch -p1 < %s/patch.diff" % (d, p))
        r = sh("./check " + pr, cwd="/verif", env=dict(os.environ, VF_REPO=d, VF_EVID="/tmp/seed/ev"))
        v = [l for l in r.stdout.splitlines() if l.startswith("property ")]
        print(sid, pr, "rc", r.returncode, (v[0] if v else r.stdout[-400:])[:260], flush=True)
