"""Development run of one concurrent leg."""
import sys, os, time, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mt
def go(spec, harness, cst, pre, per, num=0, bound=2, mx=2000, rnd=20, races=False, args=(), extra=None, sym=True, show=3):
    t=time.time()
    exe = vf.build(harness, flags=mt.TSAN, harness=[harness+".cpp","mtrt.cpp"])
    s = extra if extra is not None else mt.programs(spec, cst, pre, per, num, 1, sym)
    t1=time.time()
    res = mt.run(exe, s, dict(bound=bound, max=mx, random=rnd, seed=1, races=races), args)
    names, tr = mt.flatten(s, res)
    t2=time.time()
    print("programs", len(s), "%.1fs"%(t1-t), "execs", sum(r["execs"] for r in res if r), "full", sum(bool(r and r["full"]) for r in res), "histories", len(tr), "%.1fs"%(t2-t1), "missing", sum(r is None for r in res))
    rej, nn, st = vf.validate(spec, cst, tr, tmpl=mt.TRACE)
    print("validate: rejected", len(rej), "nodes", nn, st, "%.1fs"%(time.time()-t2))
    rej.sort(key=lambda ij: ij[1])
    for i,j in rej[:show]:
        print("REJ", names[i])
        for e in tr[i][max(0,j-14):j+1]: print("   ", e)
        print("   SPEC", vf.explain(spec, cst, tr[i][:j+1], tmpl=mt.TRACE)[:900])
    vf.cleanup()
    return res
