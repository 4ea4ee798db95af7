import concurrent.futures as cf, sys
import vf, props

jobs = {}
for pid, fn in props.TABLE.items():
    for l in fn("quick"):
        for kw in l.builds():
            jobs[repr(sorted(kw.items(), key=str))] = kw
with cf.ThreadPoolExecutor(4) as ex:
    for f in [ex.submit(vf.build, **kw) for kw in jobs.values()]:
        f.result()
print("built %d harnesses" % len(jobs))
