"""Developer helper: ./tools/dev.py <harness> <spec> gen|sim|design ... (not used by checks)"""
import sys, os, time, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
def run(spec, harness, cst, vcst, n, sim=0, args=(), flags=None, show=1, seed=1, opt="-O1"):
    t=time.time()
    if sim: s=vf.gen_simulate(spec,cst,n,sim,seed); st=None
    else: s,st=vf.gen_exhaustive(spec,cst,n)
    print("gen",len(s),st,"%.1fs"%(time.time()-t)); t=time.time()
    exe=vf.build(harness,flags=vf.SAN if flags is None else flags,opt=opt)
    s=list(dict.fromkeys(vf.script_text(x) for x in s))
    t=time.time()
    tr=vf.run_driver(exe,s,args=args)
    print("run %.1fs events %d missing %d"%(time.time()-t,sum(len(x or ()) for x in tr),sum(x is None for x in tr))); t=time.time()
    rej,nn,st=vf.validate(spec,vcst,tr)
    print("validate",len(rej),nn,st,"%.1fs"%(time.time()-t))
    rej.sort(key=lambda ij:ij[1])
    for i,j in rej[:show]:
        print("SCRIPT",s[i]); 
        for e in tr[i][max(0,j-2):j+1]: print("   ",e[:230])
        
        import re
        x=vf.explain(spec,vcst,tr[i][:j+1]); x=re.sub(r'\s+',' ',x)
        for d in ('k |-> "", ','p |-> 0, ','ph |-> "", ','l |-> <<>>, ','rc |-> 0, ','ex |-> <<>>, ','hold |-> {}, ','m |-> 0, ','lst |-> FALSE, ','set |-> {}, ','now |-> <<0, 0>> '): x=x.replace(d,'')
        print("    SPEC",x[:900])
    return s,tr,rej
