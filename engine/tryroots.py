import sys,time,traceback
import frontend
from an import *
import stream
d=load(["roots","grib"])["roots"]
names=sys.argv[1:] or [f["path"].split("::")[1] for f in d["fns"] if f["path"].startswith("vp_roots::") and f["path"].count("::")==1 and not f["path"].startswith("vp_roots::ext")]
for n in names:
    a=An("roots",hooks=dict(stream.EXT))
    a.it.max_steps=60000
    t=time.time()
    try:
        o=a.run(n)
        print(n,"OK",len(o),"outs",round(time.time()-t,2),"unmod",sorted(a.it.unmodelled)[:6], "bad", [(k) for k,v in a.it.obl.items() if v["bad"]])
        if len(sys.argv)>1:
            for s,v in o[:30]: print("   ",repr(v)[:600]); print("      conds",str(s.conds)[:400])
    except Exception as e:
        print(n,"FAIL",type(e).__name__,str(e)[:200],round(time.time()-t,2))
        print("    stack",getattr(e,"stk",[])[-5:])
        if len(sys.argv)>1 or not isinstance(e,Undecided): traceback.print_exc(limit=-4)
