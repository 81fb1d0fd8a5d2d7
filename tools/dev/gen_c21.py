import sys; sys.path.insert(0,'/verif')
from specs.setp_table import TABLE
o=[]
for fn,obj,tag,f,lo,hi,mode in TABLE:
    o.append('    S(%s, %s, %s, %s, %s, %s, %d);' % (fn, {"xcsf":"x","args":"x->cond->targs" if tag=="ArgsGPTree" else "x->cond->dargs"}.get(obj,"x->"+obj), f, "x" if obj!="args" else ("x->cond->targs" if tag=="ArgsGPTree" else "x->cond->dargs"), "-INFINITY" if lo is None else lo, "INFINITY" if hi is None else hi, {"reject":0,"always":0,"clamp":1}[mode]))
print("\n".join(o))
