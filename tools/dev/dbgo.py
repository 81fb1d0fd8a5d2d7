"""print the goal and quantifier-free facts of the obligations whose label contains argv[4]"""
import sys;sys.path.insert(0,'/verif')
import importlib, z3
from dv import cast
import dv.verify as V
from specs import base
for m in sys.argv[1].split(','): importlib.import_module('specs.'+m)
P=cast.Program(sys.argv[2].split(','))
od=V.discharge
def d(ex,o,tm):
    if sys.argv[4] in o.label:
        print("GOAL",o.goal); 
        for t in o.hyps if hasattr(o,'hyps') else o.facts:
            s=str(t)
            if 'ForAll' not in s: print("  ",s[:300].replace('\n',' '))
        sv=z3.Solver(); sv.set("timeout",20000); sv.add([t for t in o.facts if "ForAll" not in str(t)]); sv.add(z3.Not(o.goal)); print("QF",sv.check())
        sv.set("arith.nl",False); print("QFnonl",sv.check())
        r=od(ex,o,tm); print(r[0]); sys.exit()
    return 'proved',None
V.discharge=d
V.verify(P,base.C,sys.argv[3])
