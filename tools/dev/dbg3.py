import sys;sys.path.insert(0,'/verif')
import importlib
from dv import cast, loops, smt
from specs import base
import z3
for m in sys.argv[1].split(','): importlib.import_module('specs.'+m)
from dv.verify import verify
P=cast.Program(sys.argv[2].split(','))
sub=sys.argv[4]; want=int(sys.argv[5]); n=[0]
o=loops.prove_s
def ps(ex,facts,goal,tm):
    r=o(ex,facts,goal,tm)
    if r[0]!='proved' and sub in str(goal):
        n[0]+=1
        print(n[0],str(goal)[:100].replace('\n',' '))
        if n[0]==want:
            s=z3.SimpleSolver(); s.add(*facts); s.add(z3.Not(goal)); open('/tmp/q.smt2','w').write(s.to_smt2()); print(goal)
            import pickle; 
            globals()['F']=facts; globals()['G']=goal
            exec(open('/tmp/hook.py').read()) if len(sys.argv)>6 else None
            import os; os._exit(0)
    return r
loops.prove_s=ps
print(verify(P,base.C,sys.argv[3]).summary())
