import sys;sys.path.insert(0,'/verif'); sys.argv=sys.argv
import importlib
from dv import cast, loops, smt
from specs import base
import z3
for m in sys.argv[1].split(','): importlib.import_module('specs.'+m)
from dv.verify import verify
P=cast.Program(sys.argv[2].split(','))
pat=sys.argv[4]
o0=loops.prove_s
def o(facts,goal,tm,w=False): return o0(EXX[0],facts,goal,tm)
EXX=[None]
cur={}
oh=loops.houdini
def houdini(ex,S0,H,cands,it,cond,body,inc,dw,tm,old=0):
    for i,c in enumerate(cands):
        if pat in c.name:
            f=c.f
            def g(s,k,f=f,c=c):
                r=f(s,k)
                if r is not None: cur[base.conj(r,goal=True).get_id()]=c.name
                cur['last']=c.name
                return r
            c.f=g
    return oh(ex,S0,H,cands,it,cond,body,inc,dw,tm,old)
loops.houdini=houdini
def prove(ex,facts,goal,tm,want_model=False):
    EXX[0]=ex; nm=cur.pop('last',None)
    r=o(facts,goal,tm,False) if nm else o(facts,goal,tm,want_model)
    if nm and r[0]!='proved':
        open('/tmp/q.smt2','w').write((lambda s:(s.add(*facts),s.add(z3.Not(goal)),s.to_smt2())[2])(z3.Solver()));print('CAND',nm,r[0]); print(' goal',goal); print(' model',r[1])
    return r
loops.prove_s=prove
r=verify(P,base.C,sys.argv[3]); print(r.summary())
