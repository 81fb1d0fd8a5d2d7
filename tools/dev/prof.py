import sys,time;sys.path.insert(0,'/verif')
import importlib, faulthandler
from dv import cast
mods=sys.argv[1].split(',')
from specs import base
for m in mods: importlib.import_module('specs.'+m)
from dv import smt, verify, loops, engine
files=sys.argv[2].split(',')
P=cast.Program(files)
oh=loops.houdini
def hh(ex,S0,H,cands,*a,**k):
    t=time.time(); r=oh(ex,S0,H,cands,*a,**k)
    print('houdini %d->%d %.1fs'%(len(cands),len(r),time.time()-t),[c.name for c in r if 'frame' not in c.name and 'footp' not in c.name],'LOST',[c.name for c in cands if c not in r and 'frame' not in c.name],flush=True); return r
loops.houdini=hh
ops=loops.prove_s
def ps(ex,facts,goal,tm):
    t=time.time(); r=ops(ex,facts,goal,tm); 
    if time.time()-t>0.3: print('   q',r[0],'%.1f'%(time.time()-t),str(goal)[:300].replace('\n',' '),flush=True)
    return r
loops.prove_s=ps
od=verify.discharge
def dd(ex,o,tm):
    t=time.time(); r=od(ex,o,tm); print('obl',o.label,o.line,r[0],'%.1f'%(time.time()-t),flush=True); return r
verify.discharge=dd
faulthandler.dump_traceback_later(int(sys.argv[4]) if len(sys.argv)>4 else 60,exit=True)
r=verify.verify(P,base.C,sys.argv[3])
print(r.summary())
for l in r.loops: print('  loop',l)
