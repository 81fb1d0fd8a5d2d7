import sys,time;sys.path.insert(0,'/verif')
import importlib
from dv import cast,pool
mods=sys.argv[1].split(',')
from specs import base
for m in mods: importlib.import_module('specs.'+m)
from dv.verify import verify
files=sys.argv[2].split(',')
names=[a for a in sys.argv[3:] if not a.startswith('-')]
verb='-v' in sys.argv
unroll=None
for a in sys.argv: 
    if a.startswith('-u'): unroll=int(a[2:])
P=cast.Program(files, [] if "--seq" in sys.argv else None) if "--seq" in sys.argv else cast.Program(files)
if not names: names=[n for n in base.C if not base.C[n].trusted and P.func(n)[0] is not None]
def go(n):
    r=verify(P,base.C,n,unroll=unroll); r.model=str(getattr(r,'model',None)); return r
def show(k,res):
    if res[0]!='ok': print(k,res,flush=True); return
    r=res[1]
    print(r.summary(),flush=True)
    if r.status!='proved' or verb:
        for o in r.obls:
            if o[2]!='proved' or verb: print('   ',o)
        for l in r.loops: print('   loop',l)
        if verb and getattr(r,'model',None): print(r.model)
pool.run(names,go,cap=100,on_done=show)
