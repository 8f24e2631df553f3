import resource; resource.setrlimit(resource.RLIMIT_AS,(10<<30,10<<30))
import sys,time,importlib
sys.path.insert(0,'/verif')
mod,pid=sys.argv[1],sys.argv[2]
only=sys.argv[3] if len(sys.argv)>3 else None
m=importlib.import_module('dv.'+mod)
from dv.unit import Unit
import dv.lib
for fn,f in m.UNITS[pid]:
    if only and only not in f.__name__ and only not in fn: continue
    t=time.time()
    u=Unit(pid,fn)
    u.guard(f, f.__name__)
    print(f"== {fn} {f.__name__} {time.time()-t:.1f}s exec={sorted(u.executed)[:8]} vac={u.vacuous}")
    for o in u.obls.values():
        print('  ',o.status,o.name,sorted(o.backend),o.parts,f"{o.time:.1f}s",o.detail[:1200] if o.status!='PROVED' else '')
