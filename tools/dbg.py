import sys,traceback
sys.path.insert(0,'/verif')
import dv.lib
from dv import c_filter as c
from dv.unit import Unit
import importlib
mod,fn=sys.argv[1],sys.argv[2]
m=importlib.import_module('dv.'+mod)
u=Unit('X',fn)
try: getattr(m,fn)(u)
except Exception: traceback.print_exc()
for o in u.obls.values(): print('  ',o.status,o.name,o.detail[:600])
