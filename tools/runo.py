import sys,time
sys.path.insert(0,"/verif")
import importlib
mod,pid=sys.argv[1],sys.argv[2]
importlib.import_module("rt."+mod)
from rt import core
only=sys.argv[3].split(",") if len(sys.argv)>3 else None
for r in core.run_oracles(pid,"quick",1,300,only):
    print(pid, {k:v for k,v in r.items() if k not in("fail",)}); 
    for f in r["fail"]: print("   FAIL",f)
