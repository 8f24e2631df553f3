cd /verif; . /tmp/w/env.sh
run(){ timeout 1500 /opt/venv/bin/python /tmp/w/dvrun.py $1 $2 > /tmp/w/reg/$1_$2.log 2>&1; echo "$1 $2 proved=$(grep -c '^   PROVED' /tmp/w/reg/$1_$2.log) other=$(grep '^   [A-Z]' /tmp/w/reg/$1_$2.log | grep -vc '^   PROVED') $(grep -c Traceback /tmp/w/reg/$1_$2.log)"; }
export -f run
/opt/venv/bin/python - <<'P' | xargs -P 5 -L1 bash -c 'run $0 $1'
import sys; sys.path.insert(0,'/verif')
import importlib
from dv.run import MODULES
for m in MODULES:
    try: mod=importlib.import_module('dv.'+m)
    except ModuleNotFoundError: continue
    for p in mod.UNITS: print(m,p)
P
