"""usage: mut.py <c_module> <Cxx> <file> <defs.py>   ; defs.py: MUTS=[(label,old,new,[expect 'FAIL'|'PROVED'])]"""
import os,shutil,subprocess,sys,concurrent.futures as cf
mod,pid,defs=sys.argv[1:4]; unit=sys.argv[4:5]
ns={}; exec(open(defs).read(),ns)
if os.environ.get("SEL"): ns["MUTS"]=[m for m in ns["MUTS"] if any(m[0].startswith(s) for s in os.environ["SEL"].split(","))]
def one(k):
    label,f,old,new=ns["MUTS"][k][:4]
    b=f"/tmp/w/mr_{os.getpid()}_{k}"; shutil.copytree("/repo",b,symlinks=True,ignore=shutil.ignore_patterns(".git","docs"))
    p=f"{b}/skillmodels/{f}"; s=open(p,newline="").read()
    nl="\r\n" if "\r\n" in s else "\n"; s=s.replace("\r\n","\n")
    if old not in s: shutil.rmtree(b); return label,"PATTERN NOT FOUND",""
    s=s.replace(old,new,1); open(p,"w",newline="").write(s.replace("\n",nl))
    env=dict(os.environ,SKM_REPO=b,PYTHONPATH=b+":/verif",JAX_PLATFORMS="cpu",MPLBACKEND="Agg",PYTHONDONTWRITEBYTECODE="1",MPLCONFIGDIR="/opt/vp/mplconfig")
    r=subprocess.run(["timeout","700","/opt/venv/bin/python","/tmp/w/dvrun.py",mod,pid]+unit,cwd="/verif",env=env,capture_output=True,text=True)
    shutil.rmtree(b)
    ls=[l for l in r.stdout.splitlines() if l.startswith("   ")]
    n=sum(l.split()[0]=="PROVED" for l in ls); bad=[l.strip()[:330] for l in ls if l.split()[0]!="PROVED"]
    return label,f"proved={n} other={len(bad)}", "\n      ".join(bad[:3])+("" if ls else r.stderr[-500:])
with cf.ThreadPoolExecutor(4) as ex:
    for x in ex.map(one,range(len(ns["MUTS"]))): print(x[0],"|",x[1],"\n     ",x[2],flush=True)
