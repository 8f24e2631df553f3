"""mkseed.py [ids...]: build /verif/seeded entries from /tmp/w/seeds/defs*.py"""
import glob, importlib.util, json, os, shutil, subprocess, sys
BUG="/tmp/w/bug"
defs=[]
for f in sorted(glob.glob("/tmp/w/seeds/defs*.py")):
    s=importlib.util.spec_from_file_location("d",f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); defs+=m.SEEDS
want=sys.argv[1:]
ENV=dict(os.environ,PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0",JAX_PLATFORMS="cpu",MPLBACKEND="Agg",MPLCONFIGDIR="/opt/vp/mplconfig")
base=json.load(open("/opt/vp/BASELINE.json"))
for d in defs:
    if want and d["id"] not in want: continue
    if not want and os.path.exists(f"/verif/seeded/{d['id']}"): continue
    if os.path.exists(BUG): shutil.rmtree(BUG)
    shutil.copytree("/repo",BUG,symlinks=True)
    ok=True
    for fn,old,new in d["edits"]:
        p=f"{BUG}/skillmodels/{fn}"; t=open(p,newline="").read()
        if "\r\n" in t: old=old.replace("\n","\r\n"); new=new.replace("\n","\r\n")
        if t.count(old)!=1: print(d["id"],"EDIT NOT UNIQUE",fn,t.count(old),repr(old)); ok=False; break
        open(p,"w",newline="").write(t.replace(old,new))
    if not ok: continue
    diff=subprocess.run(["git","diff"],cwd=BUG,capture_output=True).stdout
    # touches lines of the original?
    out=f"/tmp/w/seeds/out/{d['id']}"; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+"/patch.diff","wb").write(diff)
    shutil.copy("/tmp/w/seeds/common.py",out); shutil.copy("/tmp/w/seeds/demo.sh",out); os.chmod(out+"/demo.sh",0o755)
    open(out+"/demo.py","w").write(d["demo"].lstrip("\n"))
    json.dump({"property":d["property"],"needs":d["needs"],"what_it_breaks":d["breaks"]},open(out+"/meta.json","w"),indent=1)
    def demo(cwd):
        e=dict(ENV); e.pop("PYTHONPATH",None)
        r=subprocess.run([out+"/demo.sh"],cwd=cwd,env=e,capture_output=True,text=True); return r.returncode,(r.stdout+r.stderr)[-600:]
    a,la=demo("/repo"); b,lb=demo(BUG)
    if a!=0 or b==0:
        print(d["id"],"DEMO BAD clean",a,"bug",b,"\n",la,"\n---\n",lb); continue
    r=subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-n","8","-p","no:cacheprovider","--timeout=300","-x"],cwd=BUG,env=dict(ENV,PYTHONPATH=BUG),capture_output=True,text=True)
    tail=r.stdout.strip().splitlines()[-6:]
    if r.returncode!=0:
        print(d["id"],"TESTS FAIL","\n".join(tail)); continue
    dst=f"/verif/seeded/{d['id']}"; shutil.rmtree(dst,ignore_errors=True); shutil.copytree(out,dst)
    print(d["id"],"kept;",(lb.strip().splitlines() or ["-"])[-1][:150],flush=True)
