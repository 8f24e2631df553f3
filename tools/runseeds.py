import json,os,shutil,subprocess,sys,glob,time
ids=sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
extra=[]
if ids and ids[0].startswith("--"): extra=[ids[0]]; ids=ids[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    b=f"/tmp/w/sb_{i}"; shutil.rmtree(b,ignore_errors=True); shutil.copytree("/repo",b,symlinks=True)
    m=json.load(open(f"/verif/seeded/{i}/meta.json"))
    r=subprocess.run(["git","apply",f"/verif/seeded/{i}/patch.diff"],cwd=b)
    if r.returncode: print(i,"PATCH FAILS"); continue
    t=time.time()
    r=subprocess.run(["/opt/venv/bin/python","check.py",m["property"],"--tier","quick"]+extra,cwd="/verif",env=dict(os.environ,SKM_REPO=b),capture_output=True,text=True)
    v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    e=json.load(open(f"/verif/evidence/{m['property']}.json"))
    print(i,m["property"],"exit",r.returncode,"CAUGHT" if r.returncode==1 and v else "MISSED",v[:1],f"{time.time()-t:.0f}s",flush=True)
    shutil.rmtree(b)
