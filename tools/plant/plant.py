#!/usr/bin/env python3
"""plant.py seeds.py [ids...]: builds, verifies and stores planted bugs"""
import sys, os, subprocess, json, shutil, runpy, time
R="/repo"; V="/verif"; K="/tmp/kit"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
seeds=runpy.run_path(sys.argv[1])["SEEDS"]
want=sys.argv[2:]
base=set(json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
for s in seeds:
    if want and s["id"] not in want: continue
    assert not sh("git -C /repo status --porcelain").stdout, "dirty"
    d=f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.unlink(f"{d}/{f}")
    open(d+"/demo.sh","w").write(open(K+"/demo.sh").read().replace('features = ["std"]','features = '+json.dumps(["std"]+s.get("features",[]))))
    if not s.get("alone"):
        for f in ("drv.rs","target.rs"): shutil.copy(f"{K}/{f}", d)
        open(d+"/main.rs","w").write(open(K+"/head.rs").read()+s["demo"].lstrip("\n"))
    else: open(d+"/main.rs","w").write(s["demo"].lstrip("\n"))
    try:
        r=sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode!=0: print(s["id"],"DEMO FAILS CLEAN",r.returncode,r.stdout[-1500:]); continue
        for file,old,new in s["edits"]:
            p=f"{R}/{file}"; t=open(p).read()
            assert t.count(old)==1, (s["id"],file,t.count(old),old)
            open(p,"w").write(t.replace(old,new))
        diff=sh("git -C /repo diff").stdout
        open(d+"/patch.diff","w").write(diff)
        json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
        b=sh("bash /opt/vp/build.sh")
        if b.returncode: print(s["id"],"BUILD FAILS",b.stdout[-1500:]); continue
        t=sh("bash /opt/vp/test.sh /tmp/seed.json")
        res=json.load(open("/tmp/seed.json"))
        fails=[x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in res["passed"]]
        r=sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode not in (1,101,124,134): print(s["id"],"DEMO RC",r.returncode,r.stdout[-800:])
        t0=time.time()
        out=[]
        for c in [s["prop"]]+s.get("also",[]):
            k=sh(f"timeout 900 ./check.sh {c} quick", cwd=V)
            v=[l for l in k.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{c}:rc={k.returncode}{' CAUGHT' if v else ' ----MISSED'}")
            if k.returncode not in(0,1): out.append(k.stdout[-500:])

        print(s["id"], "tests:", t.stdout.strip().splitlines()[-1:] , fails[:3], "demo:",r.returncode, r.stdout.strip()[:160], "|", " ".join(out), f"{time.time()-t0:.0f}s", flush=True)
    finally: clean()
