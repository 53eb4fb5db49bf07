import json,os,subprocess,sys,shutil,time,random
w=int(sys.argv[1]); cpu=int(sys.argv[2]); n=int(sys.argv[3])
W=f"/tmp/mut/w{w}"
muts=json.load(open("/tmp/muts.json"))
random.Random(7).shuffle(muts)
muts=[m for m in muts if not (m["file"]=="src/common/signal.rs" and m["line"]%20)]
if not os.path.exists(W):
    os.makedirs(W)
    subprocess.run(f"cp -a /repo {W}/repo && rm -rf {W}/repo/target && mkdir -p {W}/verif && cp -a /verif/mc {W}/verif/ && cp /verif/known_findings.txt {W}/verif/",shell=True,check=True)
    p=f"{W}/verif/mc/Cargo.toml"; s=open(p).read()
    s=s.replace("incremental = false","incremental = true").replace("opt-level = 2","opt-level = 1").replace("codegen-units = 16","codegen-units = 256")
    open(p,"w").write(s)
ALL=[f"C{i:02}" for i in range(1,36)]
def order(f):
    first=[]
    b=os.path.basename(f)
    def m(*ks): return any(k in f for k in ks)
    if "gdbstub_arch" in f: return ["C30","C31"]
    if m("tracepoints","QT","qT","_qTBuffer"): first=["C27","C28","C21","C20"]
    elif m("extended_mode","vRun","vAttach","vKill","QEnv","QSet","QStartup","QDisable","lists"): first=["C24"]
    elif m("host_io","vFile"): first=["C23"]
    elif m("resume","vCont","reverse"): first=["C16","C15","C18"]
    elif m("breakpoint"): first=["C17","C20"]
    elif m("lldb","offsets","qOffsets","RegisterInfo"): first=["C29"]
    elif m("auxv","qXfer","xml","memory_map","exec_file","libraries","qxfer"): first=["C22"]
    elif m("catch_sys","CatchSys"): first=["C26"]
    elif m("monitor","qRcmd","console"): first=["C25"]
    elif m("single_reg","_p"): first=["C13","C21"]
    elif m("thread"): first=["C19","C14"]
    elif m("conn/"): first=["C33","C34"]
    elif m("internal","hex"): first=["C32","C11","C12"]
    elif m("response_writer"): first=["C03","C04","C32"]
    elif m("recv_packet","packet.rs"): first=["C02","C01"]
    elif m("base.rs","_m","_x","_g"): first=["C10","C11","C12","C20","C14","C19"]
    elif m("builder","managed"): first=["C35","C02"]
    elif m("state_machine","stub/mod"): first=["C05","C06","C07"]
    elif m("error.rs"): first=["C08","C09"]
    elif m("commands.rs"): first=["C21"]
    elif m("core_impl.rs"): first=["C04","C05","C09"]
    elif m("target/mod"): first=["C34","C20"]
    rest=[c for c in ["C21","C09","C01","C05","C34","C20","C02","C03"]+ALL if c not in first]
    out=[]
    for c in first+rest:
        if c not in out: out.append(c)
    return out
env=dict(os.environ,MC_CAP_S="60",CARGO_NET_OFFLINE="true")
for i in range(w,len(muts),n):
    m=muts[i]
    if os.path.exists("/tmp/mut/stop"): break
    p=f"{W}/repo/{m['file']}"
    src=open(f"/tmp/mut/base/{m['file']}").read().split("\n")
    if src[m["line"]-1]!=m["old"]: continue
    src[m["line"]-1]=m["new"]
    open(p,"w").write("\n".join(src))
    t0=time.time(); res=None
    try:
        b=subprocess.run(["taskset","-c",str(cpu),"cargo","build","--release","--offline","--target-dir",f"{W}/verif/target"],cwd=f"{W}/verif/mc",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if b.returncode: res="nocompile"
        else:
            for c in order(m["file"]):
                try:
                    k=subprocess.run(["taskset","-c",str(cpu),f"{W}/verif/target/release/mc","run",c,"quick"],cwd=f"{W}/verif",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=200)
                except subprocess.TimeoutExpired:
                    continue
                if k.returncode==1: res="caught "+c; break
                if k.returncode not in (0,): res=f"rc{k.returncode} {c}"; break
            else: res="SURVIVED"
    finally:
        open(p,"w").write(open(f"/tmp/mut/base/{m['file']}").read())
    with open(f"/tmp/mut/log{w}","a") as o:
        o.write(json.dumps([i,res,round(time.time()-t0),m["file"],m["line"],m["kind"],m["old"].strip(),m["new"].strip()])+"\n")
