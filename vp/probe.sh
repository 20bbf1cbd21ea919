#!/bin/bash
# probe.sh ROOT-REGEX [opt=val...]: export everything, run the matching harnesses in parallel, one line each
cd /verif
[ -n "$NOEXP" ] || { vp/exp.sh > /tmp/exp.log 2>&1 || { grep -A14 "^error" /tmp/exp.log | head -60; exit 1; }; }
python3-vt - "$@" <<'PY'
import sys,re,json,subprocess,time,os,glob
rx=sys.argv[1]; o={"time":float(os.environ.get("T","300")),"nl_s":30}
for x in sys.argv[2:]:
    k,v=x.split("=",1); o[k]=float(v)
roots=[]
for f in sorted(glob.glob("/verif/harness/src/*.rs")):
    roots+=[r for r in re.findall(r"^pub fn (h_\w+)\(\)",open(f).read(),re.M) if re.fullmatch(rx,r)]
live=[];t=time.time()
def done(r,p,f):
    tx=p.stdout.read()
    if not os.path.exists(f): print("DIED",r,tx[-600:]);return
    x=json.load(open(f));os.unlink(f)
    c=x.get("checks",{})
    print("%-10s %-28s paths %-5s %6.1fs goals %d (triv %d lin %d nl %d) reached %d%s"%(x["status"],r,x.get("paths"),x["wall_s"],sum(v[0] for v in c.values()),sum(v[1] for v in c.values()),sum(v[2] for v in c.values()),sum(v[3] for v in c.values()),len(x.get("reached",[]))," UNREACHED %s"%x["unreached"] if x.get("unreached") else ""),flush=True)
    nw=[l for l in x.get("reached",[]) if l not in x.get("witness",{})]
    if nw: print("    no witness for",nw)
    if x["status"]!="ok": print("    ",x.get("label",""),x.get("where",""),x.get("inputs",""),str(x.get("why",""))[:900],flush=True)
N=int(os.environ.get("J","8"))
while roots or live:
    while roots and len(live)<N:
        r=roots.pop(0); f="/tmp/pr.%s.json"%r
        live.append((r,subprocess.Popen(["python3-vt","/verif/vp/worker.py",os.environ.get("MIR","/verif/.build/probe.json"),r,json.dumps(o),f],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True),f))
    time.sleep(.05)
    for y in list(live):
        if y[1].poll() is not None: live.remove(y);done(*y)
print("total %.1fs"%(time.time()-t))
PY
