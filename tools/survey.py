#!/usr/bin/env python3
"""survey.py BIN [regex] [budget] [modes]: explores every scenario briefly and prints what happened (development aid)."""
import sys,json,subprocess,re
from concurrent.futures import ThreadPoolExecutor
b=sys.argv[1]; rx=re.compile(sys.argv[2] if len(sys.argv)>2 else "."); bud=sys.argv[3] if len(sys.argv)>3 else "3"
modes=(sys.argv[4] if len(sys.argv)>4 else "dev,dpor").split(",")
S=[json.loads(l) for l in subprocess.run([b,"-list"],stdout=subprocess.PIPE,text=True).stdout.splitlines()]
J=[(s,m) for s in S if rx.search(s["name"]) for m in modes]
def go(j):
    s,m=j
    k="4" if m in("dev","dpor","delay") else m[3:]
    cmd=[b,"-run",s["name"],"-mode",m if m in("dpor","delay") else "dev","-k",k or "4","-budget",bud]
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    try: d=json.loads(p.stdout.splitlines()[-1])
    except Exception: return f"{s['name']:32} {m} CRASH rc={p.returncode} {p.stderr[-1500:]}"
    v=d["violation"]
    r=f"{s['name']:32} {m:5} qk={s['qk']} execs={d['execs']:8} kdone={d['k_done']} depth={d['max_choices']} g={d['max_goroutines']} out={d['n_outcomes']} {'COMPLETE' if d['complete'] else ''} {d['secs']:.1f}s {d['internal']}"
    if v: r+="\n   VIOL "+v["msg"]+f" devs={v['deviations']}\n     "+"\n     ".join(((v["events"] or [])[-14:]+(v["stacks"] or []))[:26])
    return r
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(go,J): print(r,flush=True)
