#!/usr/bin/env python3
"""Developer tool: applies each seeded change to /repo, runs the check of its property (or the given
ones), undoes it, prints what was caught."""
import json, os, subprocess, sys, time
V="/verif"
args=[a for a in sys.argv[1:] if not a.startswith("-")]; props=[a[2:] for a in sys.argv[1:] if a.startswith("-p")]
for b in sorted(args or os.listdir(V+"/seeded")):
    d=f"{V}/seeded/{b}"; m=json.load(open(d+"/meta.json"))
    assert not subprocess.run("git -C /repo status --porcelain",shell=True,stdout=subprocess.PIPE).stdout
    subprocess.run(["git","-C","/repo","apply",d+"/patch.diff"],check=True)
    try:
        for p in (props or [m["property"]]):
            t=time.time()
            r=subprocess.run(["python3","check.py",p],cwd=V,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env={**os.environ,"VERIF_SEED":"1","VERIF_TIER":"quick"})
            o=r.stdout.decode(errors="replace")
            v=[l for l in o.splitlines() if l.startswith("VIOLATION")]
            good = r.returncode==1 and any(f"property={p} " in l for l in v)
            print(("CAUGHT" if good else "MISSED"),b,p,f"rc={r.returncode} {time.time()-t:.0f}s", flush=True)
            w=[l for l in o.splitlines() if l.strip()]
            print("    "+" | ".join(w[-3:])[:500], flush=True)
    finally:
        subprocess.run("git -C /repo checkout -q -- .",shell=True)
