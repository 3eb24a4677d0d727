#!/bin/bash
# one line per violation class, for development
cd /verif; python3 tools/simbuild.py >/dev/null || exit 1
for p in ${1:-failover deadline bootstrap crash cli cache}; do
 echo "== $p"
 for w in 0 1 2 3 4 5 6 7; do
 timeout 300 .build/rdapsim run -root /tmp/simA$w -profiles $p -seed ${3:-1} -worker $w -workers 8 -secs ${2:-10} > /tmp/tri.$w 2>&1 &
 done; wait
 cat /tmp/tri.? | python3 -c '
import sys,json
seen={};n=0
for l in sys.stdin:
    try: d=json.loads(l)
    except Exception:
        print(l.rstrip()[:300]); continue
    if d["t"]=="viol":
        k=(d["class"],tuple(d["props"])); seen.setdefault(k,[0,d]); seen[k][0]+=1
    elif d["t"]=="diverged": print("DIVERGED",d)
    elif d["t"]=="done": n+=d["stats"]["runs"]; print("runs",d["stats"]["runs"],"rechecks",d["rechecks"],"div",d["diverged"]) if d["diverged"] else 0
print("total runs",n)
for k,(c,d) in sorted(seen.items(),key=lambda x:-x[1][0]): print(c,k,d["seed"],d["msg"][:400])
'
done
