#!/usr/bin/env python3
"""Lists planted changes that touch only lines which /repo's own fix commits added."""
import os,re,subprocess
BASE="ba4ea92"
for i in sorted(os.listdir("/verif/seeded")):
    t=open(f"/verif/seeded/{i}/patch.diff").read()
    f=None; ok=False; rem=False
    for l in t.splitlines():
        if l.startswith("--- a/"):
            f=l[6:]
            base=subprocess.run(["git","-C","/repo","show",f"{BASE}:{f}"],capture_output=True,text=True).stdout
            cur=open("/repo/"+f).read().splitlines()
            bl=subprocess.check_output(["git","-C","/repo","blame","-s",f],text=True).splitlines()
            orig=[b.startswith("^") for b in bl]
        elif l.startswith("@@"):
            n=int(re.match(r"@@ -(\d+)",l).group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            rem=True
            if orig[n-1] and l[1:].strip(): ok=True
            n+=1
        elif f and l.startswith(" "):
            n+=1
    if rem and not ok: print(i, "changes only lines of our own commits")
