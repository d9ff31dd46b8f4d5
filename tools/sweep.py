#!/usr/bin/env python3
"""sweep.py [-j N] [-d DIR] [ID...]

For each planted change, run the quick check of its property. Each run sees a
scratch copy of /repo (with the change) and of /verif mounted in a private
mount namespace, so nothing in the real /repo and /verif changes and several
runs go on at once. DIR holds <id>/patch.diff and <id>/meta.json (default
/verif/seeded). With "-a ID,ID.. " those properties' checks run instead and
must stay quiet (for changes that keep the behaviour)."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
J, SEED, ALL = 2, "/verif/seeded", None
while args and args[0].startswith("-"):
    o, v = args[0], args[1]
    args = args[2:]
    if o == "-j": J = int(v)
    if o == "-d": SEED = os.path.abspath(v)
    if o == "-a": ALL = v.split(",")
ids = args or sorted(x for x in os.listdir(SEED) if os.path.exists(f"{SEED}/{x}/patch.diff"))

def one(i):
    d = f"{SEED}/{i}"
    W = tempfile.mkdtemp(prefix="sweep.", dir="/tmp")
    out = []
    try:
        subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
        shutil.copytree("/verif", W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        if subprocess.run(["git", "-C", W + "/repo", "apply", d + "/patch.diff"]).returncode:
            return f"{i} DOES NOT APPLY"
        for p in ALL or [json.load(open(d + "/meta.json"))["property"]]:
            t = time.time()
            r = subprocess.run(["unshare", "-m", "bash", "-c",
                f"mount --bind {W}/repo /repo && mount --bind {W}/verif /verif && cd /verif && exec bash check.sh {p}"],
                capture_output=True, text=True, errors="replace")
            v = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            lines = [l for l in r.stdout.splitlines() if l.startswith(p + ": ") and "space " not in l and "states=" not in l]
            if ALL:
                s = "quiet" if r.returncode == 0 and "VIOLATION" not in r.stdout else f"ALARM rc={r.returncode} {r.stderr[-300:]}"
            else:
                s = "caught" if v else f"MISSED rc={r.returncode} {r.stderr[-300:]}"
            out.append(f"{i} {p} {s} {time.time()-t:.0f}s {(lines or [''])[0][:160]}")
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return "\n".join(out)

with ThreadPoolExecutor(J) as ex:
    for s in ex.map(one, ids):
        print(s, flush=True)
