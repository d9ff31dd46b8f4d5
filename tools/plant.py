#!/usr/bin/env python3
"""plant.py ID...   turn the entries of plants/*.py into /verif/seeded/<id>/ and confirm them.

Works on a scratch copy of /repo; nothing is ever changed in /repo itself.
An entry is kept only when it builds, passes the existing tests, and its
demonstration passes without it and fails with it.
"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly")

DEMO = '''#!/bin/bash
# run with cwd /repo; exits 0 when the property holds on the demonstrated input
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
cp "$HERE"/demo.go.txt "$D/main.go"
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go"}}' "$PWD" "$D" > "$D/o.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly TMPDIR="$D"
@RACE@
go build @EXTRA@-overlay "$D/o.json" -o "$D/demo" ./zz_demo || exit 2
timeout 120 "$D/demo"
'''

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True)

# changes that touch only lines our own commits added (tools/origlines.py)
RETIRED = {"m02-expired-id", "m03-prefix-pending", "m06-int32", "s01-invert-empty", "t03-double", "t03-first-byte"}

def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "plants", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        out += ns["PLANTS"]
    return [p for p in out if p["id"] not in RETIRED]

def main():
    want = sys.argv[1:]
    W = "/tmp/plantwork"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git checkout -- . ; git clean -fdq", W)
    for p in load():
        if want and p["id"] not in want:
            continue
        if not want and os.path.exists(os.path.join(SEED, p["id"], "patch.diff")):
            continue
        bad = None
        for f, old, new in p["edits"]:
            path = os.path.join(W, f)
            s = open(path).read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} matches for {old[:60]!r}"
                break
            open(path, "w").write(s.replace(old, new))
        if not bad:
            patch = sh("git diff", W).stdout
            d = os.path.join(SEED, p["id"])
            tmp = "/tmp/plantdemo"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(tmp + "/demo.go.txt", "w").write(p["demo"].lstrip())
            race = p.get("race")
            open(tmp + "/demo.sh", "w").write(DEMO.replace("@RACE@\n", 'export GORACE="halt_on_error=1 exitcode=66"\n' if race else "").replace("@EXTRA@", "-race " if race else ""))
            b = sh("go build ./... && go vet ./...", W)
            t = sh("go test ./... 2>&1", W)
            withp = sh(f"bash {tmp}/demo.sh", W)
            sh("git checkout -- .", W)
            without = sh(f"bash {tmp}/demo.sh", W)
            if b.returncode: bad = "does not build: " + b.stderr[:600]
            elif t.returncode: bad = "existing tests fail: " + "\n".join(l for l in t.stdout.splitlines() if "FAIL" in l)[:600]
            elif without.returncode: bad = "demo fails without: " + (without.stdout + without.stderr)[:600]
            elif withp.returncode == 0: bad = "demo passes with it"
            elif withp.returncode == 2 and "zz_demo" in withp.stderr and "error" not in withp.stderr: bad = "demo does not build: " + withp.stderr[:500]
        sh("git checkout -- .", W)
        if bad:
            print("REJECTED", p["id"], bad)
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        shutil.copy(tmp + "/demo.sh", d)
        shutil.copy(tmp + "/demo.go.txt", d)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("kept", p["id"], "demo:", (withp.stdout + withp.stderr).strip().replace("\n", " | ")[:160])
    shutil.rmtree(W, ignore_errors=True)

main()
