#!/usr/bin/env python3
"""seedcheck.py [-n] ID...: validates seeded changes in a scratch copy of /repo (applies, builds, stable tests pass,
demo 0 without and nonzero with it, changes only original lines) and runs the property's quick check against it (-n: not)."""
import json, os, re, shutil, subprocess, sys, tempfile
args = sys.argv[1:]
nocheck = "-n" in args
args = [a for a in args if a != "-n"]
root = "/verif/seeded"
if not args:
    args = sorted(os.listdir(root))
def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base.get("stable", base.get("tests", base.get("passed", []))) if isinstance(base, dict) else base)
env = "export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=readonly CGO_ENABLED=1; "
for id in args:
    d = f"{root}/{id}"
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="/tmp/seed.")
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
        repo = t + "/repo"
        # removed lines must be original
        files = re.findall(r"^--- a/(\S+)", open(d + "/patch.diff").read(), re.M)
        r = sh(f"git apply --check {d}/patch.diff && git apply --numstat {d}/patch.diff", repo)
        if r.returncode: print(id, "DOES NOT APPLY", r.stdout); continue
        orig = 0
        for f in files:
            bl = sh(f"git blame -s {f}", repo).stdout.split("\n")
            cur = open(d + "/patch.diff").read()
            part = cur[cur.index("--- a/" + f):]
            ln = None
            for l in part.split("\n")[2:]:
                m = re.match(r"@@ -(\d+)", l)
                if m: ln = int(m.group(1)); continue
                if l.startswith("diff ") or l.startswith("--- "): break
                if l.startswith("-"):
                    if bl[ln-1].startswith("^49c3b90") or bl[ln-1].startswith("49c3b90"): orig += 1
                    ln += 1
                elif l.startswith(" "): ln += 1
        if not orig: out.append("NO ORIGINAL LINE CHANGED")
        demo = t + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        # the demo runs with cwd = the copy
        r = sh(f"timeout 300 bash {demo}/demo.sh", repo)
        if r.returncode != 0: out.append("DEMO FAILS ON CLEAN TREE: " + r.stdout[-800:])
        sh(f"git apply {d}/patch.diff", repo)
        r = sh(env + "go build ./network ./x... && go vet ./network >/dev/null", repo)
        if r.returncode: out.append("BUILD: " + r.stdout[-600:])
        r = sh(f"timeout 300 bash {demo}/demo.sh", repo)
        if r.returncode == 0: out.append("DEMO PASSES WITH THE CHANGE")
        else: out.append("demo: " + r.stdout.strip().split("\n")[0][:160])
        r = sh(env + "flock /tmp/seedtest.lock go test -json -vet=off -count=1 $(go list -e ./... | grep -v '/examples$')", repo)
        fails = []
        for l in r.stdout.split("\n"):
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "fail": fails.append((e["Package"].split("tokucore/")[-1], e.get("Test")))
        if fails: out.append("TESTS FAIL: " + str(fails[:6]))
        for f in os.listdir(repo + "/examples"):
            if f.endswith(".go"):
                r = sh(env + f"go run examples/{f}", repo)
                if r.returncode: out.append("EXAMPLE FAILS " + f)
        if not nocheck:
            for p in [meta["property"]] + meta.get("also", []):
                r = sh(f"VERIF_REPO={repo} VERIF_OUT={t}/out timeout 900 /verif/check.sh {p}", "/verif")
                v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or l.startswith("  ")]
                out.append(f"{p} exit={r.returncode} " + ("CAUGHT " if r.returncode == 1 else "MISSED ") + (v[1][:160] if len(v) > 1 else r.stdout[-200:]))
    finally:
        shutil.rmtree(t)
    print(id, *("\n    " + o for o in out), flush=True)
