#!/usr/bin/env python3
"""mutsweep.py OUT.jsonl SEED PER_FILE WORKERS [FILE...]: applies random small changes (tools/gomutate) to scratch copies of
/repo; those that build are run against
the checks of the properties anchored in the file and, when none alarms, the existing tests.
Each line of OUT: {file,line,op,old,new,res: build|caught:<Cxx>|TESTS-ONLY|MISSED}."""
import json, os, random, shutil, subprocess, sys, threading, queue
out, seed, per, nw = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
VER = os.environ.get("VERIF_DIR", "/verif")
only = sys.argv[5:]
MAP = [("xbase/base58", "C01 C03"), ("xbase/bech32", "C02"), ("xbase/buffer", "C04 C05 C26"), ("xbase/hash", "C26 C12"),
 ("xbase/witness", "C05 C06 C03 C09"), ("xcore/address", "C03 C33"), ("xcore/script", "C03 C08 C09 C12 C33"),
 ("xcore/transactionbuilder", "C12 C13 C08 C33"), ("xcore/transaction", "C05 C06 C07 C09 C08 C12 C13 C33"),
 ("xcore/estimate", "C13 C12"), ("xcore/coinbuilder", "C12"), ("xcore/bip32", "C21 C23"), ("xcore/bip39", "C22 C23"), ("xcore/error", "C33"),
 ("xcrypto/hash", "C24"), ("xcrypto/merkle", "C25"), ("xcrypto/mpc_ecdsa", "C18"), ("xcrypto/mpc_schnorr", "C19"),
 ("xcrypto/scriptless", "C20"), ("xcrypto/prvkey", "C14 C15"), ("xcrypto/pubkey", "C14"), ("xcrypto/signature_ecdsa", "C15"), ("xcrypto/signature_schnorr", "C16"),
 ("xcrypto/ecdsa", "C15 C18"), ("xcrypto/schnorr", "C16"), ("xcrypto/paillier", "C17 C23 C18"), ("xcrypto/secp256k1", "C14 C15 C16 C19"), ("xcrypto/pbkdf2", "C24"),
 ("xcrypto/ripemd160", "C24"), ("xprotocol/connection", "C28"), ("xprotocol/stream", "C27 C28"), ("xprotocol/", "C26 C27"), ("xrpc", "C29"),
 ("xvm/scriptbuilder", "C11 C10"), ("xvm/scriptnum", "C11 C10"), ("xvm/scriptreader", "C11 C10"), ("xvm/", "C10 C11 C09"), ("network", "C03 C21 C27"), ("xerror", "C33 C32 C30")]
KNOWN = ",empty-stack,op-return,push-zero-byte,load-odd-hex,estimate-witness-input,estimate-output-length,estimate-change-output,estimate-multisig-input,seed-nfkd,"
env = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", CGO_ENABLED="1", GOFLAGS="-mod=readonly")
base = json.load(open("/opt/vp/BASELINE.json"))
files = only or subprocess.run("git ls-files | grep '\\.go$' | grep -v _test | grep -v examples/ | grep -v mock.go | grep -v words/", shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()
rng = random.Random(seed)
jobs = []
for f in files:
    m = json.loads(subprocess.run([os.environ.get("GOMUTATE", "/tmp/gomutate"), "/repo/" + f], stdout=subprocess.PIPE, text=True, check=True).stdout) or []
    m = [x for x in m if x["Op"] not in os.environ.get("SKIP_OPS", "").split(",")]
    rng.shuffle(m)
    jobs += [(f, x) for x in m[:per]]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["file"], d["off"], d["end"], d["new"]))
rng.shuffle(jobs)
q = queue.Queue()
for f, x in jobs:
    if (f, x["Off"], x["End"], x["New"]) not in done: q.put((f, x))
print(q.qsize(), "mutants", flush=True)
lock = threading.Lock()
def run(cmd, cwd, t=600, e=env):
    try:
        r = subprocess.run(["timeout", "-k", "5", str(t), "bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e)
        return r.returncode, r.stdout
    except Exception as ex:
        return 99, str(ex)
def worker(i):
    d = f"/tmp/mw/{i}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    repo = d + "/repo"
    while True:
        try: f, x = q.get_nowait()
        except queue.Empty: break
        p = repo + "/" + f; src = open(p, "rb").read()
        open(p, "wb").write(src[:x["Off"]] + x["New"].encode() + src[x["End"]:])
        res = ""; sig = ""
        rc, o = run("go build ./x... ./network", repo)
        if rc: res = "build"
        else:
            props = next((v for k, v in MAP if f.startswith(k)), "C31").split()
            res = "MISSED"
            for c in props:
                rc, o = run(f"VERIF_FAST={KNOWN} VERIF_REPO={repo} VERIF_OUT={d}/out {VER}/check.sh {c}", VER, 400)
                if rc == 1 or rc in (124, 137):
                    v = [l for l in o.split("\n") if l.startswith("  ")]
                    res = "caught:" + c; sig = v[0][:150] if v else o[-150:]; break
                if rc == 2: res = "HARNESS " + o[-200:]; break
            if res == "MISSED":
                rc, o = run("go test -vet=off -ldflags='-s -w' -timeout 60s $(go list ./... | grep -v /examples) 2>&1", repo, 200)
                if rc: res = "TESTS-ONLY"; sig = " ".join(l for l in o.split("\n") if l.startswith("--- FAIL"))[:200]
        open(p, "wb").write(src)
        with lock:
            open(out, "a").write(json.dumps(dict(file=f, line=x["Line"], op=x["Op"], old=x["Old"], new=x["New"], off=x["Off"], end=x["End"], res=res, sig=sig)) + "\n")
    shutil.rmtree(d)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
