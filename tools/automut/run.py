#!/usr/bin/env python3
"""run.py MUTS.jsonl OUT.jsonl: builds every mutant and looks for one it survives (development aid)."""
import json, os, shutil, subprocess, sys, threading, queue, random
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = int(os.environ.get("W", "7")); N = os.environ.get("N", "100")
env = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"], GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOMAXPROCS="2", GOCACHE="/tmp/aw/cache")
P2P = "C05 C06 C15 C16 C04 C03 C14 C10 C08 C07 C02 C09 C01".split()
def props(f):
    if f.startswith("p2p"): return P2P
    if f.startswith("chain"): return "C12 C11 C17".split()
    if f.startswith("cuckoo"): return ["C11", "C17"]
    if "difficulty" in f or "network" in f or f.endswith("consensus.go"): return "C11 C17 C12".split()
    return "C15 C11 C05 C17 C16 C01 C12".split()
os.makedirs("/tmp/aw", exist_ok=True)
done = set()
if os.path.exists(sys.argv[2]):
    done = {json.loads(l)["ID"] for l in open(sys.argv[2])}
q = queue.Queue()
ms = [json.loads(l) for l in open(sys.argv[1])]
random.Random(1).shuffle(ms)
for m in ms:
    if m["ID"] not in done: q.put(m)
out = open(sys.argv[2], "a"); lock = threading.Lock()
def sh(c, cwd, t):
    try:
        x = subprocess.run(c, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
        return x.returncode, x.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ""
def work(i):
    w = "/tmp/aw/%d" % i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/r"], check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = w + "/r/" + m["File"]
        orig = open("/repo/" + m["File"], "rb").read()
        src = orig[:m["From"]] + m["New"].encode() + orig[m["To"]:]
        if b"falseMut" in src: src += b"\nvar falseMut bool\n"
        open(p, "wb").write(src)
        res = "?"
        rc, o = sh(["go", "build", "./..."], w + "/r", 300)
        if rc: res = "nocompile"
        else:
            rc, o = sh(["/tmp/zzrw", "-repo", w + "/r", "-sim", os.environ.get("SIM", V + "/sim"), "-out", w + "/ov"], w + "/r", 60)
            if rc == 0: rc, o = sh(["go", "build", "-ldflags=-s -w", "-overlay", w + "/ov/overlay.json", "-o", w + "/h", "./zzsim/harness"], w + "/r", 300)
            if rc: res = "BUILDFAIL " + o[:300]
            else:
                res = "SURVIVED"
                for pr in props(m["File"]):
                    rc, o = sh(["timeout", "-k", "1", "90", w + "/h", "one", "-prop", pr, "-seed", "5000", "-n", N], w, 100)
                    l = [x for x in o.splitlines() if x.startswith("seed")]
                    if l: res = "caught %s %s" % (pr, l[0][:160]); break
                    if rc: res = "caught? %s rc=%d %s" % (pr, rc, o[-200:]); break
                if res == "SURVIVED":
                    rc, o = sh(["go", "test", "-vet=off", "./..."], w + "/r", 300)
                    if "FAIL" in o: res = "SURVIVED-testsfail"
        open(p, "wb").write(orig)
        m["res"] = res
        with lock:
            out.write(json.dumps(m) + "\n"); out.flush()
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
