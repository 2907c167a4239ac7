#!/usr/bin/env python3
"""mut.py FILE [NAME...]: tries the edits of FILE against the simulator (development aid).

FILE defines MUTS = [(name, "PROP PROP", [(path, old, new), ...]), ...]."""
import os, shutil, subprocess, sys, tempfile, glob, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check
ns = {}
exec(open(sys.argv[1]).read(), ns)
secs = os.environ.get("SECS", "20")
env = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"], GOFLAGS="-mod=readonly", GOPROXY="off", GOMAXPROCS="8")
subprocess.run(["go", "build", "-o", "/tmp/zzrw", "."], cwd=V + "/tools/zzrw", env=env, check=True)
for name, props, edits in ns["MUTS"]:
    if len(sys.argv) > 2 and name not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        r = w + "/r"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        bad = False
        for path, old, new in edits:
            s = open(r + "/" + path).read()
            if s.count(old) != 1:
                print(name, "EDIT MATCHES", s.count(old), repr(old[:60]))
                bad = True
                break
            open(r + "/" + path, "w").write(s.replace(old, new))
        if bad:
            continue
        t = subprocess.run(["go", "test", "./..."], cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tests = "tests pass" if "FAIL" not in t.stdout else "TESTS FAIL " + t.stdout[:300]
        cs = [["/tmp/zzrw", "-repo", r, "-sim", V + "/sim", "-out", w + "/ov"], ["go", "build", "-overlay", w + "/ov/overlay.json", "-o", w + "/h", "./zzsim/harness"]]
        if "C13" in props.split():
            cs.append(["go", "build", "-race"] + ["-gcflags=github.com/dblokhin/gringo/zzsim/%s=-race=false" % p for p in check.NORACE] + ["-gcflags=%s=-race=false" % p for p in check.QUIET] + ["-overlay", w + "/ov/overlay.json", "-o", w + "/hr", "./zzsim/harness"])
        for c in cs:
            x = subprocess.run(c, cwd=r, env=dict(env, GOEXPERIMENT="nosizespecializedmalloc") if "-race" in c else env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if x.returncode:
                print(name, "BUILD", x.stdout[:500])
                bad = True
                break
        if bad:
            continue
        for p in props.split():
            ps = []
            for i in range(8):
                d = "%s/%s%d" % (w, p, i)
                os.makedirs(d)
                ps.append((d, subprocess.Popen([w + ("/hr" if p == "C13" else "/h"), "worker", "-prop", p, "-dir", d, "-seed", str((1 << 24) + 1 + i), "-stride", "8", "-secs", secs], env=dict(env, GOMAXPROCS="1", VERIF_RACELOG=d + "/race", GORACE="log_path=%s/race halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 atexit_sleep_ms=0 exitcode=0" % d), stdout=open(d + "/out", "w"), stderr=subprocess.STDOUT)))
            hits, runs = [], 0
            for d, q in ps:
                c = q.wait()
                try:
                    runs += json.load(open(d + "/agg.json"))["Runs"]
                except Exception:
                    pass
                if c == 10:
                    h = json.load(open(d + "/hit.json"))
                    hits.append(h)
                elif c:
                    hits.append({"Kind": "EXIT %d" % c, "Msg": open(d + "/out").read()[-200:] + (open(d + "/trouble.json").read()[:300] if os.path.exists(d + "/trouble.json") else "")})
            print("%-28s %s: %s; %d/8 workers hit within %d runs; %s; %s" % (name, p, "CAUGHT" if hits else "missed", len(hits), runs, sorted({h["Kind"] for h in hits}), hits[0]["Msg"][:160] if hits else ""), tests, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
