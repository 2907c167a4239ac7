#!/usr/bin/env python3
"""Makes and verifies planted bugs.

usage: seedtool.py FILE.py...   each file defines ID, PROPERTY, NEEDS, BREAKS, PKG, EDITS=[(file, old, new)], DEMO (go source), FLAGS=""
       seedtool.py verify [ID...]   re-verify what lies in seeded/
Works in a scratch copy of /repo under /tmp."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, cwd):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def tests(w):
    # the repository's own tests, in the copy
    c, o = sh(". /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./...", w)
    return c == 0, o


def verify(id):
    d = os.path.join(S, id)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh("cp -a /repo/. %s" % w, "/")
        c, o = sh("bash %s/demo.sh" % d, w)
        if c != 0:
            return "demo fails on the unchanged tree:\n" + o
        c, o = sh("git apply %s/patch.diff" % d, w)
        if c != 0:
            return "patch does not apply:\n" + o
        ok, o = tests(w)
        if not ok:
            return "tests fail:\n" + o
        c, o = sh("bash %s/demo.sh" % d, w)
        if c == 0:
            return "demo passes with the patch:\n" + o
        return None
    finally:
        shutil.rmtree(w)


def make(f):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(S, g["ID"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh("cp -a /repo/. %s" % w, "/")
        for file, old, new in g["EDITS"]:
            p = os.path.join(w, file)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (file, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        c, o = sh("gofmt -l $(git diff --name-only)", w)
        if o.strip():
            print("gofmt:", o)
        _, diff = sh("git diff", w)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(w)
    pre = os.path.join(V, "tools", "seed", g["PKG"].replace("/", "_") + "_prelude.go.txt")
    src = (open(pre).read() if os.path.exists(pre) else "") + g["DEMO"]
    open(os.path.join(d, "demo_test.go"), "w").write(src)
    sh("gofmt -w %s" % os.path.join(d, "demo_test.go"), "/")
    s = open(os.path.join(V, "tools", "seed", "demo.sh.txt")).read().replace("@PKG@", g["PKG"]).replace("@FLAGS@", g.get("FLAGS", ""))
    open(os.path.join(d, "demo.sh"), "w").write(s)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return verify(g["ID"])


bad = 0
if sys.argv[1] == "verify":
    for id in sys.argv[2:] or sorted(os.listdir(S)):
        r = verify(id)
        print(id, "ok" if r is None else r)
        bad |= r is not None
else:
    for f in sys.argv[1:]:
        r = make(f)
        print(f, "ok" if r is None else r)
        bad |= r is not None
sys.exit(bad)
