#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

usage: check.py PROPERTY [quick|thorough]      run the check
       check.py replay FILE                    replay a violation
       check.py setup                          build everything once
       check.py selftest [N]                   determinism self-test of the simulator

Exit 0: the property held on everything explored. Exit 1: violation (a line
"VIOLATION property=<id> replay=<path>" is printed). Exit 2: no answer.
"""
import json, os, resource, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WORKERS = 8
QUICK_S = float(os.environ.get("VERIF_QUICK_S", "85"))
THOROUGH_S = float(os.environ.get("VERIF_THOROUGH_S", "600"))
STUCK_S = 150          # a run without an end for this long is stuck
AS_LIMIT = 8 << 30     # address space of a worker (not in race builds)



def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOENV="off", GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on", GOPROXY="off",
             GOFLAGS="-mod=readonly", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


# Compiled without the race detector: the simulator itself, and two pure
# arithmetic libraries that would only slow the runs down.
QUIET = ["github.com/btcsuite/btcd/btcec", "github.com/yoss22/bulletproofs"]
NORACE = ["zzrt", "znet", "zsync", "ztime", "zctx", "zcrand", "zmrand", "zmrand2", "zbp", "ref", "harness"]


def build(dir, race=False):
    """Rewrites the current tree and builds the simulator around it."""
    env = goenv()
    os.makedirs(dir, exist_ok=True)
    zz = os.path.join(dir, "zzrw")
    h = os.path.join(dir, "harness-race" if race else "harness")

    def run(args, cwd):
        r = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("build failed: %s\n%s" % (" ".join(args), r.stdout[-6000:]))

    run(["go", "build", "-o", zz, "."], os.path.join(VERIF, "tools", "zzrw"))
    ov = os.path.join(dir, "ov")
    run([zz, "-repo", REPO, "-sim", os.path.join(VERIF, "sim"), "-out", ov], REPO)
    cmd = ["go", "build"]
    if race:
        # Packages compiled without the detector would otherwise allocate behind its back.
        env["GOEXPERIMENT"] = "nosizespecializedmalloc"
        cmd.append("-race")
        cmd += ["-gcflags=github.com/dblokhin/gringo/zzsim/%s=-race=false" % p for p in NORACE] + ["-gcflags=%s=-race=false" % p for p in QUIET]
    run(cmd + ["-overlay", os.path.join(ov, "overlay.json"), "-o", h, "./zzsim/harness"], REPO)
    return h


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def spawn(h, args, race, dir=None, out=None):
    env = goenv()
    env["GOMAXPROCS"] = "1"
    env["GOTRACEBACK"] = "single"
    if race:
        env["GORACE"] = "log_path=%s halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 atexit_sleep_ms=0 exitcode=0" % os.path.join(dir, "race")
        env["VERIF_RACELOG"] = os.path.join(dir, "race")
    return subprocess.Popen([h] + args, env=env, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT,
                            preexec_fn=None if race else limit, cwd=dir or BUILD)


def finish(p, timeout):
    """Waits for a process; returns (code, output)."""
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, (o or b"").decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        p.kill()
        o, _ = p.communicate()
        return "timeout", (o or b"").decode("utf-8", "replace")


DEATH = {"timeout": "stuck"}


def died(code):
    """Whether a harness process ended in a way the harness never ends in."""
    return code == "timeout" or code not in (0, 10, 11, 12)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.race = prop == "C13"
        self.dir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        self.t0 = time.time()
        self.rep = os.path.join(VERIF, "replays")

    def base(self):
        # seeds of different VERIF_SEEDs do not overlap
        return (self.seed << 24) + 1

    def run(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        try:
            return self.go()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def go(self):
        self.h = build(self.dir, self.race)
        self.build_s = time.time() - self.t0
        secs = QUICK_S if self.tier == "quick" else THOROUGH_S
        ws = []
        for i in range(WORKERS):
            d = os.path.join(self.dir, "w%d" % i)
            os.makedirs(d)
            out = open(os.path.join(d, "out"), "wb")
            p = spawn(self.h, ["worker", "-prop", self.prop, "-dir", d, "-seed", str(self.base() + i), "-stride", str(WORKERS), "-secs", str(secs)], self.race, d, out)
            ws.append({"p": p, "d": d, "seen": None, "at": time.time(), "done": False})
        hit = trouble = dead = None
        while True:
            live = 0
            for w in ws:
                if w["done"]:
                    continue
                c = w["p"].poll()
                if c is None:
                    live += 1
                    cur = self.current(w)
                    if cur != w["seen"]:
                        w["seen"], w["at"] = cur, time.time()
                    elif time.time() - w["at"] > STUCK_S:
                        w["p"].kill()
                        w["p"].wait()
                        w["done"] = True
                        dead = dead or (cur, "stuck")
                    continue
                w["done"] = True
                if c == 10:
                    hit = hit or json.load(open(os.path.join(w["d"], "hit.json")))
                elif c == 11:
                    trouble = trouble or self.tail(w)
                elif c != 0:
                    dead = dead or (self.current(w), "died (%s)\n%s" % (c, self.tail(w)))
            if hit or dead or trouble or not live:
                break
            time.sleep(0.05)
        for w in ws:
            if not w["done"]:
                w["p"].kill()
                w["p"].wait()
        code = 0
        self.violation = None
        if hit:
            code = self.report(hit)
        elif dead:
            code = self.report_dead(*dead)
        elif trouble:
            die("the simulator is in trouble:\n" + trouble)
        self.evidence(ws, code)
        return code

    def current(self, w):
        try:
            b = open(os.path.join(w["d"], "status"), "rb").read(8)
            return struct.unpack("<Q", b)[0] if len(b) == 8 else None
        except OSError:
            return None

    def tail(self, w):
        s = ""
        for f in ("trouble.json", "out"):
            try:
                s += open(os.path.join(w["d"], f), errors="replace").read()[:4000] + "\n"
            except OSError:
                pass
        return s

    def report(self, hit):
        os.makedirs(self.rep, exist_ok=True)
        path = os.path.join(self.rep, "%s-%d.json" % (self.prop, hit["Seed"]))
        if os.path.exists(path):
            os.remove(path)
        msecs = 60 if self.tier == "quick" else 200
        c, o = finish(spawn(self.h, ["min", "-prop", self.prop, "-kind", hit["Kind"], "-seed", str(hit["Seed"]), "-file", path, "-secs", str(msecs)], self.race, self.dir), msecs + 180)
        if c == 0:
            c, o = finish(spawn(self.h, ["replay", "-file", path], self.race, self.dir), 300)
            if c == 10:
                return self.violated(hit["Kind"], hit["Msg"], path, o)
        # fall back to the whole run
        finish(spawn(self.h, ["plan", "-prop", self.prop, "-kind", hit["Kind"], "-seed", str(hit["Seed"]), "-file", path], self.race, self.dir), 60)
        c, o = finish(spawn(self.h, ["replay", "-file", path], self.race, self.dir), 300)
        if c == 10:
            return self.violated(hit["Kind"], hit["Msg"], path, o)
        die("seed %d showed %s (%s) but does not reproduce: %s %s" % (hit["Seed"], hit["Kind"], hit["Msg"], c, o[-2000:]))

    def report_dead(self, seed, how):
        if seed is None:
            die("a worker died before its first run: " + how)
        os.makedirs(self.rep, exist_ok=True)
        path = os.path.join(self.rep, "%s-%d.json" % (self.prop, seed))
        finish(spawn(self.h, ["plan", "-prop", self.prop, "-kind", "process-death", "-seed", str(seed), "-file", path], self.race, self.dir), 60)

        def bad(f):
            c, o = finish(spawn(self.h, ["replay", "-file", f], self.race, self.dir), STUCK_S if how == "stuck" else 120)
            return died(c), o
        ok, o = bad(path)
        if not ok:
            die("seed %d: worker %s, but the run alone does not: %s" % (seed, how, o[-2000:]))
        rp = json.load(open(path))
        steps, tmp, end = rp["Plan"].get("Steps") or [], os.path.join(self.dir, "t.json"), time.time() + 90
        n = 2
        while steps and how != "stuck" and time.time() < end:
            size = (len(steps) + n - 1) // n
            for i in range(0, len(steps), size):
                c = steps[:i] + steps[i + size:]
                rp["Plan"]["Steps"] = c
                json.dump(rp, open(tmp, "w"))
                b, o2 = bad(tmp)
                if b:
                    steps, o, n = c, o2, max(2, n - 1)
                    break
            else:
                if size <= 1:
                    break
                n = min(len(steps), n * 2)
        rp["Plan"]["Steps"] = steps
        rp["Message"] = "the process " + how.split("\n")[0]
        json.dump(rp, open(path, "w"), indent=1)
        return self.violated("process-death", how.split("\n")[0], path, "\n".join(o.splitlines()[:12]))

    def violated(self, kind, msg, path, out):
        print("%s: %s" % (kind, msg))
        print(out.strip()[:3000])
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.violation = {"kind": kind, "message": msg[:500], "replay": path}
        return 1

    def evidence(self, ws, code):
        tot = {"Runs": 0, "NonTrivial": 0, "Steps": 0, "Switches": 0, "Decisions": 0, "SimNS": 0.0, "MaxSteps": 0}
        counts, runswith, stats, samples = {}, {}, {}, []
        scheds, states = set(), set()
        for w in ws:
            try:
                a = json.load(open(os.path.join(w["d"], "agg.json")))
            except (OSError, ValueError):
                continue
            for k in tot:
                tot[k] = max(tot[k], a[k]) if k == "MaxSteps" else tot[k] + a[k]
            for src, dst in ((a["Counts"], counts), (a["RunsWith"], runswith), (a["Stats"], stats)):
                for k, v in (src or {}).items():
                    dst[k] = dst.get(k, 0) + v
            samples += a["Samples"] or []
            for name, s in (("scheds.bin", scheds), ("states.bin", states)):
                try:
                    b = open(os.path.join(w["d"], name), "rb").read()
                    s.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
                except OSError:
                    pass
        wall = time.time() - self.t0
        explore = max(wall - self.build_s, 0.001)
        comp = subprocess.run([self.h, "components", "-prop", self.prop], stdout=subprocess.PIPE, text=True).stdout
        try:
            comp = json.loads(comp)
        except ValueError:
            comp = {}
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": tot["Runs"],
                "distinct_nontrivial": len(scheds),
                "rule": "One evaluation is one simulated run: a plan (remote hosts, their behaviour, scripted steps, fault rates) generated from the seed, executed "
                        "under the seeded scheduler. Non-trivial: at least one fault was injected and the scheduler preempted a runnable goroutine at least once. "
                        "Distinct: different hash over the complete event log and all scheduling decisions.",
                "samples": samples[:6],
                "first_seed": self.base(), "seed_rule": "worker i of %d runs seeds first_seed+i, +%d, ..." % (WORKERS, WORKERS),
                "nontrivial_runs": tot["NonTrivial"],
                "runs_per_hour": int(tot["Runs"] / explore * 3600),
                "simulated_hours": round(tot["SimNS"] / 3.6e12, 2),
                "scheduler_steps": tot["Steps"], "scheduling_decisions": tot["Decisions"], "context_switches": tot["Switches"],
                "longest_run_steps": tot["MaxSteps"],
                "faults_injected": counts, "runs_with_fault": runswith,
                "observations": stats,
                "distinct_states": len(states), "state_measure": "hash of the abstract observation tuples noted during a run (see DESIGN.md)",
                "components": comp,
                "race_detector": self.race,
                "build_s": round(self.build_s, 1),
            },
            "assumptions": [
                "the simulated network, scheduler, clock and storage behave as documented in DESIGN.md",
                "within the executed runs only; the seeds executed are listed above",
            ],
            "wall_s": round(wall, 1),
            "violations": 1 if code == 1 else 0,
        }
        if self.violation:
            ev["coverage"]["violation"] = self.violation
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        print("%s %s: %d runs, %d distinct non-trivial, %.1f simulated hours, %d steps in %.0f s" % (
            self.prop, self.tier, tot["Runs"], len(scheds), tot["SimNS"] / 3.6e12, tot["Steps"], wall))


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    os.makedirs(BUILD, exist_ok=True)
    if a[0] in ("replay", "setup", "selftest"):
        d = os.path.join(BUILD, "run-%s-%d" % (a[0], os.getpid()))
        try:
            os.makedirs(d, exist_ok=True)
            if a[0] == "replay":
                rp = json.load(open(a[1]))
                race = bool(rp.get("Race"))
                h = build(d, race)
                c, o = finish(spawn(h, ["replay", "-v", "-file", os.path.abspath(a[1])], race, d), 600)
                print(o.strip())
                if c == 10 or (rp["Kind"] == "process-death" and died(c)):
                    print("VIOLATION property=%s replay=%s" % (rp["Property"], a[1]))
                    sys.exit(1)
                sys.exit(0 if c == 0 else 2)
            h = build(d)
            if a[0] == "setup":
                build(d, True)
                return
            n = a[1] if len(a) > 1 else "100"
            bad = 0
            for i in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
                c, o = finish(spawn(h, ["selftest", "-prop", i["property"], "-n", n], False, d), 3600)
                print(o.strip().splitlines()[-1])
                bad |= c != 0
            sys.exit(2 if bad else 0)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(a[0], tier).run())


if __name__ == "__main__":
    main()
