#!/usr/bin/env python3
"""Writes MANIFEST.json. Claimed properties are listed here with what their check rests on."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
NODE = "the real p2p and consensus code runs over a simulated scheduler, clock and network; chain and mempool are scripted fakes; "
CHAIN = "the real chain, consensus and range-proof code runs over a simulated scheduler, clock and block store; the cuckoo cycle search result is supplied by the harness; "
TRUST = ("seeded exploration, not proof: it covers the runs listed in the evidence. Trusted: the source rewriting that puts goroutines, channels, "
         "locks, timers and sockets behind the simulator (checked by a determinism self-test), the TCP model and the reference codec.")
CHECKS = {
    "C01": (T + "hostile byte streams, seeded schedules", NODE + TRUST),
    "C02": (T + "stalled and hostile peers, bounded-time service to the others", NODE + TRUST),
    "C03": (T + "connect/fail/drop histories, slot invariant at every open, bounded progress after faults", NODE + TRUST),
    "C04": (T + "request/reply histories against a reference model with chain-state intervals", NODE + TRUST),
    "C05": (T + "fragmented, cut and malformed streams against a reference frame parser", NODE + TRUST),
    "C06": (T + "handshake contents, stalls and cuts on outbound and inbound connections", NODE + TRUST),
    "C07": (T + "connections ended by either side, from any goroutine, at any point; bounded release of sockets, goroutines, waiters and senders", NODE + TRUST),
    "C08": (T + "bans racing with connects, gossip and listings; history checked against a reference model", NODE + TRUST),
    "C09": (T + "stop injected at arbitrary points; bounded shutdown, no socket or goroutine left", NODE + TRUST),
    "C10": (T + "block arrivals from several peers; relay history against a reference model", NODE + TRUST),
    "C11": (T + "blocks and header lists with single rule violations at arbitrary clocks, stored histories and interleavings, against reference rules", CHAIN + TRUST),
    "C12": (T + "queries racing with storage changes, crashes and restarts over a store that loses unsynced blocks; answers against the store's version history", CHAIN + TRUST),
    "C17": (T + "lost and corrupted stored blocks, crashes and concurrent use; verdict against a reference walk", CHAIN + TRUST),
    "C13": (T + "race-detector-instrumented node under the seeded scheduler, no two goroutines ever running at once in fact; unordered accesses are decided by the happens-before of the simulated run", "the node's packages are compiled with the Go race detector and run over a simulated scheduler whose own switches carry no happens-before edge; chain and mempool are scripted fakes in some runs, the real chain over a simulated store in others; " + TRUST),
    "C14": (T + "gossip, connection outcomes and listings against a reference address book", NODE + TRUST),
    "C15": (T + "message streams over fragmented connections, several at once and sharing objects, against an independent codec", NODE + TRUST),
    "C16": (T + "concurrent senders and failing transports; arrival history and reported results against the frames handed over", NODE + TRUST),
}
PURE = "pure function of its arguments: no concurrency, time, I/O, randomness or other party for a schedule or fault to act on, so simulation adds nothing over plain input testing"
NA = {
    "C18": PURE,
    "C19": PURE + " (signing and verifying take keys and messages as arguments)",
    "C20": PURE + " (the window of past blocks is an argument)",
    "C21": PURE,
    "C22": "the storage backend in this tree is a stub: every method of storage/mysql.go is empty, nothing is written, so there is no durable state to crash; the chain's use of storage is covered by C12 and C17 over a simulated store",
}
EXTRA = os.path.join(V, "tools", "claims.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        CHECKS[k] = (T + v[0], v[1] + TRUST)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p not in CHECKS and p not in NA:
        NA[p] = "the check for this property is still being built"
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {
        "guard": "none in /repo: the seams are put in at build time by a go build overlay (tools/zzrw rewrites the current sources of /repo into /verif/build)",
        "enable": "check.py runs tools/zzrw over /repo's working tree and builds with go build -overlay",
        "source_commits": [],
    },
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": CHECKS[p][0],
        "level": "exploration",
        "level_note": CHECKS[p][1],
    } for p in props if p in CHECKS],
    "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA and p not in CHECKS],
    "notes": "Genuine defects found are repaired by the fix: commits in /repo and listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
