//go:build go1.24

package main

import "sort"

// components says which parts of a run are real code and which are stubs.
func components(prop string) map[string][]string {
	worlds := map[string]bool{}
	for s := uint64(1); s < 200; s++ {
		worlds[genPlan(prop, s).World] = true
	}
	real, stub := map[string]bool{}, map[string]bool{}
	add := func(m map[string]bool, xs ...string) {
		for _, x := range xs {
			m[x] = true
		}
	}
	add(stub, "goroutine scheduling, channels, select, sync, map iteration order, randomness (zzrt, zsync)", "clock and timers (ztime)")
	if worlds["A"] {
		add(real, "p2p: pool, peer, handshake, syncer, message codecs, framing", "consensus: block, transaction and header codecs")
		add(stub, "TCP and DNS (znet)", "chain and mempool (scripted verdicts)", "remote peers (scripted, independent codec)")
	}
	if worlds["B"] {
		add(real, "p2p: peer, handshake, syncer, message codecs, framing", "consensus: block, transaction and header codecs")
		add(stub, "TCP and DNS (znet)", "chain and mempool (scripted verdicts)", "remote peers (scripted, independent codec)", "users of the Peer API (scripted)")
	}
	if worlds["C"] {
		add(real, "p2p: WriteMessage, ReadMessage and the message codecs", "consensus: block, compact block, transaction and header codecs")
		add(stub, "TCP (znet)", "users of WriteMessage and ReadMessage (scripted)")
	}
	if worlds["D"] {
		add(real, "chain: block and header processing, queries, integrity check", "consensus: header and block rules, range proofs, kernel signatures")
		add(stub, "block storage (simulated disk with crashes, losses and corruption)", "proof-of-work cycle check (scripted verdict for the exact proof inputs)")
	}
	if worlds["E"] {
		add(real, "p2p: pool, peer, handshake, syncer, message codecs, framing", "consensus: block, transaction and header codecs",
			"chain: block and header processing, queries, integrity check", "consensus: header and block rules, range proofs, kernel signatures")
		add(stub, "TCP and DNS (znet)", "remote peers (scripted, independent codec)", "block storage (simulated disk with crashes, losses and corruption)",
			"proof-of-work cycle check (scripted verdict for the exact proof inputs)", "mempool (scripted verdicts)")
	}
	list := func(m map[string]bool) (o []string) {
		for x := range m {
			o = append(o, x)
		}
		sort.Strings(o)
		return
	}
	return map[string][]string{"real": list(real), "stub": list(stub)}
}
