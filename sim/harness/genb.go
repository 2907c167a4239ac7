//go:build go1.24

package main

import "fmt"

var opsB = map[string][]wop{
	"":    {{10, "send"}, {2, "sendping"}, {2, "lclose"}, {1, "disc"}, {2, "wait"}, {2, "ping"}, {1, "getblk"}, {1, "gethdr"}, {1, "getpeers"}, {1, "cmpct"}, {1, "close"}, {1, "abort"}, {1, "half"}, {1, "cut"}, {1, "bad"}, {1, "pause"}, {2, "resume"}, {1, "chain"}, {1, "reset"}},
	"C01": {{20, "bad"}, {10, "raw"}, {5, "cut"}, {3, "hclose"}, {3, "flood"}},
	"C06": {{3, "nonces"}},
	"C07": {{6, "lclose"}, {4, "disc"}, {6, "wait"}, {8, "hclose"}, {4, "close"}, {3, "abort"}, {3, "half"}, {3, "cut"}, {5, "bad"}, {5, "pause"}, {4, "flood"}, {3, "reset"}, {6, "send"}},
	"C13": {{4, "lclose"}, {3, "hclose"}, {6, "send"}, {4, "ping"}, {3, "wait"}, {3, "disc"}},
	"C15": {{30, "send"}},
	"C16": {{30, "send"}, {4, "ping"}, {4, "getblk"}, {4, "gethdr"}, {3, "pause"}, {4, "resume"}},
}

// genB makes a plan of single connections.
func genB(p *Plan, r *rnd) {
	p.World = "B"
	genKnobs(p, r)
	k := &p.Knobs
	p.End = int64(pick(r, 100, 3000, 20000, 90000))
	ns := r.in(1, 4)
	badPc, inPc, wrapPc := 10, 50, 15
	if r.pc(35) {
		k.WErrPm = pick(r, 0, 2, 8)
		k.ResetPm = pick(r, 0, 1, 4)
	}
	nonces := false
	switch p.Prop {
	case "C06":
		badPc = 60
		ns = r.in(1, 8)
		inPc = 65
		nonces = r.pc(60)
		if r.pc(60) { // runs in which success can be demanded
			k.StallPm, k.LatPm, k.WErrPm, k.ResetPm = 0, 0, 0, 0
		}
	case "C01":
		badPc = 40
	case "C16", "C07":
		wrapPc = 30
	}
	for i := 0; i < ns; i++ {
		h := HostPlan{Addr: addrOf(r, i), In: r.pc(inPc), Caps: uint32(pick(r, 7, 0, 1, 4, 255, 1<<31)), Agent: pick(r, 0, 5, 16, 300, 5000), TD: pick(r, uint64(0), 1, 77, 1<<63)}
		mode := goodHS(r)
		if r.pc(badPc) {
			mode = hsMode(r, pick(r, badHS...))
			if mode == "half:0" && !h.In {
				mode = "half:0"
			}
		}
		if h.In && nonces && r.pc(50) {
			mode = fmt.Sprintf("ownnonce:%d", r.n(100))
		}
		h.HS = []string{mode}
		h.Batch = r.pc(30)
		if !h.In && r.pc(8) {
			h.State = pick(r, "refuse", "blackhole", "slow", "self", "self")
			h.Delay = pick(r, 10, 9000)
		}
		if h.In && r.pc(wrapPc) {
			h.Wrap = pick(r, fmt.Sprintf("werr:%d", r.in(1, 12)), fmt.Sprintf("werr:%d", r.in(1, 12)), "closeerr", fmt.Sprintf("slowclose:%d", r.in(1, 40)))
		}
		if r.pc(15) {
			h.Start = pick(r, 1, 500, 4000, -1)
		}
		p.Hosts = append(p.Hosts, h)
	}
	if p.Prop == "C06" {
		// one plain outbound connection shows what the node says about itself
		p.Hosts[0] = HostPlan{Addr: p.Hosts[0].Addr, Caps: 7, HS: []string{"ok"}}
		if nonces {
			p.Steps = append(p.Steps, Step{Op: "nonces", A: int64(pick(r, 1, 20, 60, 99, 120))})
		}
	}
	for i := range p.Hosts {
		at := int64(0)
		if r.pc(50) || (i > 0 && p.Prop == "C06") {
			at = r.i64(p.End + 1)
		}
		p.Steps = append(p.Steps, Step{Op: "open", H: i, At: at})
	}
	n := pick(r, 3, 8, 20, 40)
	for i := 0; i < n; i++ {
		p.Steps = append(p.Steps, genStepB(p, r))
	}
	if r.pc(60) { // several things at one instant
		at, h := r.i64(p.End+1), r.n(ns)
		for i := r.in(2, 8); i > 0; i-- {
			s := genStepB(p, r)
			s.At, s.H = at, h
			p.Steps = append(p.Steps, s)
		}
	}
	sortSteps(p.Steps)
	p.Mode = pick(r, "finlocal", "finremote", "finbad", "finreset")
	if p.Prop == "C01" {
		p.Mode = "mem"
	}
}

func genStepB(p *Plan, r *rnd) Step {
	ops := append(append([]wop(nil), opsB[""]...), opsB[p.Prop]...)
	t := 0
	for _, o := range ops {
		t += o.w
	}
	x := r.n(t)
	op := ""
	for _, o := range ops {
		if x -= o.w; x < 0 {
			op = o.op
			break
		}
	}
	s := Step{At: r.i64(p.End + 1), Op: op, H: r.n(len(p.Hosts))}
	switch op {
	case "send":
		s.A, s.B, s.C = int64(pick(r, 1, 1, 2, 5, 12)), int64(r.n(1<<30)), int64(r.n(2))
		if k := p.Knobs.Window; k > 0 && k < 4096 {
			s.C = 0
		}
	case "lclose":
		s.A = int64(r.n(3))
	case "ping", "chain":
		s.A, s.B = int64(r.n(60)), int64(r.n(20))
	case "getblk":
		s.A = int64(r.n(2))
	case "gethdr":
		s.B = int64(r.n(40))
	case "flood":
		s.A = int64(pick(r, 10, 40))
	case "hclose":
		s.A, s.K = int64(r.n(2)), r.n(5)
	case "bad":
		s.K = r.n(len(badNames))
		if p.Prop != "C01" && !strictKind(s.K) {
			s.K = pickStrict(r.n(1000))
		}
	case "raw":
		s.A, s.B, s.C, s.K = int64(r.n(1<<20)), int64(pick(r, 1, 10, 11, 12, 100, 600)), int64(r.n(2)), r.n(24)
	case "cut":
		s.A, s.K = int64(r.n(2000)), r.n(3)
	case "close":
		s.A = int64(pick(r, 0, 0, 1, 50))
	case "nonces":
		s.A = int64(pick(r, 1, 3, 30))
	}
	return s
}
