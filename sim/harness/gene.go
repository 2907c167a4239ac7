//go:build go1.24

package main

var opsE = []wop{{30, "eblk"}, {6, "ehdr"}, {8, "ehdrs"}, {8, "egeth"}, {6, "egetb"}, {5, "eping"}, {3, "etx"}, {2, "ebye"},
	{3, "append"}, {1, "jump"}, {2, "block"}, {1, "qh"}, {1, "state"}, {1, "validate"}}

// genE makes a plan for a whole node.
func genE(p *Plan, r *rnd) {
	p.World = "E"
	genKnobs(p, r)
	k := &p.Knobs
	if k.Window > 0 && k.Window < 700 {
		k.Window = 700
	}
	if r.pc(15) {
		k.ResetPm = r.in(1, 5)
	}
	k.NilMempool = r.pc(20)
	p.End = int64(pick(r, 1000, 10000, 60000, 3600000))
	n := r.in(1, 20)
	if r.pc(12) {
		n = r.in(60, 80)
	}
	p.Init = []Step{{A: int64(n), K: r.n(4) | 1, C: r.i64(1 << 40), B: int64(pick(r, 1, 1, 3, 8))}}
	if r.pc(70) { // the genesis is not stored: no minimum difficulty, which a decoded block never meets
		p.Init[0].K &^= 1
	}
	for i := r.in(2, 6); i > 0; i-- {
		h := HostPlan{Addr: addrOf(r, i), Known: true, Caps: uint32(r.n(16))}
		if r.pc(35) {
			h.H, h.TD = 1<<63, 1<<63
		}
		p.Hosts = append(p.Hosts, h)
	}
	listeners := r.in(0, len(p.Hosts)-1) // the first ones send no blocks
	hostile := r.pc(60)
	ops := append([]wop(nil), opsE...)
	if r.pc(20) {
		ops = append(ops, wop{2, "crash"})
	}
	if r.pc(10) {
		ops = append(ops, wop{2, "lose"})
	}
	t := 0
	for _, o := range ops {
		t += o.w
	}
	one := func(at int64) {
		x := r.n(t)
		op := ""
		for _, o := range ops {
			if x -= o.w; x < 0 {
				op = o.op
				break
			}
		}
		s := Step{At: at, Op: op, B: r.i64(1 << 40), H: r.n(len(p.Hosts))}
		switch op {
		case "eblk":
			s.H = listeners + r.n(len(p.Hosts)-listeners)
			s.A = int64(pick(r, 0, 1, 1, 1, 2, 5, -1))
			if r.pc(30) {
				s.K = pick(r, dHead, dReal, dTwin, dSigPlain, dHead)
			}
			if hostile && r.pc(35) {
				s.K = r.n(dKinds)
			}
		case "ehdr", "ehdrs":
			s.A = int64(pick(r, 0, 1, 2, 5, 20))
			if hostile && r.pc(40) {
				s.K, s.C = r.n(dKinds), int64(r.n(int(s.A)+1))
			}
			if op == "ehdr" {
				s.C = 0
			}
		case "egeth":
			s.A = int64(pick(r, 0, 1, 1, 2, 3, 13, 14))
		case "egetb":
			s.K = pick(r, 0, 0, 1, 1, 2)
		default:
			h := s.H
			x := genStepDOp(p, r, op)
			x.At, x.B, x.H = at, s.B, h
			s = x
		}
		p.Steps = append(p.Steps, s)
	}
	for i := pick(r, 6, 15, 30, 60); i > 0; i-- {
		one(r.i64(p.End + 1))
	}
	if r.pc(60) {
		at := r.i64(p.End + 1)
		for i := r.in(3, 15); i > 0; i-- {
			one(at)
		}
	}
	sortSteps(p.Steps)
}
