//go:build go1.24

package main

var opsD = map[string][]wop{
	"":    {{4, "block"}, {2, "headers"}, {4, "qh"}, {3, "qb"}, {2, "state"}, {1, "validate"}, {2, "append"}, {1, "jump"}},
	"C11": {{40, "block"}, {10, "headers"}, {3, "append"}, {2, "jump"}, {1, "crash"}},
	"C12": {{20, "qh"}, {12, "qb"}, {8, "state"}, {10, "append"}, {3, "lose"}, {1, "corrupt"}, {3, "crash"}},
	"C13": {{10, "block"}, {10, "qh"}, {5, "qb"}, {5, "state"}, {5, "validate"}, {5, "append"}},
	"C17": {{20, "validate"}, {4, "append"}, {6, "corrupt"}, {3, "lose"}, {3, "crash"}},
}

// genD makes a plan for the chain over a block store.
func genD(p *Plan, r *rnd) {
	p.World = "D"
	genKnobs(p, r)
	k := &p.Knobs
	k.LatPm = pick(r, 0, 0, 100, 500)
	p.End = int64(pick(r, 10, 1000, 60000, 3600000))
	n := r.n(21)
	x := r.n(100)
	switch p.Prop {
	case "C11":
		if x < 55 {
			n = r.in(65, 90)
		}
	case "C12":
		if x < 10 {
			n = r.in(508, 530)
		} else if x < 20 {
			n = r.in(30, 90)
		}
	case "C17":
		if x < 15 {
			n = r.in(20, 60)
		} else if x < 19 {
			n = r.in(100, 350)
		} else if x < 20 {
			n = pick(r, r.in(500, 700), r.in(1010, 1100))
		}
	}
	if n == 0 && r.pc(60) {
		n = 1
	}
	p.Init = []Step{{A: int64(n), K: r.n(4) | 1, C: r.i64(1 << 40)}}
	if r.pc(15) {
		p.Init[0].K &^= 1
	}
	m := pick(r, 4, 10, 25, 50)
	if n > 200 || n > 90 && p.Prop == "C17" {
		m = min(m, 12)
		k.LatPm = min(k.LatPm, 20)
	}
	good, once := false, false
	if p.Prop == "C17" {
		x := r.n(100)
		good = x < 25 // never damaged
		once = x >= 25 && x < 70
	}
	for i := 0; i < m; i++ {
		s := genStepD(p, r)
		if good && (s.Op == "lose" || s.Op == "corrupt") {
			continue
		}
		p.Steps = append(p.Steps, s)
	}
	if r.pc(60) { // several things at one instant
		at := r.i64(p.End + 1)
		for i := r.in(2, 10); i > 0; i-- {
			s := genStepD(p, r)
			if good && (s.Op == "lose" || s.Op == "corrupt") {
				continue
			}
			s.At = at
			p.Steps = append(p.Steps, s)
		}
	}
	if once { // a single damage: nothing else gives the chain away
		d, n := -1, 0
		for i, s := range p.Steps {
			if s.Op == "lose" || s.Op == "corrupt" {
				if n++; r.n(n) == 0 {
					d = i
				}
			}
		}
		o := p.Steps[:0]
		for i, s := range p.Steps {
			if i == d || s.Op != "lose" && s.Op != "corrupt" {
				o = append(o, s)
			}
		}
		p.Steps = o
	}
	if p.Prop == "C17" {
		// Start over what is stored by then and judge it as a whole.
		if r.pc(70) {
			p.Steps = append(p.Steps, Step{Op: "crash", At: p.End, B: r.i64(1 << 40)})
		}
		p.Steps = append(p.Steps, Step{Op: "validate", At: p.End + 60000})
	}
	sortSteps(p.Steps)
}

func genStepD(p *Plan, r *rnd) Step {
	ops := append(append([]wop(nil), opsD[""]...), opsD[p.Prop]...)
	t := 0
	for _, o := range ops {
		t += o.w
	}
	x := r.n(t)
	op := ""
	for _, o := range ops {
		if x -= o.w; x < 0 {
			op = o.op
			break
		}
	}
	return genStepDOp(p, r, op)
}

// genStepDOp makes a step of a kind.
func genStepDOp(p *Plan, r *rnd, op string) Step {
	s := Step{At: r.i64(p.End + 1), Op: op, B: r.i64(1 << 40)}
	switch op {
	case "block":
		s.A = int64(pick(r, 0, 0, 0, 0, 1, 2, 5, 30, 70, -1))
		if r.pc(70) {
			s.K = r.n(dKinds)
		}
		s.C = int64(r.n(8) / 7)
	case "headers":
		s.A = int64(pick(r, 0, 1, 2, 5, 20))
		if r.pc(60) {
			s.K, s.C = r.n(dKinds), int64(r.n(int(s.A)+1))
		}
	case "qh":
		s.A = int64(pick(r, 0, 1, 1, 2, 3, 13, 14, 15, 20))
	case "qb":
		s.K, s.C = pick(r, 0, 0, 1, 1, 2, 3), int64(r.n(2))
	case "append":
		s.A, s.C = int64(r.n(4)), int64(pick(r, 0, 0, 1, 3))
	case "jump":
		s.A = int64(pick(r, -3600000, 3600000, -1000, 1000, 86400000*365, -86400000*365, 700000, -30*60000, 12*60000))
	case "lose":
		s.A = r.i64(1000)
		if r.pc(40) { // the lowest ones
			s.A = int64(pick(r, 0, 0, 1, 2))
		}
	case "corrupt":
		s.A, s.K, s.C = r.i64(1000), pick(r, r.n(14), r.n(14), 11, 10), int64(r.n(3)/2)
		if r.pc(30) {
			s.A = int64(pick(r, 0, 0, 1, 2))
		}
	}
	return s
}
