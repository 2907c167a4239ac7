//go:build go1.24

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// shrink minimises a list: it keeps the smallest subset on which ok still holds.
func shrink[T any](xs []T, ok func([]T) bool) []T {
	n := 2
	for len(xs) > 0 {
		size := (len(xs) + n - 1) / n
		cut := false
		for i := 0; i < len(xs); i += size {
			j := i + size
			if j > len(xs) {
				j = len(xs)
			}
			c := append(append([]T(nil), xs[:i]...), xs[j:]...)
			if ok(c) {
				xs = c
				cut = true
				if n > 2 {
					n--
				}
				break
			}
		}
		if !cut {
			if size <= 1 {
				break
			}
			n *= 2
			if n > len(xs) {
				n = len(xs)
			}
		}
	}
	return xs
}

type tent struct{ k, i, v int }

func minimise(prop, kind string, seed uint64, file string, secs float64) int {
	end := time.Now().Add(time.Duration(secs * 1e9))
	late := func() bool { return time.Now().After(end) }
	p := genPlan(prop, seed)
	first := runPlan(p, nil)
	v := first.has(prop, kind)
	if v == nil {
		fmt.Println("seed does not reproduce")
		return exNotRepro
	}
	runs := 0
	test := func(q *Plan) bool {
		if late() {
			return false
		}
		runs++
		return runPlan(q, nil).has(prop, kind) != nil
	}
	try := func(f func(q *Plan) bool) {
		q := p.clone()
		if f(q) && test(q) {
			p = q
		}
	}
	pass := func() {
		p.Steps = shrink(p.Steps, func(s []Step) bool {
			q := p.clone()
			q.Steps = s
			return test(q)
		})
		p.Init = shrink(p.Init, func(s []Step) bool {
			q := p.clone()
			q.Init = s
			return test(q)
		})
		for i := range p.Hosts {
			i := i
			try(func(q *Plan) bool {
				h := &q.Hosts[i]
				if !h.Known {
					return false
				}
				*h = HostPlan{Addr: h.Addr, State: "gone"}
				return true
			})
			try(func(q *Plan) bool {
				h := &q.Hosts[i]
				if len(h.HS)+len(h.Goss) == 0 && h.Name == "" && !h.Mute && h.H+h.TD == 0 {
					return false
				}
				*h = HostPlan{Addr: h.Addr, Known: h.Known, State: h.State, Delay: h.Delay, Final: h.Final, Evil: h.Evil, Deaf: h.Deaf, Caps: 7}
				return true
			})
			try(func(q *Plan) bool { r := q.Hosts[i].Batch; q.Hosts[i].Batch = false; return r })
			try(func(q *Plan) bool { r := len(q.Hosts[i].HS) > 1; q.Hosts[i].HS = nil; return r })
			try(func(q *Plan) bool {
				r := len(q.Hosts[i].Goss) > 0
				q.Hosts[i].Goss = nil
				q.Hosts[i].Tell = false
				return r
			})
		}
		for len(p.Hosts) > 0 {
			n := len(p.Hosts) - 1
			used := false
			for _, s := range p.Steps {
				if s.H == n {
					used = true
				}
			}
			q := p.clone()
			q.Hosts = q.Hosts[:n]
			if used || !test(q) {
				break
			}
			p = q
		}
		for _, f := range []func(k *Knobs) *int{
			func(k *Knobs) *int { return &k.StallPm }, func(k *Knobs) *int { return &k.LatPm }, func(k *Knobs) *int { return &k.FragPm },
			func(k *Knobs) *int { return &k.ShortPm }, func(k *Knobs) *int { return &k.WErrPm }, func(k *Knobs) *int { return &k.ResetPm },
			func(k *Knobs) *int { return &k.Window }, func(k *Knobs) *int { return &k.BaseLatU }, func(k *Knobs) *int { return &k.Policy },
			func(k *Knobs) *int { return &k.LogLevel },
		} {
			try(func(q *Plan) bool {
				x := f(&q.Knobs)
				if *x == 0 {
					return false
				}
				*x = 0
				return true
			})
		}
		for i := 0; i < 6 && p.End > 10; i++ {
			e := p.End
			try(func(q *Plan) bool {
				q.End /= 2
				for _, s := range q.Steps {
					if s.At > q.End {
						return false
					}
				}
				return true
			})
			if p.End == e {
				break
			}
		}
	}
	pass()
	pass()
	r := runPlan(p, nil)
	if r.has(prop, kind) == nil {
		fmt.Println("minimised plan does not reproduce")
		return exNotRepro
	}
	// The decisions: keep only those the failure needs.
	var es []tent
	for k, m := range r.Trace {
		for i, x := range m {
			es = append(es, tent{k, i, x})
		}
	}
	sort.Slice(es, func(a, b int) bool {
		if es[a].k != es[b].k {
			return es[a].k < es[b].k
		}
		return es[a].i < es[b].i
	})
	mk := func(es []tent) *[zzrt.NKinds]map[int]int {
		var t [zzrt.NKinds]map[int]int
		for k := range t {
			t[k] = map[int]int{}
		}
		for _, e := range es {
			t[e.k][e.i] = e.v
		}
		return &t
	}
	total := len(es)
	es = shrink(es, func(c []tent) bool {
		if late() {
			return false
		}
		runs++
		return runPlan(p, mk(c)).has(prop, kind) != nil
	})
	tr := mk(es)
	r = runPlan(p, tr)
	v = r.has(prop, kind)
	if v == nil {
		fmt.Println("minimised trace does not reproduce")
		return exNotRepro
	}
	writeJSON(file, &Replay{Property: prop, Kind: kind, Message: v.Msg, Plan: *p, Trace: traceOut(*tr), Hash: fmt.Sprintf("%016x", r.Hash), Race: zzrt.RaceBuild,
		Note: fmt.Sprintf("found with seed %d; minimised in %d runs to %d steps, %d hosts, %d of %d recorded non-default decisions", seed, runs, len(p.Steps), len(p.Hosts), len(es), total)})
	return exOK
}

func replay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return exTrouble
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Println(err)
		return exTrouble
	}
	var r *Result
	if rp.Explore {
		r = runPlan(&rp.Plan, nil)
	} else {
		tr := traceIn(rp.Trace)
		r = runPlan(&rp.Plan, &tr)
	}
	// The race detector keeps a limited history of accesses: it may need more
	// than one look at the same execution.
	for i := 0; rp.Race && i < 3 && r.has(rp.Property, rp.Kind) == nil; i++ {
		if rp.Explore {
			r = runPlan(&rp.Plan, nil)
		} else {
			tr := traceIn(rp.Trace)
			r = runPlan(&rp.Plan, &tr)
		}
	}
	if verbose {
		for _, v := range r.V {
			fmt.Printf("%s %s @%.3fs: %s\n", v.Prop, v.Kind, float64(v.Time)/1e9, v.Msg)
		}
	}
	if v := r.has(rp.Property, rp.Kind); v != nil {
		fmt.Printf("reproduced: %s %s after %d steps, %.3f simulated s: %s\n", v.Prop, v.Kind, r.Steps, float64(v.Time)/1e9, v.Msg)
		if rp.Hash != "" && rp.Hash != fmt.Sprintf("%016x", r.Hash) {
			fmt.Println("but the event log differs from the recorded one")
		}
		return exHit
	}
	fmt.Println("not reproduced")
	return exOK
}
