//go:build go1.24

package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// Exit codes of the harness.
const (
	exOK       = 0
	exHit      = 10 // a violation was found and written down
	exTrouble  = 11 // the harness itself is in trouble
	exNotRepro = 12 // a replay did not reproduce
)

// Agg sums up the runs of a worker.
type Agg struct {
	Runs, NonTrivial, Steps, Switches, Decisions int64
	SimNS                                        float64
	Counts                                       map[string]int64
	RunsWith                                     map[string]int64 // runs in which the fault was injected
	Stats                                        map[string]int64
	First, Last                                  uint64
	Samples                                      []Sample
	MaxSteps                                     int64
	WallS                                        float64
}

// Sample is one run, written out.
type Sample struct {
	Seed   uint64
	Plan   string
	Steps  int64
	SimMS  int64
	Sched  string
	Faults map[string]int64
	Stats  map[string]int64
}

// Hit is what a worker found.
type Hit struct {
	Prop, Kind, Msg string
	Seed            uint64
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exTrouble)
	}
}

func faultMap(c *[32]int64) map[string]int64 {
	m := map[string]int64{}
	for i, n := range zzrt.CounterNames {
		if c[i] > 0 {
			m[n] = c[i]
		}
	}
	return m
}

func (p *Plan) summary() string {
	s := fmt.Sprintf("world %s, policy %d, %d hosts:", p.World, p.Knobs.Policy, len(p.Hosts))
	for _, h := range p.Hosts {
		s += " " + h.Addr
		if len(h.HS) > 0 {
			s += fmt.Sprint(h.HS)
		}
	}
	s += "; steps:"
	for i, st := range p.Steps {
		if i == 12 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %d:%s/%d", st.At, st.Op, st.H)
	}
	return s
}

func worker(prop, dir string, first, stride uint64, secs float64, maxRuns int64) int {
	t0 := time.Now()
	a := &Agg{Counts: map[string]int64{}, RunsWith: map[string]int64{}, Stats: map[string]int64{}, First: first}
	scheds := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	status := filepath.Join(dir, "status")
	sf, err := os.Create(status)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exTrouble
	}
	code := exOK
	var buf [8]byte
	for seed := first; ; seed += stride {
		if time.Since(t0).Seconds() > secs || (maxRuns > 0 && a.Runs >= maxRuns) {
			break
		}
		binary.LittleEndian.PutUint64(buf[:], seed)
		sf.WriteAt(buf[:], 0)
		p := genPlan(prop, seed)
		r := runPlan(p, nil)
		a.Runs++
		a.Last = seed
		a.Steps += r.Steps
		if r.Steps > a.MaxSteps {
			a.MaxSteps = r.Steps
		}
		a.SimNS += float64(r.SimNS)
		a.Switches += r.Switches
		a.Decisions += r.Decisions
		fm := faultMap(&r.Counts)
		faults := 0
		for k, v := range fm {
			a.Counts[k] += v
			a.RunsWith[k]++
			if k != "preemption" {
				faults++
			}
		}
		for k, v := range r.Stats {
			a.Stats[k] += v
		}
		if faults > 0 && r.Counts[zzrt.CPreempt] > 0 {
			a.NonTrivial++
			if len(scheds) < 1<<20 {
				scheds[r.Sched^r.Hash] = struct{}{}
			}
		}
		for k := range r.State {
			if len(states) < 1<<20 {
				states[k] = struct{}{}
			}
		}
		if len(a.Samples) < 2 && faults > 1 && (a.Runs > 3 || maxRuns > 0) {
			a.Samples = append(a.Samples, Sample{Seed: seed, Plan: p.summary(), Steps: r.Steps, SimMS: r.SimNS / 1e6,
				Sched: fmt.Sprintf("%016x", r.Sched), Faults: fm, Stats: r.Stats})
		}
		if h := r.hit(prop); h != nil {
			if h.Prop == "" {
				writeJSON(filepath.Join(dir, "trouble.json"), Hit{h.Prop, h.Kind, h.Msg, seed})
				code = exTrouble
			} else {
				writeJSON(filepath.Join(dir, "hit.json"), Hit{h.Prop, h.Kind, h.Msg, seed})
				code = exHit
			}
			break
		}
	}
	a.WallS = time.Since(t0).Seconds()
	writeJSON(filepath.Join(dir, "agg.json"), a)
	dump := func(name string, m map[uint64]struct{}) {
		b := make([]byte, 0, 8*len(m))
		for k := range m {
			b = binary.LittleEndian.AppendUint64(b, k)
		}
		os.WriteFile(filepath.Join(dir, name), b, 0o644)
	}
	dump("scheds.bin", scheds)
	dump("states.bin", states)
	return code
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness one|worker|min|replay|selftest ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "first seed")
	stride := fs.Uint64("stride", 1, "seed stride")
	n := fs.Int("n", 1, "seeds")
	all := fs.Bool("all", false, "report violations of every property")
	log := fs.Bool("log", false, "show the node's log")
	verbose := fs.Bool("v", false, "verbose")
	dir := fs.String("dir", ".", "output directory")
	secs := fs.Float64("secs", 30, "time budget")
	file := fs.String("file", "", "replay file")
	kind := fs.String("kind", "", "violation kind")
	fs.Parse(os.Args[2:])
	if *log {
		logOut = os.Stderr
	}
	warm()
	switch cmd {
	case "worker":
		mr := int64(0)
		if *n > 1 {
			mr = int64(*n)
		}
		os.Exit(worker(*prop, *dir, *seed, *stride, *secs, mr))
	case "min":
		os.Exit(minimise(*prop, *kind, *seed, *file, *secs))
	case "replay":
		os.Exit(replay(*file, *verbose))
	case "plan": // an unminimised replay file
		p := genPlan(*prop, *seed)
		writeJSON(*file, &Replay{Property: *prop, Kind: *kind, Plan: *p, Explore: true})
	case "selftest":
		os.Exit(selftest(*prop, *seed, *n))
	case "components":
		json.NewEncoder(os.Stdout).Encode(components(*prop))
	case "one":
		one(*prop, *seed, *n, *all, *verbose)
	default:
		os.Exit(2)
	}
}

func one(prop string, seed uint64, n int, all, verbose bool) {
	t0 := time.Now()
	tot := &Result{Stats: map[string]int64{}}
	kinds := map[string]int{}
	var slow time.Duration
	var slowSeed uint64
	for i := 0; i < n; i++ {
		p := genPlan(prop, seed+uint64(i))
		if verbose {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(b))
		}
		t1 := time.Now()
		r := runPlan(p, nil)
		if d := time.Since(t1); d > slow {
			slow, slowSeed = d, seed+uint64(i)
		}
		for k, v := range r.Stats {
			tot.Stats[k] += v
		}
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		tot.Steps += r.Steps
		tot.SimNS += r.SimNS
		for _, v := range r.V {
			if v.Prop == prop || v.Prop == "" || all {
				key := v.Prop + " " + v.Kind
				kinds[key]++
				if kinds[key] <= 2 {
					fmt.Printf("seed %d: %s %s @%.3fs: %s\n", seed+uint64(i), v.Prop, v.Kind, float64(v.Time)/1e9, v.Msg)
				}
			}
		}
	}
	d := time.Since(t0)
	fmt.Printf("%s: %d runs in %v (slowest %v, seed %d), %d steps, %.0f simulated s; stats %v\n", prop, n, d, slow, slowSeed, tot.Steps, float64(tot.SimNS)/1e9, tot.Stats)
	fmt.Println(faultMap(&tot.Counts))
	for k, c := range kinds {
		fmt.Println(c, k)
	}
}

// selftest runs seeds twice and replays their traces: everything must agree.
func selftest(prop string, seed uint64, n int) int {
	bad := 0
	for i := 0; i < n; i++ {
		p := genPlan(prop, seed+uint64(i))
		a := runPlan(p, nil)
		b := runPlan(p.clone(), nil)
		tr := traceIn(traceOut(a.Trace))
		c := runPlan(p.clone(), &tr)
		if a.Hash != b.Hash || a.Sched != b.Sched || len(a.V) != len(b.V) {
			fmt.Printf("seed %d: two runs differ: %x/%x %x/%x steps %d %d\n", seed+uint64(i), a.Hash, b.Hash, a.Sched, b.Sched, a.Steps, b.Steps)
			bad++
		}
		if a.Hash != c.Hash || len(a.V) != len(c.V) {
			fmt.Printf("seed %d: replay differs: %x/%x steps %d %d\n", seed+uint64(i), a.Hash, c.Hash, a.Steps, c.Steps)
			bad++
		}
	}
	fmt.Printf("%s: %d seeds, %d differences\n", prop, n, bad)
	if bad > 0 {
		return exTrouble
	}
	return exOK
}
