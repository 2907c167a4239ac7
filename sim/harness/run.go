//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"io"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/sirupsen/logrus"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// memLimit is the decode memory a run may not exceed.
const memLimit = 32 * 20000000

type world interface {
	root()
	out() ([]Violation, map[string]int64, map[uint64]struct{})
}

func (w *World) out() ([]Violation, map[string]int64, map[uint64]struct{}) {
	return w.v, w.stats.counts(), w.stateSet.set()
}

func resetNode() {
	p2p.SimReset()
	chain.SimReset()
	consensus.SimReset()
	zzrt.ResetRun()
	zzrt.PowHook = nil
}

func newLog(level int) {
	l := logrus.StandardLogger()
	l.ExitFunc = zzrt.Exit
	l.Out = io.Discard
	l.Level = logrus.Level(level)
	if level == 0 {
		l.Level = logrus.FatalLevel
	}
	if logOut != nil {
		l.Out = logOut
		l.Level = logrus.DebugLevel
	}
}

var logOut io.Writer

var reAddr = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+`)

// trimStack keeps the frames that belong to the node.
func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "gringo/") && !strings.Contains(l, "zzsim") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			keep = append(keep, strings.TrimPrefix(reAddr.ReplaceAllString(l, ""), "github.com/dblokhin/"))
		}
		if len(keep) == 4 {
			break
		}
	}
	return strings.Join(keep, " < ")
}

// runPlan executes a plan, exploring or replaying a trace.
func runPlan(p *Plan, trace *[zzrt.NKinds]map[int]int) *Result {
	k := &p.Knobs
	cfg := zzrt.Config{Seed: p.Seed, EnvSeed: p.Env, Policy: k.Policy, StickyPc: k.StickyPc, PctDepth: k.PctDepth,
		StallPm: k.StallPm, MaxSteps: maxSteps, WallBase: (1545300000 + k.WallBase) * 1e9}
	if trace != nil {
		cfg.Replay, cfg.Trace = true, *trace
	}
	newLog(k.LogLevel)
	resetNode()
	s := zzrt.NewSim(cfg)
	var w world
	switch p.World {
	case "A":
		w = newWorld(p, s)
	case "B":
		w = newWorldB(p, s)
	case "C":
		w = newWorldC(p, s)
	case "D":
		w = newWorldD(p, s)
	case "E":
		w = newWorldE(p, s)
	default:
		panic("unknown world " + p.World)
	}
	var m0, m1 runtime.MemStats
	mem := p.Mode == "mem"
	if mem {
		runtime.ReadMemStats(&m0)
	}
	var rEnd int64
	s.OnEnd = func() { rEnd = races.size() }
	races.take(0)
	var hp any
	func() {
		defer func() {
			if r := recover(); r != nil {
				hp = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		s.Run(w.root)
	}()
	r := &Result{}
	r.V, r.Stats, r.State = w.out()
	r.V = append(r.V, raceViolations(races.take(rEnd), s.NowNS())...)
	if hp != nil {
		r.V = append(r.V, Violation{"", "harness", fmt.Sprint(hp), s.NowNS()})
	}
	if mem {
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > memLimit {
			r.V = append(r.V, Violation{"C01", "memory", fmt.Sprintf("%d MB were allocated in a run whose messages take a few kB", d>>20), s.NowNS()})
		}
		r.Stats["alloc_mb"] = int64((m1.TotalAlloc - m0.TotalAlloc) >> 20)
	}
	if c := s.CrashInfo(); c != nil {
		switch {
		case c.Kind == "harness-deadlock", c.Owner == 0:
			r.V = append(r.V, Violation{"", "harness", fmt.Sprintf("%s: %s (%s)\n%s", c.Kind, c.Msg, c.Task, c.Stack), s.NowNS()})
		case c.Kind == "maxsteps":
			r.Stats["maxsteps"]++
		default:
			msg := c.Msg
			if len(msg) > 300 {
				msg = msg[:300]
			}
			r.V = append(r.V, Violation{p.Prop, "node-" + c.Kind, fmt.Sprintf("%s in goroutine %s: %s", msg, c.Task, trimStack(c.Stack)), s.NowNS()})
		}
	}
	r.Trace = s.TraceOut()
	r.Hash, r.Sched, r.Steps, r.SimNS = s.Hash(), s.SchedHash(), s.Steps(), s.NowNS()-s.Lapsed
	r.Switches, r.Decisions, r.Counts = s.Switches, s.Decisions, s.Counts
	return r
}

const maxSteps = 6000000

// hit returns the first violation of the checked property; harness trouble wins.
func (r *Result) hit(prop string) *Violation {
	for i := range r.V {
		if r.V[i].Prop == "" {
			return &r.V[i]
		}
	}
	for i := range r.V {
		if r.V[i].Prop == prop {
			return &r.V[i]
		}
	}
	return nil
}

func (r *Result) has(prop, kind string) *Violation {
	for i := range r.V {
		if r.V[i].Prop == prop && r.V[i].Kind == kind {
			return &r.V[i]
		}
	}
	return nil
}

var _ = bytes.NewReader
