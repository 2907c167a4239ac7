//go:build go1.24

package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// Knobs are the environment of one run.
type Knobs struct {
	Policy, StickyPc, PctDepth, StallPm                       int
	LatPm, FragPm, ShortPm, WErrPm, ResetPm, Window, BaseLatU int
	LogLevel                                                  int
	MaxConn, TableSize                                        int
	NilMempool                                                bool
	Split                                                     bool  // reads stop where a write ended
	WallBase                                                  int64 // unix s
	Lapse                                                     int64 `json:",omitempty"` // s the process is suspended in the end
}

// HostPlan is one remote address.
type HostPlan struct {
	Addr  string   // literal ip:port
	Name  string   `json:",omitempty"` // DNS name:port used instead of the literal address
	DNSms int      `json:",omitempty"`
	Known bool     `json:",omitempty"` // given to the node at start
	State string   `json:",omitempty"` // up refuse blackhole slow gone
	Delay int      `json:",omitempty"` // ms, for slow
	HS    []string `json:",omitempty"` // handshake behaviour per connection, last repeats
	Evil  bool     `json:",omitempty"` // misbehaves to the end
	Final string   `json:",omitempty"` // state after healing, default up
	Caps  uint32   `json:",omitempty"`
	TD    uint64   `json:",omitempty"`
	H     uint64   `json:",omitempty"` // height reported in pongs
	Agent int      `json:",omitempty"` // agent length
	Goss  []string `json:",omitempty"` // addresses told when asked
	Mute  bool     `json:",omitempty"` // does not answer pings
	Hush  bool     `json:",omitempty"` // silent once banned
	Tell  bool     `json:",omitempty"` // answers address requests
	Deaf  bool     `json:",omitempty"` // evil: asks for much after the handshake and never reads again
	Batch bool     `json:",omitempty"` // writes what it has queued without regard to frames
	In    bool     `json:",omitempty"` // inbound session
	Wrap  string   `json:",omitempty"` // misbehaviour of the connection object itself
	Start int      `json:",omitempty"` // ms between the handshake and Start, -1: never
}

// Step is one scripted action.
type Step struct {
	At int64  // ms of simulated time
	Op string // see world.go
	H  int    `json:",omitempty"`
	K  int    `json:",omitempty"`
	A  int64  `json:",omitempty"`
	B  int64  `json:",omitempty"`
	C  int64  `json:",omitempty"`
	S  string `json:",omitempty"`
}

// Plan is everything that defines a run besides the decisions taken in it.
type Plan struct {
	Prop  string
	World string
	Seed  uint64
	Env   uint64
	Knobs Knobs
	Hosts []HostPlan `json:",omitempty"`
	Steps []Step     `json:",omitempty"`
	Init  []Step     `json:",omitempty"` // world-specific setup
	End   int64      // ms: when the scripted part ends
	Mode  string     `json:",omitempty"` // what the run ends with
}

// Replay is a plan plus a decision trace.
type Replay struct {
	Property string
	Kind     string
	Message  string
	Plan     Plan
	Trace    map[string]map[string]int // stream -> index -> value
	Hash     string
	Race     bool
	Explore  bool   `json:",omitempty"` // no trace: decisions come from the seed
	Note     string `json:",omitempty"`
}

func traceOut(t [zzrt.NKinds]map[int]int) map[string]map[string]int {
	o := map[string]map[string]int{}
	for k, m := range t {
		x := map[string]int{}
		for i, v := range m {
			x[fmt.Sprint(i)] = v
		}
		o[kindNames[k]] = x
	}
	return o
}

func traceIn(o map[string]map[string]int) (t [zzrt.NKinds]map[int]int) {
	for k := range t {
		t[k] = map[int]int{}
		for i, v := range o[kindNames[k]] {
			var n int
			fmt.Sscan(i, &n)
			t[k][n] = v
		}
	}
	return
}

var kindNames = []string{"sched", "net", "stall", "fault"}

// Violation is a broken property.
type Violation struct {
	Prop, Kind, Msg string
	Time            int64 // simulated ns
}

// Result of a run.
type Result struct {
	V         []Violation
	Hash      uint64
	Sched     uint64
	Trace     [zzrt.NKinds]map[int]int
	Steps     int64
	SimNS     int64
	Switches  int64
	Decisions int64
	Counts    [32]int64
	State     map[uint64]struct{}
	Known     []string
	Stats     map[string]int64
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func sortSteps(s []Step) {
	sort.SliceStable(s, func(i, j int) bool { return s[i].At < s[j].At })
}

// rnd is the generator's random source.
type rnd struct{ s uint64 }

// newRnd hashes the seed, so that neighbouring seeds give unrelated streams.
func newRnd(seed uint64) *rnd {
	r := &rnd{seed + 0x1234567}
	r.s = r.u64() ^ seed<<32
	r.s = r.u64()
	return r
}
func (r *rnd) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rnd) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rnd) pc(p int) bool        { return r.n(100) < p }
func (r *rnd) in(a, b int) int      { return a + r.n(b-a+1) }
func (r *rnd) i64(n int64) int64    { return int64(r.u64() % uint64(n)) }
func pick[T any](r *rnd, xs ...T) T { return xs[r.n(len(xs))] }
