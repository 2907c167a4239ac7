//go:build go1.24

// Package zzrt is the simulated runtime: a cooperative scheduler that runs the
// instrumented program one goroutine ("task") at a time, decides every
// interleaving, owns the clock, and records every decision it takes.
//
// In race builds this package is compiled without race instrumentation and
// hands the token over with race synchronisation events ignored, so the race
// detector sees only the happens-before edges the simulated primitives create.
package zzrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Choice kinds. Each has its own decision stream.
const (
	KSched = iota // which runnable task continues
	KNet          // latency, fragmentation
	KStall        // stall of a task
	KFault        // misc. fault coins
	NKinds
)

const (
	stRunnable = iota
	stBlocked
	stDead
	stKilled // crashed: never runs again, unwound at the end of the run
)

// Task is one simulated goroutine.
type Task struct {
	ID    int
	Owner int // 0: harness, >0: node id
	Name  string

	gate    chan struct{}
	state   int
	why     string
	waitOn  unsafe.Pointer
	prio    uint64
	cont    int
	noStall bool
	hb      byte // what the task had done when it last gave way
	mute    bool // the race detector ignores its synchronisation
	started bool
}

// Config of one run.
type Config struct {
	Seed     uint64 // seeds the decision streams (explore mode)
	EnvSeed  uint64 // seeds fair environment choices: map order, select, rand
	Policy   int    // 0 fifo/sticky, 1 uniform, 2 pct, 3 sticky-random
	StickyPc int    // percent chance to keep the current task (policy 3)
	PctDepth int
	StallPm  int // per-mille chance of a stall at a yield of a node task
	MaxSteps int64

	Replay   bool
	Trace    [NKinds]map[int]int // sparse, for replay
	WallBase int64               // unix ns at sim time 0
}

// Crash describes the death of a simulated process.
type Crash struct {
	Owner int
	Kind  string // panic, exit, hang, livelock
	Msg   string
	Stack string
	Task  string
}

type timer struct {
	at  int64
	seq uint64
	fn  func()
	idx int
}

// Sim is one simulation run.
type Sim struct {
	Lapsed int64 // how long the process was suspended
	cfg     Config
	now     int64
	wallOff int64
	tasks   []*Task
	live    int
	runq    []*Task
	cur     *Task
	root    *Task
	heap    []*timer
	tseq    uint64

	rng    [NKinds]rng
	env    rng
	nidx   [NKinds]int
	rec    [NKinds][]traceEnt
	pctPts []int64
	pctLow uint64

	steps      int64
	Switches   int64
	Decisions  int64
	stepsAtNow int64
	loops      int64
	hash       uint64
	schedHash  uint64

	dead    bool
	aborted bool
	crash   *Crash
	ended   chan struct{}

	chans     []chanEnt
	chanN     int
	FaultsOff bool
	Counts    [32]int64
	Hook      func() // invariant hook, run in root context only
	OnEnd     func() // called when the root has ended, before the rest is torn down
}

type traceEnt struct{ i, v int }

// Cur is the running simulation, nil outside runs.
var Cur *Sim

// FaultCounter indexes.
const (
	CStall = iota
	CFrag
	CLatency
	CReset
	CPartition
	CRefuse
	CBlackhole
	CWindow
	CShortWrite
	CWriteErr
	CCut
	CClockJump
	CCrashRestart
	CLostBlock
	CCorruptBlock
	CHostile
	CStopReading
	CHalfClose
	CDrip
	CHandshakeStall
	CPreempt
	CDelayDial
	CLapse
)

// CounterNames names Sim.Counts.
var CounterNames = []string{"task_stall", "fragmented_delivery", "delayed_delivery", "reset", "partition",
	"dial_refused", "dial_blackhole", "write_blocked_on_window", "short_write", "write_error", "cut_mid_frame", "clock_jump",
	"crash_restart", "lost_block", "corrupted_block", "hostile_frame", "peer_stops_reading", "half_close", "byte_drip",
	"handshake_stall", "preemption", "delayed_dial", "process_suspended"}

// Count notes that a fault fired.
func Count(c int) {
	if s := Cur; s != nil {
		s.Counts[c]++
	}
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// NewSim prepares a run.
func NewSim(cfg Config) *Sim {
	s := &Sim{cfg: cfg}
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 3000000
	}
	for k := range s.rng {
		s.rng[k].s = cfg.Seed ^ uint64(k+1)*0xd1342543de82ef95
		s.rng[k].s = s.rng[k].next()
	}
	s.env.s = cfg.EnvSeed ^ 0x5851f42d4c957f2d
	s.env.s = s.env.next()
	s.hash, s.schedHash = 14695981039346656037, 14695981039346656037
	s.pctLow = 1 << 40
	if cfg.Policy == 2 {
		for i := 0; i < cfg.PctDepth; i++ {
			s.pctPts = append(s.pctPts, int64(s.rng[KSched].intn(1500)))
		}
	}
	s.chans = make([]chanEnt, 256)
	return s
}

type abortT struct{}

// hbRun orders everything a run did before whatever follows it.
var hbRun byte

// Run executes root as the first task and returns when it ends.
func (s *Sim) Run(root func()) {
	if Cur != nil {
		panic("nested sim")
	}
	Cur = s
	s.ended = make(chan struct{}, 1)
	t := s.newTask(0, "root")
	s.root = t
	t.noStall = true
	s.cur = t
	t.state = stRunnable
	done := make(chan any, 1)
	go func() {
		var pv any
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortT); !ok {
					pv = fmt.Sprintf("harness root panic: %v\n%s", r, debug.Stack())
				}
			}
			RaceReleaseMerge(unsafe.Pointer(&hbRun))
			raceOff()
			done <- pv
			raceOn()
		}()
		root()
	}()
	raceOff()
	pv := <-done
	raceOn()
	RaceAcquire(unsafe.Pointer(&hbRun))
	if s.OnEnd != nil {
		s.OnEnd()
	}
	t.state = stDead
	// tear down: resume every remaining task so that it unwinds.
	s.dead = true
	for i := 0; i < len(s.tasks); i++ {
		x := s.tasks[i]
		if x.state == stDead {
			continue
		}
		s.cur = x
		raceOff()
		x.gate <- struct{}{}
		<-s.ended
		raceOn()
	}
	RaceAcquire(unsafe.Pointer(&hbRun))
	s.cur = nil
	Cur = nil
	if pv != nil {
		panic(pv)
	}
}

func (s *Sim) newTask(owner int, name string) *Task {
	t := &Task{ID: len(s.tasks), Owner: owner, Name: name, gate: make(chan struct{}, 1), state: stBlocked}
	t.prio = s.rng[KSched].s ^ uint64(t.ID)*0x9e3779b97f4a7c15
	r := rng{t.prio}
	t.prio = (r.next() >> 8) | 1<<50
	s.tasks = append(s.tasks, t)
	s.live++
	return t
}

func (t *Task) main(s *Sim, fn func()) {
	defer t.finish(s)
	raceOff()
	<-t.gate
	raceOn()
	t.started = true
	if s.dead {
		return
	}
	if t.mute {
		raceOff()
		defer raceOn()
	}
	fn()
}

func (t *Task) finish(s *Sim) {
	if r := recover(); r != nil && !s.dead {
		if _, ok := r.(abortT); !ok {
			s.setCrash(&Crash{Owner: t.Owner, Kind: "panic", Msg: fmt.Sprint(r), Stack: string(debug.Stack()), Task: t.Name})
		}
	}
	t.state = stDead
	s.live--
	RaceReleaseMerge(unsafe.Pointer(&hbRun))
	if s.dead {
		raceOff()
		s.ended <- struct{}{}
		raceOn()
		return
	}
	n := s.pickNext(nil)
	s.cur = n
	raceOff()
	n.gate <- struct{}{}
	raceOn()
}

func (s *Sim) setCrash(c *Crash) {
	if s.crash == nil {
		s.crash = c
	}
	s.abort()
}

func (s *Sim) abort() {
	if s.aborted {
		return
	}
	s.aborted = true
	if s.root.state == stBlocked {
		s.makeRunnable(s.root)
	}
}

// CrashInfo returns the crash that ended the run, if any.
func (s *Sim) CrashInfo() *Crash { return s.crash }

// Fail aborts the run from harness code (the caller recorded why).
func (s *Sim) Abort() {
	s.abort()
	Yield()
}

func (s *Sim) makeRunnable(t *Task) {
	if t.state != stBlocked {
		return
	}
	t.state = stRunnable
	t.waitOn = nil
	t.why = ""
	s.runq = append(s.runq, t)
}

func (s *Sim) removeRun(i int) *Task {
	t := s.runq[i]
	for j := i; j+1 < len(s.runq); j++ {
		s.runq[j] = s.runq[j+1]
	}
	s.runq[len(s.runq)-1] = nil
	s.runq = s.runq[:len(s.runq)-1]
	return t
}

// choose takes one recorded decision in [0,n).
func (s *Sim) choose(kind, n int, explore func() int) int {
	if n <= 1 {
		return 0
	}
	i := s.nidx[kind]
	s.nidx[kind]++
	var v int
	if s.cfg.Replay {
		v = s.cfg.Trace[kind][i]
		if v >= n {
			v = n - 1
		}
	} else {
		v = explore()
	}
	if v != 0 {
		s.rec[kind] = append(s.rec[kind], traceEnt{i, v})
	}
	return v
}

// Choose takes a recorded decision: 0 with probability 1-pm/1000, otherwise
// uniform in [1,n).
func (s *Sim) Choose(kind, n, pm int) int {
	return s.choose(kind, n, func() int {
		r := &s.rng[kind]
		if pm < 1000 && r.intn(1000) >= pm {
			return 0
		}
		return 1 + r.intn(n-1)
	})
}

// EnvN is a fair environment choice (not part of the trace).
func (s *Sim) EnvN(n int) int { return s.env.intn(n) }

// EnvU64 is a fair environment word.
func (s *Sim) EnvU64() uint64 { return s.env.next() }

// TraceOut returns the recorded non-default decisions.
func (s *Sim) TraceOut() [NKinds]map[int]int {
	var out [NKinds]map[int]int
	for k := range s.rec {
		out[k] = map[int]int{}
		for _, e := range s.rec[k] {
			out[k][e.i] = e.v
		}
	}
	return out
}

// pickNext chooses the next task; self is the running task if it may go on.
func (s *Sim) pickNext(self *Task) *Task {
	if s.aborted {
		if s.root.state == stRunnable && s.root != self {
			for i := range s.runq {
				if s.runq[i] == s.root {
					s.removeRun(i)
					break
				}
			}
			if self != nil {
				s.runq = append(s.runq, self)
			}
		}
		return s.root
	}
	s.stepsAtNow++
	if s.stepsAtNow > 400000 {
		s.crash = &Crash{Owner: -1, Kind: "livelock", Msg: "no progress of simulated time", Task: taskName(self)}
		if self != nil {
			s.crash.Owner = self.Owner
			s.crash.Stack = string(debug.Stack())
		}
		s.abort()
		return s.pickNext(self)
	}
	for len(s.runq) == 0 && self == nil {
		if !s.advance() {
			// Everything is blocked for ever; the root is too.
			s.crash = &Crash{Owner: -1, Kind: "harness-deadlock", Msg: s.Dump()}
			s.abort()
			return s.pickNext(nil)
		}
		if s.aborted {
			return s.pickNext(nil)
		}
	}
	n := len(s.runq)
	off := 0
	if self != nil {
		n++
		off = 1
	}
	if n == 1 {
		if self != nil {
			return self
		}
		return s.removeRun(0)
	}
	s.Decisions++
	var v int
	if self != nil && self.cont > 300 {
		self.cont = 0
		v = 1
	} else {
		v = s.choose(KSched, n, func() int { return s.policy(self, n, off) })
	}
	s.schedHash = (s.schedHash ^ uint64(v+1)) * 1099511628211
	if self != nil {
		if v == 0 {
			self.cont++
			return self
		}
		self.cont = 0
		s.Counts[CPreempt]++
		t := s.removeRun(v - 1)
		s.runq = append(s.runq, self)
		return t
	}
	return s.removeRun(v)
}

func (s *Sim) policy(self *Task, n, off int) int {
	r := &s.rng[KSched]
	switch s.cfg.Policy {
	case 1:
		return r.intn(n)
	case 2:
		for _, p := range s.pctPts {
			if s.Decisions == p && self != nil {
				s.pctLow--
				self.prio = s.pctLow
			}
		}
		best, bi := uint64(0), 0
		if self != nil {
			best = self.prio
		}
		for i := 0; i < len(s.runq); i++ {
			if p := s.runq[i].prio; p > best {
				best, bi = p, i+off
			}
		}
		return bi
	case 3:
		if self != nil && r.intn(100) < s.cfg.StickyPc {
			return 0
		}
		return r.intn(n)
	}
	return 0
}

func taskName(t *Task) string {
	if t == nil {
		return "?"
	}
	return t.Name
}

// advance moves the clock to the next timer and fires it.
func (s *Sim) advance() bool {
	if len(s.heap) == 0 {
		return false
	}
	tm := s.heap[0]
	s.popTimer(0)
	if tm.at > s.now {
		s.now = tm.at
		s.stepsAtNow = 0
		s.hash = (s.hash ^ uint64(s.now)) * 1099511628211
	}
	tm.fn()
	return true
}

func less(a, b *timer) bool { return a.at < b.at || (a.at == b.at && a.seq < b.seq) }

func (s *Sim) addTimer(at int64, fn func()) *timer {
	s.tseq++
	t := &timer{at: at, seq: s.tseq, fn: fn}
	s.heap = append(s.heap, t)
	i := len(s.heap) - 1
	t.idx = i
	s.up(i)
	return t
}
func (s *Sim) swap(i, j int) {
	s.heap[i], s.heap[j] = s.heap[j], s.heap[i]
	s.heap[i].idx, s.heap[j].idx = i, j
}
func (s *Sim) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !less(s.heap[i], s.heap[p]) {
			break
		}
		s.swap(i, p)
		i = p
	}
}
func (s *Sim) down(i int) {
	for {
		c := 2*i + 1
		if c >= len(s.heap) {
			return
		}
		if c+1 < len(s.heap) && less(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !less(s.heap[c], s.heap[i]) {
			return
		}
		s.swap(i, c)
		i = c
	}
}
func (s *Sim) popTimer(i int) {
	t := s.heap[i]
	l := len(s.heap) - 1
	s.swap(i, l)
	s.heap[l] = nil
	s.heap = s.heap[:l]
	if i < l {
		s.down(i)
		s.up(i)
	}
	t.idx = -1
}
func (s *Sim) stopTimer(t *timer) bool {
	if t == nil || t.idx < 0 {
		return false
	}
	s.popTimer(t.idx)
	return true
}

// switchTo hands the token from self (already queued or blocked) to n.
func (s *Sim) switchTo(self, n *Task) {
	if n == self {
		return
	}
	s.Switches++
	s.cur = n
	RaceReleaseMerge(unsafe.Pointer(&self.hb))
	raceOff()
	n.gate <- struct{}{}
	<-self.gate
	raceOn()
	s.resumed(self)
}

func (s *Sim) resumed(self *Task) {
	if s.dead {
		if self == s.root {
			panic(abortT{})
		}
		runtime.Goexit()
	}
	if s.aborted && self == s.root {
		panic(abortT{})
	}
}

var stallDur = []int64{0, 1e6, 20e6, 200e6, 1e9, 4e9, 15e9}

// Hb is the ordering a harness object hands to whoever uses it: whatever came
// before Publish happens before what follows Subscribe.
type Hb struct{ b byte }

// Publish and Subscribe tell the race detector.
func (h *Hb) Publish()   { RaceReleaseMerge(unsafe.Pointer(&h.b)) }
func (h *Hb) Subscribe() { RaceAcquire(unsafe.Pointer(&h.b)) }

// Yield is a scheduling point.
func Yield() { yieldOp(1) }

func yieldOp(op uint64) {
	s := Cur
	if s == nil || s.cur == nil {
		return
	}
	if s.dead {
		return
	}
	t := s.cur
	s.loops = 0
	s.steps++
	s.hash = (s.hash ^ (uint64(t.ID)<<8 | op)) * 1099511628211
	if s.aborted && t == s.root {
		panic(abortT{})
	}
	if s.steps > s.cfg.MaxSteps && !s.aborted {
		s.crash = &Crash{Owner: -1, Kind: "maxsteps", Msg: "step budget exhausted", Task: t.Name}
		s.abort()
	}
	if s.cfg.StallPm > 0 && !s.FaultsOff && t.Owner > 0 && !t.noStall && !s.aborted {
		if d := s.Choose(KStall, len(stallDur), s.cfg.StallPm); d != 0 {
			s.Counts[CStall]++
			s.sleep(stallDur[d])
			return
		}
	}
	n := s.pickNext(t)
	if n != t {
		s.switchTo(t, n)
	}
}

// block parks the current task until made runnable.
func (s *Sim) block(why string, on unsafe.Pointer) {
	t := s.cur
	t.state = stBlocked
	t.why = why
	t.waitOn = on
	t.cont = 0
	n := s.pickNext(nil)
	if n == t { // made runnable while picking
		s.resumed(t)
		return
	}
	s.switchTo(t, n)
}

// wakeAll makes every task blocked on p runnable.
func (s *Sim) wakeAll(p unsafe.Pointer) {
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == stBlocked && t.waitOn == p {
			s.makeRunnable(t)
		}
	}
	s.compact()
}

// compact drops dead tasks from the task list now and then.
func (s *Sim) compact() {}

func (s *Sim) sleep(d int64) {
	t := s.cur
	s.addTimer(s.now+d, func() { s.makeRunnable(t) })
	s.block("sleep", nil)
}

// InSim says whether the caller runs inside a live simulation.
func InSim() bool { return Cur != nil && Cur.cur != nil && !Cur.dead }

// Dead says the simulation is being torn down.
func Dead() bool { return Cur != nil && Cur.dead }

// Sleep suspends the current task for d simulated nanoseconds.
func Sleep(d int64) {
	if !InSim() {
		return
	}
	yieldOp(2)
	if d <= 0 {
		return
	}
	Cur.sleep(d)
}

// Now is the simulated monotonic time in ns.
func Now() int64 {
	if Cur == nil {
		return 0
	}
	return Cur.now
}

// WallNow is the node's wall clock, unix ns.
func WallNow() int64 {
	if Cur == nil {
		return 1545300000e9
	}
	return Cur.cfg.WallBase + Cur.now + Cur.wallOff
}

// JumpWall shifts the wall clock.
func (s *Sim) JumpWall(d int64) { s.wallOff += d; s.Counts[CClockJump]++ }

// Lapse lets d ns pass while nothing runs, as when the process is suspended:
// what should have happened meanwhile happens late.
func (s *Sim) Lapse(d int64) {
	s.now += d
	s.Lapsed += d
	s.stepsAtNow = 0
	s.hash = (s.hash ^ uint64(s.now)) * 1099511628211
	s.Counts[CLapse]++
}

// Steps is the global event sequence number.
func (s *Sim) Steps() int64 { return s.steps }

// Stamp returns a unique, increasing event number.
func Stamp() int64 {
	s := Cur
	s.steps++
	return s.steps
}

// Hash of the event log.
func (s *Sim) Hash() uint64 { return s.hash }

// SchedHash of the scheduling decisions.
func (s *Sim) SchedHash() uint64 { return s.schedHash }

// NowNS is the simulated time.
func (s *Sim) NowNS() int64 { return s.now }

// Mix folds an observation into the event hash (never perturbs the schedule).
func (s *Sim) Mix(x uint64) { s.hash = (s.hash ^ x) * 1099511628211 }

// TaskCount is the number of tasks created.
func (s *Sim) TaskCount() int { return len(s.tasks) }

// LiveOwned counts live tasks of an owner.
func (s *Sim) LiveOwned(owner int) int {
	n := 0
	for _, t := range s.tasks {
		if t.Owner == owner && t.state != stDead {
			n++
		}
	}
	return n
}

// Dump describes the live tasks.
func (s *Sim) Dump() string {
	out := ""
	for _, t := range s.tasks {
		if t.state != stDead {
			out += fmt.Sprintf("task %d owner=%d %s state=%d why=%s; ", t.ID, t.Owner, t.Name, t.state, t.why)
		}
	}
	return out
}

// Go starts a task; the replacement of the go statement.
func Go(fn func()) {
	s := Cur
	if s == nil || s.cur == nil {
		go fn()
		return
	}
	if s.dead {
		return
	}
	owner := s.cur.Owner
	t := s.newTask(owner, "")
	if owner == 0 {
		t.noStall = true
	}
	if RaceBuild || true {
		var pcs [2]uintptr
		if n := runtime.Callers(2, pcs[:]); n > 0 {
			f := runtime.FuncForPC(pcs[0])
			if f != nil {
				t.Name = f.Name()
			}
		}
	}
	go t.main(s, fn)
	s.makeRunnable(t)
	yieldOp(3)
}

// GoMute starts a named harness task that orders nothing.
func GoMute(name string, fn func()) *Task {
	t := GoNamed(0, name, fn)
	t.mute = true
	return t
}

// GoNamed starts a named task with the given owner.
func GoNamed(owner int, name string, fn func()) *Task {
	s := Cur
	t := s.newTask(owner, name)
	if owner == 0 {
		t.noStall = true
	}
	go t.main(s, fn)
	s.makeRunnable(t)
	return t
}

// As runs fn with the current task owned by owner.
func As(owner int, fn func()) {
	t := Cur.cur
	o, ns := t.Owner, t.noStall
	t.Owner, t.noStall = owner, ns
	defer func() { t.Owner, t.noStall = o, ns }()
	fn()
}

// Done says the task has ended.
func (t *Task) Done() bool { return t.state == stDead || t.state == stKilled }

// CurOwner is the owner of the running task.
func CurOwner() int {
	if Cur == nil || Cur.cur == nil {
		return 0
	}
	return Cur.cur.Owner
}

// CurTask is the id of the running task.
func CurTask() int {
	if Cur == nil || Cur.cur == nil {
		return -1
	}
	return Cur.cur.ID
}

// Loop is called at the head of every loop body of instrumented code.
func Loop() {
	s := Cur
	if s == nil || s.cur == nil {
		return
	}
	s.loops++
	if s.loops > 40000000 && !s.dead && !s.aborted {
		s.loops = 0
		s.setCrash(&Crash{Owner: s.cur.Owner, Kind: "hang", Msg: "loop does not terminate or yield", Stack: string(debug.Stack()), Task: s.cur.Name})
		yieldOp(4)
		runtime.Goexit()
	}
}

// Exit replaces os.Exit and is logrus' exit function.
func Exit(code int) {
	s := Cur
	if s == nil || s.cur == nil {
		panic(fmt.Sprintf("exit %d outside simulation", code))
	}
	if s.dead {
		runtime.Goexit()
	}
	s.setCrash(&Crash{Owner: s.cur.Owner, Kind: "exit", Msg: fmt.Sprintf("process exit %d", code), Stack: string(debug.Stack()), Task: s.cur.Name})
	yieldOp(5)
	runtime.Goexit()
}

// Fatal models a fatal runtime error (unrecoverable in Go).
func Fatal(msg string) {
	s := Cur
	if s == nil || s.cur == nil {
		panic(msg)
	}
	if s.dead {
		runtime.Goexit()
	}
	s.setCrash(&Crash{Owner: s.cur.Owner, Kind: "fatal", Msg: msg, Stack: string(debug.Stack()), Task: s.cur.Name})
	yieldOp(5)
	runtime.Goexit()
}

// Gosched replaces runtime.Gosched.
func Gosched() { yieldOp(6) }

// BlockForever is select{}.
func BlockForever() {
	if !InSim() {
		select {}
	}
	Cur.block("forever", nil)
	runtime.Goexit()
}

// --- primitives for the shims ---

// Kill crashes every task of an owner, wherever it is.
func (s *Sim) Kill(owner int) int {
	n := 0
	for _, t := range s.tasks {
		if t.Owner != owner || t == s.cur || t.state == stDead || t.state == stKilled {
			continue
		}
		for i, x := range s.runq {
			if x == t {
				s.removeRun(i)
				break
			}
		}
		t.state = stKilled
		RaceAcquire(unsafe.Pointer(&t.hb)) // whatever comes next comes after its death
		n++
	}
	s.Mix(uint64(n) | 1<<40)
	return n
}

// Wait blocks the current task on p.
func Wait(p unsafe.Pointer, why string) {
	if !InSim() {
		if Dead() {
			runtime.Goexit()
		}
		panic("blocking outside simulation: " + why)
	}
	Cur.block(why, p)
}

// WaitUntil blocks on p until woken or until time at; at<0 means no limit.
func WaitUntil(p unsafe.Pointer, why string, at int64) {
	if at < 0 {
		Wait(p, why)
		return
	}
	if !InSim() {
		if Dead() {
			runtime.Goexit()
		}
		panic("blocking outside simulation: " + why)
	}
	s := Cur
	t := s.cur
	tm := s.addTimer(at, func() { s.makeRunnable(t) })
	s.block(why, p)
	s.stopTimer(tm)
}

// Wake makes everything blocked on p runnable.
func Wake(p unsafe.Pointer) {
	if s := Cur; s != nil && !s.dead {
		s.wakeAll(p)
	}
}

// At schedules fn in scheduler context (must not block).
func At(at int64, fn func()) *Timer {
	s := Cur
	if s == nil || s.dead {
		return &Timer{}
	}
	return &Timer{s.addTimer(at, fn)}
}

// Timer is a handle on a scheduled callback.
type Timer struct{ t *timer }

// Stop cancels; true if it had not fired.
func (t *Timer) Stop() bool {
	if t == nil || Cur == nil {
		return false
	}
	return Cur.stopTimer(t.t)
}

// Point is a scheduling point tagged for the event log.
func Point(op int) { yieldOp(uint64(op)) }

// SpawnSched creates a task from scheduler context.
func SpawnSched(owner int, name string, fn func()) {
	s := Cur
	if s == nil || s.dead {
		return
	}
	t := s.newTask(owner, name)
	t.mute = owner == 0
	go t.main(s, fn)
	s.makeRunnable(t)
}

// timer ownership: AfterFunc callbacks run for the node that armed them.
var timerOwners []ownerEnt

type ownerEnt struct {
	p any
	o int
}

// SetTimerOwner notes the current owner for t.
func SetTimerOwner(t any) {
	o := CurOwner()
	if o == 0 {
		return
	}
	for i := range timerOwners {
		if timerOwners[i].p == t {
			timerOwners[i].o = o
			return
		}
	}
	timerOwners = append(timerOwners, ownerEnt{t, o})
}

// TimerOwner is the owner noted for t.
func TimerOwner(t any) int {
	for i := range timerOwners {
		if timerOwners[i].p == t {
			return timerOwners[i].o
		}
	}
	return 0
}

// ResetRun forgets everything kept between runs.
func ResetRun() { timerOwners = nil; ResetKeys() }

var offline = rng{s: 12345}

// EnvWord is a fair environment word, also outside simulations.
func EnvWord() uint64 {
	if Cur != nil {
		return Cur.env.next()
	}
	return offline.next()
}

// Zero resets a variable.
func Zero[T any](p *T) { var z T; *p = z }

// LogFatal replaces log.Fatal and friends.
func LogFatal(a ...any) { Exit(1) }

// PowHook, if set, vouches for proofs of work the harness made up.
var PowHook func(keys [4]uint64, nonces []uint32, edgeBits uint8) bool

// DumpOwned describes the live tasks of an owner.
func (s *Sim) DumpOwned(owner int) string {
	out := ""
	for _, t := range s.tasks {
		if t.state != stDead && t.Owner == owner {
			out += fmt.Sprintf("%s (%s); ", t.Name, t.why)
		}
	}
	return out
}
