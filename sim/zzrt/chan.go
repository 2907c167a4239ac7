//go:build go1.24

package zzrt

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Channels: the real channel value is only an identity; its simulated state
// lives in a side table. Element values travel boxed, so that everything here
// is plain non-generic code (compiled without race instrumentation); the
// happens-before edges of a channel are announced explicitly.

type chanEnt struct {
	key unsafe.Pointer
	val *hchan
}

type hchan struct {
	pin    any // keeps the real channel alive, so its address stays unique
	cap    int
	buf    []any
	slots  []byte
	head   int
	count  int
	closed bool
	cAddr  byte
	timed  bool // a timer sends to it
	tm     byte
	recvq  []*waiter
	sendq  []*waiter
}

type selState struct {
	fired bool
	idx   int
}

type waiter struct {
	t    *Task
	val  any
	ok   bool
	sel  *selState
	idx  int
	addr byte
}

func ptrOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (s *Sim) lookup(p unsafe.Pointer) *hchan {
	m := uintptr(len(s.chans) - 1)
	for i := (uintptr(p) >> 4) * 0x9e3779b1 & m; ; i = (i + 1) & m {
		if s.chans[i].key == p {
			return s.chans[i].val
		}
		if s.chans[i].key == nil {
			return nil
		}
	}
}

func (s *Sim) insert(p unsafe.Pointer, v *hchan) {
	if s.chanN*2 > len(s.chans) {
		old := s.chans
		s.chans = make([]chanEnt, 2*len(old))
		s.chanN = 0
		for _, e := range old {
			if e.key != nil {
				s.insert(e.key, e.val)
			}
		}
	}
	m := uintptr(len(s.chans) - 1)
	i := (uintptr(p) >> 4) * 0x9e3779b1 & m
	for s.chans[i].key != nil {
		i = (i + 1) & m
	}
	s.chans[i] = chanEnt{p, v}
	s.chanN++
}

func getChan(p unsafe.Pointer, pin any, capacity int) *hchan {
	s := Cur
	if v := s.lookup(p); v != nil {
		return v
	}
	h := &hchan{pin: pin, cap: capacity, buf: make([]any, capacity), slots: make([]byte, capacity+1)}
	h.adopt(p)
	s.insert(p, h)
	return h
}

// adopt takes over what was done to the real channel before the simulation
// began, when package variables were initialised.
func (h *hchan) adopt(p unsafe.Pointer) {
	v := reflect.ValueOf(h.pin)
	if v.Type().ChanDir() == reflect.SendDir {
		v = reflect.NewAt(reflect.ChanOf(reflect.BothDir, v.Type().Elem()), unsafe.Pointer(&p)).Elem()
	}
	for {
		x, ok := v.TryRecv()
		if !ok {
			h.closed = x.IsValid()
			return
		}
		h.buf[h.count] = x.Interface()
		h.count++
	}
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (h *hchan) canSend() bool { return h.closed || h.count < h.cap || live(h.recvq) }
func (h *hchan) canRecv() bool { return h.closed || h.count > 0 || live(h.sendq) }

// doSend assumes canSend.
func (h *hchan) doSend(v any, sched bool) {
	if h.closed {
		panic("send on closed channel")
	}
	if w := pop(&h.recvq); w != nil {
		if !sched {
			RaceAcquire(unsafe.Pointer(&w.addr))
			RaceRelease(unsafe.Pointer(&w.addr))
		}
		w.val, w.ok = v, true
		Cur.makeRunnable(w.t)
		return
	}
	i := (h.head + h.count) % h.cap
	if !sched {
		RaceAcquire(unsafe.Pointer(&h.slots[i]))
		RaceRelease(unsafe.Pointer(&h.slots[i]))
	}
	h.buf[i] = v
	h.count++
}

func (h *hchan) doRecv() (v any, ok bool) {
	h.acquireTimer()
	if h.count > 0 {
		p := unsafe.Pointer(&h.slots[h.head])
		RaceAcquire(p)
		v = h.buf[h.head]
		h.buf[h.head] = nil
		RaceRelease(p)
		h.head = (h.head + 1) % h.cap
		h.count--
		if w := pop(&h.sendq); w != nil {
			i := (h.head + h.count) % h.cap
			RaceAcquire(unsafe.Pointer(&w.addr))
			RaceRelease(unsafe.Pointer(&h.slots[i]))
			RaceRelease(unsafe.Pointer(&w.addr))
			h.buf[i] = w.val
			h.count++
			w.ok = true
			Cur.makeRunnable(w.t)
		}
		return v, true
	}
	if w := pop(&h.sendq); w != nil {
		RaceAcquire(unsafe.Pointer(&w.addr))
		v = w.val
		RaceRelease(unsafe.Pointer(&w.addr))
		w.ok = true
		Cur.makeRunnable(w.t)
		return v, true
	}
	RaceAcquire(unsafe.Pointer(&h.cAddr))
	return nil, false
}

func chSend(p unsafe.Pointer, pin any, capacity int, v any) {
	s := Cur
	if s.dead {
		runtime.Goexit()
	}
	yieldOp(10)
	if p == nil {
		BlockForever()
	}
	h := getChan(p, pin, capacity)
	if h.canSend() {
		h.doSend(v, false)
		return
	}
	w := &waiter{t: s.cur, val: v}
	RaceRelease(unsafe.Pointer(&w.addr))
	h.sendq = append(h.sendq, w)
	s.block("chan send", nil)
	RaceAcquire(unsafe.Pointer(&w.addr))
	if !w.ok {
		panic("send on closed channel")
	}
}

func chRecv(p unsafe.Pointer, pin any, capacity int) (any, bool) {
	s := Cur
	if s.dead {
		runtime.Goexit()
	}
	yieldOp(11)
	if p == nil {
		BlockForever()
	}
	h := getChan(p, pin, capacity)
	if h.canRecv() {
		return h.doRecv()
	}
	w := &waiter{t: s.cur}
	RaceRelease(unsafe.Pointer(&w.addr))
	h.recvq = append(h.recvq, w)
	s.block("chan receive", nil)
	RaceAcquire(unsafe.Pointer(&w.addr))
	h.acquireTimer()
	if !w.ok {
		RaceAcquire(unsafe.Pointer(&h.cAddr))
	}
	return w.val, w.ok
}

func chClose(p unsafe.Pointer, pin any, capacity int) {
	s := Cur
	if s.dead {
		return
	}
	yieldOp(12)
	if p == nil {
		panic("close of nil channel")
	}
	h := getChan(p, pin, capacity)
	if h.closed {
		panic("close of closed channel")
	}
	h.closed = true
	RaceRelease(unsafe.Pointer(&h.cAddr))
	for w := pop(&h.recvq); w != nil; w = pop(&h.recvq) {
		w.ok = false
		s.makeRunnable(w.t)
	}
	for w := pop(&h.sendq); w != nil; w = pop(&h.sendq) {
		w.ok = false
		s.makeRunnable(w.t)
	}
}

func chLen(p unsafe.Pointer, pin any, capacity int) int {
	yieldOp(13)
	return getChan(p, pin, capacity).count
}

func inSim() bool { return Cur != nil && Cur.cur != nil }

// Send is the send statement: Send(ch)(v).
//
//go:norace
func Send[C ~chan T | ~chan<- T, T any](ch C) func(T) {
	return func(v T) {
		if !inSim() {
			(chan<- T)(ch) <- v
			return
		}
		chSend(ptrOf(ch), ch, cap(ch), v)
	}
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	if !inSim() {
		v, ok := <-(<-chan T)(ch)
		return v, ok
	}
	x, ok := chRecv(ptrOf(ch), ch, cap(ch))
	v, _ := x.(T)
	return v, ok
}

// Recv is <-ch.
//
//go:norace
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := Recv2[C, T](ch)
	return v
}

// RangeChan starts a range over a channel.
//
//go:norace
func RangeChan[C ~chan T | ~<-chan T, T any](ch C) (C, T, bool) {
	v, ok := Recv2[C, T](ch)
	return ch, v, ok
}

// Close is the close builtin.
//
//go:norace
func Close[C ~chan T | ~chan<- T, T any](ch C) {
	if !inSim() {
		close((chan<- T)(ch))
		return
	}
	chClose(ptrOf(ch), ch, cap(ch))
}

// ChanLen is len(ch).
//
//go:norace
func ChanLen(ch any) int {
	v := reflect.ValueOf(ch)
	p := v.UnsafePointer()
	if !inSim() || p == nil {
		return v.Len()
	}
	return chLen(p, ch, v.Cap())
}

// TimerArmed orders setting a timer before what is received from its channel.
func TimerArmed[T any](ch chan T) {
	if !RaceBuild || !inSim() {
		return
	}
	h := getChan(ptrOf(ch), ch, cap(ch))
	h.timed = true
	RaceReleaseMerge(unsafe.Pointer(&h.tm))
}

func (h *hchan) acquireTimer() {
	if h.timed {
		RaceAcquire(unsafe.Pointer(&h.tm))
	}
}

// SchedSend sends without blocking from scheduler context; false if it would block.
func SchedSend[T any](ch chan T, v T) bool {
	h := getChan(ptrOf(ch), ch, cap(ch))
	if h.closed || !h.canSend() {
		return false
	}
	h.doSend(v, true)
	return true
}

// Drain empties a buffered channel.
func Drain[T any](ch chan T) {
	h := getChan(ptrOf(ch), ch, cap(ch))
	h.count, h.head = 0, 0
}

// SchedClose closes a channel from scheduler context.
func SchedClose[T any](ch chan T) {
	h := getChan(ptrOf(ch), ch, cap(ch))
	if h.closed {
		return
	}
	h.closed = true
	for w := pop(&h.recvq); w != nil; w = pop(&h.recvq) {
		w.ok = false
		Cur.makeRunnable(w.t)
	}
}

// --- select ---

type selCase struct {
	h    *hchan
	send bool
	v    any
	ok   bool
	w    *waiter
}

// Select collects the cases of a select statement.
type Select struct{ cases []*selCase }

// NewSelect starts a select.
func NewSelect() *Select { return &Select{} }

func (s *Select) add(p unsafe.Pointer, pin any, capacity int, send bool, v any) *selCase {
	c := &selCase{send: send, v: v}
	if p != nil && InSim() {
		c.h = getChan(p, pin, capacity)
	}
	s.cases = append(s.cases, c)
	return c
}

// RecvCase is a receive case.
type RecvCase[T any] struct{ c *selCase }

// V is the received value.
//
//go:norace
func (r RecvCase[T]) V() T { v, _ := r.c.v.(T); return v }

// OK says whether the value came from a send.
func (r RecvCase[T]) OK() bool { return r.c.ok }

// V2 returns both.
//
//go:norace
func (r RecvCase[T]) V2() (T, bool) { v, _ := r.c.v.(T); return v, r.c.ok }

// SelRecv adds a receive case.
//
//go:norace
func SelRecv[C ~chan T | ~<-chan T, T any](s *Select, ch C) RecvCase[T] {
	return RecvCase[T]{s.add(ptrOf(ch), ch, cap(ch), false, nil)}
}

// SelSend adds a send case: SelSend(sel, ch)(v).
//
//go:norace
func SelSend[C ~chan T | ~chan<- T, T any](s *Select, ch C) func(T) {
	return func(v T) { s.add(ptrOf(ch), ch, cap(ch), true, v) }
}

func (c *selCase) ready() bool {
	if c.h == nil {
		return false
	}
	if c.send {
		return c.h.canSend()
	}
	return c.h.canRecv()
}

// Do performs the select; -1 is the default case.
func (sl *Select) Do(hasDefault bool) int {
	s := Cur
	if s == nil || s.cur == nil {
		panic("select outside simulation")
	}
	if s.dead {
		runtime.Goexit()
	}
	yieldOp(14)
	n := 0
	for _, c := range sl.cases {
		if c.ready() {
			n++
		}
	}
	if n > 0 {
		k := s.env.intn(n)
		for i, c := range sl.cases {
			if c.ready() {
				if k == 0 {
					if c.send {
						c.h.doSend(c.v, false)
					} else {
						c.v, c.ok = c.h.doRecv()
					}
					return i
				}
				k--
			}
		}
	}
	if hasDefault {
		return -1
	}
	st := &selState{}
	for i, c := range sl.cases {
		if c.h == nil {
			continue
		}
		c.w = &waiter{t: s.cur, val: c.v, sel: st, idx: i}
		RaceRelease(unsafe.Pointer(&c.w.addr))
		if c.send {
			c.h.sendq = append(c.h.sendq, c.w)
		} else {
			c.h.recvq = append(c.h.recvq, c.w)
		}
	}
	s.block("select", nil)
	c := sl.cases[st.idx]
	RaceAcquire(unsafe.Pointer(&c.w.addr))
	if c.send {
		if !c.w.ok {
			panic("send on closed channel")
		}
	} else {
		c.h.acquireTimer()
		if !c.w.ok {
			RaceAcquire(unsafe.Pointer(&c.h.cAddr))
		}
		c.v, c.ok = c.w.val, c.w.ok
	}
	return st.idx
}
