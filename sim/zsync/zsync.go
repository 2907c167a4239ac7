//go:build go1.24

// Package zsync replaces package sync in instrumented code.
package zsync

import (
	"sync"
	"unsafe"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a simulated mutex.
type Mutex struct {
	held bool
	hb   byte
}

// Lock locks m.
func (m *Mutex) Lock() {
	if zzrt.Dead() {
		return
	}
	zzrt.Point(20)
	for m.held {
		zzrt.Wait(unsafe.Pointer(m), "mutex lock")
	}
	m.held = true
	zzrt.RaceAcquire(unsafe.Pointer(&m.hb))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if zzrt.Dead() {
		return true
	}
	zzrt.Point(21)
	if m.held {
		return false
	}
	m.held = true
	zzrt.RaceAcquire(unsafe.Pointer(&m.hb))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if zzrt.Dead() {
		return
	}
	if !m.held {
		zzrt.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	zzrt.RaceRelease(unsafe.Pointer(&m.hb))
	m.held = false
	zzrt.Wake(unsafe.Pointer(m))
	zzrt.Point(22)
}

// RWMutex is a simulated reader/writer mutex with writer preference.
type RWMutex struct {
	readers  int
	writer   bool
	wWaiting int
	hbW      byte
	hbR      byte
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if zzrt.Dead() {
		return
	}
	zzrt.Point(23)
	if m.writer || m.readers > 0 {
		m.wWaiting++
		for m.writer || m.readers > 0 {
			zzrt.Wait(unsafe.Pointer(m), "rwmutex lock")
		}
		m.wWaiting--
	}
	m.writer = true
	zzrt.RaceAcquire(unsafe.Pointer(&m.hbW))
	zzrt.RaceAcquire(unsafe.Pointer(&m.hbR))
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if zzrt.Dead() {
		return true
	}
	zzrt.Point(24)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	zzrt.RaceAcquire(unsafe.Pointer(&m.hbW))
	zzrt.RaceAcquire(unsafe.Pointer(&m.hbR))
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	if zzrt.Dead() {
		return
	}
	if !m.writer {
		zzrt.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	zzrt.RaceRelease(unsafe.Pointer(&m.hbW))
	m.writer = false
	zzrt.Wake(unsafe.Pointer(m))
	zzrt.Point(25)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if zzrt.Dead() {
		return
	}
	zzrt.Point(26)
	// A waiting writer excludes new readers (but not for ever: readers that
	// waited may enter once after the writer is done, as in package sync).
	if m.writer || m.wWaiting > 0 {
		for {
			zzrt.Wait(unsafe.Pointer(m), "rwmutex rlock")
			if !m.writer {
				break
			}
		}
	}
	m.readers++
	zzrt.RaceAcquire(unsafe.Pointer(&m.hbW))
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if zzrt.Dead() {
		return true
	}
	zzrt.Point(27)
	if m.writer || m.wWaiting > 0 {
		return false
	}
	m.readers++
	zzrt.RaceAcquire(unsafe.Pointer(&m.hbW))
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if zzrt.Dead() {
		return
	}
	if m.readers <= 0 {
		zzrt.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	zzrt.RaceReleaseMerge(unsafe.Pointer(&m.hbR))
	m.readers--
	if m.readers == 0 {
		zzrt.Wake(unsafe.Pointer(m))
	}
	zzrt.Point(28)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n  int
	hb byte
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	if zzrt.Dead() {
		return
	}
	zzrt.Point(30)
	if delta < 0 {
		zzrt.RaceReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		zzrt.Wake(unsafe.Pointer(w))
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to become zero.
func (w *WaitGroup) Wait() {
	if zzrt.Dead() {
		return
	}
	zzrt.Point(31)
	for w.n > 0 {
		zzrt.Wait(unsafe.Pointer(w), "waitgroup")
	}
	zzrt.RaceAcquire(unsafe.Pointer(&w.hb))
}

// Go runs f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zzrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a simulated once.
type Once struct {
	done bool
	m    Mutex
	hb   byte
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if zzrt.Dead() {
		return
	}
	zzrt.Point(32)
	if o.done {
		zzrt.RaceAcquire(unsafe.Pointer(&o.hb))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			zzrt.RaceRelease(unsafe.Pointer(&o.hb))
			o.done = true
		}()
		f()
	}
}

// OnceFunc is as in package sync.
func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if p = recover(); !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is as in package sync.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

// OnceValues is as in package sync.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

// Cond is a simulated condition variable.
type Cond struct {
	L    Locker
	wait []*condW
}
type condW struct {
	signaled bool
	hb       byte
}

// NewCond is as in package sync.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is as in package sync.
func (c *Cond) Wait() {
	if zzrt.Dead() {
		return
	}
	w := &condW{}
	c.wait = append(c.wait, w)
	c.L.Unlock()
	for !w.signaled {
		zzrt.Wait(unsafe.Pointer(w), "cond wait")
	}
	zzrt.RaceAcquire(unsafe.Pointer(&w.hb))
	c.L.Lock()
}

// Signal is as in package sync.
func (c *Cond) Signal() {
	if zzrt.Dead() {
		return
	}
	zzrt.Point(34)
	if len(c.wait) > 0 {
		w := c.wait[0]
		c.wait = c.wait[1:]
		w.signaled = true
		zzrt.RaceRelease(unsafe.Pointer(&w.hb))
		zzrt.Wake(unsafe.Pointer(w))
	}
}

// Broadcast is as in package sync.
func (c *Cond) Broadcast() {
	if zzrt.Dead() {
		return
	}
	zzrt.Point(35)
	for _, w := range c.wait {
		w.signaled = true
		zzrt.RaceRelease(unsafe.Pointer(&w.hb))
		zzrt.Wake(unsafe.Pointer(w))
	}
	c.wait = nil
}

// Map is a simulated concurrent map.
type Map struct {
	m    map[any]any
	keys []any
	hb   byte
}

func (m *Map) enter(op int) {
	zzrt.Point(op)
	zzrt.RaceAcquire(unsafe.Pointer(&m.hb))
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) leave() { zzrt.RaceRelease(unsafe.Pointer(&m.hb)) }
func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

// Load and the following are as in package sync.
func (m *Map) Load(k any) (any, bool) {
	m.enter(40)
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.enter(41); m.put(k, v); m.leave() }
func (m *Map) Clear()         { m.enter(41); m.m, m.keys = nil, nil; m.leave() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter(42)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	m.leave()
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter(43)
	v, ok := m.m[k]
	m.del(k)
	m.leave()
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter(44)
	o, ok := m.m[k]
	m.put(k, v)
	m.leave()
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter(45)
	if c, ok := m.m[k]; ok && c == o {
		m.put(k, n)
		m.leave()
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.enter(46)
	if c, ok := m.m[k]; ok && c == o {
		m.del(k)
		m.leave()
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.enter(47)
	ks := append([]any(nil), m.keys...)
	for _, k := range ks {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		m.enter(47)
	}
}

// Pool is a simulated pool: a LIFO, so reuse after Put is immediate.
type Pool struct {
	New   func() any
	items []any
	hb    byte
}

// Get takes an item.
func (p *Pool) Get() any {
	zzrt.Point(48)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		zzrt.RaceAcquire(unsafe.Pointer(&p.hb))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil || zzrt.Dead() {
		return
	}
	zzrt.Point(49)
	zzrt.RaceReleaseMerge(unsafe.Pointer(&p.hb))
	p.items = append(p.items, x)
}
