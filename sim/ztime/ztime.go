//go:build go1.24

// Package ztime replaces package time in instrumented code.
package ztime

import (
	"time"
	"unsafe"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// Now is the node's clock: wall reading plus a monotonic one, like time.Now.
func Now() time.Time {
	w := zzrt.WallNow()
	t := time.Unix(w/1e9, w%1e9).UTC()
	const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	sec := uint64(t.Unix() + unixToInternal - wallToInternal)
	if sec>>33 == 0 {
		r := (*rawTime)(unsafe.Pointer(&t))
		r.wall = 1<<63 | sec<<30 | uint64(t.Nanosecond())
		r.ext = zzrt.Now() + 1
	}
	return t
}

// Sleep and the following are as in package time.
func Sleep(d time.Duration)           { zzrt.Sleep(int64(d)) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	t  *zzrt.Timer
	on bool
	hb byte
}

func (t *Timer) arm(d time.Duration) {
	if d < 0 {
		d = 0
	}
	t.on = true
	if t.f != nil {
		zzrt.RaceReleaseMerge(unsafe.Pointer(&t.hb))
	} else {
		zzrt.TimerArmed(t.c)
	}
	t.t = zzrt.At(zzrt.Now()+int64(d), func() {
		t.on = false
		if t.f != nil {
			zzrt.SpawnSched(zzrt.TimerOwner(t), "time.AfterFunc", func() {
				zzrt.RaceAcquire(unsafe.Pointer(&t.hb))
				t.f()
			})
			return
		}
		zzrt.SchedSend(t.c, Now())
	})
	zzrt.SetTimerOwner(t)
}

// NewTimer is as in package time.
func NewTimer(d time.Duration) *Timer {
	zzrt.Point(70)
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc is as in package time.
func AfterFunc(d time.Duration, f func()) *Timer {
	zzrt.Point(71)
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// After is as in package time.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop is as in package time (no stale value after it).
func (t *Timer) Stop() bool {
	zzrt.Point(72)
	was := t.on
	t.on = false
	t.t.Stop()
	if t.c != nil && !zzrt.Dead() {
		zzrt.Drain(t.c)
	}
	return was
}

// Reset is as in package time.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *zzrt.Timer
}

// NewTicker is as in package time.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	zzrt.Point(73)
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	zzrt.TimerArmed(c)
	t.arm()
	return t
}
func (t *Ticker) arm() { t.at(zzrt.Now() + int64(t.d)) }

func (t *Ticker) at(n int64) {
	t.t = zzrt.At(n, func() {
		zzrt.SchedSend(t.c, Now())
		n += int64(t.d)
		if late := zzrt.Now() - n; late >= 0 {
			n += (late/int64(t.d) + 1) * int64(t.d) // ticks are dropped
		}
		t.at(n)
	})
}

// Stop is as in package time.
func (t *Ticker) Stop() {
	zzrt.Point(74)
	t.t.Stop()
	if !zzrt.Dead() {
		zzrt.Drain(t.c)
	}
}

// Reset is as in package time.
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	zzrt.TimerArmed(t.c)
	t.arm()
}

// Tick is as in package time.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
