//go:build race && go1.24

package zzrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild is true when the Go race detector is compiled in.
const RaceBuild = true

func raceOff()                          { runtime.RaceDisable() }
func raceOn()                           { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                   { return runtime.RaceErrors() }

// RaceMute and RaceUnmute make the race detector ignore synchronisation in between.
func RaceMute() {
	if s := Cur; s != nil && s.cur != nil {
		runtime.RaceReleaseMerge(unsafe.Pointer(&s.cur.hb))
	}
	runtime.RaceDisable()
}
func RaceUnmute() { runtime.RaceEnable() }

// RaceReadRange and RaceWriteRange announce accesses made on behalf of the caller.
//
//go:noinline
func RaceReadRange(p unsafe.Pointer, n int) { runtime.RaceReadRange(p, n) }

//go:noinline
func RaceWriteRange(p unsafe.Pointer, n int) { runtime.RaceWriteRange(p, n) }
