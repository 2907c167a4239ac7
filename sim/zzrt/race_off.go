//go:build !race && go1.24

package zzrt

import "unsafe"

// RaceBuild is true when the Go race detector is compiled in.
const RaceBuild = false

func raceOff()                          {}
func raceOn()                           {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }

// RaceMute and RaceUnmute make the race detector ignore synchronisation in between.
func RaceMute()   {}
func RaceUnmute() {}

// RaceReadRange and RaceWriteRange announce accesses made on behalf of the caller.
func RaceReadRange(p unsafe.Pointer, n int)  {}
func RaceWriteRange(p unsafe.Pointer, n int) {}
