//go:build go1.24

// Package zmark separates node code from harness code it calls. It is the one
// simulator package compiled with race instrumentation: its frame shows up in
// race reports, so accesses below it are known to be the harness' own. Inside,
// synchronisation is ignored, so that the harness orders nothing.
package zmark

import "github.com/dblokhin/gringo/zzsim/zzrt"

// Do runs harness code called by the node.
//
//go:noinline
func Do(fn func()) {
	if !zzrt.RaceBuild {
		fn()
		return
	}
	zzrt.RaceMute()
	defer zzrt.RaceUnmute()
	fn()
}
