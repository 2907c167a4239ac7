//go:build go1.24

// Package zmrand replaces math/rand in instrumented code: the global source is
// part of the simulation's environment.
package zmrand

import (
	"math/rand"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

type src struct{}

func (src) Seed(int64)     {}
func (src) Uint64() uint64 { return zzrt.EnvWord() }
func (src) Int63() int64   { return int64(zzrt.EnvWord() >> 1) }

var g = rand.New(src{})

func Seed(int64)                         {}
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int31() int32                       { return g.Int31() }
func Int() int                           { return g.Int() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(zzrt.EnvWord())
	}
	return len(p), nil
}
