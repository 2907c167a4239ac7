//go:build go1.24

// Package zmrand2 replaces math/rand/v2 in instrumented code.
package zmrand2

import (
	"math/rand/v2"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

type src struct{}

func (src) Uint64() uint64 { return zzrt.EnvWord() }

var g = rand.New(src{})

func Uint32() uint32                                                { return g.Uint32() }
func Uint64() uint64                                                { return g.Uint64() }
func Uint() uint                                                    { return g.Uint() }
func Int() int                                                      { return g.Int() }
func Int32() int32                                                  { return g.Int32() }
func Int64() int64                                                  { return g.Int64() }
func Int64N(n int64) int64                                          { return g.Int64N(n) }
func Int32N(n int32) int32                                          { return g.Int32N(n) }
func IntN(n int) int                                                { return g.IntN(n) }
func Uint32N(n uint32) uint32                                       { return g.Uint32N(n) }
func Uint64N(n uint64) uint64                                       { return g.Uint64N(n) }
func UintN(n uint) uint                                             { return g.UintN(n) }
func Float64() float64                                              { return g.Float64() }
func Float32() float32                                              { return g.Float32() }
func NormFloat64() float64                                          { return g.NormFloat64() }
func ExpFloat64() float64                                           { return g.ExpFloat64() }
func Perm(n int) []int                                              { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))                            { g.Shuffle(n, swap) }
func N[I ~int | ~int64 | ~uint64 | ~uint32 | ~int32 | ~uint](n I) I { return I(g.Uint64N(uint64(n))) }
