//go:build go1.24

// Package zcrand replaces crypto/rand in instrumented code.
package zcrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/dblokhin/gringo/zzsim/zzrt"
)

type rd struct{}

func (rd) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(zzrt.EnvWord())
	}
	return len(p), nil
}

// Reader is rand.Reader.
var Reader io.Reader = rd{}

func Read(p []byte) (int, error)                      { return io.ReadFull(Reader, p) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(r, bits) }
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[zzrt.EnvWord()%32]
	}
	return string(b)
}
