//go:build go1.24

// Package zbp stands in for github.com/yoss22/bulletproofs: everything is the
// real library, but provers are shared and verdicts are remembered, because a
// range proof costs a tenth of a second and simulated runs verify the same
// proofs again and again.
package zbp

import (
	"encoding/binary"
	"math/big"
	"sync"
	"unsafe"

	"github.com/dblokhin/gringo/zzsim/zmark"
	real "github.com/yoss22/bulletproofs"
)

// Prover is the real prover with remembered verdicts.
type Prover struct {
	*real.Prover
	n int
}

var (
	mu       sync.Mutex
	provers  = map[int]*real.Prover{}
	verdicts = map[string]bool{}
	products = map[string]*real.Point{}
	// Calls and Computed count verifications asked for and really computed.
	Calls, Computed int64
)

// NewProver returns the shared prover for n.
func NewProver(n int) (p *Prover) {
	zmark.Do(func() { p = newProver(n) })
	return p
}

func newProver(n int) *Prover {
	mu.Lock()
	defer mu.Unlock()
	p := provers[n]
	if p == nil {
		p = real.NewProver(n)
		provers[n] = p
	}
	return &Prover{Prover: p, n: n}
}

// Verify is the real verdict, computed once per commitment and proof.
func (p *Prover) Verify(commit *real.Point, proof real.BulletProof) (ok bool) {
	zmark.Do(func() { ok = p.verify(commit, proof) })
	return ok
}

func (p *Prover) verify(commit *real.Point, proof real.BulletProof) bool {
	if commit == nil {
		return p.Prover.Verify(commit, proof)
	}
	k := key(p.n, commit, &proof)
	mu.Lock()
	Calls++
	v, ok := verdicts[k]
	mu.Unlock()
	if ok {
		return v
	}
	v = p.Prover.Verify(commit, proof)
	mu.Lock()
	Computed++
	verdicts[k] = v
	mu.Unlock()
	return v
}

// layout mirrors real.BulletProof, whose own encoding is slow.
type layout struct {
	negTaux, negMu, tHat *big.Int
	T1, T2, A, S         *real.Point
	a, b                 []*big.Int
	Ls, Rs               []*real.Point
}

var _ = [1]struct{}{}[unsafe.Sizeof(layout{})-unsafe.Sizeof(real.BulletProof{})]

type keyer struct{ b []byte }

func (k *keyer) num(x *big.Int) {
	if x == nil {
		k.b = append(k.b, 0xff)
		return
	}
	n := len(x.Bits()) * 8
	k.b = append(k.b, byte(x.Sign()), byte(n))
	for _, w := range x.Bits() {
		k.b = binary.LittleEndian.AppendUint64(k.b, uint64(w))
	}
}
func (k *keyer) point(p *real.Point) {
	if p == nil {
		k.b = append(k.b, 0xfe)
		return
	}
	k.num(p.X)
	k.num(p.Y)
}

func key(n int, c *real.Point, proof *real.BulletProof) string {
	p := (*layout)(unsafe.Pointer(proof))
	k := keyer{make([]byte, 0, 2400)}
	k.b = append(k.b, byte(n), byte(len(p.a)), byte(len(p.b)), byte(len(p.Ls)), byte(len(p.Rs)))
	k.point(c)
	k.num(p.negTaux)
	k.num(p.negMu)
	k.num(p.tHat)
	for _, x := range [][]*real.Point{{p.T1, p.T2, p.A, p.S}, p.Ls, p.Rs} {
		for _, y := range x {
			k.point(y)
		}
	}
	for _, x := range [][]*big.Int{p.a, p.b} {
		for _, y := range x {
			k.num(y)
		}
	}
	return string(k.b)
}

// ScalarMulPoint is the real product, computed once.
func ScalarMulPoint(point *real.Point, scalar *big.Int) (o *real.Point) {
	zmark.Do(func() { o = product(point, scalar) })
	return o
}

func product(point *real.Point, scalar *big.Int) *real.Point {
	if point == nil || scalar == nil {
		return real.ScalarMulPoint(point, scalar)
	}
	k := keyer{make([]byte, 0, 128)}
	k.point(point)
	k.num(scalar)
	mu.Lock()
	defer mu.Unlock()
	x := products[string(k.b)]
	if x == nil {
		x = real.ScalarMulPoint(point, scalar)
		if len(products) < 4096 {
			products[string(k.b)] = x
		}
	}
	return &real.Point{X: new(big.Int).Set(x.X), Y: new(big.Int).Set(x.Y)}
}
