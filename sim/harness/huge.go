//go:build go1.24

package main

import (
	"bytes"
	"sort"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/zzsim/ref"
)

var hugeCache = map[int][]ref.Input{}

// hugeInputs are n inputs in their required order, the same ones every time.
func hugeInputs(n int) []ref.Input {
	if l, ok := hugeCache[n]; ok {
		return l
	}
	r := newRnd(uint64(n) + 77)
	type keyed struct {
		in ref.Input
		k  []byte
	}
	l := make([]keyed, n)
	for i := range l {
		in := &l[i].in
		in.Feat = coin(r, byte(r.n(2)))
		for j := 0; j < 33; j += 8 {
			x := r.u64()
			for k := j; k < j+8 && k < 33; k++ {
				in.Commit[k] = byte(x)
				x >>= 8
			}
		}
		l[i].k = ref.Hash(in.Bytes())
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].k, l[j].k) < 0 })
	out := make([]ref.Input, n)
	for i := range l {
		out[i] = l[i].in
	}
	hugeCache[n] = out
	return out
}

// hugeBody makes a body for a message with the given number of bytes before
// it: of about 1 MB, of about 7 MB, or such that the message is of exactly
// the largest size.
func hugeBody(r *rnd, before, class int) ref.Body {
	var b ref.Body
	switch class {
	case 1:
		b = makeBody(r, 0, r.n(4), r.n(4))
		b.Ins = hugeInputs(30000)
	case 2:
		b = makeBody(r, 0, r.n(4), r.n(4))
		b.Ins = hugeInputs(200000)
	default:
		// of one output or none, and some kernels, exactly one choice fits
		for n := 0; n < 34; n++ {
			b = makeBody(r, 0, n&1, n/2)
			rest := ref.MaxMsg - before - len((&ref.Tx{Body: b}).Bytes()) + 32
			if rest%34 == 0 {
				b.Ins = hugeInputs(rest / 34)
				break
			}
		}
	}
	return b
}

// handleHuge compares the contents of a huge message.
func (w *World) handleHuge(s *sent, ins consensus.InputList, outs consensus.OutputList, ks consensus.TxKernelList) {
	h := s.huge
	ok := len(ins) == len(h.Ins) && len(outs) == len(h.Outs) && len(ks) == len(h.Kerns)
	for i := 0; ok && i < len(ins); i++ {
		ok = byte(ins[i].Features) == h.Ins[i].Feat && bytes.Equal(ins[i].Commit, h.Ins[i].Commit[:])
	}
	for i := 0; ok && i < len(ks); i++ {
		ok = byte(ks[i].Features) == h.Kerns[i].Feat && ks[i].Fee == h.Kerns[i].Fee && ks[i].LockHeight == h.Kerns[i].Lock && bytes.Equal(ks[i].ExcessSig[:], h.Kerns[i].Sig)
	}
	if !ok {
		w.violate("C05", "wrong-content", "huge message (frame %d) arrived altered", s.idx)
	}
	w.stat("huge_handled")
}
