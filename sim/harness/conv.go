//go:build go1.24

package main

import (
	"bytes"
	"time"

	"github.com/yoss22/bulletproofs"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/zzsim/ref"
)

// toHeader builds the node's representation of a reference header.
func toHeader(h *ref.Header) consensus.BlockHeader {
	cp := func(x [32]byte) []byte { return append([]byte(nil), x[:]...) }
	return consensus.BlockHeader{
		Version:           h.Version,
		Height:            h.Height,
		Previous:          cp(h.Prev),
		PreviousRoot:      cp(h.PrevRoot),
		Timestamp:         time.Unix(h.TS, 0).UTC(),
		UTXORoot:          cp(h.UTXO),
		RangeProofRoot:    cp(h.RProof),
		KernelRoot:        cp(h.Kern),
		Nonce:             h.Nonce,
		TotalKernelOffset: cp(h.Offs),
		OutputMmrSize:     h.OutMMR,
		KernelMmrSize:     h.KernMMR,
		POW:               consensus.Proof{EdgeBits: h.EdgeBits, Nonces: append([]uint32(nil), h.Nonces[:]...)},
		Difficulty:        consensus.Difficulty(h.Diff),
		TotalDifficulty:   consensus.Difficulty(h.TD),
		ScalingDifficulty: h.Scaling,
	}
}

var (
	outCache  = map[string]consensus.Output{}
	kernCache = map[string]consensus.TxKernel{}
)

// toOutput and toKernel build elements out of parts read by the curve library,
// without help from the node's own decoders.
func toOutput(o *ref.Output) consensus.Output {
	key := string(o.Commit) + string(o.Proof)
	c, ok := outCache[key]
	if !ok {
		c.Commit = new(bulletproofs.Point)
		if err := c.Commit.Read(bytes.NewReader(o.Commit)); err != nil {
			panic("fixture commitment does not decode: " + err.Error())
		}
		if err := c.RangeProof.Read(bytes.NewReader(o.Proof)); err != nil {
			panic("fixture proof does not decode: " + err.Error())
		}
		outCache[key] = c
	}
	c.Features = consensus.OutputFeatures(o.Feat)
	pt := *c.Commit
	c.Commit = &pt
	return c
}

func toKernel(k *ref.Kernel) consensus.TxKernel {
	c, ok := kernCache[string(k.Excess)]
	if !ok {
		if err := c.Excess.Read(bytes.NewReader(k.Excess)); err != nil {
			panic("fixture excess does not decode: " + err.Error())
		}
		kernCache[string(k.Excess)] = c
	}
	c.Features, c.Fee, c.LockHeight = consensus.KernelFeatures(k.Feat), k.Fee, k.Lock
	copy(c.ExcessSig[:], k.Sig)
	return c
}

func toInputs(is []ref.Input) consensus.InputList {
	l := make(consensus.InputList, len(is))
	for i := range is {
		l[i].Features = consensus.OutputFeatures(is[i].Feat)
		l[i].Commit = append([]byte(nil), is[i].Commit[:]...)
	}
	return l
}

// wildBody makes a body for the codecs alone: any counts, any contents.
func wildBody(r *rnd, big bool) ref.Body {
	no, nk := r.n(4), r.n(4)
	if r.pc(25) {
		no, nk = r.n(4), pick(r, 0, 12+r.n(30), 5+r.n(8))
	}
	if r.pc(10) {
		no = r.n(20)
	}
	ni := r.n(4)
	if big {
		ni = pick(r, 1, 120, 400, r.n(300))
		if r.pc(30) {
			ni, nk = r.n(4), pick(r, 64, 127, 128, 200, 255, 256, 257)
		}
	}
	b := makeBody(r, ni, no, nk)
	for i := range b.Ins {
		if r.pc(10) {
			b.Ins[i].Feat = byte(r.n(256))
		}
	}
	for i := range b.Outs {
		if r.pc(10) {
			b.Outs[i].Feat = byte(r.n(256))
		}
	}
	for i := range b.Kerns {
		k := &b.Kerns[i]
		if r.pc(10) {
			k.Feat = byte(r.n(256))
		}
		k.Fee, k.Lock = pick(r, k.Fee, 0, r.u64(), uint64(r.n(1<<20)), ^uint64(0)), pick(r, k.Lock, 0, r.u64(), uint64(r.n(1<<20)), ^uint64(0))
		if r.pc(50) {
			sig := make([]byte, len(k.Sig))
			for j := range sig {
				sig[j] = byte(r.u64())
			}
			k.Sig = sig
		}
	}
	b.Sort()
	return b
}

// toBlock builds the node's representation of a reference block.
func toBlock(b *ref.Block) *consensus.Block {
	x := &consensus.Block{Header: toHeader(&b.Header), Inputs: toInputs(b.Ins)}
	x.Outputs = make(consensus.OutputList, len(b.Outs))
	for i := range b.Outs {
		x.Outputs[i] = toOutput(&b.Outs[i])
	}
	x.Kernels = make(consensus.TxKernelList, len(b.Kerns))
	for i := range b.Kerns {
		x.Kernels[i] = toKernel(&b.Kerns[i])
	}
	return x
}

// toTx builds the node's representation of a reference transaction.
func toTx(t *ref.Tx) consensus.Transaction {
	b := toBlock(&ref.Block{Body: t.Body})
	return consensus.Transaction{KernelOffset: t.Offset, Inputs: b.Inputs, Outputs: b.Outputs, Kernels: b.Kernels}
}

// makeHeader makes a header around the given identity.
func makeHeader(r *rnd, id, verdict, height, td uint64) ref.Header {
	h := ref.Header{Version: 1, Height: height, TS: 1545300000 + int64(height), OutMMR: id, KernMMR: verdict,
		TD: td, Scaling: 1, Nonce: r.u64(), EdgeBits: pick(r, uint8(29), 30, 31, 32, 33)}
	for _, p := range []*[32]byte{&h.Prev, &h.PrevRoot, &h.UTXO, &h.RProof, &h.Kern, &h.Offs} {
		for i := range p {
			p[i] = byte(r.u64())
		}
	}
	for i := range h.Nonces {
		h.Nonces[i] = uint32(r.u64()) & uint32(1<<h.EdgeBits-1)
	}
	return h
}

// makeBody makes sorted elements out of the fixtures.
// coin is a feature byte, with or without the coinbase bit.
func coin(r *rnd, on byte) byte {
	if r.pc(75) {
		return on
	}
	return on | pick(r, byte(2), 4, 128, byte(r.n(256)))&^1
}

func makeBody(r *rnd, ins, outs, kerns int) ref.Body {
	var b ref.Body
	for i := 0; i < ins; i++ {
		in := ref.Input{Feat: byte(r.n(2))}
		for k := range in.Commit {
			in.Commit[k] = byte(r.u64())
		}
		b.Ins = append(b.Ins, in)
	}
	o := r.n(ref.GoodOutputs)
	for i := 0; i < outs; i++ {
		x := ref.Outputs[(o+i)%ref.GoodOutputs]
		x.Feat = coin(r, 0)
		b.Outs = append(b.Outs, x)
	}
	k := r.n(6)
	for i := 0; i < kerns; i++ {
		x := ref.Kernels[(k+i)%6]
		x.Feat = coin(r, 0)
		b.Kerns = append(b.Kerns, x)
	}
	if outs > 0 && r.pc(50) {
		b.Outs[0].Feat = coin(r, 1)
	}
	if kerns > 0 && r.pc(50) {
		b.Kerns[0].Feat = coin(r, 1)
	}
	b.Sort()
	return b
}

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// warm builds every fixture once, so that no run pays for it.
func warm() {
	for _, o := range ref.Outputs {
		for f := 0; f < 2; f++ {
			o.Feat = byte(f)
			toOutput(&o)
		}
	}
	for _, k := range ref.Kernels {
		for f := 0; f < 2; f++ {
			k.Feat = byte(f)
			toKernel(&k)
		}
	}
}
