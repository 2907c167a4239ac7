// Generates sim/ref/fixtures.go: outputs with valid and invalid range proofs
// and kernels with valid and invalid signatures. Run through an overlay that
// places it in the gringo module:
//
//	go run -overlay o.json ./zzgenfix > /verif/sim/ref/fixtures.go
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
)

func scalar(i int64) *big.Int {
	x := new(big.Int).Exp(big.NewInt(7919+i*104729), big.NewInt(17), nil)
	m, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	return x.Mod(x, m)
}

func main() {
	pr := bulletproofs.NewProver(64)
	fmt.Println("//go:build go1.24\n\n// Code generated by tools/gen/fixtures. DO NOT EDIT.\n\npackage ref\n")
	type op struct{ c, p []byte }
	var outs []op
	for i := int64(0); i < 10; i++ {
		v, g := big.NewInt(60e9+i), scalar(i)
		V := bulletproofs.SumPoints(bulletproofs.ScalarMulPoint(pr.BlindingGenerator, g), bulletproofs.ScalarMulPoint(pr.ValueGenerator, v))
		var nonce [32]byte
		nonce[0] = byte(i + 1)
		p, err := pr.CreateRangeProof(V, v, g, nonce, [16]byte{})
		if err != nil {
			panic(err)
		}
		if !pr.Verify(V, p) {
			panic("own proof does not verify")
		}
		outs = append(outs, op{V.Bytes(), p.Bytes()})
	}
	for i := range outs {
		V := new(bulletproofs.Point)
		if err := V.Read(bytes.NewReader(outs[i].c)); err != nil {
			panic(err)
		}
		if hex.EncodeToString(V.Bytes()) != hex.EncodeToString(outs[i].c) {
			panic("commitment does not round-trip")
		}
	}
	fmt.Println("var fixOutputs = []struct {\n\tcommit, proof string\n\tok            bool\n}{")
	for _, o := range outs {
		fmt.Printf("\t{%q, %q, true},\n", hex.EncodeToString(o.c), hex.EncodeToString(o.p))
	}
	// invalid: a valid proof for another commitment, and a damaged proof
	for i := 0; i < 2; i++ {
		fmt.Printf("\t{%q, %q, false},\n", hex.EncodeToString(outs[i].c), hex.EncodeToString(outs[i+2].p))
	}
	for i := 2; i < 4; i++ {
		p := append([]byte(nil), outs[i].p...)
		p[33+i] ^= 1
		fmt.Printf("\t{%q, %q, false},\n", hex.EncodeToString(outs[i].c), hex.EncodeToString(p))
	}
	fmt.Println("}\n\nvar fixKernels = []struct {\n\texcess, sig string\n\tfee, lock   uint64\n\tok          bool\n}{")
	for i := int64(0); i < 6; i++ {
		x := scalar(100 + i)
		P := *bulletproofs.ScalarMulPoint(&secp256k1zkp.G, x)
		fee, lock := uint64(i)*1000, uint64(i)*3
		var sig secp256k1zkp.Signature
		for {
			sig = secp256k1zkp.SignMessage(P, *x, secp256k1zkp.ComputeMessage(fee, lock))
			if secp256k1zkp.VerifySignature(P, secp256k1zkp.ComputeMessage(fee, lock), secp256k1zkp.DecodeSignature(sig.Bytes())) {
				break
			}
		}
		e := sig.Bytes()
		fmt.Printf("\t{%q, %q, %d, %d, true},\n", hex.EncodeToString(P.Bytes()), hex.EncodeToString(e[:]), fee, lock)
		if i < 3 {
			e[40] ^= 4
			fmt.Printf("\t{%q, %q, %d, %d, false},\n", hex.EncodeToString(P.Bytes()), hex.EncodeToString(e[:]), fee, lock)
		} else if i == 3 {
			fmt.Printf("\t{%q, %q, %d, %d, false},\n", hex.EncodeToString(P.Bytes()), hex.EncodeToString(e[:]), fee+1, lock)
		}
	}
	fmt.Println("}")
}
