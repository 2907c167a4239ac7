//go:build go1.24

package ref

import "math/bits"

// edge returns the two ends of an edge of the graph a header seeds.
func edge(k [4]uint64, nonce uint32, edgeBits uint8) (u, v uint64) {
	v0, v1, v2, v3 := k[0], k[1], k[2], k[3]
	round := func() {
		v0 += v1
		v2 += v3
		v1 = bits.RotateLeft64(v1, 13) ^ v0
		v3 = bits.RotateLeft64(v3, 16) ^ v2
		v0 = bits.RotateLeft64(v0, 32)
		v2 += v1
		v0 += v3
		v1 = bits.RotateLeft64(v1, 17) ^ v2
		v3 = bits.RotateLeft64(v3, 21) ^ v0
		v2 = bits.RotateLeft64(v2, 32)
	}
	var out, last uint64
	for n := uint64(0); n < 64; n++ {
		x := uint64(nonce)&^63 + n
		v3 ^= x
		round()
		round()
		v0 ^= x
		v2 ^= 0xff
		for i := 0; i < 4; i++ {
			round()
		}
		last = v0 ^ v1 ^ v2 ^ v3
		if n == uint64(nonce)&63 {
			out = last
		}
	}
	if nonce&63 != 63 {
		out ^= last
	}
	m := uint64(1)<<edgeBits - 1
	return out & m, out >> 32 & m
}

// Cycle says whether the header's edges are in increasing order, within the
// graph, and form one cycle: two of them meet at every vertex, and walking
// along them visits all.
func (h *Header) Cycle() bool {
	k := h.Keys()
	type vert struct {
		side int
		v    uint64
	}
	at := map[vert][]int{}
	var ends [42][2]vert
	for i, n := range h.Nonces {
		if i > 0 && n <= h.Nonces[i-1] || h.EdgeBits < 32 && uint64(n) >= 1<<h.EdgeBits {
			return false
		}
		u, v := edge(k, n, h.EdgeBits)
		ends[i] = [2]vert{{0, u}, {1, v}}
		for _, e := range ends[i] {
			at[e] = append(at[e], i)
		}
	}
	for _, l := range at {
		if len(l) != 2 {
			return false
		}
	}
	i, n := 0, 0
	for side := 0; ; side ^= 1 {
		l := at[ends[i][side]]
		i = l[0] + l[1] - i
		if n++; i == 0 {
			return n == 42
		}
	}
}
