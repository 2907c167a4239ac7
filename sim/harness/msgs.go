//go:build go1.24

package main

import (
	"bytes"
	"encoding/binary"
	"net"
	"sort"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/zzsim/ref"
)

// Message kinds the harness can have the node send.
const (
	mPing = iota
	mPong
	mGetPeers
	mPeers
	mGetHeaders
	mHeader
	mHeaders
	mGetBlock
	mBlock
	mTx
	mError
	mCompact
	mKinds
)

var mNames = []string{"ping", "pong", "peer request", "peer list", "header request", "header", "header list", "block request", "block", "transaction", "error", "compact block"}

// outMsg is a message with its reference encoding.
type outMsg struct {
	kind  int
	tag   uint64
	typ   byte
	body  []byte
	frame []byte
	msg   p2p.Message
	blk   *consensus.Block
	tx    consensus.Transaction
	hash  consensus.Hash
	loc   consensus.Locator
	caps  consensus.Capabilities
	hdrs  []consensus.BlockHeader // headers as sent
	bl    *consensus.Block        // elements in wire order
	addrs []ref.Addr
	ids   [][6]byte
}

// makeMsg makes the message with a tag; big says how large it may get.
func makeMsg(kind int, tag, env uint64, big bool) *outMsg {
	return makeMsgIn(kind, tag, env, big, 0)
}

// makeMsgIn makes a message; a block or transaction has the given number of
// inputs more.
func makeMsgIn(kind int, tag, env uint64, big bool, ins int) *outMsg {
	r := newRnd(tag*131 + env + uint64(kind))
	m := &outMsg{kind: kind, tag: tag}
	switch kind {
	case mPing:
		m.typ, m.body = ref.Ping, ref.PingBody(tag, r.u64())
		td, h, _ := ref.DecodePing(m.body)
		m.msg = &p2p.Ping{TotalDifficulty: consensus.Difficulty(td), Height: h}
	case mPong:
		m.typ, m.body = ref.Pong, ref.PingBody(tag, r.u64())
		td, h, _ := ref.DecodePing(m.body)
		x := &p2p.Pong{}
		x.TotalDifficulty, x.Height = consensus.Difficulty(td), h
		m.msg = x
	case mGetPeers:
		m.typ, m.body = ref.GetPeers, ref.GetPeersBody(uint32(tag))
		m.caps = consensus.Capabilities(uint32(tag))
		m.msg = &p2p.GetPeerAddrs{Capabilities: m.caps}
	case mPeers:
		as := []ref.Addr{{IP: net.IPv4(9, byte(tag>>16), byte(tag>>8), byte(tag)).To4(), Port: 1 + r.n(65535)}}
		n := r.n(4)
		if big {
			n = pick(r, 255, r.n(256))
		}
		for i := 0; i < n; i++ {
			a := ref.Addr{Port: r.n(65536)}
			if r.pc(50) {
				a.IP = net.IP{byte(1 + r.n(255)), byte(r.n(256)), byte(r.n(256)), byte(r.n(256))}
			} else {
				a.IP = make(net.IP, 16)
				for k := range a.IP {
					a.IP[k] = byte(r.u64())
				}
				a.IP[0] |= 0x20
			}
			as = append(as, a)
		}
		m.addrs = as
		m.typ, m.body = ref.Peers, ref.PeersBody(as)
		x := &p2p.PeerAddrs{}
		if err := x.Read(bytes.NewReader(m.body)); err != nil {
			x = nil // judged by the caller
		}
		if x != nil {
			m.msg = x
		}
	case mGetHeaders:
		n := 1 + r.n(consensus.MaxLocators)
		var hs [][]byte
		for i := 0; i < n; i++ {
			h := idHash(tag, byte(i), byte(r.n(256)))
			hs = append(hs, h)
			m.loc.Hashes = append(m.loc.Hashes, append(consensus.Hash(nil), h...))
		}
		m.typ, m.body = ref.GetHeaders, ref.LocatorBody(hs)
		m.msg = &p2p.GetBlockHeaders{Locator: m.loc}
	case mHeader:
		h := makeHeader(r, tag, r.u64(), r.u64()>>1, r.u64())
		wildHeader(r, &h)
		m.typ, m.body = ref.HeaderT, h.Bytes()
		m.msg = &p2p.BlockHeader{Header: toHeader(&h)}
		m.hdrs = []consensus.BlockHeader{toHeader(&h)}
	case mHeaders:
		n := r.n(4)
		if big {
			n = pick(r, 512, 511, r.n(512))
		}
		x := &p2p.BlockHeaders{}
		var prev ref.Header
		b := []byte{byte((n + 0) >> 8), byte(n)}
		for i := 0; i < n; i++ {
			h := makeHeader(r, tag, 0, r.u64()>>1, r.u64())
			wildHeader(r, &h)
			if i > 0 && r.pc(30) { // a twin of the one before
				h = prev
				twist(r, &h)
			}
			prev = h
			b = append(b, h.Bytes()...)
			x.Headers = append(x.Headers, toHeader(&h))
			m.hdrs = append(m.hdrs, toHeader(&h))
		}
		m.typ, m.body, m.msg = ref.Headers, b, x
	case mGetBlock:
		m.hash = idHash(tag, byte(r.n(256)), byte(r.n(256)))
		m.typ, m.body = ref.GetBlock, append([]byte(nil), m.hash...)
		m.msg = &p2p.GetBlock{Hash: m.hash}
	case mBlock:
		b := &ref.Block{Header: makeHeader(r, tag, 0, r.u64()>>1, r.u64()), Body: wildBody(r, big)}
		if ins > 0 {
			b.Body.Ins = hugeInputs(ins)
		}
		wildHeader(r, &b.Header)
		m.blk = toBlock(b)
		m.bl = toBlock(b)
		m.hdrs = []consensus.BlockHeader{m.bl.Header}
		shuffle(r, m.blk)
		m.typ, m.body, m.msg = ref.BlockT, b.Bytes(), m.blk
	case mTx:
		t := &ref.Tx{Body: wildBody(r, big)}
		if ins > 0 {
			t.Body.Ins = hugeInputs(ins)
		}
		for i := range t.Offset {
			t.Offset[i] = byte(r.u64())
		}
		binary.BigEndian.PutUint64(t.Offset[:8], tag)
		m.tx = toTx(t)
		m.bl = toBlock(&ref.Block{Body: t.Body})
		sh := &consensus.Block{Inputs: m.tx.Inputs, Outputs: m.tx.Outputs, Kernels: m.tx.Kernels}
		shuffle(r, sh)
		m.typ, m.body, m.msg = ref.TxT, t.Bytes(), &m.tx
	case mError:
		n := r.n(40)
		if big {
			n = pick(r, 4085, 4096, 9000, 0)
		}
		msg := make([]byte, n)
		for i := range msg {
			msg[i] = byte(r.u64())
		}
		m.typ, m.body = ref.Error, ref.ErrorBody(uint32(tag), string(msg))
		m.msg = &p2p.PeerError{Code: uint32(tag), Message: string(msg)}
	case mCompact:
		bl := &ref.Block{Header: makeHeader(r, tag, 0, r.u64()>>1, r.u64()), Body: wildBody(r, false)}
		wildHeader(r, &bl.Header)
		bl.Ins = nil
		if r.pc(20) && !big {
			bl.Kerns = wildBody(r, true).Kerns
			if len(bl.Kerns) > 255 { // one byte counts them
				bl.Kerns = bl.Kerns[:255]
			}
		}
		ids := make([][6]byte, pick(r, r.n(20), 0, r.n(300)))
		for i := range ids {
			for k := range ids[i] {
				ids[i][k] = byte(r.u64())
			}
		}
		sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
		m.typ, m.body = ref.Compact, bl.CompactBytes(ids)
		m.hdrs = []consensus.BlockHeader{toHeader(&bl.Header)}
		m.bl, m.ids = toBlock(bl), ids
		x := &consensus.CompactBlock{}
		if err := x.Read(bytes.NewReader(m.body)); err == nil {
			m.msg = x
			for i := len(x.KernelIDs) - 1; i > 0; i-- {
				j := r.n(i + 1)
				x.KernelIDs[i], x.KernelIDs[j] = x.KernelIDs[j], x.KernelIDs[i]
			}
		}
	}
	m.frame = ref.Frame(m.typ, m.body)
	return m
}

// wildHeader gives a header values from all of what the format holds.
func wildHeader(r *rnd, h *ref.Header) {
	if r.pc(40) {
		h.TS = oddTime(r)
	}
	if r.pc(40) {
		h.Scaling = uint32(r.u64())
		h.Version = pick(r, 1, 2, 0, 65535, uint16(r.u64()))
		h.KernMMR = r.u64()
	}
	if r.pc(30) {
		h.EdgeBits = pick(r, uint8(1+r.n(64)), 1, 8, 9, 31, 32, 33, 63, 64)
		for i := range h.Nonces {
			h.Nonces[i] = uint32(r.u64())
			if h.EdgeBits < 32 {
				h.Nonces[i] &= uint32(1<<h.EdgeBits - 1)
			}
		}
	}
}

// twist changes one thing about a header.
func twist(r *rnd, h *ref.Header) {
	switch r.n(9) {
	case 0:
		h.Nonce++
	case 1:
		h.Nonces[r.n(42)] ^= 1
	case 2:
		h.Height++
	case 3:
		h.TD ^= 1 << 40
	case 4:
		h.TS++
	case 5:
		h.Offs[31] ^= 1
	case 6:
		h.PrevRoot[0] ^= 128
	case 7:
		h.KernMMR++
	case 8:
		h.Version++
	}
}

// oddTime is a timestamp, now and then at the edge of what the format holds.
func oddTime(r *rnd) int64 {
	return pick(r, int64(1545300000), 0, 1, 253402300799, -1, int64(r.n(1<<31)))
}

// shuffle hands the inputs to the node in an order it has to sort.
func shuffle(r *rnd, b *consensus.Block) {
	for i := len(b.Inputs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		b.Inputs[i], b.Inputs[j] = b.Inputs[j], b.Inputs[i]
	}
	for i := len(b.Outputs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		b.Outputs[i], b.Outputs[j] = b.Outputs[j], b.Outputs[i]
	}
	for i := len(b.Kernels) - 1; i > 0; i-- {
		j := r.n(i + 1)
		b.Kernels[i], b.Kernels[j] = b.Kernels[j], b.Kernels[i]
	}
}

// newMsg is an empty message of a kind, to decode into.
func newMsg(kind int) p2p.Message {
	switch kind {
	case mPing:
		return &p2p.Ping{}
	case mPong:
		return &p2p.Pong{}
	case mGetPeers:
		return &p2p.GetPeerAddrs{}
	case mPeers:
		return &p2p.PeerAddrs{}
	case mGetHeaders:
		return &p2p.GetBlockHeaders{}
	case mHeader:
		return &p2p.BlockHeader{}
	case mHeaders:
		return &p2p.BlockHeaders{}
	case mGetBlock:
		return &p2p.GetBlock{}
	case mBlock:
		return &consensus.Block{}
	case mTx:
		return &consensus.Transaction{}
	case mError:
		return &p2p.PeerError{}
	}
	return &consensus.CompactBlock{}
}
