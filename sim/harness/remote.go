//go:build go1.24

package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"unsafe"

	"github.com/dblokhin/gringo/zzsim/ref"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

var badNames = []string{"magic", "magic2", "length over limit", "length 2^63", "unknown type", "short ping", "short peers request",
	"257 addresses", "fewer addresses than claimed", "locator of 15", "513 headers", "fewer headers than claimed", "truncated block",
	"1000001 inputs", "truncated transaction", "1000001 outputs", "2^40 short ids", "short block request", "short header",
	"claims 999999 inputs", "empty ping", "65535 headers", "locator of 255", "2^62 kernels", "length 2^64-1",
	// from here on: content errors, no verdict on their handling
	"bad address flag", "edge bits 0", "edge bits 65", "unsorted transaction", "proof too long", "bad point", "type of a handshake message",
	"huge error message", "trailing bytes",
	// and these are judged again
	"unknown type, little or no body", "truncated body", "damaged magic", "length over limit, any type", "more elements than there are",
	"counts that wrap around", "elements out of order"}

const firstLoose, lastLoose = 25, 33

// strictKind says a malformed frame of this kind must end its connection.
func strictKind(k int) bool { return k < firstLoose || k > lastLoose }

// pickStrict picks one of those.
func pickStrict(n int) int {
	if n %= len(badNames) - (lastLoose - firstLoose + 1); n >= firstLoose {
		n += lastLoose - firstLoose + 1
	}
	return n
}

func (s *sent) badName() string {
	if s.verdict >= 0 && s.verdict < len(badNames) {
		return badNames[s.verdict]
	}
	return "cut"
}

// badFrame makes a malformed frame of kind k; its content carries id where there is room.
func badFrame(env uint64, k int, id uint64) (typ byte, frame []byte) {
	r := newRnd(id*77 + env)
	blk := &ref.Block{Header: makeHeader(r, id, 0, 10, 20), Body: makeBody(r, 2, 1, 2)}
	tx := &ref.Tx{Body: makeBody(r, 2, 1, 2)}
	binary.BigEndian.PutUint64(tx.Offset[:8], id)
	counts := func(b []byte, at int, v uint64) []byte {
		b = append([]byte(nil), b...)
		binary.BigEndian.PutUint64(b[at:], v)
		return b
	}
	hl := len(blk.Header.Bytes())
	peers := func(n, claim int) []byte {
		var as []ref.Addr
		for i := 0; i < n; i++ {
			as = append(as, ref.Addr{IP: net.IPv4(66, 66, byte(i>>8), byte(i)).To4(), Port: 6000 + i})
		}
		b := ref.PeersBody(as)
		binary.BigEndian.PutUint32(b, uint32(claim))
		return b
	}
	headers := func(n, claim int) []byte {
		var b []byte
		b = append(b, byte(claim>>8), byte(claim))
		for i := 0; i < n; i++ {
			h := makeHeader(r, id, 0, uint64(i), 1)
			b = append(b, h.Bytes()...)
		}
		return b
	}
	hb := blk.Header.Bytes()
	switch k {
	case 0:
		return ref.HeaderT, ref.RawFrame(0x55, 0x34, ref.HeaderT, uint64(len(hb)), hb)
	case 1:
		return ref.HeaderT, ref.RawFrame(0x54, 0x33, ref.HeaderT, uint64(len(hb)), hb)
	case 2:
		return ref.BlockT, ref.RawFrame(0x54, 0x34, ref.BlockT, ref.MaxMsg+1, blk.Bytes())
	case 3:
		return ref.BlockT, ref.RawFrame(0x54, 0x34, ref.BlockT, 1<<63, blk.Bytes())
	case 4:
		return ref.BlockT, ref.Frame(byte(21+r.n(235)), blk.Bytes())
	case 5:
		t := pick(r, byte(ref.Ping), byte(ref.Pong))
		return t, ref.Frame(t, ref.PingBody(1, 1)[:pick(r, 0, 1, 7, 8, 15, 15)])
	case 6:
		return ref.GetPeers, ref.Frame(ref.GetPeers, ref.GetPeersBody(0)[:3])
	case 7:
		return ref.Peers, ref.Frame(ref.Peers, peers(257, 257))
	case 8:
		return ref.Peers, ref.Frame(ref.Peers, peers(2, 3))
	case 9:
		var hs [][]byte
		for i := 0; i < 15; i++ {
			hs = append(hs, idHash(id, 0, 1))
		}
		return ref.GetHeaders, ref.Frame(ref.GetHeaders, ref.LocatorBody(hs))
	case 10:
		return ref.Headers, ref.Frame(ref.Headers, headers(513, 513))
	case 11:
		return ref.Headers, ref.Frame(ref.Headers, headers(2, 3))
	case 12:
		b := blk.Bytes()
		return ref.BlockT, ref.Frame(ref.BlockT, b[:len(b)-1-r.n(60)])
	case 13:
		return ref.BlockT, ref.Frame(ref.BlockT, counts(blk.Bytes(), hl, 1000001))
	case 14:
		b := tx.Bytes()
		return ref.TxT, ref.Frame(ref.TxT, b[:len(b)-1-r.n(60)])
	case 15:
		return ref.TxT, ref.Frame(ref.TxT, counts(tx.Bytes(), 40, 1000001))
	case 16:
		b := blk.CompactBytes(make([][6]byte, 3))
		return ref.Compact, ref.Frame(ref.Compact, counts(b, hl+2, 1<<40))
	case 17:
		return ref.GetBlock, ref.Frame(ref.GetBlock, idHash(id, 1, 0)[:31])
	case 18:
		return ref.HeaderT, ref.Frame(ref.HeaderT, hb[:len(hb)-1])
	case 19:
		return ref.BlockT, ref.Frame(ref.BlockT, counts(blk.Bytes(), hl, 999999))
	case 20:
		return ref.Ping, ref.Frame(ref.Ping, nil)
	case 21:
		return ref.Headers, ref.Frame(ref.Headers, headers(1, 65535))
	case 22:
		b := append([]byte{255}, idHash(id, 0, 1)...)
		return ref.GetHeaders, ref.Frame(ref.GetHeaders, b)
	case 23:
		return ref.BlockT, ref.Frame(ref.BlockT, counts(blk.Bytes(), hl+16, 1<<62))
	case 24:
		return ref.Ping, ref.RawFrame(0x54, 0x34, ref.Ping, ^uint64(0), ref.PingBody(1, 1))
	case 25:
		b := peers(1, 1)
		b[4] = byte(2 + r.n(250))
		return ref.Peers, ref.Frame(ref.Peers, b)
	case 26, 27:
		h := blk.Header
		b := h.Bytes()
		b[len(h.PrePow())] = byte(65 * (k - 26))
		return ref.HeaderT, ref.Frame(ref.HeaderT, b)
	case 28:
		tx.Ins[0], tx.Ins[1] = tx.Ins[1], tx.Ins[0]
		return ref.TxT, ref.Frame(ref.TxT, tx.Bytes())
	case 29:
		b := blk.Bytes()
		at := hl + 24 + 2*34 + 34
		return ref.BlockT, ref.Frame(ref.BlockT, counts(b, at, 1<<uint(13+r.n(50))))
	case 30:
		b := blk.Bytes()
		b[hl+24+2*34+1] = 0x77
		return ref.BlockT, ref.Frame(ref.BlockT, b)
	case 31:
		sh := &ref.Shake{Version: 1, Genesis: ref.Genesis4}
		return ref.ShakeT, ref.Frame(pick(r, ref.ShakeT, ref.HandT, byte(14), 16, 17, 18, 19, 20), sh.Bytes())
	case 32:
		b := ref.ErrorBody(1, "no")
		binary.BigEndian.PutUint64(b[4:], 1<<uint(20+r.n(44)))
		return ref.Error, ref.Frame(ref.Error, b)
	case 34:
		b := make([]byte, pick(r, 0, 0, 1, 11, r.n(40)))
		t := byte(21 + r.n(235))
		return t, ref.Frame(t, b)
	case 35:
		t, b := wellFormed(r, id)
		n := r.n(len(b))
		if r.pc(30) {
			n = len(b) - 1
		}
		return t, ref.Frame(t, b[:n])
	case 36:
		t, b := wellFormed(r, id)
		f := ref.Frame(t, b)
		switch r.n(4) {
		case 0:
			f[0], f[1] = f[1], f[0]
		case 1:
			f[r.n(2)] ^= byte(1 << r.n(8))
		case 2:
			f[r.n(2)] ^= byte(1 + r.n(255))
		case 3:
			f[0] ^= byte(1 + r.n(255))
			f[1] ^= byte(1 + r.n(255))
		}
		return t, f
	case 37:
		t, b := wellFormed(r, id)
		l := pick(r, ref.MaxMsg+1, ref.MaxMsg+1+uint64(r.n(1000)), 1<<uint(25+r.n(39)), 1<<uint(25+r.n(39))+uint64(len(b)), uint64(len(b))<<32|1<<63)
		return t, ref.RawFrame(0x54, 0x34, t, l, b)
	case 38:
		switch r.n(5) {
		case 0:
			n := r.n(5)
			return ref.Peers, ref.Frame(ref.Peers, peers(n, n+1+r.n(250)))
		case 1:
			n := r.n(5)
			return ref.Headers, ref.Frame(ref.Headers, headers(n, n+1+r.n(500)))
		case 2:
			b := append([]byte{byte(2 + r.n(12))}, idHash(id, 0, 1)...)
			return ref.GetHeaders, ref.Frame(ref.GetHeaders, b)
		case 3:
			return ref.BlockT, ref.Frame(ref.BlockT, counts(blk.Bytes(), hl+16, 3+uint64(r.n(1000))))
		default:
			return ref.TxT, ref.Frame(ref.TxT, counts(tx.Bytes(), 32+16, 3+uint64(r.n(1000))))
		}
	case 39: // enormous, but their sum or product is not
		t, b, at := ref.BlockT, blk.Bytes(), hl
		if r.pc(40) {
			t, b, at = ref.TxT, tx.Bytes(), 32
		}
		i, j := r.n(3), r.n(2)
		if j >= i {
			j++
		}
		big := pick(r, uint64(1)<<63, 1<<62, ^uint64(0), 1<<uint(20+r.n(44)), 1<<32+uint64(r.n(3)), r.u64()|1<<24)
		b = counts(b, at+8*i, big)
		if r.pc(70) {
			b = counts(b, at+8*j, -big+uint64(r.n(4)))
		}
		return t, ref.Frame(t, b)
	case 40: // complete, but its elements are not in order
		b := makeBody(r, 2+r.n(4), 2+r.n(3), 2+r.n(3))
		for j := 1 + r.n(7); ; j = 7 {
			if j&1 != 0 {
				b.Ins[0], b.Ins[len(b.Ins)-1] = b.Ins[len(b.Ins)-1], b.Ins[0]
			}
			if j&2 != 0 {
				b.Outs[0], b.Outs[len(b.Outs)-1] = b.Outs[len(b.Outs)-1], b.Outs[0]
			}
			if j&4 != 0 {
				b.Kerns[0], b.Kerns[len(b.Kerns)-1] = b.Kerns[len(b.Kerns)-1], b.Kerns[0]
			}
			if i, o, k := b.Sorted(); !i || !o || !k {
				break
			}
			b.Sort()
		}
		tx.Body = b
		return ref.TxT, ref.Frame(ref.TxT, tx.Bytes())
	default:
		return ref.Ping, ref.Frame(ref.Ping, append(ref.PingBody(3, 3), make([]byte, 1+r.n(50))...))
	}
}

// wellFormed makes a body without a flaw.
func wellFormed(r *rnd, id uint64) (byte, []byte) {
	h := makeHeader(r, id, 0, 10, 20)
	blk := &ref.Block{Header: h, Body: makeBody(r, r.n(4), r.n(3), 1+r.n(3))}
	switch r.n(12) {
	case 0:
		return ref.Ping, ref.PingBody(r.u64(), r.u64())
	case 1:
		return ref.Pong, ref.PingBody(r.u64(), r.u64())
	case 2:
		return ref.GetPeers, ref.GetPeersBody(uint32(r.n(16)))
	case 3:
		var as []ref.Addr
		for i := r.n(4); i >= 0; i-- {
			ip := net.IPv4(66, 67, byte(r.n(256)), byte(i)).To4()
			if r.pc(30) {
				ip = append(net.IP{0x20, 1, 0xd, 0xb8, 66, 67, 0, 0, 0, 0, 0, 0, 0, 0, byte(r.n(256))}, byte(i))
			}
			as = append(as, ref.Addr{IP: ip, Port: 7000 + i})
		}
		return ref.Peers, ref.PeersBody(as)
	case 4:
		var hs [][]byte
		for i := r.n(14); i >= 0; i-- {
			hs = append(hs, idHash(id, 0, 1))
		}
		return ref.GetHeaders, ref.LocatorBody(hs)
	case 5:
		return ref.HeaderT, h.Bytes()
	case 6:
		n := 1 + r.n(4)
		b := []byte{0, byte(n)}
		for i := 0; i < n; i++ {
			x := makeHeader(r, id, 0, uint64(i), 1)
			b = append(b, x.Bytes()...)
		}
		return ref.Headers, b
	case 7:
		return ref.GetBlock, idHash(id, 1, 0)
	case 8:
		return ref.Compact, blk.CompactBytes(make([][6]byte, r.n(4)))
	case 9:
		tx := &ref.Tx{Body: blk.Body}
		binary.BigEndian.PutUint64(tx.Offset[:8], id)
		return ref.TxT, tx.Bytes()
	default:
		return ref.BlockT, blk.Bytes()
	}
}

func (rc *rconn) nextID() uint64 {
	rc.w.nid++
	return rc.w.nid
}

// emit queues a frame on the wire.
func (rc *rconn) emit(s *sent, frame []byte) {
	s.rc, s.idx = rc, len(rc.sent)
	s.stamp, s.at = zzrt.Stamp(), zzrt.Now()
	rc.off += int64(len(frame))
	s.end = rc.off
	if rc.half || rc.cut || rc.h.plan.Hush && rc.h.banStamp != 0 {
		s.dead = true
	}
	rc.sent = append(rc.sent, s)
	if s.id != 0 {
		rc.w.ids[s.id] = s
	}
	if !s.dead {
		rc.push(witem{b: frame, drip: rc.drip})
	}
	rc.w.stat("frames")
}

func (rc *rconn) request(s *sent, frame []byte) {
	rc.pend = append(rc.pend, s)
	rc.emit(s, frame)
}

func (rc *rconn) ping(td, h uint64) {
	rc.request(&sent{typ: ref.Ping, kind: "ok", td: td, h: h}, ref.Frame(ref.Ping, ref.PingBody(td, h)))
}

func (rc *rconn) getPeers(caps uint32) {
	rc.request(&sent{typ: ref.GetPeers, kind: "ok", caps: caps}, ref.Frame(ref.GetPeers, ref.GetPeersBody(caps)))
}

// getBlock asks for an unknown block (0), one of its own (1) or a popular one.
func (rc *rconn) getBlock(k byte) {
	id := rc.nextID()
	s := &sent{typ: ref.GetBlock, kind: "ok", id: id, n: int(k), tracked: true}
	f := ref.Frame(ref.GetBlock, idHash(id, k, 0))
	rc.request(s, f)
}

func (rc *rconn) getHeaders(hashes, n int) {
	s := &sent{typ: ref.GetHeaders, kind: "ok", n: n, verdict: hashes}
	var hs [][]byte
	if hashes > 0 {
		s.id = rc.nextID()
		s.tracked = true
		hs = append(hs, idHash(s.id, byte(n>>8), byte(n)))
		for i := 1; i < hashes; i++ {
			hs = append(hs, idHash(7, byte(i), 0))
		}
	} else {
		s.n = 0
	}
	rc.request(s, ref.Frame(ref.GetHeaders, ref.LocatorBody(hs)))
}

func (rc *rconn) pong(td, h uint64) {
	rc.emit(&sent{typ: ref.Pong, kind: "ok", td: td, h: h}, ref.Frame(ref.Pong, ref.PingBody(td, h)))
}

func parseAddrs(list string) []ref.Addr {
	var as []ref.Addr
	for _, a := range strings.Split(list, ",") {
		if t, err := net.ResolveTCPAddr("tcp", a); err == nil && t.IP != nil {
			as = append(as, ref.Addr{IP: t.IP, Port: t.Port})
		}
	}
	return as
}

func (rc *rconn) gossip(as []ref.Addr) {
	s := &sent{typ: ref.Peers, kind: "ok"}
	rc.emit(s, ref.Frame(ref.Peers, ref.PeersBody(as)))
	if s.dead {
		return
	}
	for _, a := range as {
		s.addrs = append(s.addrs, a.String())
		rc.w.noteAdd(a.String(), s, false)
	}
}

// step performs a scripted action on the connection.
func (rc *rconn) step(st *Step) {
	w := rc.w
	switch st.Op {
	case "ping":
		rc.ping(uint64(st.A), uint64(st.B))
	case "pong":
		rc.pong(uint64(st.A), uint64(st.B))
	case "getpeers":
		rc.getPeers(uint32(st.A))
	case "gossip":
		rc.gossip(parseAddrs(st.S))
	case "gossmany": // a list of A addresses, the hosts' among them, and what becomes of it
		r := newRnd(rc.nextID() + w.p.Env)
		var as []ref.Addr
		for _, h := range w.hosts {
			as = append(as, parseAddrs(h.key)...)
		}
		for i := 0; len(as) < int(st.A); i++ {
			as = append(as, parseAddrs(fmt.Sprintf("10.%d.%d.%d:%d", 160+int(st.B%32), i/200, 1+i%200, 3414+st.B%7))...)
		}
		for i := len(as) - 1; i > 0; i-- { // in some order
			j := r.n(i + 1)
			as[i], as[j] = as[j], as[i]
		}
		for len(as) > 0 {
			n := min(len(as), 256)
			rc.gossip(as[:n])
			as = as[n:]
		}
		rc.getPeers(0)
		rc.getPeers(uint32(st.K))
	case "gethdr":
		rc.getHeaders(int(st.A), int(st.B))
	case "getblk":
		rc.getBlock(byte(st.A))
	case "hdr":
		id := rc.nextID()
		r := newRnd(id + w.p.Env)
		h := makeHeader(r, id, uint64(st.A), uint64(st.B), uint64(st.C))
		rc.emit(&sent{typ: ref.HeaderT, kind: "ok", id: id, verdict: int(st.A), n: 1, h: uint64(st.B), td: uint64(st.C), tracked: true, body: h.Bytes()}, ref.Frame(ref.HeaderT, h.Bytes()))
	case "hdrs":
		id := rc.nextID()
		r := newRnd(id + w.p.Env)
		n := int(st.B)
		s := &sent{typ: ref.Headers, kind: "ok", verdict: int(st.A), n: n}
		b := []byte{byte(n >> 8), byte(n)}
		for i := 0; i < n; i++ {
			v := uint64(0)
			if int64(i) == st.C%int64(n) {
				v = uint64(st.A)
			}
			h := makeHeader(r, id, v, uint64(i), 9)
			b = append(b, h.Bytes()...)
		}
		if n > 0 {
			s.id, s.tracked, s.body = id, true, b[2:]
		} else {
			s.verdict = 0
		}
		rc.emit(s, ref.Frame(ref.Headers, b))
	case "blk":
		id := rc.nextID()
		r := newRnd(id + w.p.Env)
		bl := &ref.Block{Header: makeHeader(r, id, uint64(st.A), uint64(st.B), uint64(st.C))}
		switch st.K {
		case 0:
		case 1:
			bl.Body = makeBody(r, r.n(3), 1, 1)
		case 2:
			bl.Body = makeBody(r, r.n(6), r.n(4), r.n(5))
		case 3: // the real limit of a frame is far away, but the write buffer is not
			bl.Body = makeBody(r, 100+r.n(200), r.n(10), r.n(6))
		default:
			bl.Body = hugeBody(r, len(bl.Header.Bytes()), st.K-3)
			b := bl.Bytes()
			rc.emit(&sent{typ: ref.BlockT, kind: "ok", id: id, verdict: int(st.A), h: uint64(st.B), td: uint64(st.C), tracked: true, huge: &bl.Body, sum: sha256.Sum256(b)}, ref.Frame(ref.BlockT, b))
			w.stat("huge_frames")
			return
		}
		b := bl.Bytes()
		rc.emit(&sent{typ: ref.BlockT, kind: "ok", id: id, verdict: int(st.A), h: uint64(st.B), td: uint64(st.C), body: b, blk: bl, tracked: true}, ref.Frame(ref.BlockT, b))
	case "tx":
		id := rc.nextID()
		r := newRnd(id + w.p.Env)
		if st.K > 0 {
			tx := &ref.Tx{Body: hugeBody(r, 32, st.K)}
			binary.BigEndian.PutUint64(tx.Offset[:8], id)
			tx.Offset[8] = byte(st.A)
			rc.emit(&sent{typ: ref.TxT, kind: "ok", id: id, verdict: int(st.A), tracked: !w.p.Knobs.NilMempool, huge: &tx.Body}, ref.Frame(ref.TxT, tx.Bytes()))
			w.stat("huge_frames")
			break
		}
		tx := &ref.Tx{Body: makeBody(r, r.n(4), r.n(3), r.n(4))}
		binary.BigEndian.PutUint64(tx.Offset[:8], id)
		tx.Offset[8] = byte(st.A)
		rc.emit(&sent{typ: ref.TxT, kind: "ok", id: id, verdict: int(st.A), tracked: !w.p.Knobs.NilMempool, body: tx.Bytes()}, ref.Frame(ref.TxT, tx.Bytes()))
	case "cmpct":
		id := rc.nextID()
		r := newRnd(id + w.p.Env)
		bl := &ref.Block{Header: makeHeader(r, id, 0, 5, 5), Body: makeBody(r, 0, r.n(3), r.n(3))}
		ids := make([][6]byte, r.n(20))
		rc.emit(&sent{typ: ref.Compact, kind: "ok"}, ref.Frame(ref.Compact, bl.CompactBytes(ids)))
	case "getcmpct":
		rc.emit(&sent{typ: ref.GetCompact, kind: "ok"}, ref.Frame(ref.GetCompact, idHash(3, 0, 0)))
	case "bad":
		id := rc.nextID()
		zzrt.Count(zzrt.CHostile)
		typ, f := badFrame(w.p.Env, st.K, id)
		s := &sent{typ: typ, kind: "bad", id: id, verdict: st.K}
		if !strictKind(st.K) {
			s.kind = "hostile"
		}
		rc.emit(s, f)
		if rc.bad == nil && !s.dead {
			rc.bad = s
		}
	case "raw":
		zzrt.Count(zzrt.CHostile)
		r := newRnd(uint64(st.A))
		b := make([]byte, st.B)
		for i := range b {
			b[i] = byte(r.u64())
		}
		if st.C == 1 { // a valid header in front of noise
			b = ref.Frame(byte(st.K), b)
		}
		s := &sent{typ: 99, kind: "hostile"}
		w.noise = true
		rc.emit(s, b)
		if rc.bad == nil && !s.dead {
			rc.bad = s
		}
	case "cut": // part of a frame, then the stream ends
		if rc.half || rc.cut {
			return
		}
		id := rc.nextID()
		zzrt.Count(zzrt.CCut)
		r := newRnd(id + w.p.Env)
		bl := &ref.Block{Header: makeHeader(r, id, 0, 10, 20), Body: makeBody(r, 2, 1, 2)}
		f := ref.Frame(ref.BlockT, bl.Bytes())
		n := 1 + int(st.A)%(len(f)-1)
		s := &sent{typ: ref.BlockT, kind: "bad", id: id, verdict: -1}
		rc.emit(s, f[:n])
		rc.cut = true
		if rc.bad == nil {
			rc.bad = s
		}
		switch st.K {
		case 0:
			rc.push(witem{fin: true})
		case 1:
			rc.push(witem{close: true})
		default:
			rc.push(witem{abort: true})
		}
	case "half":
		rc.half = true
		rc.push(witem{fin: true})
	case "close":
		rc.self = true
		rc.push(witem{wait: st.A * ms, close: true})
	case "abort":
		rc.self = true
		rc.push(witem{abort: true})
	case "pause":
		rc.paused = true
		zzrt.Count(zzrt.CStopReading)
	case "resume":
		rc.resume()
	case "drip":
		rc.drip = st.A * ms
	case "flood":
		for i := int64(0); i < st.A; i++ {
			rc.ping(uint64(i), uint64(st.B))
		}
	case "floodblk":
		n := 300
		if st.A > 5 {
			n = 60
		}
		if k := w.p.Knobs.Window; k > 0 && k < 4096 {
			n = 40 // enough to fill it many times over
		}
		for i := int64(0); i < st.A; i++ {
			rc.getHeaders(1, n)
		}
	case "stick":
		rc.c.P.Stuck = true
		zzrt.Count(zzrt.CPartition)
	}
}

func (rc *rconn) resume() {
	if rc.paused {
		rc.paused = false
		zzrt.Wake(unsafe.Pointer(&rc.pw))
	}
}

// got handles a frame from the node after its hello.
func (rc *rconn) got(f *frm) {
	w := rc.w
	rc.recv = append(rc.recv, f)
	w.stat("received")
	if !rc.hsOK {
		w.violate("C06", "peer-without-handshake", "the node went on talking (type %d) after a failed handshake (%s)", f.typ, rc.mode)
		return
	}
	w.state(3, uint64(f.typ), uint64(len(rc.pend)), uint64(len(rc.sent)&7))
	switch f.typ {
	case ref.Ping:
		rc.pings++
		if rc.pings > 1 {
			w.violate("C04", "unsolicited", "more than one ping on a connection")
		}
		if _, _, err := ref.DecodePing(f.body); err != nil {
			w.violate("C15", "bad-ping", "%v", err)
		}
		if !rc.h.plan.Mute {
			rc.pong(rc.h.plan.TD, rc.h.plan.H)
		}
	case ref.GetPeers:
		rc.reqs++
		if rc.reqs > 1 {
			w.violate("C04", "unsolicited", "more than one address request on a connection")
		}
		if _, err := ref.DecodeGetPeers(f.body); err != nil {
			w.violate("C15", "bad-getpeers", "%v", err)
		}
		if rc.h.plan.Tell {
			rc.gossip(parseAddrs(strings.Join(rc.h.plan.Goss, ",")))
		}
	case ref.BlockT:
		rc.gotBlock(f)
	case ref.Pong, ref.Headers, ref.Peers:
		if rc.bad != nil && rc.bad.kind == "hostile" {
			return // noise may happen to be a request
		}
		s := rc.front(f.typ)
		if s == nil {
			w.violate("C04", "unsolicited", "reply of type %d without a matching request at this place (pending: %s)", f.typ, rc.pendDesc())
			return
		}
		rc.answered(s, f)
	default:
		w.violate("C04", "unsolicited", "unexpected message of type %d", f.typ)
	}
}

func (rc *rconn) pendDesc() string {
	o := ""
	for _, s := range rc.pend {
		o += fmt.Sprintf("%d ", s.typ)
	}
	return o
}

func replyType(s *sent) byte {
	switch s.typ {
	case ref.Ping:
		return ref.Pong
	case ref.GetPeers:
		return ref.Peers
	case ref.GetHeaders:
		return ref.Headers
	}
	return ref.BlockT
}

// front takes the request this reply must belong to.
func (rc *rconn) front(typ byte) *sent {
	for len(rc.pend) > 0 {
		s := rc.pend[0]
		if s.typ == ref.GetBlock && s.n == 0 {
			rc.pend = rc.pend[1:] // unknown block: nothing is sent
			continue
		}
		if replyType(s) != typ {
			return nil
		}
		rc.pend = rc.pend[1:]
		return s
	}
	return nil
}

func (rc *rconn) answered(s *sent, f *frm) {
	w := rc.w
	s.replied, s.rStamp, s.rAt = true, f.stamp, f.at
	w.stat("replies")
	switch f.typ {
	case ref.Pong:
		td, h, err := ref.DecodePing(f.body)
		if err != nil {
			w.violate("C15", "bad-pong", "%v", err)
			w.violate("C04", "bad-pong", "%v", err)
			return
		}
		ok := false
		for i, st := range w.states {
			until := int64(1 << 62)
			if i+1 < len(w.states) {
				until = w.states[i+1].end
			}
			if st.h == h && st.td == td && st.begin <= f.stamp && until >= s.stamp {
				ok = true
			}
		}
		if !ok {
			w.violate("C04", "inconsistent-pong", "pong carries height %d, difficulty %d: no such chain state between request and reply (states %v)", h, td, w.states)
		}
	case ref.Headers:
		var want []byte
		hs := w.replyHeaders(s.id, s.n)
		want = append(want, byte(len(hs)>>8), byte(len(hs)))
		for i := range hs {
			want = append(want, hs[i].Bytes()...)
		}
		if !sameBytes(want, f.body) {
			w.violate("C04", "wrong-headers", "headers reply of %d bytes differs from the chain's answer (%d headers)", len(f.body), len(hs))
		}
	case ref.BlockT:
		if !sameBytes(f.body, w.replyBlock(s.id, s.n).Bytes()) {
			w.violate("C04", "wrong-block", "block reply differs from the chain's block")
		}
	case ref.Peers:
		as, err := ref.DecodePeers(f.body)
		if err != nil {
			w.violate("C14", "bad-list", "address list does not decode: %v", err)
			w.violate("C15", "bad-list", "address list does not decode: %v", err)
			w.violate("C04", "bad-list", "address list does not decode: %v", err)
			return
		}
		if !sameBytes(ref.PeersBody(as), f.body) {
			w.violate("C15", "wrong-layout", "an address list of %d bytes is not in the layout of the protocol", len(f.body))
		}
		e := &listEv{req: s, caps: s.caps, req0: s.stamp, got: f.stamp, reqAt: s.at, gAt: f.at}
		for _, a := range as {
			e.addrs = append(e.addrs, a.String())
		}
		w.checkList(e)
	}
}

func (rc *rconn) gotBlock(f *frm) {
	w := rc.w
	if len(f.body) < 242 {
		w.violate("C15", "bad-block", "block message of %d bytes", len(f.body))
		return
	}
	id := binary.BigEndian.Uint64(f.body[210:])
	s := w.ids[id]
	if k := id - popID; id >= popID && k < 256 {
		if p := rc.front(ref.BlockT); p != nil && p.n == int(k) {
			rc.answered(p, f)
			return
		}
	}
	if (s == nil || s.typ == ref.GetBlock) && rc.bad != nil && rc.bad.kind == "hostile" {
		return
	}
	if s != nil && s.typ == ref.GetBlock {
		if p := rc.front(ref.BlockT); p == nil || p != s {
			w.violate("C04", "unsolicited", "block reply out of place (pending: %s)", rc.pendDesc())
			return
		}
		rc.answered(s, f)
		return
	}
	if s == nil || s.typ != ref.BlockT {
		if w.noRelay && id < 1000 {
			return
		}
		w.violate("C10", "unknown-relay", "a block nobody sent was relayed (tag %d)", id)
		w.violate("C04", "unsolicited", "a block nobody asked for (tag %d)", id)
		return
	}
	w.stat("relays")
	if rc == s.rc {
		w.violate("C10", "relayed-to-sender", "block at height %d was sent back to its sender", s.h)
	}
	if rejects(s.verdict) {
		w.violate("C10", "rejected-relayed", "a block the chain rejected was relayed")
		return
	}
	if s.vStamp == 0 {
		w.violate("C10", "relayed-before-accepted", "a block was relayed before the chain accepted it")
		return
	}
	rc.relays[id]++
	if rc.relays[id] > s.handled {
		w.violate("C10", "relayed-twice", "a block was relayed %d times to one peer after %d acceptance(s)", rc.relays[id], s.handled)
	}
	if s.huge != nil && sha256.Sum256(f.body) != s.sum || s.huge == nil && !sameBytes(f.body, s.body) {
		w.violate("C10", "altered", "a relayed block differs from what was received")
	}
	ok := false
	for i, st := range w.states {
		until := int64(1 << 62)
		if i+1 < len(w.states) {
			until = w.states[i+1].end
		}
		if st.h == s.h && st.begin <= f.stamp && until >= s.vStamp {
			ok = true
		}
	}
	if !ok {
		w.violate("C10", "relayed-not-top", "block at height %d was relayed although the chain's height was different throughout", s.h)
	}
	may := false
	for _, r := range rc.reports(s.hStamp, f.stamp, -1) {
		if r[0] < s.h || r[1] < s.td {
			may = true
		}
	}
	if !may && !(rc.bad != nil && rc.bad.kind == "hostile") {
		w.violate("C10", "relayed-to-advanced", "block (height %d, difficulty %d) was relayed to a peer that had reported %v", s.h, s.td, rc.reports(s.hStamp, f.stamp, -1))
	}
}

// reports lists the height and difficulty pairs the node may believe about
// this peer at some moment between two stamps (or up to a time, if atMax >= 0).
func (rc *rconn) reports(from, to, atMax int64) [][2]uint64 {
	// the last request answered before the window opened
	base := -1
	for _, s := range rc.sent {
		if s.replied && s.rStamp < from {
			base = s.idx
		}
	}
	start := -1
	for _, s := range rc.sent {
		if s.idx <= base && (s.typ == ref.Ping || s.typ == ref.Pong) && s.kind == "ok" {
			start = s.idx
		}
	}
	var out [][2]uint64
	if start < 0 {
		out = append(out, [2]uint64{0, rc.h.plan.TD})
	}
	for _, s := range rc.sent {
		if s.idx < start || s.kind != "ok" || s.dead {
			continue
		}
		if (atMax < 0 && s.stamp > to) || (atMax >= 0 && s.at > atMax) {
			break
		}
		switch s.typ {
		case ref.Ping, ref.Pong:
			out = append(out, [2]uint64{s.h, s.td})
		case ref.BlockT:
			if !rejects(s.verdict) {
				out = append(out, [2]uint64{s.h, s.td})
			}
		}
	}
	return out
}

// up says the node treats the connection as a peer.
func (rc *rconn) up() bool { return rc.hsOK && (rc.pings > 0 || rc.reqs > 0) }

// regStamp is when the node was surely treating it as a peer.
func (rc *rconn) regStamp() int64 {
	for _, f := range rc.recv {
		if f.typ == ref.Ping || f.typ == ref.GetPeers {
			return f.stamp
		}
	}
	return 1 << 62
}
