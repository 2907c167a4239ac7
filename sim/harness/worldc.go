//go:build go1.24

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"strings"
	"syscall"
	"unsafe"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/zzsim/ref"
	"github.com/dblokhin/gringo/zzsim/znet"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// World C: streams of messages between two users of WriteMessage and
// ReadMessage, over faulty connections, several at once, some of them sending
// the same objects.

// litem is one frame of a link.
type litem struct {
	st    *Step
	m     *outMsg
	want  int    // the kind the reader asks for
	frame []byte // what is on the wire
	short bool   // the wire ends or the body ends early
	over  bool   // the declared length exceeds the limit
	cut   bool
	ready bool
	acc   int // bytes the transport accepted
	werr  error
	done  bool
}

type link struct {
	w       *worldC
	i       int
	plan    *HostPlan
	items   []*litem
	a, b    *znet.TCPConn // writer's and reader's end
	left    int           // bytes the writer's transport still takes, -1: any
	werr    bool
	cut     bool
	nread   int64
	wdone   bool
	rdone   bool
	rd      byte
	current *litem
}

type worldC struct {
	p        *Plan
	s        *zzrt.Sim
	n        *znet.Net
	links    []*link
	v        []Violation
	stats    tally
	stateSet hset
	shared   map[uint64]*outMsg
}

func newWorldC(p *Plan, s *zzrt.Sim) *worldC {
	return &worldC{p: p, s: s, shared: map[uint64]*outMsg{}}
}

func (w *worldC) out() ([]Violation, map[string]int64, map[uint64]struct{}) {
	return w.v, w.stats.counts(), w.stateSet.set()
}

func (w *worldC) violate(prop, kind, f string, a ...any) {
	if len(w.v) < 40 {
		w.v = append(w.v, Violation{prop, kind, fmt.Sprintf(f, a...), zzrt.Now()})
	}
}

func (w *worldC) root() {
	k := &w.p.Knobs
	w.n = znet.New()
	w.n.Cfg = znet.Cfg{LatPm: k.LatPm, FragPm: k.FragPm, ShortPm: k.ShortPm, Split: k.Split, WErrPm: k.WErrPm, ResetPm: k.ResetPm, Window: k.Window, BaseLat: int64(k.BaseLatU) * 1000}
	if w.n.Cfg.Window == 0 {
		w.n.Cfg.Window = 64 << 10
	}
	for i := range w.p.Hosts {
		w.links = append(w.links, w.newLink(i))
	}
	for i := range w.p.Steps {
		st := &w.p.Steps[i]
		if st.Op == "msg" && st.H < len(w.links) {
			w.links[st.H].add(st)
		}
	}
	for _, l := range w.links {
		l := l
		zzrt.GoNamed(1, "user-writer", l.writer)
		zzrt.GoNamed(1, "user-reader", l.reader)
	}
	end := zzrt.Now() + 60*minNS
	for zzrt.Now() < end {
		busy := false
		for _, l := range w.links {
			busy = busy || !l.wdone || !l.rdone
		}
		if !busy {
			break
		}
		zzrt.Sleep(sec)
	}
	for _, l := range w.links {
		if !l.wdone {
			w.violate("C16", "write-hangs", "writing a message has not returned although the reader keeps reading")
		} else if !l.rdone {
			w.violate("C16", "read-hangs", "reading a message has not returned although the stream has ended")
		}
	}
}

func (w *worldC) newLink(i int) *link {
	l := &link{w: w, i: i, plan: &w.p.Hosts[i], left: -1}
	a, b := w.n.Pair(1, mustAddr(fmt.Sprintf("10.1.0.%d:1", i+1)), mustAddr(fmt.Sprintf("10.2.0.%d:1", i+1)))
	a.Owner = 1
	l.a, l.b = a, b
	if x, ok := strings.CutPrefix(l.plan.Wrap, "werr:"); ok {
		fmt.Sscan(x, &l.left)
	}
	return l
}

func (l *link) add(st *Step) {
	w := l.w
	it := &litem{st: st, want: st.K}
	if st.S == "shared" {
		it.m = w.shared[uint64(st.A)]
		if it.m == nil {
			it.m = makeMsg(st.K, uint64(st.A), w.p.Env, st.C == 1)
			w.shared[uint64(st.A)] = it.m
		}
	} else {
		it.m = makeMsgIn(st.K, uint64(st.A), w.p.Env, st.C == 1, int(max(st.C-1, 0)))
	}
	it.frame = it.m.frame
	r := newRnd(uint64(st.A)*7 + uint64(st.B))
	switch st.S {
	case "mistype": // the reader expects another kind
		for it.want == st.K {
			it.want = r.n(mKinds)
		}
	case "short": // the declared length ends before the body does
		d := 1 + r.n(len(it.m.body))
		it.frame = append([]byte(nil), it.m.frame...)
		binary.BigEndian.PutUint64(it.frame[3:11], uint64(len(it.m.body)-d))
		it.short = true
	case "over":
		it.frame = append([]byte(nil), it.m.frame...)
		binary.BigEndian.PutUint64(it.frame[3:11], pick(r, uint64(20000001), 1<<32, 1<<63, 1<<64-1))
		it.over = true
	case "magic":
		it.frame = append([]byte(nil), it.m.frame...)
		it.frame[r.n(2)] ^= byte(1 << r.n(8))
		it.over = true
	case "cut":
		it.frame = it.m.frame[:r.n(len(it.m.frame))]
		it.short, it.cut = true, true
	}
	l.items = append(l.items, it)
}

// Write is the transport of the link's writer.
func (l *link) Write(b []byte) (int, error) {
	n := len(b)
	if l.left >= 0 && n > l.left {
		n = l.left
	}
	k, err := l.a.Write(b[:n])
	l.current.acc += k
	if l.left >= 0 {
		l.left -= k
	}
	if err != nil {
		l.werr = true
		return k, err
	}
	if n < len(b) {
		zzrt.Count(zzrt.CWriteErr)
		if n > 0 {
			zzrt.Count(zzrt.CShortWrite)
		}
		l.werr = true
		switch l.plan.Start {
		case 1:
			return k, io.ErrShortWrite
		case 2:
			return k, io.EOF
		case 3:
			return k, os.ErrDeadlineExceeded
		case 4:
			return k, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ECONNRESET)}
		}
		return k, errors.New("simulated write error")
	}
	return k, nil
}

func (l *link) writer() {
	w := l.w
	defer func() {
		l.wdone = true
		zzrt.Wake(unsafe.Pointer(&l.rd))
	}()
	for _, it := range l.items {
		if it.st.At > 0 {
			zzrt.Sleep(it.st.At * ms)
		}
		it.ready = true
		zzrt.Wake(unsafe.Pointer(&l.rd))
		if it.short || it.over || it.m.msg == nil {
			if it.m.msg == nil {
				w.violate("C15", "does-not-decode", "the node cannot decode a well-formed %s", mNames[it.m.kind])
			}
			if it.cut {
				zzrt.Count(zzrt.CCut)
			} else {
				zzrt.Count(zzrt.CHostile)
			}
			n, err := l.a.Write(it.frame)
			it.acc = n
			if err != nil {
				l.werr = true
				break
			}
			if it.cut {
				l.cut = true
				if it.st.B%2 == 1 {
					l.a.Abort()
				}
				break
			}
			continue
		}
		l.current = it
		n, err := p2p.WriteMessage(l, it.m.msg)
		it.done, it.werr = true, err
		w.stats.inc("written")
		w.stateC(1, it)
		switch {
		case err == nil && it.acc != len(it.frame):
			w.violate("C16", "false-success", "writing a %s reported success although %d bytes of a %d-byte frame were handed over", mNames[it.m.kind], it.acc, len(it.frame))
			if !l.werr {
				w.violate("C15", "wrong-layout", "a %s was written in %d bytes instead of %d", mNames[it.m.kind], it.acc, len(it.frame))
			}
		case err == nil && n != uint64(len(it.frame)):
			w.violate("C16", "wrong-size", "writing a %s reported %d bytes for a %d-byte frame", mNames[it.m.kind], n, len(it.frame))
		case err == nil && l.werr:
			w.violate("C16", "false-success", "writing a %s reported success although the transport reported an error", mNames[it.m.kind])
		case err != nil && !l.werr:
			w.violate("C16", "false-error", "writing a %s failed although the transport took everything: %v", mNames[it.m.kind], err)
		}
		if err != nil {
			break
		}
	}
	l.a.Close()
}

// Read is what the reader reads from; it counts.
func (l *link) Read(b []byte) (int, error) {
	n, err := l.b.Read(b)
	l.nread += int64(n)
	return n, err
}

var _ io.ReadWriter = (*link)(nil)

func (l *link) broken() bool { return l.werr || l.a.P.Broken() || l.a.WErrInj || l.b.WErrInj }

func (l *link) reader() {
	w := l.w
	defer func() {
		l.b.Close()
		l.rdone = true
	}()
	for i := 0; ; i++ {
		// Now and then the reader is there before the writer.
		if i >= len(l.items) {
			break
		}
		it := l.items[i]
		got := newMsg(it.want)
		from := l.nread
		_, err := p2p.ReadMessage(l, got)
		took := l.nread - from
		w.stats.inc("read")
		w.stateC(2, it)
		limit := int64(len(it.frame))
		if it.short && !it.cut {
			limit = 11 + int64(binary.BigEndian.Uint64(it.frame[3:11]))
		}
		if it.over {
			limit = 11
		}
		if took > limit && !it.over {
			w.violate("C16", "over-read", "reading a %s consumed %d bytes, %d beyond its frame", mNames[it.m.kind], took, took-limit)
		}
		name := mNames[it.m.kind]
		switch {
		case it.want != it.st.K:
			if err == nil {
				w.violate("C16", "mistyped-accepted", "a %s was read as a %s", name, mNames[it.want])
			}
			return
		case it.cut || it.short:
			if err == nil {
				w.violate("C16", "truncated-accepted", "a %s frame of %d bytes was accepted, %d are needed (cut %v)", name, limit, len(it.m.frame), it.cut)
			}
			return
		case it.over:
			if err == nil {
				w.violate("C16", "bad-header-accepted", "a %s frame with a bad header was accepted", name)
			}
			return
		case err != nil:
			if !l.broken() {
				w.violate("C15", "does-not-decode", "a %s of %d bytes does not decode: %v", name, len(it.frame), err)
				w.violate("C16", "false-read-error", "reading a complete %s failed: %v", name, err)
			}
			return
		}
		if took != limit {
			w.violate("C16", "truncated-accepted", "reading a %s succeeded after %d of %d bytes", name, took, limit)
			return
		}
		if b := got.Bytes(); !sameBytes(b, it.m.body) {
			w.violate("C15", "altered", "a %s arrived different from what was sent (%d instead of %d bytes, first difference at %d)", name, len(b), len(it.m.body), diffAt(b, it.m.body))
			return
		}
		if d := sameMsg(it.m, got); d != "" {
			w.violate("C15", "altered", "the %s of a %s arrived different from what was sent", d, name)
			return
		}
		w.stats.inc("roundtrips")
	}
	// Nothing more may be there.
	var x [1]byte
	if n, _ := l.b.Read(x[:]); n > 0 && !l.broken() {
		w.violate("C15", "wrong-layout", "bytes are left over after the last frame")
		w.violate("C16", "left-over", "bytes are left over after the last frame")
	}
}

func (w *worldC) stateC(ph uint64, it *litem) {
	h := uint64(14695981039346656037)
	for _, x := range []uint64{ph, uint64(it.m.kind), uint64(it.want), uint64(min(it.acc/512, 40)), b2u(it.short), b2u(it.over), b2u(it.werr != nil), uint64(len(w.links))} {
		h = (h ^ x) * 1099511628211
	}
	w.stateSet.add(h)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func mustAddr(s string) *net.TCPAddr {
	a, err := net.ResolveTCPAddr("tcp", s)
	if err != nil {
		panic(err)
	}
	return a
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// sameMsg compares what arrived with what was sent, field by field.
func sameMsg(m *outMsg, got p2p.Message) string {
	switch x := got.(type) {
	case *p2p.Ping:
		if s := m.msg.(*p2p.Ping); s.Height != x.Height || s.TotalDifficulty != x.TotalDifficulty {
			return "contents"
		}
	case *p2p.Pong:
		if s := m.msg.(*p2p.Pong); s.Height != x.Height || s.TotalDifficulty != x.TotalDifficulty {
			return "contents"
		}
	case *p2p.GetPeerAddrs:
		if x.Capabilities != m.caps {
			return "capabilities"
		}
	case *p2p.GetBlockHeaders:
		if len(x.Locator.Hashes) != len(m.loc.Hashes) {
			return "number of hashes"
		}
		for i, h := range x.Locator.Hashes {
			if !sameBytes(h, m.loc.Hashes[i]) {
				return "hashes"
			}
		}
	case *p2p.GetBlock:
		if !sameBytes(x.Hash, m.hash) {
			return "hash"
		}
	case *p2p.PeerError:
		if s := m.msg.(*p2p.PeerError); s.Code != x.Code || s.Message != x.Message {
			return "contents"
		}
	case *p2p.BlockHeader:
		return sameHeader(&m.hdrs[0], &x.Header)
	case *p2p.BlockHeaders:
		if len(x.Headers) != len(m.hdrs) {
			return "number of headers"
		}
		for i := range x.Headers {
			if d := sameHeader(&m.hdrs[i], &x.Headers[i]); d != "" {
				return d
			}
		}
	case *consensus.Block:
		if d := sameHeader(&m.hdrs[0], &x.Header); d != "" {
			return d
		}
		return sameBody(m.bl, x.Inputs, x.Outputs, x.Kernels)
	case *consensus.CompactBlock:
		if d := sameHeader(&m.hdrs[0], &x.Header); d != "" {
			return d
		}
		if len(x.KernelIDs) != len(m.ids) {
			return "number of short ids"
		}
		return sameBody(m.bl, nil, x.Outputs, x.Kernels)
	case *p2p.PeerAddrs:
		return samePeers(x, m.addrs)
	case *consensus.Transaction:
		if x.KernelOffset != m.tx.KernelOffset {
			return "offset"
		}
		return sameBody(m.bl, x.Inputs, x.Outputs, x.Kernels)
	}
	return ""
}

// samePeers compares the addresses an address list holds.
func samePeers(x *p2p.PeerAddrs, want []ref.Addr) string {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() != reflect.TypeOf([]*net.TCPAddr(nil)) {
			continue
		}
		if f.Len() != len(want) {
			return "number of addresses"
		}
		for k := range want {
			a := f.Index(k)
			if a.IsNil() {
				return "addresses"
			}
			ip := net.IP(a.Elem().FieldByName("IP").Bytes())
			if port := a.Elem().FieldByName("Port").Int(); !ip.Equal(want[k].IP) || port != int64(want[k].Port) {
				return "addresses"
			}
		}
	}
	return ""
}

func sameHeader(a, b *consensus.BlockHeader) string {
	for _, x := range []struct {
		n  string
		ok bool
	}{
		{"version", a.Version == b.Version}, {"height", a.Height == b.Height}, {"timestamp", a.Timestamp.Equal(b.Timestamp)},
		{"previous hash", sameBytes(a.Previous, b.Previous)}, {"previous root", sameBytes(a.PreviousRoot, b.PreviousRoot)},
		{"output root", sameBytes(a.UTXORoot, b.UTXORoot)}, {"range proof root", sameBytes(a.RangeProofRoot, b.RangeProofRoot)},
		{"kernel root", sameBytes(a.KernelRoot, b.KernelRoot)}, {"offset", sameBytes(a.TotalKernelOffset, b.TotalKernelOffset)},
		{"nonce", a.Nonce == b.Nonce}, {"output size", a.OutputMmrSize == b.OutputMmrSize}, {"kernel size", a.KernelMmrSize == b.KernelMmrSize},
		{"total difficulty", a.TotalDifficulty == b.TotalDifficulty}, {"scaling", a.ScalingDifficulty == b.ScalingDifficulty},
		{"edge bits", a.POW.EdgeBits == b.POW.EdgeBits}, {"proof", fmt.Sprint(a.POW.Nonces) == fmt.Sprint(b.POW.Nonces)},
	} {
		if !x.ok {
			return x.n
		}
	}
	return ""
}

// sameBody compares elements; b is sorted.
func sameBody(b *consensus.Block, is consensus.InputList, os consensus.OutputList, ks consensus.TxKernelList) string {
	if len(is) != len(b.Inputs) || len(os) != len(b.Outputs) || len(ks) != len(b.Kernels) {
		return "number of elements"
	}
	for i := range is {
		if is[i].Features != b.Inputs[i].Features || !sameBytes(is[i].Commit, b.Inputs[i].Commit) {
			return "inputs"
		}
	}
	for i := range os {
		if os[i].Features != b.Outputs[i].Features || !sameBytes(os[i].Bytes(), b.Outputs[i].Bytes()) {
			return "outputs"
		}
	}
	for i := range ks {
		x, y := &ks[i], &b.Kernels[i]
		if x.Features != y.Features || x.Fee != y.Fee || x.LockHeight != y.LockHeight || x.ExcessSig != y.ExcessSig {
			return "kernels"
		}
	}
	return ""
}

// genC makes a plan of message streams.
func genC(p *Plan, r *rnd) {
	p.World = "C"
	genKnobs(p, r)
	k := &p.Knobs
	k.WErrPm, k.ResetPm = 0, 0
	if r.pc(25) {
		k.WErrPm, k.ResetPm = pick(r, 0, 3, 20), pick(r, 0, 1, 5)
	}
	bad := 15
	if p.Prop == "C16" {
		bad = 45
	}
	nl := r.in(1, 5)
	nsh := r.n(3)
	for i := 0; i < nl; i++ {
		h := HostPlan{Addr: fmt.Sprint(i)}
		n := r.in(1, 10)
		big := r.pc(40) && (k.Window == 0 || k.Window >= 4096)
		for j := 0; j < n; j++ {
			st := Step{Op: "msg", H: i, K: r.n(mKinds), A: int64(r.u64() >> 2), B: int64(r.n(1000))}
			if big && r.pc(40) {
				st.C = 1
			}
			if nsh > 0 && r.pc(35) {
				st.S, st.A = "shared", int64(r.n(nsh))
				st.K, st.C = pick(newRnd(uint64(st.A)+p.Env), mBlock, mTx, mHeaders, mCompact, mBlock), 0
			}
			if r.pc(20) {
				st.At = int64(pick(r, 1, 1, 50, 3000))
			}
			if j == n-1 && r.pc(bad) {
				st.S = pick(r, "mistype", "mistype", "short", "short", "cut", "cut", "over", "magic")
			}
			p.Steps = append(p.Steps, st)
		}
		if r.pc(bad / 2) {
			h.Wrap = fmt.Sprintf("werr:%d", pick(r, r.n(12), r.n(200), r.n(3000), r.n(30000)))
			h.Start = r.n(5)
		}
		p.Hosts = append(p.Hosts, h)
	}
	if r.n(200) == 0 { // one with very many inputs
		for i := range p.Steps {
			st := &p.Steps[i]
			if st.S == "" && (st.K == mBlock || st.K == mTx) {
				st.C = 1 + int64(pick(r, 65535, 65536, 65600, 66000))
				k.FragPm, k.ShortPm, k.Split = 0, 0, false
				k.Window = 0
				break
			}
		}
	}
}
