//go:build go1.24

package main

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"unsafe"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/zzsim/fakes"
	"github.com/dblokhin/gringo/zzsim/ref"
	"github.com/dblokhin/gringo/zzsim/znet"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// World B: single connections, outbound and inbound, driven directly through
// the Peer API by any number of concurrent users, without the pool's loop.

// bsend is one call that sends a message.
type bsend struct {
	sender *bsender
	idx    int
	m      *outMsg
	shared bool
	called bool
	ret    bool
	got    int
}

// bsender sends its messages one after the other.
type bsender struct {
	s     *sess
	msgs  []*bsend
	next  int // the next one to arrive
	task  *zzrt.Task
	begun bool
}

type waiter struct {
	what string
	ret  bool
}

// sess is one connection.
type sess struct {
	w       *worldB
	i       int
	plan    *HostPlan
	key     string
	nh      *znet.Host
	peer    *p2p.Peer
	err     error
	called  bool
	ret     bool // the constructor returned
	retAt   int64
	running bool // Start has returned
	up1     byte
	started bool
	wrap    *wrapConn

	c        *znet.TCPConn // the remote's end
	mode     string
	hsGood   bool // we sent a complete, compatible handshake
	hsSent   int
	hello    *ref.Hand
	reply    *ref.Shake
	firstIn  bool
	buf      []byte
	bufOff   int
	q        []witem
	qw, pw   byte
	paused   bool
	eof      bool
	dropped  bool // the node ended it first
	self     bool
	half     bool
	cut      bool
	bad      bool
	hostile  bool
	wbroken  bool
	stale    bool
	requests map[byte]int // requests sent, by reply type
	frames   int          // frames a handler processes
	lclosed  bool         // a local close was asked for
	senders  []*bsender
	waits    []*waiter
	pings    int // SendPing calls
	mine     map[string][]*bsend
	foreign  int
	selfRet  bool
}

type worldB struct {
	hb       zzrt.Hb // peers are handed over in an orderly way
	p        *Plan
	s        *zzrt.Sim
	n        *znet.Net
	c        *fakes.Chain
	sy       *p2p.Syncer
	ss       []*sess
	hooks    map[uint64]func()
	known    map[uint64]bool
	v        []Violation
	stats    tally
	stateSet hset
	nid      uint64
	ending   bool
	nonces   []uint64
	own      *ref.Hand
	shared   []*outMsg
	dialsOut int
	dialRet  int
}

func (w *worldB) out() ([]Violation, map[string]int64, map[uint64]struct{}) {
	return w.v, w.stats.counts(), w.stateSet.set()
}

func (w *worldB) violate(prop, kind, f string, a ...any) {
	if len(w.v) < 40 {
		w.v = append(w.v, Violation{prop, kind, fmt.Sprintf(f, a...), zzrt.Now()})
	}
}

func (w *worldB) stat(k string) { w.stats.inc(k) }

func (w *worldB) state(xs ...uint64) {
	h := uint64(14695981039346656037)
	for _, x := range xs {
		h = (h ^ x) * 1099511628211
	}
	w.stateSet.add(h)
}

func newWorldB(p *Plan, s *zzrt.Sim) *worldB {
	p2p.SimReset()
	return &worldB{p: p, s: s, hooks: map[uint64]func(){}, known: map[uint64]bool{}, nid: 5000}
}

// wrapConn is a connection object with a will of its own.
type wrapConn struct {
	*znet.TCPConn
	s       *sess
	mode    string
	n       int // the write that misbehaves
	writes  int
	failed  bool
	closes  int
	closed  bool
	started bool
}

func (c *wrapConn) Write(b []byte) (int, error) {
	if len(b) == 0 {
		return c.TCPConn.Write(b)
	}
	if c.failed {
		c.s.w.violate("C16", "wrote-after-error", "%d more bytes were written after a failed write", len(b))
		return c.TCPConn.Write(b)
	}
	c.writes++
	if c.writes == c.n {
		k := len(b) * (c.s.i % 4) / 4
		if c.mode == "werr" {
			zzrt.Count(zzrt.CWriteErr)
			if k > 0 {
				zzrt.Count(zzrt.CShortWrite)
			}
			n, _ := c.TCPConn.Write(b[:k])
			c.failed = true
			return n, errors.New("simulated write error")
		}
	}
	return c.TCPConn.Write(b)
}

func (c *wrapConn) Close() error {
	c.closes++
	c.closed = true
	if c.mode == "slowclose" {
		zzrt.Sleep(int64(c.n) * sec)
	}
	err := c.TCPConn.Close()
	if c.mode == "closeerr" {
		return errors.New("simulated close error")
	}
	return err
}

// --- setup ---

func (w *worldB) root() {
	k := &w.p.Knobs
	n := znet.New()
	w.n = n
	n.Cfg = znet.Cfg{LatPm: k.LatPm, FragPm: k.FragPm, ShortPm: k.ShortPm, Split: k.Split, WErrPm: k.WErrPm, ResetPm: k.ResetPm, Window: k.Window, BaseLat: int64(k.BaseLatU) * 1000}
	if n.Cfg.Window == 0 {
		n.Cfg.Window = 64 << 10
	}
	w.c = &fakes.Chain{
		OnHeaders:    func(hs []consensus.BlockHeader) error { w.hook(first(hs)); return nil },
		OnBlock:      func(b *consensus.Block) error { w.hook(b.Header.OutputMmrSize); return nil },
		OnGetBlock:   w.onGetBlock,
		OnGetHeaders: w.onGetHeaders,
		OnState:      func(int, uint64, uint64) {},
	}
	mp := &fakes.Mempool{OnTx: func(t *consensus.Transaction) error { w.hook(hashID(t.KernelOffset[:])); return nil }}
	zzrt.As(1, func() { w.sy = p2p.NewSyncer(nil, w.c, mp) })
	for i := range w.p.Hosts {
		hp := &w.p.Hosts[i]
		s := &sess{w: w, i: i, plan: hp, key: canon(hp.Addr), requests: map[byte]int{}, mine: map[string][]*bsend{}, mode: "ok", firstIn: true}
		if len(hp.HS) > 0 {
			s.mode = hp.HS[0]
		}
		w.ss = append(w.ss, s)
		if !hp.In {
			s.nh = n.AddHost(s.key, s.accept)
			switch hp.State {
			case "refuse":
				s.nh.State = znet.HostRefuse
			case "blackhole":
				s.nh.State = znet.HostBlackhole
			case "slow":
				s.nh.State, s.nh.Delay = znet.HostSlow, int64(hp.Delay)*ms
			}
		}
	}
	for i := range w.p.Steps {
		st := &w.p.Steps[i]
		if d := st.At*ms - zzrt.Now(); d > 0 {
			zzrt.Sleep(d)
		} else {
			zzrt.Yield()
		}
		w.step(st)
	}
	if d := w.p.End*ms - zzrt.Now(); d > 0 {
		zzrt.Sleep(d)
	}
	w.finish()
}

func first(hs []consensus.BlockHeader) uint64 {
	if len(hs) == 0 {
		return 0
	}
	return hs[0].OutputMmrSize
}

// hook runs what the script attached to the message with this id.
func (w *worldB) hook(id uint64) {
	zzrt.Point(83)
	if f := w.hooks[id]; f != nil {
		delete(w.hooks, id)
		f()
	}
}

func (w *worldB) onGetBlock(h consensus.Hash) *consensus.Block {
	id := hashID(h)
	w.hook(id)
	if len(h) < 10 || h[8] == 0 {
		return nil
	}
	r := newRnd(id ^ w.p.Env)
	return toBlock(&ref.Block{Header: makeHeader(r, id, 0, id%5000, id*3), Body: makeBody(r, r.n(3), r.n(2), r.n(3))})
}

func (w *worldB) onGetHeaders(l consensus.Locator) []consensus.BlockHeader {
	if len(l.Hashes) == 0 {
		return nil
	}
	id := hashID(l.Hashes[0])
	w.hook(id)
	r := newRnd(id ^ w.p.Env)
	var out []consensus.BlockHeader
	for i := int(l.Hashes[0][9]); i > 0; i-- {
		h := makeHeader(r, id, 0, uint64(i), 1)
		out = append(out, toHeader(&h))
	}
	return out
}

// --- opening ---

func (w *worldB) user(name string, f func()) *zzrt.Task {
	return zzrt.GoNamed(1, "user-"+name, func() {
		w.hb.Subscribe()
		f()
	})
}

func (s *sess) open() {
	if s.called {
		return
	}
	s.called = true
	w := s.w
	if !s.plan.In {
		w.user("dial", func() {
			if s.plan.State != "self" {
				w.sy.Pool.Add(s.key)
			}
			p, err := p2p.NewPeer(w.sy, s.key)
			s.opened(p, err)
		})
		return
	}
	a, _ := net.ResolveTCPAddr("tcp", s.key)
	hc, nc := w.n.Pair(1, a, &net.TCPAddr{IP: net.IPv4(10, 255, 0, 1), Port: 13414})
	var conn net.Conn = nc
	if s.plan.Wrap != "" {
		m, n, _ := strings.Cut(s.plan.Wrap, ":")
		s.wrap = &wrapConn{TCPConn: nc, s: s, mode: m}
		fmt.Sscan(n, &s.wrap.n)
		conn = s.wrap
	}
	s.c = hc
	zzrt.GoMute(fmt.Sprintf("remote%d", s.i), func() {
		zzrt.GoMute(fmt.Sprintf("remote%d-w", s.i), s.writer)
		s.sendHello()
		s.reader()
	})
	w.user("accept", func() {
		p, err := p2p.AcceptNewPeer(conn)
		s.opened(p, err)
		if p == nil {
			conn.Close() // the caller's job
		}
	})
}

// sendHello sends the inbound hello.
func (s *sess) sendHello() {
	w := s.w
	hd := s.goodHand()
	mode := s.mode
	if strings.HasPrefix(mode, "ownnonce") {
		var k int
		fmt.Sscan(strings.TrimPrefix(mode, "ownnonce:"), &k)
		if len(w.nonces) == 0 {
			mode = "ok"
		} else {
			m := len(w.nonces)
			if m > 100 {
				m = 100
			}
			hd.Nonce = w.nonces[len(w.nonces)-1-k%m]
			w.stat("own_nonce_tries")
		}
	}
	body := hd.Bytes()
	at := len(body) - 32 - len(hd.Agent) - 8
	its, good := hsItems(strings.Replace(mode, "ownnonce", "ok", 1), ref.HandT, body, at)
	s.hsGood = good && !strings.HasPrefix(mode, "ownnonce")
	if mode == "deaf" {
		s.paused = true
	}
	for _, it := range its {
		s.push(it)
	}
}

func (s *sess) goodHand() *ref.Hand {
	hp := s.plan
	r := newRnd(s.w.p.Env + uint64(s.i))
	return &ref.Hand{Version: 1, Caps: hp.Caps, TD: hp.TD, Nonce: pick(r, r.u64(), r.u64(), r.u64(), 0, uint64(r.n(200)), ^uint64(0)), Agent: strings.Repeat("y", hp.Agent), Genesis: ref.Genesis4,
		Sender: ref.Addr{IP: net.IPv4(1, 2, 3, 4).To4(), Port: 99}, Receiver: ref.Addr{IP: net.ParseIP("2001:db8::7"), Port: 5}}
}

func (s *sess) goodShake() *ref.Shake {
	hp := s.plan
	return &ref.Shake{Version: 1, Caps: hp.Caps, TD: hp.TD, Agent: strings.Repeat("x", hp.Agent), Genesis: ref.Genesis4}
}

// accept is the remote side of an outbound session.
func (s *sess) accept(c *znet.TCPConn) {
	w := s.w
	if s.plan.State == "self" { // the node dials itself
		c.Owner = 1
		s.c = c
		w.stat("self_dials")
		w.user("accept", func() {
			p, err := p2p.AcceptNewPeer(c)
			s.selfRet = true
			if err == nil || p != nil {
				w.violate("C06", "self-connection", "a connection from the node to itself was accepted")
				if p != nil {
					p.Close()
				}
			}
			c.Close()
		})
		return
	}
	s.c = c
	if s.mode == "deaf" {
		s.paused = true
		zzrt.Count(zzrt.CHandshakeStall)
	}
	zzrt.GoMute(fmt.Sprintf("remote%d-w", s.i), s.writer)
	s.reader()
}

// opened judges the outcome of a handshake and starts the peer.
func (s *sess) opened(p *p2p.Peer, err error) {
	w := s.w
	w.hb.Publish()
	s.peer, s.err = p, err
	s.ret, s.retAt = true, zzrt.Now()
	if (p == nil) == (err == nil) {
		w.violate("C06", "no-verdict", "handshake returned peer %v and error %v", p != nil, err)
	}
	if p == nil || err != nil {
		w.stat("refused")
		if s.required() {
			w.violate("C06", "good-refused", "a complete, compatible handshake (%s) failed: %v", s.mode, err)
		}
		s.peer = nil
		return
	}
	w.stat("peers")
	if s.plan.State == "self" {
		w.violate("C06", "self-connection", "a connection from the node to itself became a peer")
	} else if !s.hsGood {
		w.violate("C06", "peer-without-handshake", "a peer exists although the remote's handshake was: %s", s.mode)
	} else if s.wrap != nil && s.wrap.failed {
		w.violate("C06", "peer-without-reply", "an inbound peer exists although the reply could not be sent")
	}
	if s.hsGood {
		hp, pre := s.plan, "x"
		if s.plan.In {
			pre = "y"
		}
		if p.Info.Version != 1 || uint32(p.Info.Capabilities) != hp.Caps || uint64(p.Info.TotalDifficulty) != hp.TD || p.Info.UserAgent != strings.Repeat(pre, hp.Agent) {
			w.violate("C06", "wrong-info", "peer recorded as version %d, capabilities %d, difficulty %d, agent of %d bytes; the remote sent 1, %d, %d, %d bytes",
				p.Info.Version, p.Info.Capabilities, p.Info.TotalDifficulty, len(p.Info.UserAgent), hp.Caps, hp.TD, hp.Agent)
		}
		if !s.plan.In && p.Addr != s.key {
			w.violate("C06", "wrong-info", "peer at %s recorded as %q", s.key, p.Addr)
		}
	}
	if s.plan.Start < 0 {
		return
	}
	if s.plan.Start > 0 {
		zzrt.Sleep(int64(s.plan.Start) * ms)
	}
	s.started = true
	if s.wrap != nil {
		s.wrap.started = true
	}
	p.Start()
	zzrt.RaceRelease(unsafe.Pointer(&s.up1))
	s.running = true
}

// waitUser waits for the end, knowing that the peer was started.
func (s *sess) waitUser() {
	s.call("WaitForDisconnect", func() {
		zzrt.RaceAcquire(unsafe.Pointer(&s.up1))
		s.peer.WaitForDisconnect()
	})
}

// required says the handshake has to succeed.
func (s *sess) required() bool {
	k := &s.w.p.Knobs
	return s.hsGood && k.LatPm == 0 && k.StallPm == 0 && k.WErrPm == 0 && k.ResetPm == 0 && s.c != nil && !s.c.P.Broken() && !s.self && !s.half && !s.cut && !s.paused &&
		(s.wrap == nil || !s.wrap.failed) && !s.bad && s.mode != "okslow:5000" && !(s.plan.Agent > 400 && strings.HasPrefix(s.mode, "okdrip")) && s.plan.State == ""
}

// --- remote side ---

func (s *sess) push(it witem) {
	s.q = append(s.q, it)
	zzrt.Wake(unsafe.Pointer(&s.qw))
}

func (s *sess) writer() {
	for {
		for len(s.q) == 0 {
			zzrt.Wait(unsafe.Pointer(&s.qw), "remote writer idle")
		}
		it := s.q[0]
		s.q = s.q[1:]
		if it.wait > 0 {
			zzrt.Sleep(it.wait)
		}
		switch {
		case it.close:
			s.self = true
			s.c.Close()
			zzrt.Wake(unsafe.Pointer(&s.pw))
			return
		case it.abort:
			s.self = true
			s.c.Abort()
			zzrt.Wake(unsafe.Pointer(&s.pw))
			return
		case it.fin:
			zzrt.Count(zzrt.CHalfClose)
			s.c.CloseWrite()
		case it.drip > 0:
			zzrt.Count(zzrt.CDrip)
			for i := range it.b {
				zzrt.Sleep(it.drip)
				if _, err := s.c.Write(it.b[i : i+1]); err != nil {
					s.wbroken = true
					break
				}
			}
		case s.plan.Batch && s.ret && it.plain():
			zzrt.Sleep(int64(zzrt.Cur.EnvN(3)) * 7 * ms)
			fs := [][]byte{it.b}
			for len(s.q) > 0 && s.q[0].plain() && len(fs) < 40 {
				fs = append(fs, s.q[0].b)
				s.q = s.q[1:]
			}
			if !batch(s.c, fs) {
				s.wbroken = true
			}
		default:
			if _, err := s.c.Write(it.b); err != nil {
				s.wbroken = true
			}
		}
	}
}

func (s *sess) reader() {
	tmp := make([]byte, 4096)
	for {
		for s.paused && !s.self {
			zzrt.Wait(unsafe.Pointer(&s.pw), "remote paused")
		}
		n, err := s.c.Read(tmp)
		s.buf = append(s.buf, tmp[:n]...)
		for {
			f, ok := s.parse()
			if !ok {
				break
			}
			s.got(f)
		}
		if err != nil {
			break
		}
	}
	s.eof = true
	s.dropped = !s.self
	s.push(witem{close: true})
}

func (s *sess) parse() (*frm, bool) {
	b := s.buf[s.bufOff:]
	if len(b) < 11 || s.stale {
		return nil, false
	}
	l := uint64(0)
	for _, x := range b[3:11] {
		l = l<<8 | uint64(x)
	}
	if b[0] != 0x54 || b[1] != 0x34 || l > ref.MaxMsg || b[2] > 20 {
		s.stale = true
		s.w.violate("C16", "garbled-stream", "the node sent something that is not a frame: % x", b[:11])
		s.w.violate("C15", "garbled-stream", "the node sent something that is not a frame: % x", b[:11])
		return nil, false
	}
	if uint64(len(b)-11) < l {
		return nil, false
	}
	f := &frm{stamp: zzrt.Stamp(), at: zzrt.Now(), typ: b[2], body: b[11 : 11+l]}
	s.bufOff += 11 + int(l)
	return f, true
}

// got judges a frame from the node.
func (s *sess) got(f *frm) {
	w := s.w
	if s.firstIn {
		s.firstIn = false
		if s.plan.In {
			s.gotReply(f)
		} else {
			s.gotHello(f)
		}
		return
	}
	w.stat("received")
	if !s.hsGood {
		w.violate("C06", "peer-without-handshake", "the node went on talking (type %d) after a failed handshake (%s)", f.typ, s.mode)
		return
	}
	key := string(f.typ) + string(f.body)
	if bs := s.mine[key]; len(bs) > 0 {
		due := false
		for _, b := range bs {
			due = due || b.called && b.got == 0
		}
		if due || s.requests[f.typ] == 0 { // otherwise an equal reply
			s.arrived(bs)
			return
		}
	}
	if f.typ == ref.Ping && s.pings > 0 {
		s.pings--
		return
	}
	if s.requests[f.typ] > 0 {
		s.requests[f.typ]--
		w.stat("replies")
		return
	}
	if s.hostile {
		return
	}
	s.foreign++
	for _, sd := range s.senders {
		for _, b := range sd.msgs {
			if b.called && b.got == 0 && b.m.typ == f.typ {
				w.violate("C15", "altered", "a %s of %d bytes arrived instead of the one sent (%d bytes)", mNames[b.m.kind], len(f.body), len(b.m.body))
				return
			}
		}
	}
	w.violate("C16", "unsent-frame", "a frame of type %d (%d bytes) arrived that nobody sent at this point", f.typ, len(f.body))
}

func (s *sess) arrived(bs []*bsend) {
	w := s.w
	w.stat("delivered")
	var b *bsend
	for _, x := range bs {
		if x.got == 0 && (b == nil || x.called && !b.called) {
			b = x
		}
	}
	if b == nil {
		w.violate("C16", "duplicate", "a %s sent once arrived again", mNames[bs[0].m.kind])
		return
	}
	b.got++
	if !b.called {
		w.violate("C16", "unsent-frame", "a %s arrived before it was sent", mNames[b.m.kind])
	}
	if b.shared {
		return
	}
	sd := b.sender
	w.state(4, uint64(len(s.senders)), uint64(b.idx&7), uint64(f8(s)))
	for sd.next < len(sd.msgs) && sd.msgs[sd.next].shared {
		sd.next++
	}
	if b.idx < sd.next {
		w.violate("C16", "reordered", "message %d of a sender arrived after message %d", b.idx, sd.next-1)
	} else if b.idx > sd.next {
		w.violate("C16", "lost-or-reordered", "message %d of a sender arrived before message %d", b.idx, sd.next)
	}
	if b.idx >= sd.next {
		sd.next = b.idx + 1
	}
}

func f8(s *sess) int {
	n := 0
	for _, sd := range s.senders {
		if sd.next > 0 {
			n++
		}
	}
	return n
}

func (s *sess) gotHello(f *frm) {
	w := s.w
	hd, err := ref.DecodeHand(f.body)
	if f.typ != ref.HandT || err != nil {
		w.violate("C06", "bad-hello", "the first frame has type %d and does not decode as a hello: %v", f.typ, err)
		w.violate("C15", "bad-hello", "the first frame has type %d and does not decode as a hello: %v", f.typ, err)
		return
	}
	s.hello = hd
	w.own = hd
	w.nonces = append(w.nonces, hd.Nonce)
	if hd.Version != 1 || !sameBytes(hd.Genesis, ref.Genesis4) || hd.Agent == "" {
		w.violate("C06", "bad-hello", "hello carries version %d genesis %x agent %q", hd.Version, hd.Genesis, hd.Agent)
	}
	if got := hd.Receiver.String(); got != s.key {
		w.violate("C15", "bad-hello", "hello sent to %s names receiver %s", s.key, got)
	}
	its, good := hsItems(s.mode, ref.ShakeT, s.goodShake().Bytes(), 16)
	s.hsGood = good
	for _, it := range its {
		s.push(it)
	}
}

// gotReply judges the node's answer to our hello.
func (s *sess) gotReply(f *frm) {
	w := s.w
	sh, err := ref.DecodeShake(f.body)
	if f.typ != ref.ShakeT || err != nil {
		w.violate("C06", "bad-reply", "a hello was answered by type %d: %v", f.typ, err)
		w.violate("C15", "bad-reply", "a hello was answered by type %d: %v", f.typ, err)
		return
	}
	s.reply = sh
	w.stat("inbound_replies")
	if sh.Version != 1 || !sameBytes(sh.Genesis, ref.Genesis4) || sh.Agent == "" {
		w.violate("C06", "bad-reply", "reply carries version %d genesis %x agent %q", sh.Version, sh.Genesis, sh.Agent)
	}
	if o := w.own; o != nil && (sh.Caps != o.Caps || sh.Agent != o.Agent) {
		w.violate("C06", "bad-reply", "reply carries capabilities %d agent %q, our hello %d %q", sh.Caps, sh.Agent, o.Caps, o.Agent)
	}
}

// up says the session is usable by the script.
func (s *sess) up() bool { return s.peer != nil && s.c != nil && !s.self && !s.eof && !s.wbroken }

func (s *sess) emit(frame []byte) {
	if s.half || s.cut {
		return
	}
	s.frames++
	s.push(witem{b: frame})
}

// --- script ---

func (w *worldB) id() uint64 { w.nid++; return w.nid }

func (w *worldB) step(st *Step) {
	if st.H < 0 || st.H >= len(w.ss) {
		return
	}
	s := w.ss[st.H]
	switch st.Op {
	case "open":
		s.open()
		return
	case "nonces": // many short handshakes, to walk through the node's nonces
		n := int(st.A)
		key := "10.77.0.1:7777"
		if w.n.Lookup(key) == nil {
			w.n.AddHost(key, func(c *znet.TCPConn) {
				buf := make([]byte, 400)
				t := 0
				for t < 11+84 {
					k, err := c.Read(buf[t:])
					if err != nil {
						break
					}
					t += k
				}
				if t > 11 {
					if hd, err := ref.DecodeHand(buf[11:t]); err == nil {
						w.nonces = append(w.nonces, hd.Nonce)
						w.own = hd
					}
				}
				c.Close()
			})
		}
		w.dialsOut++
		w.user("nonces", func() {
			for i := 0; i < n; i++ {
				if p, _ := p2p.NewPeer(w.sy, key); p != nil {
					w.violate("C06", "peer-without-handshake", "a peer exists although the remote never answered")
					p.Close()
				}
			}
			w.dialRet++
		})
		return
	case "jump":
		w.s.JumpWall(st.A * ms)
		return
	case "chain":
		a, b := uint64(st.A), uint64(st.B)
		zzrt.GoNamed(0, "chain", func() { w.c.Advance(a, b) })
		return
	}
	if s.peer == nil || s.c == nil {
		return
	}
	switch st.Op {
	case "send":
		s.send(st)
		return
	case "sendping":
		s.pings++
		s.call("SendPing", s.peer.SendPing)
		return
	case "lclose":
		s.lclosed = true
		for i := int64(0); i <= st.A; i++ {
			s.call("Close", s.peer.Close)
		}
		return
	case "disc":
		s.lclosed = true
		s.call("Disconnect", func() { s.peer.Disconnect(errors.New("asked to")) })
		return
	case "wait":
		if s.running {
			s.waitUser()
		}
		return
	}
	if !s.up() {
		return
	}
	switch st.Op {
	case "ping":
		s.requests[ref.Pong]++
		s.emit(ref.Frame(ref.Ping, ref.PingBody(uint64(st.A), uint64(st.B))))
	case "flood":
		for i := int64(0); i < st.A; i++ {
			s.requests[ref.Pong]++
			s.emit(ref.Frame(ref.Ping, ref.PingBody(uint64(i), 1)))
		}
	case "getpeers":
		s.requests[ref.Peers]++
		s.emit(ref.Frame(ref.GetPeers, ref.GetPeersBody(uint32(st.A))))
	case "getblk":
		s.requests[ref.BlockT]++
		s.emit(ref.Frame(ref.GetBlock, idHash(w.id(), byte(st.A), 0)))
	case "gethdr":
		s.requests[ref.Headers]++
		s.emit(ref.Frame(ref.GetHeaders, ref.LocatorBody([][]byte{idHash(w.id(), 0, byte(st.B))})))
	case "cmpct":
		m := makeMsg(mCompact, w.id(), w.p.Env, false)
		s.emit(m.frame)
	case "hclose": // the handler of this message closes the connection
		id := w.id()
		w.hooks[id] = func() {
			if s.peer == nil {
				return
			}
			s.lclosed = true
			w.stat("closes_from_handler")
			zzrt.As(1, func() {
				if st.A == 0 {
					s.peer.Close()
				} else {
					s.peer.Disconnect(nil)
				}
			})
		}
		r := newRnd(id)
		switch st.K % 5 {
		case 0, 1:
			s.requests[ref.BlockT]++
			s.emit(ref.Frame(ref.GetBlock, idHash(id, byte(st.K%2), 0)))
		case 2:
			s.requests[ref.Headers]++
			s.emit(ref.Frame(ref.GetHeaders, ref.LocatorBody([][]byte{idHash(id, 0, 2)})))
		case 3:
			b := ref.Block{Header: makeHeader(r, id, 0, 999, 1), Body: makeBody(r, 1, 1, 1)}
			s.emit(ref.Frame(ref.BlockT, b.Bytes()))
		case 4:
			t := &ref.Tx{Body: makeBody(r, 1, 1, 1)}
			copy(t.Offset[:], idHash(id, 0, 0))
			s.emit(ref.Frame(ref.TxT, t.Bytes()))
		}
	case "bad":
		zzrt.Count(zzrt.CHostile)
		_, f := badFrame(w.p.Env, st.K, w.id())
		if !strictKind(st.K) {
			s.hostile = true
		}
		if !s.half && !s.cut {
			s.bad = true
		}
		s.emit(f)
	case "raw":
		zzrt.Count(zzrt.CHostile)
		r := newRnd(uint64(st.A))
		b := make([]byte, st.B)
		for i := range b {
			b[i] = byte(r.u64())
		}
		if st.C == 1 {
			b = ref.Frame(byte(st.K), b)
		}
		s.hostile = true
		if !s.half && !s.cut {
			s.bad = true
		}
		s.emit(b)
	case "cut":
		zzrt.Count(zzrt.CCut)
		m := makeMsg(mBlock, w.id(), w.p.Env, false)
		s.emit(m.frame[:1+int(st.A)%(len(m.frame)-1)])
		s.cut = true
		switch st.K {
		case 0:
			s.push(witem{fin: true})
		case 1:
			s.push(witem{close: true})
		default:
			s.push(witem{abort: true})
		}
	case "half":
		s.half = true
		s.push(witem{fin: true})
	case "close":
		s.self = true
		s.push(witem{wait: st.A * ms, close: true})
	case "abort":
		s.self = true
		s.push(witem{abort: true})
	case "reset":
		zzrt.Count(zzrt.CReset)
		s.c.P.Reset()
	case "pause":
		s.paused = true
		zzrt.Count(zzrt.CStopReading)
	case "resume":
		s.resume()
	}
}

func (s *sess) resume() {
	if s.paused {
		s.paused = false
		zzrt.Wake(unsafe.Pointer(&s.pw))
	}
}

// call runs a call that has to return once the connection is over.
func (s *sess) call(what string, f func()) {
	x := &waiter{what: what}
	s.waits = append(s.waits, x)
	s.w.user(what, func() {
		f()
		x.ret = true
	})
}

// send starts a sender.
func (s *sess) send(st *Step) {
	w := s.w
	sd := &bsender{s: s}
	r := newRnd(uint64(st.B) + w.p.Env)
	for i := int64(0); i < st.A; i++ {
		k := r.n(mKinds - 1)
		shared := false
		var m *outMsg
		if (k == mBlock || k == mHeaders) && r.pc(40) {
			// an object other senders use as well
			shared = true
			if len(w.shared) < 3 {
				w.shared = append(w.shared, makeMsg(mBlock, w.id(), w.p.Env, st.C == 1))
			}
			m = w.shared[r.n(len(w.shared))]
		} else {
			m = makeMsg(k, w.id(), w.p.Env, st.C == 1 && r.pc(30))
			if k == mHeaders && len(m.body) <= 2 {
				shared = true // empty lists are all alike
			}
		}
		if m.msg == nil {
			w.violate("C15", "does-not-decode", "the node cannot decode a well-formed %s", mNames[m.kind])
			continue
		}
		b := &bsend{sender: sd, idx: len(sd.msgs), m: m, shared: shared}
		sd.msgs = append(sd.msgs, b)
		key := string(m.typ) + string(m.body)
		s.mine[key] = append(s.mine[key], b)
	}
	s.senders = append(s.senders, sd)
	sd.task = w.user("sender", func() {
		for _, b := range sd.msgs {
			b.called = true
			p, m := s.peer, b.m
			switch {
			case m.kind == mGetPeers:
				p.SendPeerRequest(m.caps)
			case m.kind == mGetHeaders:
				p.SendHeaderRequest(m.loc)
			case m.kind == mGetBlock:
				p.SendBlockRequest(m.hash)
			case m.kind == mBlock:
				p.SendBlock(m.blk)
			case m.kind == mTx:
				p.SendTransaction(m.tx)
			default:
				p.WriteMessage(m.msg)
			}
			b.ret = true
			w.stat("sends")
		}
	})
}

// --- the end ---

// faulty says an injected fault hit the connection.
func (s *sess) faulty() bool {
	if s.c == nil {
		return true
	}
	return s.c.P.Broken() || s.c.Peer().WErrInj || (s.wrap != nil && s.wrap.failed)
}

// over says the connection has to end.
func (s *sess) over() bool {
	return s.self || s.half || s.cut || s.bad || s.lclosed || s.faulty()
}

// excused says the connection may end.
func (s *sess) excused() bool {
	return s.self && !s.dropped || s.half || s.cut || s.bad || s.lclosed || s.c == nil || s.c.P.Reseted || s.c.Peer().WErrInj ||
		(s.wrap != nil && s.wrap.failed) || (s.plan.In && s.frames > 0)
}

func (s *sess) nodeClosed() bool { return s.c.Peer().Closed() }

func (w *worldB) wait(bound int64, f func() []owed) {
	end := zzrt.Now() + bound
	for {
		left := f()
		if len(left) == 0 {
			return
		}
		if zzrt.Now() >= end {
			for _, o := range left {
				w.violate(o.prop, o.kind, "%s, %d s after the last fault", o.msg, bound/sec)
			}
			return
		}
		zzrt.Sleep(sec)
	}
}

func (w *worldB) openOwed() (o []owed) {
	for _, s := range w.ss {
		if s.called && !s.ret {
			o = append(o, owed{"C06", "handshake-hangs", fmt.Sprintf("a handshake (%s, inbound %v) has not ended", s.mode, s.plan.In)})
		}
		if s.ret && s.peer == nil && !s.plan.In && s.c != nil && !s.nodeOpenOK() {
			o = append(o, owed{"C06", "leaked-socket", fmt.Sprintf("the connection of a failed handshake (%s) is still open", s.mode)})
		}
	}
	if w.dialRet < w.dialsOut {
		o = append(o, owed{"C06", "handshake-hangs", "handshakes with a remote that closes have not ended"})
	}
	return
}

func (s *sess) nodeOpenOK() bool { return s.c.Peer().Closed() }

// aliveOwed is what a living connection still owes its senders.
func (w *worldB) aliveOwed() (o []owed) {
	for _, s := range w.ss {
		if s.peer == nil || !s.started || s.excused() {
			continue
		}
		if s.nodeClosed() {
			o = append(o, owed{"C16", "closed-without-cause", "a connection was closed although neither side asked for it and nothing was wrong"})
			continue
		}
		for _, sd := range s.senders {
			for _, b := range sd.msgs {
				if !b.ret {
					o = append(o, owed{"C16", "send-blocks", fmt.Sprintf("sending a %s on a living connection has not returned", mNames[b.m.kind])})
				} else if b.got == 0 && s.foreign == 0 {
					o = append(o, owed{"C16", "send-lost", fmt.Sprintf("a %s sent on a living connection has not arrived", mNames[b.m.kind])})
				}
			}
		}
	}
	return
}

// endOwed is what ended connections still hold.
func (w *worldB) endOwed() (o []owed) {
	for _, s := range w.ss {
		if s.peer == nil {
			continue
		}
		if !s.started && !s.lclosed {
			continue // nobody reads or writes: nothing can notice the end
		}
		if !s.over() && !s.nodeClosed() {
			continue
		}
		if !s.nodeClosed() && !(s.hostile && !s.self) {
			o = append(o, owed{"C07", "socket-open", "the socket of a finished connection is open"})
			continue
		}
		if !s.nodeClosed() {
			continue
		}
		for _, x := range s.waits {
			if !x.ret {
				o = append(o, owed{"C07", "call-hangs", x.what + " on a finished connection has not returned"})
			}
		}
		for _, sd := range s.senders {
			for _, b := range sd.msgs {
				if b.called && !b.ret {
					o = append(o, owed{"C07", "send-hangs", fmt.Sprintf("sending a %s on a finished connection has not returned", mNames[b.m.kind])})
				}
			}
		}
	}
	return
}

func (w *worldB) finish() {
	w.s.FaultsOff = true
	w.ending = true
	for _, s := range w.ss {
		if s.nh != nil && s.plan.State != "refuse" && s.plan.State != "self" {
			s.nh.State = znet.HostUp
		}
		if s.mode != "deaf" {
			s.resume()
		}
		if s.c != nil {
			s.c.P.Widen(64 << 10)
		}
	}
	w.n.Cfg.Window = 64 << 10
	w.wait(10*minNS, w.openOwed)
	w.wait(10*minNS, w.aliveOwed)
	w.wait(10*minNS, w.endOwed)
	// Now everything ends.
	for _, s := range w.ss {
		if s.peer == nil {
			if s.c != nil && s.ret && s.plan.State != "self" {
				s.push(witem{close: true})
			}
			continue
		}
		how := w.p.Mode
		if !s.started || s.plan.State == "self" {
			how = "finlocal"
		}
		switch {
		case s.over() && s.started:
		case how == "finremote":
			s.self = true
			s.push(witem{close: true})
		case how == "finbad":
			s.bad = true
			_, f := badFrame(w.p.Env, pickStrict(s.i), w.id())
			s.push(witem{b: f})
		case how == "finreset":
			s.c.P.Reset()
		default:
			s.lclosed = true
			s.call("Close", s.peer.Close)
			s.call("Close", s.peer.Close)
		}
		if s.hostile {
			s.self = true
			s.push(witem{close: true})
		}
	}
	w.wait(10*minNS, w.endOwed)
	// Later calls return as well.
	for _, s := range w.ss {
		if s.peer == nil || (!s.started && !s.lclosed) {
			continue
		}
		s := s
		s.call("a later send", func() { s.peer.WriteMessage(&p2p.Ping{}) })
		s.call("a later Close", s.peer.Close)
		if s.running || s.plan.Start < 0 {
			s.waitUser()
		}
	}
	w.wait(10*minNS, w.endOwed)
	w.wait(10*minNS, func() []owed {
		if n := w.s.LiveOwned(1); n > 0 {
			return []owed{{"C07", "goroutines-left", fmt.Sprintf("%d goroutines live after all connections ended: %s", n, w.s.DumpOwned(1))}}
		}
		return nil
	})
	for _, p := range w.n.Conns {
		for _, c := range []*znet.TCPConn{p.A, p.B} {
			if c.Owner == 1 && !c.Closed() {
				w.violate("C07", "socket-open", "a socket of the node is open at the end")
			}
		}
	}
}
