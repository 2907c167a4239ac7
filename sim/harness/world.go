//go:build go1.24

package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"sort"
	"strings"
	"unsafe"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/zzsim/fakes"
	"github.com/dblokhin/gringo/zzsim/ref"
	"github.com/dblokhin/gringo/zzsim/zmark"
	"github.com/dblokhin/gringo/zzsim/znet"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// Verdicts of the simulated chain and mempool.
const (
	vSide = iota
	vTop
	vReject
	vSlowTop
	vSlowReject
)

func rejects(v int) bool { return v == vReject || v == vSlowReject }

const (
	ms    = int64(1e6)
	sec   = int64(1e9)
	minNS = 60 * sec
)

// Liveness bounds: far above anything the node needs once faults stop.
const (
	boundReply = 10 * minNS
	boundClose = 10 * minNS
	boundStop  = 60 * minNS
	margin     = 5 * minNS // how long a decision taken before a ban may still act
)

// frm is a frame received by a remote.
type frm struct {
	stamp, at int64
	typ       byte
	body      []byte
}

// sent is a frame sent by a remote.
type sent struct {
	rc       *rconn
	idx      int
	typ      byte
	kind     string // "ok", "bad" (must never be handled, ends the connection), "hostile"
	id       uint64
	verdict  int
	stamp    int64
	at       int64
	end      int64 // stream offset just after the frame
	n        int   // headers asked for, block known
	h, td    uint64
	caps     uint32
	body     []byte
	blk      *ref.Block
	huge     *ref.Body // contents of a huge transaction or block
	sum      [32]byte  // of the bytes of a huge block
	addrs    []string
	tracked  bool // its handling is observable at the chain or mempool
	handled  int
	hStamp   int64 // when handling began
	vStamp   int64 // when the verdict was given
	vAt      int64
	topAtVer bool // chain height equalled its height at the verdict
	replied  bool
	rStamp   int64
	rAt      int64
	dead     bool // never reached the wire
}

// witem is a piece of remote output.
type witem struct {
	b     []byte
	drip  int64 // ns between bytes
	wait  int64 // ns before
	fin   bool
	close bool
	abort bool
}

// rconn is a connection seen from the remote side.
type rconn struct {
	w       *World
	h       *host
	id      int
	c       *znet.TCPConn // our end
	mode    string
	hsOK    bool
	hsAt    int64
	openAt  int64
	hello   *ref.Hand
	sent    []*sent
	off     int64
	q       []witem
	qw      byte
	paused  bool
	pw      byte
	buf     []byte
	bufOff  int
	recv    []*frm
	eof     bool
	dropped bool // the node ended it first
	ended   int64
	pings   int
	reqs    int
	pend    []*sent // requests awaiting their replies, in order
	bad     *sent
	cut     bool
	half    bool
	self    bool // we closed it
	wbroken bool
	drip    int64
	relays  map[uint64]int
	stale   bool
}

func (rc *rconn) node() *znet.TCPConn { return rc.c.Peer() }

// open says the node still has it open.
func (rc *rconn) open() bool { return !rc.node().Closed() }

// fault says an injected fault hit the connection.
func (rc *rconn) fault() bool { return rc.c.P.Reseted || rc.node().WErrInj || rc.c.P.Stuck }

// excused says the node may have ended the connection.
func (rc *rconn) excused() bool {
	return rc.self && !rc.dropped || rc.half || rc.cut || rc.bad != nil || rc.fault() || rc.h.banStamp != 0 || rc.w.stopStamp != 0 || !rc.hsOK
}

// excusedHandling says frames sent on it need not be handled.
func (rc *rconn) excusedHandling() bool {
	return rc.self && !rc.dropped || rc.fault() || rc.h.banStamp != 0 || rc.w.stopStamp != 0 || !rc.hsOK || rc.h.plan.Evil || rc.h.rejected
}

// host is one remote address.
type host struct {
	w         *World
	i         int
	plan      *HostPlan
	key       string // canonical ip:port
	nh        *znet.Host
	conns     []*rconn
	hsN       int
	banHS     int64 // 1 + how long after the next hello it is banned (ms)
	banStamp  int64 // when a ban became due
	banAt     int64
	banDone   int64 // stamp by which it has taken hold, 0 if unknown
	rejected  bool
	softRej   bool // a single header was rejected: no judgement either way
	goneForGo bool
}

func (h *host) cur() *rconn {
	for i := len(h.conns) - 1; i >= 0; i-- {
		rc := h.conns[i]
		if rc.hsOK && !rc.self && !rc.eof && !rc.wbroken && rc.open() {
			return rc
		}
	}
	return nil
}

type chst struct {
	begin, end int64 // stamps around the change that made it current
	h, td      uint64
}

type addEv struct {
	addr      string
	stamp     int64
	at        int64
	src       *sent // gossip
	done      bool
	doneStamp int64
}

// World runs a full node among scripted remotes.
type World struct {
	p         *Plan
	s         *zzrt.Sim
	n         *znet.Net
	c         *fakes.Chain
	m         *fakes.Mempool
	sy        *p2p.Syncer
	hosts     []*host
	byKey     map[string]*host
	conns     []*rconn
	ids       map[uint64]*sent
	nid       uint64
	states    []chst
	popular   map[int]*consensus.Block
	kept      []kept
	adds      []*addEv
	may       map[string]*addEv
	dialsBy   map[string][]*znet.DialRec // the node's
	dialN     int
	lapsed    int64 // when the process was suspended
	bans      map[string]*banEv
	lists     []*listEv
	runRet    int64
	returned  bool
	stopAt    int64
	stopStamp int64
	v         []Violation
	maxConn   int
	table     int
	stats     tally
	stateSet  hset
	ending    bool
	noise     bool // random bytes were sent: they may happen to be a message
	noRelay   bool // the user relayed blocks itself: relays are not attributable
}

type banEv struct {
	addr  string
	stamp int64
	done  int64
	at    int64
}

type listEv struct {
	req        *sent // nil for a direct query
	caps       uint32
	req0, got  int64 // stamps
	reqAt, gAt int64
	addrs      []string
}

func (w *World) violate(prop, kind, f string, a ...any) {
	if len(w.v) < 40 {
		w.v = append(w.v, Violation{prop, kind, fmt.Sprintf(f, a...), zzrt.Now()})
	}
}

func (w *World) stat(k string) { w.stats.inc(k) }

func (w *World) state(xs ...uint64) {
	h := uint64(14695981039346656037)
	for _, x := range xs {
		h = (h ^ x) * 1099511628211
	}
	w.stateSet.add(h)
}

func canon(addr string) string {
	a, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		return addr
	}
	return (&net.TCPAddr{IP: a.IP, Port: a.Port}).String()
}

// validAddr says whether an address may be stored: 1 yes, 0 no, -1 not specified.
func validAddr(addr string) int {
	hs, _, err := net.SplitHostPort(addr)
	if err != nil {
		return 0
	}
	ip := net.ParseIP(hs)
	if ip == nil {
		return -1
	}
	a, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil || a.Port == 0 || a.IP.IsMulticast() {
		return 0
	}
	if a.IP.IsUnspecified() {
		return -1
	}
	return 1
}

func newWorld(p *Plan, s *zzrt.Sim) *World {
	w := &World{lapsed: -1, p: p, s: s, byKey: map[string]*host{}, ids: map[uint64]*sent{}, may: map[string]*addEv{},
		bans: map[string]*banEv{}, nid: 1000}
	w.maxConn, w.table = 15, 10000
	p2p.SimReset()
	if k := p.Knobs.MaxConn; k > 0 && p2p.SimSet("maxOnlineConnections", k) {
		w.maxConn = k
	}
	if k := p.Knobs.TableSize; k > 0 && p2p.SimSet("maxPeersTableSize", k) {
		w.table = k
	}
	return w
}

func (w *World) setup() {
	k := &w.p.Knobs
	n := znet.New()
	w.n = n
	n.Cfg = znet.Cfg{LatPm: k.LatPm, FragPm: k.FragPm, ShortPm: k.ShortPm, Split: k.Split, WErrPm: k.WErrPm, ResetPm: k.ResetPm, Window: k.Window, BaseLat: int64(k.BaseLatU) * 1000}
	if n.Cfg.Window == 0 {
		n.Cfg.Window = 64 << 10
	}
	n.OnOpen = w.onOpen
	for i := range w.p.Hosts {
		hp := &w.p.Hosts[i]
		h := &host{w: w, i: i, plan: hp, key: canon(hp.Addr)}
		h.nh = n.AddHost(h.key, h.accept)
		h.setState(hp.State)
		w.hosts = append(w.hosts, h)
		w.byKey[h.key] = h
		if hp.Name != "" {
			hn, _, _ := net.SplitHostPort(hp.Name)
			a, _ := net.ResolveTCPAddr("tcp", hp.Addr)
			n.AddDNS(hn, a.IP, int64(hp.DNSms)*ms)
		}
	}
	w.c = &fakes.Chain{OnHeaders: w.onHeaders, OnBlock: w.onBlock, OnGetBlock: w.onGetBlock, OnGetHeaders: w.onGetHeaders, OnState: w.onState}
	w.m = &fakes.Mempool{OnTx: w.onTx}
	w.states = append(w.states, chst{})
	for _, st := range w.p.Init {
		if st.Op == "chain" {
			w.c.Advance(uint64(st.A), uint64(st.B))
		}
	}
	var known []string
	for i := range w.p.Hosts {
		hp := &w.p.Hosts[i]
		if hp.Known {
			a := hp.Addr
			if hp.Name != "" {
				a = hp.Name
			}
			known = append(known, a)
			w.noteAdd(canon(hp.Addr), nil, true)
		}
	}
	zzrt.As(1, func() {
		var mp p2p.Mempool
		if !k.NilMempool {
			mp = w.m
		}
		w.sy = p2p.NewSyncer(known, w.c, mp)
	})
	zzrt.GoNamed(1, "Run", func() {
		w.sy.Run()
		w.returned = true
		w.runRet = zzrt.Now()
	})
}

func (w *World) noteAdd(addr string, src *sent, done bool) {
	e := &addEv{addr: addr, stamp: zzrt.Stamp(), at: zzrt.Now(), src: src, done: done, doneStamp: zzrt.Stamp()}
	w.adds = append(w.adds, e)
	if validAddr(addr) != 0 && w.may[addr] == nil {
		w.may[addr] = e
	}
}

func (h *host) setState(s string) {
	switch s {
	case "", "up":
		h.nh.State = znet.HostUp
	case "refuse":
		h.nh.State = znet.HostRefuse
	case "blackhole":
		h.nh.State = znet.HostBlackhole
	case "slow":
		h.nh.State = znet.HostSlow
		h.nh.Delay = int64(h.plan.Delay) * ms
	case "gone":
		h.nh.State = znet.HostGone
	}
}

// onOpen checks connection limits whenever the node opens a connection.
func (w *World) onOpen(c *znet.TCPConn) {
	n := 0
	per := map[string]int{}
	for _, p := range w.n.Conns {
		if p.A.Owner == 1 && !p.A.Closed() {
			n++
			per[p.Host.Addr]++
		}
	}
	if n > w.maxConn {
		w.violate("C03", "too-many-connections", "%d outbound connections open, maximum is %d", n, w.maxConn)
	}
	if a := c.P.Host.Addr; per[a] > 1 {
		w.violate("C03", "duplicate-connection", "%d connections open to %s", per[a], a)
	}
	w.state(1, uint64(n), uint64(len(w.n.Dials)&7))
}

// --- chain and mempool ---

func (w *World) onState(phase int, h, td uint64) {
	st := zzrt.Stamp()
	if phase == 0 {
		w.states = append(w.states, chst{begin: st, end: 1 << 62, h: h, td: td})
	} else {
		w.states[len(w.states)-1].end = st
	}
}

// begin notes that the node handles the frame with this id.
func (w *World) begin(id uint64, typ byte) *sent {
	if id == 0 {
		return nil
	}
	s := w.ids[id]
	if s == nil {
		if id < 500 || w.noise {
			return nil
		}
		w.violate("C05", "handled-unsent", "the node handled a message (type %d, tag %d) that no peer sent", typ, id)
		return nil
	}
	s.handled++
	s.hStamp = zzrt.Stamp()
	if s.handled > 1 && typ != ref.GetBlock && typ != ref.GetHeaders {
		w.violate("C05", "handled-twice", "frame %d (type %d) of connection %d was handled %d times", s.idx, s.typ, s.rc.id, s.handled)
	}
	if s.kind == "bad" {
		w.violate("C05", "bad-frame-handled", "malformed frame (%s) was handled", s.badName())
	}
	if s.typ != typ && !(s.typ == ref.HeaderT && typ == ref.Headers) {
		w.violate("C05", "wrong-type", "frame of type %d handled as type %d", s.typ, typ)
	}
	for _, o := range s.rc.sent {
		if o.idx < s.idx && (o.kind == "bad") {
			w.violate("C05", "handled-after-bad", "frame %d (type %d) handled although frame %d (%s) before it was malformed", s.idx, s.typ, o.idx, o.badName())
			break
		}
		if o.idx < s.idx && o.tracked && o.handled == 0 {
			w.violate("C05", "out-of-order", "frame %d (type %d) handled before frame %d (type %d) of the same connection", s.idx, s.typ, o.idx, o.typ)
			break
		}
		if o.idx > s.idx && o.handled > 0 {
			w.violate("C05", "out-of-order", "frame %d (type %d) handled after frame %d (type %d) of the same connection", s.idx, s.typ, o.idx, o.typ)
			break
		}
	}
	if !s.rc.hsOK {
		w.violate("C06", "peer-without-handshake", "a message was handled on a connection whose handshake failed (%s)", s.rc.mode)
	}
	w.stat("handled")
	return s
}

// kept is a message handed to the chain or mempool, which may hold on to it.
type kept struct {
	s     *sent
	what  string
	bytes func() []byte
}

// handle compares a handled message with the one sent.
func (w *World) handle(s *sent, what string, bytes func() []byte) {
	if s == nil || s.body == nil || w.p.Prop == "C13" {
		return
	}
	if !sameBytes(bytes(), s.body) {
		w.violate("C05", "wrong-content", "%s (frame %d) arrived altered", what, s.idx)
		return
	}
	if len(w.kept) < 200 {
		w.kept = append(w.kept, kept{s, what, bytes})
	}
}

// checkKept compares them again: nothing that came later may have changed them.
func (w *World) checkKept() {
	zmark.Do(func() {
		for _, k := range w.kept {
			if !sameBytes(k.bytes(), k.s.body) {
				w.violate("C05", "content-changed", "%s (frame %d) changed after it was handled", k.what, k.s.idx)
				return
			}
		}
	})
}

// verdict plays the chain's judgement.
func (w *World) verdict(s *sent, v int, what string) error {
	if v == vSlowTop || v == vSlowReject {
		zzrt.Sleep(int64(w.s.EnvN(20)+1) * 500 * ms)
	} else {
		zzrt.Point(80)
	}
	if s != nil {
		s.vStamp = zzrt.Stamp()
		s.vAt = zzrt.Now()
	}
	if rejects(v) {
		if s != nil {
			if what == "header" && s.typ == ref.HeaderT {
				s.rc.h.softRej = true
			} else {
				s.rc.h.due("rejected " + what)
				s.rc.h.rejected = true
			}
		}
		w.stat("rejected_" + what)
		return fmt.Errorf("simulated chain rejects this %s", what)
	}
	return nil
}

// due notes that a ban of the host is due.
func (h *host) due(why string) {
	if h.banStamp == 0 {
		h.banStamp = zzrt.Stamp()
		h.banAt = zzrt.Now()
	}
	if h.w.bans[h.key] == nil {
		h.w.bans[h.key] = &banEv{addr: h.key, stamp: h.banStamp, at: h.banAt}
	}
}

func (w *World) onHeaders(hs []consensus.BlockHeader) error {
	if len(hs) == 0 {
		return nil
	}
	s := w.begin(hs[0].OutputMmrSize, ref.Headers)
	v := 0
	for i := range hs {
		if x := int(hs[i].KernelMmrSize); x > v {
			v = x
		}
		if s != nil && (hs[i].OutputMmrSize != s.id || hs[i].Height != s.h+uint64(i)) {
			w.violate("C05", "wrong-content", "header %d of a list arrived altered", i)
		}
	}
	if s != nil && s.n != len(hs) {
		w.violate("C05", "wrong-content", "header list of %d handled as %d", s.n, len(hs))
	}
	w.handle(s, "header list", func() []byte {
		var b []byte
		for i := range hs {
			b = append(b, hs[i].Bytes()...)
		}
		return b
	})
	return w.verdict(s, v, "header")
}

func (w *World) onBlock(b *consensus.Block) error {
	s := w.begin(b.Header.OutputMmrSize, ref.BlockT)
	if s != nil && (b.Header.Height != s.h || uint64(b.Header.TotalDifficulty) != s.td) {
		w.violate("C05", "wrong-content", "block arrived altered")
	}
	if s != nil && s.huge != nil {
		w.handleHuge(s, b.Inputs, b.Outputs, b.Kernels)
	}
	w.handle(s, "block", b.Bytes)
	v := int(b.Header.KernelMmrSize)
	err := w.verdict(s, v, "block")
	if err == nil && (v == vTop || v == vSlowTop) {
		w.c.Set(b.Header.Height, uint64(b.Header.TotalDifficulty))
		if s != nil {
			s.topAtVer = true
			s.vStamp = zzrt.Stamp()
		}
	} else if err == nil && s != nil {
		h, _ := w.c.Peek()
		s.topAtVer = h == b.Header.Height
	}
	return err
}

func (w *World) onTx(t *consensus.Transaction) error {
	var id uint64
	for i := 0; i < 8; i++ {
		id = id<<8 | uint64(t.KernelOffset[i])
	}
	s := w.begin(id, ref.TxT)
	if s != nil && s.huge != nil {
		w.handleHuge(s, t.Inputs, t.Outputs, t.Kernels)
	}
	w.handle(s, "transaction", t.Bytes)
	return w.verdict(s, int(t.KernelOffset[8]), "transaction")
}

func hashID(h []byte) uint64 {
	var id uint64
	for i := 0; i < 8 && i < len(h); i++ {
		id = id<<8 | uint64(h[i])
	}
	return id
}

func idHash(id uint64, n, x byte) []byte {
	h := make([]byte, 32)
	for i := 0; i < 8; i++ {
		h[i] = byte(id >> uint(56-8*i))
	}
	h[8], h[9] = n, x
	for i := 10; i < 32; i++ {
		h[i] = byte(id*7) ^ byte(i)
	}
	return h
}

const popID = 1 << 40 // tags of the popular blocks

// replyBlock is the block known under a getblock id.
func (w *World) replyBlock(id uint64, k int) *ref.Block {
	if k > 1 {
		id = popID + uint64(k)
		r := newRnd(id ^ w.p.Env)
		return &ref.Block{Header: makeHeader(r, id, 0, id%5000, id*3), Body: makeBody(r, r.n(6), r.in(1, 4), r.n(5))}
	}
	r := newRnd(id ^ w.p.Env)
	b := &ref.Block{Header: makeHeader(r, id, 0, id%5000, id*3), Body: makeBody(r, r.n(3), r.n(2), r.n(3))}
	return b
}

func (w *World) onGetBlock(h consensus.Hash) *consensus.Block {
	id := hashID(h)
	s := w.begin(id, ref.GetBlock)
	zzrt.Point(81)
	if len(h) < 10 || h[8] == 0 {
		return nil
	}
	_ = s
	if h[8] == 1 {
		return toBlock(w.replyBlock(id, 1))
	}
	// a popular block: everyone gets the same object, like from a real store
	k := int(h[8])
	if w.popular[k] == nil {
		b := toBlock(w.replyBlock(id, k))
		shuffle(newRnd(w.p.Env), b)
		if w.popular == nil {
			w.popular = map[int]*consensus.Block{}
		}
		w.popular[k] = b
	}
	return w.popular[k]
}

func (w *World) replyHeaders(id uint64, n int) []ref.Header {
	r := newRnd(id ^ w.p.Env)
	hs := make([]ref.Header, n)
	for i := range hs {
		hs[i] = makeHeader(r, id, 0, uint64(i), uint64(i)*5)
	}
	return hs
}

func (w *World) onGetHeaders(l consensus.Locator) []consensus.BlockHeader {
	zzrt.Point(82)
	if len(l.Hashes) == 0 {
		return nil
	}
	id := hashID(l.Hashes[0])
	s := w.begin(id, ref.GetHeaders)
	if s != nil && s.verdict != len(l.Hashes) {
		w.violate("C05", "wrong-content", "locator of %d hashes handled as %d", s.verdict, len(l.Hashes))
	}
	n := int(l.Hashes[0][8])*256 + int(l.Hashes[0][9])
	if n > ref.MaxHeaders {
		n = ref.MaxHeaders
	}
	var out []consensus.BlockHeader
	for _, h := range w.replyHeaders(id, n) {
		out = append(out, toHeader(&h))
	}
	return out
}

// --- script ---

func (w *World) root() {
	w.setup()
	for i := range w.p.Steps {
		st := &w.p.Steps[i]
		if d := st.At*ms - zzrt.Now(); d > 0 {
			zzrt.Sleep(d)
		} else {
			zzrt.Yield()
		}
		w.step(st)
	}
	if d := w.p.End*ms - zzrt.Now(); d > 0 {
		zzrt.Sleep(d)
	}
	w.finish()
}

// user runs a call of the node's user concurrently.
func (w *World) user(name string, f func()) {
	zzrt.GoNamed(1, "user-"+name, f)
}

func (w *World) step(st *Step) {
	var h *host
	if st.H >= 0 && st.H < len(w.hosts) {
		h = w.hosts[st.H]
	}
	switch st.Op {
	case "add":
		addr := st.S
		w.user("add", func() {
			w.noteAdd(w.key(addr), nil, false)
			e := w.adds[len(w.adds)-1]
			w.sy.Pool.Add(addr)
			e.done, e.doneStamp = true, zzrt.Stamp()
		})
	case "ban":
		addr := st.S
		w.banStep(addr)
	case "banmany":
		w.banMany(int(st.A), int(st.B))
	case "readd":
		w.readd(int(st.A))
	case "banhs":
		if h != nil {
			h.banHS = st.A + 1
		}
	case "stop":
		if w.stopStamp != 0 {
			return
		}
		w.stopStamp, w.stopAt = zzrt.Stamp(), zzrt.Now()
		w.user("stop", func() { w.sy.Stop() })
	case "prop":
		w.noRelay = true
		r := newRnd(uint64(st.A)*31 + uint64(st.B))
		b := &ref.Block{Header: makeHeader(r, uint64(100+st.K), 0, uint64(st.A), uint64(st.B)), Body: makeBody(r, r.n(3), r.n(2), r.n(3))}
		nb := toBlock(b)
		w.user("propagate", func() { w.sy.Pool.PropagateBlock(nb) })
	case "peers":
		caps := uint32(st.A)
		w.user("peers", func() {
			e := &listEv{caps: caps, req0: zzrt.Stamp(), reqAt: zzrt.Now()}
			pa := w.sy.Pool.Peers(consensus.Capabilities(caps))
			e.got, e.gAt = zzrt.Stamp(), zzrt.Now()
			as, err := ref.DecodePeers(pa.Bytes())
			if err != nil {
				w.violate("C14", "bad-list", "address list does not encode: %v", err)
				return
			}
			for _, a := range as {
				e.addrs = append(e.addrs, a.String())
			}
			w.checkList(e)
		})
	case "chain":
		a, b := uint64(st.A), uint64(st.B)
		zzrt.GoNamed(0, "chain", func() { w.c.Advance(a, b) })
	case "jump":
		w.s.JumpWall(st.A * ms)
	case "state":
		if h != nil {
			h.setState(st.S)
		}
	case "part":
		if h != nil {
			h.nh.Part = true
			zzrt.Count(zzrt.CPartition)
		}
	case "unpart":
		if h != nil {
			h.nh.Part = false
			w.n.Heal()
		}
	case "reset":
		if h != nil {
			for _, rc := range h.conns {
				if rc.open() && !rc.self {
					zzrt.Count(zzrt.CReset)
					rc.c.P.Reset()
				}
			}
		}
	default:
		if h != nil {
			if rc := h.cur(); rc != nil {
				rc.step(st)
			}
		}
	}
}

// key is the address an addr string stands for.
func (w *World) key(addr string) string {
	for _, h := range w.hosts {
		if h.plan.Name == addr && addr != "" {
			return h.key
		}
	}
	return canon(addr)
}

func (w *World) banStep(addr string) {
	key := w.key(addr)
	h := w.byKey[key]
	if h != nil {
		h.due("banned by the user")
	} else if w.bans[key] == nil {
		w.bans[key] = &banEv{addr: key, stamp: zzrt.Stamp(), at: zzrt.Now()}
	}
	e := w.bans[key]
	w.user("ban", func() {
		w.sy.Pool.Ban(addr)
		if e.done == 0 {
			e.done = zzrt.Stamp()
		}
	})
	w.stat("direct_bans")
}

// banMany bans many addresses no host has, one after the other.
func (w *World) banMany(n, base int) {
	var evs []*banEv
	for i := 0; i < n; i++ {
		key := fmt.Sprintf("10.%d.%d.%d:%d", 192+base%32, i/200, 1+i%200, 3414+base%7)
		if w.bans[key] == nil && w.byKey[key] == nil {
			e := &banEv{addr: key, stamp: zzrt.Stamp(), at: zzrt.Now()}
			w.bans[key] = e
			evs = append(evs, e)
		}
	}
	w.user("ban", func() {
		for _, e := range evs {
			w.sy.Pool.Ban(e.addr)
			e.done = zzrt.Stamp()
			w.stat("direct_bans")
		}
	})
}

// readd adds up to n banned addresses again, those banned first first.
func (w *World) readd(n int) {
	var l []*banEv
	for _, e := range w.bans {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool {
		return l[i].stamp < l[j].stamp || l[i].stamp == l[j].stamp && l[i].addr < l[j].addr
	})
	if len(l) > n {
		l = l[:n]
	}
	w.user("add", func() {
		for _, b := range l {
			w.noteAdd(b.addr, nil, false)
			e := w.adds[len(w.adds)-1]
			w.sy.Pool.Add(b.addr)
			e.done, e.doneStamp = true, zzrt.Stamp()
		}
	})
}

// --- remote side ---

func (h *host) accept(c *znet.TCPConn) {
	w := h.w
	mode := "ok"
	if len(h.plan.HS) > 0 {
		i := h.hsN
		if i >= len(h.plan.HS) {
			i = len(h.plan.HS) - 1
		}
		mode = h.plan.HS[i]
	}
	h.hsN++
	if w.ending && !h.plan.Evil {
		mode = "ok"
	}
	rc := &rconn{w: w, h: h, id: len(w.conns), c: c, mode: mode, openAt: zzrt.Now(), relays: map[uint64]int{}}
	w.conns = append(w.conns, rc)
	h.conns = append(h.conns, rc)
	w.stat("conns")
	rc.run()
}

func (rc *rconn) goodShake() *ref.Shake {
	hp := rc.h.plan
	return &ref.Shake{Version: 1, Caps: hp.Caps, TD: hp.TD, Agent: strings.Repeat("x", hp.Agent), Genesis: ref.Genesis4}
}

func (rc *rconn) run() {
	w := rc.w
	if rc.mode == "deaf" {
		rc.paused = true
		zzrt.Count(zzrt.CHandshakeStall)
	}
	zzrt.GoMute(fmt.Sprintf("remote%d-w", rc.id), rc.writer)
	first := true
	tmp := make([]byte, 4096)
	for {
		for rc.paused && !rc.self {
			zzrt.Wait(unsafe.Pointer(&rc.pw), "remote paused")
		}
		n, err := rc.c.Read(tmp)
		if n > 0 {
			rc.buf = append(rc.buf, tmp[:n]...)
		}
		for {
			f, ok := rc.parse()
			if !ok {
				break
			}
			if first {
				first = false
				rc.gotHello(f)
				continue
			}
			rc.got(f)
		}
		if err != nil {
			break
		}
	}
	rc.eof = true
	rc.ended = zzrt.Now()
	if !rc.self {
		rc.dropped = true
		rc.h.w.state(2, uint64(rc.h.i), uint64(len(rc.recv)&15))
	}
	// An ordinary peer closes its side when the node is gone.
	rc.push(witem{close: true})
	_ = w
}

// parse takes one strictly formed frame off the buffer.
func (rc *rconn) parse() (*frm, bool) {
	b := rc.buf[rc.bufOff:]
	if len(b) < 11 {
		return nil, false
	}
	l := uint64(0)
	for _, x := range b[3:11] {
		l = l<<8 | uint64(x)
	}
	if b[0] != 0x54 || b[1] != 0x34 || l > ref.MaxMsg || b[2] > 20 {
		if !rc.stale {
			rc.stale = true
			rc.w.violate("C16", "garbled-stream", "the node sent something that is not a frame: % x", b[:11])
			rc.w.violate("C04", "garbled-stream", "the node sent something that is not a frame: % x", b[:11])
		}
		return nil, false
	}
	if uint64(len(b)-11) < l {
		return nil, false
	}
	f := &frm{stamp: zzrt.Stamp(), at: zzrt.Now(), typ: b[2], body: append([]byte(nil), b[11:11+l]...)}
	rc.bufOff += 11 + int(l)
	if rc.bufOff == len(rc.buf) {
		rc.buf, rc.bufOff = nil, 0
	}
	return f, true
}

func (rc *rconn) push(it witem) {
	rc.q = append(rc.q, it)
	zzrt.Wake(unsafe.Pointer(&rc.qw))
}

// writer sends what is queued.
func (rc *rconn) writer() {
	for {
		for len(rc.q) == 0 {
			zzrt.Wait(unsafe.Pointer(&rc.qw), "remote writer idle")
		}
		it := rc.q[0]
		rc.q = rc.q[1:]
		if it.wait > 0 {
			zzrt.Sleep(it.wait)
		}
		switch {
		case it.close:
			rc.self = true
			rc.c.Close()
			zzrt.Wake(unsafe.Pointer(&rc.pw))
			return
		case it.abort:
			rc.self = true
			rc.c.Abort()
			zzrt.Wake(unsafe.Pointer(&rc.pw))
			return
		case it.fin:
			zzrt.Count(zzrt.CHalfClose)
			rc.c.CloseWrite()
		case it.drip > 0:
			zzrt.Count(zzrt.CDrip)
			for i := range it.b {
				if rc.w.ending && !rc.h.plan.Evil && rc.hsOK {
					if _, err := rc.c.Write(it.b[i:]); err != nil {
						rc.wbroken = true
					}
					break
				}
				zzrt.Sleep(it.drip)
				if _, err := rc.c.Write(it.b[i : i+1]); err != nil {
					rc.wbroken = true
					break
				}
			}
		case rc.h.plan.Batch && rc.hsOK && !rc.w.ending:
			zzrt.Sleep(int64(zzrt.Cur.EnvN(3)) * 7 * ms)
			fs := [][]byte{it.b}
			for len(rc.q) > 0 && rc.q[0].plain() && len(fs) < 40 {
				fs = append(fs, rc.q[0].b)
				rc.q = rc.q[1:]
			}
			if !batch(rc.c, fs) {
				rc.wbroken = true
			}
		default:
			if _, err := rc.c.Write(it.b); err != nil {
				rc.wbroken = true
			}
		}
	}
}

func (it *witem) plain() bool {
	return len(it.b) > 0 && it.drip == 0 && it.wait == 0 && !it.fin && !it.close && !it.abort
}

// batch writes frames in pieces that have nothing to do with where frames end.
func batch(c *znet.TCPConn, fs [][]byte) bool {
	zzrt.Count(zzrt.CFrag)
	env := zzrt.Cur.EnvN
	var all []byte
	var cuts []int
	for _, f := range fs {
		if env(2) == 0 {
			cuts = append(cuts, len(all)+env(14))
		}
		all = append(all, f...)
	}
	for i := env(3); i > 0; i-- {
		cuts = append(cuts, env(len(all)))
	}
	sort.Ints(cuts)
	at := 0
	for _, k := range append(cuts, len(all)) {
		if k = min(k, len(all)); k <= at {
			continue
		}
		if _, err := c.Write(all[at:k]); err != nil {
			return false
		}
		at = k
		if w := env(4); w > 0 && at < len(all) {
			zzrt.Sleep(int64(w*w*w) * ms)
		}
	}
	return true
}

// gotHello reacts to the node's hello according to the handshake mode.
func (rc *rconn) gotHello(f *frm) {
	w := rc.w
	if f.typ != ref.HandT {
		w.violate("C06", "bad-hello", "first frame on an outbound connection has type %d", f.typ)
		return
	}
	hd, err := ref.DecodeHand(f.body)
	if err != nil {
		w.violate("C15", "bad-hello", "hello does not decode: %v", err)
		w.violate("C06", "bad-hello", "hello does not decode: %v", err)
		return
	}
	rc.hello = hd
	if hd.Version != 1 || !sameBytes(hd.Genesis, ref.Genesis4) || hd.Agent == "" {
		w.violate("C06", "bad-hello", "hello carries version %d genesis %x agent %q", hd.Version, hd.Genesis, hd.Agent)
	}
	if got := hd.Receiver.String(); got != rc.h.key {
		w.violate("C15", "bad-hello", "hello sent to %s names receiver %s", rc.h.key, got)
	}
	if d := rc.h.banHS; d > 0 && !w.ending {
		// banned in the middle of the handshake
		rc.h.banHS = 0
		w.user("banhs", func() {
			zzrt.Sleep((d - 1) * ms)
			if !w.ending && w.stopStamp == 0 {
				w.banStep(rc.h.plan.Addr)
			}
		})
	}
	its, good := hsItems(rc.mode, ref.ShakeT, rc.goodShake().Bytes(), 16)
	if good {
		rc.hsOK = true
		rc.hsAt = zzrt.Now()
		w.stat("handshakes")
		for _, it := range its {
			rc.off += int64(len(it.b))
		}
	}
	for _, it := range its {
		rc.push(it)
	}
	if good && strings.HasPrefix(rc.mode, "okdrop:") {
		// a peer that hangs up as soon as it is accepted, every time
		d := int64(0)
		fmt.Sscan(rc.mode[len("okdrop:"):], &d)
		rc.self = true
		rc.push(witem{wait: d * ms, close: true})
		return
	}
	if good && rc.h.plan.Deaf && !w.ending {
		rc.paused = true
		zzrt.Count(zzrt.CStopReading)
		for i := 0; i < 12; i++ {
			rc.getHeaders(1, 40)
		}
	}
}

// hsItems is what a remote in the given handshake mode sends: body is the
// complete message of type typ, agentAt the place of its agent's length. The
// last 32 bytes are the genesis, the first four the version.
func hsItems(mode string, typ byte, body []byte, agentAt int) (its []witem, good bool) {
	arg := int64(0)
	if i := strings.IndexByte(mode, ':'); i > 0 {
		fmt.Sscan(mode[i+1:], &arg)
		mode = mode[:i]
	}
	body = append([]byte(nil), body...)
	frame := ref.Frame(typ, body)
	out := func(b []byte) { its = append(its, witem{b: b}) }
	gen := len(body) - 32
	switch mode {
	case "ok":
		good = true
		out(frame)
	case "okdrop":
		good = true
		out(frame)
	case "okslow":
		good = true
		its = append(its, witem{wait: arg * ms, b: frame})
	case "okdrip":
		good = true
		its = append(its, witem{b: frame, drip: arg * ms})
	case "badver":
		binary.BigEndian.PutUint32(body, uint32(arg))
		out(ref.Frame(typ, body))
	case "badgen":
		body[gen+int(arg)%32] ^= 1
		out(ref.Frame(typ, body))
	case "nogen":
		out(ref.Frame(typ, body[:gen]))
	case "shortgen":
		out(ref.Frame(typ, body[:gen+31]))
	case "stall", "deaf":
		zzrt.Count(zzrt.CHandshakeStall)
	case "stallmid":
		zzrt.Count(zzrt.CHandshakeStall)
		out(frame[:int(arg)%len(frame)])
	case "drip":
		its = append(its, witem{b: frame[:len(frame)-1], drip: arg * ms})
	case "dripbig":
		// a reply that would take days
		binary.BigEndian.PutUint64(body[agentAt:], 1<<14)
		body = append(body[:agentAt+8], make([]byte, 1<<14)...)
		its = append(its, witem{b: ref.Frame(typ, body), drip: arg * ms})
	case "close":
		its = append(its, witem{close: true})
	case "reset":
		its = append(its, witem{abort: true})
	case "half":
		its = append(its, witem{fin: true})
	case "halfmid":
		out(frame[:int(arg)%len(frame)])
		its = append(its, witem{fin: true})
	case "garbage":
		r := newRnd(uint64(arg))
		g := make([]byte, 64)
		for i := range g {
			g[i] = byte(r.u64())
		}
		out(g)
	case "hugeagent":
		zzrt.Count(zzrt.CHostile)
		l := uint64(1) << uint(arg%64)
		if arg >= 64 {
			l = ^uint64(0) - uint64(arg)
		}
		binary.BigEndian.PutUint64(body[agentAt:], l)
		out(ref.Frame(typ, body))
	case "wrongtype":
		if byte(arg) == typ {
			arg++
		}
		out(ref.Frame(byte(arg), body))
	case "biglen":
		out(ref.RawFrame(0x54, 0x34, typ, ref.MaxMsg+1+uint64(arg), body))
	case "badmagic":
		out(ref.RawFrame(0x54^byte(arg), 0x34^byte(arg>>8), typ, uint64(len(body)), body))
	case "shortlen":
		out(ref.RawFrame(0x54, 0x34, typ, uint64(len(body))-1-uint64(arg), body))
	case "trunc":
		out(frame[:len(frame)-1-int(arg)%40])
		its = append(its, witem{close: true})
	}
	return
}
