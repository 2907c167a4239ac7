//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"unsafe"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/zzsim/fakes"
	"github.com/dblokhin/gringo/zzsim/ref"
	"github.com/dblokhin/gringo/zzsim/zmark"
	"github.com/dblokhin/gringo/zzsim/znet"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// World E: a whole node. The real pool, peers and syncer run over the real chain
// and World D's store; remotes send blocks, headers and queries with genuine
// content, and what the node does about them must be what the rules say.

// eop is something a remote sent, followed by a ping whose pong says that it
// was handled and the connection survived it.
type eop struct {
	st        *Step
	kind      string
	call      *dcall
	sent      int64
	done      int64
	b         *ref.Block
	rs        []*ref.Block // headers
	loc       consensus.Locator
	hash      consensus.Hash
	malformed bool
	frames    [][]byte // replies so far
	gotHdrs   int
	res       int // 0 open, 1 pong, 2 the connection ended
	v         verdicts
	why       string
	unsure    bool // no verdict either way
}

// erx is a block message the node sent.
type erx struct {
	stamp int64
	body  []byte
	used  bool
}

type econn struct {
	w         *worldE
	h         *ehost
	c         *znet.TCPConn
	life      int
	up        bool // handshake done, as far as the remote can tell
	since     int64
	heard     bool // the node sent something after its hello
	ops       []*eop
	next      int // first open op
	q         [][]byte
	qw        byte
	rx        []*erx
	buf       []byte
	firstPong int64
	ended     bool
	self      bool
	killed    bool
	wbroken   bool
	pings     int
}

type ehost struct {
	w      *worldE
	i      int
	plan   *HostPlan
	nh     *znet.Host
	key    string
	high   bool // reports more than any block has
	sender bool // sends blocks at some time
	q      []*Step
	conns  []*econn
	banned bool // in this life
	soft   bool // may be
}

func (h *ehost) cur() *econn {
	if n := len(h.conns); n > 0 && h.conns[n-1].up && !h.conns[n-1].ended && !h.conns[n-1].self {
		return h.conns[n-1]
	}
	return nil
}

type worldE struct {
	*worldD
	n        *znet.Net
	hosts    []*ehost
	life     int
	inflight int
	ending   bool
	m        *fakes.Mempool
	lifeHead map[int]*inst
}

func newWorldE(p *Plan, s *zzrt.Sim) *worldE {
	p2p.SimReset()
	return &worldE{worldD: newWorldD(p, s), lifeHead: map[int]*inst{}}
}

func (w *worldE) root() {
	zzrt.PowHook = func(keys [4]uint64, nonces []uint32, eb uint8) (ok bool) {
		zmark.Do(func() { ok = w.pow[powKey(keys, nonces, eb)] })
		return ok
	}
	w.st = &store{w: w.worldD}
	w.st.vs = []*version{{ok: true}}
	w.build()
	k := &w.p.Knobs
	n := znet.New()
	w.n = n
	n.Cfg = znet.Cfg{LatPm: k.LatPm, FragPm: k.FragPm, ShortPm: k.ShortPm, Split: k.Split, ResetPm: k.ResetPm, Window: k.Window, BaseLat: int64(k.BaseLatU) * 1000}
	if n.Cfg.Window == 0 {
		n.Cfg.Window = 64 << 10
	}
	n.OnOpen = w.onOpen
	w.inflight = 1
	if len(w.p.Init) > 0 && w.p.Init[0].B > 1 {
		w.inflight = int(w.p.Init[0].B)
	}
	w.m = &fakes.Mempool{OnTx: func(t *consensus.Transaction) error { w.stats.inc("transactions"); return nil }}
	var known []string
	for i := range w.p.Hosts {
		hp := &w.p.Hosts[i]
		h := &ehost{w: w, i: i, plan: hp, key: canon(hp.Addr), high: hp.H > 0}
		h.nh = n.AddHost(h.key, h.accept)
		if hp.State == "gone" {
			h.nh.State = znet.HostGone
		}
		w.hosts = append(w.hosts, h)
		known = append(known, hp.Addr)
	}
	for i := range w.p.Steps {
		if st := &w.p.Steps[i]; st.Op == "eblk" && st.H < len(w.hosts) {
			w.hosts[st.H].sender = true
		}
	}
	w.after = func(in *inst) {
		w.lifeHead[w.life] = in
		var mp p2p.Mempool
		if !k.NilMempool {
			mp = w.m
		}
		sy := p2p.NewSyncer(known, in.c, mp)
		zzrt.GoNamed(1, "Run", sy.Run)
	}
	w.onCrash = w.crashed
	w.boot()
	for i := range w.p.Steps {
		st := &w.p.Steps[i]
		if d := st.At*ms - zzrt.Now(); d > 0 {
			zzrt.Sleep(d)
		} else {
			zzrt.Yield()
		}
		switch st.Op {
		case "eblk", "ehdr", "ehdrs", "egeth", "egetb", "eping", "etx", "ebye":
			if st.H < len(w.hosts) {
				h := w.hosts[st.H]
				h.q = append(h.q, st)
				if c := h.cur(); c != nil {
					zzrt.Wake(unsafe.Pointer(&c.qw))
				}
			}
		default:
			w.step(st)
		}
	}
	w.finish()
}

// crashed cleans up after the node's process is gone.
func (w *worldE) crashed() {
	w.life++
	p2p.SimReset()
	for _, h := range w.hosts {
		h.banned, h.soft = false, false
		for _, c := range h.conns {
			c.killed = true
		}
	}
	for _, p := range w.n.Conns {
		if p.A.Owner == 1 && !p.A.Closed() {
			p.A.Abort()
		}
	}
}

func (w *worldE) onOpen(c *znet.TCPConn) {
	for _, h := range w.hosts {
		if h.nh != c.P.Host {
			continue
		}
		if h.banned {
			for _, p := range []string{"C08", "C11"} {
				w.violate(p, "banned-dialled", "the node connects to %s again, which sent what the rules reject", h.key)
			}
		}
		n := 0
		for _, p := range w.n.Conns {
			if p.Host == h.nh && p.A.Owner == 1 && !p.A.Closed() {
				n++
			}
		}
		if n > 1 {
			w.violate("C03", "duplicate-connection", "%d connections open to %s", n, h.key)
		}
	}
}

func (h *ehost) accept(nc *znet.TCPConn) {
	c := &econn{w: h.w, h: h, c: nc, life: h.w.life, since: zzrt.Now()}
	h.conns = append(h.conns, c)
	h.w.stats.inc("conns")
	zzrt.GoMute(fmt.Sprintf("remote%d.%d-w", h.i, len(h.conns)), c.writer)
	tmp := make([]byte, 4096)
	first := true
	for {
		n, err := c.c.Read(tmp)
		c.buf = append(c.buf, tmp[:n]...)
		for len(c.buf) >= 11 {
			l := uint64(0)
			for _, x := range c.buf[3:11] {
				l = l<<8 | uint64(x)
			}
			if c.buf[0] != 0x54 || c.buf[1] != 0x34 || l > ref.MaxMsg {
				h.w.violate("C04", "garbled-stream", "the node sent something that is not a frame: % x", c.buf[:11])
				h.w.violate("C16", "garbled-stream", "the node sent something that is not a frame: % x", c.buf[:11])
				c.buf = nil
				break
			}
			if uint64(len(c.buf)-11) < l {
				break
			}
			typ, body := c.buf[2], append([]byte(nil), c.buf[11:11+l]...)
			c.buf = c.buf[11+l:]
			if first {
				first = false
				if _, e := ref.DecodeHand(body); e != nil || typ != ref.HandT {
					h.w.violate("C06", "bad-hello", "the first frame has type %d: %v", typ, e)
				}
				sh := &ref.Shake{Version: 1, Caps: h.plan.Caps, TD: h.plan.TD, Agent: "e", Genesis: ref.Genesis4}
				c.push(ref.Frame(ref.ShakeT, sh.Bytes()))
				c.up = true
				zzrt.Wake(unsafe.Pointer(&c.qw))
				continue
			}
			c.got(typ, body)
		}
		if err != nil {
			break
		}
	}
	c.end()
}

func (c *econn) push(b []byte) {
	c.q = append(c.q, b)
	zzrt.Wake(unsafe.Pointer(&c.qw))
}

// writer sends what is queued and then the next thing to do.
func (c *econn) writer() {
	for {
		for len(c.q) == 0 && !c.ended {
			if c.up && c.next == len(c.ops) && len(c.ops) == 0 {
				c.issue(&Step{Op: "eping"}) // introduces its height
				continue
			}
			if c.up && c.firstPong != 0 && len(c.ops)-c.next < c.w.inflight && len(c.h.q) > 0 && c.h.cur() == c {
				st := c.h.q[0]
				c.h.q = c.h.q[1:]
				if st.Op == "ebye" {
					c.self = true
					c.c.Close()
					return
				}
				c.issue(st)
				continue
			}
			zzrt.Wait(unsafe.Pointer(&c.qw), "remote writer idle")
		}
		if c.ended {
			c.c.Close()
			return
		}
		b := c.q[0]
		c.q = c.q[1:]
		if _, err := c.c.Write(b); err != nil {
			c.wbroken = true
			for !c.ended {
				zzrt.Wait(unsafe.Pointer(&c.qw), "remote writer broken")
			}
			c.c.Close()
			return
		}
	}
}

// issue queues an op and its ping.
func (c *econn) issue(st *Step) {
	w := c.w
	op := &eop{st: st, kind: st.Op}
	var f []byte
	switch st.Op {
	case "eblk":
		b := w.makeBlock(st)
		if b == nil {
			return
		}
		b = b.Clone()
		b.Diff = 0 // is not told
		op.b = b
		body := b.Bytes()
		c := copied(body)
		apart(func() { op.malformed = new(consensus.Block).Read(bytes.NewReader(c)) != nil })
		f = ref.Frame(ref.BlockT, body)
		if st.K != dNone {
			zzrt.Count(zzrt.CHostile)
		}
	case "ehdr", "ehdrs":
		r := newRnd(uint64(st.B))
		n := 1
		if st.Op == "ehdrs" {
			n = int(st.A)
		}
		body := []byte{}
		for i := 0; i < n; i++ {
			s := Step{A: int64(r.n(20)), B: int64(r.u64() >> 2)}
			if i == int(st.C) {
				s.K = st.K
			}
			b := w.makeBlock(&s)
			if b == nil {
				continue
			}
			op.rs = append(op.rs, b)
			hb := b.Header.Bytes()
			c := copied(hb)
			apart(func() {
				if new(consensus.BlockHeader).Read(bytes.NewReader(c)) != nil {
					op.malformed = true
				}
			})
			body = append(body, hb...)
		}
		if st.Op == "ehdr" {
			if len(op.rs) == 0 {
				return
			}
			f = ref.Frame(ref.HeaderT, body)
		} else {
			f = ref.Frame(ref.Headers, append([]byte{byte(len(op.rs) >> 8), byte(len(op.rs))}, body...))
		}
	case "egeth":
		op.loc = w.locator(st)
		var hs [][]byte
		for _, x := range op.loc.Hashes {
			hs = append(hs, x)
		}
		f = ref.Frame(ref.GetHeaders, ref.LocatorBody(hs))
	case "egetb":
		r := newRnd(uint64(st.B))
		list := w.st.cur().list
		switch {
		case st.K == 0 && len(list) > 0:
			x := list[r.n(len(list))].hash
			op.hash = x[:]
		case st.K == 1:
			op.hash = w.main[r.n(len(w.main))].HashSlice()
		default:
			op.hash = idHash(r.u64(), 1, 2)
		}
		f = ref.Frame(ref.GetBlock, op.hash)
	case "etx":
		r := newRnd(uint64(st.B))
		tx := &ref.Tx{Body: makeBody(r, r.n(4), r.n(3), r.n(4))}
		f = ref.Frame(ref.TxT, tx.Bytes())
	}
	op.call = w.begin(op.kind, w.in)
	op.sent = op.call.stamp
	c.ops = append(c.ops, op)
	w.stats.inc("ops")
	if f != nil {
		c.push(f)
	}
	c.push(ref.Frame(ref.Ping, ref.PingBody(c.h.plan.TD, c.h.plan.H)))
}

// open is the first op without a verdict.
func (c *econn) open() *eop {
	if c.next < len(c.ops) {
		return c.ops[c.next]
	}
	return nil
}

func (c *econn) got(typ byte, body []byte) {
	w := c.w
	w.stats.inc("received")
	c.heard = true
	op := c.open()
	switch typ {
	case ref.Ping:
		if c.pings++; c.pings > 1 {
			w.violate("C04", "unsolicited", "more than one ping on a connection")
		}
		c.push(ref.Frame(ref.Pong, ref.PingBody(c.h.plan.TD, c.h.plan.H)))
	case ref.GetPeers:
	case ref.BlockT:
		c.rx = append(c.rx, &erx{stamp: zzrt.Stamp(), body: body})
		if op != nil {
			op.frames = append(op.frames, body)
		}
	case ref.Headers:
		if op == nil || op.kind != "egeth" || op.gotHdrs > 0 {
			w.violate("C04", "unsolicited", "a header list nobody asked for")
			return
		}
		op.gotHdrs++
		w.headersReply(op, body)
	case ref.Pong:
		if op == nil {
			w.violate("C04", "unsolicited", "a pong without a ping")
			return
		}
		c.pong(op, body)
	default:
		w.violate("C04", "unsolicited", "unexpected message of type %d", typ)
	}
}

func (w *worldE) headersReply(op *eop, body []byte) {
	w.stats.inc("header_queries")
	op.call.done, op.call.walls = false, append(op.call.walls, zzrt.WallNow())
	n := 0
	for _, v := range w.seen(op.call, true) {
		exp := v.headersAfter(op.loc, op.call.in.hash)
		n = len(exp)
		b := []byte{byte(n >> 8), byte(n)}
		for _, x := range exp {
			b = append(b, x.Header.Bytes()...)
		}
		if bytes.Equal(b, body) {
			return
		}
	}
	for _, p := range []string{"C04", "C12"} {
		w.violate(p, "wrong-headers", "a header reply of %d bytes is not what is stored after the locator (%d headers)", len(body), n)
	}
}

// pong settles an op: the connection survived it.
func (c *econn) pong(op *eop, body []byte) {
	w := c.w
	c.next++
	op.res, op.done = 1, zzrt.Stamp()
	w.end(op.call)
	in := op.call.in
	if td, h, err := ref.DecodePing(body); err != nil || h != in.head.Height || td != in.head.TD {
		for _, p := range []string{"C04", "C12"} {
			w.violate(p, "wrong-pong", "a pong carries height %d and difficulty %d, the head has %d and %d (%v)", h, td, in.head.Height, in.head.TD, err)
		}
	}
	if c.firstPong == 0 {
		c.firstPong = op.done
	}
	zzrt.Wake(unsafe.Pointer(&c.qw))
	w.decide(op)
	w.state(20, uint64(op.st.K), b2u(op.v.yes), b2u(op.v.no), b2u(c.h.high), uint64(len(c.ops)-c.next))
	switch op.kind {
	case "eblk", "ehdrs":
		w.stats.inc("accepted")
		if !op.v.yes && !op.unsure {
			for _, p := range []string{"C11", "C08"} {
				w.violate(p, "bad-accepted", "a peer stays connected after sending %s that breaks a rule: %s", op.what(), op.why)
			}
		}
		if op.malformed {
			w.violate("C05", "handled-malformed", "a peer stays connected after sending a malformed %s", op.what())
		}
	case "egeth":
		if op.gotHdrs == 0 {
			w.violate("C04", "no-reply", "a header request got no reply before the next message was answered")
		}
	case "egetb":
		w.blockReply(op)
	}
}

func (op *eop) what() string {
	switch op.kind {
	case "eblk":
		return fmt.Sprintf("a block at height %d", op.b.Height)
	case "ehdrs":
		return fmt.Sprintf("a list of %d headers", len(op.rs))
	}
	return op.kind[1:]
}

func (w *worldE) blockReply(op *eop) {
	w.stats.inc("block_queries")
	none := false
	for _, v := range w.seen(op.call, false) {
		i := v.find(consensus.BlockID{Hash: op.hash})
		if i < 0 {
			none = true
			continue
		}
		x := v.list[i].b.Clone()
		raw := x.Bytes()
		x.Sort()
		for _, f := range op.frames {
			if bytes.Equal(f, raw) || bytes.Equal(f, x.Bytes()) {
				return
			}
		}
	}
	if !none {
		for _, p := range []string{"C04", "C12"} {
			w.violate(p, "wrong-block", "a stored block was asked for but not sent (%d other block messages)", len(op.frames))
		}
	}
}

// decide works out what the rules say about an op.
func (w *worldE) decide(op *eop) {
	lo, hi := op.call.clock()
	op.v = verdicts{}
	switch op.kind {
	case "eblk":
		if w.damaged(op.call) {
			op.unsure = true
			return
		}
		for _, s := range w.seen(op.call, true) {
			for _, now := range []int64{lo, hi} {
				x := w.onChain(op.b, s, now, op.call.in.hash)
				if x != "" {
					op.why = x
				}
				op.v.add(x)
			}
		}
	case "ehdrs":
		for _, now := range []int64{lo, hi} {
			x := ""
			for _, b := range op.rs {
				if y := ref.HeaderRules(&b.Header, now); y != "" {
					x, op.why = y, y
				}
			}
			op.v.add(x)
		}
	default:
		op.v.yes = true
	}
}

// end settles what was open when the connection ended.
func (c *econn) end() {
	w := c.w
	c.ended = true
	zzrt.Wake(unsafe.Pointer(&c.qw))
	void := c.self || c.killed || c.c.P.Reseted || c.life != w.life || c.c.Peer().WErrInj
	open := c.ops[c.next:]
	now := zzrt.Stamp()
	for _, op := range open {
		op.res, op.done = 2, now
		if !op.call.killed {
			w.end(op.call)
		}
		w.decide(op)
	}
	c.next = len(c.ops)
	if void {
		for _, op := range open {
			if (op.kind == "eblk" || op.kind == "ehdrs") && c.life == w.life {
				c.h.soft = true // it may be judged all the same, and later
			}
			op.unsure = true
		}
		return
	}
	if !c.up || w.ending && len(c.ops) == 0 {
		return
	}
	if !c.heard && zzrt.Now()-c.since >= 5e9 {
		return // our reply may not have reached the node before its deadline
	}
	for i, op := range open {
		sure := false
		switch {
		case op.malformed:
			c.after(open[i+1:])
			return
		case op.unsure:
		case op.kind != "eblk" && op.kind != "ehdrs":
			continue
		case !op.v.no:
			continue
		default:
			sure = !op.v.yes
		}
		if sure {
			c.h.banned = true
			w.stats.inc("bans")
		} else {
			c.h.soft = true
		}
		c.after(open[i+1:])
		w.state(21, uint64(op.st.K), b2u(sure), uint64(len(open)))
		return
	}
	what := "nothing but pings"
	good := false
	for _, op := range open {
		if op.kind != "eping" {
			what = op.what()
		}
		good = good || op.kind == "eblk" || op.kind == "ehdrs"
	}
	if len(c.ops) == 0 || c.firstPong == 0 {
		what = "nothing yet"
	}
	w.violate("C02", "dropped-without-cause", "the node ended a connection on which the last open message was %s", what)
	w.violate("C08", "dropped-without-cause", "the node ended a connection on which the last open message was %s", what)
	if good {
		w.violate("C11", "good-rejected", "the node ended the connection of a peer that sent %s, which meets every rule", what)
	}
}

// after: whatever came behind the end was never handled.
func (c *econn) after(ops []*eop) {
	for _, op := range ops {
		op.unsure = true
	}
}

// idle says there is nothing left to wait for.
func (w *worldE) idle() (bool, string) {
	for _, c := range w.calls {
		if !c.done && !c.killed {
			return false, c.what
		}
	}
	for _, h := range w.hosts {
		if h.banned || h.plan.State == "gone" {
			continue
		}
		c := h.cur()
		if c == nil {
			if h.soft {
				continue
			}
			return false, "reconnect " + h.key
		}
		if c.firstPong == 0 || len(h.q) > 0 || c.next < len(c.ops) {
			return false, "answer to " + h.key
		}
	}
	return true, ""
}

func (w *worldE) settle(limit int64) bool {
	end := zzrt.Now() + limit
	for {
		ok, _ := w.idle()
		if ok {
			return true
		}
		if zzrt.Now() > end {
			return false
		}
		zzrt.Sleep(sec)
	}
}

func (w *worldE) finish() {
	w.s.FaultsOff = true
	if w.settle(120 * minNS) {
		w.ending = true
		for _, h := range w.hosts { // and it still answers
			h.q = nil
			if c := h.cur(); c != nil {
				h.q = append(h.q, &Step{Op: "eping"})
				zzrt.Wake(unsafe.Pointer(&c.qw))
			}
		}
		w.settle(60 * minNS)
		zzrt.Sleep(10 * minNS)
	}
	w.ending = true
	if ok, what := w.idle(); !ok {
		w.stuck(what)
	}
	w.relays()
}

// stuck names what did not happen.
func (w *worldE) stuck(what string) {
	for _, h := range w.hosts {
		if h.banned || h.plan.State == "gone" {
			continue
		}
		c := h.cur()
		if c == nil {
			if !h.soft && !w.broken() {
				for _, p := range []string{"C09", "C02", "C01"} {
					w.violate(p, "not-reconnected", "the node is not connected to %s hours after the last fault", h.key)
				}
			}
			continue
		}
		if op := c.open(); op != nil {
			w.decide(op)
			switch {
			case (op.kind == "eblk" || op.kind == "ehdrs") && !op.v.yes && !op.unsure:
				w.violate("C08", "not-closed", "a peer that sent %s (%s) is still connected", op.what(), op.why)
				w.violate("C11", "no-verdict", "%s (%s) got no verdict", op.what(), op.why)
			default:
				w.violate("C04", "no-reply", "the ping after %s is not answered: %s", op.what(), w.s.DumpOwned(1))
				w.violate("C02", "stuck", "the ping after %s is not answered: %s", op.what(), w.s.DumpOwned(1))
				w.violate("C01", "unserved", "the ping after %s is not answered: %s", op.what(), w.s.DumpOwned(1))
				if op.kind == "eblk" || op.kind == "ehdrs" {
					w.violate("C11", "no-verdict", "%s got no verdict", op.what())
				}
			}
		}
	}
	for _, c := range w.calls {
		if !c.done && !c.killed {
			for _, p := range []string{"C11", "C12"} {
				w.violate(p, "call-hangs", "%s has not returned hours after the last fault: %s", c.what, w.s.DumpOwned(1))
			}
			break
		}
	}
}

func (w *worldE) broken() bool { return w.in == nil || !w.in.ready }

// wire is what a node makes of a block it decodes and encodes again.
func (op *eop) wire() (a, b []byte) {
	x := op.b.Clone()
	a = x.Bytes()
	x.Sort()
	return a, x.Bytes()
}

// relays checks every block message against what may and must have been sent.
func (w *worldE) relays() {
	type sub struct {
		c    *econn
		op   *eop
		a, b string
	}
	var subs []*sub
	for _, h := range w.hosts {
		for _, c := range h.conns {
			for _, op := range c.ops {
				if op.kind == "eblk" {
					a, b := op.wire()
					subs = append(subs, &sub{c, op, string(a), string(b)})
				}
			}
		}
	}
	for _, h := range w.hosts {
		for _, c := range h.conns {
			got := map[string]int{}
			for _, x := range c.rx {
				k := string(x.body)
				got[k]++
				n, why := 0, "nobody sent it or asked for it"
				for _, op := range c.ops { // replies
					if op.kind == "egetb" && op.sent < x.stamp && w.storedAs(op, k) {
						n++
					}
				}
				for _, s := range subs {
					if s.a != k && s.b != k || s.op.sent > x.stamp || s.c.life != c.life {
						continue
					}
					in := s.op.call.in
					switch {
					case s.c == c:
						why = "it came from this very peer"
					case s.op.malformed:
						why = "it was malformed"
					case s.op.b.Height != in.head.Height:
						why = fmt.Sprintf("it is at height %d, the chain at %d", s.op.b.Height, in.head.Height)
					case s.op.res == 2 && !s.op.unsure && !s.op.v.yes, s.op.res == 1 && !s.op.v.yes && !s.op.unsure:
						why = "it breaks a rule: " + s.op.why
					case h.high && c.firstPong != 0 && c.firstPong < s.op.sent:
						why = "the peer reports a higher chain"
					default:
						n++
					}
				}
				if got[k] > n {
					w.violate("C10", "wrong-relay", "a block message (copy %d) was sent to %s (%d may be): %s", got[k], h.key, n, why)
					w.violate("C04", "unsolicited", "a block message (copy %d) was sent to %s (%d may be): %s", got[k], h.key, n, why)
				}
			}
			if h.high || h.sender || c.life != w.life || c != h.cur() || c.c.P.Reseted || c.firstPong == 0 {
				continue
			}
			for _, s := range subs {
				in := s.op.call.in
				if s.c.life != c.life || s.op.sent < c.firstPong || s.op.res != 1 || s.op.unsure || !s.op.v.yes || s.op.v.no || s.op.b.Height != in.head.Height || s.op.b.TD == 0 {
					continue
				}
				w.stats.inc("relays_due")
				if got[s.a]+got[s.b] == 0 {
					w.violate("C10", "not-relayed", "an accepted block at height %d was not relayed to %s, which reports height 0", s.op.b.Height, h.key)
				}
			}
		}
	}
}

// storedAs says the block asked for has been stored with this encoding.
func (w *worldE) storedAs(op *eop, k string) bool {
	for _, v := range w.st.vs {
		if i := v.find(consensus.BlockID{Hash: op.hash}); i >= 0 {
			x := v.list[i].b.Clone()
			if string(x.Bytes()) == k {
				return true
			}
			x.Sort()
			if string(x.Bytes()) == k {
				return true
			}
		}
	}
	return false
}
