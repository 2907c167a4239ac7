//go:build go1.24

package main

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/dblokhin/gringo/zzsim/ref"
	"github.com/dblokhin/gringo/zzsim/znet"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// attempt is one connection attempt to an address, judged from outside.
type attempt struct {
	at, end int64
	res     int   // 0 unknown or pending, 1 became a peer, 2 failed
	reg     int64 // stamp at which it surely was a peer
}

func (w *World) attempts(addr string, before int64) []attempt {
	if w.dialsBy == nil {
		w.dialsBy = map[string][]*znet.DialRec{}
	}
	for ; w.dialN < len(w.n.Dials); w.dialN++ {
		if d := w.n.Dials[w.dialN]; d.Owner == 1 {
			w.dialsBy[d.Addr] = append(w.dialsBy[d.Addr], d)
		}
	}
	var out []attempt
	for _, d := range w.dialsBy[addr] {
		if d.At > before {
			break
		}
		a := attempt{at: d.At, end: d.End}
		if d.Result != "" && d.Result != "ok" {
			a.res = 2
		} else if d.Pipe != nil {
			var rc *rconn
			if h := w.byKey[addr]; h != nil {
				for _, c := range h.conns {
					if c.c.P == d.Pipe {
						rc = c
					}
				}
			}
			switch {
			case rc == nil:
			case rc.up():
				a.res, a.reg = 1, rc.regStamp()
			case !rc.hsOK && d.Pipe.A.Closed():
				a.res, a.end = 2, d.Pipe.A.ClosedAt
			}
		}
		if a.end < 0 || a.end > before {
			a.res = 0
		}
		out = append(out, a)
	}
	return out
}

// sure gives the stamp by which an address was surely stored, or -1.
func (w *World) sure(e *addEv) int64 {
	if validAddr(e.addr) != 1 {
		return -1
	}
	if e.src == nil {
		if e.done {
			return e.doneStamp
		}
		return -1
	}
	for _, s := range e.src.rc.sent {
		if s.idx > e.src.idx && s.replied {
			return s.rStamp
		}
	}
	return -1
}

// checkList judges an address list given out.
func (w *World) checkList(e *listEv) {
	w.lists = append(w.lists, e)
	w.stat("lists")
	if len(e.addrs) > 256 {
		w.violate("C14", "list-too-long", "address list of %d entries", len(e.addrs))
	}
	seen := map[string]bool{}
	for _, a := range e.addrs {
		if seen[a] {
			w.violate("C14", "duplicate", "%s is listed twice", a)
		}
		seen[a] = true
		if validAddr(a) == 0 {
			w.violate("C14", "invalid-listed", "invalid address %s is given out", a)
			continue
		}
		m := w.may[a]
		if m == nil || m.stamp > e.got {
			w.violate("C14", "unknown-listed", "%s is given out but was never learned", a)
			continue
		}
		if b := w.bans[a]; b != nil && (b.done != 0 && b.done < e.req0 && w.p.Knobs.StallPm == 0 || w.span(b.at, e.reqAt) > margin) {
			w.violate("C08", "banned-listed", "%s is given out %d s after its ban", a, (e.reqAt-b.at)/sec)
			w.violate("C14", "banned-listed", "%s is given out %d s after its ban", a, (e.reqAt-b.at)/sec)
		}
		ats := w.attempts(a, e.gAt)
		streak := int64(-1)
		ever := false
		for i := len(ats) - 1; i >= 0; i-- {
			if ats[i].res == 0 && ats[i].end < 0 {
				continue // in flight: the verdict of the one before stands
			}
			if ats[i].res != 2 {
				break
			}
			streak = ats[i].end
		}
		for _, x := range ats {
			if x.res != 2 {
				ever = true
			}
		}
		if streak >= 0 && w.span(streak, e.reqAt) > 2*minNS {
			w.violate("C14", "failed-listed", "%s is given out although connecting to it has failed for %d s", a, (e.reqAt-streak)/sec)
		}
		caps := uint32(0)
		if h := w.byKey[a]; h != nil && ever {
			caps = h.plan.Caps
		}
		if caps&e.caps != e.caps {
			w.violate("C14", "caps-ignored", "%s (capabilities %d) is given out for a request asking %d", a, caps, e.caps)
		}
	}
	if !w.fits(e) {
		return
	}
	for _, x := range w.adds {
		if seen[x.addr] || w.bans[x.addr] != nil {
			continue
		}
		if e.req != nil && x.src != nil && x.src.rc == e.req.rc && x.src.idx < e.req.idx {
			// handled before the request
			if validAddr(x.addr) != 1 {
				continue
			}
		} else if st := w.sure(x); st < 0 || st > e.req0 {
			continue
		}
		if !w.hadRoom(x, e) {
			continue
		}
		ats := w.attempts(x.addr, e.gAt)
		known := uint32(0)
		bad := false
		// Every failed attempt must have been followed by a success that
		// was complete before the request.
		for i := range ats {
			ok := false
			for _, y := range ats[i:] {
				if y.res == 1 && y.reg < e.req0 {
					ok = true
				}
			}
			if !ok {
				bad = true
			}
		}
		if len(ats) > 0 && !bad {
			known = w.byKey[x.addr].plan.Caps
		}
		if !bad && known&e.caps == e.caps {
			w.violate("C14", "missing", "%s is stored, usable and has the capabilities asked for (%d), but is not in a list of %d", x.addr, e.caps, len(e.addrs))
			return
		}
	}
}

// fits says whether everything that may belong into a list does fit.
func (w *World) fits(e *listEv) bool {
	if len(w.may) <= 256 {
		return true
	}
	n := 0
	for a, m := range w.may {
		if m.stamp > e.got {
			continue
		}
		if b := w.bans[a]; b != nil && b.done != 0 && b.done < e.req0 {
			continue
		}
		h := w.byKey[a]
		if e.caps != 0 && (h == nil || h.plan.Caps&e.caps != e.caps) {
			continue
		}
		if ats := w.attempts(a, e.gAt); len(ats) > 0 {
			if l := ats[len(ats)-1]; l.res == 2 && w.span(l.end, e.reqAt) > minNS {
				continue
			}
		}
		n++
	}
	return n <= 256
}

// hadRoom says whether there was room in the table when an address was added.
func (w *World) hadRoom(x *addEv, e *listEv) bool {
	if len(w.may) <= w.table {
		return true
	}
	n := 0
	for a, m := range w.may {
		if a == x.addr || m.stamp > e.got {
			continue
		}
		if b := w.bans[a]; b == nil || b.done == 0 || b.done > x.stamp {
			n++
		}
	}
	return n < w.table
}

// owed is something that must still happen.
type owed struct{ prop, kind, msg string }

// goodHosts are the known hosts the node must be able to talk to in the end.
func (w *World) goodHosts() (good []*host, evil int) {
	sure := map[string]bool{}
	for _, e := range w.adds {
		if w.sure(e) >= 0 {
			sure[e.addr] = true
		}
	}
	for _, h := range w.hosts {
		if h.plan.Evil {
			evil++
			continue
		}
		if !sure[h.key] || h.banStamp != 0 || w.bans[h.key] != nil || h.softRej {
			continue
		}
		if h.plan.Final != "" && h.plan.Final != "up" {
			continue
		}
		good = append(good, h)
	}
	return
}

func (h *host) upConn() *rconn {
	for _, rc := range h.conns {
		if rc.up() && rc.open() && !rc.self && !rc.eof {
			return rc
		}
	}
	return nil
}

// stuckConn says the node may still hold a connection whose remote end is gone:
// nothing that would tell it gets through.
func (h *host) stuckConn() bool {
	for _, rc := range h.conns {
		if rc.hsOK && rc.open() && (h.w.parted(rc) || rc.paused) {
			return true
		}
	}
	return false
}

func (w *World) connOwed() []owed {
	good, evil := w.goodHosts()
	var miss []string
	up := 0
	for _, h := range good {
		if h.upConn() != nil {
			up++
		} else {
			miss = append(miss, h.key)
		}
	}
	want := len(good)
	if len(w.may) > w.table {
		return nil
	}
	if want+evil > w.maxConn && evil > 0 {
		return nil
	}
	// Hosts nothing can be demanded of may hold slots too.
	total := 0
	for _, h := range w.hosts {
		if h.upConn() != nil || h.stuckConn() {
			total++
		}
	}
	if up >= want || total >= w.maxConn {
		return nil
	}
	msg := fmt.Sprintf("connected to %d of %d reachable addresses (maximum %d), not to %s", up, len(good), w.maxConn, strings.Join(miss, " "))
	return []owed{{"C03", "not-connected", msg}, {"C02", "not-connected", msg}, {"C08", "not-connected", msg}, {"C14", "not-connected", msg}, {"C01", "not-connected", msg}}
}

// pending lists everything the properties still demand.
func (w *World) pending() []owed {
	var out []owed
	add := func(kind, msg string, props ...string) {
		for _, p := range props {
			out = append(out, owed{p, kind, msg})
		}
	}
	for _, rc := range w.conns {
		name := fmt.Sprintf("connection %d to %s", rc.id, rc.h.key)
		if !rc.hsOK {
			if rc.open() && !rc.h.nh.Part && rc.openAt+boundClose < zzrt.Now() {
				add("handshake-hangs", name+": handshake ("+rc.mode+") neither completed nor failed", "C06", "C02", "C03")
			}
			if rc.open() && (rc.self || rc.eof) {
				add("leaked-socket", name+": failed handshake ("+rc.mode+") leaves the socket open", "C06", "C07")
			}
			continue
		}
		if w.p.Prop == "C08" || w.p.Prop == "C02" {
			if !rc.excused() && rc.up() && !rc.open() && !rc.h.plan.Evil {
				add("dropped", name+" of a well-behaved peer was closed by the node", "C08", "C02")
			}
		}
		if rc.h.banStamp != 0 && rc.open() && !w.parted(rc) {
			add("banned-open", name+" is still open after the ban", "C08")
		}
		// The stream ended: the node must let go.
		if rc.open() && rc.up() && (rc.self || rc.half || rc.cut || rc.c.P.Broken()) && !w.parted(rc) && !rc.paused {
			add("leaked-socket", name+" ended but the node keeps its socket", "C07")
			if rc.cut {
				add("cut-stays", name+": stream cut mid-frame but the connection stays", "C05")
			}
		}
		if rc.bad != nil && rc.bad.kind == "bad" && rc.open() && !rc.paused && !rc.stuckOut() {
			add("bad-frame-tolerated", fmt.Sprintf("%s stays open after a malformed frame (%s)", name, rc.bad.badName()), "C05")
		}
		if rc.up() && !rc.excusedHandling() {
			for _, s := range rc.sent {
				if rc.bad != nil && s.idx >= rc.bad.idx {
					break
				}
				if s.tracked && s.handled == 0 && !s.dead {
					add("lost-frame", fmt.Sprintf("%s: frame %d of %d (type %d) was never handled", name, s.idx, len(rc.sent), s.typ), "C05")
					break
				}
			}
		}
		if rc.up() && !rc.excused() && !rc.h.plan.Evil && !rc.h.rejected {
			if s := rc.firstUnanswered(); s != nil {
				add("unanswered", fmt.Sprintf("%s: request %d (type %d) of %d is not answered", name, s.idx, s.typ, len(rc.sent)), "C04", "C02", "C01")
			}
			if rc.pings == 0 || rc.reqs == 0 {
				add("greeting", name+": no ping or no address request after connecting", "C04")
			}
		}
	}
	for _, s := range w.blocks() {
		out = append(out, w.relayOwed(s)...)
	}
	return out
}

func (rc *rconn) firstUnanswered() *sent {
	for _, s := range rc.pend {
		if s.typ == ref.GetBlock && s.n == 0 {
			continue
		}
		return s
	}
	return nil
}

// stuckOut says what we sent cannot reach the node.
func (rc *rconn) stuckOut() bool { return rc.w.parted(rc) }

func (w *World) parted(rc *rconn) bool { return rc.h.nh.Part || rc.c.P.Stuck }

func (w *World) blocks() []*sent {
	var ids []uint64
	for id, s := range w.ids {
		if s.typ == ref.BlockT && s.kind == "ok" {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var out []*sent
	for _, id := range ids {
		out = append(out, w.ids[id])
	}
	return out
}

// relayOwed lists the peers that must receive an accepted top block.
func (w *World) relayOwed(s *sent) []owed {
	if s.vStamp == 0 || rejects(s.verdict) || !s.topAtVer || w.noRelay || s.rc.h.banStamp != 0 {
		return nil
	}
	// The height must have stayed put while the node decided.
	for _, st := range w.states {
		if st.begin > s.vStamp && st.h != s.h {
			if st.begin < s.vStamp+400000 { // conservative: any later change
				return nil
			}
		}
	}
	var out []owed
	for _, rc := range w.conns {
		if rc == s.rc || rc.h == s.rc.h || !rc.up() || rc.excused() || rc.h.plan.Evil || rc.h.rejected || rc.regStamp() > s.hStamp {
			continue
		}
		behind := true
		for _, r := range rc.reports(s.hStamp, 0, s.vAt+margin) {
			if r[0] >= s.h && r[1] >= s.td {
				behind = false
			}
		}
		if behind && rc.relays[s.id] == 0 {
			out = append(out, owed{"C10", "not-relayed", fmt.Sprintf("accepted top block (height %d, difficulty %d) never reached connection %d, whose peer is behind", s.h, s.td, rc.id)})
		}
	}
	return out
}

// wait polls until f is empty for the checked property or the bound passes.
func (w *World) wait(bound int64, f func() []owed) {
	end := zzrt.Now() + bound
	for {
		left := f()
		n := 0
		for _, o := range left {
			if o.prop == w.p.Prop {
				n++
			}
		}
		if n == 0 && (len(left) == 0 || zzrt.Now() > end-bound+2*minNS) {
			return
		}
		if zzrt.Now() >= end {
			for _, o := range left {
				w.violate(o.prop, o.kind, "%s, %d s after the last fault", o.msg, (zzrt.Now()-end+bound)/sec)
			}
			return
		}
		zzrt.Sleep(max(2*sec, (zzrt.Now()-end+bound)/100))
	}
}

// dialOwed are the stored addresses that were never tried.
func (w *World) dialOwed() (out []owed) {
	if w.p.Prop == "C14" && len(w.may) <= w.maxConn && len(w.may) <= w.table {
		for _, e := range w.adds {
			if w.sure(e) >= 0 && w.bans[e.addr] == nil && len(w.attempts(e.addr, 1<<62)) == 0 {
				out = append(out, owed{"C14", "never-dialled", e.addr + " is stored but never dialled"})
				break
			}
		}
	}
	return out
}

// boundConnect is how long connecting to everything may take: candidates are
// picked at random, each attempt may take the dial and handshake timeouts.
func (w *World) boundConnect() int64 {
	if w.p.Mode == "outage" { // nothing here takes long to fail
		return 60 * minNS
	}
	if w.p.droppers() { // nothing here takes long to fail, and every second there is a connection
		return int64(len(w.may)+3)*25*12*sec + 20*minNS
	}
	return int64(len(w.may)+3)*25*260*sec + 20*minNS
}

func (w *World) finish() {
	defer w.checkKept()
	if w.stopStamp != 0 {
		w.s.FaultsOff = true
		w.stopped()
		return
	}
	w.ending = true
	w.s.FaultsOff = true
	for _, h := range w.hosts {
		h.nh.Part = false
		if h.plan.Evil {
			if w.p.droppers() {
				h.setState("")
			}
			continue
		}
		f := h.plan.Final
		h.setState(f)
		for _, rc := range h.conns {
			rc.drip = 0
			rc.resume()
			rc.c.P.Widen(64 << 10)
			if (f != "" && f != "up") || rc.c.P.Stuck || (!rc.hsOK && !rc.self) {
				rc.c.P.Stuck = false
				rc.c.P.Reset()
			}
		}
	}
	w.n.Cfg.Window = 64 << 10
	w.n.Heal()
	w.wait(w.boundConnect(), w.connOwed)
	w.probe()
	if w.p.Prop == "C08" && len(w.bans) > 0 {
		zzrt.Sleep(margin + 2*minNS)
		w.probe()
	}
	w.wait(boundReply, w.pending)
	w.wait(w.boundConnect(), w.dialOwed)
	w.lapse()
	w.history()
	if w.p.Mode == "stopend" {
		w.stopStamp, w.stopAt = zzrt.Stamp(), zzrt.Now()
		w.user("stop", func() { w.sy.Stop() })
		w.stopped()
	}
}

// span is the time from a to b in which the process could run.
func (w *World) span(a, b int64) int64 {
	if w.lapsed >= 0 && a <= w.lapsed && w.lapsed < b {
		b -= w.p.Knobs.Lapse * sec
	}
	return b - a
}

// lapse lets a long time pass at once, and then everything must be as before:
// connections serve, bans last.
func (w *World) lapse() {
	if w.p.Knobs.Lapse == 0 {
		return
	}
	w.lapsed = zzrt.Now()
	w.s.Lapse(w.p.Knobs.Lapse * sec)
	zzrt.Sleep(5 * sec)
	var bans []ref.Addr
	var keys []string
	for k := range w.bans {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		addr := k
		if a, err := net.ResolveTCPAddr("tcp", addr); err == nil && validAddr(addr) == 1 && len(bans) < 200 {
			b := ref.AddrOf(a)
			if v4 := b.IP.To4(); v4 != nil {
				b.IP = v4
			}
			bans = append(bans, b)
		}
	}
	w.readd(300)
	w.wait(w.boundConnect(), w.connOwed)
	for _, h := range w.hosts {
		if rc := h.cur(); rc != nil && !h.plan.Evil && rc.bad == nil && !rc.half && !rc.cut && len(bans) > 0 {
			rc.gossip(bans)
		}
	}
	zzrt.Sleep(minNS)
	w.probe()
	w.wait(boundReply, w.pending)
}

// probe asks every well-behaved connection something.
func (w *World) probe() {
	for _, h := range w.hosts {
		if h.plan.Evil {
			continue
		}
		rc := h.cur()
		if rc == nil || rc.bad != nil || rc.half || rc.cut {
			continue
		}
		rc.ping(h.plan.TD, h.plan.H)
		rc.getPeers([]uint32{0, 0, 7, 1, 4}[int(w.p.Seed+uint64(h.i))%5])
		rc.getBlock(1)
		rc.getHeaders(1, 3)
		rc.getPeers(0)
		rc.ping(h.plan.TD, h.plan.H)
	}
}

// history checks what can only be judged in retrospect.
func (w *World) history() {
	dialled := map[string]bool{}
	for _, d := range w.n.Dials {
		if d.Owner != 1 {
			continue
		}
		dialled[d.Addr] = true
		if m := w.may[d.Addr]; m == nil {
			w.violate("C14", "unknown-dialled", "%s was dialled but never learned", d.Addr)
		}
		if b := w.bans[d.Addr]; b != nil && w.span(b.at, d.At) > margin {
			w.violate("C08", "banned-dialled", "%s was dialled %d s after its ban", d.Addr, (d.At-b.at)/sec)
		}
	}
	for _, h := range w.hosts {
		if h.banStamp == 0 {
			continue
		}
		for _, rc := range h.conns {
			if n := rc.node(); n.Closed() && w.span(h.banAt, n.ClosedAt) > boundClose && rc.openAt < h.banAt && !w.parted(rc) {
				w.violate("C08", "banned-open", "connection to %s stayed open %d s after its ban", h.key, (n.ClosedAt-h.banAt)/sec)
			}
		}
	}
	for _, l := range w.lists {
		for _, a := range l.addrs {
			dialled[a] = true
		}
	}
	if len(dialled) > w.table+len(w.bans) {
		w.violate("C14", "table-overflow", "%d different addresses were used although the table holds %d", len(dialled), w.table)
	}
	for _, rc := range w.conns {
		for _, s := range rc.sent {
			if s.replied && w.span(s.at, s.rAt) > 60*minNS && !rc.h.plan.Evil {
				w.violate("C02", "slow-reply", "a request waited %d s for its answer", (s.rAt-s.at)/sec)
			}
		}
	}
}

// stopped checks the shutdown.
func (w *World) stopped() {
	end := zzrt.Now() + boundStop
	for {
		open, live := w.n.OpenOwned(1), w.s.LiveOwned(1)
		if w.returned && open == 0 && live == 0 {
			w.stat("stopped")
			return
		}
		if zzrt.Now() >= end {
			if !w.returned {
				w.violate("C09", "run-hangs", "the main loop has not returned %d s after stop", boundStop/sec)
			}
			if open > 0 {
				w.violate("C09", "open-after-stop", "%d connections are open %d s after stop", open, boundStop/sec)
			}
			if live > 0 {
				w.violate("C09", "goroutines-after-stop", "%d goroutines live %d s after stop: %s", live, boundStop/sec, w.s.DumpOwned(1))
			}
			return
		}
		zzrt.Sleep(sec)
	}
}
