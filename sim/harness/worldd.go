//go:build go1.24

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/zzsim/ref"
	"github.com/dblokhin/gringo/zzsim/zmark"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// World D: the real chain over a simulated block store, with concurrent block
// processing and queries, a clock that jumps, crashes, and storage that loses
// or corrupts blocks.

// sblk is a stored block: the index entry and the content.
type sblk struct {
	hash [32]byte
	h    uint64
	b    *ref.Block
	sync bool // durable
}

// version is one state of the store.
type version struct {
	list  []*sblk
	ok    bool  // not in the middle of a change
	since int64 // stamp
	dmg   int   // damages so far
}

// store implements chain.Storage.
type store struct {
	w    *worldD
	vs   []*version
	busy int // changes under way
}

func (s *store) cur() *version { return s.vs[len(s.vs)-1] }

// set installs a new state.
func (s *store) set(list []*sblk) {
	v := &version{list: list, ok: s.busy == 0, since: zzrt.Stamp(), dmg: s.w.damage}
	s.vs = append(s.vs, v)
}

func (v *version) clone() []*sblk { return append([]*sblk(nil), v.list...) }

func (v *version) find(id consensus.BlockID) int {
	for i, x := range v.list {
		if id.Hash == nil && id.Height == nil {
			break
		}
		if id.Hash != nil && !bytes.Equal(id.Hash, x.hash[:]) {
			continue
		}
		if id.Height != nil && *id.Height != x.h {
			continue
		}
		return i
	}
	return -1
}

func (s *store) delay() {
	zzrt.Point(90)
	if m := s.w.p.Knobs.LatPm; m > 0 {
		if d := s.w.s.Choose(zzrt.KNet, 4, m); d > 0 {
			zzrt.Count(zzrt.CLatency)
			zzrt.Sleep([]int64{0, ms, 200 * ms, 5 * sec}[d])
		}
	}
}

// GetBlock implements chain.Storage.
func (s *store) GetBlock(id consensus.BlockID) (b *consensus.Block) {
	zmark.Do(func() { b = s.getBlock(id) })
	return b
}

func (s *store) getBlock(id consensus.BlockID) *consensus.Block {
	s.delay()
	v := s.cur()
	i := v.find(id)
	zzrt.Point(91)
	if i < 0 {
		return nil
	}
	return toBlock(v.list[i].b)
}

// GetLastBlock implements chain.Storage.
func (s *store) GetLastBlock() (b *consensus.Block) {
	zmark.Do(func() { b = s.getLastBlock() })
	return b
}

func (s *store) getLastBlock() *consensus.Block {
	s.delay()
	v := s.cur()
	zzrt.Point(92)
	if len(v.list) == 0 {
		return nil
	}
	return toBlock(v.list[len(v.list)-1].b)
}

// From implements chain.Storage.
func (s *store) From(id consensus.BlockID, limit int) (l consensus.BlockList) {
	zmark.Do(func() { l = s.from(id, limit) })
	return l
}

func (s *store) from(id consensus.BlockID, limit int) consensus.BlockList {
	s.delay()
	v := s.cur()
	i := v.find(id)
	var out consensus.BlockList
	if i >= 0 {
		for ; i < len(v.list) && len(out) < limit; i++ {
			out = append(out, *toBlock(v.list[i].b))
		}
	}
	zzrt.Point(93)
	return out
}

// AddBlock implements chain.Storage.
func (s *store) AddBlock(b *consensus.Block) {
	s.w.violate("C12", "unasked-write", "the chain stored a block on its own")
}

// DelBlock implements chain.Storage.
func (s *store) DelBlock(id consensus.BlockID) {
	s.w.violate("C12", "unasked-write", "the chain deleted a block on its own")
}

// inst is one life of the chain.
type inst struct {
	hb    zzrt.Hb // the chain is handed over in an orderly way
	c     *chain.Chain
	head  *ref.Block
	heads []*ref.Block // which it may be: damage that spares the header leaves a choice
	hash  [32]byte
	gen   *ref.Block
	genc  *consensus.Block
	ready bool
}

// dcall is one call into the chain.
type dcall struct {
	what   string
	in     *inst
	stamp  int64
	v0     int
	walls  []int64
	done   bool
	killed bool
}

type worldD struct {
	p        *Plan
	s        *zzrt.Sim
	st       *store
	in       *inst
	gen      *ref.Block
	pow      map[[32]byte]bool
	sent     []*ref.Block
	calls    []*dcall
	damage   int
	v        []Violation
	stats    tally
	stateSet hset
	r        *rnd
	main     []*ref.Block // the chain as built, by height
	crashes  int
	after    func(in *inst) // runs once a life of the chain has begun
	onCrash  func()
}

func newWorldD(p *Plan, s *zzrt.Sim) *worldD {
	return &worldD{p: p, s: s, pow: map[[32]byte]bool{}, r: newRnd(p.Env)}
}

func (w *worldD) out() ([]Violation, map[string]int64, map[uint64]struct{}) {
	return w.v, w.stats.counts(), w.stateSet.set()
}

func (w *worldD) violate(prop, kind, f string, a ...any) {
	if len(w.v) < 40 {
		w.v = append(w.v, Violation{prop, kind, fmt.Sprintf(f, a...), zzrt.Now()})
	}
}

func (w *worldD) state(xs ...uint64) {
	h := uint64(14695981039346656037)
	for _, x := range xs {
		h = (h ^ x) * 1099511628211
	}
	w.stateSet.add(h)
}

func powKey(keys [4]uint64, nonces []uint32, eb uint8) (k [32]byte) {
	h := uint64(14695981039346656037)
	for i, x := range keys {
		h = (h ^ x) * 1099511628211
		binary.LittleEndian.PutUint64(k[8*i:], h)
	}
	for _, n := range nonces {
		h = (h ^ uint64(n)) * 1099511628211
	}
	h = (h ^ uint64(eb) ^ uint64(len(nonces))<<8) * 1099511628211
	binary.LittleEndian.PutUint64(k[:], h)
	return
}

// ascend draws new nonces: ascending and in range, as a real proof's are.
func ascend(r *rnd, h *ref.Header) {
	m := uint64(1)<<min(h.EdgeBits, 32) - 1
	if m < 1000 {
		return
	}
	for {
		for i := range h.Nonces {
			h.Nonces[i] = uint32(r.u64() & m)
		}
		slices.Sort(h.Nonces[:])
		ok := true
		for i := 1; i < len(h.Nonces); i++ {
			ok = ok && h.Nonces[i] > h.Nonces[i-1]
		}
		if ok {
			return
		}
	}
}

// vouch makes the header's proof count as valid.
func (w *worldD) vouch(h *ref.Header) {
	if !zzrt.PowHooked { // nobody would ask
		h.PowOK = false
		return
	}
	h.PowOK = true
	w.pow[powKey(h.Keys(), h.Nonces[:], h.EdgeBits)] = true
}

// refit says whether the proof of a (changed) header still counts as valid.
func (w *worldD) refit(h *ref.Header) {
	h.PowOK = w.pow[powKey(h.Keys(), h.Nonces[:], h.EdgeBits)] || h.Cycle()
}

// child makes a block that meets every rule on top of a parent.
func (w *worldD) child(r *rnd, par *ref.Block, list []*sblk, small bool) *ref.Block {
	b := &ref.Block{Header: makeHeader(r, r.u64()>>20, 0, par.Height+1, par.TD+par.PowDifficulty())}
	ascend(r, &b.Header)
	b.TS = par.TS + int64(pick(r, 1, 60, 60, 3600))
	ph := par.Hash()
	b.Prev = ph
	if b.EdgeBits == 29 {
		b.Scaling = uint32(r.n(5000))
	}
	ni, no, nk := r.n(4), 1+r.n(3), 1+r.n(3)
	if small {
		ni, no, nk = 0, 1, 1
	}
	b.Body = makeBody(r, ni, no, nk)
	w.goodKernels(b)
	b.Sort()
	b.Diff = required(list, b.Height) + uint64(pick(r, 0, 0, 1, 1000))
	w.vouch(&b.Header)
	return b
}

// goodKernels gives the coinbase kernel a valid signature.
func (w *worldD) goodKernels(b *ref.Block) {
	for i := range b.Kerns {
		if b.Kerns[i].Feat&1 == 1 && !b.Kerns[i].OK {
			k := ref.Kernels[0]
			k.Feat = b.Kerns[i].Feat
			b.Kerns[i] = k
		}
	}
}

// required is the minimum difficulty of a block at a height over a store.
func required(list []*sblk, height uint64) uint64 {
	from := uint64(0)
	if height > 71 {
		from = height - 71
	}
	v := version{list: list}
	i := v.find(consensus.BlockID{Height: &from})
	if i < 0 {
		return 0
	}
	list = list[i:]
	if len(list) > 71 {
		list = list[:71]
	}
	if len(list) < 71 {
		return 1
	}
	sum := uint64(0)
	for _, x := range list[:60] {
		sum += x.b.Diff
	}
	if d := sum / 60 * 3600 / 7200; d > 1 {
		return d
	}
	return 1
}

func (w *worldD) root() {
	zzrt.PowHook = func(keys [4]uint64, nonces []uint32, eb uint8) (ok bool) {
		zmark.Do(func() { ok = w.pow[powKey(keys, nonces, eb)] })
		return ok
	}
	w.st = &store{w: w}
	w.st.vs = []*version{{ok: true}}
	w.build()
	w.boot()
	for i := range w.p.Steps {
		st := &w.p.Steps[i]
		if d := st.At*ms - zzrt.Now(); d > 0 {
			zzrt.Sleep(d)
		} else {
			zzrt.Yield()
		}
		w.step(st)
	}
	w.s.FaultsOff = true
	end := zzrt.Now() + 60*minNS*int64(1+len(w.main)/50) // a slow store takes its time for each block
	for {
		var open *dcall
		for _, c := range w.calls {
			if !c.done && !c.killed {
				open = c
				break
			}
		}
		if open == nil {
			break
		}
		if zzrt.Now() > end {
			for _, p := range []string{"C11", "C12", "C17"} {
				w.violate(p, "call-hangs", "%s has not returned long after the last fault: %s", open.what, w.s.DumpOwned(1))
			}
			break
		}
		zzrt.Sleep(sec)
	}
}

// build fills the store.
func (w *worldD) build() {
	in := Step{}
	if len(w.p.Init) > 0 {
		in = w.p.Init[0]
	}
	r := newRnd(uint64(in.C))
	g := &ref.Block{Header: makeHeader(r, 1, 0, 0, uint64(r.n(1000000)))}
	now := zzrt.WallNow() / 1e9
	span := in.A * 61
	g.TS = now - span - int64(pick(r, 1000, 100000))
	g.Diff = 1000
	if in.K&2 != 0 {
		g.Body = makeBody(r, 0, 1, 1)
	}
	ascend(r, &g.Header)
	w.vouch(&g.Header)
	w.gen = g
	w.main = []*ref.Block{g}
	var list []*sblk
	if in.K&1 != 0 {
		list = append(list, &sblk{g.Hash(), 0, g, true})
	}
	par := g
	for i := int64(1); i <= in.A; i++ {
		b := w.child(r, par, list, in.A > 12)
		if in.A > 12 {
			b.TS = par.TS + 60
			w.vouch(&b.Header)
		}
		list = append(list, &sblk{b.Hash(), b.Height, b, true})
		w.main = append(w.main, b)
		par = b
	}
	w.st.set(list)
}

// boot starts the chain over what is stored.
func (w *worldD) boot() {
	in := &inst{gen: w.gen, genc: toBlock(w.gen)}
	w.in = in
	c := w.begin("New", in)
	f := func() {
		ch := chain.New(in.genc, w.st)
		in.c = ch
		in.hb.Publish()
		w.end(c)
		// The head is that of one of the states meanwhile.
		hd := ch.Head()
		ok := false
		for _, v := range w.seen(c, false) {
			var b *ref.Block
			if len(v.list) > 0 {
				b = v.list[len(v.list)-1].b
			} else {
				b = w.gen
			}
			th := toHeader(&b.Header)
			if sameHeader(&th, &hd.Header) == "" {
				in.head, in.hash, ok = b, b.Hash(), true
				in.heads = append(in.heads, b)
			}
		}
		if !ok {
			w.violate("C12", "wrong-head", "the chain starts at height %d, the last stored block is at %s", hd.Header.Height, w.last())
			in.head, in.hash = w.gen, w.gen.Hash()
			return
		}
		if ch.Height() != in.head.Height || uint64(ch.TotalDifficulty()) != in.head.TD {
			w.violate("C12", "wrong-head", "the chain starts with height %d and total difficulty %d, the last stored block has %d and %d", ch.Height(), ch.TotalDifficulty(), in.head.Height, in.head.TD)
		}
		if gb := ch.Genesis(); gb.Header.Height != 0 || !bytes.Equal(gb.Hash(), in.genc.Hash()) {
			w.violate("C12", "wrong-genesis", "the chain reports another genesis than the one it was given")
		}
		in.ready = true
		if w.after != nil {
			w.after(in)
		}
	}
	zzrt.GoNamed(1, "user-new", f)
}

func (w *worldD) last() string {
	v := w.st.cur()
	if len(v.list) == 0 {
		return "none (genesis)"
	}
	return fmt.Sprint(v.list[len(v.list)-1].h)
}

func (w *worldD) begin(what string, in *inst) *dcall {
	c := &dcall{what: what, in: in, stamp: zzrt.Stamp(), v0: len(w.st.vs) - 1, walls: []int64{zzrt.WallNow()}}
	w.calls = append(w.calls, c)
	return c
}

func (w *worldD) end(c *dcall) {
	c.done = true
	c.walls = append(c.walls, zzrt.WallNow())
	w.stats.inc("calls")
}

// seen are the store states during a call; whole leaves out half-done changes.
func (w *worldD) seen(c *dcall, whole bool) (o []*version) {
	for i := c.v0; i < len(w.st.vs); i++ {
		if v := w.st.vs[i]; v.ok || !whole {
			o = append(o, v)
		}
	}
	// the state before a change under way when the call began
	for i := c.v0; whole && i >= 0; i-- {
		if w.st.vs[i].ok {
			o = append(o, w.st.vs[i])
			break
		}
	}
	return
}

func (c *dcall) clock() (lo, hi int64) {
	lo, hi = c.walls[0], c.walls[0]
	for _, x := range c.walls {
		lo, hi = min(lo, x), max(hi, x)
	}
	return
}

// verdicts are the permitted answers to "is it accepted".
type verdicts struct{ yes, no bool }

func (v *verdicts) add(why string) {
	if why == "" {
		v.yes = true
	} else {
		v.no = true
	}
}

// onChain judges a block against the stored state.
func (w *worldD) onChain(b *ref.Block, v *version, now int64, head [32]byte) string {
	if b.Hash() == head {
		return "" // that is the head itself
	}
	if s := ref.BlockRules(b, now); s != "" {
		return s
	}
	ph := b.Height - 1
	i := v.find(consensus.BlockID{Hash: b.Prev[:], Height: &ph})
	if i < 0 {
		return ""
	}
	par := v.list[i].b
	if b.TS <= par.TS {
		return "time"
	}
	if b.TD != par.TD+par.PowDifficulty() {
		return "total difficulty"
	}
	if b.Diff < required(v.list, b.Height) {
		return "difficulty"
	}
	return ""
}

func (w *worldD) user(what string, in *inst, f func(c *dcall)) {
	zzrt.GoNamed(1, "user-"+what, func() {
		if in.c == nil || !in.ready {
			return
		}
		in.hb.Subscribe()
		c := w.begin(what, in)
		f(c)
	})
}

func (w *worldD) step(st *Step) {
	in := w.in
	switch st.Op {
	case "jump":
		d := st.A * ms
		for _, c := range w.calls {
			if !c.done {
				c.walls = append(c.walls, zzrt.WallNow(), zzrt.WallNow()+d)
			}
		}
		w.s.JumpWall(d)
	case "crash":
		zzrt.Count(zzrt.CCrashRestart)
		w.s.Kill(1)
		if w.onCrash != nil {
			w.onCrash()
		}
		chain.SimReset()
		consensus.SimReset()
		for _, c := range w.calls {
			if !c.done {
				c.killed = true
			}
		}
		// Only a prefix of what was not yet durable survives.
		cur := w.st.cur()
		var list []*sblk
		lost := false
		r := newRnd(uint64(st.B))
		for _, x := range cur.list {
			if !x.sync {
				if lost || r.pc(50) {
					lost = true
					continue
				}
				x.sync = true
			}
			list = append(list, x)
		}
		w.st.busy = 0
		w.st.set(list)
		w.crashes++
		w.boot()
	case "block":
		b := w.makeBlock(st)
		if b == nil {
			return
		}
		blk := toBlock(b)
		if st.C == 1 {
			blk = &consensus.Block{}
			if err := blk.Read(bytes.NewReader(b.Bytes())); err != nil {
				return
			}
			b.Diff = 0
		}
		w.user("ProcessBlock", in, func(c *dcall) {
			err := in.c.ProcessBlock(blk)
			w.end(c)
			w.judge(c, b, err, st)
		})
	case "headers":
		w.headers(st)
	case "qh":
		w.queryHeaders(st)
	case "qb":
		w.queryBlock(st)
	case "state":
		w.user("state", in, func(c *dcall) {
			in.c.RLock()
			hd := in.c.Head()
			zzrt.Point(94)
			h := in.c.Height()
			zzrt.Point(95)
			td := in.c.TotalDifficulty()
			in.c.RUnlock()
			w.end(c)
			if h != hd.Header.Height || td != hd.Header.TotalDifficulty {
				w.violate("C12", "mixed-state", "height %d and total difficulty %d are reported for a head with %d and %d", h, td, hd.Header.Height, hd.Header.TotalDifficulty)
			}
			th := toHeader(&in.head.Header)
			if d := sameHeader(&th, &hd.Header); d != "" {
				w.violate("C12", "wrong-head", "the %s of the head is not that of the last stored block", d)
			}
		})
	case "validate":
		w.user("Validate", in, func(c *dcall) {
			err := in.c.Validate()
			w.end(c)
			w.judgeValidate(c, err)
		})
	case "lose", "corrupt":
		w.hurt(st)
	case "append":
		w.append(st)
	}
}

// judge checks a verdict about a block.
func (w *worldD) judge(c *dcall, b *ref.Block, err error, st *Step) {
	var v verdicts
	lo, hi := c.clock()
	why := ""
	if w.damaged(c) {
		w.stats.inc("blocks_during_damage")
		return
	}
	for _, s := range w.seen(c, true) {
		for _, now := range []int64{lo, hi} {
			x := w.onChain(b, s, now, c.in.hash)
			if x != "" {
				why = x
			}
			v.add(x)
		}
	}
	w.stats.inc("blocks")
	if err == nil {
		w.stats.inc("accepted")
	}
	w.state(1, uint64(st.K), b2u(err == nil), b2u(v.yes), b2u(v.no), uint64(min(len(w.st.cur().list), 80)))
	switch {
	case err == nil && !v.yes:
		w.violate("C11", "bad-accepted", "a block at height %d was accepted although it breaks a rule: %s", b.Height, why)
	case err != nil && !v.no:
		w.violate("C11", "good-rejected", "a block at height %d that meets every rule was rejected: %.200v", b.Height, err)
	}
}

func (w *worldD) headers(st *Step) {
	in := w.in
	r := newRnd(uint64(st.B))
	var hs []consensus.BlockHeader
	var rs []*ref.Block
	n := int(st.A)
	for i := 0; i < n; i++ {
		s := Step{K: 0, A: int64(r.n(20)), B: int64(r.u64() >> 2)}
		if i == int(st.C) {
			s.K = st.K
		}
		b := w.makeBlock(&s)
		if b == nil {
			continue
		}
		rs = append(rs, b)
		hs = append(hs, toHeader(&b.Header))
	}
	w.user("ProcessHeaders", in, func(c *dcall) {
		err := in.c.ProcessHeaders(hs)
		w.end(c)
		var v verdicts
		lo, hi := c.clock()
		why := ""
		for _, now := range []int64{lo, hi} {
			x := ""
			for _, b := range rs {
				if y := ref.HeaderRules(&b.Header, now); y != "" {
					x, why = y, y
				}
			}
			v.add(x)
		}
		w.stats.inc("headers")
		w.state(2, uint64(st.K), uint64(n), b2u(err == nil))
		switch {
		case err == nil && !v.yes:
			w.violate("C11", "bad-header-accepted", "a header list was accepted although one breaks a rule: %s", why)
		case err != nil && !v.no:
			w.violate("C11", "good-header-rejected", "a header list that meets every rule was rejected: %.200v", err)
		}
	})
}

// Defects makeBlock knows.
const (
	dNone = iota
	dVersion
	dFuture
	dFarFuture
	dEdge
	dScale
	dPow
	dNoOut
	dNoKern
	dOrderIn
	dOrderOut
	dOrderKern
	dTwoOut
	dTwoKern
	dProof
	dSig
	dSigPlain // not a defect: the kernel is not a coinbase
	dTimeEq
	dTimeBefore
	dTDHigh
	dTDLow
	dDiffLow
	dDiffExact // not a defect
	dHead
	dHigh // a height of another era, parent unknown
	dEmpty
	dOldTime // not a defect: far in the past, parent unknown
	dReal    // not a defect: a genuine block
	dRealBad // a genuine block with a damaged proof
	dTwin    // a block submitted before, as it was or changed without changing its hash
	dKinds
)

// makeBlock makes a block for submission: on a stored parent st.A below the
// tip (or an unknown one), with the defect st.K.
func (w *worldD) makeBlock(st *Step) *ref.Block {
	r := newRnd(uint64(st.B))
	if st.K == dReal || st.K == dRealBad {
		return w.realBlock(r, st.K == dRealBad)
	}
	if st.K == dTwin && len(w.sent) > 0 {
		return w.twin(r)
	}
	list := w.st.cur().list
	var par *ref.Block
	if n := int64(len(list)); st.A >= 0 && n > 0 {
		par = list[n-1-st.A%n].b
	}
	if par == nil || st.K == dHigh || st.K == dOldTime {
		p := &ref.Block{Header: makeHeader(r, r.u64()>>20, 0, uint64(r.n(90000)), uint64(r.n(1<<30)))}
		p.TS = zzrt.WallNow()/1e9 - int64(r.n(100000)) - 4000
		ascend(r, &p.Header)
		w.vouch(&p.Header)
		par = p
		if st.K == dHigh {
			p.Height = pick(r, uint64(94998), 94999, 95000, 249998, 249999, 250000, 499998, 499999, 500000, 1<<40, 1<<64-2)
		}
		if st.K == dOldTime {
			p.TS = pick(r, int64(-5000), -62135596900, 0)
		}
	}
	b := w.child(r, par, list, false)
	now := zzrt.WallNow()
	if r.pc(60) && par.TS+1 < now/1e9 {
		b.TS = par.TS + 1 + r.i64(now/1e9-par.TS)
	}
	vouch := true
	switch st.K {
	case dVersion:
		b.Version = uint16(pick(r, 0, 2, 3, 4, 65535))
	case dFuture: // around the limit
		b.TS = now/1e9 + 720 + int64(pick(r, -2, -1, 0, 1, 2, 30, 3600))
	case dFarFuture:
		b.TS = pick(r, int64(253402300799), 9223372036, 9223372037, 18446744073, 1<<40, 1<<62)
	case dEdge:
		b.EdgeBits = pick(r, uint8(28), 27, 19, 1, 30, 33)
		b.Scaling = 1
		ascend(r, &b.Header)
	case dScale:
		b.EdgeBits = pick(r, uint8(30), 31, 33)
		b.Scaling = pick(r, uint32(0), 2, 1<<31)
		ascend(r, &b.Header)
	case dPow:
		vouch = false
		b.Nonces[r.n(42)] ^= 1
	case dNoOut:
		b.Outs = nil
	case dNoKern:
		b.Kerns = nil
	case dEmpty:
		b.Body = ref.Body{}
	case dOrderIn:
		for len(b.Ins) < 2 {
			b.Ins = append(b.Ins, makeBody(r, 1, 0, 0).Ins...)
		}
		b.Sort()
		i := r.n(len(b.Ins) - 1)
		b.Ins[i], b.Ins[i+1] = b.Ins[i+1], b.Ins[i]
	case dOrderOut:
		b.Outs = makeBody(r, 0, 2+r.n(3), 0).Outs
		i := r.n(len(b.Outs) - 1)
		b.Outs[i], b.Outs[i+1] = b.Outs[i+1], b.Outs[i]
	case dOrderKern:
		b.Kerns = makeBody(r, 0, 0, 2+r.n(3)).Kerns
		w.goodKernels(b)
		b.Sort()
		i := r.n(len(b.Kerns) - 1)
		b.Kerns[i], b.Kerns[i+1] = b.Kerns[i+1], b.Kerns[i]
	case dTwoOut:
		b.Outs = makeBody(r, 0, 2+r.n(3), 0).Outs
		b.Outs[0].Feat, b.Outs[len(b.Outs)-1].Feat = coin(r, 1), coin(r, 1)
		b.Sort()
	case dTwoKern:
		b.Kerns = []ref.Kernel{ref.Kernels[0], ref.Kernels[2], ref.Kernels[4]}[:2+r.n(2)]
		b.Kerns[0].Feat, b.Kerns[len(b.Kerns)-1].Feat = coin(r, 1), coin(r, 1)
		b.Sort()
	case dProof:
		x := ref.Outputs[ref.GoodOutputs+r.n(len(ref.Outputs)-ref.GoodOutputs)]
		x.Feat = coin(r, 0)
		if r.pc(40) {
			for i := range b.Outs {
				b.Outs[i].Feat = coin(r, 0)
			}
			x.Feat = coin(r, 1)
		}
		b.Outs = append(b.Outs, x)
		b.Sort()
	case dSig, dSigPlain:
		for i := range b.Kerns {
			b.Kerns[i].Feat = coin(r, 0)
		}
		k := ref.Kernels[pick(r, 1, 3, 5)]
		k.Feat = coin(r, 1)
		if st.K == dSigPlain {
			k.Feat = coin(r, 0)
		}
		b.Kerns = append(b.Kerns, k)
		b.Sort()
	case dTimeEq:
		b.TS = par.TS
	case dTimeBefore:
		b.TS = par.TS - int64(pick(r, 1, 60, 100000))
	case dTDHigh:
		b.TD += uint64(pick(r, 1, 1000))
	case dTDLow:
		b.TD -= uint64(pick(r, 1, 10))
	case dDiffLow:
		if d := required(list, b.Height); d > 0 {
			b.Diff = d - 1
		}
	case dDiffExact:
		b.Diff = required(list, b.Height)
	case dHead:
		if w.in.head == nil {
			return nil
		}
		c := *w.in.head
		return &c
	case dHigh:
		b.Version = uint16(1 + r.n(3))
	}
	if vouch {
		w.vouch(&b.Header)
	} else {
		w.refit(&b.Header)
	}
	w.sent = append(w.sent, b)
	return b
}

// twin is a block that was submitted before, exactly or with the same proof
// nonces (hence hash) but other content.
func (w *worldD) twin(r *rnd) *ref.Block {
	b := w.sent[len(w.sent)-1-r.n(min(len(w.sent), 6))].Clone()
	ok := b.PowOK
	switch r.n(14) {
	case 0:
		b.Version ^= uint16(1 + r.n(3))
	case 1:
		b.TS = zzrt.WallNow()/1e9 + 720 + int64(pick(r, 1, 2, 3600))
	case 2:
		b.Scaling++
	case 3:
		b.Outs = nil
	case 4:
		b.Kerns = nil
	case 5:
		b.TD++
	case 6:
		b.Diff = 0
	case 7:
		x := ref.Outputs[ref.GoodOutputs+r.n(len(ref.Outputs)-ref.GoodOutputs)]
		x.Feat = coin(r, 0)
		b.Outs = append(b.Outs, x)
		b.Sort()
	case 8:
		k := ref.Kernels[pick(r, 1, 3, 5)]
		k.Feat = coin(r, 1)
		b.Kerns = []ref.Kernel{k}
	case 9:
		if n := len(b.Outs); n > 1 {
			b.Outs[0], b.Outs[n-1] = b.Outs[n-1], b.Outs[0]
		}
	case 10:
		b.TS -= int64(pick(r, 60, 3600, 100000))
	case 11: // without new work
		b.Nonce++
		ok = false
	}
	if ok {
		w.vouch(&b.Header)
	} else {
		w.refit(&b.Header)
	}
	w.sent = append(w.sent, b)
	return b
}

var manyTimes = [42]int{0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 9, 12, 12, 12, 12, 12, 12, 12, 12, 12, 17, 18, 18, 18, 18, 18, 19, 20, 21, 25, 25, 25, 25, 25, 32, 34, 38, 40, 41}

// realBlock is a genuine block, or one with something of it changed.
func (w *worldD) realBlock(r *rnd, bad bool) *ref.Block {
	b := ref.Real.Clone()
	if k := r.n(3 * len(ref.Works)); k < len(ref.Works) || bad && r.n(2) == 0 {
		ref.Works[k%len(ref.Works)].Put(&b.Header)
		w.refit(&b.Header)
		if !bad || r.n(2) == 0 {
			return b
		}
	}
	if !bad {
		return b
	}
	n := &b.Nonces
	i := r.n(41)
	switch r.n(11) {
	case 0: // another edge
		n[i] += uint32(1 + r.n(5))
	case 1: // another order
		n[i], n[i+1] = n[i+1], n[i]
	case 2: // one edge twice
		n[i+1] = n[i]
	case 3: // the same edge by another name
		n[41] = n[0] + 1<<b.EdgeBits
	case 4: // another proof
		ascend(r, &b.Header)
	case 5:
		b.Nonce++
	case 6:
		b.Offs[r.n(32)] ^= 1
	case 7:
		b.TD++
	case 8: // one genuine edge gone
		n[41] = n[41] ^ 1
	case 9: // no proof
		*n = [42]uint32{}
	case 10: // genuine edges taken several times, so that a careless walk over them counts 42 steps
		old := *n
		for i, k := range manyTimes {
			n[i] = old[k]
		}
	}
	w.refit(&b.Header)
	return b
}

// --- queries ---

func (w *worldD) locator(st *Step) (l consensus.Locator) {
	r := newRnd(uint64(st.B))
	list := w.st.cur().list
	for i := int64(0); i < st.A; i++ {
		var h consensus.Hash
		switch k := r.n(10); {
		case k < 2 || len(list) == 0:
			h = idHash(r.u64(), 0, 0)
		case k == 2:
			x := w.gen.Hash()
			h = x[:]
		case k == 3 && w.in.head != nil:
			x := w.in.hash
			h = x[:]
		case k == 4:
			x := list[0].hash
			h = x[:]
		case k == 5:
			x := list[len(list)-1].hash
			h = x[:]
		case k == 6:
			h = w.main[r.n(len(w.main))].HashSlice()
		case k == 7: // often one that was removed and may come back
			h = w.main[len(w.main)-1-r.n(min(len(w.main), 6))].HashSlice()
		default:
			x := list[r.n(len(list))].hash
			h = x[:]
		}
		if len(h) == 32 && r.n(12) == 0 { // almost a known one
			h = append(consensus.Hash(nil), h...)
			h[pick(r, 31, 31, 30, 16, 4, 8, 0)] ^= byte(1 + r.n(255))
		}
		l.Hashes = append(l.Hashes, h)
	}
	return
}

func (w *worldD) queryHeaders(st *Step) {
	in := w.in
	loc := w.locator(st)
	arg := consensus.Locator{Hashes: append([]consensus.Hash(nil), loc.Hashes...)}
	w.user("GetBlockHeaders", in, func(c *dcall) {
		got := in.c.GetBlockHeaders(arg)
		w.end(c)
		w.stats.inc("header_queries")
		ok := false
		want := 0
		for _, v := range w.seen(c, true) {
			exp := v.headersAfter(loc, in.hash)
			want = len(exp)
			if sameHeaders(exp, got) {
				ok = true
				break
			}
		}
		w.state(3, uint64(min(len(got), 20)), uint64(len(loc.Hashes)), b2u(len(got) == 512))
		if !ok {
			w.violate("C12", "wrong-headers", "a header query returned %d headers that are not what is stored after the locator (%d)", len(got), want)
		}
	})
}

func (v *version) headersAfter(loc consensus.Locator, head [32]byte) []*ref.Block {
	for _, h := range loc.Hashes {
		if bytes.Equal(h, head[:]) {
			return nil
		}
		if i := v.find(consensus.BlockID{Hash: h}); i >= 0 {
			var o []*ref.Block
			for _, x := range v.list[i+1:] {
				if len(o) == 512 {
					break
				}
				o = append(o, x.b)
			}
			return o
		}
	}
	return nil
}

func sameHeaders(exp []*ref.Block, got []consensus.BlockHeader) bool {
	if len(exp) != len(got) {
		return false
	}
	for i := range got {
		th := toHeader(&exp[i].Header)
		if sameHeader(&th, &got[i]) != "" {
			return false
		}
	}
	return true
}

func (w *worldD) queryBlock(st *Step) {
	in := w.in
	r := newRnd(uint64(st.B))
	var h consensus.Hash
	list := w.st.cur().list
	switch {
	case st.K == 0 && len(list) > 0:
		x := list[r.n(len(list))].hash
		h = x[:]
	case st.K == 1:
		h = w.main[r.n(len(w.main))].HashSlice()
	case st.K == 2:
		h = nil
	default:
		h = idHash(r.u64(), 1, 2)
	}
	id := consensus.BlockID{Hash: h}
	byID := st.C == 1 && h != nil
	if byID && r.pc(60) {
		x := uint64(r.n(len(list) + 2))
		if i := w.st.cur().find(id); i >= 0 && r.pc(70) {
			x = list[i].h
		}
		id.Height = &x
		if r.pc(40) {
			id.Hash = nil
		}
	}
	w.user("GetBlock", in, func(c *dcall) {
		var got *consensus.Block
		if byID {
			got = in.c.GetBlockID(id)
		} else {
			got = in.c.GetBlock(h)
		}
		w.end(c)
		w.stats.inc("block_queries")
		for _, v := range w.seen(c, false) {
			i := v.find(id)
			if i < 0 && got == nil {
				return
			}
			if i >= 0 && got != nil && bytes.Equal(got.Bytes(), sortedBytes(v.list[i].b)) {
				return
			}
		}
		w.violate("C12", "wrong-block", "a block query returned (found %v) something else than what is stored", got != nil)
	})
}

// sortedBytes is the encoding of a block whatever the order of its elements.
func sortedBytes(b *ref.Block) []byte { return toBlock(b).Bytes() }

// --- storage ---

// append changes the stored chain as a sync process would: under the chain's
// lock, in several steps.
func (w *worldD) append(st *Step) {
	in := w.in
	w.user("append", in, func(c *dcall) {
		in.c.Lock()
		w.st.busy++
		r := newRnd(uint64(st.B))
		for i := int64(0); i < st.C; i++ {
			l := w.st.cur().clone()
			// never the block the chain regards as its head
			if len(l) > 0 && l[len(l)-1].hash != in.hash && l[len(l)-1].h > 0 {
				w.st.set(l[:len(l)-1])
				zzrt.Point(96)
			}
		}
		var added []*sblk
		for i := int64(0); i < st.A; i++ {
			l := w.st.cur().clone()
			par := w.gen
			if len(l) > 0 {
				par = l[len(l)-1].b
			}
			var b *ref.Block
			ph := par.Hash()
			if r.pc(50) { // a block that was there before comes back
				for _, o := range w.main {
					if o.Prev == ph && (b == nil || r.pc(50)) && w.st.cur().find(consensus.BlockID{Hash: o.HashSlice()}) < 0 {
						b = o
					}
				}
			}
			if b == nil {
				b = w.child(r, par, l, false)
				w.main = append(w.main, b)
			}
			x := &sblk{b.Hash(), b.Height, b, false}
			added = append(added, x)
			w.st.set(append(l, x))
			zzrt.Point(97)
			if r.pc(30) {
				zzrt.Sleep(int64(r.n(20)) * ms)
			}
		}
		for _, x := range added {
			x.sync = true
		}
		w.st.busy--
		if w.st.busy == 0 {
			w.st.set(w.st.cur().clone())
		}
		w.stats.inc("appends")
		in.c.Unlock()
		w.end(c)
	})
}

// hurt loses or corrupts a stored block (never the head the chain holds).
func (w *worldD) hurt(st *Step) {
	l := w.st.cur().clone()
	if len(l) == 0 {
		return
	}
	i := int(st.A % int64(len(l)))
	x := l[i]
	w.damage++
	if st.Op == "lose" {
		if x.hash == w.in.hash {
			return
		}
		zzrt.Count(zzrt.CLostBlock)
		w.st.set(append(l[:i], l[i+1:]...))
		return
	}
	if i == len(l)-1 && w.p.Prop != "C17" {
		return
	}
	zzrt.Count(zzrt.CCorruptBlock)
	r := newRnd(uint64(st.B))
	b := *x.b
	b.Body.Ins = append([]ref.Input(nil), b.Ins...)
	b.Body.Outs = append([]ref.Output(nil), b.Outs...)
	b.Body.Kerns = append([]ref.Kernel(nil), b.Kerns...)
	vouched := st.C == 1 // as if someone had mined it: only the rules can tell
	switch st.K {
	case 0:
		b.Version = 2
	case 1:
		b.TS = 1 << 33
	case 2:
		b.Nonces[r.n(42)] ^= 1
	case 3:
		b.Outs = nil
	case 4:
		b.Kerns = nil
	case 5:
		if len(b.Outs) > 0 {
			o := ref.Outputs[ref.GoodOutputs+r.n(len(ref.Outputs)-ref.GoodOutputs)]
			o.Feat = b.Outs[0].Feat
			switch r.n(3) {
			case 0:
				b.Outs = []ref.Output{o}
			case 1: // the last of several
				b.Outs = append(makeBody(r, 0, 3+r.n(3), 0).Outs, o)
			default:
				b.Outs = append(b.Outs, o)
			}
			b.Sort()
		}
	case 6:
		k := ref.Kernels[pick(r, 1, 3, 5)]
		k.Feat = coin(r, 1)
		b.Kerns = []ref.Kernel{k}
	case 7:
		b.Outs = makeBody(r, 0, 3, 0).Outs
		b.Outs[0], b.Outs[2] = b.Outs[2], b.Outs[0]
	case 8:
		b.EdgeBits, b.Scaling = 30, 7
		if vouched {
			ascend(r, &b.Header)
		}
	case 9: // still a good block
		b.Outs = makeBody(r, 0, 2, 0).Outs
	case 10: // a damaged link to the parent
		b.Prev[r.n(32)] ^= byte(1 + r.n(255))
	case 11: // a link to itself or a descendant
		j := i + r.n(len(l)-i)
		if l[j].h == 0 {
			return
		}
		b.Prev = l[j].hash
	case 12:
		for k := range b.Outs {
			b.Outs[k].Feat = coin(r, 1)
		}
		b.Outs = append(b.Outs, makeBody(r, 0, 2, 0).Outs...)
		for k := range b.Outs {
			b.Outs[k].Feat = coin(r, 1)
		}
		b.Sort()
	case 13:
		b.EdgeBits = 28
		if vouched {
			ascend(r, &b.Header)
		}
	}
	if vouched {
		w.vouch(&b.Header)
	} else {
		w.refit(&b.Header)
	}
	l[i] = &sblk{x.hash, x.h, &b, x.sync}
	w.st.set(l)
}

// judgeValidate checks the verdict about the whole chain.
func (w *worldD) judgeValidate(c *dcall, err error) {
	w.stats.inc("validations")
	lo, hi := c.clock()
	var v verdicts
	why := ""
	for _, s := range w.seen(c, true) {
		for _, now := range []int64{lo, hi} {
			for _, b := range c.in.heads {
				x, skew := w.whole(c.in, b, s, now)
				if x != "" {
					why = x
				}
				v.add(x)
				if x == "" && skew {
					v.no = true
				}
			}
		}
	}
	if w.damaged(c) || w.halfway(c) {
		w.stats.inc("validations_during_damage")
		return
	}
	w.state(5, b2u(err == nil), b2u(v.no), uint64(min(len(w.st.cur().list), 30)))
	if err == nil {
		w.stats.inc("chain_found_good")
	} else {
		w.stats.inc("chain_found_bad")
	}
	switch {
	case err == nil && !v.yes:
		w.violate("C17", "damage-missed", "the chain was found good although a block is damaged: %s", why)
	case err != nil && !v.no:
		w.violate("C17", "good-chain-rejected", "an undamaged chain of %d blocks was found bad: %.200v", len(w.st.cur().list), err)
	}
}

// damaged says the store was damaged while the call was running.
func (w *worldD) damaged(c *dcall) bool {
	return w.st.cur().dmg != w.st.vs[c.v0].dmg
}

// halfway says the store was in the middle of a change during the call.
func (w *worldD) halfway(c *dcall) bool {
	for i := c.v0; i < len(w.st.vs); i++ {
		if !w.st.vs[i].ok {
			return true
		}
	}
	return false
}

// whole walks from the head to the genesis. With skew, the links lead there,
// but a height isn't that of the parent and one: damage, although every block
// keeps the rules by itself and none is missing.
func (w *worldD) whole(in *inst, b *ref.Block, v *version, now int64) (why string, skew bool) {
	gh := in.gen.Hash()
	for n := 0; b.Hash() != gh; n++ {
		if s := ref.BlockRules(b, now); s != "" {
			return fmt.Sprintf("height %d: %s", b.Height, s), false
		}
		if b.Prev == gh {
			break
		}
		i := v.find(consensus.BlockID{Hash: b.Prev[:]})
		if i < 0 {
			return fmt.Sprintf("the parent of height %d is missing", b.Height), false
		}
		if v.list[i].b.Height+1 != b.Height {
			skew = true
		}
		b = v.list[i].b
		if n > len(v.list) {
			return "a cycle", false
		}
	}
	return "", skew
}
