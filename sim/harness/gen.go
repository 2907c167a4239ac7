//go:build go1.24

package main

import (
	"fmt"
	"os"
	"strings"
)

// onlyWorld is for trying out one world (by hand).
var onlyWorld = os.Getenv("SIM_WORLD")

// genPlan makes the plan of a seed for a property.
func genPlan(prop string, seed uint64) *Plan {
	h := uint64(0)
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	r := newRnd(seed ^ h<<40)
	p := &Plan{Prop: prop, Seed: seed*2654435761 + h, Env: r.u64()}
	b, c, d, e := 0, 0, 0, 0
	switch prop {
	case "C01":
		b, e = 22, 13
	case "C02", "C09":
		e = 4
	case "C04", "C10":
		e = 12
	case "C08":
		e = 15
	case "C13":
		b, d, e = 22, 12, 10
	case "C11", "C12":
		d, e = 90, 10
	case "C17":
		d = 100
	case "C06":
		b = 50
	case "C07":
		b = 60
	case "C16":
		b, c = 55, 45
	case "C15":
		b, c = 25, 65
	}
	if onlyWorld == "E" {
		b, c, d, e = 0, 0, 0, 100
	}
	switch x := r.n(100); {
	case x < b:
		genB(p, r)
	case x < b+c:
		genC(p, r)
	case x < b+c+d:
		genD(p, r)
	case x < b+c+d+e:
		genE(p, r)
	default:
		genA(p, r)
		if prop == "C03" && r.n(outageOne) == 0 {
			genOutage(p, r)
		} else if r.pc(25) {
			p.Knobs.Lapse = pick(r, int64(3), 26, 216, 9600) * 3600
		}
	}
	return p
}

func genKnobs(p *Plan, r *rnd) {
	k := &p.Knobs
	k.Policy = pick(r, 1, 2, 2, 3, 3, 3, 0)
	k.StickyPc = pick(r, 30, 70, 90, 97)
	k.PctDepth = r.in(1, 6)
	if r.pc(30) {
		k.StallPm = r.in(1, 6)
	}
	k.LatPm = pick(r, 0, 0, 60, 300)
	k.FragPm = pick(r, 0, 0, 100, 600)
	k.ShortPm = pick(r, 0, 0, 200)
	k.Split = r.pc(35)
	k.BaseLatU = pick(r, 0, 100, 2000, 60000)
	k.Window = pick(r, 0, 0, 0, 4096, 700, r.in(20, 200))
	if k.BaseLatU == 0 && (k.Window > 0 || k.FragPm > 100) {
		k.BaseLatU = 20 // a lot of traffic in tiny pieces must take time
	}
	k.WallBase = int64(r.n(1 << 26))
}

// addresses: literal hosts of a run.
func addrOf(r *rnd, i int) string {
	port := pick(r, 13414, 3414, 80, 65535, 1, 9000+i)
	switch r.n(6) {
	case 0:
		return fmt.Sprintf("[2001:db8:%x::%x]:%d", 1+r.n(65535), i+1, port)
	case 1:
		return fmt.Sprintf("[fd%02x:%x:%x:%x:%x:%x:%x:%x]:%d", i, r.in(1, 65535), r.in(1, 65535), r.in(1, 65535), r.in(1, 65535), r.in(1, 65535), r.in(1, 65535), r.in(1, 65535), port)
	case 2: // same address, another port
		return fmt.Sprintf("10.9.8.7:%d", 2000+i)
	default:
		return fmt.Sprintf("10.%d.%d.%d:%d", r.n(256), r.n(256), i+1, port)
	}
}

var badHS = []string{"badver", "badgen", "nogen", "shortgen", "stall", "deaf", "stallmid", "drip", "dripbig", "close", "reset", "half", "halfmid",
	"garbage", "hugeagent", "wrongtype", "biglen", "badmagic", "shortlen", "trunc"}

func hsMode(r *rnd, m string) string {
	a := 0
	switch m {
	case "badver":
		a = pick(r, 0, 2, 3, 255, 1<<30)
	case "badgen":
		a = r.n(32)
	case "okslow":
		a = pick(r, 1, 100, 900, 5000)
	case "okdrip":
		a = pick(r, 1, 5, 20)
	case "drip":
		a = pick(r, 100, 1000, 5000, 20000)
	case "dripbig":
		a = pick(r, 3000, 10000, 25000)
	case "stallmid", "halfmid", "trunc":
		a = r.n(80)
	case "garbage":
		a = r.n(1 << 20)
	case "hugeagent":
		a = r.in(14, 80)
	case "wrongtype":
		a = pick(r, 1, 0, 3, 4, 13, 20, 21, 255)
	case "biglen":
		a = pick(r, 0, 1, 1<<30)
	case "badmagic":
		a = pick(r, 1, 128, 256, 0x3456)
	case "shortlen":
		a = r.n(30)
	}
	return fmt.Sprintf("%s:%d", m, a)
}

func goodHS(r *rnd) string {
	return pick(r, "ok", "ok", "ok", hsMode(r, "okslow"), hsMode(r, "okdrip"))
}

var oddAddrs = []string{"0.0.0.0:80", "224.0.0.1:13414", "239.255.255.255:1", "10.0.0.1:0", "[ff02::1]:13414", "[::]:99", "255.255.255.255:7",
	"[::1]:0", "[ff0e::101]:123", "127.0.0.1:13414", "1.2.3.4:65535", "[fe80::1]:5", "[::ffff:9.9.9.9]:77", "[0:0:0:0:0:ffff:0:1]:3"}

// outageOne is how rare plans with a long outage are: they take seconds.
const outageOne = 100

// genOutage lets everything refuse for hours, and then come back: whatever the
// node remembers of the failures, it must connect soon.
func genOutage(p *Plan, r *rnd) {
	*p = Plan{Prop: p.Prop, Seed: p.Seed, Env: p.Env, World: "A", Mode: "outage"}
	genKnobs(p, r)
	k := &p.Knobs
	k.StallPm, k.LogLevel, k.MaxConn, k.BaseLatU = 0, 0, pick(r, 0, 1, 2, 3), 100
	p.End = int64(pick(r, 1, 3, 6, 6)) * 3600000
	for i, n := 0, r.in(1, 3); i < n; i++ {
		h := HostPlan{Addr: addrOf(r, i), Known: true, Caps: 7, State: pick(r, "refuse", "refuse", "refuse", "up")}
		if i == 0 {
			h.State = "refuse"
		}
		p.Hosts = append(p.Hosts, h)
	}
}

// droppers says there are peers that hang up all the time.
func (p *Plan) droppers() bool {
	for _, h := range p.Hosts {
		if len(h.HS) > 0 && strings.HasPrefix(h.HS[0], "okdrop") {
			return true
		}
	}
	return false
}

// genA makes a plan for the full node.
func genA(p *Plan, r *rnd) {
	p.World = "A"
	genKnobs(p, r)
	k := &p.Knobs
	k.MaxConn = pick(r, 0, 1, 2, 3, 4, 6)
	p.End = int64(pick(r, 2000, 20000, 60000, 300000))
	nh := r.in(1, 7)
	evilPc, badPc, stPc, knownPc := 0, 15, 15, 85
	faulty := r.pc(40) // connection-level faults
	switch p.Prop {
	case "C01":
		evilPc, badPc = 50, 30
		k.NilMempool = r.pc(30)
		nh = r.in(2, 6)
	case "C02":
		evilPc, badPc = 40, 25
		nh = r.in(2, 7)
		k.MaxConn = pick(r, 0, 3, 4, 6)
	case "C03":
		badPc, stPc = 45, 45
		nh = r.in(1, 10)
		p.End = int64(pick(r, 20000, 120000, 600000))
		k.MaxConn = pick(r, 1, 1, 2, 3, 4)
	case "C04", "C05":
		badPc, stPc = 5, 5
		nh = r.in(1, 4)
	case "C06":
		badPc = 60
		p.End = int64(pick(r, 20000, 120000, 400000))
	case "C08":
		nh = r.in(2, 7)
		k.StallPm = 0
	case "C09":
		evilPc, badPc, stPc = 15, 25, 30
		nh = r.in(0, 8)
		p.End = int64(pick(r, 0, 5, 100, 1500, 6000, 20000, 100000))
	case "C10":
		nh = r.in(2, 6)
		badPc, stPc = 5, 5
		k.MaxConn = pick(r, 0, 0, 4, 6)
	case "C13":
		evilPc = 10
		nh = r.in(2, 6)
	case "C14":
		nh = r.in(1, 7)
		badPc, stPc = 25, 25
		k.StallPm = 0
		k.TableSize = pick(r, 0, 0, 0, r.in(1, 12))
	}
	if faulty {
		k.WErrPm = pick(r, 0, 1, 4)
		k.ResetPm = pick(r, 0, 1, 4)
	}
	if crowdPc := map[string]int{"C02": 2, "C03": 4, "C04": 1, "C08": 2, "C09": 3, "C10": 6, "C13": 1, "C14": 3}[p.Prop]; r.pc(crowdPc) {
		nh = r.in(9, 20)
		k.MaxConn = pick(r, 15, 15, 15, 12, 9)
		p.End = max(p.End, 60000)
		evilPc /= 3
	}
	evil := 0
	for i := 0; i < nh; i++ {
		h := HostPlan{Addr: addrOf(r, i), Known: r.pc(knownPc), Caps: uint32(pick(r, 7, 7, 0, 1, 4, 6, 255)), Agent: pick(r, 0, 5, 16, 300)}
		if r.pc(20) {
			h.H, h.TD = uint64(r.n(20)), uint64(r.n(60))
		}
		if r.pc(10) && !strings.HasPrefix(h.Addr, "[") {
			h.Name = fmt.Sprintf("node%d.example:%s", i, h.Addr[strings.LastIndexByte(h.Addr, ':')+1:])
			h.DNSms = pick(r, 0, 10, 3000)
		}
		if r.pc(stPc) {
			h.State = pick(r, "refuse", "refuse", "blackhole", "slow")
			h.Delay = pick(r, 1, 500, 5000, 15000)
		}
		maxEvil := nh
		if k.MaxConn > 0 && k.MaxConn-1 < maxEvil {
			maxEvil = k.MaxConn - 1
		}
		if r.pc(evilPc) && evil < maxEvil {
			h.Evil = true
			evil++
		}
		for n := r.n(4); n > 0; n-- {
			if r.pc(badPc) || h.Evil && r.pc(30) {
				h.HS = append(h.HS, hsMode(r, pick(r, badHS...)))
			} else {
				h.HS = append(h.HS, goodHS(r))
			}
		}
		if len(h.HS) > 0 && r.pc(60) {
			h.HS = append(h.HS, goodHS(r))
		}
		if r.pc(5) {
			h.Mute = true
		}
		h.Hush = r.pc(40)
		h.Batch = r.pc(25)
		p.Hosts = append(p.Hosts, h)
	}
	// peers that hang up as soon as they are accepted, every time: they must
	// not keep the node from the others
	dropPc := map[string]int{"C02": 8, "C03": 10, "C07": 3, "C08": 5, "C14": 3}[p.Prop]
	if r.pc(dropPc) && nh > 0 && nh < 9 {
		n := pick(r, 1, 1, 2)
		if k.MaxConn > 0 {
			k.MaxConn = max(k.MaxConn, evil) + n + pick(r, 0, 1, nh)
		}
		p.End = min(p.End, 60000)
		for i := range p.Hosts { // nothing here takes long to fail in the end
			if h := &p.Hosts[i]; h.Evil {
				h.HS, h.State = nil, ""
			}
		}
		for i := 0; i < n; i++ {
			p.Hosts = append(p.Hosts, HostPlan{Addr: addrOf(r, 40+i), Known: true, Evil: true, Caps: 7, HS: []string{fmt.Sprintf("okdrop:%d", pick(r, 0, 0, 5, 300, 900))}})
		}
		if r.pc(70) {
			h := &p.Hosts[r.n(nh)]
			h.Known = true
			h.HS = append([]string{hsMode(r, pick(r, "close", "badver", "reset", "badgen"))}, h.HS...)
		}
	}
	// a crowd of peers that do not read: what the node has for them piles up
	deafPc := map[string]int{"C02": 10, "C04": 5, "C10": 12, "C13": 4}[p.Prop]
	deaf := nh > 1 && r.pc(deafPc)
	if deaf {
		n := pick(r, 2, 4, 9)
		k.MaxConn = n + pick(r, 2, 3, 5)
		k.Window = pick(r, 200, 700, 1500)
		if k.BaseLatU == 0 {
			k.BaseLatU = 100
		}
		for i := 0; i < n; i++ {
			p.Hosts = append(p.Hosts, HostPlan{Addr: addrOf(r, nh+i), Known: true, Evil: true, Deaf: true, Caps: 7})
		}
	}
	if nh > 0 && p.Prop != "C09" && p.Prop != "C14" {
		p.Hosts[r.n(nh)].Known = true
	}
	for i := range p.Hosts {
		h := &p.Hosts[i]
		if h.Evil || h.State == "slow" {
			continue
		}
		if r.pc(6) {
			h.Final = pick(r, "refuse", "blackhole")
			if p.droppers() {
				h.Final = "refuse"
			}
		}
	}
	// gossip
	for i := range p.Hosts {
		if !r.pc(35) && p.Prop != "C14" && p.Prop != "C08" {
			continue
		}
		h := &p.Hosts[i]
		h.Tell = true
		for n := r.n(6); n > 0; n-- {
			h.Goss = append(h.Goss, genAddr(p, r))
		}
	}
	if k.MaxConn == 0 && r.pc(60) {
		k.MaxConn = 15
	}
	if r.pc(50) {
		p.Init = append(p.Init, Step{Op: "chain", A: int64(r.n(20)), B: int64(r.n(60))})
	}
	n := pick(r, 3, 10, 25, 60)
	if (p.Prop == "C08" || p.Prop == "C14") && r.pc(3) { // very many bans
		p.End = max(p.End, 60000)
		at, base, many := r.i64(p.End/2), r.n(1000), int64(pick(r, 20, 70, 300, 1200))
		p.Steps = append(p.Steps, Step{At: at, Op: "banmany", A: many, B: int64(base)}, Step{At: at + 1000 + r.i64(10000), Op: "readd", A: 300})
	}
	if p.Prop == "C03" && r.pc(10) { // one new address from several sides at once
		for i := r.in(1, 3); i > 0; i-- {
			h := HostPlan{Addr: addrOf(r, len(p.Hosts)), Caps: 7}
			p.Hosts = append(p.Hosts, h)
			at := r.i64(p.End)
			if r.pc(60) { // as the node looks for whom to connect to
				at = at / 1000 * 1000
			}
			for j := r.in(2, 5); j > 0; j-- {
				p.Steps = append(p.Steps, Step{At: at + int64(r.n(2)*r.n(2)), H: r.n(nh), Op: pick(r, "add", "add", "gossip"), S: h.Addr})
			}
		}
		k.StallPm = pick(r, k.StallPm, 5, 20)
	}
	if p.Prop == "C14" && r.pc(5) { // about as many addresses as a list holds
		k.TableSize = pick(r, 0, 0, 256, 200, 300)
		p.End = max(p.End, 60000)
		for i := r.in(1, 2); i > 0; i-- {
			p.Steps = append(p.Steps, Step{At: r.i64(p.End), H: r.n(nh), Op: "gossmany", A: int64(pick(r, 256, 256, 255, 250, 257, 300, 600)), B: int64(r.n(1000)), K: pick(r, 1, 4, 6, 7)})
		}
	}
	if deaf {
		p.End = max(p.End, 60000)
		for i := r.in(5, 30); i > 0; i-- {
			h := uint64(1000 + 10*i)
			p.Steps = append(p.Steps, Step{At: 20000 + r.i64(p.End-20000), H: r.n(nh), Op: "blk", A: int64(pick(r, vTop, vTop, vSide)), B: int64(h), C: int64(h), K: 1})
		}
	}
	if p.Prop == "C05" && r.pc(3) { // one frame near the largest there may be
		k.FragPm, k.ShortPm, k.Split, k.Window = 0, 0, false, 0
		s := Step{At: r.i64(p.End + 1), H: r.n(nh), Op: "tx", A: int64(pick(r, vSide, vReject)), K: pick(r, 1, 1, 2, 3)}
		if r.pc(40) {
			s.Op, s.B, s.C, s.K = "blk", int64(r.n(20)), int64(r.n(60)), s.K+3
		}
		p.Steps = append(p.Steps, s)
		if r.pc(40) { // more on one connection than the largest frame
			s.A = int64(vSide)
			p.Steps[len(p.Steps)-1] = s
			s.At = min(s.At+int64(r.n(1000)), p.End)
			p.Steps = append(p.Steps, s)
		}
		n = 5
	}
	for i := 0; i < n; i++ {
		s := genStep(p, r)
		p.Steps = append(p.Steps, s)
		// a rejection competes with what others ask and tell
		if (p.Prop == "C02" || p.Prop == "C08") && (s.Op == "blk" || s.Op == "tx" || s.Op == "hdrs") && rejects(int(s.A)) && r.pc(50) {
			c := genStep(p, r)
			c.Op, c.S = pick(r, "gossip", "gossip", "add", "getpeers"), genAddr(p, r)
			c.At, c.A, c.K = max(0, s.At+int64(pick(r, 0, 0, 0, 1, -1))), int64(pick(r, 0, 7)), 0
			p.Steps = append(p.Steps, c)
		}
		// a ban competes with something else about the same address
		for s.Op == "ban" && r.pc(60) {
			c := Step{At: s.At, H: s.H, Op: pick(r, "add", "gossip", "peers", "close", "ban", "getpeers"), S: s.S}
			c.At += int64(pick(r, 0, 0, 0, 1, -1))
			if c.At < 0 || c.At > p.End {
				c.At = s.At
			}
			if c.Op == "gossip" && strings.Contains(c.S, "example") {
				c.Op = "add"
			}
			p.Steps = append(p.Steps, c)
		}
	}
	// bursts: several steps at one instant
	if r.pc(50) {
		at := r.i64(p.End + 1)
		for i := r.in(2, 8); i > 0; i-- {
			s := genStep(p, r)
			s.At = at
			p.Steps = append(p.Steps, s)
		}
	}
	sortSteps(p.Steps)
	switch p.Prop {
	case "C09":
		s := Step{Op: "stop", At: p.End}
		if r.pc(40) {
			s.At = r.i64(p.End + 1)
		}
		p.Steps = append(p.Steps, s)
		sortSteps(p.Steps)
		if r.pc(20) { // from the settled state
			p.Mode = "stopend"
			p.Steps = p.Steps[:0]
		}
	case "C01":
		p.Mode = "mem"
	case "C13", "C07":
		switch x := r.n(100); {
		case x < 30:
			p.Mode = "stopend"
		case x < 55 && p.Prop == "C13": // stopped while everything goes on
			at := pick(r, r.i64(p.End+1), r.i64(p.End/1000+1)*1000)
			p.Steps = append(p.Steps, Step{Op: "stop", At: at})
			for i := r.in(3, 25); i > 0; i-- {
				c := genStep(p, r)
				if r.pc(70) {
					c.Op, c.S = pick(r, "add", "gossip", "gossip", "ban", "peers", "close"), genAddr(p, r)
				}
				c.At = pick(r, at, at, at+1, (at/1000+1)*1000, at+int64(r.n(1200)))
				p.Steps = append(p.Steps, c)
			}
			sortSteps(p.Steps)
		}
	}
}

func genAddr(p *Plan, r *rnd) string {
	if r.pc(25) {
		return pick(r, oddAddrs...)
	}
	if r.pc(60) && len(p.Hosts) > 0 {
		return p.Hosts[r.n(len(p.Hosts))].Addr
	}
	return addrOf(r, 20+r.n(200))
}

type wop struct {
	w  int
	op string
}

var baseOps = []wop{{6, "ping"}, {3, "pong"}, {4, "getpeers"}, {3, "gossip"}, {4, "gethdr"}, {4, "getblk"}, {2, "hdr"}, {2, "hdrs"},
	{3, "blk"}, {3, "tx"}, {1, "cmpct"}, {1, "getcmpct"}, {1, "bad"}, {1, "raw"}, {1, "cut"}, {1, "half"}, {2, "close"}, {1, "abort"},
	{1, "pause"}, {2, "resume"}, {1, "drip"}, {1, "reset"}, {1, "state"}, {1, "part"}, {1, "unpart"}, {2, "chain"}, {1, "jump"}, {1, "add"}, {1, "peers"}}

var propOps = map[string][]wop{
	"C01": {{12, "bad"}, {6, "raw"}, {3, "cut"}, {3, "flood"}, {2, "pause"}, {4, "tx"}},
	"C02": {{5, "flood"}, {5, "pause"}, {3, "floodblk"}, {3, "raw"}, {3, "bad"}, {6, "ping"}, {6, "getblk"}, {6, "gethdr"}, {2, "stick"}, {3, "drip"}, {4, "gossip"}, {3, "blk"}, {3, "tx"}, {3, "hdrs"}, {2, "getpeers"}, {2, "ban"}},
	"C03": {{2, "ban"}, {2, "banhs"}, {8, "close"}, {5, "abort"}, {6, "state"}, {3, "reset"}, {3, "half"}, {4, "add"}, {3, "part"}, {3, "unpart"}, {1, "bad"}},
	"C04": {{15, "ping"}, {10, "getpeers"}, {10, "gethdr"}, {10, "getblk"}, {10, "chain"}, {3, "flood"}, {3, "pause"}, {5, "resume"}, {3, "blk"}},
	"C05": {{8, "hdr"}, {8, "hdrs"}, {8, "blk"}, {8, "tx"}, {8, "bad"}, {4, "cut"}, {5, "getblk"}, {5, "gethdr"}, {3, "cmpct"}},
	"C06": {{1, "ban"}, {2, "banhs"}, {3, "close"}, {2, "state"}, {3, "add"}},
	"C07": {{8, "close"}, {6, "abort"}, {5, "half"}, {4, "cut"}, {4, "bad"}, {4, "pause"}, {4, "flood"}, {4, "reset"}, {3, "resume"}},
	"C08": {{8, "hdrs"}, {8, "blk"}, {8, "tx"}, {6, "ban"}, {4, "banhs"}, {6, "gossip"}, {5, "getpeers"}, {4, "peers"}, {4, "close"}, {4, "add"}},
	"C09": {{3, "ban"}, {2, "banhs"}, {3, "pause"}, {3, "flood"}, {3, "blk"}, {2, "floodblk"}, {2, "prop"}},
	"C10": {{25, "blk"}, {15, "pong"}, {8, "ping"}, {6, "chain"}, {2, "pause"}, {3, "resume"}},
	"C13": {{8, "blk"}, {6, "peers"}, {3, "ban"}, {2, "banhs"}, {6, "close"}, {6, "gossip"}, {6, "getpeers"}, {6, "hdrs"}, {4, "tx"}, {6, "chain"}, {2, "prop"}, {4, "add"}},
	"C14": {{12, "gossip"}, {10, "getpeers"}, {10, "peers"}, {8, "add"}, {3, "ban"}, {4, "close"}, {4, "state"}},
}

func rejectPc(p *Plan) int {
	switch p.Prop {
	case "C08":
		return 25
	case "C10", "C13":
		return 12
	case "C02":
		return 15
	case "C04", "C05":
		return 3
	}
	return 8
}

func genVerdict(p *Plan, r *rnd) int64 {
	if r.pc(rejectPc(p)) {
		return int64(pick(r, vReject, vReject, vSlowReject))
	}
	return int64(pick(r, vTop, vTop, vTop, vSide, vSide, vSlowTop))
}

func genStep(p *Plan, r *rnd) Step {
	ops := append(append([]wop(nil), baseOps...), propOps[p.Prop]...)
	t := 0
	for _, o := range ops {
		t += o.w
	}
	x := r.n(t)
	op := ""
	for _, o := range ops {
		if x -= o.w; x < 0 {
			op = o.op
			break
		}
	}
	s := Step{At: r.i64(p.End + 1), Op: op, H: r.n(len(p.Hosts) + 1)}
	if len(p.Hosts) > 0 {
		s.H = r.n(len(p.Hosts))
	}
	evil := len(p.Hosts) > 0 && p.Hosts[s.H].Evil
	switch op {
	case "ping", "pong":
		s.A, s.B = int64(r.n(60)), int64(r.n(20))
	case "getpeers":
		s.A = int64(pick(r, 0, 0, 7, 1, 4, 2, 8, 1<<31))
	case "peers":
		s.A = int64(pick(r, 0, 0, 7, 1, 4, 8))
	case "gossip":
		var as []string
		for n := r.n(5); n >= 0; n-- {
			as = append(as, genAddr(p, r))
		}
		if r.pc(6) {
			for n := r.n(250); n > 0; n-- {
				as = append(as, addrOf(r, 100+n))
			}
		}
		s.S = strings.Join(as, ",")
	case "gethdr":
		s.A, s.B = int64(pick(r, 1, 1, 2, 14, 0)), int64(pick(r, 0, 1, 3, 40, 512))
		if k := p.Knobs.Window; k > 0 && k < 1000 && s.B > 40 {
			s.B = 40
		}
	case "getblk":
		s.A = int64(pick(r, 0, 1, 2, 2, 3, 4))
	case "hdr":
		s.A, s.B, s.C = int64(vSide), int64(r.n(20)), int64(r.n(60))
	case "hdrs":
		s.A, s.B, s.C = genVerdict(p, r), int64(pick(r, 0, 1, 2, 5, 30, 512)), int64(r.n(512))
	case "blk":
		s.A, s.B, s.C, s.K = genVerdict(p, r), int64(r.n(20)), int64(r.n(60)), pick(r, 0, 1, 1, 2, 2, 3)
	case "tx":
		s.A = genVerdict(p, r)
		if p.Knobs.NilMempool {
			s.A = vSide
		}
	case "bad":
		s.K = r.n(len(badNames))
		if p.Prop != "C01" && p.Prop != "C05" && !strictKind(s.K) {
			s.K = pickStrict(r.n(1000))
		}
	case "raw":
		s.A, s.B, s.C, s.K = int64(r.n(1<<20)), int64(pick(r, 1, 10, 11, 12, 100, 600)), int64(r.n(2)), r.n(24)
	case "cut":
		s.A, s.K = int64(r.n(2000)), r.n(3)
	case "close":
		s.A = int64(pick(r, 0, 0, 1, 50))
	case "drip":
		s.A = int64(pick(r, 0, 1, 20, 300))
	case "flood":
		s.A = int64(pick(r, 20, 60, 150))
		if !evil && p.Prop != "C04" && p.Prop != "C07" {
			s.A = 20
		}
		if !evil && p.Prop == "C04" && r.pc(4) {
			s.A = 3000
		}
	case "floodblk":
		s.A = int64(pick(r, 5, 20))
	case "state":
		s.S = pick(r, "up", "up", "refuse", "blackhole", "slow")
	case "chain":
		s.A, s.B = int64(r.n(20)), int64(r.n(60))
	case "jump":
		s.A = int64(pick(r, -3600000, 3600000, -1000, 1000, 86400000*365, -86400000*365, 700000))
	case "add":
		s.S = genAddr(p, r)
		if r.pc(10) {
			s.S = pick(r, "nonsense", ":8080", "10.1.1.1", "10.1.1.1:99999", "nosuch.example:33", "[::1", "")
		}
	case "banhs":
		s.At /= int64(pick(r, 1, 20)) // most handshakes are early
		s.A = int64(pick(r, 0, 0, 1, 50, r.n(6000)))
	case "ban":
		s.S = genAddr(p, r)
		if len(p.Hosts) > 0 && r.pc(70) {
			h := p.Hosts[r.n(len(p.Hosts))]
			s.S = h.Addr
			if h.Name != "" && r.pc(50) {
				s.S = h.Name
			}
		}
	case "prop":
		s.A, s.B, s.K = int64(r.n(20)), int64(r.n(60)), r.n(100)
	}
	return s
}
