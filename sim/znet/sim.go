//go:build go1.24

// Package znet replaces package net in instrumented code: a simulated TCP
// network with latency, fragmentation, flow control, half-close, resets,
// partitions, refused and black-holed dials, deadlines and a small DNS.
package znet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"
	"unsafe"

	"github.com/dblokhin/gringo/zzsim/zmark"
	"github.com/dblokhin/gringo/zzsim/ztime"
	"github.com/dblokhin/gringo/zzsim/zzrt"
)

// Net is the simulated network of one run.
type Net struct {
	hosts    []*Host
	Conns    []*Pipe
	Dials    []*DialRec
	DNS      []dnsEnt
	Cfg      Cfg
	ephem    int
	OnClose  func(c *TCPConn) // a node endpoint was closed (invariants)
	OnOpen   func(c *TCPConn)
	Resolves int64
}

type dnsEnt struct {
	name string
	ip   net.IP
	lat  int64
}

// Cfg holds the fault rates of the network.
type Cfg struct {
	LatPm   int   // per-mille chance that a segment is delayed
	FragPm  int   // per-mille chance that a write is fragmented
	Split   bool  // reads stop where a write ended, as TCP may but need not
	ShortPm int   // per-mille chance that a read returns less than available
	WErrPm  int   // per-mille chance that a node write fails part way
	ResetPm int   // per-mille chance that a node read or write hits a reset
	Window  int   // flow-control window in bytes
	BaseLat int64 // ns
}

// DialRec is one outbound connection attempt.
type DialRec struct {
	Owner  int
	Addr   string
	At     int64
	End    int64 // -1 while pending
	Result string
	Pipe   *Pipe
}

// HostState says how a host answers dials.
type HostState int

// Host states.
const (
	HostUp HostState = iota
	HostRefuse
	HostBlackhole
	HostSlow
	HostGone
)

// Host is a dialable address.
type Host struct {
	Addr     string
	State    HostState
	Delay    int64
	Part     bool // partitioned from the node: nothing is delivered
	OnAccept func(c *TCPConn)
	l        *simListener
	Dials    int
}

// N is the network of the running simulation.
var N *Net

// New makes a network and installs it.
func New() *Net {
	N = &Net{ephem: 40000}
	N.Cfg.Window = 64 << 10
	return N
}

// AddHost registers a dialable address.
func (n *Net) AddHost(addr string, onAccept func(c *TCPConn)) *Host {
	h := &Host{Addr: addr, OnAccept: onAccept}
	n.hosts = append(n.hosts, h)
	return h
}

// AddDNS registers a name.
func (n *Net) AddDNS(name string, ip net.IP, lat int64) {
	n.DNS = append(n.DNS, dnsEnt{name, ip, lat})
}

// Lookup finds a host.
func (n *Net) Lookup(addr string) *Host {
	for _, h := range n.hosts {
		if h.Addr == addr {
			return h
		}
	}
	return nil
}

type seg struct {
	b []byte
	i int
}

// half is one direction of a connection.
type half struct {
	q        []seg // readable
	inflight int   // bytes accepted, not yet readable
	buffered int
	lastAt   int64
	pend     []*pend // undelivered, in order
	fin      bool    // FIN readable after q
	rst      bool    // reset after q
	held     bool    // receiver is not reading and the window is shut
	Total    int64   // bytes accepted
	Read     int64   // bytes read by the receiver
	rw       byte    // wait address: reader
	ww       byte    // wait address: writer
}

type pend struct {
	b    []byte
	fin  bool
	rst  bool
	done bool
}

// Pipe is a connection: A is the dialling end, B the accepting one.
type Pipe struct {
	ID      int
	A, B    *TCPConn
	ab, ba  half
	Window  int
	Host    *Host
	OpenAt  int64
	Stuck   bool // partition of this connection alone
	Reseted bool // reset from outside, not by writing to a closed end
	waiters []*flight
}

type flight struct {
	h *half
	p *pend
}

// TCPConn is one end of a connection.
type TCPConn struct {
	P         *Pipe
	Owner     int
	isA       bool
	laddr     *net.TCPAddr
	raddr     *net.TCPAddr
	closed    bool
	ClosedAt  int64
	CloseStep int64
	wshut     bool
	rdl       int64 // deadlines, -1 none
	wdl       int64
	werr      error
	WErrInj   bool // a write error was injected here
	Closes    int
	Tag       any
	wbusy     bool // one write and one read at a time, as in package net
	rbusy     bool
	wq, rq    byte
	NoFault   bool
}

func (c *TCPConn) in() *half {
	if c.isA {
		return &c.P.ba
	}
	return &c.P.ab
}
func (c *TCPConn) out() *half {
	if c.isA {
		return &c.P.ab
	}
	return &c.P.ba
}

// Peer is the other end.
func (c *TCPConn) Peer() *TCPConn {
	if c.isA {
		return c.P.B
	}
	return c.P.A
}

// Closed says whether this end was closed locally.
func (c *TCPConn) Closed() bool { return c.closed }

// BytesTo is the number of bytes this end has accepted for sending.
func (c *TCPConn) BytesTo() int64 { return c.out().Total }

// Unread is the number of bytes sent to this end and not yet read by it.
func (c *TCPConn) Unread() int { return c.in().buffered + c.in().inflight }

// ReadCount is the number of bytes read at this end.
func (c *TCPConn) ReadCount() int64 { return c.in().Read }

func (n *Net) connect(owner int, h *Host, la, ra *net.TCPAddr) (*TCPConn, *TCPConn) {
	p := &Pipe{ID: len(n.Conns), Window: n.Cfg.Window, Host: h, OpenAt: zzrt.Now()}
	p.A = &TCPConn{P: p, Owner: owner, isA: true, laddr: la, raddr: ra, rdl: -1, wdl: -1}
	p.B = &TCPConn{P: p, laddr: ra, raddr: la, rdl: -1, wdl: -1}
	n.Conns = append(n.Conns, p)
	return p.A, p.B
}

// Pair makes an established connection: the harness end and the node's
// accepted end.
func (n *Net) Pair(owner int, from, to *net.TCPAddr) (harness, node *TCPConn) {
	a, b := n.connect(0, nil, from, to)
	b.Owner = owner
	return a, b
}

func (p *Pipe) parted() bool { return p.Stuck || (p.Host != nil && p.Host.Part) }

// deliver moves pending data that has arrived into the readable queue.
func (p *Pipe) deliver(h *half) {
	if p.parted() {
		return
	}
	for len(h.pend) > 0 && h.pend[0].done {
		x := h.pend[0]
		h.pend = h.pend[1:]
		if x.fin {
			h.fin = true
		} else if x.rst {
			h.rst = true
			h.pend = nil
		} else {
			h.q = append(h.q, seg{b: x.b})
			h.inflight -= len(x.b)
			h.buffered += len(x.b)
		}
	}
	zzrt.Wake(unsafe.Pointer(&h.rw))
	zzrt.Wake(unsafe.Pointer(&h.ww))
}

// Heal re-delivers everything that arrived during a partition.
func (n *Net) Heal() {
	for _, p := range n.Conns {
		p.deliver(&p.ab)
		p.deliver(&p.ba)
	}
}

// Widen enlarges the flow-control window of a connection.
func (p *Pipe) Widen(w int) {
	if w > p.Window {
		p.Window = w
		zzrt.Wake(unsafe.Pointer(&p.ab.ww))
		zzrt.Wake(unsafe.Pointer(&p.ba.ww))
	}
}

var lats = []int64{0, 100e3, 5e6, 80e6, 900e6, 5e9}

func (p *Pipe) push(h *half, x *pend) {
	lat := N.Cfg.BaseLat
	s := zzrt.Cur
	if N.Cfg.LatPm > 0 && !s.FaultsOff {
		if d := s.Choose(zzrt.KNet, len(lats), N.Cfg.LatPm); d != 0 {
			lat += lats[d]
			zzrt.Count(zzrt.CLatency)
		}
	}
	h.pend = append(h.pend, x)
	at := zzrt.Now() + lat
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	if at <= zzrt.Now() {
		x.done = true
		p.deliver(h)
		return
	}
	zzrt.At(at, func() {
		x.done = true
		p.deliver(h)
	})
}

func (c *TCPConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

// Read reads.
func (c *TCPConn) Read(b []byte) (int, error) {
	zzrt.Point(50)
	for c.rbusy {
		zzrt.Wait(unsafe.Pointer(&c.rq), "net read lock")
	}
	c.rbusy = true
	n, err := c.read(b)
	c.rbusy = false
	zzrt.Wake(unsafe.Pointer(&c.rq))
	return n, err
}

func (c *TCPConn) read(b []byte) (int, error) {
	h := c.in()
	c.maybeReset()
	for {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if c.rdl >= 0 && zzrt.Now() >= c.rdl {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(h.q) > 0 {
			n := len(h.q[0].b) - h.q[0].i
			if !N.Cfg.Split {
				n = h.buffered
			}
			if n > len(b) {
				n = len(b)
			}
			if N.Cfg.ShortPm > 0 && n > 1 && c.Owner > 0 && !zzrt.Cur.FaultsOff {
				if zzrt.Cur.Choose(zzrt.KNet, 2, N.Cfg.ShortPm) != 0 {
					n = 1 + zzrt.Cur.EnvN(n-1)
					zzrt.Count(zzrt.CFrag)
				}
			}
			zzrt.RaceWriteRange(unsafe.Pointer(&b[0]), n)
			for d := 0; d < n; {
				s := &h.q[0]
				k := copy(b[d:n], s.b[s.i:])
				d += k
				s.i += k
				if s.i == len(s.b) {
					h.q[0] = seg{}
					h.q = h.q[1:]
				}
			}
			h.buffered -= n
			h.Read += int64(n)
			zzrt.Wake(unsafe.Pointer(&h.ww))
			return n, nil
		}
		if h.rst {
			return 0, c.opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if h.fin {
			return 0, io.EOF
		}
		zzrt.WaitUntil(unsafe.Pointer(&h.rw), "net read", c.rdl)
	}
}

// maybeReset injects a connection reset at a node's operation.
func (c *TCPConn) maybeReset() {
	if c.Owner == 0 || c.closed || c.NoFault || N.Cfg.ResetPm == 0 || zzrt.Cur.FaultsOff {
		return
	}
	if zzrt.Cur.Choose(zzrt.KFault, 2, N.Cfg.ResetPm) != 0 {
		zzrt.Count(zzrt.CReset)
		c.P.Reset()
	}
}

// Write writes.
func (c *TCPConn) Write(b []byte) (int, error) {
	zzrt.Point(51)
	if len(b) > 0 {
		zzrt.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
	for c.wbusy {
		zzrt.Wait(unsafe.Pointer(&c.wq), "net write lock")
	}
	c.wbusy = true
	n, err := c.write(b)
	c.wbusy = false
	zzrt.Wake(unsafe.Pointer(&c.wq))
	return n, err
}

func (c *TCPConn) write(b []byte) (int, error) {
	c.maybeReset()
	h := c.out()
	done := 0
	counted := false
	limit := -1
	var errno error
	if c.Owner > 0 && !c.NoFault && N.Cfg.WErrPm > 0 && !zzrt.Cur.FaultsOff {
		if k := zzrt.Cur.Choose(zzrt.KFault, 5, N.Cfg.WErrPm); k != 0 {
			limit = len(b) * (k - 1) / 4 // 0, 1/4, 1/2, 3/4 of the data
			errno = []error{syscall.EPIPE, syscall.ECONNRESET, syscall.ETIMEDOUT, syscall.EHOSTUNREACH}[k-1]
		}
	}
	for {
		if c.closed || c.wshut {
			return done, c.opErr("write", net.ErrClosed)
		}
		if c.werr != nil {
			return done, c.opErr("write", c.werr)
		}
		if c.in().rst {
			return done, c.opErr("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if c.wdl >= 0 && zzrt.Now() >= c.wdl {
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if limit >= 0 && done >= limit {
			c.WErrInj = true
			zzrt.Count(zzrt.CWriteErr)
			if done > 0 {
				zzrt.Count(zzrt.CShortWrite)
			}
			c.werr = os.NewSyscallError("write", errno)
			c.P.Reset()
			continue
		}
		if done == len(b) {
			return done, nil
		}
		peer := c.Peer()
		if peer.closed {
			// The remote is gone: the data is taken, a reset comes back.
			h.Total += int64(len(b) - done)
			c.in().pend = append(c.in().pend, &pend{rst: true, done: true})
			c.P.deliver(c.in())
			return len(b), nil
		}
		room := c.P.Window - h.inflight - h.buffered
		if room <= 0 || (room < c.P.Window/4 && room < len(b)-done) { // no silly windows
			if !counted {
				counted = true
				zzrt.Count(zzrt.CWindow)
			}
			zzrt.WaitUntil(unsafe.Pointer(&h.ww), "net write", c.wdl)
			continue
		}
		n := len(b) - done
		if n > room {
			n = room
		}
		if limit >= 0 && n > limit-done {
			n = limit - done
		}
		if N.Cfg.FragPm > 0 && n > 1 && !zzrt.Cur.FaultsOff {
			if k := zzrt.Cur.Choose(zzrt.KNet, 6, N.Cfg.FragPm); k != 0 {
				zzrt.Count(zzrt.CFrag)
				switch k {
				case 1:
					if len(b) > 4096 && done > 64 {
						n = n/4 + 1
					} else {
						n = 1
					}
				case 2:
					n = (n + 1) / 2
				case 3:
					if n > 11 && (len(b) <= 4096 || done == 0) {
						n = 11
					}
				case 4:
					n = n - 1
				default:
					n = 1 + zzrt.Cur.EnvN(n-1)
				}
			}
		}
		x := &pend{b: append([]byte(nil), b[done:done+n]...)}
		h.inflight += n
		h.Total += int64(n)
		done += n
		c.P.push(h, x)
		if done < len(b) {
			zzrt.Point(52)
		}
	}
}

// Reset breaks the connection in both directions now.
func (p *Pipe) Reset() {
	p.Reseted = true
	for _, h := range []*half{&p.ab, &p.ba} {
		h.pend = nil
		h.inflight = 0
		h.rst = true
		zzrt.Wake(unsafe.Pointer(&h.rw))
		zzrt.Wake(unsafe.Pointer(&h.ww))
	}
}

// Broken says the pipe was reset.
func (p *Pipe) Broken() bool { return p.ab.rst || p.ba.rst }

// Close closes this end.
func (c *TCPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	if zzrt.Dead() {
		return nil
	}
	zzrt.Point(53)
	c.Closes++
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = zzrt.Now()
	c.CloseStep = zzrt.Cur.Steps()
	if !c.wshut && !c.out().rst {
		c.P.push(c.out(), &pend{fin: true})
	}
	// Our own blocked reader and writer return.
	zzrt.Wake(unsafe.Pointer(&c.in().rw))
	zzrt.Wake(unsafe.Pointer(&c.out().ww))
	// A remote writer blocked on our window gets through (and then a reset).
	zzrt.Wake(unsafe.Pointer(&c.in().ww))
	if N.OnClose != nil && c.Owner > 0 {
		zmark.Do(func() { N.OnClose(c) })
	}
	zzrt.Point(54)
	return nil
}

// CloseWrite half-closes.
func (c *TCPConn) CloseWrite() error {
	zzrt.Point(55)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	if !c.wshut {
		c.wshut = true
		c.P.push(c.out(), &pend{fin: true})
	}
	return nil
}

// CloseRead is accepted and ignored.
func (c *TCPConn) CloseRead() error { return nil }

// Abort resets the connection from this end.
func (c *TCPConn) Abort() {
	zzrt.Count(zzrt.CReset)
	c.P.Reset()
	c.closed = true
}

// LocalAddr and the following are as in package net.
func (c *TCPConn) LocalAddr() net.Addr  { return c.laddr }
func (c *TCPConn) RemoteAddr() net.Addr { return c.raddr }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return -1
	}
	at := zzrt.Now() + int64(t.Sub(ztime.Now()))
	if at < 0 {
		at = 0
	}
	return at
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	zzrt.Point(56)
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.rdl = dl(t)
	zzrt.Wake(unsafe.Pointer(&c.in().rw))
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.wdl = dl(t)
	zzrt.Wake(unsafe.Pointer(&c.out().ww))
	return nil
}
func (c *TCPConn) SetKeepAlive(bool) error                      { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error       { return nil }
func (c *TCPConn) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                        { return nil }
func (c *TCPConn) SetLinger(int) error                          { return nil }
func (c *TCPConn) SetReadBuffer(int) error                      { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                     { return nil }

// --- dialling ---

const dialTimeout = int64(127e9)

func dialTCP(laddr, raddr *net.TCPAddr, timeoutAt int64, what string) (*TCPConn, error) {
	zzrt.Point(57)
	n := N
	ra := raddr
	addr := (&net.TCPAddr{IP: ra.IP, Port: ra.Port, Zone: ra.Zone}).String()
	rec := &DialRec{Owner: zzrt.CurOwner(), Addr: addr, At: zzrt.Now(), End: -1}
	n.Dials = append(n.Dials, rec)
	h := n.Lookup(addr)
	fail := func(e error, s string) (*TCPConn, error) {
		rec.End, rec.Result = zzrt.Now(), s
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: ra, Err: e}
	}
	sleepTo := func(d int64) bool { // false: dial timeout first
		at := zzrt.Now() + d
		if timeoutAt >= 0 && timeoutAt < at {
			zzrt.Sleep(timeoutAt - zzrt.Now())
			return false
		}
		zzrt.Sleep(d)
		return true
	}
	if h != nil {
		h.Dials++
	}
	if h == nil || h.State == HostRefuse {
		zzrt.Count(zzrt.CRefuse)
		if !sleepTo(n.Cfg.BaseLat * 2) {
			return fail(os.ErrDeadlineExceeded, "timeout")
		}
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED), "refused")
	}
	if h.State == HostSlow {
		zzrt.Count(zzrt.CDelayDial)
		if !sleepTo(h.Delay) {
			return fail(os.ErrDeadlineExceeded, "timeout")
		}
	}
	if h.State == HostBlackhole || h.State == HostGone || h.Part {
		zzrt.Count(zzrt.CBlackhole)
		// A SYN is retried until the kernel gives up; a heal lets it through.
		end := rec.At + dialTimeout
		for zzrt.Now() < end {
			if !sleepTo(1e9) {
				return fail(os.ErrDeadlineExceeded, "timeout")
			}
			if h.State != HostBlackhole && h.State != HostGone && !h.Part {
				break
			}
		}
		if zzrt.Now() >= end {
			return fail(os.NewSyscallError("connect", syscall.ETIMEDOUT), "timeout")
		}
		if h.State == HostRefuse {
			return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED), "refused")
		}
	}
	if n.Cfg.BaseLat > 0 {
		zzrt.Sleep(n.Cfg.BaseLat)
	}
	n.ephem++
	la := laddr
	if la == nil || la.Port == 0 {
		la = &net.TCPAddr{IP: net.IPv4(10, 255, 0, 1), Port: 30000 + n.ephem%30000}
	}
	a, b := n.connect(zzrt.CurOwner(), h, la, ra)
	rec.End, rec.Result, rec.Pipe = zzrt.Now(), "ok", a.P
	if n.OnOpen != nil && a.Owner > 0 {
		zmark.Do(func() { n.OnOpen(a) })
	}
	if h.l != nil {
		b.Owner = h.l.owner
		h.l.q = append(h.l.q, b)
		zzrt.Wake(unsafe.Pointer(h.l))
	} else if h.OnAccept != nil {
		f := h.OnAccept
		zzrt.SpawnSched(0, "peer@"+h.Addr, func() { f(b) })
	}
	zzrt.Point(58)
	return a, nil
}

// DialTCP dials.
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	return dialTCP(laddr, raddr, -1, "tcp")
}

// Dial dials.
func Dial(network, address string) (net.Conn, error) {
	var d Dialer
	return d.Dial(network, address)
}

// DialTimeout dials with a timeout.
func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	d := Dialer{Timeout: timeout}
	return d.Dial(network, address)
}

// Dialer is net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
}

// Dial dials.
func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

// DialContext dials; of the context only its deadline is honoured.
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	at := int64(-1)
	if d.Timeout > 0 {
		at = zzrt.Now() + int64(d.Timeout)
	}
	if !d.Deadline.IsZero() {
		if x := dl(d.Deadline); at < 0 || x < at {
			at = x
		}
	}
	if t, ok := ctx.Deadline(); ok {
		if x := dl(t); at < 0 || x < at {
			at = x
		}
	}
	if ctx.Err() != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: ctx.Err()}
	}
	ra, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	la, _ := d.LocalAddr.(*net.TCPAddr)
	c, err := dialTCP(la, ra, at, network)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// ResolveTCPAddr resolves literal addresses for real and names in the simulated DNS.
func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	if N != nil {
		N.Resolves++
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		if address == "" {
			return net.ResolveTCPAddr(network, address)
		}
		return nil, &net.AddrError{Err: "missing port in address", Addr: address}
	}
	lit := host
	for i := 0; i < len(lit); i++ {
		if lit[i] == '%' {
			lit = lit[:i]
			break
		}
	}
	if host == "" || net.ParseIP(lit) != nil {
		return net.ResolveTCPAddr(network, address)
	}
	zzrt.Point(59)
	pn, err := strconv.Atoi(port)
	if err != nil || pn < 0 || pn > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: port}
	}
	if N != nil {
		for _, d := range N.DNS {
			if d.name == host {
				if d.lat > 0 {
					zzrt.Sleep(d.lat)
				}
				if d.ip == nil {
					break
				}
				return &net.TCPAddr{IP: d.ip, Port: pn}, nil
			}
		}
	}
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}

// --- listening ---

type simListener struct {
	addr   *net.TCPAddr
	owner  int
	q      []*TCPConn
	closed bool
}

// TCPListener is a simulated listener.
type TCPListener = simListener

// Listen listens.
func Listen(network, address string) (net.Listener, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	return ListenTCP(network, a)
}

// ListenTCP listens.
func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	l := &simListener{addr: a, owner: zzrt.CurOwner()}
	key := (&net.TCPAddr{IP: a.IP, Port: a.Port}).String()
	h := N.Lookup(key)
	if h == nil {
		h = N.AddHost(key, nil)
	}
	h.l = l
	return l, nil
}
func (l *simListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *simListener) AcceptTCP() (*TCPConn, error) {
	zzrt.Point(59)
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			break
		}
		zzrt.Wait(unsafe.Pointer(l), "accept")
	}
	c := l.q[0]
	l.q = l.q[1:]
	return c, nil
}
func (l *simListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.q { // what nobody accepted is reset
		c.closed = true
		c.P.Reset()
	}
	l.q = nil
	zzrt.Wake(unsafe.Pointer(l))
	return nil
}
func (l *simListener) Addr() net.Addr              { return l.addr }
func (l *simListener) SetDeadline(time.Time) error { return nil }

// OpenOwned counts connections whose node end (either side) is open.
func (n *Net) OpenOwned(owner int) int {
	k := 0
	for _, p := range n.Conns {
		for _, c := range []*TCPConn{p.A, p.B} {
			if c.Owner == owner && !c.closed {
				k++
			}
		}
	}
	return k
}
