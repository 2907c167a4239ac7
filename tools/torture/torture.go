package p2p

import (
	"context"
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type tchan chan struct{}
type fifo <-chan int
type box struct {
	sync.RWMutex
	m    map[string]int
	once sync.Once
	c    *sync.Cond
	v    atomic.Value
	n    atomic.Int64
	b    atomic.Bool
	wg   *sync.WaitGroup
	ch   []chan int
	hook func(int) (int, error)
}

func (b *box) add(k string, n int) { b.Lock(); defer b.Unlock(); b.m[k] += n }

var tglob = func() map[string]int { return map[string]int{"x": 1} }()
var tcount int
var tsem = make(chan struct{}, 3)

var tready = func() chan int { c := make(chan int); close(c); return c }()
var tfull = make(chan string, 4)
var tsendonly chan<- string

func init() {
	tcount = len(tglob)
	tfull <- "a"
	tfull <- "b"
	tsendonly = tfull
}

// early uses channels that were used while the package was initialised.
func early(o *strings.Builder) {
	select {
	case _, ok := <-tready:
		fmt.Fprintln(o, "ready", ok)
	default:
		fmt.Fprintln(o, "not ready")
	}
	fmt.Fprintln(o, len(tfull))
	tsendonly <- "c"
	fmt.Fprintln(o, <-tfull, <-tfull, <-tfull, len(tfull))
}

func term1(c chan int) int {
	select {
	case v := <-c:
		return v
	}
}

func term2(c chan int) int {
	for {
		select {
		case v, ok := <-c:
			if !ok {
				return -1
			}
			if v > 3 {
				return v
			}
		}
	}
}

func forever() int {
	select {}
}

func lens(o *strings.Builder) {
	a := make(chan struct{}, 4)
	var b chan<- struct{} = a
	var c <-chan struct{} = a
	d := make(tchan, 2)
	a <- struct{}{}
	b <- struct{}{}
	d <- struct{}{}
	var nilc chan int
	fmt.Fprint(o, len(a), len(b), len(c), len(d), cap(d), cap(b), len(nilc), len(tsem), " ")
	<-c
	fmt.Fprint(o, len(a), "\n")
}

func labels(o *strings.Builder) {
	q := make(chan int, 10)
	done := make(chan bool)
	go func() {
		defer close(done)
	outer:
		for i := 0; ; i++ {
			select {
			case q <- i * i:
				switch {
				case i == 2:
					continue outer
				case i > 5:
					break outer
				}
			}
		}
		close(q)
	}()
	<-done
	var s []int
	for v := range q {
		s = append(s, v)
	}
	x, ok := <-q
	fmt.Fprintln(o, s, x, ok)
sel:
	select {
	case <-q:
		for i := 0; i < 3; i++ {
			if i == 1 {
				break sel
			}
		}
		fmt.Fprintln(o, "not here")
	default:
		fmt.Fprintln(o, "nor here")
	}
	var arr [3]int
	var err error
	m := map[string]int{}
	r := make(chan int, 3)
	for _, v := range []int{7, 8, 9} {
		r <- v
	}
	select {
	case arr[1] = <-r:
	}
	select {
	case m["k"], ok = <-r:
	case <-time.After(time.Hour):
		err = errors.New("late")
	}
	if v, ok := <-r; ok && v == 9 {
		arr[2] = v
	}
	fmt.Fprintln(o, arr, m, ok, err)
	var k int
	for k = range map[int]bool{5: true} {
	}
	for range map[int]bool{5: true, 6: false} {
		k++
	}
	keys := []string{}
	for key, val := range map[string]*int{"b": &k, "a": nil} {
		if val != nil {
			key += "!"
		}
		keys = append(keys, key)
	}
	sort.Strings(keys)
	fmt.Fprintln(o, k, keys)
}

func closures(o *strings.Builder) {
	b := &box{m: map[string]int{}, wg: new(sync.WaitGroup), hook: func(i int) (int, error) { return i, nil }}
	b.c = sync.NewCond(&b.RWMutex)
	for i := 0; i < 5; i++ {
		i := i
		b.wg.Add(1)
		go func(w *sync.WaitGroup, d int) {
			defer w.Done()
			b.add(fmt.Sprint("k", i%2), d)
		}(b.wg, i*10)
	}
	go b.add("late", 3)
	b.wg.Wait()
	lock, unlock := b.Lock, b.Unlock
	lock()
	for b.m["late"] == 0 {
		unlock()
		time.Sleep(time.Millisecond)
		lock()
	}
	unlock()
	rl := b.RLocker()
	rl.Lock()
	fmt.Fprintln(o, b.m)
	rl.Unlock()
	for i := 0; i < 3; i++ {
		b.once.Do(func() { b.n.Add(5) })
	}
	b.v.Store([]string{"v"})
	b.b.Store(true)
	fmt.Fprintln(o, b.n.Load(), b.v.Load().([]string), b.b.Load())
	ready := false
	go func() {
		time.Sleep(10 * time.Millisecond)
		b.Lock()
		ready = true
		b.Unlock()
		b.c.Broadcast()
	}()
	b.Lock()
	for !ready {
		b.c.Wait()
	}
	b.Unlock()
	var sm sync.Map
	sm.Store("a", 1)
	_, loaded := sm.LoadOrStore("a", 2)
	sm.Range(func(k, v interface{}) bool { fmt.Fprintln(o, k, v, loaded); return true })
	p := sync.Pool{New: func() interface{} { return new(int) }}
	x := p.Get().(*int)
	p.Put(x)
	b.ch = append(b.ch, make(chan int, 1), make(chan int, 1))
	func() {
		defer func() { fmt.Fprintln(o, "recovered:", recover()) }()
		close(b.ch[0])
		close(b.ch[0])
	}()
	func() {
		defer func() { fmt.Fprintln(o, "recovered:", recover()) }()
		b.ch[0] <- 1
	}()
	go fmt.Sscan("12", x)
	go func(f func(int) (int, error), n ...int) { b.ch[1] <- n[1]; _, _ = f(0) }(b.hook, []int{1, 2}...)
	fmt.Fprintln(o, <-b.ch[1], <-b.ch[0])
}

func clocks(o *strings.Builder) {
	t0 := time.Now()
	tm := time.NewTimer(time.Hour)
	fmt.Fprintln(o, tm.Stop(), tm.Reset(20*time.Millisecond))
	<-tm.C
	tk := time.NewTicker(5 * time.Millisecond)
	for i := 0; i < 3; i++ {
		<-tk.C
	}
	tk.Stop()
	fired := make(chan string, 1)
	af := time.AfterFunc(3*time.Millisecond, func() { fired <- "fired" })
	fmt.Fprintln(o, <-fired, af.Stop())
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Millisecond)
	defer cancel()
	select {
	case <-ctx.Done():
		fmt.Fprintln(o, ctx.Err())
	case <-time.After(10 * time.Second):
	}
	ctx2, cancel2 := context.WithCancel(context.WithValue(context.Background(), "k", "v"))
	cancel2()
	<-ctx2.Done()
	fmt.Fprintln(o, ctx2.Err(), ctx2.Value("k"))
	d := time.Since(t0)
	fmt.Fprintln(o, d > 40*time.Millisecond, d < 5*time.Second, time.Until(t0) < 0)
}

func nets(o *strings.Builder) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Fprintln(o, err)
		return
	}
	got := make(chan string)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			got <- err.Error()
			return
		}
		defer c.Close()
		b := make([]byte, 5)
		if _, err := io.ReadFull(c, b); err != nil {
			got <- err.Error()
			return
		}
		c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		_, err = c.Read(b)
		ne, ok := err.(net.Error)
		got <- fmt.Sprint(string(b), ok && ne.Timeout())
	}()
	c, err := net.DialTimeout("tcp", ln.Addr().String(), time.Second)
	if err != nil {
		fmt.Fprintln(o, err)
		return
	}
	if t, ok := c.(*net.TCPConn); ok {
		t.SetNoDelay(true)
		t.SetKeepAlive(true)
	}
	fmt.Fprint(c, "hello")
	fmt.Fprintln(o, <-got)
	var d net.Dialer
	c2, err := d.DialContext(context.Background(), "tcp", ln.Addr().String())
	fmt.Fprintln(o, err)
	if err == nil {
		c2.Close()
	}
	ln.Close()
	_, err = ln.Accept()
	fmt.Fprintln(o, err != nil)
	h, p, err := net.SplitHostPort("[::1]:80")
	fmt.Fprintln(o, h, p, err, net.JoinHostPort(h, p), net.ParseIP("10.0.0.1").IsLoopback(), (&net.TCPAddr{IP: net.IPv4zero, Port: 3}).String())
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	fmt.Fprintln(o, n.Contains(net.IPv4(10, 1, 1, 1)))
}

func pipes(o *strings.Builder) {
	// workers over a channel of channels
	req := make(chan chan int)
	stop := make(tchan)
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case r := <-req:
					r <- 42
				case <-stop:
					return
				}
			}
		}()
	}
	sum := 0
	for i := 0; i < 6; i++ {
		r := make(chan int)
		req <- r
		sum += <-r
	}
	close(stop)
	wg.Wait()
	c := make(chan int, 5)
	c <- 2
	c <- 9
	fmt.Fprintln(o, sum, term1(c), term2(c))
	var f fifo = c
	c <- 1
	fmt.Fprintln(o, 1+<-f, len(f))
	errc := make(chan error, 1)
	func() { errc <- func() error { return nil }() }()
	if err := <-errc; err != nil {
		fmt.Fprintln(o, err)
	}
	r := rand.New(rand.NewSource(4))
	_ = r.Intn(3) + rand.Intn(4)
	bb := make([]byte, 8)
	k, err := crand.Read(bb)
	fmt.Fprintln(o, k, err)
	i := 0
loop:
	if i < 3 {
		i++
		goto loop
	}
	fn := (*box).add
	b := &box{m: map[string]int{}}
	dn := make(chan int)
	go func() { fn(b, "q", 1); dn <- 1 }()
	<-dn
	pm := map[*box]int{}
	pm[b]++
	pm[b] = pm[b] + i
	ci := map[interface{}]string{1: "a"}
	ci["z"] = "b"
	fmt.Fprintln(o, b.m, pm[b], len(ci))
	func() {
		tsem <- struct{}{}
		defer func() { <-tsem }()
		fmt.Fprintln(o, len(tsem), cap(tsem))
	}()
	var once sync.Once
	for n := 0; n < 2; n++ {
		go once.Do(func() { dn <- 7 })
	}
	fmt.Fprintln(o, <-dn, tcount)
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintln(o, "panic:", e)
		}
	}()
	var np *box
	np.add("x", 1)
}

// Torture runs language and library features through the rewriter.
func Torture() string {
	o := &strings.Builder{}
	lens(o)
	labels(o)
	closures(o)
	clocks(o)
	nets(o)
	pipes(o)
	early(o)
	return o.String()
}
