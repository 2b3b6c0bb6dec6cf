// Package c24 checks that connections close once, fail fast afterwards and never block on their own bookkeeping.
package c24

import (
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// ended checks that a closed connection refuses everything at once.
func ended(c network.Conn) {
	sym.Assert(c.IsClosed(), "a closed connection does not say so")
	_, err := c.Read()
	sym.Assert(err == network.ErrConnIsClosed, "reading from a closed connection does not report that it is closed")
	sym.Assert(c.Write("x") == network.ErrConnIsClosed, "writing to a closed connection does not report that it is closed")
	sym.Assert(c.Close() == network.ErrConnIsClosed, "closing a closed connection does not report that it is closed")
}

func expiry() time.Duration {
	if sym.Choice("expires", 2) == 1 {
		return 20 * time.Millisecond
	}
	return time.Hour
}

// Concurrent closing.
//
//verif:harness id=C24.close quick=40 thorough=300 explore race delay=5,9 demote=3,4
//verif:bounds two closers and expiry (or none) on an idle connection; schedules with at most 5 (quick) / 9 (thorough) delays
//verif:reach expired
func Close() {
	p := lib.NewPeer(false, false)
	c := network.NewConnWithExpire(p, expiry())
	sym.Assert(c.Addr() == "peer:1" && c.ID() != "", "wrong identity")
	var wins int32
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			if err := c.Close(); err == nil {
				atomic.AddInt32(&wins, 1)
			} else {
				sym.Assert(err == network.ErrConnIsClosed, "closing fails")
			}
			sym.Assert(c.IsClosed(), "a closed connection does not say so")
			wg.Done()
		}()
	}
	wg.Wait()
	ended(c)
	sym.Quiesce()
	n := atomic.LoadInt32(&wins)
	sym.Assert(n <= 1, "a connection was closed twice")
	if n == 0 {
		sym.Reach("expired")
	}
	sym.Assert(p.Closes() == 1, "the network connection was not closed exactly once")
	ended(c)
}

// A reader and a writer while the connection is closed or expires.
//
//verif:harness id=C24.busy quick=60 thorough=400 explore race delay=4,6 demote=3,4
//verif:bounds one goroutine reading until an error, one writing two replies, closed by the peer's end of data, by Close or by expiry; schedules with at most 4 (quick) / 6 (thorough) delays
func Busy() {
	p := lib.NewPeer(false, false, ":1\r\n")
	e := time.Hour
	how := sym.Choice("how", 3)
	if how == 2 {
		e = 20 * time.Millisecond
	}
	c := network.NewConnWithExpire(p, e)
	var readers, writers int32
	go func() {
		for {
			o, err := c.Read()
			if err != nil {
				sym.Assert(o == nil, "an object and an error")
				break
			}
			sym.Assert(o.String() == ":1\r\n", "wrong request")
		}
		atomic.StoreInt32(&readers, 1)
	}()
	go func() {
		_ = c.Write("a")
		_ = c.Write("b")
		atomic.StoreInt32(&writers, 1)
	}()
	switch how {
	case 0:
		p.End()
	case 1:
		_ = c.Close()
		ended(c)
	}
	sym.Quiesce()
	sym.Assert(c.IsClosed(), "the connection was not closed")
	sym.Assert(atomic.LoadInt32(&readers) == 1, "a read on a closed connection blocks")
	sym.Assert(atomic.LoadInt32(&writers) == 1, "a write on a closed connection blocks")
	ended(c)
}

// The peer does not take data while the connection is closed.
//
//verif:harness id=C24.stuck quick=60 thorough=300 explore race delay=4,8 demote=3,4
//verif:bounds the peer takes no data, the connection is being closed (by Close or expiry); a read, a write and a second close issued once it is closed; schedules with at most 4 (quick) / 8 (thorough) delays
func Stuck() {
	p := lib.NewPeer(false, true)
	e := time.Hour
	how := sym.Choice("how", 2)
	if how == 1 {
		e = 20 * time.Millisecond
	}
	c := network.NewConnWithExpire(p, e)
	var early int32
	go func() {
		// issued before the connection closes, at some point of its life
		_, err := c.Read()
		sym.Assert(err != nil, "a request nobody sent")
		atomic.StoreInt32(&early, 1)
	}()
	if how == 0 {
		go func() { _ = c.Close() }()
	}
	sym.Quiesce()
	sym.Assert(c.IsClosed(), "the connection was not closed")
	var done int32
	go func() {
		ended(c)
		atomic.StoreInt32(&done, 1)
	}()
	sym.Quiesce()
	sym.Assert(atomic.LoadInt32(&done) == 1, "an operation on a closed connection blocks")
	p.Unstick()
	sym.Quiesce()
	sym.Assert(atomic.LoadInt32(&early) == 1, "a read blocks after the network connection is gone")
}

// Expiry closes an idle connection; activity does not keep a blocked operation waiting.
//
//verif:harness id=C24.expire quick=40 thorough=200 explore race delay=4,8 demote=3,4
//verif:bounds an idle connection that expires, before or after some reads and writes; schedules with at most 4 (quick) / 8 (thorough) delays
func Expire() {
	p := lib.NewPeer(false, false, ":1\r\n")
	c := network.NewConnWithExpire(p, 20*time.Millisecond)
	if sym.Choice("read", 2) == 1 {
		_, _ = c.Read()
	}
	if sym.Choice("write", 2) == 1 {
		_ = c.Write("+OK\r\n")
	}
	sym.Quiesce()
	sym.Assert(c.IsClosed() && p.Closes() == 1, "an idle connection was not closed exactly once")
	ended(c)
}

// Requests come in order and replies go out in order.
//
//verif:harness id=C24.stream quick=60 thorough=300 explore delay=1,2 demote=3,4
//verif:bounds up to three requests of one 64-bit integer or one bulk string of 2 arbitrary bytes, arriving in pieces cut at any one place, then the end of data; after each request a reply of 2 arbitrary bytes is written; schedules with at most 1 (quick) / 2 (thorough) delays
func Stream() {
	n := 1 + sym.Choice("n", 3)
	all := ""
	var want []string
	var replies []string
	for i := 0; i < n; i++ {
		w := "$2\r\n" + sym.String("bulk", 2) + "\r\n"
		if i == 1 {
			w = ":7\r\n"
		}
		want = append(want, w)
		replies = append(replies, sym.String("reply", 2))
		all += w
	}
	cut := sym.Choice("cut", len(all))
	var p *lib.Peer
	if cut == 0 {
		p = lib.NewPeer(true, false, all)
	} else {
		p = lib.NewPeer(true, false, all[:cut], all[cut:])
	}
	c := network.NewConn(p)
	out := ""
	for i := range want {
		o, err := c.Read()
		sym.Assert(err == nil && o.String() == want[i], "a request was not read as sent")
		sym.Assert(c.Write(replies[i]) == nil, "a reply was refused")
		out += replies[i]
		sym.Assert(p.Out() == out, "the peer did not get exactly what was written")
	}
	_, err := c.Read()
	sym.Assert(err == network.ErrConnIsClosed, "the end of data is not reported as closed")
	sym.Quiesce()
	ended(c)
}

// Many writers.
//
//verif:harness id=C24.writers quick=40 thorough=200 explore race delay=5,9 demote=3,4
//verif:bounds two goroutines writing two replies each (arbitrary bytes), no closing; schedules with at most 5 (quick) / 9 (thorough) delays
func Writers() {
	p := lib.NewPeer(false, false)
	c := network.NewConn(p)
	a := []string{sym.String("a", 1), sym.String("a", 1)}
	b := []string{sym.String("b", 1), sym.String("b", 1)}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		sym.Assert(c.Write(b[0]) == nil && c.Write(b[1]) == nil, "a reply was refused")
		wg.Done()
	}()
	sym.Assert(c.Write(a[0]) == nil && c.Write(a[1]) == nil, "a reply was refused")
	wg.Wait()
	o := p.Out()
	sym.Assert(len(o) == 4, "not everything written was sent")
	x, y := a[0]+a[1], b[0]+b[1]
	ok := false
	for _, s := range []string{x + y, y + x, x[:1] + y + x[1:], y[:1] + x + y[1:], x[:1] + y[:1] + x[1:] + y[1:], x[:1] + y[:1] + y[1:] + x[1:], y[:1] + x[:1] + y[1:] + x[1:], y[:1] + x[:1] + x[1:] + y[1:]} {
		ok = sym.Or(ok, o == s)
	}
	sym.Assert(ok, "replies of one writer were sent out of order")
}

// Many requests and large replies.
//
//verif:harness id=C24.many quick=60 thorough=300 steps=400000000
//verif:bounds 40, 130 or 300 requests, one in ten of 5000 bytes and two with an arbitrary byte, arriving at once or in pieces of 100 or 4096 bytes, then the end of data; after each a reply of 10 bytes, or of 5000 or 70000 now and then; one schedule
func Many() {
	n := []int{40, 130, 300}[sym.Choice("n", 3)]
	all := ""
	var want []string
	for i := 0; i < n; i++ {
		t := "r" + lib.Itoa(i)
		if i == n/2 || i == n-1 {
			t = sym.String(t, 1)
		}
		if i%10 == 3 {
			t += strings.Repeat("x", 5000)
		}
		w := "$" + lib.Itoa(len(t)) + "\r\n" + t + "\r\n"
		want = append(want, w)
		all += w
	}
	size := []int{len(all), 100, 4096}[sym.Choice("piece", 3)]
	var parts []string
	for rest := all; rest != ""; {
		if size > len(rest) {
			size = len(rest)
		}
		parts = append(parts, rest[:size])
		rest = rest[size:]
	}
	p := lib.NewPeer(true, false, parts...)
	c := network.NewConn(p)
	sent := 0
	for i := range want {
		o, err := c.Read()
		sym.Assert(err == nil && o.String() == want[i], "a request was not read as sent")
		r := "reply" + lib.Itoa(10000+i)
		if i%16 == 5 {
			r += strings.Repeat("y", 5000)
		} else if i%64 == 9 {
			r += strings.Repeat("z", 70000)
		}
		sym.Assert(c.Write(r) == nil, "a reply was refused")
		out := p.Out()
		sym.Assert(len(out) == sent+len(r) && out[sent:] == r, "the peer did not get exactly what was written")
		sent = len(out)
	}
	_, err := c.Read()
	sym.Assert(err == network.ErrConnIsClosed, "the end of data is not reported as closed")
	sym.Quiesce()
	ended(c)
}

// A connection in use does not expire, an idle one does.
//
//verif:harness id=C24.idle quick=30 thorough=120 nosample
//verif:bounds an expire time of 1 s; 0..4 reads or writes with gaps of 0, 0.3 or 0.7 s after them, none or one further operation, or a read that is answered after 0.7 s, then a gap of 3 s; one schedule
func Idle() {
	p := lib.NewPeer(false, false)
	c := network.NewConnWithExpire(p, time.Second)
	use := func() {
		if sym.Choice("op", 2) == 1 {
			p.Feed(":1\r\n")
			o, err := c.Read()
			sym.Assert(err == nil && o.String() == ":1\r\n", "a connection in use expires")
		} else {
			sym.Assert(c.Write("x") == nil, "a connection in use expires")
		}
	}
	for n := sym.Choice("n", 5); n > 0; n-- {
		use()
		time.Sleep([]time.Duration{0, 300, 700}[sym.Choice("gap", 3)] * time.Millisecond)
		sym.Assert(!c.IsClosed() && p.Closes() == 0, "a connection in use expires")
	}
	switch sym.Choice("last", 3) {
	case 1:
		use()
	case 2: // a read that is answered late began when it began
		read := make(chan struct{})
		go func() {
			o, err := c.Read()
			sym.Assert(err == nil && o.String() == ":1\r\n", "a connection in use expires")
			close(read)
		}()
		time.Sleep(700 * time.Millisecond)
		p.Feed(":1\r\n")
		<-read
		sym.Assert(!c.IsClosed() && p.Closes() == 0, "a connection in use expires")
		time.Sleep(600 * time.Millisecond)
		sym.Assert(c.IsClosed() && p.Closes() == 1, "an idle connection does not expire")
	}
	time.Sleep(3 * time.Second)
	sym.Assert(c.IsClosed() && p.Closes() == 1, "an idle connection does not expire")
	ended(c)
}

// The other end resets the connection.
//
//verif:harness id=C24.reset quick=60 thorough=300 explore race delay=3,5 demote=3,4
//verif:bounds a connection that is reset before, between or during two writes of one arbitrary byte each and a read, with a request there or not, then closed by Close, by two goroutines or by expiry; schedules with at most 3 (quick) / 5 (thorough) delays
func Reset() {
	p := lib.NewPeer(false, false)
	if sym.Choice("request", 2) == 1 {
		p.Feed(":1\r\n")
	}
	how := sym.Choice("how", 3)
	e := time.Hour
	if how == 2 {
		e = 20 * time.Millisecond
	}
	c := network.NewConnWithExpire(p, e)
	a, b := sym.String("a", 1), sym.String("b", 1)
	when := sym.Choice("when", 4)
	var reads, wins int32
	if when == 0 {
		p.Reset()
	}
	go func() {
		for {
			o, err := c.Read()
			sym.Assert((o == nil) == (err != nil), "reading yields neither or both of a request and an error")
			if err != nil {
				break
			}
		}
		atomic.StoreInt32(&reads, 1)
	}()
	if when == 3 {
		go p.Reset()
	}
	want := ""
	if c.Write(a) == nil {
		want += a
	}
	if when == 1 {
		p.Reset()
	}
	if c.Write(b) == nil {
		want += b
	}
	if when == 2 {
		p.Reset()
	}
	sym.Assert(when != 0 || want == "", "a write to a connection that was reset is accepted")
	closer := func() {
		err := c.Close()
		if err == nil {
			atomic.AddInt32(&wins, 1)
		}
		sym.Assert(c.IsClosed(), "a closed connection does not say so")
	}
	var wg sync.WaitGroup
	if how < 2 {
		wg.Add(1)
		if how == 1 {
			wg.Add(1)
			go func() { closer(); wg.Done() }()
		}
		closer()
		wg.Done()
		wg.Wait()
		ended(c)
	}
	sym.Quiesce()
	sym.Assert(p.Closes() == 1, "the network connection was not closed exactly once")
	sym.Assert(atomic.LoadInt32(&wins) <= 1, "a connection was closed twice")
	sym.Assert(atomic.LoadInt32(&reads) == 1, "a read on a closed connection blocks")
	out := strings.Replace(p.Out(), "TTL expired", "", 1) // a write may overlap the closing
	sym.Assert(len(out) >= len(want) && out[:len(want)] == want, "the peer did not get exactly what was written")
	ended(c)
}
