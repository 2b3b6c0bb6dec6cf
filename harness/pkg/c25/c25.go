// Package c25 checks that the pipelined requests of a client are answered in order, each exactly once.
package c25

import (
	"strings"
	"time"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

const farewell = "TTL expired"

// pipeline sends appends of the texts without waiting and checks the replies.
func pipeline(c *lib.Client, key string, texts []string, pieces int) {
	all := ""
	for _, t := range texts {
		all += lib.Request("append", key, t)
	}
	for i := 0; i < pieces; i++ {
		sym.Assert(c.Send(all[len(all)*i/pieces:len(all)*(i+1)/pieces]), "the server closed the connection")
	}
	n := 0
	for _, t := range texts {
		n += len(t)
		r, ok := c.Next()
		sym.Assert(ok, "a request is not answered")
		sym.Assert(r == ":"+lib.Itoa(n)+"\r\n", "requests are not executed and answered in order")
	}
	r := c.Ask("get", key)
	sym.Assert(r == "$"+lib.Itoa(n)+"\r\n"+strings.Join(texts, "")+"\r\n", "requests are not executed in order")
}

func over(c *lib.Client) {
	sym.Assert(c.Rest() == farewell, "a client gets more than one reply to a request")
}

// One client, three requests.
//
//verif:harness id=C25.pipeline quick=90 thorough=2000 explore delay=2,3 demote=2,3 fresh
//verif:bounds one client sending 3 requests with arbitrary 1-byte values in one piece; schedules of all goroutines of the server with at most 2 (quick) / 3 (thorough, until the time budget ends) delays or demotions
func Pipeline() {
	texts := []string{sym.String("a", 1), sym.String("b", 1), sym.String("c", 1)}
	s := lib.StartServer(common.Config{})
	c := lib.Dial(s.Port)
	pipeline(c, "k", texts, 1)
	s.Stop()
	over(c)
}

// Two clients at the same time.
//
//verif:harness id=C25.clients quick=60 thorough=1500 explore delay=1,2 demote=1,2 fresh
//verif:bounds two clients sending 2 requests each, concurrently; schedules with at most 1 (quick) / 2 (thorough) delays or demotions
func Clients() {
	a, b := []string{sym.String("a", 1), sym.String("b", 1)}, []string{"x", "y"}
	s := lib.StartServer(common.Config{})
	c, d := lib.Dial(s.Port), lib.Dial(s.Port)
	done := make(chan struct{})
	go func() {
		pipeline(d, "l", b, 1)
		close(done)
	}()
	pipeline(c, "k", a, 1)
	<-done
	s.Stop()
	over(c)
	over(d)
}

// Many requests in many pieces.
//
//verif:harness id=C25.many quick=60 thorough=200
//verif:bounds one client, 1..6 (quick) / 1..12 (thorough) requests with values of 0..1 arbitrary bytes sent in 1..5 pieces; one schedule
func Many() {
	n := 1 + sym.Choice("n", 6+6*sym.Tier())
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, sym.String("t"+lib.Itoa(i), 1))
	}
	pieces := 1 + sym.Choice("pieces", 5)
	s := lib.StartServer(common.Config{})
	c := lib.Dial(s.Port)
	pipeline(c, "k", texts, pieces)
	s.Stop()
	over(c)
}

// Bursts of requests of many clients.
//
//verif:harness id=C25.burst quick=60 thorough=300 steps=200000000
//verif:bounds 1, 3 or 9 clients that connect one after the other and send 9, 40 or 130 (one client also 300) requests each at once or in 7 pieces, two values of each arbitrary, before any reads its replies; one schedule
func Burst() {
	clients := []int{1, 3, 9}[sym.Choice("clients", 3)]
	n := []int{9, 40, 130, 300}[sym.Choice("n", 4)]
	if clients > 1 && n > 130 || clients > 3 && n > 40 {
		sym.Stop()
	}
	pieces := []int{1, 7}[sym.Choice("pieces", 2)]
	s := lib.StartServer(common.Config{})
	var cs []*lib.Client
	var want []string
	for i := 0; i < clients; i++ {
		c := lib.Dial(s.Port)
		cs = append(cs, c)
		all, replies, size := "", "", 0
		for j := 0; j < n; j++ {
			t := "x"
			if j == 3 || j == n-1 {
				t = sym.String("t"+lib.Itoa(i)+"."+lib.Itoa(j), 1)
			}
			all += lib.Request("append", "k"+lib.Itoa(i), t)
			size++
			replies += ":" + lib.Itoa(size) + "\r\n"
		}
		want = append(want, replies)
		for j := 0; j < pieces; j++ {
			sym.Assert(c.Send(all[len(all)*j/pieces:len(all)*(j+1)/pieces]), "the server closed the connection")
		}
	}
	for i, c := range cs {
		got := ""
		for j := 0; j < n; j++ {
			r, ok := c.Next()
			sym.Assert(ok, "a request is not answered")
			got += r
		}
		sym.Assert(got == want[i], "requests are not executed and answered in order")
	}
	s.Stop()
	for _, c := range cs {
		over(c)
	}
}

// Clients that leave without reading their replies, or send nonsense, do not disturb others.
//
//verif:harness id=C25.leave quick=60 thorough=600 explore delay=1,2 demote=1,2 fresh
//verif:bounds one (quick) or two (thorough) clients that send 0 or 2 requests and then half a request, an invalid one or nothing and leave (or stay) without reading a reply, while another client sends 3 requests with arbitrary 1-byte values, and a later client; schedules with at most 1 (quick) / 2 (thorough) delays or demotions
func Leave() {
	texts := []string{sym.String("a", 1), sym.String("b", 1), sym.String("c", 1)}
	n := 2 * sym.Choice("requests", 2)
	tail := []string{"", "*2\r\n$3\r\nge", "*2\r\n$x\r\n"}[sym.Choice("tail", 3)]
	stay := sym.Choice("stay", 2) == 1
	s := lib.StartServer(common.Config{})
	c := lib.Dial(s.Port)
	var gone []*lib.Client
	for i := 0; i < 1+sym.Tier(); i++ {
		l := lib.Dial(s.Port)
		gone = append(gone, l)
		all := ""
		for j := 0; j < n; j++ {
			all += lib.Request("append", "l"+lib.Itoa(i), "x")
		}
		l.Send(all + tail)
		if !stay {
			_ = l.C.Close()
		}
	}
	pipeline(c, "k", texts, 1)
	d := lib.Dial(s.Port)
	pipeline(d, "m", texts[:2], 1)
	if stay {
		for _, l := range gone {
			for j := 0; j < n; j++ {
				r, ok := l.Next()
				sym.Assert(ok && r == ":"+lib.Itoa(j+1)+"\r\n", "requests are not executed and answered in order")
			}
		}
	}
	s.Stop()
	over(c)
	over(d)
}

// Replies that wait for a client that reads late.
//
//verif:harness id=C25.late quick=60 thorough=300 fresh sockbuf=700 timers=400 steps=200000000
//verif:bounds one client sends 3, 130 or 260 requests, some with replies larger than what a connection takes before its peer reads (700 bytes in the model), and reads only after 0.3 s; two values arbitrary; another client sends two requests meanwhile; one schedule
func Late() {
	n := []int{3, 130, 260}[sym.Choice("n", 3)]
	big := []int{0, 2, n - 1}[sym.Choice("big", 3)]
	text := string(make([]byte, sym.Bulk(2000, 8<<20)))
	x, y := sym.String("x", 1), sym.String("y", 1)
	s := lib.StartServer(common.Config{})
	c := lib.Dial(s.Port)
	d := lib.Dial(s.Port)
	sym.Assert(c.Ask("set", "b", text+x) == "+OK\r\n", "a wrong reply")
	all := ""
	var want []string
	for i := 0; i < n; i++ {
		if i == big {
			all += lib.Request("get", "b")
			want = append(want, "$"+lib.Itoa(len(text)+1)+"\r\n"+text+x+"\r\n")
			continue
		}
		all += lib.Request("append", "k", "z")
		m := i + 1
		if i > big {
			m = i
		}
		want = append(want, ":"+lib.Itoa(m)+"\r\n")
	}
	go c.Send(all)
	time.Sleep(100 * time.Millisecond)
	go d.Send(lib.Request("set", "l", y) + lib.Request("get", "l"))
	time.Sleep(200 * time.Millisecond)
	for i := range want {
		r, ok := c.Next()
		sym.Assert(ok && r == want[i], "requests are not executed and answered in order")
	}
	r, ok := d.Next()
	sym.Assert(ok && r == "+OK\r\n", "requests are not executed and answered in order")
	r, ok = d.Next()
	sym.Assert(ok && r == "$1\r\n"+y+"\r\n", "requests are not executed and answered in order")
	s.Stop()
	over(c)
	over(d)
}
