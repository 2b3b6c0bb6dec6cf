package lib

import (
	"net"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// Srv is a running server.
type Srv struct {
	S    network.Server
	Port int
	Done chan struct{} // closed when Serve returns
}

// StartServer starts a server; a port of 0 is replaced by a free one.
func StartServer(c common.Config) *Srv {
	if c.Port == 0 {
		c.Port = sym.FreePort()
	}
	s := &Srv{S: network.NewServer(), Port: c.Port, Done: make(chan struct{})}
	sym.Assert(s.S.Init(c), "the server does not start")
	go func() {
		s.S.Serve()
		close(s.Done)
	}()
	return s
}

// Stop stops the server and waits for Serve to return.
func (s *Srv) Stop() {
	s.S.Stop()
	<-s.Done
}

// Client is a client of a server.
type Client struct {
	C   net.Conn
	buf string
	end bool
}

// Dial connects to a local port.
func Dial(port int) *Client {
	c, err := net.Dial("tcp", "127.0.0.1:"+Itoa(port))
	sym.Assert(err == nil, "the server takes no connection")
	return &Client{C: c}
}

// Request is the text of a request made of bulk strings.
func Request(args ...string) string {
	return protocol.NewRedisArray(Objs(args...)).String()
}

// Send sends text; it reports false if the connection is closed.
func (c *Client) Send(s string) bool {
	_, err := c.C.Write([]byte(s))
	return err == nil
}

func (c *Client) more() bool {
	if c.end {
		return false
	}
	p := make([]byte, sym.Bulk(256, 1<<16))
	n, err := c.C.Read(p)
	c.buf += string(p[:n])
	if err != nil {
		c.end = true
	}
	return n > 0
}

// Next waits for one reply; it reports false if the connection ended before it was complete.
func (c *Client) Next() (string, bool) {
	for {
		if n := replyLen(c.buf); n > 0 {
			r := c.buf[:n]
			c.buf = c.buf[n:]
			return r, true
		}
		if !c.more() {
			return "", false
		}
	}
}

// Ask sends a request and waits for its reply.
func (c *Client) Ask(args ...string) string {
	sym.Assert(c.Send(Request(args...)), "the server closed the connection")
	r, ok := c.Next()
	sym.Assert(ok, "the server does not reply")
	return r
}

// Rest is everything that arrives until the connection ends.
func (c *Client) Rest() string {
	for c.more() {
	}
	return c.buf
}

// replyLen is the length of the complete reply that the text starts with, or 0.
func replyLen(s string) int {
	if len(s) == 0 {
		return 0
	}
	eol := func(from int) int {
		for i := from; i+1 < len(s); i++ {
			if s[i] == '\r' && s[i+1] == '\n' {
				return i + 2
			}
		}
		return 0
	}
	n := eol(1)
	if n == 0 {
		return 0
	}
	count := func() int {
		v, neg := 0, false
		for _, c := range []byte(s[1 : n-2]) {
			if c == '-' {
				neg = true
			} else {
				v = v*10 + int(c-'0')
			}
		}
		if neg {
			return -1
		}
		return v
	}
	switch s[0] {
	case '$':
		v := count()
		if v < 0 {
			return n
		}
		if len(s) < n+v+2 {
			return 0
		}
		return n + v + 2
	case '*':
		v := count()
		for i := 0; i < v; i++ {
			k := replyLen(s[n:])
			if k == 0 {
				return 0
			}
			n += k
		}
	}
	return n
}

// Record makes the log record of a request.
func Record(args ...string) *log.VertexLog {
	return log.NewLog(args[0], 1, Objs(args...))
}

// Packed are the packed records.
func Packed(vs ...*log.VertexLog) string {
	s := ""
	for _, v := range vs {
		b, err := log.PackLog(v)
		sym.Assert(err == nil, "packing a record failed")
		s += string(b)
	}
	return s
}

// SameRecord tells whether two records are equal.
func SameRecord(a, b *log.VertexLog) bool {
	ok := sym.And(a.Id == b.Id, a.Time == b.Time, a.Host == b.Host, a.Name == b.Name, a.Index == b.Index, len(a.Arguments) == len(b.Arguments))
	if len(a.Arguments) == len(b.Arguments) {
		for i := range a.Arguments {
			ok = sym.And(ok, string(a.Arguments[i]) == string(b.Arguments[i]))
		}
	}
	return sym.And(ok, string(a.RawRequest) == string(b.RawRequest))
}
