package lib

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// Peer is a connection whose other end is the harness.
type Peer struct {
	mu     sync.Mutex
	in     []string
	eof    bool
	closed bool
	closes int
	wake   chan struct{}
	gone   chan struct{}
	out    string
	stuck  bool
	reset  bool
}

type peerAddr struct{}

func (peerAddr) Network() string { return "tcp" }
func (peerAddr) String() string  { return "peer:1" }

var errPeerReset = errors.New("connection reset by peer")

var errPeerClosed = errors.New("use of closed network connection")

// NewPeer makes a connection that delivers the given pieces, one per read, and then ends if eof is set. A stuck peer takes
// no data: writes block until the connection is closed.
func NewPeer(eof, stuck bool, in ...string) *Peer {
	return &Peer{in: in, eof: eof, stuck: stuck, wake: make(chan struct{}, 1), gone: make(chan struct{})}
}

func (c *Peer) poke() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

// Feed delivers more data.
func (c *Peer) Feed(s string) {
	c.mu.Lock()
	c.in = append(c.in, s)
	c.mu.Unlock()
	c.poke()
}

// End ends the incoming data.
func (c *Peer) End() {
	c.mu.Lock()
	c.eof = true
	c.mu.Unlock()
	c.poke()
}

// Reset makes everything fail from now on, as after a reset by the other end.
func (c *Peer) Reset() {
	c.mu.Lock()
	c.reset = true
	c.mu.Unlock()
	c.poke()
}

func (c *Peer) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, errPeerClosed
		}
		if c.reset {
			c.mu.Unlock()
			return 0, errPeerReset
		}
		if len(c.in) > 0 {
			n := copy(p, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			c.mu.Unlock()
			return n, nil
		}
		if c.eof {
			c.mu.Unlock()
			return 0, io.EOF
		}
		c.mu.Unlock()
		<-c.wake
	}
}

func (c *Peer) Write(p []byte) (int, error) {
	if c.stuck {
		<-c.gone
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, errPeerClosed
	}
	if c.reset {
		return 0, errPeerReset
	}
	c.out += string(p)
	return len(p), nil
}

// Close closes the connection.
func (c *Peer) Close() error {
	c.mu.Lock()
	c.closes++
	if c.closed {
		c.mu.Unlock()
		return errPeerClosed
	}
	c.closed = true
	close(c.gone)
	c.mu.Unlock()
	c.poke()
	return nil
}

// Unstick lets a stuck peer take data again, by dropping the connection.
func (c *Peer) Unstick() { _ = c.Close() }

// Out returns everything written.
func (c *Peer) Out() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out
}

// Closes returns how often the connection was closed.
func (c *Peer) Closes() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closes
}

func (c *Peer) LocalAddr() net.Addr              { return peerAddr{} }
func (c *Peer) RemoteAddr() net.Addr             { return peerAddr{} }
func (c *Peer) SetDeadline(time.Time) error      { return nil }
func (c *Peer) SetReadDeadline(time.Time) error  { return nil }
func (c *Peer) SetWriteDeadline(time.Time) error { return nil }
