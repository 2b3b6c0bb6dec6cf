package main

// A model of TCP on one host: listeners by port, connections as two byte queues. Writes block only if the harness bounds
// the queues (sockbuf). Closing lets the peer drain what was sent and then gives it the end of the data, or a reset if data
// was left unread; a write to a closed peer is lost, or fails if the peer has answered with a reset. Deadlines have no effect.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

type netPipe struct {
	data  []Value
	ended bool // the writing end is closed
	dead  bool // the reading end is closed
	reset bool // the writing end was closed with unread data
	rst   bool // the reading end has refused data
}

type netConn struct {
	in, out       *netPipe
	closed        bool
	local, remote string
	cell          *Value
}

type netListener struct {
	port   int
	closed bool
	queue  []*netConn
	cell   *Value
}

type netState struct {
	ports map[int]*netListener
	ls    map[*Value]*netListener
	conns map[*Value]*netConn // by the TCPConn and by its embedded conn
	next  int
	eph   int
}

func newNet() *netState {
	return &netState{ports: map[int]*netListener{}, ls: map[*Value]*netListener{}, conns: map[*Value]*netConn{}, next: 7000, eph: 40000}
}

func (m *Machine) netType(name string) types.Type { return m.L.pkgs["net"].Type(name).Type() }

// netErr is a network error; the closed one wraps net.ErrClosed.
func (m *Machine) netErr(op, msg string) Value {
	f := m.L.pkgs[zzPkg+"/models"].Func("NetError")
	return m.call(f, []Value{mkStr(op), mkStr(msg), mkBool(msg == closedConn)}, nil)
}

const closedConn = "use of closed network connection"

func (m *Machine) netWait(ready func() bool) {
	m.visible(&pend{kind: opCond, ready: ready, obj: m.net})
	m.acqrel(m.net)
}

func (m *Machine) netAddr(s string) Value {
	f := m.L.pkgs[zzPkg+"/models"].Func("NetAddr")
	i := strings.LastIndexByte(s, ':')
	port, _ := strconv.Atoi(s[i+1:])
	return m.call(f, []Value{mkInt(uint64(port), 64)}, nil)
}

func (m *Machine) newNetConn(in, out *netPipe, local, remote string) *netConn {
	cell := &Value{}
	*cell = zeroOf(m.netType("TCPConn"))
	c := &netConn{in: in, out: out, local: local, remote: remote, cell: cell}
	m.net.conns[cell] = c
	m.net.conns[&cell.P.(*Agg).f[0]] = c
	return c
}

func (m *Machine) connValue(c *netConn) Value {
	return Value{K: KIface, P: &Iface{m.L.canonical(types.NewPointer(m.netType("TCPConn"))), Value{K: KPtr, P: c.cell}}}
}

func netPort(addr string) (int, bool) {
	i := strings.LastIndexByte(addr, ':')
	if i < 0 {
		return 0, false
	}
	p, err := strconv.Atoi(addr[i+1:])
	return p, err == nil
}

func (m *Machine) listen(port int) (*netListener, Value) {
	if port == 0 {
		m.net.next++
		port = m.net.next
	}
	if l := m.net.ports[port]; l != nil && !l.closed {
		return nil, m.netErr("listen tcp :"+strconv.Itoa(port), "bind: address already in use")
	}
	cell := &Value{}
	*cell = zeroOf(m.netType("TCPListener"))
	l := &netListener{port: port, cell: cell}
	m.net.ports[port] = l
	m.net.ls[cell] = l
	return l, nilIface
}

func netIntrinsics() map[string]intrinsicFn {
	always := func() bool { return true }
	conn := func(m *Machine, v Value) *netConn {
		c := m.net.conns[m.addrOf(v)]
		if c == nil {
			panic(unsupported{"an unmodelled network connection"})
		}
		return c
	}
	lis := func(m *Machine, v Value) *netListener {
		l := m.net.ls[m.addrOf(v)]
		if l == nil {
			panic(unsupported{"an unmodelled listener"})
		}
		return l
	}
	accept := func(m *Machine, v Value) (*netConn, Value) {
		l := lis(m, v)
		m.netWait(func() bool { return l.closed || len(l.queue) > 0 })
		if l.closed {
			return nil, m.netErr("accept tcp", closedConn)
		}
		c := l.queue[0]
		l.queue = append([]*netConn(nil), l.queue[1:]...)
		return c, nilIface
	}
	dial := func(m *Machine, fi *fnInfo, a []Value) Value {
		m.netWait(always)
		port, ok := netPort(m.constString(a[1]))
		var l *netListener
		if ok {
			l = m.net.ports[port]
		}
		if l == nil || l.closed {
			return mkTuple(nilIface, m.netErr("dial tcp", "connect: connection refused"))
		}
		x, y := &netPipe{}, &netPipe{}
		m.net.eph++
		here, there := fmt.Sprintf("127.0.0.1:%d", m.net.eph), fmt.Sprintf("127.0.0.1:%d", port)
		l.queue = append(append([]*netConn(nil), l.queue...), m.newNetConn(x, y, there, here))
		return mkTuple(m.connValue(m.newNetConn(y, x, here, there)), nilIface)
	}
	cells := func(m *Machine, s []Value) []Value {
		r := make([]Value, len(s))
		for i, c := range s {
			if c.K == KNone {
				c = Value{K: KInt, W: 8}
			}
			c.E = 0
			r[i] = c
		}
		return r
	}
	nilErr := func(m *Machine, fi *fnInfo, a []Value) Value { return nilIface }
	t := map[string]intrinsicFn{
		"net.Dial":        dial,
		"net.DialTimeout": dial,
		"net.ListenTCP": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.netWait(always)
			port := 0
			if a[1].P != nil {
				m.load(a[1].P.(*Value), m.netType("TCPAddr"))
				port = int(m.concSigned(a[1].P.(*Value).P.(*Agg).f[1]))
			}
			l, err := m.listen(port)
			if l == nil {
				return mkTuple(Value{K: KPtr}, err)
			}
			return mkTuple(Value{K: KPtr, P: l.cell}, nilIface)
		},
		"net.Listen": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.netWait(always)
			port, _ := netPort(m.constString(a[1]))
			l, err := m.listen(port)
			if l == nil {
				return mkTuple(nilIface, err)
			}
			return mkTuple(Value{K: KIface, P: &Iface{m.L.canonical(types.NewPointer(m.netType("TCPListener"))), Value{K: KPtr, P: l.cell}}}, nilIface)
		},
		"(*net.TCPListener).Accept": func(m *Machine, fi *fnInfo, a []Value) Value {
			c, err := accept(m, a[0])
			if c == nil {
				return mkTuple(nilIface, err)
			}
			return mkTuple(m.connValue(c), nilIface)
		},
		"(*net.TCPListener).AcceptTCP": func(m *Machine, fi *fnInfo, a []Value) Value {
			c, err := accept(m, a[0])
			if c == nil {
				return mkTuple(Value{K: KPtr}, err)
			}
			return mkTuple(Value{K: KPtr, P: c.cell}, nilIface)
		},
		"(*net.TCPListener).Close": func(m *Machine, fi *fnInfo, a []Value) Value {
			l := lis(m, a[0])
			m.netWait(always)
			if l.closed {
				return m.netErr("close tcp", closedConn)
			}
			l.closed = true
			for _, c := range l.queue {
				c.closed, c.out.ended, c.in.dead = true, true, true
			}
			l.queue = nil
			return nilIface
		},
		"(*net.TCPListener).Addr": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.netAddr(":" + strconv.Itoa(lis(m, a[0]).port))
		},
		"(*net.TCPListener).SetDeadline": nilErr,
		"(*net.TCPAddr).String": func(m *Machine, fi *fnInfo, a []Value) Value {
			if a[0].P == nil {
				return mkStr("<nil>")
			}
			f := m.addrOf(a[0]).P.(*Agg).f
			ip := ""
			if f[0].P != nil {
				var s []string
				b := m.cells(f[0])
				if len(b) == 16 {
					b = b[12:]
				}
				for _, c := range b {
					s = append(s, strconv.Itoa(int(c.N)))
				}
				ip = strings.Join(s, ".")
			}
			return mkStr(ip + ":" + strconv.Itoa(int(m.concSigned(f[1]))))
		},
		"(*net.TCPAddr).Network": func(m *Machine, fi *fnInfo, a []Value) Value { return mkStr("tcp") },
		zzPkg + "/sym.Bulk":      func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] },
		zzPkg + "/sym.FreePort": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.net.next++
			return mkInt(uint64(m.net.next), 64)
		},
	}
	both := func(name string, f intrinsicFn) {
		t["(*net.conn)."+name] = f
		t["(*net.TCPConn)."+name] = f
	}
	both("Read", func(m *Machine, fi *fnInfo, a []Value) Value {
		c := conn(m, a[0])
		dst := m.cells(a[1])
		m.netWait(func() bool { return c.closed || len(c.in.data) > 0 || c.in.ended || len(dst) == 0 })
		if c.closed {
			return mkTuple(mkInt(0, 64), m.netErr("read tcp", closedConn))
		}
		if len(dst) == 0 {
			return mkTuple(mkInt(0, 64), nilIface)
		}
		if len(c.in.data) == 0 && c.in.reset {
			return mkTuple(mkInt(0, 64), m.netErr("read tcp", "read: connection reset by peer"))
		}
		if len(c.in.data) == 0 {
			return mkTuple(mkInt(0, 64), m.eof())
		}
		n := 0
		for n < len(dst) && n < len(c.in.data) {
			m.store(&dst[n], c.in.data[n])
			n++
		}
		c.in.data = append([]Value(nil), c.in.data[n:]...)
		return mkTuple(mkInt(uint64(n), 64), nilIface)
	})
	both("Write", func(m *Machine, fi *fnInfo, a []Value) Value {
		c := conn(m, a[0])
		src := cells(m, m.cells(a[1]))
		n := 0
		for {
			m.netWait(func() bool {
				return c.closed || c.out.dead || m.opts.sockbuf == 0 || len(c.out.data) < m.opts.sockbuf
			})
			if c.closed {
				return mkTuple(mkInt(uint64(n), 64), m.netErr("write tcp", closedConn))
			}
			if c.out.dead {
				if c.out.rst {
					return mkTuple(mkInt(uint64(n), 64), m.netErr("write tcp", "write: broken pipe"))
				}
				c.out.rst = len(src) > 0
				return mkTuple(mkInt(uint64(len(src)), 64), nilIface)
			}
			k := len(src)
			if room := m.opts.sockbuf - len(c.out.data); m.opts.sockbuf > 0 && n+room < k {
				k = n + room
			}
			c.out.data = append(append([]Value(nil), c.out.data...), src[n:k]...)
			n = k
			if n == len(src) {
				return mkTuple(mkInt(uint64(n), 64), nilIface)
			}
		}
	})
	both("Close", func(m *Machine, fi *fnInfo, a []Value) Value {
		c := conn(m, a[0])
		m.netWait(always)
		if c.closed {
			return m.netErr("close tcp", closedConn)
		}
		c.closed, c.out.ended, c.in.dead = true, true, true
		if len(c.in.data) > 0 {
			c.out.reset, c.in.rst = true, true
		}
		return nilIface
	})
	both("RemoteAddr", func(m *Machine, fi *fnInfo, a []Value) Value { return m.netAddr(conn(m, a[0]).remote) })
	both("LocalAddr", func(m *Machine, fi *fnInfo, a []Value) Value { return m.netAddr(conn(m, a[0]).local) })
	for _, n := range strings.Fields("SetDeadline SetReadDeadline SetWriteDeadline SetKeepAlive SetKeepAlivePeriod SetNoDelay SetLinger SetReadBuffer SetWriteBuffer") {
		both(n, nilErr)
	}
	t["(*net.TCPConn).CloseWrite"] = func(m *Machine, fi *fnInfo, a []Value) Value {
		c := conn(m, a[0])
		m.netWait(always)
		c.out.ended = true
		return nilIface
	}
	for _, n := range []string{"ReadFrom", "WriteTo"} {
		f := map[string]string{"ReadFrom": "ConnFrom", "WriteTo": "ConnTo"}[n]
		t["(*net.TCPConn)."+n] = func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.call(m.L.pkgs[zzPkg+"/models"].Func(f), []Value{a[0], a[1]}, nil)
		}
	}
	return t
}
