// Package c13 checks that a replica receives the whole log or reports failure.
package c13

import (
	"encoding/binary"
	"errors"
	"net"
	"os"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/replication"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

func equal(got, want []*log.VertexLog) {
	sym.Assert(len(got) == len(want), "the replica gets another number of records")
	for i := range want {
		sym.Assert(lib.SameRecord(got[i], want[i]), "the replica gets a wrong record")
	}
}

func message(length int, records string) string {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, uint32(length))
	return string(b) + records
}

func records(n int) []*log.VertexLog {
	var vs []*log.VertexLog
	for i := 0; i < n; i++ {
		vs = append(vs, lib.Record("set", sym.String("k"+lib.Itoa(i), 1), sym.String("v"+lib.Itoa(i), 2)))
	}
	return vs
}

// broken is a connection that ends with an error.
type broken struct{ net.Conn }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.Conn.Read(p)
	if err != nil {
		err = errors.New("connection reset by peer")
	}
	return n, err
}

// A message cut at any byte.
//
//verif:harness id=C13.cut quick=90 thorough=300
//verif:bounds a log of 0..2 records with keys and values of 1 and 2 arbitrary bytes; the connection ends (cleanly or with an error) after any byte of the message, or more bytes follow; the bytes arrive in 1..3 reads
//verif:reach whole cut
func Cut() {
	vs := records(sym.Choice("records", 3))
	body := lib.Packed(vs...)
	all := message(len(body), body)
	cut := sym.Choice("cut", 640)
	if cut > len(all)+1 {
		sym.Stop()
	}
	text := all
	if cut <= len(all) {
		text = all[:cut]
	} else {
		text += "x"
	}
	pieces := []string{text}
	switch sym.Choice("pieces", 3) {
	case 1:
		pieces = []string{text[:len(text)/2], text[len(text)/2:]}
	case 2:
		k := len(text)
		if k > 3 {
			k = 3
		}
		pieces = []string{text[:k/2], text[k/2 : k], text[k:]}
	}
	var conn net.Conn = lib.NewPeer(true, false, pieces...)
	if sym.Choice("broken", 2) == 1 {
		conn = broken{conn}
	}
	got, err := replication.NewReplica(conn).Receive()
	if cut < len(all) {
		sym.Reach("cut")
		sym.Assert(err != nil, "an incomplete message is not reported")
		sym.Assert(len(got) == 0, "an incomplete message gives records")
		return
	}
	sym.Reach("whole")
	sym.Assert(err == nil, "a complete message is reported as broken")
	equal(got, vs)
}

// Any announced length.
//
//verif:harness id=C13.length quick=60 thorough=200
//verif:bounds a log of 1..2 records behind an arbitrary 32-bit length, then the end of the connection
//verif:reach shorter longer
func Length() {
	vs := records(1 + sym.Choice("records", 2))
	body := lib.Packed(vs...)
	n := int(sym.Int64("length") & 0xffffffff)
	peer := lib.NewPeer(true, false, message(n, body))
	got, err := replication.NewReplica(peer).Receive()
	if sym.Case(n > len(body)) {
		sym.Reach("longer")
		sym.Assert(err != nil, "an incomplete message is not reported")
		sym.Assert(len(got) == 0, "an incomplete message gives records")
		return
	}
	sym.Reach("shorter")
	// the transmitted log is the first n bytes
	whole, at := 0, 0
	for i := range vs {
		at += len(lib.Packed(vs[i]))
		if sym.Case(n >= at) {
			whole = i + 1
		}
	}
	if err == nil {
		equal(got, vs[:whole])
	}
}

func listen(port int) *net.TCPListener {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: []byte{0, 0, 0, 0}, Port: port})
	sym.Assert(err == nil, "cannot listen")
	return l
}

// newMaster starts a master; the file has the given records, those after flushed are only buffered.
func newMaster(port int, file string, vs []*log.VertexLog, flushed int) (replication.Master, *log.PersistentFile) {
	m := replication.NewMaster(&net.TCPAddr{IP: []byte{0, 0, 0, 0}, Port: port})
	sym.Assert(m != nil, "no master")
	var p *log.PersistentFile
	if file != "" {
		f, err := os.OpenFile(file, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0755)
		sym.Assert(err == nil, "cannot open the file")
		p = log.NewPersistentFile(f)
		add(p, vs[:flushed]...)
		sym.Assert(p.Flush() == nil, "cannot flush")
		add(p, vs[flushed:]...)
		m.SetFile(p, file)
	}
	m.Start()
	return m, p
}

func add(p *log.PersistentFile, vs ...*log.VertexLog) {
	b := []byte(lib.Packed(vs...))
	n, err := p.Write(b)
	sym.Assert(err == nil && n == len(b), "cannot write")
}

func fetch(port int) ([]*log.VertexLog, error) {
	conn, err := net.Dial("tcp", "127.0.0.1:"+lib.Itoa(port))
	if err != nil {
		return nil, err
	}
	logs, err := replication.NewReplica(conn).Receive()
	_ = conn.Close()
	return logs, err
}

// A master and one replica after the other.
//
//verif:harness id=C13.master quick=60 thorough=900 explore delay=2,4 demote=2,4 fresh
//verif:bounds a master without a file, or with a file of 0..2 records of which any are only buffered; two replicas one after the other; schedules with at most 2 (quick) / 4 (thorough) delays or demotions
//verif:reach none empty some
func Master() {
	port := sym.FreePort()
	file, n, flushed := "", 0, 0
	var vs []*log.VertexLog
	if sym.Choice("file", 2) == 1 {
		file = sym.TempDir() + "/db"
		n = sym.Choice("records", 3)
		flushed = sym.Choice("flushed", n+1)
		vs = records(n)
	}
	m, _ := newMaster(port, file, vs, flushed)
	for i := 0; i < 2; i++ {
		got, err := fetch(port)
		if file == "" {
			sym.Reach("none")
			sym.Assert(err != nil && len(got) == 0, "a master without a file sends a log")
			continue
		}
		if n == 0 {
			sym.Reach("empty")
		} else {
			sym.Reach("some")
		}
		sym.Assert(err == nil, "the replica gets no log")
		equal(got, vs)
	}
	m.Stop()
	_ = listen(port).Close()
}

// Two replicas at once, and records written meanwhile.
//
//verif:harness id=C13.both quick=60 thorough=900 explore delay=2,3 demote=2,3 fresh
//verif:bounds two replicas at the same time while a second record is written (to the buffer, or flushed); schedules with at most 2 (quick) / 3 (thorough) delays or demotions
//verif:reach one two
func Both() {
	port := sym.FreePort()
	vs := records(2)
	flush := sym.Choice("flush", 2) == 1
	m, p := newMaster(port, sym.TempDir()+"/db", vs[:1], sym.Choice("flushed", 2))
	done := make(chan struct{})
	check := func() {
		got, err := fetch(port)
		sym.Assert(err == nil, "the replica gets no log")
		sym.Assert(len(got) == 1 || len(got) == 2, "the replica gets another number of records")
		if len(got) == 1 {
			sym.Reach("one")
		} else {
			sym.Reach("two")
		}
		equal(got, vs[:len(got)])
		done <- struct{}{}
	}
	go check()
	go check()
	add(p, vs[1])
	if flush {
		sym.Assert(p.Flush() == nil, "cannot flush")
	}
	<-done
	<-done
	m.Stop()
}

// A master that is stopped meanwhile.
//
//verif:harness id=C13.stopped quick=60 thorough=600 explore delay=4,6 demote=4,6 fresh
//verif:bounds a replica that connects while the master of a file of 1 record is stopped by one or two goroutines; schedules with at most 4 (quick) / 6 (thorough) delays or demotions
//verif:reach failed got
func Stopped() {
	port := sym.FreePort()
	vs := records(1)
	m, _ := newMaster(port, sym.TempDir()+"/db", vs, 0)
	done := make(chan struct{})
	go func() {
		got, err := fetch(port)
		if err != nil {
			sym.Reach("failed")
			sym.Assert(len(got) == 0, "a failed transfer gives records")
		} else {
			sym.Reach("got")
			equal(got, vs)
		}
		close(done)
	}()
	if sym.Choice("twice", 2) == 1 {
		again := make(chan struct{})
		go func() {
			m.Stop()
			close(again)
		}()
		m.Stop()
		<-again
	} else {
		m.Stop()
	}
	<-done
	_ = listen(port).Close()
}

// The whole server as a master.
//
//verif:harness id=C13.server quick=60 thorough=600 explore delay=1,2 demote=1,2 fresh
//verif:bounds a server with a database file and replication, 0..2 answered writes, then a replica; the data are those of an engine that is built from what it gets; schedules with at most 1 (quick) / 2 (thorough) delays or demotions
func Server() {
	c := common.Config{Port: sym.FreePort(), EnableReplica: true, ReplicaPort: sym.FreePort(), DatabaseFile: sym.TempDir() + "/db"}
	s := lib.StartServer(c)
	n := sym.Choice("writes", 3)
	client := lib.Dial(c.Port)
	for i := 0; i < n; i++ {
		client.Ask("append", "k", sym.String("t"+lib.Itoa(i), 1))
	}
	want := client.Ask("get", "k")
	got, err := fetch(c.ReplicaPort)
	sym.Assert(err == nil, "the replica gets no log")
	sym.Assert(len(got) == n, "the replica gets another number of records")
	s.Stop()
	g := lib.StartEngine("", got)
	sym.Assert(g.Command("get", "k").String() == want, "the replica answers differently")
	g.Stop()
}

// The whole server as a replica.
//
//verif:harness id=C13.follow quick=60 thorough=300 fresh
//verif:bounds a server with a database file of 0..1 records and a master that takes no connection or sends a log of 1..2 records cut at 1 of 7 bytes or whole, in 2 pieces; values of 2 arbitrary bytes; one schedule
//verif:reach refused cut whole
func Follow() {
	port := sym.FreePort()
	vs := records(1 + sym.Choice("records", 2))
	body := lib.Packed(vs...)
	all := message(len(body), body)
	file := sym.TempDir() + "/db"
	own := sym.Choice("own", 2) == 1
	if own {
		f, err := os.Create(file)
		sym.Assert(err == nil, "cannot create the file")
		_, err = f.WriteString(lib.Packed(lib.Record("set", "own", "1")))
		sym.Assert(err == nil && f.Close() == nil, "cannot write the file")
	}
	how := sym.Choice("how", 9)
	whole := how == 8
	if how == 0 {
		sym.Reach("refused")
	} else {
		cut := len(all)
		if whole {
			sym.Reach("whole")
		} else {
			sym.Reach("cut")
			cut = []int{0, 3, 4, 5, len(all) / 2, len(all) - 2, len(all) - 1}[how-1]
		}
		l := listen(port)
		go func() {
			conn, err := l.Accept()
			sym.Assert(err == nil, "the replica does not connect")
			_, _ = conn.Write([]byte(all[:cut/2]))
			_, _ = conn.Write([]byte(all[cut/2 : cut]))
			_ = conn.Close()
			_ = l.Close()
		}()
	}
	s := lib.StartServer(common.Config{DatabaseFile: file, MasterAddress: "127.0.0.1:" + lib.Itoa(port)})
	c := lib.Dial(s.Port)
	if own {
		sym.Assert(c.Ask("get", "own") == "$1\r\n1\r\n", "the own records are lost")
	}
	for i := range vs {
		key := sym.String("probe"+lib.Itoa(i), 1)
		want := "$-1\r\n"
		if whole {
			for j := range vs {
				k := string(vs[j].Arguments[0])
				if k == lib.Objs(key)[0].String() {
					want = string(vs[j].Arguments[1])
				}
			}
		}
		sym.Assert(c.Ask("get", key) == want, "the replica holds other data than the master")
	}
	s.Stop()
}

// Long logs.
//
//verif:harness id=C13.many quick=60 thorough=300 fresh steps=200000000
//verif:bounds a master's file of 70, 300 or 1100 records or of one record of 70000 or 200000 bytes between two small ones, all flushed or the last half only buffered, sent over a loopback connection; or the same message read in pieces of 1000, 4096 or 65536 bytes and cut 1 byte or half before its end, or not cut; three of the records arbitrary
func Many() {
	var vs []*log.VertexLog
	big := 0
	n := 3
	switch sym.Choice("size", 5) {
	case 0:
		n = 70
	case 1:
		n = 300
	case 2:
		n = 1100
	case 3:
		big = 70000
	case 4:
		big = 200000
	}
	for i := 0; i < n; i++ {
		v := "v" + lib.Itoa(i)
		if i == 0 || i == n/2 || i == n-1 {
			v = sym.String(v, 1)
		}
		if i == n/2 && big > 0 {
			b := make([]byte, big)
			for j := range b {
				b[j] = byte('a' + j%23)
			}
			v += string(b)
		}
		vs = append(vs, lib.Record("set", "k"+lib.Itoa(i), v))
	}
	if sym.Choice("master", 2) == 1 {
		port := sym.FreePort()
		flushed := n
		if sym.Choice("buffered", 2) == 1 {
			flushed = n / 2
		}
		m, _ := newMaster(port, sym.TempDir()+"/db", vs, flushed)
		got, err := fetch(port)
		sym.Assert(err == nil, "the replica gets no log")
		equal(got, vs)
		m.Stop()
		return
	}
	body := lib.Packed(vs...)
	all := message(len(body), body)
	whole := true
	switch sym.Choice("cut", 3) {
	case 1:
		all, whole = all[:len(all)-1], false
	case 2:
		all, whole = all[:len(all)/2], false
	}
	p := []int{1000, 4096, 65536}[sym.Choice("piece", 3)]
	var pieces []string
	for rest := all; rest != ""; {
		if p > len(rest) {
			p = len(rest)
		}
		pieces = append(pieces, rest[:p])
		rest = rest[p:]
	}
	got, err := replication.NewReplica(lib.NewPeer(true, false, pieces...)).Receive()
	if !whole {
		sym.Assert(err != nil, "an incomplete message is not reported")
		sym.Assert(len(got) == 0, "an incomplete message gives records")
		return
	}
	sym.Assert(err == nil, "a complete message is reported as broken")
	equal(got, vs)
}

// A replica that does not take its log.
//
//verif:harness id=C13.stalled quick=40 thorough=300 explore delay=1,2 demote=1,2 fresh sockbuf=700 steps=100000000
//verif:bounds a master's file of 3 records (two of them arbitrary), larger than what a connection takes before its peer reads (700 bytes in the model); one or two replicas connect and read nothing or 100 bytes, another one receives meanwhile; then the master is stopped; schedules with at most 1 (quick) / 2 (thorough) delays or demotions
func Stalled() {
	port := sym.FreePort()
	vs := []*log.VertexLog{
		lib.Record("set", "a", sym.String("first", 1)),
		lib.Record("set", "b", string(make([]byte, sym.Bulk(2000, 16<<20)))),
		lib.Record("set", "c", sym.String("last", 1)),
	}
	m, _ := newMaster(port, sym.TempDir()+"/db", vs, 3)
	var stalled []net.Conn
	for i := 1 + sym.Choice("stalled", 2); i > 0; i-- {
		conn, err := net.Dial("tcp", "127.0.0.1:"+lib.Itoa(port))
		sym.Assert(err == nil, "the master takes no connection")
		stalled = append(stalled, conn)
	}
	if sym.Choice("partial", 2) == 1 {
		b := make([]byte, 100)
		_, _ = stalled[0].Read(b)
	}
	sym.Quiesce()
	got, err := fetch(port)
	sym.Assert(err == nil, "the replica gets no log")
	equal(got, vs)
	m.Stop()
	for _, conn := range stalled {
		got, err := replication.NewReplica(conn).Receive()
		sym.Assert(err != nil && len(got) == 0, "an incomplete log is not reported")
		_ = conn.Close()
	}
}
