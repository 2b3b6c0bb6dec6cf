// Package c26 checks that stopping flushes the log and does not crash in any configuration.
package c26

import (
	"net"
	"strings"
	"time"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// recorded checks that the file holds the appends of the texts to the key, in order, and possibly more.
func recorded(file, key string, texts []string, exactly bool) {
	logs, err := lib.LoadLog(file)
	sym.Assert(err == nil, "the database file of a stopped server is broken")
	sym.Assert(len(logs) >= len(texts), "a record is missing from the database file")
	if exactly {
		sym.Assert(len(logs) == len(texts), "the database file has too many records")
	}
	for i := range texts {
		l := logs[i]
		ok := sym.And(l.Name == "append", len(l.Arguments) == 2)
		sym.Assert(ok, "a wrong record in the database file")
		sym.Assert(string(l.Arguments[1]) == protocol.NewBulkRedisString(texts[i]).String(), "a wrong record in the database file")
	}
}

func free(port int) bool {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: []byte{0, 0, 0, 0}, Port: port})
	if err != nil {
		return false
	}
	_ = l.Close()
	return true
}

// config chooses a configuration; taken listens on its replication port if that is taken.
func config() (c common.Config, taken net.Listener) {
	c.Port = sym.FreePort()
	if sym.Choice("file", 2) == 1 {
		c.DatabaseFile = sym.TempDir() + "/db"
	}
	switch sym.Choice("replica", 5) {
	case 1:
		c.EnableReplica = true
		c.ReplicaPort = sym.FreePort()
	case 2:
		c.EnableReplica = true
		c.ReplicaPort = sym.FreePort()
		var err error
		taken, err = net.ListenTCP("tcp", &net.TCPAddr{IP: []byte{0, 0, 0, 0}, Port: c.ReplicaPort})
		sym.Assert(err == nil, "cannot listen")
		sym.Reach("taken")
	case 3:
		c.EnableReplica = true
		c.ReplicaPort = c.Port
	case 4:
		c.EnableReplica = true
	}
	return c, taken
}

// serve serves some writes and stops.
func serve(max int) {
	c, taken := config()
	s := lib.StartServer(c)
	n := sym.Choice("writes", max+1)
	var texts []string
	var client *lib.Client
	if n > 0 || sym.Choice("client", 2) == 1 {
		client = lib.Dial(c.Port)
	}
	for i := 0; i < n; i++ {
		t := sym.String("t"+lib.Itoa(i), 1)
		texts = append(texts, t)
		r := client.Ask("append", "k", t)
		sym.Assert(r[0] == ':', "a wrong reply")
	}
	switch sym.Choice("stop", 3) {
	case 0:
		s.S.Stop()
	case 1: // from two goroutines
		done := make(chan struct{})
		go func() {
			s.S.Stop()
			close(done)
		}()
		s.S.Stop()
		<-done
	case 2: // twice
		s.S.Stop()
		s.S.Stop()
	}
	if c.DatabaseFile != "" {
		recorded(c.DatabaseFile, "k", texts, true)
	}
	<-s.Done
	if client != nil {
		_ = client.C.Close()
	}
	sym.Assert(free(c.Port), "a stopped server listens")
	if taken != nil {
		_ = taken.Close()
	}
	if c.ReplicaPort != 0 {
		sym.Assert(free(c.ReplicaPort), "a stopped server listens to replicas")
	}
}

// Every configuration.
//
//verif:harness id=C26.config quick=60 thorough=200 fresh
//verif:bounds database file or none; replication off, on a free port, on a taken port, on the server's port, on the default port; 0..2 (quick) / 0..4 (thorough) answered writes of a client or no client; one, two concurrent or two successive stops; one schedule
//verif:reach taken
func Config() { serve(2 + 2*sym.Tier()) }

// Every configuration under many schedules.
//
//verif:harness id=C26.schedules quick=90 thorough=1500 explore delay=1,2 demote=1,2 fresh
//verif:bounds as C26.config with 0..1 answered writes; schedules of all goroutines of the server with at most 1 (quick) / 2 (thorough) delays or demotions
func Schedules() { serve(1) }

// Stopping while a client sends writes.
//
//verif:harness id=C26.busy quick=90 thorough=1500 explore delay=2,3 demote=2,3 fresh
//verif:bounds a client sends 2 writes at once and reads the answers until the connection ends while the server with a database file is stopped; schedules with at most 2 (quick) / 3 (thorough) delays or demotions
//verif:reach answered cut
func Busy() {
	c := common.Config{Port: sym.FreePort(), DatabaseFile: sym.TempDir() + "/db"}
	texts := []string{sym.String("a", 1), sym.String("b", 1)}
	s := lib.StartServer(c)
	client := lib.Dial(c.Port)
	sym.Assert(client.Ask("exists", "k") == ":0\r\n", "a wrong reply")
	answered := make(chan int, 1)
	go func() {
		n := 0
		if client.Send(lib.Request("append", "k", texts[0]) + lib.Request("append", "k", texts[1])) {
			for n < 2 {
				r, ok := client.Next()
				if !ok || r[0] != ':' {
					break
				}
				n++
			}
		}
		answered <- n
	}()
	s.S.Stop()
	n := 2
	select {
	case n = <-answered:
		// what was answered before is in the file now
		recorded(c.DatabaseFile, "k", texts[:n], false)
	default:
		n = <-answered
	}
	<-s.Done
	if n == 2 {
		sym.Reach("answered")
	} else {
		sym.Reach("cut")
	}
	recorded(c.DatabaseFile, "k", texts[:n], false)
}

// The engine alone.
//
//verif:harness id=C26.engine quick=60 thorough=600 explore delay=1,3 demote=2,3 fresh
//verif:bounds an engine with or without a database file, without replication, with it on a free or on a taken port, that is stopped after 0..2 answered writes or before it is started; the request topic is removed before or after; schedules with at most 1 (quick) / 3 (thorough) delays or 2 (quick) / 3 (thorough) demotions
func Engine() {
	port := -1
	var taken net.Listener
	switch sym.Choice("replica", 3) {
	case 1:
		port = sym.FreePort()
	case 2:
		port = sym.FreePort()
		var err error
		taken, err = net.ListenTCP("tcp", &net.TCPAddr{IP: []byte{0, 0, 0, 0}, Port: port})
		sym.Assert(err == nil, "cannot listen")
	}
	file := ""
	if sym.Choice("file", 2) == 1 {
		file = sym.TempDir() + "/db"
	}
	g := lib.NewEng(port, file)
	bus := concurrency.GetEventBus()
	var texts []string
	if sym.Choice("start", 2) == 1 {
		go g.E.Start()
		n := sym.Choice("writes", 3)
		for i := 0; i < n; i++ {
			t := sym.String("t"+lib.Itoa(i), 1)
			texts = append(texts, t)
			g.Command("append", "k", t)
		}
	}
	early := sym.Choice("early", 2) == 1
	if early {
		bus.RemoveTopic("request")
	}
	g.E.Stop()
	if file != "" {
		recorded(file, "k", texts, true)
	}
	if !early {
		bus.RemoveTopic("request")
	}
	bus.RemoveTopic("response")
	if taken != nil {
		_ = taken.Close()
	}
	if port > 0 {
		sym.Assert(free(port), "a stopped engine listens to replicas")
	}
}

// Many writes.
//
//verif:harness id=C26.many quick=60 thorough=200 fresh steps=200000000
//verif:bounds a server with a database file, with or without replication, that is stopped after 40, 130 or 300 answered writes, of 1 byte each or with one of 4096 or 70000 bytes among them or as the last, two of them arbitrary; one schedule
func Many() {
	c := common.Config{Port: sym.FreePort(), DatabaseFile: sym.TempDir() + "/db"}
	if sym.Choice("replica", 2) == 1 {
		c.EnableReplica = true
		c.ReplicaPort = sym.FreePort()
	}
	n := []int{40, 130, 300}[sym.Choice("writes", 3)]
	long := []int{0, 4096, 70000}[sym.Choice("long", 3)]
	at := []int{5, n - 1}[sym.Choice("at", 2)]
	s := lib.StartServer(c)
	client := lib.Dial(c.Port)
	var texts []string
	for i := 0; i < n; i++ {
		t := "t"
		if i == 1 || i == n-1 {
			t = sym.String("t"+lib.Itoa(i), 1)
		}
		if i == at {
			t += strings.Repeat("l", long)
		}
		texts = append(texts, t)
		r := client.Ask("append", "k", t)
		sym.Assert(r[0] == ':', "a wrong reply")
	}
	s.S.Stop()
	recorded(c.DatabaseFile, "k", texts, true)
	<-s.Done
	_ = client.C.Close()
}

// Stopping while a replica does not take its log.
//
//verif:harness id=C26.stalled quick=60 thorough=300 explore delay=1,1 demote=1,1 fresh sockbuf=700 steps=100000000
//verif:bounds a master with a log larger than what a connection takes before its peer reads (700 bytes in the model), one or two replicas that connect and read nothing, a client that is answered before and after (two arbitrary values), then Stop; schedules with at most one delay or demotion
func Stalled() {
	c := common.Config{DatabaseFile: sym.TempDir() + "/db", EnableReplica: true, ReplicaPort: sym.FreePort()}
	texts := []string{sym.String("a", 1), string(make([]byte, sym.Bulk(2000, 8<<20))), sym.String("b", 1)}
	s := lib.StartServer(c)
	cl := lib.Dial(s.Port)
	for i, n := 0, 0; i < 2; i++ {
		n += len(texts[i])
		sym.Assert(cl.Ask("append", "k", texts[i]) == ":"+lib.Itoa(n)+"\r\n", "a wrong reply")
	}
	var stalled []net.Conn
	for i := 1 + sym.Choice("two", 2); i > 0; i-- {
		r, err := net.Dial("tcp", "127.0.0.1:"+lib.Itoa(c.ReplicaPort))
		sym.Assert(err == nil, "the master takes no replica")
		stalled = append(stalled, r)
	}
	if sym.Choice("settled", 2) == 1 {
		time.Sleep(50 * time.Millisecond)
	}
	n := len(texts[1]) + 2
	sym.Assert(cl.Ask("append", "k", texts[2]) == ":"+lib.Itoa(n)+"\r\n", "a wrong reply")
	s.Stop()
	sym.Assert(free(c.ReplicaPort), "a stopped server keeps its replication port")
	recorded(c.DatabaseFile, "k", texts, true)
	for _, r := range stalled {
		_ = r.Close()
	}
}
