package lib

import (
	"os"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// Eng is an engine together with a client of its bus topics.
type Eng struct {
	E    db.Engine
	bus  concurrency.EventBus
	recv concurrency.Receiver
	n    int
}

// StartEngine starts an engine on the event bus; file may be empty.
func StartEngine(file string, logs []*log.VertexLog) *Eng {
	g := NewEng(-1, file)
	if logs != nil {
		g.E.BuildFromLog(logs)
	}
	go g.E.Start()
	return g
}

// NewEng makes an engine on the event bus with a replication port (-1: none) and a database file (empty: none).
func NewEng(port int, file string) *Eng {
	g := &Eng{bus: concurrency.GetEventBus()}
	g.bus.NewTopic("request")
	g.bus.NewTopic("response")
	var err error
	g.recv, err = g.bus.SubscribeWithOptions("response", "harness", 100, 10*time.Second)
	sym.Assert(err == nil, "subscribing to the responses failed")
	g.E = db.NewEngine(port)
	sym.Assert(g.E != nil, "no engine")
	if file != "" {
		f, err := os.OpenFile(file, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0755)
		sym.Assert(err == nil, "opening the file failed")
		g.E.SetFile(f, file)
	}
	return g
}

// Post hands a request to the engine.
func (g *Eng) Post(id string, objs []protocol.RedisObject) {
	for try := 0; try < 50; try++ {
		m := types.NewSimpleDataMap()
		m.Set("id", id)
		m.Set("request", protocol.NewRedisArray(objs))
		v, err := g.bus.Publish("request", m, nil).Get()
		sym.Assert(err == nil, "publishing the request failed")
		if v.(int) > 0 {
			return
		}
		sym.Yield()
	}
	sym.Assert(false, "the engine does not take requests")
}

// Reply waits for one response and returns the client id and the reply.
func (g *Eng) Reply() (string, protocol.RedisObject) {
	ev, err := g.recv.Receive()
	sym.Assert(err == nil && ev != nil, "receiving the response failed")
	m, ok := ev.Data().(types.DataMap)
	sym.Assert(ok, "the response carries no data")
	id, ok := m.Get("id")
	sym.Assert(ok, "the response carries no id")
	r, ok := m.Get("response")
	sym.Assert(ok, "the response carries no reply")
	o, ok := r.(protocol.RedisObject)
	sym.Assert(ok && o != nil, "the reply is not a RESP value")
	s, ok := id.(string)
	sym.Assert(ok, "the id is not a text")
	return s, o
}

// Request sends one request and returns its reply.
func (g *Eng) Request(objs []protocol.RedisObject) protocol.RedisObject {
	g.n++
	id := "client" + Itoa(g.n)
	g.Post(id, objs)
	rid, o := g.Reply()
	sym.Assert(rid == id, "the response carries another client's id")
	return o
}

// Objs makes bulk strings.
func Objs(args ...string) []protocol.RedisObject {
	var objs []protocol.RedisObject
	for _, a := range args {
		objs = append(objs, protocol.NewBulkRedisString(a))
	}
	return objs
}

// Command sends a request made of bulk strings.
func (g *Eng) Command(name string, args ...string) protocol.RedisObject {
	return g.Request(append(Objs(name), Objs(args...)...))
}

// Stop removes the topics and stops the engine, in the order the server does.
func (g *Eng) Stop() {
	g.bus.RemoveTopic("request")
	g.bus.RemoveTopic("response")
	g.E.Stop()
}

// LoadLog parses the records of a file.
func LoadLog(file string) ([]*log.VertexLog, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return log.ParseLog(f)
}
