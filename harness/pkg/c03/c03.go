// Package c03 checks that every request gets exactly one well-formed reply.
package c03

import (
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

func fill(g *lib.Eng) {
	g.Command("set", "p", "41")
	g.Command("rpush", "p", "m", "x")
	g.Command("hset", "p", "m", "1")
	g.Command("sadd", "p", "m")
}

// ask sends the request and checks the reply, and that the engine serves a later request.
func ask(g *lib.Eng, objs []protocol.RedisObject) protocol.RedisObject {
	o := g.Request(objs)
	sym.Assert(lib.WellFormedReply(o), "the reply is not exactly one RESP value")
	p := g.Command("llen", "p")
	sym.Assert(p.String()[0] == ':', "a later request is not answered properly")
	return o
}

func object(tag string, text string) protocol.RedisObject {
	switch sym.Choice(tag+".kind", 7) {
	case 0:
		return protocol.NewBulkRedisString(text)
	case 1:
		return protocol.NewSimpleRedisString("t")
	case 2:
		return protocol.NewRedisInteger(sym.Int64(tag + ".int"))
	case 3:
		return protocol.NewRedisError("e")
	case 4:
		return protocol.NewNullRedisArray()
	case 5:
		return protocol.NewRedisArray([]protocol.RedisObject{protocol.NewBulkRedisString(text)})
	}
	return protocol.NewNullBulkRedisString()
}

// Every command with texts of arbitrary bytes.
//
//verif:harness id=C03.commands quick=60 thorough=600
//verif:bounds every command name with 0..5 bulk string arguments, each the name of an existing key or any 1-byte (quick) / 2-byte (thorough) text, on a database in which that key exists in every keyspace
func Commands() {
	g := lib.StartEngine("", nil)
	fill(g)
	name := lib.Names[sym.Choice("name", len(lib.Names))]
	n := sym.Choice("n", 6)
	args := []string{}
	for i := 0; i < n; i++ {
		if sym.Choice("a"+lib.Itoa(i)+".known", 2) == 1 {
			args = append(args, "p")
		} else {
			args = append(args, sym.String("a"+lib.Itoa(i), 1+sym.Tier()))
		}
	}
	ask(g, lib.Objs(append([]string{name}, args...)...))
}

// Well-formed commands with numbers.
//
//verif:harness id=C03.numbers quick=60 thorough=600
//verif:bounds every command with well-formed arguments: keys present or missing, 1-byte texts and 64-bit numbers arbitrary
func Numbers() {
	g := lib.StartEngine("", nil)
	fill(g)
	name := lib.Names[sym.Choice("name", len(lib.Names))]
	args, _ := lib.Args("c", name, []string{"p", "q", ""}, func(n string) string { return sym.String(n, 1) }, func(n string) string { return lib.Dec(sym.Int64(n)) })
	ask(g, lib.Objs(append([]string{name}, args...)...))
}

// Arguments of every kind.
//
//verif:harness id=C03.kinds quick=60 thorough=600
//verif:bounds every command name with 0..2 (quick) / 0..3 (thorough) arguments of every RESP kind (bulk, simple, integer, error, array, null array, null bulk)
func Kinds() {
	g := lib.StartEngine("", nil)
	fill(g)
	name := lib.Names[sym.Choice("name", len(lib.Names))]
	objs := lib.Objs(name)
	n := sym.Choice("n", 3+sym.Tier())
	for i := 0; i < n; i++ {
		objs = append(objs, object("a"+lib.Itoa(i), "p"))
	}
	ask(g, objs)
}

// Names of arbitrary bytes and of every kind, and the empty request.
//
//verif:harness id=C03.names quick=60 thorough=600
//verif:bounds the empty request; requests whose name is of any RESP kind or any text of 0..1 (quick) / 0..2 (thorough) arbitrary bytes or 2..8 (quick) / 2..12 (thorough) ASCII bytes
func Names() {
	g := lib.StartEngine("", nil)
	fill(g)
	switch sym.Choice("what", 3) {
	case 0:
		ask(g, nil)
	case 1:
		ask(g, append([]protocol.RedisObject{object("name", sym.String("text", 1))}, lib.Objs("p", "1")...))
	default:
		n := sym.Choice("len", 9+4*sym.Tier())
		name := sym.String("name", n)
		for i := 0; i < n && n >= 2+sym.Tier(); i++ {
			sym.Assume(name[i] < 128)
		}
		ask(g, lib.Objs(name, "p", "1"))
	}
}

// Error replies that quote what the client sent.
//
//verif:harness id=C03.quoted quick=60 thorough=600
//verif:bounds counter and list commands that fail at execution, with keys and values of 0..6 (quick) / 0..12 (thorough) arbitrary bytes
func Quoted() {
	g := lib.StartEngine("", nil)
	fill(g)
	max := 7 + 6*sym.Tier()
	k := sym.String("k", sym.Choice("k.len", max))
	v := sym.String("v", sym.Choice("v.len", max))
	g.Command("set", k, v)
	switch sym.Choice("op", 6) {
	case 0:
		ask(g, lib.Objs("incr", k))
	case 1:
		ask(g, lib.Objs("incrby", k, v))
	case 2:
		ask(g, lib.Objs("decrby", v, k))
	case 3:
		ask(g, lib.Objs("lset", k, "1", v))
	case 4:
		ask(g, lib.Objs("hset", k))
	default:
		ask(g, lib.Objs("rpush", "", v))
	}
}

// Requests of several clients are answered to the right one.
//
//verif:harness id=C03.clients quick=60 thorough=600 explore delay=2,3 demote=2,3 fresh
//verif:bounds two clients, one request each, posted concurrently; schedules with at most 2 (quick) / 3 (thorough) delays against round-robin scheduling
func Clients() {
	g := lib.StartEngine("", nil)
	for i := 0; i < 2; i++ {
		i := i
		go g.Post("client"+lib.Itoa(i), lib.Objs("append", "k"+lib.Itoa(i), "1"))
	}
	got := []int{0, 0}
	for i := 0; i < 2; i++ {
		id, o := g.Reply()
		sym.Assert(o.String() == ":1\r\n", "wrong reply")
		if id == "client0" {
			got[0]++
		} else if id == "client1" {
			got[1]++
		}
	}
	sym.Assert(got[0] == 1 && got[1] == 1, "a client got no reply or two")
}

// Requests of many arguments, or of long ones, and many requests.
//
//verif:harness id=C03.many quick=90 thorough=400 steps=200000000
//verif:bounds every command name or an unknown one with 17, 65, 130 or 300 arguments after the key, one of them arbitrary, or with one argument of 300, 5000 or 70000 bytes with an arbitrary last one (the key, or the one after it, or the last of three); on an empty database or one with data under the key
func Many() {
	g := lib.StartEngine("", nil)
	k := sym.Choice("name", len(lib.Names)+1)
	name := "unknown"
	if k < len(lib.Names) {
		name = lib.Names[k]
	}
	if k%2 == 0 {
		fill(g)
	}
	args := []string{name}
	shape := sym.Choice("shape", 7)
	if shape < 4 {
		n := []int{17, 65, 130, 300}[shape]
		args = append(args, "p")
		for i := 0; i < n; i++ {
			a := lib.Itoa(i % 40)
			if i == n/2 {
				a = sym.String("a", 1)
			}
			args = append(args, a)
		}
	} else {
		b := make([]byte, []int{300, 5000, 70000}[sym.Choice("size", 3)])
		for i := range b {
			b[i] = byte('0' + i%10)
		}
		b[len(b)-1] = sym.String("a", 1)[0]
		switch shape {
		case 4:
			args = append(args, string(b), "1")
		case 5:
			args = append(args, "p", string(b))
		case 6:
			args = append(args, "p", "0", string(b))
		}
	}
	ask(g, lib.Objs(args...))
	ask(g, lib.Objs(args...))
}

// Many requests one after the other.
//
//verif:harness id=C03.series quick=60 thorough=300 steps=200000000
//verif:bounds 150 or 400 requests of all command names in turn (some well-formed, some not), one in 50 with an arbitrary argument, to one engine
func Series() {
	g := lib.StartEngine("", nil)
	n := []int{150, 400}[sym.Choice("n", 2)]
	shift := sym.Choice("shift", 3)
	for i := 0; i < n; i++ {
		name := lib.Names[(i*7+shift)%len(lib.Names)]
		var args []string
		for j := 0; j < i%5; j++ {
			a := []string{"p", "q", "1", "-1", "before"}[(i+j*j+shift)%5]
			if i%50 == 49 && j == 2 {
				a = sym.String("a"+lib.Itoa(i), 1)
			}
			args = append(args, a)
		}
		o := g.Request(lib.Objs(append([]string{name}, args...)...))
		sym.Assert(lib.WellFormedReply(o), "the reply is not exactly one RESP value")
	}
}
