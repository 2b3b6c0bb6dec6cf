// Package c11 checks that an engine rebuilt from the log answers every read as the original does.
package c11

import (
	"strings"

	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// rebuilt compares what is read through the engine with what is read through an engine rebuilt from its file.
func rebuilt(g *lib.Eng, file string, kinds []int, keys, probes []string) {
	before := lib.ObserveEngine(g, kinds, keys, probes)
	g.Stop()
	logs, err := lib.LoadLog(file)
	sym.Assert(err == nil, "the log of a stopped engine is broken")
	h := lib.StartEngine("", logs)
	after := lib.ObserveEngine(h, kinds, keys, probes)
	for i := range before {
		ok := len(before[i].View) == len(after[i].View)
		for j := range before[i].View {
			ok = sym.And(ok, before[i].View[j] == after[i].View[j])
		}
		sym.Assert(ok, "the rebuilt engine answers a read differently")
	}
	h.Stop()
}

// spell gives the name in some letter case.
func spell(tag, name string) string {
	c := string([]byte{name[0], name[0] - 32})
	return sym.StringOf(tag+".case", 1, c) + name[1:]
}

func history(kind int, steps int, wellFormed bool) {
	file := sym.TempDir() + "/db"
	g := lib.StartEngine(file, nil)
	probe := sym.String("probe", 1)
	switch kind {
	case 0:
		g.Command("set", "p", "41")
	case 1:
		g.Command("rpush", "p", probe, "x", probe)
	case 2:
		g.Command("hset", "p", probe, "x", "y", "1")
	case 3:
		g.Command("sadd", "p", probe, "z")
	}
	var names []string
	for _, n := range lib.NamesOf(kind) {
		if lib.IsWrite(n) && n != "spop" {
			names = append(names, n)
		}
	}
	keys := []string{"p", "q"}
	probes := []string{probe, "y"}
	for i := 0; i < steps; i++ {
		tag := "c" + lib.Itoa(i)
		name := names[sym.Choice(tag+".name", len(names))]
		var args []string
		if wellFormed {
			args, _ = lib.Args(tag, name, keys,
				func(n string) string { s := sym.String(n, 1); probes = append(probes, s); return s },
				func(n string) string {
					if kind == 1 || steps > 1 {
						return lib.Dec(int64(sym.Range(n, -5, 5)))
					}
					return lib.Dec(sym.Int64(n))
				})
		} else {
			n := sym.Choice(tag+".n", 5)
			for j := 0; j < n; j++ {
				if sym.Choice(tag+".known"+lib.Itoa(j), 2) == 1 {
					args = append(args, "p")
				} else {
					args = append(args, sym.String(tag+".a"+lib.Itoa(j), 1))
				}
			}
		}
		g.Command(spell(tag, name), args...)
	}
	if sym.Choice("crossread", 2) == 1 { // reads in between are not part of the log
		g.Command(spell("read", "get"), "p")
		g.Command("llen", "q")
	}
	rebuilt(g, file, []int{kind}, keys, probes)
}

// Histories of string writes.
//
//verif:harness id=C11.strings quick=60 thorough=600
//verif:bounds an existing key, then 1 (quick) / 2 (thorough) string writes in either letter case of their first letter with well-formed arguments (1-byte texts and, when there is one write, 64-bit numbers arbitrary, otherwise numbers in -5..5) on two keys; all reads of both keys before and after the rebuild
func Strings() { history(0, 1+sym.Tier(), true) }

// Histories of list writes.
//
//verif:harness id=C11.lists quick=60 thorough=600
//verif:bounds as C11.strings, list writes with numbers in -5..5 on a list of 3
func Lists() { history(1, 1+sym.Tier(), true) }

// Histories of hash writes.
//
//verif:harness id=C11.hashes quick=60 thorough=600
//verif:bounds as C11.strings, hash writes on a hash of 1..2
func Hashes() { history(2, 1+sym.Tier(), true) }

// Histories of set writes.
//
//verif:harness id=C11.sets quick=60 thorough=600
//verif:bounds as C11.strings, set writes (SPOP aside) on a set of 1..2
func Sets() { history(3, 1+sym.Tier(), true) }

// Two writes of any kind.
//
//verif:harness id=C11.pairs quick=100 thorough=600
//verif:bounds two writes of one keyspace with well-formed arguments (numbers in -5..5) on two keys, one of them present
func Pairs() { history(sym.Choice("kind", 4), 2, true) }

// Failing requests.
//
//verif:harness id=C11.malformed quick=60 thorough=600
//verif:bounds one write of any keyspace with 0..4 arguments, each the name of an existing key or any 1-byte text
func Malformed() { history(sym.Choice("kind", 4), 1, false) }

// Arguments of any kind and bytes.
//
//verif:harness id=C11.kinds quick=60 thorough=600
//verif:bounds SET, APPEND, RPUSH, HSET and SADD with values of 0..3 (quick) / 0..5 (thorough) arbitrary bytes or of any RESP kind, under a key of 0..2 arbitrary bytes, named by a bulk or simple string
func Kinds() {
	file := sym.TempDir() + "/db"
	g := lib.StartEngine(file, nil)
	key := sym.String("key", sym.Choice("key.len", 3))
	text := sym.String("v", sym.Choice("v.len", 4+2*sym.Tier()))
	var o protocol.RedisObject
	switch sym.Choice("kind", 6) {
	case 0:
		o = protocol.NewBulkRedisString(text)
	case 1:
		o = protocol.NewSimpleRedisString("t")
	case 2:
		o = protocol.NewRedisInteger(sym.Int64("int"))
	case 3:
		o = protocol.NewRedisError("e")
	case 4:
		o = protocol.NewRedisArray([]protocol.RedisObject{protocol.NewBulkRedisString(text)})
	case 5:
		o = protocol.NewNullBulkRedisString()
	}
	k := protocol.NewBulkRedisString(key)
	simple := sym.Choice("simple", 2) == 1
	name := func(n string) []protocol.RedisObject {
		if simple {
			return []protocol.RedisObject{protocol.NewSimpleRedisString(n)}
		}
		return lib.Objs(n)
	}
	which := sym.Choice("command", 5)
	kind := []int{0, 0, 1, 2, 3}[which]
	switch which {
	case 0:
		g.Request(append(name("set"), k, o))
	case 1:
		g.Command("append", key, "a")
		g.Request(append(name("append"), k, o))
	case 2:
		g.Request(append(name("rpush"), k, o, k))
	case 3:
		g.Request(append(name("hset"), k, o, o, k, o))
	case 4:
		g.Request(append(name("sadd"), k, o, k))
	}
	rebuilt(g, file, []int{kind}, []string{key}, []string{text, key, "t"})
}

// Popping everything.
//
//verif:harness id=C11.spop quick=40 thorough=100
//verif:bounds a set of 1..2 arbitrary members and SPOP of at least that many, with or without members added afterwards
func Spop() {
	file := sym.TempDir() + "/db"
	g := lib.StartEngine(file, nil)
	a, b := sym.String("a", 1), sym.String("b", 1)
	g.Command("sadd", "p", a, b)
	g.Command("spop", "p", []string{"2", "-2", "9"}[sym.Choice("count", 3)])
	if sym.Choice("again", 2) == 1 {
		g.Command("sadd", "p", b)
	}
	rebuilt(g, file, []int{3}, []string{"p"}, []string{a, b})
}

// Records longer than the file's buffer.
//
//verif:harness id=C11.long quick=40 thorough=100
//verif:bounds a record of 4090..4100 or 9000 bytes of value before and after short ones, two of the bytes arbitrary
func Long() {
	file := sym.TempDir() + "/db"
	g := lib.StartEngine(file, nil)
	n := []int{3960, 3970, 4000, 4090, 4096, 4100, 9000}[sym.Choice("length", 7)]
	g.Command("append", "p", sym.String("a", 1))
	g.Command("append", "p", strings.Repeat("x", n)+sym.String("b", 1))
	g.Command("append", "p", "c")
	before := g.Command("get", "p").String()
	g.Stop()
	logs, err := lib.LoadLog(file)
	sym.Assert(err == nil && len(logs) == 3, "the log of a stopped engine is broken")
	h := lib.StartEngine("", logs)
	sym.Assert(h.Command("get", "p").String() == before, "the rebuilt engine answers a read differently")
	h.Stop()
}

// The order of the records under every schedule.
//
//verif:harness id=C11.order quick=60 thorough=300 explore delay=2,4 demote=2,3 fresh
//verif:bounds three dependent writes with arbitrary 1-byte values; schedules of the engine's goroutines with at most 2 (quick) / 4 (thorough) delays
func Order() {
	file := sym.TempDir() + "/db"
	a, b, c := sym.String("a", 1), sym.String("b", 1), sym.String("c", 1)
	g := lib.StartEngine(file, nil)
	g.Command("set", "p", a)
	g.Command("append", "p", b)
	g.Command("append", "p", c)
	before := g.Command("get", "p").String()
	sym.Assert(before == "$3\r\n"+a+b+c+"\r\n", "wrong value")
	g.Stop()
	logs, err := lib.LoadLog(file)
	sym.Assert(err == nil && len(logs) == 3, "the log of a stopped engine is broken")
	h := lib.StartEngine("", logs)
	sym.Assert(h.Command("get", "p").String() == before, "the rebuilt engine answers a read differently")
	h.Stop()
}

// Long logs.
//
//verif:harness id=C11.many quick=60 thorough=300 steps=200000000
//verif:bounds 130 or 300 (thorough also 1100) writes of all four kinds to 11 keys by all writing commands but SPOP, two with an arbitrary argument; all reads of three keys before and after the rebuild
func Many() {
	file := sym.TempDir() + "/db"
	g := lib.StartEngine(file, nil)
	n := []int{130, 300, 1100}[sym.Choice("writes", 2+sym.Tier())]
	shift := 3 * sym.Choice("shift", 3)
	var probes []string
	for i := 0; i < n; i++ {
		k := "k" + lib.Itoa(i*i%11)
		v := "v" + lib.Itoa(i%23)
		if i == 60 || i == n-7 {
			v = sym.String("v"+lib.Itoa(i), 1)
			probes = append(probes, v)
		}
		m := lib.Itoa(i % 17)
		switch (i + shift) % 19 {
		case 0:
			g.Command("set", k, m)
		case 1:
			g.Command("append", k, v)
		case 2:
			g.Command("mset", k, v, "k1", m)
		case 3:
			g.Command("INCR", k)
		case 4:
			g.Command("decrby", k, m)
		case 5, 6, 7:
			g.Command("rpush", k, v, m, v)
		case 8:
			g.Command("lpush", k, v)
		case 9:
			g.Command("lset", k, "-1", v)
		case 10:
			g.Command("lrem", k, "1", m)
		case 11:
			g.Command("linsert", k, "before", m, v)
		case 12:
			g.Command("ltrim", k, "0", "20")
		case 13:
			g.Command("lpop", k)
		case 14, 15:
			g.Command("hset", k, v, m, m, v)
		case 16:
			g.Command("hdel", k, v, m)
		case 17:
			g.Command("sadd", k, v, m)
		case 18:
			g.Command("srem", k, v)
		}
	}
	if len(probes) > 2 {
		probes = probes[:2]
	}
	rebuilt(g, file, []int{0, 1, 2, 3}, []string{"k0", "k1", "k5"}, probes)
}

// Requests of many arguments and large values.
//
//verif:harness id=C11.wide quick=60 thorough=300 steps=200000000
//verif:bounds one small request, then one of 20, 70, 300 or 1100 values, one of them of 5000 or 70000 bytes or none, one arbitrary (MSET, RPUSH, LPUSH, HSET, SADD, SREM or HDEL after it), followed by a small one; all reads before and after the rebuild
func Wide() {
	file := sym.TempDir() + "/db"
	g := lib.StartEngine(file, nil)
	n := []int{20, 70, 300, 1100}[sym.Choice("values", 4)]
	kind := sym.Choice("kind", 5)
	g.Command("set", "first", "1")
	big := []int{0, 5000, 70000}[sym.Choice("big", 3)]
	cmd := []string{"mset", "rpush", "lpush", "hset", "sadd"}[kind]
	var args []string
	if kind > 0 {
		args = append(args, "k0")
	}
	var vs []string
	x := sym.String("x", 1)
	for i := 0; i < n; i++ {
		v := "v" + lib.Itoa(i)
		if i == n/2 {
			v = x
		}
		if i == 3 {
			b := make([]byte, big)
			for j := range b {
				b[j] = byte('a' + j%29)
			}
			v += string(b)
		}
		vs = append(vs, v)
		if kind == 0 || kind == 3 {
			args = append(args, "f"+lib.Itoa(i))
		}
		args = append(args, v)
	}
	g.Command(cmd, args...)
	switch sym.Choice("then", 2) {
	case 1:
		switch kind {
		case 0:
			g.Command("append", "f7", "z")
		case 1, 2:
			g.Command("lrem", "k0", "0", x)
		case 3:
			var fs []string
			for i := 0; i < n; i += 2 {
				fs = append(fs, "f"+lib.Itoa(i))
			}
			g.Command("hdel", append([]string{"k0"}, fs...)...)
		case 4:
			g.Command("srem", append([]string{"k0"}, vs[n/3:]...)...)
		}
	}
	rebuilt(g, file, []int{0, 1, 2, 3}, []string{"first", "k0", "f7", "f0", "f" + lib.Itoa(n-1)}, []string{x, "f3", "v" + lib.Itoa(n-1)})
}
