// Package c10 checks that commands classified as reads never change data.
package c10

import (
	"github.com/lxdlam/vertex/pkg/command"
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

func objects(args []string) []protocol.RedisObject {
	var objs []protocol.RedisObject
	for _, a := range args {
		objs = append(objs, protocol.NewBulkRedisString(a))
	}
	return objs
}

// same asserts that nothing observable changed, and that a command that changed something says so.
func changed(a, b []lib.Part) bool {
	ok := true
	for i := range a {
		ok = sym.And(ok, len(a[i].View) == len(b[i].View))
		for j := range a[i].View {
			ok = sym.And(ok, a[i].View[j] == b[i].View[j])
		}
	}
	return !ok
}

func classify(kind int) {
	d := db.NewDB(1)
	probe := sym.String("probe", 1)
	fill := sym.Choice("fill", 3)
	if fill > 0 {
		for _, k := range []string{"p", "q"} {
			if kind == 0 {
				lib.Exec(d, "set", k, []string{"41", "-7"}[fill-1])
			} else if kind == 1 {
				lib.Exec(d, "rpush", k, probe, k, "x")
			} else if kind == 2 {
				lib.Exec(d, "hset", k, probe, k, "y", "1")
			} else {
				lib.Exec(d, "sadd", k, probe, "z"+k)
			}
			if fill == 2 { // empty containers exist as well
				if kind == 1 {
					lib.Exec(d, "lpop", k)
					lib.Exec(d, "lpop", k)
					lib.Exec(d, "lpop", k)
				} else if kind == 2 {
					lib.Exec(d, "hdel", k, probe, "y")
				} else if kind == 3 {
					lib.Exec(d, "srem", k, probe, "z"+k)
				}
			}
		}
	}
	names := lib.NamesOf(kind)
	name := names[sym.Choice("name", len(names))]
	keys := []string{"p", "q", "r"}
	args, _ := lib.Args("c", name, keys, func(n string) string { return sym.String(n, 1) }, func(n string) string { return lib.Dec(sym.Int64(n)) })
	observed(d, name, args, keys, []string{probe, "y", "zp"})
}

// observed executes a command and compares everything readable before and after.
func observed(d db.DB, name string, args, keys, probes []string) {
	before := lib.Observe(d, keys, probes)
	c, err := command.NewCommand(name, 1, objects(args))
	if err != nil {
		return
	}
	isRead := c.Type() == command.AccessCommandType
	isWrite := c.Type() == command.ModifyCommandType
	sym.Assert(isRead || isWrite, name+" reports neither the read nor the modify type")
	d.ExecuteCommand(c)
	first, e1 := c.Result()
	after := lib.Observe(d, keys, probes)
	if !isWrite {
		sym.Reach("read")
		sym.Assert(!changed(before, after), name+" reports the read type but changed data")
		// the same read again gives the same answer (the random choice aside)
		if name != "srandmember" {
			c2, err := command.NewCommand(name, 1, objects(args))
			sym.Assert(err == nil, name+" refused the second time")
			d.ExecuteCommand(c2)
			second, e2 := c2.Result()
			sym.Assert((e1 == nil) == (e2 == nil), name+" fails once and succeeds once")
			if e1 == nil {
				sym.Assert(answer(first) == answer(second), name+" answers differently without a write in between")
			}
		}
		return
	}
	sym.Reach("write")
}

// answer is the serialisation of a reply, with the order of array elements left out (maps have none).
func answer(o protocol.RedisObject) string {
	if a, ok := o.(protocol.RedisArray); ok && o.String() != "*-1\r\n" {
		n := 0
		for _, e := range a.Data() {
			n += len(e.String())
		}
		return "array " + lib.Itoa(len(a.Data())) + " " + lib.Itoa(n)
	}
	return o.String()
}

// String commands.
//
//verif:harness id=C10.strings quick=60 thorough=300
//verif:bounds every string command with well-formed arguments (1-byte texts and 64-bit numbers arbitrary) on present, other and missing keys; everything readable under three keys in all keyspaces before and after
//verif:reach read write
func Strings() { classify(0) }

// List commands.
//
//verif:harness id=C10.lists quick=60 thorough=300
//verif:bounds as C10.strings, for every list command on lists of 3, emptied lists and missing lists
//verif:reach read write
func Lists() { classify(1) }

// Hash commands.
//
//verif:harness id=C10.hashes quick=60 thorough=300
//verif:bounds as C10.strings, for every hash command on hashes of 1..2, emptied and missing hashes
//verif:reach read write
func Hashes() { classify(2) }

// Set commands.
//
//verif:harness id=C10.sets quick=60 thorough=300
//verif:bounds as C10.strings, for every set command on sets of 1..2, emptied and missing sets
//verif:reach read write
func Sets() { classify(3) }

// The random reads.
//
//verif:harness id=C10.random quick=60 thorough=300 maporder
//verif:bounds SRANDMEMBER without and with any 64-bit count on sets of 1..2 arbitrary members under every map iteration order
func Random() {
	d := db.NewDB(1)
	a, b := sym.String("a", 1), sym.String("b", 1)
	lib.Exec(d, "sadd", "p", a, b)
	var args []string
	if sym.Choice("count", 2) == 1 {
		args = append(args, lib.Dec(sym.Int64("n")))
	}
	card := lib.Raw(d, "scard", "p")
	lib.Exec(d, "srandmember", append([]string{"p"}, args...)...)
	sym.Assert(lib.Raw(d, "scard", "p") == card, "SRANDMEMBER changed the number of members")
	sym.Assert(lib.Raw(d, "sismember", "p", a) == ":1\r\n", "SRANDMEMBER removed a member")
	sym.Assert(lib.Raw(d, "sismember", "p", b) == ":1\r\n", "SRANDMEMBER removed a member")
}

// Several reads between two identical reads.
//
//verif:harness id=C10.several quick=60 thorough=300
//verif:bounds a list, hash, set or string of 1..2 (quick) / 1..3 (thorough) elements; an observation of all keys, 2 (quick) / 3 (thorough) reads of that keyspace with arbitrary arguments, the same observation again
func Several() {
	d := db.NewDB(1)
	kind := sym.Choice("kind", 4)
	n := 1 + sym.Choice("n", 2+sym.Tier())
	for i := 0; i < n; i++ {
		v := sym.String("m"+lib.Itoa(i), 1)
		switch kind {
		case 0:
			lib.Exec(d, "append", "p", v)
		case 1:
			lib.Exec(d, "rpush", "p", v)
		case 2:
			lib.Exec(d, "hset", "p", v, "1")
		default:
			lib.Exec(d, "sadd", "p", v)
		}
	}
	var names []string
	for _, x := range lib.NamesOf(kind) {
		c, err := command.NewCommand(x, 1, objects(wellFormed(x)))
		sym.Assert(err == nil, x+" refused")
		if c.Type() == command.AccessCommandType {
			names = append(names, x)
		}
	}
	keys := []string{"p"}
	before := lib.Observe(d, keys, []string{"y"})
	for i := 0; i < 2+sym.Tier(); i++ {
		t := "r" + lib.Itoa(i)
		name := names[sym.Choice(t, len(names))]
		args, _ := lib.Args(t, name, keys, func(n string) string { return sym.String(n, 1) }, func(n string) string { return lib.Dec(sym.Int64(n)) })
		lib.Exec(d, name, args...)
	}
	sym.Assert(!changed(before, lib.Observe(d, keys, []string{"y"})), "reads changed what can be read")
}

func wellFormed(name string) []string {
	switch name {
	case "set", "append", "mset", "incrby", "decrby", "lindex", "lpush", "rpush", "hget", "hexists", "hstrlen", "hmget", "hdel", "sadd", "srem", "sismember":
		return []string{"p", "1"}
	case "getrange", "lrange", "ltrim", "lrem", "lset", "hset":
		return []string{"p", "1", "1"}
	case "linsert":
		return []string{"p", "before", "1", "1"}
	}
	return []string{"p"}
}

// Reads of large objects.
//
//verif:harness id=C10.many quick=60 thorough=300 steps=200000000
//verif:bounds every command of every keyspace on two keys that hold a list, hash and set of 9, 33, 130 (thorough 300) elements and a string of as many bytes, one element arbitrary; numbers of -2, 0, 1, 5, 40 or 1000; everything readable under them before and after
//verif:reach read write
func Many() {
	d := db.NewDB(1)
	kind := sym.Choice("kind", 4)
	probe := sym.String("probe", 1)
	size := []int{9, 33, 130, 300}[sym.Choice("size", 3+sym.Tier())]
	for _, k := range []string{"p", "q"} {
		es, fs := []string{k}, []string{k}
		text := ""
		for i := 0; i < size; i++ {
			e := k + lib.Itoa(i)
			if i == size/2 {
				e = probe
			}
			es = append(es, e)
			fs = append(fs, e, "1")
			text += "7"
		}
		lib.Exec(d, "set", k, text)
		lib.Exec(d, "rpush", es...)
		lib.Exec(d, "hset", fs...)
		lib.Exec(d, "sadd", es...)
	}
	names := lib.NamesOf(kind)
	name := names[sym.Choice("name", len(names))]
	args, _ := lib.Args("c", name, []string{"p", "q", "r"},
		func(n string) string { return sym.String(n, 1) },
		func(n string) string {
			return lib.Itoa([]int{-2, 0, 1, 5, 40, 1000}[sym.Choice(n, 6)])
		})
	observed(d, name, args, []string{"p", "q", "r"}, []string{probe, "p1"})
}
