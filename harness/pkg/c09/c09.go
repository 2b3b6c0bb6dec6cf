// Package c09 checks that commands touch only what they name and refused ones nothing.
package c09

import (
	"github.com/lxdlam/vertex/pkg/command"
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// fill puts something under the keys p and q in every keyspace; key r has nothing.
func fill(d db.DB, probe string) {
	for _, k := range []string{"p", "q"} {
		lib.Exec(d, "set", k, "41")
		lib.Exec(d, "rpush", k, probe, k, "x")
		lib.Exec(d, "hset", k, probe, k, "y", "1")
		lib.Exec(d, "sadd", k, probe, "z"+k)
	}
}

func frame(kind int) {
	d := db.NewDB(1)
	probe := sym.String("probe", 1)
	fill(d, probe)
	names := lib.NamesOf(kind)
	name := names[sym.Choice("name", len(names))]
	keys := []string{"p", "q", "r"}
	text := func(n string) string { return sym.String(n, 1) }
	num := func(n string) string { return lib.Dec(sym.Int64(n)) }
	args, named := lib.Args("c", name, keys, text, num)
	probes := []string{probe, "y", "zp"}
	before := lib.Observe(d, keys, probes)
	lib.Exec(d, name, args...)
	lib.SameViews(before, lib.Observe(d, keys, probes), kind, named, name+" changed something it does not name")
	// a second command works on the same key of the same keyspace: copies made by the first must not alias
	if lib.IsWrite(name) {
		k := named[0]
		mid := lib.Observe(d, keys, probes)
		follow := []string{"append", "lpush", "hset", "sadd"}[kind]
		if kind == 2 {
			lib.Exec(d, follow, k, "n", "w")
		} else {
			lib.Exec(d, follow, k, "w")
		}
		lib.SameViews(mid, lib.Observe(d, keys, probes), kind, []string{k}, name+" then "+follow+" changed something not named")
	}
}

// Frame of the string commands.
//
//verif:harness id=C09.strings quick=60 thorough=300
//verif:bounds two keys that hold a string, a list of 3, a hash of 2 and a set of 2 each, and a missing key; every string command with well-formed arguments (1-byte texts and 64-bit numbers arbitrary), followed by another write; everything readable under all three keys in all keyspaces compared
func Strings() { frame(0) }

// Frame of the list commands.
//
//verif:harness id=C09.lists quick=60 thorough=300
//verif:bounds as C09.strings, for every list command
func Lists() { frame(1) }

// Frame of the hash commands.
//
//verif:harness id=C09.hashes quick=60 thorough=300
//verif:bounds as C09.strings, for every hash command
func Hashes() { frame(2) }

// Frame of the set commands.
//
//verif:harness id=C09.sets quick=60 thorough=300
//verif:bounds as C09.strings, for every set command
func Sets() { frame(3) }

// Keys that differ are kept apart, whatever their bytes, and keyspaces with one name as well.
//
//verif:harness id=C09.apart quick=60 thorough=300
//verif:bounds any two distinct keys of 1..3 (quick) / 1..5 (thorough) arbitrary bytes; a write of each kind to one of them leaves the other, and the other keyspaces, empty; writing to the other then leaves the first as it was
//verif:reach same-length
func Apart() {
	d := db.NewDB(1)
	max := 3 + 2*sym.Tier()
	k := sym.String("k", 1+sym.Choice("k.len", max))
	j := sym.String("j", 1+sym.Choice("j.len", max))
	sym.Assume(k != j)
	if len(k) == len(j) {
		sym.Reach("same-length")
	}
	write := func(kind int, key, v string) {
		switch kind {
		case 0:
			lib.Exec(d, "set", key, v)
		case 1:
			lib.Exec(d, "rpush", key, v)
		case 2:
			lib.Exec(d, "hset", key, "f", v)
		default:
			lib.Exec(d, "sadd", key, v)
		}
	}
	kind := sym.Choice("kind", 4)
	empty := lib.Observe(d, []string{k, j}, []string{"f", "1", "2"})
	write(kind, k, "1")
	after := lib.Observe(d, []string{k, j}, []string{"f", "1", "2"})
	lib.SameViews(empty, after, kind, []string{k}, "a write showed up under another key or in another keyspace")
	write(kind, j, "2")
	again := lib.Observe(d, []string{k, j}, []string{"f", "1", "2"})
	lib.SameViews(after, again, kind, []string{j}, "a write to another key changed this one")
	var pos int
	for i := range again {
		if again[i].Kind == kind && again[i].Key == j {
			pos = i
		}
	}
	sym.Assert(again[pos].View[0] != empty[pos].View[0], "the write to the second key is not visible")
}

// kindsOf makes an argument object of some kind.
func object(tag string, kind int, text string) protocol.RedisObject {
	switch kind {
	case 0:
		return protocol.NewBulkRedisString(text)
	case 1:
		return protocol.NewSimpleRedisString(text)
	case 2:
		return protocol.NewRedisInteger(sym.Int64(tag))
	case 3:
		return protocol.NewRedisError(text)
	case 4:
		return protocol.NewNullRedisArray()
	case 5:
		return protocol.NewRedisArray([]protocol.RedisObject{protocol.NewBulkRedisString(text)})
	}
	return protocol.NewNullBulkRedisString()
}

// Refusals: wrong arity and non-integer numbers.
//
//verif:harness id=C09.arity quick=60 thorough=300
//verif:bounds every command with 0..5 bulk string arguments of which the first names an existing key and the others are arbitrary 1-byte texts; whenever the command is refused, nothing under any key has changed; it must be refused when the number of arguments or a numeric argument is wrong
//verif:reach refused accepted
func Arity() {
	d := db.NewDB(1)
	fill(d, "m")
	name := lib.Names[sym.Choice("name", len(lib.Names))]
	n := sym.Choice("n", 6)
	args := []string{}
	for i := 0; i < n; i++ {
		if i == 0 {
			args = append(args, "p")
		} else {
			args = append(args, sym.String("a"+lib.Itoa(i), 1))
		}
	}
	var objs []protocol.RedisObject
	for _, a := range args {
		objs = append(objs, protocol.NewBulkRedisString(a))
	}
	must := lib.MustRefuse(name, args)
	keys := []string{"p", "q", "r"}
	probes := []string{"m", "y", "zp"}
	before := lib.Observe(d, keys, probes)
	c, err := command.NewCommand(name, 1, objs)
	if err != nil {
		sym.Reach("refused")
	} else {
		sym.Assert(c != nil, "neither a command nor an error")
		if must {
			d.ExecuteCommand(c)
			_, err = c.Result()
			sym.Assert(err != nil, name+" accepted a wrong number of arguments or a non-integer")
		} else {
			sym.Reach("accepted")
			return
		}
	}
	if name == "hset" && n == 1 {
		return // creates the empty hash, which the command then refuses to fill
	}
	lib.SameViews(before, lib.Observe(d, keys, probes), 9, nil, name+" was refused but changed data")
}

// Refusals: arguments of a wrong kind.
//
//verif:harness id=C09.kinds quick=60 thorough=300
//verif:bounds every command with arguments well-formed except that one, at any position, is an integer, an error, an array or a null array; it must be refused and change nothing
func Kinds() {
	d := db.NewDB(1)
	fill(d, "m")
	name := lib.Names[sym.Choice("name", len(lib.Names))]
	text := func(n string) string { return sym.String(n, 1) }
	num := func(n string) string { return "1" }
	args, _ := lib.Args("c", name, []string{"p"}, text, num)
	at := sym.Choice("at", len(args))
	kind := 2 + sym.Choice("kind", 4)
	var objs []protocol.RedisObject
	for i, a := range args {
		if i == at {
			objs = append(objs, object("int", kind, a))
		} else {
			objs = append(objs, protocol.NewBulkRedisString(a))
		}
	}
	keys := []string{"p", "q", "r"}
	probes := []string{"m", "y", "zp"}
	before := lib.Observe(d, keys, probes)
	_, err := lib.ExecObjs(d, name, objs)
	sym.Assert(err != nil, name+" accepted an argument of a wrong kind")
	lib.SameViews(before, lib.Observe(d, keys, probes), 9, nil, name+" was refused but changed data")
}

// Letter case: the same command in any spelling does the same.
//
//verif:harness id=C09.case quick=60 thorough=300
//verif:bounds every command name with the case of each of its letters chosen freely, same arguments, same reply and same effect as the lower-case spelling
func Case() {
	d := db.NewDB(1)
	e := db.NewDB(1)
	fill(d, "m")
	fill(e, "m")
	name := lib.Names[sym.Choice("name", len(lib.Names))]
	b := []byte(name)
	for i := range b {
		b[i] = byte(sym.IteInt(sym.Bool("up"+lib.Itoa(i)), int(b[i])-32, int(b[i])))
	}
	if name == "spop" || name == "srandmember" {
		lib.Exec(d, "srem", "p", "m")
		lib.Exec(e, "srem", "p", "m")
	}
	args, _ := lib.Args("c", name, []string{"p"}, func(n string) string { return "m" }, func(n string) string { return "1" })
	keys := []string{"p", "q", "r"}
	probes := []string{"m", "y", "zp"}
	sym.Assert(lib.Raw(d, string(b), args...) == lib.Raw(e, name, args...) || name == "hgetall" || name == "hkeys" || name == "hvals" || name == "smembers" || name == "sunion" || name == "sinter" || name == "sdiff", name+" answers differently in another letter case")
	lib.SameViews(lib.Observe(d, keys, probes), lib.Observe(e, keys, probes), 9, nil, name+" has a different effect in another letter case")
}

// Unknown names are refused.
//
//verif:harness id=C09.unknown quick=60 thorough=300
//verif:bounds every name of 0..8 (quick) / 0..12 (thorough) arbitrary ASCII bytes that is not a command in any letter case, with two arguments: refused, nothing changed
func Unknown() {
	d := db.NewDB(1)
	fill(d, "m")
	max := 9
	if sym.Tier() == 1 {
		max = 13
	}
	name := sym.String("name", sym.Choice("len", max))
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] < 128)
	}
	for _, n := range lib.Names {
		if len(n) == len(name) {
			same := true
			for i := 0; i < len(n); i++ {
				same = sym.And(same, sym.Or(name[i] == n[i], name[i] == n[i]-32))
			}
			sym.Assume(!same)
		}
	}
	keys := []string{"p", "q", "r"}
	probes := []string{"m", "y", "zp"}
	before := lib.Observe(d, keys, probes)
	_, err := lib.Exec(d, name, "p", "1")
	sym.Assert(err != nil, "an unknown command was accepted")
	lib.SameViews(before, lib.Observe(d, keys, probes), 9, nil, "an unknown command changed data")
}

// Large objects among many others.
//
//verif:harness id=C09.many quick=60 thorough=300 steps=200000000
//verif:bounds two keys that hold a string of 300 bytes, a list of 70, a hash of 70 and a set of 70 each (thorough 300), and 130 (thorough 300) other keys that hold something in every keyspace; any one command of any keyspace with well-formed arguments of 1 arbitrary byte and numbers of -2..2, 40 or 1000 on the two keys or a missing one; everything readable under them and three of the others compared
func Many() {
	d := db.NewDB(1)
	kind := sym.Choice("kind", 4)
	probe := sym.String("probe", 1)
	size, others := 70+230*sym.Tier(), 130+170*sym.Tier()
	for _, k := range []string{"p", "q"} {
		es, fs := []string{k}, []string{k}
		text := ""
		for i := 0; i < size; i++ {
			e := "e" + lib.Itoa(i)
			if i == size/2 {
				e = probe
			}
			es = append(es, e)
			fs = append(fs, e, "1")
		}
		for len(text) < 300 {
			text += "7"
		}
		if kind == 0 {
			lib.Exec(d, "set", k, text)
		} else {
			lib.Exec(d, "set", k, "41")
		}
		lib.Exec(d, "rpush", es...)
		lib.Exec(d, "hset", fs...)
		lib.Exec(d, "sadd", es...)
	}
	for i := 0; i < others; i++ {
		k := "k" + lib.Itoa(i)
		lib.Exec(d, "set", k, k)
		lib.Exec(d, "rpush", k, k)
		lib.Exec(d, "hset", k, k, k)
		lib.Exec(d, "sadd", k, k)
	}
	names := lib.NamesOf(kind)
	name := names[sym.Choice("name", len(names))]
	args, named := lib.Args("c", name, []string{"p", "q", "r"},
		func(n string) string { return sym.String(n, 1) },
		func(n string) string {
			return lib.Itoa([]int{-2, -1, 0, 1, 2, 40, 1000}[sym.Choice(n, 7)])
		})
	keys := []string{"p", "q", "r", "k0", "k64", "k" + lib.Itoa(others-1)}
	probes := []string{probe, "e1"}
	before := lib.Observe(d, keys, probes)
	lib.Exec(d, name, args...)
	lib.SameViews(before, lib.Observe(d, keys, probes), kind, named, name+" changed something it does not name")
}

// Values that are equal or were written together stay apart.
//
//verif:harness id=C09.twins quick=60 thorough=300
//verif:bounds three keys of which two or three are written by one MSET, by separate SETs, by an MSET that repeats the values of an earlier one, or by APPENDs to missing keys, with values that are numbers in -9..9 or 1-byte texts and may be equal; then one or two counter commands, APPENDs or SETs on any of them; every key compared with the reference
func Twins() {
	d := db.NewDB(1)
	s := &lib.Store{}
	keys := []string{"p", "q", "r"}
	val := func(n string) string {
		if sym.Choice(n+".text", 2) == 1 {
			return sym.String(n, 1)
		}
		return lib.Dec(int64(sym.Range(n+".num", -9, 9)))
	}
	v := val("v")
	w := v
	if sym.Choice("same", 2) == 0 {
		w = val("w")
	}
	switch sym.Choice("how", 5) {
	case 0:
		lib.Both(d, s, "mset", "p", v, "q", w)
	case 1:
		lib.Both(d, s, "mset", "p", v, "q", w, "r", v)
	case 2:
		lib.Both(d, s, "set", "p", v)
		lib.Both(d, s, "set", "q", w)
	case 3:
		lib.Both(d, s, "mset", "p", v, "q", w)
		lib.Both(d, s, "mset", "q", v, "r", w)
	case 4:
		lib.Both(d, s, "append", "p", v)
		lib.Both(d, s, "append", "q", w)
	}
	for i, n := 0, 1+sym.Choice("two", 2); i < n; i++ {
		n := "c" + lib.Itoa(i)
		k := keys[sym.Choice(n+".key", 3)]
		switch sym.Choice(n+".op", 6) {
		case 0:
			lib.Both(d, s, "incr", k)
		case 1:
			lib.Both(d, s, "decr", k)
		case 2:
			lib.Both(d, s, "incrby", k, "7")
		case 3:
			lib.Both(d, s, "decrby", k, "7")
		case 4:
			lib.Both(d, s, "append", k, "5")
		case 5:
			lib.Both(d, s, "set", k, w)
		}
		for _, o := range keys {
			lib.Both(d, s, "get", o)
		}
	}
}
