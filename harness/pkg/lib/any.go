package lib

import (
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// Kind tells which keyspace a command works on: 0 strings, 1 lists, 2 hashes, 3 sets.
func Kind(name string) int {
	switch name {
	case "lpop", "rpop", "lindex", "linsert", "llen", "lpush", "rpush", "lrange", "ltrim", "lrem", "lset":
		return 1
	case "hset", "hget", "hexists", "hdel", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen":
		return 2
	case "sadd", "srem", "sismember", "smembers", "srandmember", "spop", "sdiff", "sinter", "sunion", "scard":
		return 3
	}
	return 0
}

// NamesOf are the commands of one keyspace.
func NamesOf(kind int) []string {
	var r []string
	for _, n := range Names {
		if Kind(n) == kind {
			r = append(r, n)
		}
	}
	return r
}

// Args makes well-formed arguments for a command: keys from the list, other texts from text, numbers from num.
// It tells which arguments are keys.
func Args(tag, name string, keys []string, text func(string) string, num func(string) string) ([]string, []string) {
	key := func(i int) string { return keys[sym.Choice(tag+".key"+Itoa(i), len(keys))] }
	t := func(n string) string { return text(tag + "." + n) }
	m := func(n string) string { return num(tag + "." + n) }
	k := key(0)
	one := []string{k}
	switch name {
	case "set", "append":
		return []string{k, t("v")}, one
	case "mset":
		if sym.Choice(tag+".two", 2) == 1 {
			k2 := key(1)
			return []string{k, t("v"), k2, t("w")}, []string{k, k2}
		}
		return []string{k, t("v")}, one
	case "mget", "exists", "sdiff", "sinter", "sunion":
		if sym.Choice(tag+".two", 2) == 1 {
			k2 := key(1)
			return []string{k, k2}, []string{k, k2}
		}
		return []string{k}, one
	case "incrby", "decrby", "lindex":
		return []string{k, m("n")}, one
	case "spop", "srandmember":
		if sym.Choice(tag+".count", 2) == 1 {
			return []string{k, m("n")}, one
		}
		return []string{k}, one
	case "getrange", "lrange", "ltrim":
		return []string{k, m("n"), m("m")}, one
	case "lpush", "rpush", "hmget", "hdel", "sadd", "srem":
		if sym.Choice(tag+".more", 2) == 1 {
			return []string{k, t("v"), t("w")}, one
		}
		return []string{k, t("v")}, one
	case "lrem", "lset":
		return []string{k, m("n"), t("v")}, one
	case "linsert":
		return []string{k, []string{"before", "AFTER"}[sym.Choice(tag+".where", 2)], t("v"), t("w")}, one
	case "hset":
		if sym.Choice(tag+".more", 2) == 1 {
			return []string{k, t("f"), t("v"), t("g"), t("w")}, one
		}
		return []string{k, t("f"), t("v")}, one
	case "hget", "hexists", "hstrlen", "sismember":
		return []string{k, t("f")}, one
	}
	return one, one
}

// Raw is the serialised answer to a read, or the text "error".
func Raw(d db.DB, name string, args ...string) string {
	return onDB(d).raw(name, args...)
}

// asker executes reads.
type asker func(name string, args ...string) (protocol.RedisObject, error)

func onDB(d db.DB) asker {
	return func(name string, args ...string) (protocol.RedisObject, error) { return Exec(d, name, args...) }
}

func onEng(g *Eng) asker {
	return func(name string, args ...string) (protocol.RedisObject, error) { return g.Command(name, args...), nil }
}

func (ask asker) raw(name string, args ...string) string {
	o, err := ask(name, args...)
	if err != nil {
		return "error"
	}
	return o.String()
}

// Part of what can be observed about one key in one keyspace.
type Part struct {
	Kind int
	Key  string
	View []string
}

// Observe reads everything observable under the keys; probes are the fields, members and positions looked at.
func Observe(d db.DB, keys []string, probes []string) []Part {
	return onDB(d).observe([]int{0, 1, 2, 3}, keys, probes)
}

// ObserveEngine reads through an engine what can be observed under the keys in some keyspaces.
func ObserveEngine(g *Eng, kinds []int, keys []string, probes []string) []Part {
	return onEng(g).observe(kinds, keys, probes)
}

func (ask asker) observe(kinds []int, keys []string, probes []string) []Part {
	var r []Part
	for _, k := range keys {
		for _, kind := range kinds {
			p := Part{Kind: kind, Key: k}
			switch kind {
			case 0:
				p.View = append(p.View, ask.raw("get", k), ask.raw("strlen", k), ask.raw("exists", k))
			case 1:
				p.View = append(p.View, ask.raw("llen", k), ask.raw("lrange", k, "0", "-1"), ask.raw("lindex", k, "-1"))
			case 2:
				p.View = append(p.View, ask.raw("hlen", k))
				for _, f := range probes {
					p.View = append(p.View, ask.raw("hget", k, f))
				}
				p.View = append(p.View, ask.arrayLen("hgetall", k), ask.arrayLen("hkeys", k), ask.arrayLen("hvals", k))
			case 3:
				p.View = append(p.View, ask.raw("scard", k))
				for _, f := range probes {
					p.View = append(p.View, ask.raw("sismember", k, f))
				}
				p.View = append(p.View, ask.arrayLen("smembers", k))
			}
			r = append(r, p)
		}
	}
	return r
}

func (ask asker) arrayLen(name, k string) string {
	o, err := ask(name, k)
	if err != nil {
		return "error"
	}
	a, ok := o.(protocol.RedisArray)
	if !ok {
		return "not an array"
	}
	if o.String() == "*-1\r\n" {
		return "null"
	}
	return Itoa(len(a.Data()))
}

// SameViews asserts that two observations agree outside the exempted keys of one keyspace.
func SameViews(a, b []Part, kind int, exempt []string, msg string) {
	for i := range a {
		if a[i].Kind == kind && elem(exempt, a[i].Key) >= 0 {
			continue
		}
		ok := len(a[i].View) == len(b[i].View)
		for j := range a[i].View {
			ok = sym.And(ok, a[i].View[j] == b[i].View[j])
		}
		sym.Assert(ok, msg)
	}
}

// MustRefuse tells whether a command must be refused because of the number of its arguments or a numeric argument.
func MustRefuse(name string, a []string) bool {
	n := len(a)
	bad := func(i int) bool { _, ok := RefInt(a[i]); return !ok }
	switch name {
	case "get", "strlen", "lpop", "rpop", "llen", "hkeys", "hvals", "hgetall", "hlen", "smembers", "scard":
		return n != 1
	case "set", "append", "hget", "hexists", "hstrlen", "sismember":
		return n != 2
	case "mset":
		return n == 0 || n%2 != 0
	case "mget", "exists", "sdiff", "sinter", "sunion", "incr", "decr":
		return n == 0
	case "incrby", "decrby", "spop", "srandmember":
		return n == 0 || n > 2 || n == 2 && bad(1)
	case "lindex":
		return n != 2 || bad(1)
	case "getrange", "lrange", "ltrim":
		return n != 3 || bad(1) || bad(2)
	case "lset", "lrem":
		return n != 3 || bad(1)
	case "linsert":
		if n != 4 {
			return true
		}
		w := lower(a[1])
		return w != "before" && w != "after"
	case "hset":
		return n < 3 || n%2 != 1
	case "lpush", "rpush", "hmget", "hdel", "sadd", "srem":
		return n < 2
	}
	return true
}
