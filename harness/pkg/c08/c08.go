// Package c08 checks the set commands against finite sets of byte strings.
package c08

import (
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

const k = "set"

func str(n string, max int) string { return sym.String(n, sym.Choice(n+".len", max+1)) }

func read(d db.DB, s *lib.Store, k string, members ...string) {
	lib.Both(d, s, "scard", k)
	lib.Both(d, s, "smembers", k)
	for _, m := range members {
		lib.Both(d, s, "sismember", k, m)
	}
}

// Histories of additions and removals.
//
//verif:harness id=C08.history quick=120 thorough=700
//verif:bounds every history of 3 (quick) / 4 (thorough) SADD and SREM commands with one or two arbitrary 1-byte members; then SCARD, SMEMBERS and SISMEMBER of every member that occurred
func History() {
	d := db.NewDB(1)
	s := &lib.Store{}
	var ms []string
	steps := 3 + sym.Tier()
	for i := 0; i < steps; i++ {
		n := "s" + lib.Itoa(i)
		v := sym.String(n+".v", 1)
		ms = append(ms, v)
		op := "sadd"
		if sym.Choice(n+".op", 2) == 1 {
			op = "srem"
		}
		if sym.Choice(n+".two", 2) == 1 {
			w := sym.String(n+".w", 1)
			ms = append(ms, w)
			lib.Both(d, s, op, k, v, w)
		} else {
			lib.Both(d, s, op, k, v)
		}
	}
	read(d, s, k, ms...)
}

// Readings between the changes: nothing a reading leaves behind may be seen by a later one.
//
//verif:harness id=C08.reread quick=60 thorough=400
//verif:bounds every history of 5 (quick) / 7 (thorough) commands, each SADD or SREM of one arbitrary member of 1 byte or SPOP, with SCARD, SMEMBERS, SRANDMEMBER and the union, intersection and difference with itself read after any of them and at the end
func Reread() {
	d := db.NewDB(1)
	s := &lib.Store{}
	for i := 0; i < 5+2*sym.Tier(); i++ {
		n := "s" + lib.Itoa(i)
		switch sym.Choice(n+".op", 3) {
		case 0:
			lib.Both(d, s, "sadd", k, sym.String(n+".v", 1))
		case 1:
			lib.Both(d, s, "srem", k, sym.String(n+".v", 1))
		case 2:
			lib.Both(d, s, "spop", k)
		}
		if sym.Choice(n+".read", 2) == 0 {
			continue
		}
		read(d, s, k)
		lib.Both(d, s, "sunion", k, k)
		lib.Both(d, s, "sinter", k)
		lib.Both(d, s, "sdiff", k)
		lib.Both(d, s, "srandmember", k, "3")
	}
	read(d, s, k)
}

// Members of differing lengths.
//
//verif:harness id=C08.texts quick=60 thorough=300
//verif:bounds SADD of three members of 0..2 arbitrary bytes, SISMEMBER and SREM of a fourth
func Texts() {
	d := db.NewDB(1)
	s := &lib.Store{}
	a, b, c, x := str("a", 2), str("b", 2), str("c", 2), str("x", 2)
	lib.Both(d, s, "sadd", k, a, b, c)
	read(d, s, k, x)
	lib.Both(d, s, "srem", k, x, a)
	read(d, s, k, b)
}

// Random members: whatever is chosen is a distinct current member, and only SPOP removes it.
//
//verif:harness id=C08.random quick=100 thorough=600 maporder
//verif:bounds sets of 0..3 arbitrary 1-byte members (created, possibly emptied again), SPOP or SRANDMEMBER without a count or with any 64-bit count, every order in which Go may iterate over the map; then everything is read, a second SPOP, and everything is read again
//verif:reach none some all
func Random() {
	d := db.NewDB(1)
	s := &lib.Store{}
	n := sym.Choice("n", 4)
	var ms []string
	for i := 0; i < n; i++ {
		m := sym.String("m"+lib.Itoa(i), 1)
		ms = append(ms, m)
		lib.Both(d, s, "sadd", k, m)
	}
	if n == 0 {
		switch sym.Choice("how", 2) {
		case 1:
			lib.Both(d, s, "sadd", k, "x")
			lib.Both(d, s, "srem", k, "x")
		}
	}
	op := []string{"spop", "srandmember"}[sym.Choice("op", 2)]
	if sym.Choice("count", 2) == 1 {
		c := sym.Int64("c")
		lib.Both(d, s, op, k, lib.Dec(c))
		if c == 0 {
			sym.Reach("none")
		} else if c > int64(n) {
			sym.Reach("all")
		} else {
			sym.Reach("some")
		}
	} else {
		lib.Both(d, s, op, k)
	}
	read(d, s, k, ms...)
	lib.Both(d, s, "spop", k)
	read(d, s, k, ms...)
}

// Set algebra.
//
//verif:harness id=C08.algebra quick=120 thorough=700
//verif:bounds SDIFF, SINTER and SUNION of one, two or three arguments drawn from two sets of 0..2 arbitrary members each and a missing set, in every arrangement (a name may come twice); the operands are read afterwards
func Algebra() {
	d := db.NewDB(1)
	s := &lib.Store{}
	names := []string{"a", "b", "none"}
	for i, nm := range names[:2] {
		n := sym.Choice("n"+lib.Itoa(i), 3)
		for j := 0; j < n; j++ {
			lib.Both(d, s, "sadd", nm, sym.String("m"+lib.Itoa(i)+lib.Itoa(j), 1))
		}
	}
	op := []string{"sdiff", "sinter", "sunion"}[sym.Choice("op", 3)]
	n := 1 + sym.Choice("n", 3)
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, names[sym.Choice("arg"+lib.Itoa(i), 3)])
	}
	lib.Both(d, s, op, args...)
	read(d, s, "a")
	read(d, s, "b")
	lib.Both(d, s, "sadd", "a", "z")
	read(d, s, "b")
	read(d, s, "none")
}

// Larger operands.
//
//verif:harness id=C08.algebra3 quick=60 thorough=600
//verif:bounds SDIFF, SINTER and SUNION of two sets of 3 and 2 (quick) / 3 and 3 (thorough) arbitrary 1-byte members, in both orders
func Algebra3() {
	d := db.NewDB(1)
	s := &lib.Store{}
	lib.Both(d, s, "sadd", "a", sym.String("p", 1), sym.String("q", 1), sym.String("r", 1))
	if sym.Tier() == 1 {
		lib.Both(d, s, "sadd", "b", sym.String("x", 1), sym.String("y", 1), sym.String("z", 1))
	} else {
		lib.Both(d, s, "sadd", "b", sym.String("x", 1), sym.String("y", 1))
	}
	op := []string{"sdiff", "sinter", "sunion"}[sym.Choice("op", 3)]
	lib.Both(d, s, op, "a", "b")
	lib.Both(d, s, op, "b", "a")
	read(d, s, "a")
	read(d, s, "b")
}

// Sets under different names, the empty name, missing names.
//
//verif:harness id=C08.keys quick=60 thorough=300
//verif:bounds two sets under arbitrary names of 0..1 bytes, one command on a third arbitrary name, then all three read
//verif:reach missing empty
func Keys() {
	d := db.NewDB(1)
	s := &lib.Store{}
	a, b, c := str("a", 1), str("b", 1), str("c", 1)
	lib.Both(d, s, "sadd", a, "1", "2")
	lib.Both(d, s, "sadd", b, "3")
	if c == "" {
		sym.Reach("empty")
	} else if c != a && c != b {
		sym.Reach("missing")
	}
	v := sym.String("v", 1)
	switch sym.Choice("op", 4) {
	case 0:
		lib.Both(d, s, "srem", c, v)
	case 1:
		lib.Both(d, s, "sadd", c, v)
	case 2:
		lib.Both(d, s, "spop", c, "0")
	case 3:
		lib.Both(d, s, "sunion", c, a)
	}
	read(d, s, a, v)
	read(d, s, b, v)
	read(d, s, c, v)
}

// Sets of many members.
//
//verif:harness id=C08.many quick=90 thorough=400 steps=200000000
//verif:bounds two sets of 9, 17, 33, 65, 129 or 300 (thorough also 1030) members and a third of that size, added by one SADD or one by one, one member of each arbitrary; SREM of one or of every second member, SADD of an old and a new one, or SPOP or SRANDMEMBER of any of six counts; SUNION, SINTER and SDIFF in both orders, then SCARD, SMEMBERS and SISMEMBER of one member in 16
func Many() {
	d := db.NewDB(1)
	s := &lib.Store{}
	sizes := []int{9, 17, 33, 65, 129, 300, 1030}
	z := sym.Choice("n", len(sizes)-1+sym.Tier())
	n := sizes[z]
	op := sym.Choice("op", 7)
	var ms, os []string
	for i := 0; i < n; i++ {
		ms = append(ms, lib.Itoa(i))
		if i%3 == 0 {
			os = append(os, lib.Itoa(2*i))
		}
	}
	ms[n/2] = sym.String("m", 1)
	os[1] = sym.String("o", 1)
	if (z+op)%2 == 0 {
		lib.Both(d, s, "sadd", append([]string{k}, ms...)...)
	} else {
		for _, m := range ms {
			lib.Both(d, s, "sadd", k, m)
		}
	}
	lib.Both(d, s, "sadd", append([]string{"other"}, os...)...)
	m := ms[n/2]
	if op == 0 {
		m = ms[[]int{0, 7, n / 2, n - 1}[sym.Choice("at", 4)]]
	}
	counts := []int{1, 8, n / 2, n - 1, n, n + 5}
	switch op {
	case 0:
		lib.Both(d, s, "srem", k, m, "none", m)
	case 1:
		var del []string
		for i := 0; i < n; i += 2 {
			del = append(del, ms[i])
		}
		lib.Both(d, s, "srem", append([]string{k}, del...)...)
	case 2:
		lib.Both(d, s, "sadd", k, m, "new", m)
	case 3:
		lib.Both(d, s, "spop", k, lib.Itoa(counts[sym.Choice("count", len(counts))]))
	case 4:
		lib.Both(d, s, "srandmember", k, lib.Itoa(counts[sym.Choice("count", len(counts))]))
	case 5:
		lib.Both(d, s, "sunion", k, "other")
		lib.Both(d, s, "sinter", k, "other")
		lib.Both(d, s, "sdiff", k, "other")
	case 6:
		lib.Both(d, s, "sunion", "other", "none", k)
		lib.Both(d, s, "sinter", "other", k)
		lib.Both(d, s, "sdiff", "other", "none", k)
	}
	read(d, s, k)
	lib.Both(d, s, "smembers", "other")
	for i := 0; i < n; i += 1 + n/16 {
		lib.Both(d, s, "sismember", k, ms[i])
	}
}

// Algebra over many operands.
//
//verif:harness id=C08.operands quick=40 thorough=200 steps=200000000
//verif:bounds SUNION, SINTER and SDIFF of 5, 9, 17 or 33 sets of 2 to 4 members, some missing and some named twice, with two arbitrary members; a set is read afterwards
func Operands() {
	d := db.NewDB(1)
	s := &lib.Store{}
	n := []int{5, 9, 17, 33}[sym.Choice("n", 4)]
	var names []string
	for i := 0; i < n; i++ {
		nm := "s" + lib.Itoa(i)
		names = append(names, nm)
		switch {
		case i == n-1:
			lib.Both(d, s, "sadd", nm, "common", sym.String("last", 1))
		case i == 0:
			lib.Both(d, s, "sadd", nm, "common", "1", "2", sym.String("first", 1))
		default:
			lib.Both(d, s, "sadd", nm, "common", lib.Itoa(i+2))
		}
	}
	if sym.Choice("missing", 2) == 1 {
		names[n/2] = "none"
	}
	names[n/2+1] = names[1]
	lib.Both(d, s, []string{"sdiff", "sinter", "sunion"}[sym.Choice("op", 3)], names...)
	read(d, s, "s0")
	read(d, s, names[n-1])
}
