// Package c05 checks the counter commands.
package c05

import (
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

var ops = []string{"incr", "decr", "incrby", "decrby"}

func step(d db.DB, s *lib.Store, k, n string) {
	op := ops[sym.Choice(n+".op", len(ops))]
	if op == "incrby" || op == "decrby" {
		lib.Both(d, s, op, k, lib.Dec(sym.Int64(n+".by")))
	} else {
		lib.Both(d, s, op, k)
	}
}

// Exact arithmetic.
//
//verif:harness id=C05.exact quick=100 thorough=600
//verif:bounds SET to any 64-bit integer, then 2 (quick) / 3 (thorough) counter commands with any 64-bit amounts, a GET after every one
//verif:reach overflow
func Exact() {
	d := db.NewDB(1)
	s := &lib.Store{}
	lib.Both(d, s, "set", "n", lib.Dec(sym.Int64("init")))
	steps := 2 + sym.Tier()
	for i := 0; i < steps; i++ {
		step(d, s, "n", "s"+lib.Itoa(i))
		lib.Both(d, s, "get", "n")
	}
	lib.Both(d, s, "strlen", "n")
	lib.Both(d, s, "exists", "n", "m")
}

// Counter commands among other writes.
//
//verif:harness id=C05.mixed quick=60 thorough=400
//verif:bounds every history of 3 (quick) / 4 (thorough) commands out of INCR, DECR, INCRBY with -1..99, APPEND of one arbitrary byte and SET to a text of one arbitrary byte on one key holding a number of 1..2 digits, with GET, STRLEN and GETRANGE after every one
func Mixed() {
	d := db.NewDB(1)
	s := &lib.Store{}
	lib.Both(d, s, "set", "n", []string{"9", "-1", "10"}[sym.Choice("init", 3)])
	for i := 0; i < 3+sym.Tier(); i++ {
		n := "s" + lib.Itoa(i)
		switch sym.Choice(n+".op", 5) {
		case 0:
			lib.Both(d, s, "incr", "n")
		case 1:
			lib.Both(d, s, "decr", "n")
		case 2:
			lib.Both(d, s, "incrby", "n", []string{"-1", "0", "99"}[i%3])
		case 3:
			lib.Both(d, s, "append", "n", sym.String(n+".v", 1))
		case 4:
			lib.Both(d, s, "set", "n", sym.String(n+".v", 1))
		}
		lib.Both(d, s, "get", "n")
		lib.Both(d, s, "strlen", "n")
		lib.Both(d, s, "getrange", "n", "-2", "-1")
	}
}

// A value or an amount that may or may not be an integer.
//
//verif:harness id=C05.text quick=100 thorough=600
//verif:bounds value and amount are arbitrary strings of 0..3 (quick) / 0..4 (thorough) bytes (only one of them longer than 2); every counter command, then GET, STRLEN and a second INCR
//verif:reach number text
func Text() {
	d := db.NewDB(1)
	s := &lib.Store{}
	m := 3 + sym.Tier()
	nv, na := sym.Choice("nv", m+1), sym.Choice("na", m+1)
	if nv > 2 && na > 2 {
		return
	}
	v := sym.String("v", nv)
	lib.Both(d, s, "set", "n", v)
	op := ops[sym.Choice("op", len(ops))]
	if op == "incrby" || op == "decrby" {
		lib.Both(d, s, op, "n", sym.String("a", na))
	} else {
		if na > 0 {
			return
		}
		lib.Both(d, s, op, "n")
	}
	if s.Strs[0].V == v {
		sym.Reach("text")
	} else {
		sym.Reach("number")
	}
	lib.Both(d, s, "get", "n")
	lib.Both(d, s, "strlen", "n")
	lib.Both(d, s, "incr", "n")
	lib.Both(d, s, "get", "n")
}

// Values with 17 to 20 digits: the limits of the range, and texts just outside it.
//
//verif:harness id=C05.limits quick=100 thorough=600
//verif:bounds value = optional sign, 16..18 leading digits of 2^63, 1..3 arbitrary bytes; every counter command with any 64-bit amount
//verif:reach overflow
func Limits() {
	d := db.NewDB(1)
	s := &lib.Store{}
	lead := []string{"9223372036854775", "92233720368547758", "922337203685477580"}
	v := lead[sym.Choice("lead", 3)] + sym.String("d", sym.Choice("nd", 3)+1)
	switch sym.Choice("sign", 3) {
	case 1:
		v = "-" + v
	case 2:
		v = "+" + v
	}
	lib.Both(d, s, "set", "n", v)
	step(d, s, "n", "s")
	lib.Both(d, s, "get", "n")
}

// Keys: a counter command touches its own key only, and a missing key is refused.
//
//verif:harness id=C05.keys quick=60 thorough=300
//verif:bounds two keys with any 64-bit values, every counter command on an arbitrary 1-byte key with 1, 2 or 3 arguments, then INCRBY and APPEND on the others
//verif:reach missing
func Keys() {
	d := db.NewDB(1)
	s := &lib.Store{}
	a, b := sym.String("a", 1), sym.String("b", 1)
	lib.Both(d, s, "set", a, lib.Dec(sym.Int64("va")))
	lib.Both(d, s, "set", b, lib.Dec(sym.Int64("vb")))
	k := sym.String("k", 1)
	if k != a && k != b {
		sym.Reach("missing")
	}
	op := ops[sym.Choice("op", len(ops))]
	switch sym.Choice("args", 3) {
	case 0:
		lib.Both(d, s, op, k)
	case 1:
		lib.Both(d, s, op, k, lib.Dec(sym.Int64("by")))
	case 2:
		lib.Both(d, s, op, k, "1", "2")
	}
	lib.Both(d, s, "incrby", b, "-5")
	lib.Both(d, s, "get", a)
	lib.Both(d, s, "get", b)
	lib.Both(d, s, "append", a, "7")
	lib.Both(d, s, "get", a)
	lib.Both(d, s, "exists", a, b)
}
