// Package c07 checks the hash commands against maps from fields to values.
package c07

import (
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

const k = "hash"

func str(n string, max int) string { return sym.String(n, sym.Choice(n+".len", max+1)) }

// read compares everything that can be read about a hash.
func read(d db.DB, s *lib.Store, k string, fields ...string) {
	lib.Both(d, s, "hlen", k)
	lib.Both(d, s, "hkeys", k)
	lib.Both(d, s, "hvals", k)
	lib.Both(d, s, "hgetall", k)
	for _, f := range fields {
		lib.Both(d, s, "hget", k, f)
		lib.Both(d, s, "hexists", k, f)
		lib.Both(d, s, "hstrlen", k, f)
		lib.Both(d, s, "hmget", k, f, f)
	}
}

// step is one modification with arbitrary fields; it returns the fields it names.
func step(d db.DB, s *lib.Store, n string) []string {
	f, g := sym.String(n+".f", 1), sym.String(n+".g", 1)
	switch sym.Choice(n+".op", 5) {
	case 0:
		lib.Both(d, s, "hset", k, f, sym.String(n+".v", 1))
		return []string{f}
	case 1:
		lib.Both(d, s, "hset", k, f, sym.String(n+".v", 1), g, sym.String(n+".w", 1))
	case 2:
		lib.Both(d, s, "hdel", k, f)
		return []string{f}
	case 3:
		lib.Both(d, s, "hdel", k, f, g)
	case 4:
		lib.Both(d, s, "hmget", k, f, g)
	}
	return []string{f, g}
}

// Histories of modifications.
//
//verif:harness id=C07.history quick=120 thorough=700
//verif:bounds every history of 2 (quick) / 3 (thorough) commands out of HSET with one or two pairs, HDEL with one or two fields and HMGET, after an HSET of one pair; fields and values arbitrary 1-byte strings (all equality patterns); then HLEN, HKEYS, HVALS, HGETALL and HGET, HEXISTS, HSTRLEN, HMGET of every field that occurred
func History() {
	d := db.NewDB(1)
	s := &lib.Store{}
	f0 := sym.String("f", 1)
	lib.Both(d, s, "hset", k, f0, sym.String("v", 1))
	fs := []string{f0}
	steps := 2 + sym.Tier()
	for i := 0; i < steps; i++ {
		fs = append(fs, step(d, s, "s"+lib.Itoa(i))...)
	}
	read(d, s, k, fs...)
}

// Readings between the changes: nothing a reading leaves behind may be seen by a later one.
//
//verif:harness id=C07.reread quick=60 thorough=400
//verif:bounds every history of 4 (quick) / 6 (thorough) commands, each HSET or HDEL of one field out of two with an arbitrary value of 1 byte, with everything read after any of them and at the end
func Reread() {
	d := db.NewDB(1)
	s := &lib.Store{}
	for i := 0; i < 4+2*sym.Tier(); i++ {
		n := "s" + lib.Itoa(i)
		f := []string{"f", "gg"}[sym.Choice(n+".f", 2)]
		if sym.Choice(n+".op", 2) == 0 {
			lib.Both(d, s, "hset", k, f, sym.String(n+".v", 1))
		} else {
			lib.Both(d, s, "hdel", k, f)
		}
		if sym.Choice(n+".read", 2) == 0 {
			continue
		}
		read(d, s, k, "f", "gg")
	}
	read(d, s, k, "f", "gg")
}

// Fields and values of differing lengths, including empty ones, within one command.
//
//verif:harness id=C07.texts quick=100 thorough=600
//verif:bounds one HSET of three pairs with fields of 0..2 arbitrary bytes and values of 0..2 arbitrary bytes, every read with a fourth arbitrary field of 0..2 bytes, HDEL of that field and one more
//verif:reach present absent
func Texts() {
	d := db.NewDB(1)
	s := &lib.Store{}
	m := 2
	a, b, c := str("a", m), str("b", m), sym.String("c", 1)
	v, w := str("v", m), sym.String("w", 1)
	lib.Both(d, s, "hset", k, a, v, b, w, c, v)
	f := str("f", m)
	if f == a || f == b || f == c {
		sym.Reach("present")
	} else {
		sym.Reach("absent")
	}
	read(d, s, k, f)
	lib.Both(d, s, "hdel", k, f, b)
	read(d, s, k, f, a)
}

// Hashes under different names, missing hashes, the empty name.
//
//verif:harness id=C07.keys quick=60 thorough=300
//verif:bounds two hashes under arbitrary names of 0..1 bytes, one command on a third arbitrary name, then all three read
//verif:reach missing empty
func Keys() {
	d := db.NewDB(1)
	s := &lib.Store{}
	a, b, c := str("a", 1), str("b", 1), str("c", 1)
	lib.Both(d, s, "hset", a, "f", "1", "g", "2")
	lib.Both(d, s, "hset", b, "f", "3")
	if c == "" {
		sym.Reach("empty")
	} else if c != a && c != b {
		sym.Reach("missing")
	}
	f := sym.String("f", 1)
	switch sym.Choice("op", 5) {
	case 0:
		lib.Both(d, s, "hdel", c, f)
	case 1:
		lib.Both(d, s, "hset", c, f, "x")
	case 2:
		lib.Both(d, s, "hmget", c, f, "f")
	case 3:
		lib.Both(d, s, "hset", c, f)
		if c != a && c != b {
			return // a refused HSET may leave an empty hash behind, which reads like a missing one except for null arrays
		}
	case 4:
		lib.Both(d, s, "hdel", c)
	}
	read(d, s, a, "f", f)
	read(d, s, b, "f", f)
	read(d, s, c, f)
}

// Hashes of many fields.
//
//verif:harness id=C07.many quick=90 thorough=400 steps=200000000
//verif:bounds hashes of 9, 17, 33, 65, 129 or 300 (thorough also 1030) fields set by one HSET or one by one, one field and two values arbitrary; one HSET of an old and a new field, or HDEL of one or of every second field; then HLEN, HKEYS, HVALS, HGETALL, HMGET of all fields, and HGET, HEXISTS and HSTRLEN of one in 16
func Many() {
	d := db.NewDB(1)
	s := &lib.Store{}
	sizes := []int{9, 17, 33, 65, 129, 300, 1030}
	n := sizes[sym.Choice("n", len(sizes)-1+sym.Tier())]
	var fs, fvs []string
	for i := 0; i < n; i++ {
		f := lib.Itoa(i * 7)
		if i == n/2 {
			f = sym.String("field", 1)
		}
		v := "v" + lib.Itoa(i)
		if i == 3 || i == n-1 {
			v = sym.String("v"+lib.Itoa(i), 1)
		}
		fs = append(fs, f)
		fvs = append(fvs, f, v)
	}
	if sym.Choice("how", 2) == 0 {
		lib.Both(d, s, "hset", append([]string{k}, fvs...)...)
	} else {
		for i := range fs {
			lib.Both(d, s, "hset", k, fs[i], fvs[2*i+1])
		}
	}
	at := []int{0, 3, 7, 8, n / 2, n - 2, n - 1}
	f := fs[at[sym.Choice("at", len(at))]]
	switch sym.Choice("op", 3) {
	case 0:
		lib.Both(d, s, "hset", k, f, "new", "other", sym.String("v", 1))
	case 1:
		lib.Both(d, s, "hdel", k, f, "none", f)
	case 2:
		var del []string
		for i := 0; i < n; i += 2 {
			del = append(del, fs[i])
		}
		lib.Both(d, s, "hdel", append([]string{k}, del...)...)
	}
	read(d, s, k)
	lib.Both(d, s, "hmget", append([]string{k, "none", f}, fs...)...)
	for i := 0; i < n; i += 1 + n/16 {
		lib.Both(d, s, "hget", k, fs[i])
		lib.Both(d, s, "hexists", k, fs[i])
		lib.Both(d, s, "hstrlen", k, fs[i])
	}
}
