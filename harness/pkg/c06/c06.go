// Package c06 checks the list commands against finite sequences.
package c06

import (
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

const k = "list"

func val(n string) string { return sym.String(n, 1) }

// read compares the whole list, its length, and every element from both ends.
func read(d db.DB, s *lib.Store, k string) {
	lib.Both(d, s, "llen", k)
	lib.Both(d, s, "lrange", k, "0", "-1")
	l := 0
	for _, x := range s.Lists {
		if x.K == k {
			l = len(x.E)
		}
	}
	for i := -l - 1; i <= l; i++ {
		lib.Both(d, s, "lindex", k, lib.Itoa(i))
	}
}

// drain pops everything from the tail.
func drain(d db.DB, s *lib.Store, k string) {
	for {
		n := len(s.Lists)
		left := 0
		for i := 0; i < n; i++ {
			if s.Lists[i].K == k {
				left = len(s.Lists[i].E)
			}
		}
		lib.Both(d, s, "rpop", k)
		if left == 0 {
			break
		}
	}
	lib.Both(d, s, "llen", k)
}

func step(d db.DB, s *lib.Store, n string) {
	switch sym.Choice(n+".op", 9) {
	case 0:
		lib.Both(d, s, "lpush", k, val(n+".v"))
	case 1:
		lib.Both(d, s, "rpush", k, val(n+".v"), val(n+".w"))
	case 2:
		lib.Both(d, s, "lpop", k)
	case 3:
		lib.Both(d, s, "rpop", k)
	case 4:
		lib.Both(d, s, "lset", k, lib.Dec(sym.Int64(n+".i")), val(n+".v"))
	case 5:
		lib.Both(d, s, "linsert", k, "before", val(n+".p"), val(n+".v"))
	case 6:
		lib.Both(d, s, "linsert", k, "after", val(n+".p"), val(n+".v"))
	case 7:
		lib.Both(d, s, "lrem", k, lib.Dec(sym.Int64(n+".c")), val(n+".v"))
	case 8:
		lib.Both(d, s, "ltrim", k, lib.Dec(sym.Int64(n+".l")), lib.Dec(sym.Int64(n+".r")))
	}
}

// Histories of arbitrary modifications.
//
//verif:harness id=C06.history quick=120 thorough=700
//verif:bounds a list of 0..2 arbitrary elements, then 2 (quick) / 3 (thorough) arbitrary modifying commands with any 64-bit indices and counts and arbitrary 1-byte elements; then LLEN, LRANGE, LINDEX at every position from both ends, and RPOP until empty
func History() {
	d := db.NewDB(1)
	s := &lib.Store{}
	n := sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		lib.Both(d, s, "rpush", k, val("e"+lib.Itoa(i)))
	}
	steps := 2 + sym.Tier()
	for i := 0; i < steps; i++ {
		step(d, s, "s"+lib.Itoa(i))
	}
	read(d, s, k)
	drain(d, s, k)
}

// Readings between the changes: nothing a reading leaves behind may be seen by a later one.
//
//verif:harness id=C06.reread quick=60 thorough=400
//verif:bounds every history of 4 (quick) / 6 (thorough) commands out of LPUSH, RPUSH, LPOP, RPOP, LSET of an end, LREM, LINSERT and LTRIM with arbitrary elements, the whole list read by LLEN, LRANGE and LINDEX at every position after any of them and at the end
func Reread() {
	d := db.NewDB(1)
	s := &lib.Store{}
	for i := 0; i < 4+2*sym.Tier(); i++ {
		n := "s" + lib.Itoa(i)
		op := sym.Choice(n+".op", 4)
		if i == 0 {
			op %= 2
		}
		switch op {
		case 0:
			lib.Both(d, s, "lpush", k, val(n+".v"))
		case 1:
			lib.Both(d, s, "rpush", k, val(n+".v"))
		case 2:
			lib.Both(d, s, []string{"lpop", "rpop"}[i%2], k)
		case 3:
			switch i % 4 {
			case 0:
				lib.Both(d, s, "linsert", k, "before", val(n+".p"), val(n+".v"))
			case 1:
				lib.Both(d, s, "lset", k, "-1", val(n+".v"))
			case 2:
				lib.Both(d, s, "lrem", k, "1", val(n+".v"))
			case 3:
				lib.Both(d, s, "ltrim", k, "0", "1")
			}
		}
		if sym.Choice(n+".read", 2) == 0 {
			continue
		}
		read(d, s, k)
	}
	read(d, s, k)
}

// One command on a longer list.
//
//verif:harness id=C06.single quick=100 thorough=600
//verif:bounds a list of 0..4 (quick) / 0..6 (thorough) arbitrary 1-byte elements pushed from either end, one arbitrary command with any 64-bit indices or count, then the whole list read forwards, by index and backwards
func Single() {
	d := db.NewDB(1)
	s := &lib.Store{}
	n := sym.Choice("n", 5+2*sym.Tier())
	left := sym.Choice("end", 2) == 1
	for i := 0; i < n; i++ {
		if left {
			lib.Both(d, s, "lpush", k, val("e"+lib.Itoa(i)))
		} else {
			lib.Both(d, s, "rpush", k, val("e"+lib.Itoa(i)))
		}
	}
	step(d, s, "s")
	read(d, s, k)
	drain(d, s, k)
}

// Range reads at all indices.
//
//verif:harness id=C06.range quick=100 thorough=400
//verif:bounds lists of 0..5 (quick) / 0..8 (thorough) arbitrary elements; LRANGE and LINDEX at any 64-bit indices
//verif:reach invalid valid
func Range() {
	d := db.NewDB(1)
	s := &lib.Store{}
	n := sym.Choice("n", 6+3*sym.Tier())
	for i := 0; i < n; i++ {
		lib.Both(d, s, "rpush", k, val("e"+lib.Itoa(i)))
	}
	a, b := sym.Int64("l"), sym.Int64("r")
	lib.Both(d, s, "lindex", k, lib.Dec(a))
	lib.Both(d, s, "lrange", k, lib.Dec(a), lib.Dec(b))
	if x, _ := lib.Slice(a, b, n); x < 0 {
		sym.Reach("invalid")
	} else {
		sym.Reach("valid")
	}
	read(d, s, k)
}

// Elements of any text, in particular ones the implementation might use for itself.
//
//verif:harness id=C06.values quick=100 thorough=400
//verif:bounds two elements and a searched value, each an arbitrary string of 0, 1, 5 or 12 bytes (three lengths at most two of which differ); LREM with any count, LINSERT, LSET at any index
//verif:reach found
func Values() {
	lens := []int{0, 1, 5, 12}
	d := db.NewDB(1)
	s := &lib.Store{}
	la := lens[sym.Choice("la", 4)]
	lv := lens[sym.Choice("lv", 4)]
	a := sym.String("a", la)
	b := sym.String("b", lv)
	v := sym.String("v", lv)
	lib.Both(d, s, "rpush", k, a, b)
	if a == v || b == v {
		sym.Reach("found")
	}
	switch sym.Choice("op", 4) {
	case 0:
		lib.Both(d, s, "lrem", k, lib.Dec(sym.Int64("count")), v)
	case 1:
		lib.Both(d, s, "linsert", k, "before", v, a)
	case 2:
		lib.Both(d, s, "linsert", k, "after", v, a)
	case 3:
		lib.Both(d, s, "lset", k, lib.Dec(sym.Int64("i")), v)
	}
	read(d, s, k)
	drain(d, s, k)
}

var pairs = [][2]string{
	{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"},
	{"7mohtcOFVz", "c1E51sSEyx"},
	{"6a5x-VbtXk", "f_2k7GG-4v"},
}

// Elements whose 64-bit FNV hashes collide are different elements.
//
//verif:harness id=C06.collide quick=40 thorough=100
//verif:bounds lists over known pairs of colliding strings; LREM with any 64-bit count and LINSERT around either
func Collide() {
	d := db.NewDB(1)
	s := &lib.Store{}
	p := pairs[sym.Choice("pair", len(pairs))]
	for i := 0; i < 3; i++ {
		lib.Both(d, s, "rpush", k, p[sym.Choice("e"+lib.Itoa(i), 2)])
	}
	v := p[sym.Choice("v", 2)]
	switch sym.Choice("op", 2) {
	case 0:
		lib.Both(d, s, "lrem", k, lib.Dec(sym.Int64("count")), v)
	case 1:
		lib.Both(d, s, "linsert", k, "after", v, "x")
	}
	read(d, s, k)
}

// Lists under different keys are independent, and a missing or emptied list answers like an empty one.
//
//verif:harness id=C06.keys quick=60 thorough=300
//verif:bounds two lists under arbitrary keys of 1 byte, one command on a third arbitrary key, then both lists read
//verif:reach missing
func Keys() {
	d := db.NewDB(1)
	s := &lib.Store{}
	a, b, c := sym.String("a", 1), sym.String("b", 1), sym.String("c", 1)
	lib.Both(d, s, "rpush", a, "1", "2")
	lib.Both(d, s, "lpush", b, "3")
	if c != a && c != b {
		sym.Reach("missing")
	}
	switch sym.Choice("op", 9) {
	case 0:
		lib.Both(d, s, "lpop", c)
	case 1:
		lib.Both(d, s, "rpop", c)
	case 2:
		lib.Both(d, s, "lset", c, lib.Dec(sym.Int64("i")), "x")
	case 3:
		lib.Both(d, s, "lrem", c, lib.Dec(sym.Int64("i")), "3")
	case 4:
		lib.Both(d, s, "ltrim", c, "0", "0")
	case 5:
		lib.Both(d, s, "linsert", c, "BEFORE", "3", "x")
	case 6:
		lib.Both(d, s, "rpush", c, "x")
	case 7:
		lib.Both(d, s, "lindex", c, lib.Dec(sym.Int64("i")))
	case 8:
		lib.Both(d, s, "llen", c)
	}
	read(d, s, a)
	read(d, s, b)
	read(d, s, c)
}

// probe compares a long list as a whole and at its ends and middle.
func probe(d db.DB, s *lib.Store, n int, i int64) {
	lib.Both(d, s, "llen", k)
	lib.Both(d, s, "lrange", k, "0", "-1")
	lib.Both(d, s, "lindex", k, lib.Dec(i))
	for _, j := range []int{0, -1, n / 2, n/2 + 1, -n / 2, n - 1, n, -n, -n - 1} {
		lib.Both(d, s, "lindex", k, lib.Itoa(j))
	}
	lib.Both(d, s, "lrange", k, lib.Itoa(n/2-1), lib.Itoa(n-2))
	lib.Both(d, s, "lrange", k, lib.Itoa(-n/2), lib.Itoa(-2))
}

// Long lists.
//
//verif:harness id=C06.many quick=90 thorough=400 steps=200000000
//verif:bounds lists of 9, 17, 33, 65, 129, 257 or 300 (thorough also 513 and 1030) elements of 7 different texts, pushed from either end one by one or by one command, two of them arbitrary; LSET or LTRIM at any index of a list of up to 17 elements and at eight places of a longer one, LINSERT, or LREM with one of eight counts; the list read from both ends and the middle, then popped to a third from either end, read, and grown again
func Many() {
	d := db.NewDB(1)
	s := &lib.Store{}
	sizes := []int{9, 17, 33, 65, 129, 257, 300, 513, 1030}
	z := sym.Choice("n", len(sizes)-2+2*sym.Tier())
	n := sizes[z]
	op := sym.Choice("op", 6)
	push := []string{"rpush", "lpush"}[op%2]
	var es []string
	for i := 0; i < n; i++ {
		e := "e" + lib.Itoa(i%7)
		if i%7 == 0 {
			e = ""
		}
		es = append(es, e)
	}
	es[n/2] = val("m")
	es[n-2] = val("l")
	if (z+op)/2%2 == 0 {
		lib.Both(d, s, push, append([]string{k}, es...)...)
	} else {
		for _, e := range es {
			lib.Both(d, s, push, k, e)
		}
	}
	at := []int{1, 8, n / 2, n - 1, -1, -n / 2, -n, -n - 1}
	i := int64(n / 2)
	if op == 0 || op == 5 {
		if n <= 17 {
			i = sym.Int64("i")
		} else {
			i = int64(at[sym.Choice("at", len(at))])
		}
	}
	v := val("v")
	switch op {
	case 0:
		lib.Both(d, s, "lset", k, lib.Dec(i), v)
	case 1:
		lib.Both(d, s, "linsert", k, "before", "e5", v)
	case 2:
		lib.Both(d, s, "linsert", k, "after", v, "x")
	case 3:
		cs := []string{"0", "1", "2", "40", "-1", "-2", "-40", "1000"}
		lib.Both(d, s, "lrem", k, cs[sym.Choice("count", len(cs))], "e3")
	case 4:
		lib.Both(d, s, "lrem", k, "0", v)
	case 5:
		lib.Both(d, s, "ltrim", k, lib.Itoa(n/4), lib.Dec(i))
	}
	probe(d, s, n, i)
	for _, x := range []string{"rpop", "lpop"} {
		for j := 0; j < n/3; j++ {
			lib.Both(d, s, x, k)
		}
	}
	probe(d, s, n/3, i)
	lib.Both(d, s, "lpush", k, "a", v)
	lib.Both(d, s, "rpush", k, "b", v)
	probe(d, s, n/3+4, i)
}
