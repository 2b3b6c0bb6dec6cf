// Package c04 checks the string commands against a map from byte strings to byte strings.
package c04

import (
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

type gen struct{ maxKey, maxVal int }

func (g gen) key(n string) string { return sym.String(n, sym.Choice(n+".len", g.maxKey)+1) }
func (g gen) val(n string) string { return sym.String(n, sym.Choice(n+".len", g.maxVal+1)) }

// step is one arbitrary string command.
func step(d db.DB, s *lib.Store, g gen, n string) {
	switch sym.Choice(n+".op", 8) {
	case 0:
		lib.Both(d, s, "set", g.key(n+".k"), g.val(n+".v"))
	case 1:
		lib.Both(d, s, "get", g.key(n+".k"))
	case 2:
		lib.Both(d, s, "mset", g.key(n+".k"), g.val(n+".v"), g.key(n+".k2"), g.val(n+".v2"))
	case 3:
		lib.Both(d, s, "mget", g.key(n+".k"), g.key(n+".k2"))
	case 4:
		lib.Both(d, s, "exists", g.key(n+".k"), g.key(n+".k2"))
	case 5:
		lib.Both(d, s, "strlen", g.key(n+".k"))
	case 6:
		lib.Both(d, s, "append", g.key(n+".k"), g.val(n+".v"))
	case 7:
		lib.Both(d, s, "getrange", g.key(n+".k"), lib.Dec(sym.Int64(n+".from")), lib.Dec(sym.Int64(n+".to")))
	}
}

// Histories of arbitrary commands.
//
//verif:harness id=C04.history quick=100 thorough=600
//verif:bounds every history of 2 (quick) / 3 (thorough) of the 8 commands after one SET; keys are arbitrary 1-byte strings (all equality patterns), values arbitrary strings of 0..1 bytes, GETRANGE indices any 64-bit integers; then GET and STRLEN of every key
func History() {
	g := gen{1, 1}
	d := db.NewDB(1)
	s := &lib.Store{}
	lib.Both(d, s, "set", sym.String("k", 1), g.val("v"))
	steps := 2 + sym.Tier()
	for i := 0; i < steps; i++ {
		step(d, s, g, "s"+lib.Itoa(i))
	}
	for _, kv := range append([]lib.KV(nil), s.Strs...) {
		lib.Both(d, s, "get", kv.K)
		lib.Both(d, s, "strlen", kv.K)
	}
}

// Readings between the changes: nothing a reading leaves behind may be seen by a later one.
//
//verif:harness id=C04.reread quick=60 thorough=400
//verif:bounds every history of 3 (quick) / 4 (thorough) changes of one of two keys by SET, APPEND, MSET of both or a counter command, values of 0..1 arbitrary bytes, with GET, STRLEN, GETRANGE, MGET and EXISTS of both keys after any of them and at the end
func Reread() {
	d := db.NewDB(1)
	s := &lib.Store{}
	for i := 0; i < 3+sym.Tier(); i++ {
		n := "s" + lib.Itoa(i)
		k := []string{"a", "bb"}[sym.Choice(n+".k", 2)]
		v := sym.String(n+".v", 1)
		switch sym.Choice(n+".op", 4) {
		case 0:
			lib.Both(d, s, "set", k, v)
		case 1:
			lib.Both(d, s, "append", k, v)
		case 2:
			lib.Both(d, s, "mset", "a", v, "bb", "1")
		case 3:
			lib.Both(d, s, "incr", k)
		}
		if i < 2+sym.Tier() && sym.Choice(n+".read", 2) == 0 {
			continue
		}
		for _, k := range []string{"a", "bb"} {
			lib.Both(d, s, "get", k)
			lib.Both(d, s, "strlen", k)
			lib.Both(d, s, "getrange", k, "0", "-1")
		}
		lib.Both(d, s, "mget", "bb", "a")
		lib.Both(d, s, "exists", "a", "bb")
	}
}

// Substrings of longer values.
//
//verif:harness id=C04.getrange quick=60 thorough=300
//verif:bounds values of 0..5 (quick) / 0..9 (thorough) arbitrary bytes, built by SET and APPEND; both indices any 64-bit integer
//verif:reach empty some
func GetRange() {
	m := 5 + 4*sym.Tier()
	d := db.NewDB(1)
	s := &lib.Store{}
	n := sym.Choice("n", m+1)
	v := sym.String("v", n)
	cut := sym.Choice("cut", n+1)
	lib.Both(d, s, "set", "k", v[:cut])
	lib.Both(d, s, "append", "k", v[cut:])
	a, b := sym.Int64("from"), sym.Int64("to")
	lib.Both(d, s, "getrange", "k", lib.Dec(a), lib.Dec(b))
	x, _ := lib.Slice(a, b, n)
	if x < 0 {
		sym.Reach("empty")
	} else {
		sym.Reach("some")
	}
	lib.Both(d, s, "get", "k")
	lib.Both(d, s, "strlen", "k")
}

// Keys and values of differing lengths, the empty key included.
//
//verif:harness id=C04.keys quick=60 thorough=300
//verif:bounds two writes (SET, MSET or APPEND) and reads under three keys of 0..2 arbitrary bytes each, values of 0..2 (quick) / 0..4 (thorough) arbitrary bytes
//verif:reach same different
func Keys() {
	d := db.NewDB(1)
	s := &lib.Store{}
	var k [3]string
	for i := range k {
		k[i] = sym.String("k"+lib.Itoa(i), sym.Choice("n"+lib.Itoa(i), 3))
	}
	m := 2 + 2*sym.Tier()
	v := sym.String("v", sym.Choice("nv", m+1))
	w := sym.String("w", sym.Choice("nw", m+1))
	lib.Both(d, s, "set", k[0], v)
	switch sym.Choice("op", 3) {
	case 0:
		lib.Both(d, s, "set", k[1], w)
	case 1:
		lib.Both(d, s, "mset", k[1], v, k[2], w)
	case 2:
		lib.Both(d, s, "append", k[1], w)
	}
	if k[0] == k[1] {
		sym.Reach("same")
	} else {
		sym.Reach("different")
	}
	lib.Both(d, s, "mget", k[0], k[1], k[2])
	lib.Both(d, s, "exists", k[2], k[0], k[1], k[0])
	lib.Both(d, s, "strlen", k[1])
	lib.Both(d, s, "getrange", k[0], "0", "-1")
}

// Many keys, many arguments, long keys and long values.
//
//verif:harness id=C04.many quick=60 thorough=300 steps=200000000
//verif:bounds 9, 17, 33, 65, 129, 257 or 300 (thorough also 1030) keys of 1 or about 280 bytes written by SET or by MSET with as many pairs, one key arbitrary (perhaps equal to another) and two values arbitrary; SET or APPEND to any of four of the keys; all of them read by MGET, EXISTS, GET and STRLEN
func Many() {
	d := db.NewDB(1)
	s := &lib.Store{}
	sizes := []int{9, 17, 33, 65, 129, 257, 300, 1030}
	z := sym.Choice("n", len(sizes)-1+sym.Tier())
	n := sizes[z]
	op := sym.Choice("op", 2)
	pad := ""
	if (z+op)%2 == 1 {
		pad = rep("p", 280)
	}
	var ks, kvs []string
	for i := 0; i < n; i++ {
		x := pad + lib.Itoa(i)
		if i == n/2 {
			x = pad + sym.String("key", 1)
		}
		v := "v" + lib.Itoa(i)
		if i == 3 || i == n-1 {
			v = sym.String("v"+lib.Itoa(i), 1)
		}
		ks = append(ks, x)
		kvs = append(kvs, x, v)
	}
	if z/2%2 == 0 {
		for i := range ks {
			lib.Both(d, s, "set", ks[i], kvs[2*i+1])
		}
	} else {
		lib.Both(d, s, "mset", kvs...)
	}
	at := []int{3, 7, n / 2, n - 1}
	x := ks[at[sym.Choice("at", len(at))]]
	v := sym.String("v", 1)
	switch op {
	case 0:
		lib.Both(d, s, "set", x, v)
	case 1:
		lib.Both(d, s, "append", x, v)
	}
	lib.Both(d, s, "mget", append(ks, "none", x)...)
	lib.Both(d, s, "exists", append(ks, "none", x)...)
	for i := 0; i < n; i += 1 + n/16 {
		lib.Both(d, s, "get", ks[i])
		lib.Both(d, s, "strlen", ks[i])
	}
}

func rep(x string, n int) string {
	b := make([]byte, 0, n)
	for len(b) < n {
		b = append(b, x...)
	}
	return string(b[:n])
}

// Long values.
//
//verif:harness id=C04.long quick=60 thorough=300 steps=200000000
//verif:bounds values of 255, 256, 257, 1023, 1024, 4096, 4097, 65535, 65536 or 70000 bytes with an arbitrary byte at the start, in the middle and at the end, written by SET, MSET or built by APPEND of two halves or of a single byte; GETRANGE of any of eight ranges, GET, STRLEN and MGET
func Long() {
	d := db.NewDB(1)
	s := &lib.Store{}
	sizes := []int{255, 256, 257, 1023, 1024, 4096, 4097, 65535, 65536, 70000}
	n := sizes[sym.Choice("n", len(sizes))]
	v := sym.String("a", 1) + rep("0123456789", n/2-1) + sym.String("b", 1) + rep("qwertyu", n-n/2-2) + sym.String("c", 1)
	switch sym.Choice("how", 4) {
	case 0:
		lib.Both(d, s, "set", "k", v)
	case 1:
		lib.Both(d, s, "mset", "k", v, "l", v[1:])
	case 2:
		lib.Both(d, s, "set", "k", v[:n/2])
		lib.Both(d, s, "append", "k", v[n/2:])
	case 3:
		lib.Both(d, s, "append", "k", v[:n-1])
		lib.Both(d, s, "append", "k", v[n-1:])
	}
	at := [][2]int{{0, 255}, {1, 256}, {255, n / 2}, {n / 2, -1}, {-n / 2, n - 1}, {-n, -n / 2}, {n - 2, n + 5}, {0, n - 1}}
	p := at[sym.Choice("at", len(at))]
	i, j := p[0], p[1]
	lib.Both(d, s, "getrange", "k", lib.Itoa(i), lib.Itoa(j))
	lib.Both(d, s, "get", "k")
	lib.Both(d, s, "strlen", "k")
	lib.Both(d, s, "mget", "k", "none", "l")
}
