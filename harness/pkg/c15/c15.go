// Package c15 checks lexical comparison.
package c15

import (
	"github.com/lxdlam/vertex/pkg/util"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

func max() int {
	if sym.Tier() == 1 {
		return 32
	}
	return 16
}

// first returns the 0-based position of the first difference within the common length, or the common length.
func first(a, b string) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := n
	for i := n - 1; i >= 0; i-- {
		r = sym.IteInt(a[i] != b[i], i, r)
	}
	return r
}

// Against the specification, for all pairs.
//
//verif:harness id=C15.spec quick=40 thorough=200
//verif:bounds both strings: arbitrary bytes, every length up to 16 (quick) / 32 (thorough)
//verif:reach equal less greater prefix
func Spec() {
	n := sym.Choice("na", max()+1)
	k := sym.Choice("nb", max()+1)
	a := sym.String("a", n)
	b := sym.String("b", k)
	got := util.LexicalCompare(a, b)
	sym.Observe("cmp", got)
	sym.Assert((got == 0) == (a == b), "zero exactly for equal strings")
	sym.Assert((got < 0) == (a < b), "negative exactly when the first string precedes the second")
	sym.Assert((got > 0) == (a > b), "positive exactly when the first string follows the second")
	p := sym.Conc(first(a, b))
	m := n
	if k < m {
		m = k
	}
	mag := got
	if sym.Case(got < 0) {
		sym.Reach("less")
		mag = -got
	} else if sym.Case(got > 0) {
		sym.Reach("greater")
	} else {
		sym.Reach("equal")
		return
	}
	if p < m {
		sym.Assert(mag == p+1, "the magnitude is the 1-based position of the first difference")
	} else if m > 0 {
		sym.Reach("prefix")
		sym.Assert(mag == m, "the magnitude is the length of the shorter string when it is a prefix")
	}
}

// Antisymmetry and transitivity.
//
//verif:harness id=C15.order quick=40 thorough=300
//verif:bounds three strings: arbitrary bytes, every length up to 4 (quick) / 7 (thorough)
func Order() {
	m := 4 + 3*sym.Tier()
	a := sym.String("a", sym.Choice("na", m+1))
	b := sym.String("b", sym.Choice("nb", m+1))
	c := sym.String("c", sym.Choice("nc", m+1))
	ab := util.LexicalCompare(a, b)
	sym.Assert(util.LexicalCompare(b, a) == -ab, "swapping the arguments negates the result")
	bc := util.LexicalCompare(b, c)
	ac := util.LexicalCompare(a, c)
	sym.Assert(sym.Implies(sym.And(ab <= 0, bc <= 0), ac <= 0), "transitive")
	sym.Assert(sym.Implies(sym.And(ab <= 0, bc < 0), ac < 0), "strictly transitive")
	sym.Observe("cmp", ab, bc, ac)
}

// Long strings that differ late, if at all.
//
//verif:harness id=C15.long quick=40 thorough=200
//verif:bounds two strings with a common prefix of 31, 63, 127, 128, 254 to 257, 1023, 1024, 65535 or 65536 bytes followed by 0..2 arbitrary bytes each, and 0 or 3 more fixed bytes; also with one further arbitrary byte in the middle of either prefix
//verif:reach equal less greater
func Long() {
	sizes := []int{31, 63, 127, 128, 254, 255, 256, 257, 1023, 1024, 65535, 65536}
	n := sizes[sym.Choice("n", len(sizes))]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i * 7)
	}
	q := append([]byte{}, p...)
	mid := sym.Choice("middle", 2) == 1
	if mid {
		p[n/2], q[n/2] = sym.String("m", 1)[0], sym.String("w", 1)[0]
	}
	tail := ""
	if sym.Choice("tail", 2) == 1 {
		tail = "end"
	}
	na, nb := sym.Choice("na", 3), sym.Choice("nb", 3)
	x, y := sym.String("a", na), sym.String("b", nb)
	a, b := string(p)+x+tail, string(q)+y+tail
	got := util.LexicalCompare(a, b)
	sym.Assert(util.LexicalCompare(b, a) == -got, "swapping the arguments negates the result")
	r := 0
	m := len(a)
	if len(b) < m {
		m = len(b)
	}
	switch {
	case mid && p[n/2] != q[n/2]:
		r = n/2 + 1
		if p[n/2] < q[n/2] {
			r = -r
		}
	default:
		i := n
		for i < m && a[i] == b[i] {
			i++
		}
		switch {
		case i < m && a[i] < b[i]:
			r = -i - 1
		case i < m:
			r = i + 1
		case len(a) < len(b):
			r = -m
		case len(a) > len(b):
			r = m
		}
	}
	sym.Assert(got == r, "the sign or the position of the first difference is wrong")
	switch {
	case r < 0:
		sym.Reach("less")
	case r > 0:
		sym.Reach("greater")
	default:
		sym.Reach("equal")
	}
}
