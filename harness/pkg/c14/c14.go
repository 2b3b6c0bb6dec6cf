// Package c14 checks index and slice resolution.
package c14

import (
	"github.com/lxdlam/vertex/pkg/util"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// Index resolution for every index and every size.
//
//verif:harness id=C14.index quick=30 thorough=60
//verif:bounds index: any 64-bit integer; size: any integer in [0, 2^63-1]
//verif:reach inside outside
func Index() {
	i := sym.Int("index")
	n := sym.Int("size")
	sym.Assume(n >= 0)
	got := util.NewIndex(i).Resolve(n)
	// the position denoted, computed without overflow: i if i >= 0, else n - |i|
	in := sym.Or(sym.And(i >= 0, i < n), sym.And(i < 0, i >= -n))
	if sym.Case(in) {
		sym.Reach("inside")
		sym.Assert(got == sym.IteInt(i >= 0, i, n+i), "an index inside the range resolves to its position")
	} else {
		sym.Reach("outside")
		sym.Assert(got == -1, "an index outside the range resolves to -1")
	}
	sym.Observe("got", got)
}

// Slice resolution for every pair of ends and every size.
//
//verif:harness id=C14.slice quick=30 thorough=120
//verif:bounds ends: any two 64-bit integers; size: any integer in [0, 2^63-1]
//verif:reach segment clamped left-out right-before crossed empty
func Slice() {
	l := sym.Int("left")
	r := sym.Int("right")
	n := sym.Int("size")
	sym.Assume(n >= 0)
	a, b := util.NewSlice(l, r).Resolve(n)
	// positions; l+n cannot overflow for a negative l
	lp := sym.IteInt(l < 0, l+n, l)
	rp := sym.IteInt(r < 0, r+n, r)
	sym.Observe("got", a, b)
	switch {
	case sym.Case(n == 0):
		sym.Reach("empty")
		sym.Assert(sym.And(a == -1, b == -1), "no segment exists in an empty range")
	case sym.Case(sym.Or(lp < 0, lp >= n)):
		sym.Reach("left-out")
		sym.Assert(sym.And(a == -1, b == -1), "left end outside the range is invalid")
	case sym.Case(rp < 0):
		sym.Reach("right-before")
		sym.Assert(sym.And(a == -1, b == -1), "right end before the beginning is invalid")
	case sym.Case(lp > rp):
		sym.Reach("crossed")
		sym.Assert(sym.And(a == -1, b == -1), "crossed ends are invalid")
	default:
		if sym.Case(rp >= n) {
			sym.Reach("clamped")
		}
		sym.Reach("segment")
		sym.Assert(a == lp, "the segment starts at the left end")
		sym.Assert(b == sym.IteInt(rp >= n, n-1, rp), "the segment ends at the right end, clamped to the last position")
		sym.Assert(sym.And(0 <= a, a <= b, b < n), "a valid segment lies inside the range")
	}
}

// Raw resolution and the accessors agree with the resolved form.
//
//verif:harness id=C14.raw quick=30 thorough=60
//verif:bounds ends: any two 64-bit integers; size: any integer in [0, 2^63-1]
func Raw() {
	l := sym.Int("left")
	r := sym.Int("right")
	n := sym.Int("size")
	sym.Assume(n >= 0)
	a, b := util.NewSlice(l, r).ResolveRaw(n)
	sym.Assert(a == sym.IteInt(l < 0, l+n, l), "raw left end")
	sym.Assert(b == sym.IteInt(r < 0, r+n, r), "raw right end")
	sym.Observe("raw", a, b)
}
