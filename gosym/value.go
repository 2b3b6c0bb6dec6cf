package main

// Values of the symbolic machine.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KNone Kind = iota // lazily zero memory, or "no value"
	KInt
	KBool
	KFloat
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KTuple
	KAgg
	KIter
)

// Value is both an SSA register and a memory cell.
type Value struct {
	K Kind
	W uint8  // bit width for KInt / KFloat
	E uint32 // epoch of the last logged write (memory cells only)
	N uint64 // concrete bits of KInt/KBool/KFloat when P == nil
	P any
}

// Agg is a struct or array in memory or in a register.
type Agg struct{ f []Value }

// SliceV is an immutable slice header over cells.
type SliceV struct{ f []Value }

// SymStr is a string with at least one symbolic byte; its length is concrete.
type SymStr struct{ b []*Term }

// LazyStr is a string whose contents depend on decimal formatting of symbolic integers; it is expanded on demand.
type LazyStr struct {
	parts  []Value // KString (eager) or KInt (signed decimal; W==64) parts
	forced *Value
	bytes  *SliceV // memo of []byte(lazy)
}

// quoted is a LazyStr part: strconv.Quote of a symbolic string, expanded on demand (Value{K: KNone, P: *quoted}).
type quoted struct{ s Value }

// LazyBytes is []byte(lazy string).
type LazyBytes struct{ s *LazyStr }

// SymPtr is &arr[idx] with a symbolic, already bounds-checked index.
type SymPtr struct {
	f   []Value
	idx *Term
	t   types.Type
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Iface struct {
	t types.Type // canonical
	v Value
}

type mapEntry struct {
	k, v Value
	live bool
}

type Map struct {
	E    uint32
	ents []mapEntry
	idx  map[string]int // concrete key -> entry
	nsym int            // live entries with symbolic keys
	n    int            // live entries
}

type MapIter struct {
	m    *Map
	keys []Value
	pos  int
	str  *strIter
	left []int
}

type strIter struct {
	v   Value
	pos int
}

type targetPanic struct {
	v     Value // interface value
	msg   string
	stack []string
	rt    bool // runtime error
	exit  bool
}

var nilIface = Value{K: KIface}

func mkInt(v uint64, w uint8) Value { return Value{K: KInt, W: w, N: v & mask(w)} }
func mkBool(b bool) Value           { return Value{K: KBool, N: b2u(b)} }
func mkStr(s string) Value          { return Value{K: KString, P: s} }
func mkTuple(v ...Value) Value      { return Value{K: KTuple, P: v} }

func mkTerm(t *Term) Value {
	if t.w == 0 {
		if t.isTrue() {
			return mkBool(true)
		}
		if t.isFalse() {
			return mkBool(false)
		}
		return Value{K: KBool, P: t}
	}
	if t.isConst() {
		return mkInt(t.k, t.w)
	}
	return Value{K: KInt, W: t.w, P: t}
}

func (v *Value) isSym() bool { return v.P != nil && (v.K == KInt || v.K == KBool || v.K == KFloat) }

func intWidth(b *types.Basic) (uint8, bool) { // width, signed
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func zeroOf(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.Bool || t.Kind() == types.UntypedBool:
			return Value{K: KBool}
		case t.Info()&types.IsInteger != 0:
			w, _ := intWidth(t)
			return Value{K: KInt, W: w}
		case t.Kind() == types.Float32:
			return Value{K: KFloat, W: 32}
		case t.Info()&types.IsFloat != 0:
			return Value{K: KFloat, W: 64}
		case t.Info()&types.IsString != 0:
			return Value{K: KString, P: ""}
		case t.Kind() == types.UnsafePointer:
			return Value{K: KPtr}
		case t.Kind() == types.UntypedNil:
			return Value{K: KPtr}
		case t.Info()&types.IsComplex != 0:
			return Value{K: KFloat, W: 64}
		}
	case *types.Pointer:
		return Value{K: KPtr}
	case *types.Slice:
		return Value{K: KSlice}
	case *types.Map:
		return Value{K: KMap}
	case *types.Chan:
		return Value{K: KChan}
	case *types.Signature:
		return Value{K: KFunc}
	case *types.Interface:
		return Value{K: KIface}
	case *types.Struct:
		a := &Agg{f: make([]Value, t.NumFields())}
		for i := range a.f {
			a.f[i] = zeroOf(t.Field(i).Type())
		}
		return Value{K: KAgg, P: a}
	case *types.Array:
		return Value{K: KAgg, P: &Agg{f: make([]Value, t.Len())}} // elements lazily zero
	case *types.Tuple:
		vs := make([]Value, t.Len())
		for i := range vs {
			vs[i] = zeroOf(t.At(i).Type())
		}
		return Value{K: KTuple, P: vs}
	case *types.TypeParam:
		panic(unsupported{"zero of type parameter"})
	}
	panic(unsupported{fmt.Sprintf("zero of %v", t)})
}

// copyVal deep-copies aggregates so that registers never alias memory.
func copyVal(v Value) Value {
	if v.K == KAgg {
		o := v.P.(*Agg)
		n := &Agg{f: make([]Value, len(o.f))}
		for i := range o.f {
			if o.f[i].K == KAgg {
				n.f[i] = copyVal(o.f[i])
			} else {
				n.f[i] = o.f[i]
			}
			n.f[i].E = 0
		}
		return Value{K: KAgg, P: n}
	}
	v.E = 0
	return v
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	panic(fmt.Sprintf("elemType %v", t))
}

// unsupported aborts the current path as inconclusive.
type unsupported struct{ msg string }
