package main

// Hash-consed bit-vector / boolean term DAG with local simplification, an evaluator and SMT-LIB printing.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = lo ; w = width
	OZext
	OSext
	OIte
	OFAdd // IEEE 754 double addition of bit patterns, round to nearest even
	// booleans (w==0)
	BTrue
	BFalse
	BNot
	BAnd
	BOr
	BEq // over BVs or bools
	BUlt
	BUle
	BSlt
	BSle
	BIte
)

// Term is an immutable DAG node. w==0 means boolean.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
	id      uint32
	size    uint32 // saturating tree size, for heuristics
	ver     uint32
	val     uint64
	printed uint32 // solver generation in which it was defined
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c uint32
}

// Terms is a per-worker term table.
type Terms struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	next   uint32
	tt, ff *Term
	small  [256]*Term // 8-bit constants
	ver    uint32
}

func NewTerms() *Terms {
	t := &Terms{tab: map[tkey]*Term{}, vars: map[string]*Term{}, next: 1}
	t.tt = t.mk(BTrue, 0, 0, nil, nil, nil)
	t.ff = t.mk(BFalse, 0, 0, nil, nil, nil)
	for i := range t.small {
		t.small[i] = t.mk(OConst, 8, uint64(i), nil, nil, nil)
	}
	return t
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (ts *Terms) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := tkey{op, w, k, tid(a), tid(b), tid(c)}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, id: ts.next}
	ts.next++
	s := uint64(1)
	for _, x := range [...]*Term{a, b, c} {
		if x != nil {
			s += uint64(x.size)
		}
	}
	if s > 1<<30 {
		s = 1 << 30
	}
	t.size = uint32(s)
	ts.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (ts *Terms) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 8 {
		return ts.small[v]
	}
	return ts.mk(OConst, w, v, nil, nil, nil)
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.tt
	}
	return ts.ff
}

func (ts *Terms) Var(name string, w uint8) *Term {
	if t, ok := ts.vars[name]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: ts.next, size: 1}
	ts.next++
	ts.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == BTrue }
func (t *Term) isFalse() bool { return t.op == BFalse }

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sxx, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			if sxx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return (-x) & m
		}
		return uint64(sxx/sy) & m
	case OSRem:
		sxx, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sxx%sy) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("evalBin")
}

func commutes(op Op) bool {
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		return true
	}
	return false
}

// Bin builds a bit-vector binary operation.
func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d in op %d", a.w, b.w, op))
	}
	if a.isConst() && b.isConst() {
		return ts.Const(evalBin(op, a.k, b.k, w), w)
	}
	if commutes(op) && (a.isConst() || (!b.isConst() && a.id > b.id)) {
		a, b = b, a
	}
	switch op {
	case OAdd:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return ts.Bin(OAdd, a.a, ts.Const(a.b.k+b.k, w))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return ts.Ite(a.a, ts.Const(a.b.k+b.k, w), ts.Const(a.c.k+b.k, w))
			}
		}
	case OSub:
		if a == b {
			return ts.Const(0, w)
		}
		if b.isConst() {
			return ts.Bin(OAdd, a, ts.Const(-b.k, w))
		}
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
	case OMul:
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return ts.Bin(OShl, a, ts.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OUDiv:
		if b.isConst() && b.k != 0 {
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return ts.Bin(OLshr, a, ts.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OURem:
		if b.isConst() && b.k != 0 && bits.OnesCount64(b.k) == 1 {
			return ts.Bin(OAnd, a, ts.Const(b.k-1, w))
		}
	case OAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZext && a.a.w <= 64 && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OAnd && a.b.isConst() {
				return ts.Bin(OAnd, a.a, ts.Const(a.b.k&b.k, w))
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		}
	case OXor:
		if a == b {
			return ts.Const(0, w)
		}
		if b.isConst() && b.k == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) && op != OAshr {
				return ts.Const(0, w)
			}
			if op == OLshr && a.op == OZext && b.k >= uint64(a.a.w) {
				return ts.Const(0, w)
			}
		}
		if a.isConst() && a.k == 0 {
			return a
		}
	}
	return ts.mk(op, w, 0, a, b, nil)
}

func (ts *Terms) BvNot(a *Term) *Term {
	if a.isConst() {
		return ts.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return ts.mk(ONot, a.w, 0, a, nil, nil)
}

func (ts *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return ts.Const(-a.k, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	return ts.mk(ONeg, a.w, 0, a, nil, nil)
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return ts.Const(a.k, w)
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return ts.Ite(a.a, ts.Const(a.b.k, w), ts.Const(a.c.k, w))
	}
	return ts.mk(OZext, w, 0, a, nil, nil)
}

func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return ts.Const(uint64(sx(a.k, a.w)), w)
	}
	if a.op == OSext {
		return ts.Sext(a.a, w)
	}
	if a.op == OZext && a.a.w < a.w {
		return ts.Zext(a.a, w)
	}
	return ts.mk(OSext, w, 0, a, nil, nil)
}

func (ts *Terms) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return ts.Const(a.k>>lo, w)
	}
	switch a.op {
	case OExtract:
		return ts.Extract(a.a, uint8(a.k)+lo, w)
	case OZext, OSext:
		if lo+w <= a.a.w {
			return ts.Extract(a.a, lo, w)
		}
		if a.op == OZext && lo >= a.a.w {
			return ts.Const(0, w)
		}
		if lo == 0 && w > a.a.w {
			if a.op == OZext {
				return ts.Zext(a.a, w)
			}
			return ts.Sext(a.a, w)
		}
	case OConcat:
		if lo >= a.b.w {
			return ts.Extract(a.a, lo-a.b.w, w)
		}
		if lo+w <= a.b.w {
			return ts.Extract(a.b, lo, w)
		}
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return ts.Ite(a.a, ts.Const(a.b.k>>lo, w), ts.Const(a.c.k>>lo, w))
		}
	case OAnd, OOr, OXor:
		return ts.Bin(a.op, ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OAdd, OMul:
		if lo == 0 {
			return ts.Bin(a.op, ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
	case OShl:
		if a.b.isConst() && lo >= uint8(a.b.k) && a.b.k < 64 {
			return ts.Extract(a.a, lo-uint8(a.b.k), w)
		}
		if a.b.isConst() && uint64(lo+w) <= a.b.k {
			return ts.Const(0, w)
		}
	case OLshr:
		if a.b.isConst() && uint64(lo)+uint64(w)+a.b.k <= uint64(a.w) {
			return ts.Extract(a.a, lo+uint8(a.b.k), w)
		}
	}
	return ts.mk(OExtract, w, uint64(lo), a, nil, nil)
}

func (ts *Terms) Concat(a, b *Term) *Term { // a high, b low
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return ts.Const(a.k<<b.w|b.k, w)
	}
	if a.isConst() && a.k == 0 {
		return ts.Zext(b, w)
	}
	return ts.mk(OConcat, w, 0, a, b, nil)
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == BNot {
		return ts.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return ts.Or(c, b)
		}
		if a.isFalse() {
			return ts.And(ts.Not(c), b)
		}
		if b.isTrue() {
			return ts.Or(ts.Not(c), a)
		}
		if b.isFalse() {
			return ts.And(c, a)
		}
		return ts.mk(BIte, 0, 0, c, a, b)
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if a == b {
		return a
	}
	return ts.mk(OIte, a.w, 0, c, a, b)
}

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case BTrue:
		return ts.ff
	case BFalse:
		return ts.tt
	case BNot:
		return a.a
	case BUlt: // !(a<b) == b<=a
		return ts.mk(BUle, 0, 0, a.b, a.a, nil)
	case BUle:
		return ts.mk(BUlt, 0, 0, a.b, a.a, nil)
	case BSlt:
		return ts.mk(BSle, 0, 0, a.b, a.a, nil)
	case BSle:
		return ts.mk(BSlt, 0, 0, a.b, a.a, nil)
	}
	return ts.mk(BNot, 0, 0, a, nil, nil)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if b.isTrue() {
		return a
	}
	if a.isFalse() || b.isFalse() {
		return ts.ff
	}
	if a == b {
		return a
	}
	if ts.Not(a) == b {
		return ts.ff
	}
	return ts.mk(BAnd, 0, 0, a, b, nil)
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a.isFalse() {
		return b
	}
	if b.isFalse() {
		return a
	}
	if a.isTrue() || b.isTrue() {
		return ts.tt
	}
	if a == b {
		return a
	}
	if ts.Not(a) == b {
		return ts.tt
	}
	return ts.mk(BOr, 0, 0, a, b, nil)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.tt
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return ts.Not(b)
		}
		if b.isFalse() {
			return ts.Not(a)
		}
	}
	if a.w != b.w {
		panic("eq width mismatch")
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.k == b.k)
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.k&^mask(a.a.w) != 0 {
				return ts.ff
			}
			return ts.Eq(a.a, ts.Const(b.k, a.a.w))
		case OSext:
			if uint64(sx(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return ts.ff
			}
			return ts.Eq(a.a, ts.Const(b.k, a.a.w))
		case OAdd:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(b.k-a.b.k, a.w))
			}
		case OXor:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(b.k^a.b.k, a.w))
			}
		case OConcat:
			return ts.And(ts.Eq(a.a, ts.Const(b.k>>a.b.w, a.a.w)), ts.Eq(a.b, ts.Const(b.k, a.b.w)))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				if a.b.k == b.k {
					return a.a // a.b != a.c
				}
				if a.c.k == b.k {
					return ts.Not(a.a)
				}
				return ts.ff
			}
			if a.b.isConst() {
				if a.b.k == b.k {
					return ts.Or(a.a, ts.Eq(a.c, b))
				}
				return ts.And(ts.Not(a.a), ts.Eq(a.c, b))
			}
			if a.c.isConst() {
				if a.c.k == b.k {
					return ts.Or(ts.Not(a.a), ts.Eq(a.b, b))
				}
				return ts.And(a.a, ts.Eq(a.b, b))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return ts.And(ts.Eq(a.a, b.a), ts.Eq(a.b, b.b))
		}
		if a.op == OAdd && b.op == OAdd && a.b.isConst() && b.b == a.b {
			return ts.Eq(a.a, b.a)
		}
	}
	return ts.mk(BEq, 0, 0, a, b, nil)
}

// Cmp builds BUlt/BUle/BSlt/BSle.
func (ts *Terms) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic("cmp width mismatch")
	}
	if a == b {
		return ts.Bool(op == BUle || op == BSle)
	}
	if a.isConst() && b.isConst() {
		switch op {
		case BUlt:
			return ts.Bool(a.k < b.k)
		case BUle:
			return ts.Bool(a.k <= b.k)
		case BSlt:
			return ts.Bool(sx(a.k, w) < sx(b.k, w))
		case BSle:
			return ts.Bool(sx(a.k, w) <= sx(b.k, w))
		}
	}
	// zero-extended values: signed == unsigned, narrow to the inner width
	if (op == BSlt || op == BSle) && nonneg(a) && nonneg(b) {
		if op == BSlt {
			op = BUlt
		} else {
			op = BUle
		}
	}
	if op == BSlt || op == BSle {
		// non-negative against negative constants
		if nonneg(a) && b.isConst() && sx(b.k, w) < 0 {
			return ts.ff
		}
		if nonneg(b) && a.isConst() && sx(a.k, w) < 0 {
			return ts.tt
		}
	}
	if op == BUlt || op == BUle {
		if a.op == OZext && b.isConst() {
			m := mask(a.a.w)
			if b.k > m {
				return ts.tt
			}
			return ts.Cmp(op, a.a, ts.Const(b.k, a.a.w))
		}
		if b.op == OZext && a.isConst() {
			m := mask(b.a.w)
			if a.k > m {
				return ts.ff
			}
			return ts.Cmp(op, ts.Const(a.k, b.a.w), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return ts.Cmp(op, a.a, b.a)
		}
		if op == BUlt {
			if b.isConst() && b.k == 0 {
				return ts.ff
			}
			if b.isConst() && b.k == 1 {
				return ts.Eq(a, ts.Const(0, w))
			}
			if a.isConst() && a.k == mask(w) {
				return ts.ff
			}
		} else {
			if a.isConst() && a.k == 0 {
				return ts.tt
			}
			if b.isConst() && b.k == mask(w) {
				return ts.tt
			}
			if b.isConst() && b.k == 0 {
				return ts.Eq(a, b)
			}
		}
	}
	if a.op == OIte && b.isConst() && a.b.isConst() && a.c.isConst() {
		return ts.Ite(a.a, ts.Cmp(op, a.b, b), ts.Cmp(op, a.c, b))
	}
	if b.op == OIte && a.isConst() && b.b.isConst() && b.c.isConst() {
		return ts.Ite(b.a, ts.Cmp(op, a, b.b), ts.Cmp(op, a, b.c))
	}
	return ts.mk(op, 0, 0, a, b, nil)
}

// nonneg reports that t, read as signed, is certainly >= 0.
func nonneg(t *Term) bool {
	switch t.op {
	case OConst:
		return sx(t.k, t.w) >= 0
	case OZext:
		return t.a.w < t.w
	case OIte:
		return nonneg(t.b) && nonneg(t.c)
	case OAnd:
		return nonneg(t.a) || nonneg(t.b)
	case OLshr:
		return t.b.isConst() && t.b.k > 0
	}
	return false
}

// Model maps variable names to values; absent variables are 0.
type Model map[string]uint64

// Eval evaluates t under m; ts.ver identifies the memo generation (bump via NewEval when m changes).
func (ts *Terms) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.ver == ts.ver {
		return t.val
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m[t.name] & mask(t.w)
	case BTrue:
		v = 1
	case BFalse:
		v = 0
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		v = evalBin(t.op, ts.Eval(t.a, m), ts.Eval(t.b, m), t.w)
	case OFAdd:
		v = math.Float64bits(math.Float64frombits(ts.Eval(t.a, m)) + math.Float64frombits(ts.Eval(t.b, m)))
	case ONot:
		v = ^ts.Eval(t.a, m) & mask(t.w)
	case ONeg:
		v = -ts.Eval(t.a, m) & mask(t.w)
	case OConcat:
		v = ts.Eval(t.a, m)<<t.b.w | ts.Eval(t.b, m)
	case OExtract:
		v = (ts.Eval(t.a, m) >> t.k) & mask(t.w)
	case OZext:
		v = ts.Eval(t.a, m)
	case OSext:
		v = uint64(sx(ts.Eval(t.a, m), t.a.w)) & mask(t.w)
	case OIte, BIte:
		if ts.Eval(t.a, m) != 0 {
			v = ts.Eval(t.b, m)
		} else {
			v = ts.Eval(t.c, m)
		}
	case BNot:
		v = ts.Eval(t.a, m) ^ 1
	case BAnd:
		v = ts.Eval(t.a, m)
		if v != 0 {
			v = ts.Eval(t.b, m)
		}
	case BOr:
		v = ts.Eval(t.a, m)
		if v == 0 {
			v = ts.Eval(t.b, m)
		}
	case BEq:
		v = b2u(ts.Eval(t.a, m) == ts.Eval(t.b, m))
	case BUlt:
		v = b2u(ts.Eval(t.a, m) < ts.Eval(t.b, m))
	case BUle:
		v = b2u(ts.Eval(t.a, m) <= ts.Eval(t.b, m))
	case BSlt:
		v = b2u(sx(ts.Eval(t.a, m), t.a.w) < sx(ts.Eval(t.b, m), t.b.w))
	case BSle:
		v = b2u(sx(ts.Eval(t.a, m), t.a.w) <= sx(ts.Eval(t.b, m), t.b.w))
	default:
		panic("eval op")
	}
	t.val = v
	t.ver = ts.ver
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var smtName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OIte: "ite", BIte: "ite", BNot: "not", BAnd: "and", BOr: "or", BEq: "=", BUlt: "bvult", BUle: "bvule", BSlt: "bvslt", BSle: "bvsle"}

// ref returns the SMT-LIB text that refers to t (assuming emit has defined it).
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// emit writes the definitions needed to refer to t; gen identifies the solver generation.
func (t *Term) emit(sb *strings.Builder, gen uint32) {
	switch t.op {
	case OConst, BTrue, BFalse:
		return
	}
	if t.printed == gen {
		return
	}
	t.printed = gen
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const t%d %s)\n", t.id, sortOf(t.w))
		return
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			x.emit(sb, gen)
		}
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortOf(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, t.a.ref())
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OFAdd:
		fmt.Fprintf(sb, "(fp.to_ieee_bv (fp.add RNE ((_ to_fp 11 53) %s) ((_ to_fp 11 53) %s)))", t.a.ref(), t.b.ref())
	default:
		sb.WriteString("(")
		sb.WriteString(smtName[t.op])
		for _, x := range [...]*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				sb.WriteString(x.ref())
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

// Pretty renders a term for reports (depth-limited).
func (t *Term) Pretty(d int) string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return t.name
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	}
	if d <= 0 {
		return "…"
	}
	s := "(" + smtName[t.op]
	switch t.op {
	case OExtract:
		s = fmt.Sprintf("(extract[%d+%d]", t.k, t.w)
	case OZext:
		s = "(zext"
	case OSext:
		s = "(sext"
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.Pretty(d-1)
		}
	}
	return s + ")"
}
