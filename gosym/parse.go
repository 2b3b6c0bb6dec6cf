package main

// Decimal parsing of symbolic text without a case split per byte, and deferred pure calls.

import (
	"go/token"
	"go/types"
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

var pow10 = func() (r [19]uint64) {
	r[0] = 1
	for i := 1; i < 19; i++ {
		r[i] = r[i-1] * 10
	}
	return
}()

// parseInt models strconv.ParseInt(s, 10, 64) for strings that are not concrete; handled is false when the original is to be run.
func (m *Machine) parseInt(fn string, s Value) (v Value, handled bool) {
	if t, ok := m.parsedInt(s); ok {
		return mkTuple(t, nilIface), true
	}
	if l, ok := s.P.(*LazyStr); ok && l.forced == nil {
		if v, ok := m.parseDecThenDigits(fn, s, l); ok {
			return v, true
		}
	}
	s = m.forceStr(s)
	if _, ok := s.P.(string); ok {
		return Value{}, false
	}
	b := m.strTerms(s)
	ts := m.ts
	n := len(b)
	if n > 36 {
		return Value{}, false
	}
	digit := func(t *Term) *Term {
		return ts.And(ts.Cmp(BUle, ts.Const('0', 8), t), ts.Cmp(BUle, t, ts.Const('9', 8)))
	}
	minus := ts.Eq(b[0], ts.Const('-', 8))
	sign := ts.Or(minus, ts.Eq(b[0], ts.Const('+', 8)))
	rest := ts.tt
	for _, t := range b[1:] {
		rest = ts.And(rest, digit(t))
	}
	syntax := ts.And(rest, digit(b[0]))
	if n > 1 {
		syntax = ts.And(rest, ts.Or(digit(b[0]), sign))
	}
	if !m.path.Branch(syntax) {
		return m.numError("syntaxError", fn, s, mkInt(0, 64)), true
	}
	num := func(d []*Term) *Term {
		r := ts.Const(0, 64)
		for _, t := range d {
			r = ts.Bin(OAdd, ts.Bin(OMul, r, ts.Const(10, 64)), ts.Zext(ts.Bin(OAdd, t, ts.Const(256-'0', 8)), 64))
		}
		return r
	}
	// a sign character counts as the digit zero
	d := append([]*Term(nil), b...)
	neg := false
	if n > 1 {
		if m.path.Branch(sign) {
			d = d[1:]
			neg = m.path.Branch(minus)
		}
	}
	n = len(d)
	var mag *Term
	if n <= 18 {
		mag = num(d)
	} else {
		hi, lo := num(d[:n-18]), num(d[n-18:])
		lim := uint64(math.MaxInt64)
		if neg {
			lim++
		}
		fits := ts.Or(ts.Cmp(BUlt, hi, ts.Const(lim/pow10[18], 64)),
			ts.And(ts.Eq(hi, ts.Const(lim/pow10[18], 64)), ts.Cmp(BUle, lo, ts.Const(lim%pow10[18], 64))))
		if !m.path.Branch(fits) {
			return m.numError("rangeError", fn, s, limit(neg)), true
		}
		mag = ts.Bin(OAdd, ts.Bin(OMul, hi, ts.Const(pow10[18], 64)), lo)
	}
	if neg {
		mag = ts.Neg(mag)
	}
	return mkTuple(mkTerm(mag), nilIface), true
}

func limit(neg bool) Value {
	if neg {
		return mkInt(1<<63, 64)
	}
	return mkInt(math.MaxInt64, 64)
}

func (m *Machine) numError(kind, fn string, s, v Value) Value {
	f := m.L.pkgs["strconv"].Func(kind)
	e := m.call(f, []Value{mkStr(fn), s}, nil)
	t := m.L.canonical(f.Signature.Results().At(0).Type())
	return mkTuple(v, Value{K: KIface, P: &Iface{t, e}})
}

// parseDecThenDigits handles the decimal form of a term followed by concrete digits.
func (m *Machine) parseDecThenDigits(fn string, s Value, l *LazyStr) (Value, bool) {
	if len(l.parts) != 2 || l.parts[0].K != KInt || l.parts[1].K != KString {
		return Value{}, false
	}
	c, ok := l.parts[1].P.(string)
	if !ok || len(c) == 0 || len(c) > 17 {
		return Value{}, false
	}
	lit := uint64(0)
	for i := 0; i < len(c); i++ {
		if c[i] < '0' || c[i] > '9' {
			return m.numError("syntaxError", fn, s, mkInt(0, 64)), true
		}
		lit = lit*10 + uint64(c[i]-'0')
	}
	ts := m.ts
	t := m.intTerm(l.parts[0])
	if t.w < 64 {
		t = ts.Sext(t, 64)
	}
	p := pow10[len(c)]
	neg := m.path.Branch(ts.Cmp(BSlt, t, ts.Const(0, 64)))
	mag, lim := t, uint64(math.MaxInt64)
	if neg {
		mag, lim = ts.Neg(t), 1<<63
	}
	if !m.path.Branch(ts.Cmp(BUle, mag, ts.Const((lim-lit)/p, 64))) {
		return m.numError("rangeError", fn, s, limit(neg)), true
	}
	r := ts.Bin(OAdd, ts.Bin(OMul, mag, ts.Const(p, 64)), ts.Const(lit, 64))
	if neg {
		r = ts.Neg(r)
	}
	return mkTuple(mkTerm(r), nilIface), true
}

// lazyIs compares a lazy string with a concrete one without fixing the number of digits of its decimals. A decimal followed
// by a literal that does not begin with a digit (or by nothing) must be the maximal digit run there.
func (m *Machine) lazyIs(l *LazyStr, s string) (*Term, bool) {
	ts := m.ts
	r := ts.tt
	for i, p := range l.parts {
		switch p.K {
		case KString:
			n := m.strLen(p)
			if n > len(s) {
				return ts.ff, true
			}
			r = ts.And(r, m.strEq(p, mkStr(s[:n])))
			if r.isFalse() {
				return r, true
			}
			s = s[n:]
		case KInt:
			if i+1 < len(l.parts) {
				q := l.parts[i+1]
				c, ok := q.P.(string)
				if q.K != KString || !ok || c == "" || c[0] >= '0' && c[0] <= '9' {
					return nil, false
				}
			}
			n := 0
			if n < len(s) && s[n] == '-' {
				n++
			}
			for n < len(s) && s[n] >= '0' && s[n] <= '9' {
				n++
			}
			v, err := strconv.ParseInt(s[:n], 10, 64)
			if err != nil || strconv.FormatInt(v, 10) != s[:n] {
				return ts.ff, true
			}
			t := m.intTerm(p)
			if t.w < 64 {
				t = ts.Sext(t, 64)
			}
			r = ts.And(r, ts.Eq(t, ts.Const(uint64(v), 64)))
			s = s[n:]
		default:
			return nil, false
		}
	}
	if s != "" {
		return ts.ff, true
	}
	return r, true
}

// ---------- deferred pure calls ----------

// LazyIface is the interface result of a pure, total function of symbolic strings whose evaluation is put off until the
// result is looked at.
type LazyIface struct {
	fi     *fnInfo
	args   []Value
	forced *Value
}

func (m *Machine) iface(v Value) Value {
	l, ok := v.P.(*LazyIface)
	if !ok {
		return v
	}
	if l.forced == nil {
		r := m.callInfo(l.fi, l.args, nil)
		r = m.iface(r)
		l.forced = &r
	}
	return *l.forced
}

// deferrable tells whether calls of the function may be put off: it has no loop, only reads its scalar and string
// parameters, writes only objects it allocates itself, cannot panic, and returns one interface value.
func (m *Machine) deferrable(fi *fnInfo) bool {
	fn := fi.fn
	if fi.lazyState != 0 {
		return fi.lazyState == 1
	}
	fi.lazyState = 2
	if fn.Signature.Results().Len() != 1 || fn.Blocks == nil || len(fn.FreeVars) > 0 || !fi.inRepo {
		return false
	}
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
		return false
	}
	for _, p := range fn.Params {
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) == 0 {
			return false
		}
	}
	// acyclic
	state := make([]int, len(fn.Blocks))
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 || state[s.Index] == 0 && !dfs(s) {
				return false
			}
		}
		state[b.Index] = 2
		return true
	}
	if !dfs(fn.Blocks[0]) {
		return false
	}
	own := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Alloc:
				own[x] = true
			case *ssa.FieldAddr:
				if !own[x.X] {
					return false
				}
				own[x] = true
			case *ssa.Store:
				if !own[x.Addr] {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && !own[x.X] || x.Op == token.ARROW {
					return false
				}
			case *ssa.BinOp:
				switch x.Op {
				case token.QUO, token.REM, token.SHL, token.SHR:
					return false
				}
				if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
					_, c1 := x.X.(*ssa.Const)
					_, c2 := x.Y.(*ssa.Const)
					if !c1 && !c2 {
						return false
					}
				}
			case *ssa.Call:
				c := x.Call.StaticCallee()
				if c == nil || c.Pkg == nil || c.Pkg.Pkg.Path() != "strconv" {
					return false
				}
				switch c.Name() {
				case "ParseInt", "Atoi", "ParseBool":
				default:
					return false
				}
			case *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Return, *ssa.MakeInterface, *ssa.Extract, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	fi.lazyState = 1
	return true
}

// deferCall puts off a pure call with a symbolic argument.
func (m *Machine) deferCall(fi *fnInfo, args []Value) (Value, bool) {
	sym := false
	for _, a := range args {
		if a.K == KString {
			if _, ok := a.P.(string); !ok {
				sym = true
			}
		} else if a.P != nil {
			sym = true
		}
	}
	if !sym {
		return Value{}, false
	}
	for _, a := range args {
		if l, ok := a.P.(*LazyStr); ok && len(l.parts) == 1 && l.forced == nil {
			return Value{}, false // decided without a split anyway
		}
	}
	return Value{K: KIface, P: &LazyIface{fi: fi, args: args}}, true
}
