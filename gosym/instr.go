package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) instr(fr *frame, c *cins, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		s := &Value{}
		switch c.t.Underlying().(type) {
		case *types.Struct, *types.Array:
			*s = zeroOf(c.t)
		}
		fr.regs[c.dst] = Value{K: KPtr, P: s}
	case *ssa.BinOp:
		fr.regs[c.dst] = m.binop(x.Op, c.t, fr.get(&c.a), fr.get(&c.b), x.Y.Type())
	case *ssa.UnOp:
		a := fr.get(&c.a)
		switch x.Op {
		case token.MUL:
			fr.regs[c.dst] = m.loadPtr(a, c.t)
		case token.ARROW:
			v, ok := m.chanRecv(a, c.t)
			if x.CommaOk {
				fr.regs[c.dst] = mkTuple(v, mkBool(ok))
			} else {
				fr.regs[c.dst] = v
			}
		case token.NOT:
			if a.P == nil {
				fr.regs[c.dst] = mkBool(a.N == 0)
			} else {
				fr.regs[c.dst] = mkTerm(m.ts.Not(a.P.(*Term)))
			}
		case token.SUB:
			if a.K == KFloat {
				m.needConc(a, "float negation")
				if a.W == 32 {
					fr.regs[c.dst] = Value{K: KFloat, W: 32, N: uint64(math.Float32bits(-math.Float32frombits(uint32(a.N))))}
				} else {
					fr.regs[c.dst] = Value{K: KFloat, W: 64, N: math.Float64bits(-math.Float64frombits(a.N))}
				}
			} else if a.P == nil {
				fr.regs[c.dst] = mkInt(-a.N, a.W)
			} else {
				fr.regs[c.dst] = mkTerm(m.ts.Neg(a.P.(*Term)))
			}
		case token.XOR:
			if a.P == nil {
				fr.regs[c.dst] = mkInt(^a.N, a.W)
			} else {
				fr.regs[c.dst] = mkTerm(m.ts.BvNot(a.P.(*Term)))
			}
		default:
			panic(unsupported{"unop " + x.Op.String()})
		}
	case *ssa.Call:
		fr.regs[c.dst] = m.doCall(fr, c)
	case *ssa.Go:
		fn, env, args, b := m.prepCall(fr, c)
		if b != nil || fn == nil {
			panic(unsupported{"go builtin"})
		}
		m.spawn(fn, args, env)
	case *ssa.Defer:
		if c.n == 1 {
			panic(unsupported{"defer on an outer frame"})
		}
		if c.call.builtin != "" {
			args := make([]Value, len(c.args))
			for i := range c.args {
				args[i] = fr.get(&c.args[i])
			}
			fr.defers = append(fr.defers, deferRec{fn: func() { m.builtin(fr, c, c.call.builtin, args) }})
			break
		}
		if c.call.method == nil && c.call.static == nil {
			f := fr.get(&c.call.fnop)
			args := make([]Value, len(c.args))
			for i := range c.args {
				args[i] = fr.get(&c.args[i])
			}
			fr.defers = append(fr.defers, deferRec{fn: func() { m.callValue(f, args) }})
			break
		}
		fn, env, args, _ := m.prepCall(fr, c)
		fr.defers = append(fr.defers, deferRec{fn: func() { m.call(fn, args, env) }})
	case *ssa.ChangeInterface:
		fr.regs[c.dst] = fr.get(&c.a)
	case *ssa.ChangeType:
		fr.regs[c.dst] = fr.get(&c.a)
	case *ssa.Convert:
		fr.regs[c.dst] = m.convert(fr.get(&c.a), x.X.Type(), c.t)
	case *ssa.MultiConvert:
		fr.regs[c.dst] = m.convert(fr.get(&c.a), x.X.Type(), c.t)
	case *ssa.Extract:
		fr.regs[c.dst] = fr.get(&c.a).P.([]Value)[c.n]
	case *ssa.Field:
		a := fr.get(&c.a)
		v := a.P.(*Agg).f[c.n]
		if v.K == KNone {
			v = zeroOf(x.Type())
		}
		fr.regs[c.dst] = v
	case *ssa.FieldAddr:
		p := fr.get(&c.a)
		switch s := p.P.(type) {
		case *Value:
			fr.regs[c.dst] = Value{K: KPtr, P: &m.agg(s, c.t).f[c.n]}
		case *SymPtr:
			i := m.path.Concretize(s.idx)
			fr.regs[c.dst] = Value{K: KPtr, P: &m.agg(&s.f[i], c.t).f[c.n]}
		case nil:
			m.throw("invalid memory address or nil pointer dereference")
		default:
			panic(unsupported{fmt.Sprintf("field of %T", p.P)})
		}
	case *ssa.Index:
		a := fr.get(&c.a)
		i := fr.get(&c.b)
		if a.K == KString {
			fr.regs[c.dst] = m.strIndex(a, i, isUnsigned(x.Index.Type()))
			break
		}
		f := a.P.(*Agg).f
		fr.regs[c.dst] = m.cellAt(f, i, c.t, isUnsigned(x.Index.Type()))
	case *ssa.IndexAddr:
		a := fr.get(&c.a)
		i := fr.get(&c.b)
		var f []Value
		switch p := a.P.(type) {
		case *SliceV:
			f = p.f
		case *LazyBytes:
			f = m.forceBytes(p).f
		case *Value:
			f = m.agg(p, x.X.Type().Underlying().(*types.Pointer).Elem()).f
		case nil:
			if a.K == KPtr {
				m.throw("invalid memory address or nil pointer dereference")
			}
		default:
			panic(unsupported{fmt.Sprintf("index of %T", a.P)})
		}
		fr.regs[c.dst] = m.elemAddr(f, i, c.t, isUnsigned(x.Index.Type()))
	case *ssa.Lookup:
		a := fr.get(&c.a)
		k := fr.get(&c.b)
		if a.K == KString {
			fr.regs[c.dst] = m.strIndex(a, k, isUnsigned(x.Index.Type()))
			break
		}
		mt := c.t.Underlying().(*types.Map)
		v, ok := m.mapGet(a, k, mt)
		if x.CommaOk {
			fr.regs[c.dst] = mkTuple(v, mkBool(ok))
		} else {
			fr.regs[c.dst] = v
		}
	case *ssa.MakeChan:
		n := m.concSigned(fr.get(&c.a))
		if n < 0 {
			m.throw("makechan: size out of range")
		}
		fr.regs[c.dst] = Value{K: KChan, P: m.newChan(int(n))}
	case *ssa.MakeClosure:
		env := make([]Value, len(c.args))
		for i := range c.args {
			env[i] = fr.get(&c.args[i])
		}
		fr.regs[c.dst] = Value{K: KFunc, P: &Closure{fn: x.Fn.(*ssa.Function), env: env}}
	case *ssa.MakeInterface:
		fr.regs[c.dst] = Value{K: KIface, P: &Iface{c.t, fr.get(&c.a)}}
	case *ssa.MakeMap:
		fr.regs[c.dst] = Value{K: KMap, P: &Map{E: m.epoch, idx: map[string]int{}}}
	case *ssa.MakeSlice:
		n := m.concSigned(m.boundSym(fr.get(&c.a), "makeslice: len out of range"))
		cp := m.concSigned(m.boundSym(fr.get(&c.b), "makeslice: cap out of range"))
		if n < 0 || n > maxAlloc {
			m.throw("makeslice: len out of range")
		}
		if cp < n || cp > maxAlloc {
			m.throw("makeslice: cap out of range")
		}
		fr.regs[c.dst] = Value{K: KSlice, P: &SliceV{f: make([]Value, n, cp)}}
	case *ssa.MapUpdate:
		a := fr.get(&c.a)
		m.mapSet(a, fr.get(&c.b), fr.get(&c.c), c.t.Underlying().(*types.Map))
	case *ssa.Next:
		fr.regs[c.dst] = m.iterNext(fr.get(&c.a), x)
	case *ssa.Range:
		fr.regs[c.dst] = m.iterStart(fr.get(&c.a), c.t)
	case *ssa.Select:
		fr.regs[c.dst] = m.doSelect(fr, c, x)
	case *ssa.Send:
		m.chanSend(fr.get(&c.a), fr.get(&c.b))
	case *ssa.Slice:
		fr.regs[c.dst] = m.slice(fr, c, x)
	case *ssa.SliceToArrayPointer:
		a := fr.get(&c.a)
		n := int(c.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		f := m.cells(a)
		if len(f) < n {
			m.throw(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(f), n))
		}
		if a.P == nil {
			fr.regs[c.dst] = Value{K: KPtr}
		} else {
			fr.regs[c.dst] = Value{K: KPtr, P: &Value{K: KAgg, P: &Agg{f: f[:n:n]}}}
		}
	case *ssa.Store:
		v := fr.get(&c.b)
		p := fr.get(&c.a)
		m.storePtr(p, v)
	case *ssa.TypeAssert:
		fr.regs[c.dst] = m.typeAssert(fr.get(&c.a), c.t, x)
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", ins)})
	}
}

const maxAlloc = 1 << 22

// boundSym guards huge symbolic sizes before they are enumerated.
func (m *Machine) boundSym(v Value, msg string) Value {
	if v.P == nil {
		return v
	}
	t := v.P.(*Term)
	z := m.ts.Const(0, t.w)
	if m.path.Branch(m.ts.Cmp(BSlt, t, z)) {
		m.throw(msg)
	}
	if m.path.Branch(m.ts.Cmp(BSlt, m.ts.Const(1<<12, t.w), t)) {
		panic(unsupported{"allocation with a symbolic size above 4096"})
	}
	return v
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, s := intWidth(b)
	return !s
}

func (m *Machine) needConc(v Value, what string) {
	if v.P != nil {
		panic(unsupported{"symbolic operand in " + what})
	}
}

func (m *Machine) doCall(fr *frame, c *cins) Value {
	if c.call.builtin != "" {
		args := make([]Value, len(c.args))
		for i := range c.args {
			args[i] = fr.get(&c.args[i])
		}
		return m.builtin(fr, c, c.call.builtin, args)
	}
	fn, env, args, b := m.prepCall(fr, c)
	if b != nil {
		return m.builtin(fr, c, b.Name(), args)
	}
	return m.call(fn, args, env)
}

// index bounds check; returns concrete index or -1 with a term.
func (m *Machine) boundsIdx(i Value, n int, uns bool) (int, *Term) {
	if i.P == nil {
		var ok bool
		var ix uint64
		if uns {
			ix = i.N
			ok = ix < uint64(n)
		} else {
			s := sx(i.N, i.W)
			ix = uint64(s)
			ok = s >= 0 && s < int64(n)
		}
		if !ok {
			m.throw(fmt.Sprintf("index out of range [%d] with length %d", int64(ix), n))
		}
		return int(ix), nil
	}
	t := i.P.(*Term)
	t = m.widen(t, uns)
	if !m.path.Branch(m.ts.Cmp(BUlt, t, m.ts.Const(uint64(n), 64))) {
		m.throw(fmt.Sprintf("index out of range with length %d", n))
	}
	return -1, t
}

func (m *Machine) widen(t *Term, uns bool) *Term {
	if uns {
		return m.ts.Zext(t, 64)
	}
	return m.ts.Sext(t, 64)
}

func (m *Machine) elemAddr(f []Value, i Value, et types.Type, uns bool) Value {
	ix, t := m.boundsIdx(i, len(f), uns)
	if t == nil {
		return Value{K: KPtr, P: &f[ix]}
	}
	if len(f) == 1 {
		return Value{K: KPtr, P: &f[0]}
	}
	if _, ok := et.Underlying().(*types.Basic); !ok || len(f) > 64 {
		return Value{K: KPtr, P: &f[m.path.Concretize(t)]}
	}
	return Value{K: KPtr, P: &SymPtr{f: f, idx: t, t: et}}
}

func (m *Machine) cellAt(f []Value, i Value, et types.Type, uns bool) Value {
	p := m.elemAddr(f, i, et, uns)
	switch a := p.P.(type) {
	case *Value:
		if a.K == KNone {
			return zeroOf(et)
		}
		return *a
	case *SymPtr:
		return m.loadSym(a, et)
	}
	panic("cellAt")
}

func (m *Machine) strIndex(s, i Value, uns bool) Value {
	s = m.forceStr(s)
	switch b := s.P.(type) {
	case string:
		ix, t := m.boundsIdx(i, len(b), uns)
		if t == nil {
			return mkInt(uint64(b[ix]), 8)
		}
		bs := m.strTerms(s)
		return mkTerm(m.selectTerm(bs, t))
	case *SymStr:
		ix, t := m.boundsIdx(i, len(b.b), uns)
		if t == nil {
			return mkTerm(b.b[ix])
		}
		return mkTerm(m.selectTerm(b.b, t))
	}
	panic("strIndex")
}

func (m *Machine) selectTerm(b []*Term, t *Term) *Term {
	r := b[len(b)-1]
	for i := len(b) - 2; i >= 0; i-- {
		r = m.ts.Ite(m.ts.Eq(t, m.ts.Const(uint64(i), t.w)), b[i], r)
	}
	return r
}

// cells returns the memory of a slice value.
func (m *Machine) cells(v Value) []Value {
	switch p := v.P.(type) {
	case nil:
		return nil
	case *SliceV:
		return p.f
	case *LazyBytes:
		return m.forceBytes(p).f
	}
	panic(unsupported{fmt.Sprintf("slice %T", v.P)})
}

func (m *Machine) slice(fr *frame, c *cins, x *ssa.Slice) Value {
	a := fr.get(&c.a)
	bound := func(o *opnd, has ssa.Value, def int, lim int, what string) int {
		if has == nil {
			return def
		}
		v := fr.get(o)
		if v.P == nil {
			var s int64
			if isUnsigned(has.Type()) {
				s = int64(v.N)
			} else {
				s = sx(v.N, v.W)
			}
			if s < 0 || s > int64(lim) {
				m.throw(fmt.Sprintf("slice bounds out of range [%s%d] with limit %d", what, s, lim))
			}
			return int(s)
		}
		t := m.widen(v.P.(*Term), isUnsigned(has.Type()))
		if !m.path.Branch(m.ts.Cmp(BUle, t, m.ts.Const(uint64(lim), 64))) {
			m.throw(fmt.Sprintf("slice bounds out of range [%s] with limit %d", what, lim))
		}
		return int(m.path.Concretize(t))
	}
	if a.K == KString {
		a = m.forceStr(a)
		n := m.strLen(a)
		hi := bound(&c.c, x.High, n, n, ":")
		lo := bound(&c.b, x.Low, 0, hi, "")
		return m.substr(a, lo, hi)
	}
	var f []Value
	isNil := false
	switch p := a.P.(type) {
	case *SliceV:
		f = p.f
	case *LazyBytes:
		f = m.forceBytes(p).f
	case *Value:
		f = m.agg(p, x.X.Type().Underlying().(*types.Pointer).Elem()).f
	case nil:
		if a.K == KPtr {
			m.throw("invalid memory address or nil pointer dereference")
		}
		isNil = true
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", a.P)})
	}
	cp := cap(f)
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		cp = len(f)
		f = f[:len(f):len(f)]
	}
	mx := bound(&c.d, x.Max, cp, cp, "::")
	hi := bound(&c.c, x.High, min(len(f), mx), mx, ":")
	if x.High == nil && len(f) > mx {
		m.throw("slice bounds out of range")
	}
	lo := bound(&c.b, x.Low, 0, hi, "")
	if isNil {
		return Value{K: KSlice}
	}
	return Value{K: KSlice, P: &SliceV{f: f[lo:hi:mx]}}
}

func (m *Machine) typeAssert(v Value, t types.Type, x *ssa.TypeAssert) Value {
	ok := false
	var r Value
	v = m.iface(v)
	if v.P != nil {
		i := v.P.(*Iface)
		if it, isI := t.Underlying().(*types.Interface); isI {
			k := implKey{i.t, t}
			b, known := m.implMemo[k]
			if !known {
				b = types.Implements(i.t, it)
				m.implMemo[k] = b
			}
			if b {
				ok, r = true, v
			}
		} else if i.t == t {
			ok, r = true, i.v
		}
	}
	if !ok {
		if !x.CommaOk {
			d := "nil"
			if v.P != nil {
				d = v.P.(*Iface).t.String()
			}
			m.throw(fmt.Sprintf("interface conversion: interface is %s, not %s", d, t))
		}
		r = zeroOf(t)
	}
	if x.CommaOk {
		return mkTuple(r, mkBool(ok))
	}
	return r
}

// ---------- operators ----------

func (m *Machine) binop(op token.Token, t types.Type, a, b Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return mkTerm2(m, m.equal(a, b, t))
	case token.NEQ:
		e := m.equal(a, b, t)
		return mkTerm(m.ts.Not(e))
	}
	switch a.K {
	case KInt:
		return m.intop(op, t, a, b, yt)
	case KString:
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return mkTerm(m.strLess(a, b, false))
		case token.LEQ:
			return mkTerm(m.strLess(a, b, true))
		case token.GTR:
			return mkTerm(m.strLess(b, a, false))
		case token.GEQ:
			return mkTerm(m.strLess(b, a, true))
		}
	case KFloat:
		return m.floatop(op, a, b)
	case KBool:
		x, y := m.boolTerm(a), m.boolTerm(b)
		switch op {
		case token.LAND, token.AND:
			return mkTerm(m.ts.And(x, y))
		case token.LOR, token.OR:
			return mkTerm(m.ts.Or(x, y))
		}
	}
	panic(unsupported{fmt.Sprintf("binop %s on kind %d", op, a.K)})
}

func mkTerm2(m *Machine, t *Term) Value { return mkTerm(t) }

func (m *Machine) intop(op token.Token, t types.Type, a, b Value, yt types.Type) Value {
	uns := isUnsigned(t)
	if op == token.SHL || op == token.SHR {
		yu := isUnsigned(yt)
		if a.P == nil && b.P == nil {
			cnt := b.N
			if !yu && sx(b.N, b.W) < 0 {
				m.throw("negative shift amount")
			}
			switch {
			case op == token.SHL:
				if cnt >= 64 {
					return mkInt(0, a.W)
				}
				return mkInt(a.N<<cnt, a.W)
			case uns:
				if cnt >= 64 {
					return mkInt(0, a.W)
				}
				return mkInt(a.N>>cnt, a.W)
			default:
				if cnt > 63 {
					cnt = 63
				}
				return mkInt(uint64(sx(a.N, a.W)>>cnt), a.W)
			}
		}
		x, y := m.intTerm(a), m.intTerm(b)
		if !yu && !y.isConst() {
			if m.path.Branch(m.ts.Cmp(BSlt, y, m.ts.Const(0, y.w))) {
				m.throw("negative shift amount")
			}
		}
		if y.w < x.w {
			y = m.ts.Zext(y, x.w)
		} else if y.w > x.w {
			big := m.ts.Cmp(BUle, m.ts.Const(uint64(x.w), y.w), y)
			y = m.ts.Ite(big, m.ts.Const(uint64(x.w), x.w), m.ts.Extract(y, 0, x.w))
		}
		o := OShl
		if op == token.SHR {
			o = OAshr
			if uns {
				o = OLshr
			}
		}
		return mkTerm(m.ts.Bin(o, x, y))
	}
	if a.P == nil && b.P == nil {
		x, y := a.N, b.N
		w := a.W
		switch op {
		case token.ADD:
			return mkInt(x+y, w)
		case token.SUB:
			return mkInt(x-y, w)
		case token.MUL:
			return mkInt(x*y, w)
		case token.QUO, token.REM:
			if y == 0 {
				m.throw("integer divide by zero")
			}
			o := map[bool]map[token.Token]Op{true: {token.QUO: OUDiv, token.REM: OURem}, false: {token.QUO: OSDiv, token.REM: OSRem}}[uns][op]
			return mkInt(evalBin(o, x, y, w), w)
		case token.AND:
			return mkInt(x&y, w)
		case token.OR:
			return mkInt(x|y, w)
		case token.XOR:
			return mkInt(x^y, w)
		case token.AND_NOT:
			return mkInt(x&^y, w)
		case token.LSS:
			if uns {
				return mkBool(x < y)
			}
			return mkBool(sx(x, w) < sx(y, w))
		case token.LEQ:
			if uns {
				return mkBool(x <= y)
			}
			return mkBool(sx(x, w) <= sx(y, w))
		case token.GTR:
			if uns {
				return mkBool(x > y)
			}
			return mkBool(sx(x, w) > sx(y, w))
		case token.GEQ:
			if uns {
				return mkBool(x >= y)
			}
			return mkBool(sx(x, w) >= sx(y, w))
		}
		panic(unsupported{"intop " + op.String()})
	}
	x, y := m.intTerm(a), m.intTerm(b)
	lt, le := BSlt, BSle
	if uns {
		lt, le = BUlt, BUle
	}
	switch op {
	case token.ADD:
		return mkTerm(m.ts.Bin(OAdd, x, y))
	case token.SUB:
		return mkTerm(m.ts.Bin(OSub, x, y))
	case token.MUL:
		return mkTerm(m.ts.Bin(OMul, x, y))
	case token.QUO, token.REM:
		if m.path.Branch(m.ts.Eq(y, m.ts.Const(0, y.w))) {
			m.throw("integer divide by zero")
		}
		o := OSDiv
		switch {
		case uns && op == token.QUO:
			o = OUDiv
		case uns:
			o = OURem
		case op == token.REM:
			o = OSRem
		}
		return mkTerm(m.ts.Bin(o, x, y))
	case token.AND:
		return mkTerm(m.ts.Bin(OAnd, x, y))
	case token.OR:
		return mkTerm(m.ts.Bin(OOr, x, y))
	case token.XOR:
		return mkTerm(m.ts.Bin(OXor, x, y))
	case token.AND_NOT:
		return mkTerm(m.ts.Bin(OAnd, x, m.ts.BvNot(y)))
	case token.LSS:
		return mkTerm(m.ts.Cmp(lt, x, y))
	case token.LEQ:
		return mkTerm(m.ts.Cmp(le, x, y))
	case token.GTR:
		return mkTerm(m.ts.Cmp(lt, y, x))
	case token.GEQ:
		return mkTerm(m.ts.Cmp(le, y, x))
	}
	panic(unsupported{"intop " + op.String()})
}

// symbolic floats are bit patterns; only comparisons are encoded.
func (m *Machine) floatTerm(v Value) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	return m.ts.Const(v.N, v.W)
}

func (m *Machine) fNaN(t *Term) *Term {
	if t.w != 64 {
		panic(unsupported{"symbolic float32"})
	}
	abs := m.ts.Bin(OAnd, t, m.ts.Const(1<<63-1, 64))
	return m.ts.Cmp(BUlt, m.ts.Const(0x7ff0000000000000, 64), abs)
}

func (m *Machine) fZero(t *Term) *Term {
	return m.ts.Eq(m.ts.Bin(OAnd, t, m.ts.Const(1<<63-1, 64)), m.ts.Const(0, 64))
}

// fKey maps non-NaN bit patterns to a monotone unsigned order (both zeros to the same key).
func (m *Machine) fKey(t *Term) *Term {
	ts := m.ts
	neg := ts.Cmp(BSlt, t, ts.Const(0, 64))
	k := ts.Ite(neg, ts.BvNot(t), ts.Bin(OOr, t, ts.Const(1<<63, 64)))
	return ts.Ite(m.fZero(t), ts.Const(1<<63, 64), k)
}

func (m *Machine) fEq(x, y *Term) *Term {
	ts := m.ts
	ok := ts.And(ts.Not(m.fNaN(x)), ts.Not(m.fNaN(y)))
	return ts.And(ok, ts.Or(ts.Eq(x, y), ts.And(m.fZero(x), m.fZero(y))))
}

func (m *Machine) floatop(op token.Token, a, b Value) Value {
	if a.P == nil && b.P == nil {
		var x, y float64
		if a.W == 32 {
			x, y = float64(math.Float32frombits(uint32(a.N))), float64(math.Float32frombits(uint32(b.N)))
		} else {
			x, y = math.Float64frombits(a.N), math.Float64frombits(b.N)
		}
		mk := func(f float64) Value {
			if a.W == 32 {
				return Value{K: KFloat, W: 32, N: uint64(math.Float32bits(float32(f)))}
			}
			return Value{K: KFloat, W: 64, N: math.Float64bits(f)}
		}
		switch op {
		case token.ADD:
			return mk(x + y)
		case token.SUB:
			return mk(x - y)
		case token.MUL:
			return mk(x * y)
		case token.QUO:
			return mk(x / y)
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
		panic(unsupported{"floatop"})
	}
	x, y := m.floatTerm(a), m.floatTerm(b)
	ts := m.ts
	ok := ts.And(ts.Not(m.fNaN(x)), ts.Not(m.fNaN(y)))
	kx, ky := m.fKey(x), m.fKey(y)
	switch op {
	case token.LSS:
		return mkTerm(ts.And(ok, ts.Cmp(BUlt, kx, ky)))
	case token.LEQ:
		return mkTerm(ts.And(ok, ts.Cmp(BUle, kx, ky)))
	case token.GTR:
		return mkTerm(ts.And(ok, ts.Cmp(BUlt, ky, kx)))
	case token.GEQ:
		return mkTerm(ts.And(ok, ts.Cmp(BUle, ky, kx)))
	}
	if a.W == 64 && (op == token.ADD || op == token.SUB) {
		if op == token.SUB {
			y = ts.Bin(OXor, y, ts.Const(1<<63, 64))
		}
		return Value{K: KFloat, W: 64, P: ts.mk(OFAdd, 64, 0, x, y, nil)}
	}
	panic(unsupported{"symbolic float arithmetic"})
}

// equal returns the condition a == b at static type t.
func (m *Machine) equal(a, b Value, t types.Type) *Term {
	ts := m.ts
	if a.K == KNone {
		a = zeroOf(t)
	}
	if b.K == KNone {
		b = zeroOf(t)
	}
	switch a.K {
	case KInt:
		if a.P == nil && b.P == nil {
			return ts.Bool(a.N == b.N)
		}
		if m.hashOpaque && a.W == 64 {
			if t, ok := m.hashEq(a, b); ok {
				return t
			}
		}
		return ts.Eq(m.intTerm(a), m.intTerm(b))
	case KBool:
		return ts.Eq(m.boolTerm(a), m.boolTerm(b))
	case KFloat:
		if a.P == nil && b.P == nil {
			if a.W == 32 {
				return ts.Bool(math.Float32frombits(uint32(a.N)) == math.Float32frombits(uint32(b.N)))
			}
			return ts.Bool(math.Float64frombits(a.N) == math.Float64frombits(b.N))
		}
		return m.fEq(m.floatTerm(a), m.floatTerm(b))
	case KString:
		return m.strEq(a, b)
	case KPtr:
		return ts.Bool(m.ptrEq(a, b))
	case KChan:
		return ts.Bool(a.P == b.P)
	case KMap, KSlice, KFunc:
		if a.P == nil || b.P == nil {
			return ts.Bool(a.P == nil && b.P == nil)
		}
		panic(unsupported{"comparison of non-nil map/slice/func"})
	case KIface:
		if b.K != KIface {
			panic(unsupported{"interface compared with concrete value"})
		}
		a, b = m.iface(a), m.iface(b)
		if a.P == nil || b.P == nil {
			return ts.Bool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.t != y.t {
			return ts.ff
		}
		if !types.Comparable(x.t) {
			m.throw("comparing uncomparable type " + x.t.String())
		}
		return m.equal(x.v, y.v, x.t)
	case KAgg:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := ts.tt
		for i := range x.f {
			var et types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				if u.Field(i).Name() == "_" {
					continue
				}
				et = u.Field(i).Type()
			case *types.Array:
				et = u.Elem()
			}
			r = ts.And(r, m.equal(x.f[i], y.f[i], et))
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("equality on kind %d", a.K)})
}

func (m *Machine) ptrEq(a, b Value) bool {
	if a.P == nil || b.P == nil {
		return a.P == nil && b.P == nil
	}
	x, ok1 := a.P.(*Value)
	y, ok2 := b.P.(*Value)
	if ok1 && ok2 {
		return x == y
	}
	if s, ok := a.P.(*SymPtr); ok {
		x = &s.f[m.path.Concretize(s.idx)]
	}
	if s, ok := b.P.(*SymPtr); ok {
		y = &s.f[m.path.Concretize(s.idx)]
	}
	return x == y
}

// encodeRune is the UTF-8 form of a symbolic code point; the length class is forked.
func (m *Machine) encodeRune(t *Term, signed bool) []*Term {
	ts := m.ts
	switch {
	case t.w < 32 && signed:
		t = ts.Sext(t, 32)
	case t.w < 32:
		t = ts.Zext(t, 32)
	case t.w > 32:
		if m.path.Branch(ts.Cmp(BUlt, ts.Const(0x10ffff, t.w), t)) {
			return m.strTerms(mkStr("\uFFFD"))
		}
		t = ts.Extract(t, 0, 32)
	}
	lt := func(k uint64) bool { return m.path.Branch(ts.Cmp(BUlt, t, ts.Const(k, 32))) }
	part := func(lo, w uint8, lead uint64) *Term {
		return ts.Bin(OOr, ts.Zext(ts.Extract(t, lo, w), 8), ts.Const(lead, 8))
	}
	if lt(0x80) {
		return []*Term{ts.Extract(t, 0, 8)}
	}
	if lt(0x800) {
		return []*Term{part(6, 5, 0xC0), part(0, 6, 0x80)}
	}
	if !lt(0x110000) || (!lt(0xD800) && lt(0xE000)) {
		return m.strTerms(mkStr("\uFFFD"))
	}
	if lt(0x10000) {
		return []*Term{part(12, 4, 0xE0), part(6, 6, 0x80), part(0, 6, 0x80)}
	}
	return []*Term{part(18, 3, 0xF0), part(12, 6, 0x80), part(6, 6, 0x80), part(0, 6, 0x80)}
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				if f.Info()&types.IsInteger != 0 {
					w, signed := intWidth(f)
					if t, ok := v.P.(*Term); ok {
						return m.termsToStr(m.encodeRune(t, signed))
					}
					n := m.concInt(v)
					if signed {
						n = uint64(sx(n, w))
					}
					if n > 0x10ffff {
						return mkStr("\uFFFD")
					}
					return mkStr(string(rune(n)))
				}
			case *types.Slice:
				if isByte(f.Elem()) {
					return m.bytesToStr(v)
				}
				var sb []*Term
				for _, c := range m.cells(v) {
					if c.K == KNone {
						c = mkInt(0, 32)
					}
					if t, ok := c.P.(*Term); ok {
						sb = append(sb, m.encodeRune(t, true)...)
						continue
					}
					for _, x := range utf8.AppendRune(nil, rune(int32(c.N))) {
						sb = append(sb, m.ts.Const(uint64(x), 8))
					}
				}
				return m.termsToStr(sb)
			}
		case t.Info()&types.IsInteger != 0:
			w, _ := intWidth(t)
			switch v.K {
			case KInt:
				fb := fu.(*types.Basic)
				_, fs := intWidth(fb)
				if v.P == nil {
					if fs {
						return mkInt(uint64(sx(v.N, v.W)), w)
					}
					return mkInt(v.N, w)
				}
				x := v.P.(*Term)
				switch {
				case w < x.w:
					return mkTerm(m.ts.Extract(x, 0, w))
				case fs:
					return mkTerm(m.ts.Sext(x, w))
				default:
					return mkTerm(m.ts.Zext(x, w))
				}
			case KFloat:
				m.needConc(v, "float to int")
				f := math.Float64frombits(v.N)
				if v.W == 32 {
					f = float64(math.Float32frombits(uint32(v.N)))
				}
				if isUnsigned(to) {
					return mkInt(uint64(f), w)
				}
				return mkInt(uint64(int64(f)), w)
			case KPtr:
				panic(unsupported{"uintptr(unsafe.Pointer)"})
			}
		case t.Info()&types.IsFloat != 0:
			w := uint8(64)
			if t.Kind() == types.Float32 {
				w = 32
			}
			var f float64
			switch v.K {
			case KInt:
				n := m.concInt(v)
				if isUnsigned(from) {
					f = float64(n)
				} else {
					f = float64(sx(n, v.W))
				}
			case KFloat:
				if w == v.W {
					return v
				}
				m.needConc(v, "float conversion")
				f = math.Float64frombits(v.N)
				if v.W == 32 {
					f = float64(math.Float32frombits(uint32(v.N)))
				}
			}
			if w == 32 {
				return Value{K: KFloat, W: 32, N: uint64(math.Float32bits(float32(f)))}
			}
			return Value{K: KFloat, W: 64, N: math.Float64bits(f)}
		case t.Kind() == types.UnsafePointer:
			if v.K == KPtr {
				return v
			}
		}
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if isByte(t.Elem()) {
				return m.strToBytes(v)
			}
			var f []Value
			for _, r := range m.runes(m.strTerms(m.forceStr(v))) {
				f = append(f, mkTerm(r))
			}
			if f == nil {
				f = []Value{}
			}
			return Value{K: KSlice, P: &SliceV{f: f}}
		}
		return v
	case *types.Pointer:
		if v.K == KPtr {
			return v // through unsafe.Pointer: only layout-preserving uses are followed
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion %v -> %v", from, to)})
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---------- builtins ----------

func (m *Machine) builtin(fr *frame, c *cins, name string, args []Value) Value {
	switch name {
	case "len":
		a := args[0]
		switch a.K {
		case KString:
			if l, ok := a.P.(*LazyStr); ok {
				return m.lazyLen(l)
			}
			return mkInt(uint64(m.strLen(a)), 64)
		case KSlice:
			if l, ok := a.P.(*LazyBytes); ok && l.s.bytes == nil {
				return m.lazyLen(l.s)
			}
			return mkInt(uint64(len(m.cells(a))), 64)
		case KMap:
			if a.P == nil {
				return mkInt(0, 64)
			}
			if m.race != nil {
				m.race.obj(m, a.P.(*Map), false)
			}
			return mkInt(uint64(a.P.(*Map).n), 64)
		case KChan:
			if a.P == nil {
				return mkInt(0, 64)
			}
			return mkInt(uint64(len(a.P.(*Chan).buf)), 64)
		case KAgg:
			return mkInt(uint64(len(a.P.(*Agg).f)), 64)
		case KPtr:
			if at, ok := c.call.recvT.Underlying().(*types.Pointer); ok {
				return mkInt(uint64(at.Elem().Underlying().(*types.Array).Len()), 64)
			}
		}
	case "cap":
		a := args[0]
		switch a.K {
		case KSlice:
			return mkInt(uint64(cap(m.cells(a))), 64)
		case KChan:
			if a.P == nil {
				return mkInt(0, 64)
			}
			return mkInt(uint64(a.P.(*Chan).cap), 64)
		case KAgg:
			return mkInt(uint64(len(a.P.(*Agg).f)), 64)
		}
	case "append":
		return m.appendB(args[0], args[1], c)
	case "copy":
		dst := m.cells(args[0])
		var src []Value
		if args[1].K == KString {
			src = m.strCells(args[1])
		} else {
			src = m.cells(args[1])
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
			if tmp[i].K == KNone && dst[i].K != KNone && dst[i].K != KAgg {
				tmp[i] = zeroOf(elemType(c.call.recvT))
			}
		}
		for i := 0; i < n; i++ {
			if m.race != nil {
				m.race.access(m, &dst[i], true)
			}
			m.store(&dst[i], tmp[i])
		}
		return mkInt(uint64(n), 64)
	case "delete":
		m.mapDelete(args[0], args[1], c.call.recvT.Underlying().(*types.Map))
		return Value{}
	case "close":
		m.chanClose(args[0])
		return Value{}
	case "panic":
		v := args[0]
		tp := &targetPanic{v: v, msg: "panic: " + m.describe(v)}
		tp.stack = fr.g.stackTrace()
		panic(tp)
	case "recover":
		o := fr.owner
		if o != nil && o.panicking != nil && !o.recovered {
			o.recovered = true
			return o.panicking.v
		}
		return nilIface
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		for _, v := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			if m.cond(m.binop(op, c.call.sig.Results().At(0).Type(), v, r, nil2(c))) {
				r = v
			}
		}
		return r
	case "clear":
		a := args[0]
		switch a.K {
		case KMap:
			if a.P != nil {
				mp := a.P.(*Map)
				m.mapTouch(mp)
				mp.ents, mp.idx, mp.n, mp.nsym = nil, map[string]int{}, 0, 0
			}
		case KSlice:
			et := elemType(c.call.recvT)
			for i, f := 0, m.cells(a); i < len(f); i++ {
				m.store(&f[i], zeroOf(et))
			}
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			m.throw("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return Value{K: KPtr}
	case "String": // unsafe.String
		p, ok := args[0].P.(*unsafeData)
		n := int(m.concSigned(args[1]))
		if n == 0 {
			return mkStr("")
		}
		if ok {
			return m.cellsToStr(p.f[:n])
		}
		if s, ok := args[0].P.(*Value); ok && n == 1 {
			return m.cellsToStr([]Value{*s})
		}
	case "SliceData":
		if args[0].P == nil {
			return Value{K: KPtr}
		}
		return Value{K: KPtr, P: &unsafeData{f: m.cells(args[0])}}
	case "StringData":
		return Value{K: KPtr, P: &unsafeData{f: m.strCells(args[0])}}
	case "Slice":
		if p, ok := args[0].P.(*unsafeData); ok {
			n := int(m.concSigned(args[1]))
			return Value{K: KSlice, P: &SliceV{f: p.f[:n:n]}}
		}
	}
	panic(unsupported{"builtin " + name})
}

type unsafeData struct{ f []Value }

func nil2(c *cins) types.Type { return types.Typ[types.Int] }

func (m *Machine) appendB(a, b Value, c *cins) Value {
	f := m.cells(a)
	var add []Value
	if b.K == KString {
		add = m.strCells(b)
	} else {
		add = m.cells(b)
	}
	if len(add) == 0 {
		if a.P == nil {
			return Value{K: KSlice}
		}
		return a
	}
	n := len(f) + len(add)
	if n <= cap(f) {
		g := f[:n]
		tmp := make([]Value, len(add))
		et := elemType(c.call.recvT)
		for i := range add {
			tmp[i] = copyVal(add[i])
			if tmp[i].K == KNone {
				tmp[i] = zeroOf(et)
			}
		}
		for i := range tmp {
			if m.race != nil {
				m.race.access(m, &g[len(f)+i], true)
			}
			m.store(&g[len(f)+i], tmp[i])
		}
		return Value{K: KSlice, P: &SliceV{f: g}}
	}
	es := int(m.L.sizes.Sizeof(elemType(c.call.recvT)))
	nc := growCap(cap(f), n, es)
	g := make([]Value, n, nc)
	for i := range f {
		g[i] = copyVal(f[i])
	}
	for i := range add {
		g[len(f)+i] = copyVal(add[i])
	}
	return Value{K: KSlice, P: &SliceV{f: g}}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors runtime.growslice.
func growCap(old, need, es int) int {
	nc := old
	dbl := old + old
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return need
	}
	bytes := nc * es
	if bytes <= 32768 {
		for _, s := range sizeClasses {
			if s >= bytes {
				bytes = s
				break
			}
		}
	} else {
		bytes = (bytes + 8191) &^ 8191
	}
	if r := bytes / es; r > need {
		return r
	}
	return max(need, bytes/es)
}
