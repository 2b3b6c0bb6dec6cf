package main

// Strings, byte slices, lazily formatted decimals, maps and range iteration.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) forceStr(v Value) Value {
	l, ok := v.P.(*LazyStr)
	if !ok {
		return v
	}
	if l.forced != nil {
		return *l.forced
	}
	var ts []*Term
	for _, p := range l.parts {
		if q, ok := p.P.(*quoted); ok {
			ts = append(ts, m.strTerms(m.call(m.L.pkgs["strconv"].Func("quoteWith"), []Value{q.s, mkInt('"', 8), mkBool(false), mkBool(false)}, nil))...)
		} else if p.K == KString {
			ts = append(ts, m.strTerms(p)...)
		} else {
			ts = append(ts, m.decimal(p)...)
		}
	}
	r := m.termsToStr(ts)
	l.forced = &r
	return r
}

func (m *Machine) forceBytes(l *LazyBytes) *SliceV {
	if l.s.bytes == nil {
		l.s.bytes = &SliceV{f: m.strCells(Value{K: KString, P: l.s})}
	}
	return l.s.bytes
}

func (m *Machine) strLen(v Value) int {
	switch s := v.P.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *LazyStr:
		return m.strLen(m.forceStr(v))
	}
	panic(fmt.Sprintf("strLen %T", v.P))
}

// lazyLen is the length of a lazy string, without fixing the number of digits of its decimals.
func (m *Machine) lazyLen(l *LazyStr) Value {
	if l.forced != nil {
		return mkInt(uint64(m.strLen(*l.forced)), 64)
	}
	ts := m.ts
	r := ts.Const(0, 64)
	for _, p := range l.parts {
		if p.K == KString {
			r = ts.Bin(OAdd, r, ts.Const(uint64(m.strLen(p)), 64))
			continue
		}
		if p.K != KInt {
			return mkInt(uint64(m.strLen(Value{K: KString, P: l})), 64)
		}
		if p.P == nil {
			r = ts.Bin(OAdd, r, ts.Const(uint64(len(strconv.FormatInt(sx(p.N, p.W), 10))), 64))
			continue
		}
		t := p.P.(*Term)
		if t.w < 64 {
			t = ts.Sext(t, 64)
		}
		if d, ok := m.path.digits[t]; ok {
			r = ts.Bin(OAdd, r, ts.Const(uint64(len(d.terms)), 64))
			continue
		}
		neg := ts.Cmp(BSlt, t, ts.Const(0, 64))
		mag := ts.Ite(neg, ts.Neg(t), t)
		n := ts.Const(19, 64)
		lim := uint64(1000000000000000000)
		for k := uint64(18); k >= 1; k-- {
			n = ts.Ite(ts.Cmp(BUlt, mag, ts.Const(lim, 64)), ts.Const(k, 64), n)
			lim /= 10
		}
		n = ts.Bin(OAdd, n, ts.Ite(neg, ts.Const(1, 64), ts.Const(0, 64)))
		r = ts.Bin(OAdd, r, n)
	}
	return mkTerm(r)
}

func (m *Machine) strTerms(v Value) []*Term {
	switch s := v.P.(type) {
	case string:
		r := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = m.ts.small[s[i]]
		}
		return r
	case *SymStr:
		return s.b
	case *LazyStr:
		return m.strTerms(m.forceStr(v))
	}
	panic(fmt.Sprintf("strTerms %T", v.P))
}

func (m *Machine) termsToStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return Value{K: KString, P: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.k)
	}
	return mkStr(string(bs))
}

func (m *Machine) strCells(v Value) []Value {
	v = m.forceStr(v)
	switch s := v.P.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = Value{K: KInt, W: 8, N: uint64(s[i])}
		}
		return r
	case *SymStr:
		r := make([]Value, len(s.b))
		for i, t := range s.b {
			r[i] = mkTerm(t)
		}
		return r
	}
	panic("strCells")
}

func (m *Machine) cellsToStr(f []Value) Value {
	conc := true
	for i := range f {
		if f[i].P != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(f))
		for i := range f {
			bs[i] = byte(f[i].N)
		}
		return mkStr(string(bs))
	}
	b := make([]*Term, len(f))
	for i := range f {
		if f[i].P == nil {
			b[i] = m.ts.small[byte(f[i].N)]
		} else {
			b[i] = f[i].P.(*Term)
		}
	}
	return Value{K: KString, P: &SymStr{b}}
}

func (m *Machine) bytesToStr(v Value) Value {
	if l, ok := v.P.(*LazyBytes); ok {
		if l.s.bytes == nil {
			return Value{K: KString, P: l.s}
		}
	}
	return m.cellsToStr(m.cells(v))
}

func (m *Machine) strToBytes(v Value) Value {
	if l, ok := v.P.(*LazyStr); ok && l.forced == nil {
		n := &LazyStr{parts: l.parts} // fresh identity: the slice may be mutated
		return Value{K: KSlice, P: &LazyBytes{n}}
	}
	return Value{K: KSlice, P: &SliceV{f: m.strCells(v)}}
}

func (m *Machine) substr(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return m.termsToStr(s.b[lo:hi:hi])
	}
	panic("substr")
}

func (m *Machine) concat(a, b Value) Value {
	if x, ok := a.P.(string); ok {
		if y, ok := b.P.(string); ok {
			return mkStr(x + y)
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.P.(string); ok && y == "" {
		return a
	}
	_, la := a.P.(*LazyStr)
	_, lb := b.P.(*LazyStr)
	if la || lb {
		return m.lazyConcat(a, b)
	}
	x, y := m.strTerms(a), m.strTerms(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return m.termsToStr(r)
}

func (m *Machine) lazyConcat(vs ...Value) Value {
	var parts []Value
	for _, v := range vs {
		if l, ok := v.P.(*LazyStr); ok && v.K == KString {
			if l.forced != nil {
				parts = append(parts, *l.forced)
			} else {
				parts = append(parts, l.parts...)
			}
		} else if v.K == KString {
			if s, ok := v.P.(string); ok && s == "" {
				continue
			}
			parts = append(parts, v)
		} else {
			parts = append(parts, v)
		}
	}
	lazy := false
	for _, p := range parts {
		if p.K == KInt || p.K == KNone {
			lazy = true
		}
	}
	if !lazy {
		r := mkStr("")
		for _, p := range parts {
			r = m.concat(r, p)
		}
		return r
	}
	return Value{K: KString, P: &LazyStr{parts: parts}}
}

func (m *Machine) strEq(a, b Value) *Term {
	if a.P == b.P {
		if _, ok := a.P.(string); !ok {
			return m.ts.tt
		}
	}
	// lazily formatted decimals: equal part structure compares the integers
	if x, ok := a.P.(*LazyStr); ok && x.forced == nil {
		if y, ok := b.P.(*LazyStr); ok && y.forced == nil && len(x.parts) == len(y.parts) {
			if t, ok := m.lazyEq(x, y); ok {
				return t
			}
		}
	}
	if x, ok := a.P.(*LazyStr); ok && x.forced == nil {
		if y, ok := b.P.(string); ok {
			if t, ok := m.lazyIs(x, y); ok {
				return t
			}
		}
	}
	if y, ok := b.P.(*LazyStr); ok && y.forced == nil {
		if x, ok := a.P.(string); ok {
			if t, ok := m.lazyIs(y, x); ok {
				return t
			}
		}
	}
	a, b = m.forceStr(a), m.forceStr(b)
	if x, ok := a.P.(string); ok {
		if y, ok := b.P.(string); ok {
			return m.ts.Bool(x == y)
		}
	}
	if m.strLen(a) != m.strLen(b) {
		return m.ts.ff
	}
	x, y := m.strTerms(a), m.strTerms(b)
	r := m.ts.tt
	for i := range x {
		e := m.ts.Eq(x[i], y[i])
		if e.isFalse() {
			return e
		}
		r = m.ts.And(r, e)
	}
	return r
}

func (m *Machine) lazyEq(x, y *LazyStr) (*Term, bool) {
	r := m.ts.tt
	nInt := 0
	for i := range x.parts {
		p, q := x.parts[i], y.parts[i]
		if p.K == KNone && q.K == KNone && p.P == q.P {
			continue
		}
		if p.K != q.K || p.K == KNone {
			return nil, false
		}
		if p.K == KInt {
			nInt++
			r = m.ts.And(r, m.ts.Eq(m.intTerm(p), m.intTerm(q)))
			continue
		}
		if m.strLen(p) != m.strLen(q) {
			return nil, false
		}
		e := m.strEq(p, q)
		r = m.ts.And(r, e)
	}
	// with one integer between fixed-length neighbours, string equality is exactly part-wise equality
	return r, nInt <= 1 || r.isTrue()
}

func (m *Machine) strLess(a, b Value, orEq bool) *Term {
	a, b = m.forceStr(a), m.forceStr(b)
	if x, ok := a.P.(string); ok {
		if y, ok := b.P.(string); ok {
			if orEq {
				return m.ts.Bool(x <= y)
			}
			return m.ts.Bool(x < y)
		}
	}
	x, y := m.strTerms(a), m.strTerms(b)
	n := min(len(x), len(y))
	var r *Term
	if orEq {
		r = m.ts.Bool(len(x) <= len(y))
	} else {
		r = m.ts.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		r = m.ts.Or(m.ts.Cmp(BUlt, x[i], y[i]), m.ts.And(m.ts.Eq(x[i], y[i]), r))
	}
	return r
}

// concStr concretises a string (forking over its bytes).
func (m *Machine) concStr(v Value) string {
	v = m.forceStr(v)
	switch s := v.P.(type) {
	case string:
		return s
	case *SymStr:
		bs := make([]byte, len(s.b))
		for i, t := range s.b {
			bs[i] = byte(m.path.Concretize(t))
		}
		return string(bs)
	}
	panic("concStr")
}

// decimal expands the base-10 text of a signed 64-bit symbolic integer: sign and digit count are forked, the digits
// are fresh bytes tied to the value by a Horner sum (multiplication by ten only).
func (m *Machine) decimal(v Value) []*Term {
	if v.P == nil {
		return m.strTerms(mkStr(strconv.FormatInt(sx(v.N, v.W), 10)))
	}
	p, ts := m.path, m.ts
	t := v.P.(*Term)
	if t.w < 64 {
		t = ts.Sext(t, 64)
	}
	if r, ok := p.digits[t]; ok {
		return r.terms
	}
	neg := p.Branch(ts.Cmp(BSlt, t, ts.Const(0, 64)))
	mag := t
	if neg {
		mag = ts.Neg(t)
	}
	// number of digits
	n := 1
	lim := uint64(10)
	for n < 19 {
		if p.Branch(ts.Cmp(BUlt, mag, ts.Const(lim, 64))) {
			break
		}
		lim *= 10
		n++
	}
	p.nfresh++
	id := p.nfresh
	old := p.model
	mv := p.eval(mag)
	ds := strconv.FormatUint(mv, 10)
	nm := Model{}
	for k, x := range old {
		nm[k] = x
	}
	var out []*Term
	if neg {
		out = append(out, ts.small['-'])
	}
	sum := ts.Const(0, 64)
	changed := false
	var cons []*Term
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("dig!%d!%d", id, i)
		d := p.NewVar(name, 8)
		if _, ok := nm[name]; !ok {
			c := byte('0')
			if i < len(ds) {
				c = ds[i]
			}
			nm[name] = uint64(c)
			changed = true
		}
		out = append(out, d)
		lo := uint64('0')
		if i == 0 && n > 1 {
			lo = '1'
		}
		cons = append(cons, ts.And(ts.Cmp(BUle, ts.Const(lo, 8), d), ts.Cmp(BUle, d, ts.Const('9', 8))))
		sum = ts.Bin(OAdd, ts.Bin(OMul, sum, ts.Const(10, 64)), ts.Zext(ts.Bin(OAdd, d, ts.Const(256-'0', 8)), 64))
	}
	if changed {
		p.setModel(nm)
	}
	for _, c := range cons {
		p.addPC(c)
	}
	p.addPC(ts.Eq(mag, sum))
	p.digits[t] = digitRec{terms: out, neg: neg, v: t}
	for _, r := range out {
		if r.op == OVar {
			p.digits[r] = digitRec{terms: out, neg: neg, v: t}
			break
		}
	}
	return out
}

// parseDigits recognises the text produced by decimal and returns the integer it came from.
func (m *Machine) parseDigits(b []*Term) (*Term, bool) {
	if len(b) == 0 {
		return nil, false
	}
	f := b[0]
	if f == m.ts.small['-'] && len(b) > 1 {
		f = b[1]
	}
	r, ok := m.path.digits[f]
	if !ok || f.op != OVar || len(r.terms) != len(b) {
		return nil, false
	}
	for i := range b {
		if r.terms[i] != b[i] {
			return nil, false
		}
	}
	return r.v, true
}

// ---------- maps ----------

// keyRep renders a concrete comparable value; ok is false when any part is symbolic.
func (m *Machine) keyRep(v Value, t types.Type, sb *strings.Builder) bool {
	switch v.K {
	case KNone:
		return m.keyRep(zeroOf(t), t, sb)
	case KInt, KBool:
		if v.P != nil {
			return false
		}
		fmt.Fprintf(sb, "i%d;", v.N)
	case KFloat:
		if v.P != nil {
			return false
		}
		f := math.Float64frombits(v.N)
		if f == 0 {
			f = 0
		}
		if f != f {
			return false
		}
		fmt.Fprintf(sb, "f%x;", math.Float64bits(f))
	case KString:
		s, ok := v.P.(string)
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "s%d:", len(s))
		sb.WriteString(s)
	case KPtr, KChan:
		fmt.Fprintf(sb, "p%p;", v.P)
	case KIface:
		v = m.iface(v)
		if v.P == nil {
			sb.WriteString("nil;")
			break
		}
		i := v.P.(*Iface)
		if !types.Comparable(i.t) {
			m.throw("hash of unhashable type " + i.t.String())
		}
		fmt.Fprintf(sb, "I%p:", i.t)
		return m.keyRep(i.v, i.t, sb)
	case KAgg:
		for i, f := range v.P.(*Agg).f {
			var et types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				et = u.Field(i).Type()
			case *types.Array:
				et = u.Elem()
			}
			if !m.keyRep(f, et, sb) {
				return false
			}
		}
	default:
		panic(unsupported{fmt.Sprintf("map key of kind %d", v.K)})
	}
	return true
}

func (m *Machine) mapFind(mp *Map, k Value, kt types.Type) int {
	if k.K == KString {
		k = m.forceStr(k)
	}
	k = m.iface(k)
	if k.K == KIface && k.P != nil {
		if i := k.P.(*Iface); i.v.K == KString {
			k = Value{K: KIface, P: &Iface{i.t, m.forceStr(i.v)}}
		}
	}
	var sb strings.Builder
	conc := m.keyRep(k, kt, &sb)
	if conc {
		if i, ok := mp.idx[sb.String()]; ok {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if !e.live {
			continue
		}
		if conc {
			var sb2 strings.Builder
			if m.keyRep(e.k, kt, &sb2) {
				continue
			}
		}
		if m.path.Branch(m.equal(k, e.k, kt)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapTouch(mp *Map) {
	if mp.E == m.epoch {
		return
	}
	if !m.initing {
		ents := append([]mapEntry(nil), mp.ents...)
		idx := make(map[string]int, len(mp.idx))
		for k, v := range mp.idx {
			idx[k] = v
		}
		n, ns, e := mp.n, mp.nsym, mp.E
		m.undo = append(m.undo, undoRec{fn: func() { mp.ents, mp.idx, mp.n, mp.nsym, mp.E = ents, idx, n, ns, e }})
	}
	mp.E = m.epoch
}

func (m *Machine) mapGet(a, k Value, t *types.Map) (Value, bool) {
	if a.P != nil {
		mp := a.P.(*Map)
		if m.race != nil {
			m.race.obj(m, mp, false)
		}
		if i := m.mapFind(mp, k, t.Key()); i >= 0 {
			return mp.ents[i].v, true
		}
	} else if k.K == KIface {
		var sb strings.Builder
		m.keyRep(k, t.Key(), &sb)
	}
	return zeroOf(t.Elem()), false
}

func (m *Machine) mapSet(a, k, v Value, t *types.Map) {
	if a.P == nil {
		m.throw("assignment to entry in nil map")
	}
	mp := a.P.(*Map)
	if m.race != nil {
		m.race.obj(m, mp, true)
	}
	if k.K == KString {
		k = m.forceStr(k)
	}
	v = copyVal(v)
	if i := m.mapFind(mp, k, t.Key()); i >= 0 {
		m.mapTouch(mp)
		mp.ents[i].v = v
		return
	}
	m.mapTouch(mp)
	var sb strings.Builder
	mp.ents = append(mp.ents, mapEntry{k: copyVal(k), v: v, live: true})
	if m.keyRep(k, t.Key(), &sb) {
		mp.idx[sb.String()] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
	mp.n++
}

func (m *Machine) mapDelete(a, k Value, t *types.Map) {
	if a.P == nil {
		return
	}
	mp := a.P.(*Map)
	if m.race != nil {
		m.race.obj(m, mp, true)
	}
	i := m.mapFind(mp, k, t.Key())
	if i < 0 {
		return
	}
	m.mapTouch(mp)
	var sb strings.Builder
	if m.keyRep(mp.ents[i].k, t.Key(), &sb) {
		delete(mp.idx, sb.String())
	} else {
		mp.nsym--
	}
	mp.ents[i] = mapEntry{}
	mp.n--
}

func (m *Machine) iterStart(v Value, t types.Type) Value {
	if v.K == KString {
		v = m.forceStr(v)
		return Value{K: KIter, P: &MapIter{str: &strIter{v: v}}}
	}
	it := &MapIter{}
	if v.P != nil {
		it.m = v.P.(*Map)
		if m.race != nil {
			m.race.obj(m, it.m, false)
		}
		for i := range it.m.ents {
			if it.m.ents[i].live {
				it.left = append(it.left, i)
			}
		}
	}
	return Value{K: KIter, P: it}
}

func (m *Machine) iterNext(v Value, x *ssa.Next) Value {
	it := v.P.(*MapIter)
	tt := x.Type().(*types.Tuple)
	if it.str != nil {
		s := it.str
		n := m.strLen(s.v)
		if s.pos >= n {
			return mkTuple(mkBool(false), mkInt(0, 64), mkInt(0, 32))
		}
		b := m.strTerms(s.v)
		at := s.pos
		r, sz := m.decodeRune(b[at:])
		s.pos += sz
		return mkTuple(mkBool(true), mkInt(uint64(at), 64), mkTerm(r))
	}
	for len(it.left) > 0 {
		j := 0
		if m.opts.mapOrder && len(it.left) > 1 {
			j = m.randChoice(len(it.left))
		}
		i := it.left[j]
		it.left = append(append([]int(nil), it.left[:j]...), it.left[j+1:]...)
		if i < len(it.m.ents) && it.m.ents[i].live {
			e := it.m.ents[i]
			return mkTuple(mkBool(true), e.k, e.v)
		}
	}
	zk, zv := Value{}, Value{}
	if b, ok := tt.At(1).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zk = zeroOf(tt.At(1).Type())
	}
	if b, ok := tt.At(2).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zv = zeroOf(tt.At(2).Type())
	}
	return mkTuple(mkBool(false), zk, zv)
}

// decodeRune is the first code point of b (not empty) and the number of bytes it takes; the length class is forked.
func (m *Machine) decodeRune(b []*Term) (*Term, int) {
	ts := m.ts
	n := len(b)
	if n > 4 {
		n = 4
	}
	var bs []byte
	for _, t := range b[:n] {
		if !t.isConst() {
			break
		}
		bs = append(bs, byte(t.k))
	}
	if len(bs) == n || (len(bs) > 0 && utf8.FullRune(bs)) {
		r, sz := utf8.DecodeRune(bs)
		return ts.Const(uint64(uint32(r)), 32), sz
	}
	c := func(k uint64) *Term { return ts.Const(k, 8) }
	in := func(t *Term, lo, hi uint64) *Term {
		return ts.And(ts.Not(ts.Cmp(BUlt, t, c(lo))), ts.Not(ts.Cmp(BUlt, c(hi), t)))
	}
	low := func(t *Term, w uint8, sh uint64) *Term {
		return ts.Bin(OShl, ts.Zext(ts.Extract(t, 0, w), 32), ts.Const(sh, 32))
	}
	or := func(x, y *Term) *Term { return ts.Bin(OOr, x, y) }
	if m.path.Branch(ts.Cmp(BUlt, b[0], c(0x80))) {
		return ts.Zext(b[0], 32), 1
	}
	if n >= 2 && m.path.Branch(ts.And(in(b[0], 0xC2, 0xDF), in(b[1], 0x80, 0xBF))) {
		return or(low(b[0], 5, 6), low(b[1], 6, 0)), 2
	}
	if n >= 3 {
		ok := ts.And(in(b[0], 0xE0, 0xEF), ts.And(in(b[1], 0x80, 0xBF), in(b[2], 0x80, 0xBF)))
		ok = ts.And(ok, ts.Not(ts.And(ts.Eq(b[0], c(0xE0)), ts.Cmp(BUlt, b[1], c(0xA0)))))
		ok = ts.And(ok, ts.Not(ts.And(ts.Eq(b[0], c(0xED)), ts.Cmp(BUlt, c(0x9F), b[1]))))
		if m.path.Branch(ok) {
			return or(low(b[0], 4, 12), or(low(b[1], 6, 6), low(b[2], 6, 0))), 3
		}
	}
	if n >= 4 {
		ok := ts.And(ts.And(in(b[0], 0xF0, 0xF4), in(b[1], 0x80, 0xBF)), ts.And(in(b[2], 0x80, 0xBF), in(b[3], 0x80, 0xBF)))
		ok = ts.And(ok, ts.Not(ts.And(ts.Eq(b[0], c(0xF0)), ts.Cmp(BUlt, b[1], c(0x90)))))
		ok = ts.And(ok, ts.Not(ts.And(ts.Eq(b[0], c(0xF4)), ts.Cmp(BUlt, c(0x8F), b[1]))))
		if m.path.Branch(ok) {
			return or(or(low(b[0], 3, 18), low(b[1], 6, 12)), or(low(b[2], 6, 6), low(b[3], 6, 0))), 4
		}
	}
	return ts.Const(utf8.RuneError, 32), 1
}

// runes decodes all of b.
func (m *Machine) runes(b []*Term) []*Term {
	var out []*Term
	for len(b) > 0 {
		r, sz := m.decodeRune(b)
		out = append(out, r)
		b = b[sz:]
	}
	return out
}

// validUTF8 reports (by forking) if b is valid UTF-8.
func (m *Machine) validUTF8(b []*Term) bool {
	for len(b) > 0 {
		r, sz := m.decodeRune(b)
		if sz == 1 && r.isConst() && r.k == utf8.RuneError {
			return false
		}
		b = b[sz:]
	}
	return true
}

func utf8Intrinsics(r map[string]intrinsicFn) {
	text := func(m *Machine, v Value) []*Term {
		if v.K == KString {
			return m.strTerms(m.forceStr(v))
		}
		return m.cellTerms(v)
	}
	for _, s := range []string{"", "InString"} {
		r["unicode/utf8.DecodeRune"+s] = func(m *Machine, fi *fnInfo, a []Value) Value {
			b := text(m, a[0])
			if len(b) == 0 {
				return mkTuple(mkInt(utf8.RuneError, 32), mkInt(0, 64))
			}
			t, sz := m.decodeRune(b)
			return mkTuple(mkTerm(t), mkInt(uint64(sz), 64))
		}
		r["unicode/utf8.RuneCount"+s] = func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkInt(uint64(len(m.runes(text(m, a[0])))), 64)
		}
	}
	for _, s := range []string{"", "String"} {
		r["unicode/utf8.Valid"+s] = func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkBool(m.validUTF8(text(m, a[0])))
		}
	}
}
