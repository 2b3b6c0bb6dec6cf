package main

// bytes.Buffer holding lazily formatted text, and other text utilities on it.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isLazy(v Value) (Value, bool) {
	switch l := v.P.(type) {
	case *LazyStr:
		if l.forced == nil {
			return v, true
		}
	case *LazyBytes:
		if l.s.bytes == nil && l.s.forced == nil {
			return Value{K: KString, P: &LazyStr{parts: l.s.parts}}, true
		}
	}
	return Value{}, false
}

func (m *Machine) bufferMethod(name string) *ssa.Function { return m.method("bytes", "Buffer", name) }

func (m *Machine) method(pkg, typ, name string) *ssa.Function {
	p := m.L.pkgs[pkg]
	return m.L.prog.LookupMethod(types.NewPointer(p.Type(typ).Type()), p.Pkg, name)
}

func (m *Machine) textLen(v Value) Value {
	if l, ok := v.P.(*LazyStr); ok {
		return m.lazyLen(l)
	}
	return mkInt(uint64(m.strLen(v)), 64)
}

// lazyBuf starts the lazy mode of a buffer, keeping what it holds.
func (m *Machine) lazyBuf(recv Value) *Value {
	a := m.addrOf(recv)
	if s := m.bufs[a]; s != nil {
		return s
	}
	s := m.call(m.bufferMethod("String"), []Value{recv}, nil)
	m.bufs[a] = &s
	return &s
}

// unlazyBuf moves the text back into the buffer proper.
func (m *Machine) unlazyBuf(recv Value) {
	a := m.addrOf(recv)
	s := m.bufs[a]
	if s == nil {
		return
	}
	delete(m.bufs, a)
	m.call(m.bufferMethod("Reset"), []Value{recv}, nil)
	m.call(m.bufferMethod("WriteString"), []Value{recv, m.forceStr(*s)}, nil)
}

func lazyBufIntrinsics() map[string]intrinsicFn {
	state := func(m *Machine, recv Value) *Value {
		if len(m.bufs) == 0 || recv.P == nil {
			return nil
		}
		a, ok := recv.P.(*Value)
		if !ok {
			return nil
		}
		return m.bufs[a]
	}
	write := func(m *Machine, fi *fnInfo, a []Value) Value {
		_, lazy := isLazy(a[1])
		s := state(m, a[0])
		if s == nil && (!lazy || a[0].P == nil) {
			return m.interp(fi, a)
		}
		s = m.lazyBuf(a[0])
		t, lz := isLazy(a[1])
		if !lz {
			t = a[1]
			if t.K == KSlice {
				t = m.bytesToStr(t)
			}
		}
		n := m.textLen(t)
		*s = m.concat(*s, t)
		return mkTuple(n, nilIface)
	}
	r := map[string]intrinsicFn{
		"(*bytes.Buffer).Write":       write,
		"(*bytes.Buffer).WriteString": write,
		"(*bytes.Buffer).WriteByte": func(m *Machine, fi *fnInfo, a []Value) Value {
			s := state(m, a[0])
			if s == nil {
				return m.interp(fi, a)
			}
			*s = m.concat(*s, m.termsToStr([]*Term{m.intTerm(a[1])}))
			return nilIface
		},
		"(*bytes.Buffer).String": func(m *Machine, fi *fnInfo, a []Value) Value {
			if s := state(m, a[0]); s != nil {
				return *s
			}
			return m.interp(fi, a)
		},
		"(*bytes.Buffer).Bytes": func(m *Machine, fi *fnInfo, a []Value) Value {
			if s := state(m, a[0]); s != nil {
				return m.strToBytes(*s)
			}
			return m.interp(fi, a)
		},
		"(*bytes.Buffer).Len": func(m *Machine, fi *fnInfo, a []Value) Value {
			if s := state(m, a[0]); s != nil {
				return m.textLen(*s)
			}
			return m.interp(fi, a)
		},
		"(*bytes.Buffer).Reset": func(m *Machine, fi *fnInfo, a []Value) Value {
			if s := state(m, a[0]); s != nil {
				delete(m.bufs, m.addrOf(a[0]))
			}
			return m.interp(fi, a)
		},
		"(*strings.byteReplacer).Replace": func(m *Machine, fi *fnInfo, a []Value) Value {
			tab := m.cells(Value{K: KSlice, P: &SliceV{f: addr(a[0]).P.(*Agg).f}})
			var to [256]byte
			plain := true // digits, signs and printable characters stay what they are
			for i := range to {
				c := m.load(&tab[i], types.Typ[types.Uint8])
				if c.P != nil {
					return m.interp(fi, a)
				}
				to[i] = byte(c.N)
				if to[i] != byte(i) && i >= 32 && i != 127 {
					plain = false
				}
			}
			one := func(s Value) Value {
				if k, ok := s.P.(string); ok {
					b := []byte(k)
					for i := range b {
						b[i] = to[b[i]]
					}
					return mkStr(string(b))
				}
				ts := append([]*Term(nil), m.strTerms(s)...)
				for i, t := range ts {
					if t.isConst() {
						ts[i] = m.ts.small[to[t.k&255]]
						continue
					}
					r := t
					for c := 255; c >= 0; c-- {
						if to[c] != byte(c) {
							r = m.ts.Ite(m.ts.Eq(t, m.ts.small[byte(c)]), m.ts.small[to[c]], r)
						}
					}
					ts[i] = r
				}
				return m.termsToStr(ts)
			}
			if l, ok := a[1].P.(*LazyStr); ok && l.forced == nil && plain {
				parts := make([]Value, len(l.parts))
				for i, p := range l.parts {
					if p.K == KString {
						p = one(p)
					}
					parts[i] = p
				}
				return m.lazyConcat(parts...)
			}
			return one(m.forceStr(a[1]))
		},
		zzPkg + "/sym.HasByte": func(m *Machine, fi *fnInfo, a []Value) Value {
			c := byte(m.concInt(a[1]))
			v := a[0]
			if l, ok := v.P.(*LazyStr); ok && l.forced == nil && (c < 32 || c == 127) {
				r := m.ts.ff
				for _, p := range l.parts {
					if p.K == KString {
						r = m.ts.Or(r, m.hasByte(p, c))
					}
				}
				return mkTerm(r)
			}
			return mkTerm(m.hasByte(m.forceStr(v), c))
		},
	}
	// strings.Builder keeps lazy text the same way
	bwrite := func(m *Machine, fi *fnInfo, a []Value) Value {
		t, lazy := isLazy(a[1])
		s := state(m, a[0])
		if s == nil && (!lazy || a[0].P == nil) {
			return m.interp(fi, a)
		}
		if s == nil {
			v := m.call(m.method("strings", "Builder", "String"), []Value{a[0]}, nil)
			s = &v
			m.bufs[m.addrOf(a[0])] = s
		}
		if !lazy {
			t = a[1]
			if t.K == KSlice {
				t = m.bytesToStr(t)
			}
		}
		n := m.textLen(t)
		*s = m.concat(*s, t)
		return mkTuple(n, nilIface)
	}
	r["(*strings.Builder).Write"] = bwrite
	r["(*strings.Builder).WriteString"] = bwrite
	r["(*strings.Builder).WriteByte"] = func(m *Machine, fi *fnInfo, a []Value) Value {
		s := state(m, a[0])
		if s == nil {
			return m.interp(fi, a)
		}
		*s = m.concat(*s, m.termsToStr([]*Term{m.intTerm(a[1])}))
		return nilIface
	}
	r["(*strings.Builder).WriteRune"] = func(m *Machine, fi *fnInfo, a []Value) Value {
		s := state(m, a[0])
		if s == nil {
			return m.interp(fi, a)
		}
		if a[1].P != nil {
			panic(unsupported{"WriteRune of a symbolic rune after lazy text"})
		}
		t := string(rune(int32(a[1].N)))
		*s = m.concat(*s, mkStr(t))
		return mkTuple(mkInt(uint64(len(t)), 64), nilIface)
	}
	r["(*strings.Builder).String"] = r["(*bytes.Buffer).String"]
	r["(*strings.Builder).Len"] = r["(*bytes.Buffer).Len"]
	r["(*strings.Builder).Reset"] = r["(*bytes.Buffer).Reset"]
	r["strings.Join"] = func(m *Machine, fi *fnInfo, a []Value) Value {
		f := m.cells(a[0])
		lazy := false
		for i := range f {
			if _, ok := isLazy(f[i]); ok {
				lazy = true
			}
		}
		if !lazy {
			return m.interp(fi, a)
		}
		v := f[0]
		for i := 1; i < len(f); i++ {
			v = m.concat(m.concat(v, a[1]), f[i])
		}
		return v
	}
	for _, n := range strings.Fields("AvailableBuffer Available Cap Grow Next Peek Read ReadByte ReadBytes ReadFrom ReadRune ReadString Truncate UnreadByte UnreadRune WriteRune WriteTo") {
		r["(*bytes.Buffer)."+n] = func(m *Machine, fi *fnInfo, a []Value) Value {
			if s := state(m, a[0]); s != nil {
				m.unlazyBuf(a[0])
			}
			return m.interp(fi, a)
		}
	}
	utf8Intrinsics(r)
	return r
}

func (m *Machine) hasByte(v Value, c byte) *Term {
	if s, ok := v.P.(string); ok {
		return m.ts.Bool(strings.IndexByte(s, c) >= 0)
	}
	r := m.ts.ff
	for _, t := range m.strTerms(v) {
		r = m.ts.Or(r, m.ts.Eq(t, m.ts.small[c]))
	}
	return r
}
