package main

// A model of package fmt over machine values, and of the os file calls the repository uses.

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type fmtBuf struct {
	m     *Machine
	parts []Value
	sb    strings.Builder
}

func (b *fmtBuf) str(s string) { b.sb.WriteString(s) }
func (b *fmtBuf) flush() {
	if b.sb.Len() > 0 {
		b.parts = append(b.parts, mkStr(b.sb.String()))
		b.sb.Reset()
	}
}
func (b *fmtBuf) val(v Value) {
	if s, ok := v.P.(string); ok && v.K == KString {
		b.sb.WriteString(s)
		return
	}
	b.flush()
	b.parts = append(b.parts, v)
}
func (b *fmtBuf) result() Value {
	b.flush()
	return b.m.joinParts(b.parts)
}

func (m *Machine) joinParts(parts []Value) Value {
	return m.lazyConcat(parts...)
}

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

// sprintfV also takes a format that is not constant, when it has no verbs and there are no arguments.
func (m *Machine) sprintfV(format Value, args []Value) (Value, []Value) {
	format = m.forceStr(format)
	if _, ok := format.P.(*SymStr); ok && len(args) == 0 {
		for _, t := range m.strTerms(format) {
			if m.path.Branch(m.ts.Eq(t, m.ts.Const('%', 8))) {
				panic(unsupported{"a verb in a symbolic format"})
			}
		}
		return format, nil
	}
	return m.sprintf(m.constString(format), args)
}

func (m *Machine) sprintf(format string, args []Value) (Value, []Value) {
	b := &fmtBuf{m: m}
	var wrapped []Value
	argi := 0
	end := len(format)
	for i := 0; i < end; {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			b.str(format[i:])
			break
		}
		b.str(format[i : i+j])
		i += j + 1
		var fl fmtFlags
	flags:
		for ; i < end; i++ {
			switch format[i] {
			case '+':
				fl.plus = true
			case '-':
				fl.minus = true
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			case '0':
				fl.zero = true
			default:
				break flags
			}
		}
		for i < end && format[i] >= '0' && format[i] <= '9' {
			fl.wid = fl.wid*10 + int(format[i]-'0')
			fl.hasWid = true
			i++
		}
		if i < end && format[i] == '*' {
			panic(unsupported{"fmt: * width"})
		}
		if i < end && format[i] == '.' {
			i++
			fl.hasPrec = true
			for i < end && format[i] >= '0' && format[i] <= '9' {
				fl.prec = fl.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= end {
			b.str("%!(NOVERB)")
			break
		}
		verb, sz := utf8.DecodeRuneInString(format[i:])
		i += sz
		if verb == '%' {
			b.str("%")
			continue
		}
		if argi >= len(args) {
			b.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[argi]
		argi++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		if fl.hasWid {
			sub := &fmtBuf{m: m}
			m.fmtArg(sub, a, verb, fl)
			v := m.forceStr(sub.result())
			pad := fl.wid - m.strLen(v)
			if pad > 0 {
				p := strings.Repeat(" ", pad)
				if fl.zero && !fl.minus {
					s, ok := v.P.(string)
					if !ok {
						panic(unsupported{"fmt: zero padding of symbolic text"})
					}
					neg := strings.HasPrefix(s, "-")
					s = strings.TrimPrefix(s, "-")
					s = strings.Repeat("0", pad) + s
					if neg {
						s = "-" + s
					}
					v, p = mkStr(s), ""
				}
				if fl.minus {
					b.val(v)
					b.str(p)
				} else {
					b.str(p)
					b.val(v)
				}
				continue
			}
			b.val(v)
			continue
		}
		m.fmtArg(b, a, verb, fl)
	}
	if argi < len(args) {
		b.str("%!(EXTRA ")
		for k := argi; k < len(args); k++ {
			if k > argi {
				b.str(", ")
			}
			args[k] = m.iface(args[k])
			if args[k].P == nil {
				b.str("<nil>")
			} else {
				b.str(typeString(args[k].P.(*Iface).t))
				b.str("=")
				m.fmtArg(b, args[k], 'v', fmtFlags{})
			}
		}
		b.str(")")
	}
	return b.result(), wrapped
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *Machine) fmtArg(b *fmtBuf, a Value, verb rune, fl fmtFlags) {
	a = m.iface(a)
	if a.P == nil {
		switch verb {
		case 'T', 'v':
			b.str("<nil>")
		default:
			b.str("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	i := a.P.(*Iface)
	switch verb {
	case 'T':
		b.str(typeString(i.t))
		return
	case 'p':
		b.str("0xc000010000")
		return
	}
	m.fmtValue(b, i.v, i.t, verb, fl, 0, true)
}

func (m *Machine) badVerb(b *fmtBuf, v Value, t types.Type, verb rune) {
	b.str("%!" + string(verb) + "(" + typeString(t) + "=")
	m.fmtValue(b, v, t, 'v', fmtFlags{}, 0, false)
	b.str(")")
}

func (m *Machine) fmtValue(b *fmtBuf, v Value, t types.Type, verb rune, fl fmtFlags, depth int, methods bool) {
	if v.K == KNone {
		v = zeroOf(t)
	}
	if methods && !(fl.sharp && verb == 'v') {
		switch verb {
		case 'v', 's', 'x', 'X', 'q':
			for _, name := range []string{"Error", "String"} {
				f := m.L.methodByName(m.canonT(t), name)
				if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
					continue
				}
				if bt, ok := f.Signature.Results().At(0).Type().(*types.Basic); !ok || bt.Kind() != types.String {
					continue
				}
				if v.K == KPtr && v.P == nil {
					if _, ok := f.Signature.Recv().Type().(*types.Pointer); !ok {
						b.str("<nil>")
						return
					}
				}
				s, pan := m.callCatch(func() Value { return m.call(f, []Value{v}, nil) })
				if pan != nil {
					if v.K == KPtr && v.P == nil {
						b.str("<nil>")
					} else {
						b.str("%!" + string(verb) + "(PANIC=" + name + " method: " + pan.msg + ")")
					}
					return
				}
				m.fmtString(b, s, verb, fl)
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if verb != 'v' && verb != 't' {
				m.badVerb(b, v, t, verb)
				return
			}
			if m.cond(v) {
				b.str("true")
			} else {
				b.str("false")
			}
		case u.Info()&types.IsInteger != 0:
			m.fmtInt(b, v, t, u, verb, fl)
		case u.Info()&types.IsFloat != 0:
			m.needConc(v, "fmt of a float")
			f := math.Float64frombits(v.N)
			if v.W == 32 {
				f = float64(math.Float32frombits(uint32(v.N)))
			}
			spec := "%"
			if fl.plus {
				spec += "+"
			}
			if fl.hasPrec {
				spec += "." + strconv.Itoa(fl.prec)
			}
			b.str(fmt.Sprintf(spec+string(verb), f))
		case u.Info()&types.IsString != 0:
			m.fmtString(b, v, verb, fl)
		default:
			panic(unsupported{"fmt of " + t.String()})
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			switch verb {
			case 's', 'q', 'x', 'X':
				m.fmtString(b, m.bytesToStr(v), verb, fl)
				return
			}
		}
		if fl.sharp {
			panic(unsupported{"fmt %#v of a slice"})
		}
		b.str("[")
		for i, c := range m.cells(v) {
			if i > 0 {
				b.str(" ")
			}
			m.fmtValue(b, c, u.Elem(), verb, fl, depth+1, methods)
		}
		b.str("]")
	case *types.Array:
		b.str("[")
		for i, c := range v.P.(*Agg).f {
			if i > 0 {
				b.str(" ")
			}
			m.fmtValue(b, c, u.Elem(), verb, fl, depth+1, methods)
		}
		b.str("]")
	case *types.Struct:
		b.str("{")
		for i, c := range v.P.(*Agg).f {
			if i > 0 {
				b.str(" ")
			}
			f := u.Field(i)
			if fl.plus {
				b.str(f.Name() + ":")
			}
			m.fmtValue(b, c, f.Type(), verb, fl, depth+1, methods && f.Exported())
		}
		b.str("}")
	case *types.Map:
		b.str("map[")
		if v.P != nil {
			mp := v.P.(*Map)
			var es []mapEntry
			for _, e := range mp.ents {
				if e.live {
					es = append(es, e)
				}
			}
			conc := true
			for _, e := range es {
				if _, ok := e.k.P.(string); !ok && !(e.k.K == KInt && e.k.P == nil) {
					conc = false
				}
			}
			if conc {
				sort.SliceStable(es, func(i, j int) bool {
					if s, ok := es[i].k.P.(string); ok {
						if s2, ok := es[j].k.P.(string); ok {
							return s < s2
						}
					}
					return sx(es[i].k.N, es[i].k.W) < sx(es[j].k.N, es[j].k.W)
				})
			} else if len(es) > 1 {
				panic(unsupported{"fmt of a map with symbolic keys"})
			}
			for i, e := range es {
				if i > 0 {
					b.str(" ")
				}
				m.fmtValue(b, e.k, u.Key(), verb, fl, depth+1, methods)
				b.str(":")
				m.fmtValue(b, e.v, u.Elem(), verb, fl, depth+1, methods)
			}
		}
		b.str("]")
	case *types.Interface:
		v = m.iface(v)
		if v.P == nil {
			b.str("<nil>")
			return
		}
		i := v.P.(*Iface)
		m.fmtValue(b, i.v, i.t, verb, fl, depth+1, methods)
	case *types.Pointer:
		if v.P == nil {
			b.str("<nil>")
			return
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				b.str("&")
				m.fmtValue(b, m.loadPtr(v, u.Elem()), u.Elem(), verb, fl, depth+1, methods)
				return
			}
		}
		b.str("0xc000010000")
	case *types.Chan, *types.Signature:
		if v.P == nil {
			b.str("<nil>")
			return
		}
		b.str("0xc000010000")
	default:
		panic(unsupported{"fmt of " + t.String()})
	}
}

// callCatch runs f and intercepts a target panic.
func (m *Machine) callCatch(f func() Value) (v Value, tp *targetPanic) {
	g := m.cur
	top := g.top
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*targetPanic); ok && !p.exit {
				g.top = top
				tp = p
				return
			}
			panic(r)
		}
	}()
	return f(), nil
}

func (m *Machine) fmtInt(b *fmtBuf, v Value, t types.Type, u *types.Basic, verb rune, fl fmtFlags) {
	_, signed := intWidth(u)
	if v.P == nil {
		spec := "%"
		if fl.plus {
			spec += "+"
		}
		if fl.sharp {
			spec += "#"
		}
		if fl.space {
			spec += " "
		}
		spec += string(verb)
		if signed {
			b.str(fmt.Sprintf(spec, sx(v.N, v.W)))
		} else {
			b.str(fmt.Sprintf(spec, v.N))
		}
		return
	}
	if verb == 'v' || verb == 'd' {
		tm := v.P.(*Term)
		if signed {
			b.val(m.formatInt(v))
			return
		}
		if tm.w < 64 {
			b.val(m.formatInt(mkTerm(m.ts.Zext(tm, 64))))
			return
		}
		if m.path.Branch(m.ts.Cmp(BSle, m.ts.Const(0, 64), tm)) {
			b.val(m.formatInt(v))
			return
		}
	}
	n := m.concInt(v)
	m.fmtInt(b, mkInt(n, v.W), t, u, verb, fl)
}

func (m *Machine) fmtString(b *fmtBuf, v Value, verb rune, fl fmtFlags) {
	switch verb {
	case 's', 'v':
		if fl.sharp && verb == 'v' {
			b.val(m.quote(v))
			return
		}
		if fl.hasPrec {
			s := m.forceStr(v)
			if m.strLen(s) > fl.prec {
				v = m.substr(s, 0, fl.prec)
			}
		}
		b.val(v)
	case 'q':
		b.val(m.quote(v))
	case 'x', 'X':
		b.str(fmt.Sprintf("%"+string(verb), m.concStr(v)))
	default:
		m.badVerb(b, v, types.Typ[types.String], verb)
	}
}

func (m *Machine) quote(v Value) Value {
	v = m.forceStr(v)
	if s, ok := v.P.(string); ok {
		return mkStr(strconv.Quote(s))
	}
	return Value{K: KString, P: &LazyStr{parts: []Value{{K: KNone, P: &quoted{v}}}}}
}

func (m *Machine) sprint(args []Value, ln bool) Value {
	b := &fmtBuf{m: m}
	prevStr := false
	for i, a := range args {
		isStr := false
		a = m.iface(a)
		if a.P != nil {
			if bt, ok := a.P.(*Iface).t.Underlying().(*types.Basic); ok && bt.Kind() == types.String {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			b.str(" ")
		}
		m.fmtArg(b, a, 'v', fmtFlags{})
		prevStr = isStr
	}
	if ln {
		b.str("\n")
	}
	return b.result()
}

func (m *Machine) ifaces(v Value) []Value {
	cs := m.cells(v)
	out := make([]Value, len(cs))
	for i := range cs {
		out[i] = cs[i]
		if out[i].K == KNone {
			out[i] = nilIface
		}
	}
	return out
}

func (m *Machine) writeTo(w Value, s Value) Value {
	w = m.iface(w)
	if w.P == nil {
		m.throw("invalid memory address or nil pointer dereference")
	}
	i := w.P.(*Iface)
	if p, ok := i.v.P.(*Poison); ok && strings.HasPrefix(p.name, "os.") {
		return mkTuple(mkInt(uint64(m.strLen(s)), 64), nilIface)
	}
	f := m.L.methodByName(i.t, "Write")
	return m.call(f, []Value{i.v, {K: KSlice, P: &SliceV{f: m.strCells(s)}}}, nil)
}

func fmtIntrinsics() map[string]intrinsicFn {
	return map[string]intrinsicFn{
		"fmt.Sprintf": func(m *Machine, fi *fnInfo, a []Value) Value {
			s, _ := m.sprintfV(a[0], m.ifaces(a[1]))
			return s
		},
		"fmt.Errorf": func(m *Machine, fi *fnInfo, a []Value) Value {
			s, w := m.sprintfV(a[0], m.ifaces(a[1]))
			// keep only operands that are errors
			var ws []Value
			for _, x := range w {
				x = m.iface(x)
				if x.P != nil && m.L.methodByName(x.P.(*Iface).t, "Error") != nil {
					ws = append(ws, x)
				}
			}
			switch len(ws) {
			case 0:
				t := m.L.errorStringT
				if m.L.fmtErrT != nil {
					t = m.L.fmtErrT
				}
				return Value{K: KIface, P: &Iface{t, Value{K: KPtr, P: &Value{K: KAgg, P: &Agg{f: []Value{s}}}}}}
			case 1:
				return Value{K: KIface, P: &Iface{m.L.wrapErrorT, Value{K: KPtr, P: &Value{K: KAgg, P: &Agg{f: []Value{s, ws[0]}}}}}}
			}
			return Value{K: KIface, P: &Iface{m.L.wrapErrorsT, Value{K: KPtr, P: &Value{K: KAgg, P: &Agg{f: []Value{s, {K: KSlice, P: &SliceV{f: ws}}}}}}}}
		},
		"(*fmt.wrapError).Error":  errField0,
		"(*fmt.wrapErrors).Error": errField0,
		"(*fmt.fmtError).Error":   errField0,
		"(*fmt.wrapError).Unwrap": func(m *Machine, fi *fnInfo, a []Value) Value { return addr(a[0]).P.(*Agg).f[1] },
		"(*fmt.wrapErrors).Unwrap": func(m *Machine, fi *fnInfo, a []Value) Value {
			return addr(a[0]).P.(*Agg).f[1]
		},
		"fmt.Sprint":   func(m *Machine, fi *fnInfo, a []Value) Value { return m.sprint(m.ifaces(a[0]), false) },
		"fmt.Sprintln": func(m *Machine, fi *fnInfo, a []Value) Value { return m.sprint(m.ifaces(a[0]), true) },
		"fmt.Fprintf": func(m *Machine, fi *fnInfo, a []Value) Value {
			s, _ := m.sprintfV(a[1], m.ifaces(a[2]))
			return m.writeTo(a[0], s)
		},
		"fmt.Fprint":   func(m *Machine, fi *fnInfo, a []Value) Value { return m.writeTo(a[0], m.sprint(m.ifaces(a[1]), false)) },
		"fmt.Fprintln": func(m *Machine, fi *fnInfo, a []Value) Value { return m.writeTo(a[0], m.sprint(m.ifaces(a[1]), true)) },
		"fmt.Printf":   func(m *Machine, fi *fnInfo, a []Value) Value { return mkTuple(mkInt(0, 64), nilIface) },
		"fmt.Println":  func(m *Machine, fi *fnInfo, a []Value) Value { return mkTuple(mkInt(0, 64), nilIface) },
		"fmt.Print":    func(m *Machine, fi *fnInfo, a []Value) Value { return mkTuple(mkInt(0, 64), nilIface) },
	}
}

func errField0(m *Machine, fi *fnInfo, a []Value) Value { return m.addrOf(a[0]).P.(*Agg).f[0] }

// ---------- files ----------

type fileData struct {
	bytes []Value
}

type openFile struct {
	name   string
	data   *fileData
	pos    int
	app    bool
	rd, wr bool
	closed bool
}

func (m *Machine) file(v Value) *openFile {
	f := m.files[m.addrOf(v)]
	if n := m.std[addr(v)]; f == nil && n != "" { // what is printed is not kept
		return &openFile{name: n, data: &fileData{}, rd: true, wr: true}
	}
	if f == nil {
		panic(unsupported{"operation on an unmodelled file"})
	}
	return f
}

func (m *Machine) mkFile(fi *fnInfo, name string, flag int, res types.Type) Value {
	d := m.fs[name]
	if d == nil {
		if flag&0x40 == 0 { // O_CREATE
			return mkTuple(Value{K: KPtr}, m.noEnt("open", name))
		}
		if !m.dirExists(filepath.Dir(name)) {
			return mkTuple(Value{K: KPtr}, m.noEnt("open", name))
		}
		d = &fileData{}
		m.fs[name] = d
	}
	if flag&0x200 != 0 { // O_TRUNC
		d.bytes = nil
	}
	st := res.Underlying().(*types.Pointer).Elem()
	s := &Value{}
	*s = zeroOf(st)
	acc := flag & 3
	m.files[s] = &openFile{name: name, data: d, app: flag&0x400 != 0, rd: acc != 1, wr: acc != 0}
	return mkTuple(Value{K: KPtr, P: s}, nilIface)
}

// dirExists: the current directory, the root, /tmp, the harness's directory, and what was made.
func (m *Machine) dirExists(d string) bool {
	switch d {
	case ".", "/", "/tmp", "/dev", "/zz-tmp":
		return true
	}
	return m.initDirs[d] || m.dirs[d]
}

func (m *Machine) mkdir(d string) {
	if m.initing {
		if m.initDirs == nil {
			m.initDirs = map[string]bool{}
		}
		m.initDirs[d] = true
		return
	}
	m.dirs[d] = true
}

// noEnt is the error for a file that is not there.
func (m *Machine) noEnt(op, name string) Value {
	f := m.L.pkgs[zzPkg+"/models"].Func("NoEnt")
	return m.call(f, []Value{mkStr(op), mkStr(name)}, nil)
}

func (m *Machine) eof() Value {
	g := m.L.pkgs["io"].Var("EOF")
	return *m.global(g)
}

func (m *Machine) fileRead(f *openFile, dst []Value, pos int) int {
	n := 0
	for n < len(dst) && pos+n < len(f.data.bytes) {
		m.store(&dst[n], f.data.bytes[pos+n])
		n++
	}
	return n
}

func (m *Machine) fileWrite(f *openFile, src []Value) {
	pos := f.pos
	if f.app {
		pos = len(f.data.bytes)
	}
	nb := append([]Value(nil), f.data.bytes...)
	for len(nb) < pos {
		nb = append(nb, Value{K: KInt, W: 8})
	}
	for i := range src {
		c := src[i]
		if c.K == KNone {
			c = Value{K: KInt, W: 8}
		}
		c.E = 0
		if pos+i < len(nb) {
			nb[pos+i] = c
		} else {
			nb = append(nb, c)
		}
	}
	f.data.bytes = nb
	f.pos = pos + len(src)
}

func fsIntrinsics() map[string]intrinsicFn {
	res := func(fi *fnInfo) types.Type { return fi.fn.Signature.Results().At(0).Type() }
	write := func(m *Machine, v Value, src []Value) Value {
		if v.P == nil {
			return mkTuple(mkInt(0, 64), m.errValue("invalid argument"))
		}
		f := m.file(v)
		m.point(f.data, true)
		m.acqrel(f.data)
		if f.closed || !f.wr {
			return mkTuple(mkInt(0, 64), m.errValue("write "+f.name+": file already closed"))
		}
		m.fileWrite(f, src)
		return mkTuple(mkInt(uint64(len(src)), 64), nilIface)
	}
	t := map[string]intrinsicFn{
		"os.OpenFile": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.mkFile(fi, m.constString(a[0]), int(m.concSigned(a[1])), res(fi))
		},
		"os.Create": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.mkFile(fi, m.constString(a[0]), 2|0x40|0x200, res(fi))
		},
		"os.Open": func(m *Machine, fi *fnInfo, a []Value) Value { return m.mkFile(fi, m.constString(a[0]), 0, res(fi)) },
		"os.Remove": func(m *Machine, fi *fnInfo, a []Value) Value {
			name := m.constString(a[0])
			if m.fs[name] == nil {
				return m.noEnt("remove", name)
			}
			delete(m.fs, name)
			return nilIface
		},
		"os.ReadFile": func(m *Machine, fi *fnInfo, a []Value) Value {
			d := m.fs[m.constString(a[0])]
			if d == nil {
				return mkTuple(Value{K: KSlice}, m.noEnt("open", m.constString(a[0])))
			}
			return mkTuple(Value{K: KSlice, P: &SliceV{f: append([]Value{}, d.bytes...)}}, nilIface)
		},
		"os.WriteFile": func(m *Machine, fi *fnInfo, a []Value) Value {
			name := m.constString(a[0])
			d := m.fs[name]
			if d == nil {
				if !m.dirExists(filepath.Dir(name)) {
					return m.noEnt("open", name)
				}
				d = &fileData{}
				m.fs[name] = d
			}
			d.bytes = nil
			m.fileWrite(&openFile{data: d, wr: true}, m.cells(a[1]))
			return nilIface
		},
		"os.Truncate": func(m *Machine, fi *fnInfo, a []Value) Value {
			d := m.fs[m.constString(a[0])]
			if d == nil {
				return m.noEnt("truncate", m.constString(a[0]))
			}
			n := int(m.concSigned(a[1]))
			if n <= len(d.bytes) {
				d.bytes = d.bytes[:n:n]
			}
			return nilIface
		},
		"(*os.File).Write":       func(m *Machine, fi *fnInfo, a []Value) Value { return write(m, a[0], m.cells(a[1])) },
		"(*os.File).WriteString": func(m *Machine, fi *fnInfo, a []Value) Value { return write(m, a[0], m.strCells(a[1])) },
		"(*os.File).Read": func(m *Machine, fi *fnInfo, a []Value) Value {
			if a[0].P == nil {
				return mkTuple(mkInt(0, 64), m.errValue("invalid argument"))
			}
			f := m.file(a[0])
			m.point(f.data, false)
			m.acqrel(f.data)
			if f.closed || !f.rd {
				return mkTuple(mkInt(0, 64), m.errValue("read "+f.name+": file already closed"))
			}
			dst := m.cells(a[1])
			n := m.fileRead(f, dst, f.pos)
			f.pos += n
			if n == 0 && len(dst) > 0 {
				return mkTuple(mkInt(0, 64), m.eof())
			}
			return mkTuple(mkInt(uint64(n), 64), nilIface)
		},
		"(*os.File).ReadAt": func(m *Machine, fi *fnInfo, a []Value) Value {
			f := m.file(a[0])
			dst := m.cells(a[1])
			n := m.fileRead(f, dst, int(m.concSigned(a[2])))
			if n < len(dst) {
				return mkTuple(mkInt(uint64(n), 64), m.eof())
			}
			return mkTuple(mkInt(uint64(n), 64), nilIface)
		},
		"(*os.File).Close": func(m *Machine, fi *fnInfo, a []Value) Value {
			if a[0].P == nil {
				return m.errValue("invalid argument")
			}
			f := m.file(a[0])
			if f.closed {
				return m.errValue("close " + f.name + ": file already closed")
			}
			f.closed = true
			return nilIface
		},
		"(*os.File).Sync": func(m *Machine, fi *fnInfo, a []Value) Value { return nilIface },
		"(*os.File).Name": func(m *Machine, fi *fnInfo, a []Value) Value { return mkStr(m.file(a[0]).name) },
		"(*os.File).Seek": func(m *Machine, fi *fnInfo, a []Value) Value {
			f := m.file(a[0])
			off := int(m.concSigned(a[1]))
			switch m.concInt(a[2]) {
			case 1:
				off += f.pos
			case 2:
				off += len(f.data.bytes)
			}
			if off < 0 {
				return mkTuple(mkInt(0, 64), m.errValue("seek: invalid argument"))
			}
			f.pos = off
			return mkTuple(mkInt(uint64(off), 64), nilIface)
		},
		"(*os.File).Truncate": func(m *Machine, fi *fnInfo, a []Value) Value {
			f := m.file(a[0])
			m.point(f.data, true)
			n := int(m.concSigned(a[1]))
			nb := append([]Value(nil), f.data.bytes...)
			for len(nb) < n {
				nb = append(nb, Value{K: KInt, W: 8})
			}
			f.data.bytes = nb[:n:n]
			return nilIface
		},
		"os.Stat": func(m *Machine, fi *fnInfo, a []Value) Value {
			name := m.constString(a[0])
			d := m.fs[name]
			if d == nil {
				if m.dirExists(filepath.Clean(name)) {
					panic(unsupported{"stat of a directory"})
				}
				return mkTuple(nilIface, m.noEnt("stat", name))
			}
			t := m.L.canonical(m.L.pkgs[zzPkg+"/models"].Type("FileInfo").Type())
			return mkTuple(Value{K: KIface, P: &Iface{t, Value{K: KAgg, P: &Agg{f: []Value{mkInt(uint64(len(d.bytes)), 64), mkStr(name)}}}}}, nilIface)
		},
		"os.Rename": func(m *Machine, fi *fnInfo, a []Value) Value {
			from, to := m.constString(a[0]), m.constString(a[1])
			d := m.fs[from]
			if d == nil || !m.dirExists(filepath.Dir(to)) {
				return m.noEnt("rename", from)
			}
			delete(m.fs, from)
			m.fs[to] = d
			return nilIface
		},
		"os.Mkdir": func(m *Machine, fi *fnInfo, a []Value) Value {
			name := filepath.Clean(m.constString(a[0]))
			if !m.dirExists(filepath.Dir(name)) {
				return m.noEnt("mkdir", name)
			}
			if m.dirExists(name) {
				return m.errValue("mkdir " + name + ": file exists")
			}
			m.mkdir(name)
			return nilIface
		},
		"os.MkdirAll": func(m *Machine, fi *fnInfo, a []Value) Value {
			for d := filepath.Clean(m.constString(a[0])); !m.dirExists(d); d = filepath.Dir(d) {
				m.mkdir(d)
			}
			return nilIface
		},
		"(*os.File).Stat": func(m *Machine, fi *fnInfo, a []Value) Value {
			f := m.file(a[0])
			m.point(f.data, false)
			p := m.L.pkgs[zzPkg+"/models"]
			t := m.L.canonical(p.Type("FileInfo").Type())
			v := Value{K: KAgg, P: &Agg{f: []Value{mkInt(uint64(len(f.data.bytes)), 64), mkStr(f.name)}}}
			return mkTuple(Value{K: KIface, P: &Iface{t, v}}, nilIface)
		},
		"(*os.File).ReadFrom": func(m *Machine, fi *fnInfo, a []Value) Value {
			fn := m.L.pkgs[zzPkg+"/models"].Func("CopyTo")
			return m.call(fn, []Value{a[0], a[1]}, nil)
		},
		"(*os.File).WriteTo": func(m *Machine, fi *fnInfo, a []Value) Value {
			fn := m.L.pkgs[zzPkg+"/models"].Func("CopyFrom")
			return m.call(fn, []Value{a[0], a[1]}, nil)
		},
	}
	t["io/ioutil.ReadFile"] = t["os.ReadFile"]
	t["io/ioutil.WriteFile"] = t["os.WriteFile"]
	return t
}
