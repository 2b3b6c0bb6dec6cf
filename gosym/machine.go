package main

// The interpreter core: functions compiled to operand-resolved instructions, memory with undo, calls and panics.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	r int
	v Value
}

type cins struct {
	ins  ssa.Instruction
	dst  int
	a, b opnd
	c, d opnd
	args []opnd
	t    types.Type // auxiliary type
	n    int        // auxiliary integer
	call *callInfo
}

type callInfo struct {
	static  *ssa.Function
	builtin string
	method  *types.Func
	sig     *types.Signature
	fnop    opnd
	recvT   types.Type
}

type cblock struct {
	phis []*cins
	code []*cins
	succ []int
	pred map[int]int // predecessor block index -> phi edge
}

type fnInfo struct {
	fn        *ssa.Function
	name      string
	nregs     int
	idx       map[ssa.Value]int
	blocks    []cblock
	recover   int
	hasDefer  bool
	intrinsic intrinsicFn
	subst     *ssa.Function
	compiled  bool
	inRepo    bool
	counted   bool
	lazyState int
}

type undoRec struct {
	slot *Value
	old  Value
	fn   func()
}

type deferRec struct {
	fn   func()
	what string
}

type frame struct {
	g         *G
	info      *fnInfo
	regs      []Value
	env       []Value
	caller    *frame
	cur       *cins
	defers    []deferRec
	panicking *targetPanic
	recovered bool
	owner     *frame // for deferred calls: the frame whose defers are running
	depth     int
}

type Machine struct {
	w        *Worker
	L        *Loaded
	prog     *ssa.Program
	path     *Path
	ts       *Terms
	globals  map[*ssa.Global]*Value
	fns      map[*ssa.Function]*fnInfo
	canon    map[types.Type]types.Type
	methods  map[methodKey]*ssa.Function
	implMemo map[implKey]bool
	epoch    uint32
	undo     []undoRec
	initing  bool
	poison   map[*ssa.Global]string
	steps    int64
	maxSteps int64

	// scheduler state (per path)
	Sched
	cur *G
	// side tables keyed by address, per path
	mutexes      map[*Value]*mutexState
	bufs         map[*Value]*Value // bytes.Buffers holding lazily formatted text
	wgs          map[*Value]*wgState
	syncMaps     map[*Value]*Map
	hashes       map[*Value]*hashState
	hashStr      map[*Term]Value
	hashConst    map[uint64]Value
	hashOpaque   bool
	gotimers     map[*Value]*Timer
	misc         map[string]any
	opts         harnessOpts
	atomicVals   map[*Value]Value
	files        map[*Value]*openFile
	net          *netState
	std          map[*Value]string // standard streams
	rtypes       map[types.Type]*Value
	fs           map[string]*fileData
	dirs         map[string]bool // directories made on this path
	initDirs     map[string]bool // directories made by package initialisers
	nuuid, nrand int
	prngOn       bool
	prng, prngK  uint64
	wantRace     bool
	inconclPos   string
	lastStack    string
}

type methodKey struct {
	t types.Type
	m string
}
type implKey struct{ t, i types.Type }

type harnessOpts struct {
	mapOrder  bool
	explore   bool
	race      bool
	preempt   int // <0: unbounded
	delay     int // <0: unbounded
	demote    int // <0: not used
	timerMax  int
	maxDraws  int // random draws on one path, 0 for no bound
	prng      int // >0: draws come from that many pseudo-random sequences instead of being arbitrary
	sockbuf   int // >0: bytes a network connection takes before its peer reads
	maxSteps  int64
	exactHash bool
}

func (m *Machine) canonT(t types.Type) types.Type {
	if c, ok := m.canon[t]; ok {
		return c
	}
	c := m.L.canonical(t)
	m.canon[t] = c
	return c
}

// ---------- compilation ----------

func (m *Machine) fnInfo(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, recover: -1}
	m.fns[fn] = fi
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi.name = name
	if fn.Pkg != nil {
		fi.inRepo = strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) && !strings.Contains(fn.Pkg.Pkg.Path(), "zzverif")
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.inRepo = strings.HasPrefix(o.Pkg.Pkg.Path(), repoModule) && !strings.Contains(o.Pkg.Pkg.Path(), "zzverif")
	}
	if f, ok := intrinsics[name]; ok {
		fi.intrinsic = f
		return fi
	}
	if s, ok := m.L.subst[name]; ok {
		fi.subst = s
		return fi
	}
	return fi
}

func (m *Machine) compile(fi *fnInfo) {
	fi.compiled = true
	fn := fi.fn
	fi.idx = map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		fi.idx[v] = fi.nregs
		fi.nregs++
		return fi.nregs - 1
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
		fi.hasDefer = true
	}
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{r: -1}
		case *ssa.Const:
			return opnd{-1, m.constVal(v)}
		case *ssa.Global:
			if n, ok := m.poison[v]; ok {
				return opnd{-1, Value{K: KPtr, P: &Poison{n}}}
			}
			return opnd{-1, Value{K: KPtr, P: m.global(v)}}
		case *ssa.Function:
			return opnd{-1, Value{K: KFunc, P: &Closure{fn: v}}}
		case *ssa.Builtin:
			return opnd{-1, Value{K: KFunc, P: v}}
		}
		i, ok := fi.idx[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %s", v, fn))
		}
		return opnd{r: i}
	}
	ops := func(vs []ssa.Value) []opnd {
		r := make([]opnd, len(vs))
		for i, v := range vs {
			r[i] = op(v)
		}
		return r
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, s := range b.Succs {
			cb.succ = append(cb.succ, s.Index)
		}
		cb.pred = map[int]int{}
		for i, p := range b.Preds {
			cb.pred[p.Index] = i
		}
		for _, in := range b.Instrs {
			c := &cins{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = fi.idx[v]
			}
			mkCall := func(cc *ssa.CallCommon) {
				ci := &callInfo{sig: cc.Signature()}
				c.call = ci
				c.args = ops(cc.Args)
				if cc.IsInvoke() {
					ci.method = cc.Method
					ci.fnop = op(cc.Value)
				} else {
					switch f := cc.Value.(type) {
					case *ssa.Builtin:
						ci.builtin = f.Name()
					case *ssa.Function:
						ci.static = f
					default:
						ci.fnop = op(cc.Value)
					}
					if ci.builtin != "" && len(cc.Args) > 0 {
						ci.recvT = cc.Args[0].Type()
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Phi:
				c.args = ops(x.Edges)
				cb.phis = append(cb.phis, c)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				c.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				c.a, c.b, c.t = op(x.X), op(x.Y), x.X.Type()
			case *ssa.UnOp:
				c.a, c.t = op(x.X), x.Type()
				if x.Op == token.MUL {
					c.t = x.X.Type().Underlying().(*types.Pointer).Elem()
				}
				if x.Op == token.ARROW {
					c.t = elemType(x.X.Type())
				}
			case *ssa.Call:
				mkCall(&x.Call)
			case *ssa.Go:
				mkCall(&x.Call)
			case *ssa.Defer:
				mkCall(&x.Call)
				if x.DeferStack != nil {
					c.a = op(x.DeferStack)
					c.n = 1
				}
			case *ssa.ChangeInterface:
				c.a = op(x.X)
			case *ssa.ChangeType:
				c.a = op(x.X)
			case *ssa.Convert:
				c.a, c.t = op(x.X), x.Type()
			case *ssa.MultiConvert:
				c.a, c.t = op(x.X), x.Type()
			case *ssa.Extract:
				c.a, c.n = op(x.Tuple), x.Index
			case *ssa.Field:
				c.a, c.n = op(x.X), x.Field
			case *ssa.FieldAddr:
				c.a, c.n = op(x.X), x.Field
				c.t = x.X.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.If:
				c.a = op(x.Cond)
			case *ssa.Index:
				c.a, c.b, c.t = op(x.X), op(x.Index), x.Type()
			case *ssa.IndexAddr:
				c.a, c.b = op(x.X), op(x.Index)
				c.t = elemType(x.Type())
			case *ssa.Jump:
			case *ssa.Lookup:
				c.a, c.b, c.t = op(x.X), op(x.Index), x.X.Type()
			case *ssa.MakeChan:
				c.a, c.t = op(x.Size), x.Type()
			case *ssa.MakeClosure:
				c.args = ops(x.Bindings)
			case *ssa.MakeInterface:
				c.a, c.t = op(x.X), m.canonT(x.X.Type())
			case *ssa.MakeMap:
			case *ssa.MakeSlice:
				c.a, c.b, c.t = op(x.Len), op(x.Cap), elemType(x.Type())
			case *ssa.MapUpdate:
				c.a, c.b, c.c, c.t = op(x.Map), op(x.Key), op(x.Value), x.Map.Type()
			case *ssa.Next:
				c.a = op(x.Iter)
			case *ssa.Panic:
				c.a = op(x.X)
			case *ssa.Range:
				c.a, c.t = op(x.X), x.X.Type()
			case *ssa.Return:
				c.args = ops(x.Results)
			case *ssa.RunDefers:
			case *ssa.Select:
				for _, s := range x.States {
					c.args = append(c.args, op(s.Chan), op(s.Send))
				}
			case *ssa.Send:
				c.a, c.b = op(x.Chan), op(x.X)
			case *ssa.Slice:
				c.a, c.b, c.c, c.d = op(x.X), op(x.Low), op(x.High), op(x.Max)
				c.t = x.X.Type()
			case *ssa.SliceToArrayPointer:
				c.a, c.t = op(x.X), x.Type()
			case *ssa.Store:
				c.a, c.b, c.t = op(x.Addr), op(x.Val), x.Val.Type()
			case *ssa.TypeAssert:
				c.a, c.t = op(x.X), m.canonT(x.AssertedType)
			default:
				c.n = -1
			}
			cb.code = append(cb.code, c)
		}
	}
}

func (m *Machine) global(g *ssa.Global) *Value {
	if v, ok := m.globals[g]; ok {
		return v
	}
	v := &Value{}
	m.globals[g] = v
	return v
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		if _, ok := c.Type().(*types.TypeParam); ok {
			panic(unsupported{"generic const"})
		}
		return zeroOf(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{fmt.Sprintf("constant of type %v", c.Type())})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case b.Info()&types.IsInteger != 0:
		w, signed := intWidth(b)
		if signed {
			return mkInt(uint64(c.Int64()), w)
		}
		return mkInt(c.Uint64(), w)
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			return Value{K: KFloat, W: 32, N: uint64(math.Float32bits(float32(f)))}
		}
		return Value{K: KFloat, W: 64, N: math.Float64bits(f)}
	case b.Info()&types.IsComplex != 0:
		return Value{K: KFloat, W: 64}
	}
	panic(unsupported{fmt.Sprintf("constant %v", c)})
}

// ---------- memory ----------

func (m *Machine) logw(s *Value) {
	if s.E != m.epoch {
		if !m.initing {
			m.undo = append(m.undo, undoRec{slot: s, old: *s})
		}
	}
}

func (m *Machine) store(s *Value, v Value) {
	if v.K == KAgg {
		if s.K == KAgg {
			src, dst := v.P.(*Agg), s.P.(*Agg)
			if len(src.f) != len(dst.f) {
				panic(unsupported{"aggregate shape mismatch"})
			}
			for i := range src.f {
				m.store(&dst.f[i], src.f[i])
			}
			return
		}
		v = copyVal(v)
	} else if v.K == KNone && s.K == KAgg {
		// zeroing an aggregate with a lazy zero
		for i := range s.P.(*Agg).f {
			m.store(&s.P.(*Agg).f[i], Value{})
		}
		return
	}
	m.logw(s)
	*s = v
	s.E = m.epoch
}

func (m *Machine) load(s *Value, t types.Type) Value {
	if s.K == KNone {
		return zeroOf(t)
	}
	if s.K == KAgg {
		return copyVal(*s)
	}
	v := *s
	v.E = 0
	return v
}

// agg materialises the aggregate stored in slot s of type t.
func (m *Machine) agg(s *Value, t types.Type) *Agg {
	if s.K == KNone {
		z := zeroOf(t)
		e := s.E
		*s = z
		s.E = e
	}
	a, ok := s.P.(*Agg)
	if !ok {
		panic(unsupported{fmt.Sprintf("expected aggregate of type %v, found kind %d", t, s.K)})
	}
	return a
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := &m.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.slot = u.old
		}
		m.undo[i] = undoRec{}
	}
	m.undo = m.undo[:0]
}

// loadPtr dereferences a pointer value.
func (m *Machine) loadPtr(p Value, t types.Type) Value {
	switch a := p.P.(type) {
	case *Value:
		if m.race != nil {
			m.race.access(m, a, false)
		}
		return m.load(a, t)
	case *SymPtr:
		return m.loadSym(a, t)
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	}
	if po, ok := p.P.(*Poison); ok {
		panic(unsupported{"global without a modelled initialiser: " + po.name})
	}
	panic(unsupported{fmt.Sprintf("load through %T", p.P)})
}

func (m *Machine) storePtr(p Value, v Value) {
	switch a := p.P.(type) {
	case *Value:
		if m.race != nil {
			m.race.access(m, a, true)
		}
		m.store(a, v)
	case *SymPtr:
		m.storeSym(a, v)
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	default:
		panic(unsupported{fmt.Sprintf("store through %T", p.P)})
	}
}

func (m *Machine) intTerm(v Value) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	return m.ts.Const(v.N, v.W)
}

func (m *Machine) boolTerm(v Value) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	return m.ts.Bool(v.N != 0)
}

func (m *Machine) cond(v Value) bool {
	if v.P == nil {
		return v.N != 0
	}
	return m.path.Branch(v.P.(*Term))
}

func (m *Machine) concInt(v Value) uint64 {
	if v.P == nil {
		return v.N
	}
	return m.path.Concretize(v.P.(*Term))
}

func (m *Machine) concSigned(v Value) int64 { return sx(m.concInt(v), v.W) }

func (m *Machine) loadSym(a *SymPtr, t types.Type) Value {
	ok := len(a.f) > 0
	var w uint8
	var k Kind
	for i := range a.f {
		c := a.f[i]
		if c.K == KNone {
			c = zeroOf(t)
		}
		if i == 0 {
			k, w = c.K, c.W
		}
		if (c.K != KInt && c.K != KBool) || c.K != k || c.W != w {
			ok = false
		}
	}
	if !ok || len(a.f) > 64 {
		i := m.path.Concretize(a.idx)
		return m.load(&a.f[i], t)
	}
	get := func(i int) *Term {
		c := a.f[i]
		if c.K == KNone {
			c = zeroOf(t)
		}
		if k == KBool {
			return m.boolTerm(c)
		}
		return m.intTerm(c)
	}
	r := get(len(a.f) - 1)
	for i := len(a.f) - 2; i >= 0; i-- {
		r = m.ts.Ite(m.ts.Eq(a.idx, m.ts.Const(uint64(i), a.idx.w)), get(i), r)
	}
	return mkTerm(r)
}

func (m *Machine) storeSym(a *SymPtr, v Value) {
	ok := (v.K == KInt || v.K == KBool) && len(a.f) <= 64
	if ok {
		for i := range a.f {
			if a.f[i].K != KNone && a.f[i].K != v.K {
				ok = false
			}
		}
	}
	if !ok {
		i := m.path.Concretize(a.idx)
		m.store(&a.f[i], v)
		return
	}
	for i := range a.f {
		old := a.f[i]
		if old.K == KNone {
			old = Value{K: v.K, W: v.W}
		}
		c := m.ts.Eq(a.idx, m.ts.Const(uint64(i), a.idx.w))
		var nv *Term
		if v.K == KBool {
			nv = m.ts.Ite(c, m.boolTerm(v), m.boolTerm(old))
		} else {
			nv = m.ts.Ite(c, m.intTerm(v), m.intTerm(old))
		}
		m.store(&a.f[i], mkTerm(nv))
	}
}

// ---------- panics ----------

func (m *Machine) errValue(msg string) Value {
	if m.L.errorStringT == nil {
		return nilIface
	}
	slot := &Value{K: KAgg, P: &Agg{f: []Value{mkStr(msg)}}}
	return Value{K: KIface, P: &Iface{m.L.errorStringT, Value{K: KPtr, P: slot}}}
}

func (m *Machine) throw(msg string) {
	tp := &targetPanic{msg: "runtime error: " + msg, rt: true}
	tp.v = m.errValue(tp.msg)
	if m.cur != nil {
		tp.stack = m.cur.stackTrace()
	}
	panic(tp)
}

func (fr *frame) pos() string {
	if fr.cur == nil {
		return fr.info.name
	}
	p := fr.cur.ins.Pos()
	f := fr.info.fn
	if !p.IsValid() {
		// nearest instruction with a position
		if b := fr.cur.ins.Block(); b != nil {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					p = in.Pos()
				}
				if in == fr.cur.ins {
					break
				}
			}
		}
	}
	ps := f.Prog.Fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndex(fn, "/pkg/"); i >= 0 {
		fn = fn[i+1:]
	} else if i := strings.LastIndex(fn, "/src/"); i >= 0 {
		fn = fn[i+5:]
	}
	return fmt.Sprintf("%s (%s:%d)", relName(f), fn, ps.Line)
}

func relName(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), repoModule+"/", "")
}

func (g *G) stackTrace() []string {
	var s []string
	for fr := g.top; fr != nil && len(s) < 24; fr = fr.caller {
		s = append(s, fr.pos())
	}
	return s
}

// ---------- calls ----------

func (m *Machine) callValue(f Value, args []Value) Value {
	switch c := f.P.(type) {
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	case *Closure:
		return m.call(c.fn, args, c.env)
	}
	panic(unsupported{fmt.Sprintf("call of %T", f.P)})
}

const maxDepth = 900

func (m *Machine) call(fn *ssa.Function, args []Value, env []Value) Value {
	fi := m.fnInfo(fn)
	if fi.intrinsic != nil {
		return fi.intrinsic(m, fi, args)
	}
	if fi.subst != nil {
		return m.call(fi.subst, args, nil)
	}
	if m.deferrable(fi) {
		if v, ok := m.deferCall(fi, args); ok {
			return v
		}
	}
	return m.callInfo(fi, args, env)
}

func (m *Machine) callInfo(fi *fnInfo, args []Value, env []Value) Value {
	fn := fi.fn
	if m.initing && m.cur.top != nil {
		if fn.Synthetic == "package initializer" {
			return Value{}
		}
		if strings.HasPrefix(fn.Name(), "init#") {
			defer func(top *frame) {
				if r := recover(); r != nil {
					m.cur.top = top // tolerated: what the initialiser did not set keeps its declared value
				}
			}(m.cur.top)
		}
	}
	if fn.Blocks == nil {
		panic(unsupported{"no body for " + fi.name})
	}
	if m.L.denied(fn) {
		panic(unsupported{"call into unmodelled package: " + fi.name})
	}
	if !fi.compiled {
		m.compile(fi)
	}
	if fi.inRepo && !fi.counted && !m.initing {
		fi.counted = true
		m.w.noteFunc(fi.name)
	}
	g := m.cur
	fr := &frame{g: g, info: fi, env: env, caller: g.top}
	fr.regs = make([]Value, fi.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	if g.top != nil {
		fr.depth = g.top.depth + 1
	}
	if g.deferOwner != nil {
		fr.owner = g.deferOwner
		g.deferOwner = nil
	}
	if fr.depth > maxDepth {
		panic(pathAbort{abSteps, "call depth"})
	}
	g.top = fr
	if !fi.hasDefer {
		r := m.exec(fr, 0)
		g.top = fr.caller
		return r
	}
	r := m.execDefer(fr)
	g.top = fr.caller
	return r
}

func (m *Machine) execDefer(fr *frame) (ret Value) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(*targetPanic); ok {
					fr.panicking = tp
					return
				}
				panic(r)
			}
		}()
		ret = m.exec(fr, 0)
	}()
	if fr.panicking == nil {
		return ret
	}
	fr.g.top = fr
	m.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.info.recover >= 0 {
		return m.exec(fr, fr.info.recover)
	}
	res := fr.info.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return zeroOf(res.At(0).Type())
	}
	return zeroOf(res)
}

// runDefers runs the frame's deferred calls; afterwards fr.panicking is nil iff there is no (unrecovered) panic.
func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.recovered = false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(*targetPanic); ok {
						fr.panicking = tp
						return
					}
					panic(r)
				}
			}()
			fr.g.deferOwner = fr
			d.fn()
			fr.g.deferOwner = nil
			if fr.recovered {
				fr.panicking = nil
			}
		}()
		fr.g.top = fr
	}
}

// prepCall evaluates callee and arguments of a call-like instruction.
func (m *Machine) prepCall(fr *frame, c *cins) (fn *ssa.Function, env []Value, args []Value, builtin *ssa.Builtin) {
	ci := c.call
	if ci.method != nil {
		recv := m.iface(fr.get(&ci.fnop))
		if recv.P == nil {
			m.throw("invalid memory address or nil pointer dereference")
		}
		i := recv.P.(*Iface)
		fn = m.lookupMethod(i.t, ci.method)
		args = make([]Value, 0, len(c.args)+1)
		args = append(args, i.v)
		for k := range c.args {
			args = append(args, fr.get(&c.args[k]))
		}
		return
	}
	args = make([]Value, len(c.args))
	for k := range c.args {
		args[k] = fr.get(&c.args[k])
	}
	if ci.static != nil {
		return ci.static, nil, args, nil
	}
	f := fr.get(&ci.fnop)
	switch cl := f.P.(type) {
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	case *Closure:
		return cl.fn, cl.env, args, nil
	case *ssa.Builtin:
		return nil, nil, args, cl
	}
	panic(unsupported{"callee"})
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methodKey{t, meth.Id()}
	if f, ok := m.methods[k]; ok {
		return f
	}
	f := m.L.method(t, meth)
	if f == nil {
		panic(unsupported{fmt.Sprintf("method %s of %v", meth.Name(), t)})
	}
	m.methods[k] = f
	return f
}

func (fr *frame) get(o *opnd) Value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.v
}

// exec runs a frame from block bi until it returns.
func (m *Machine) exec(fr *frame, bi int) Value {
	prev := -1
	info := fr.info
	for {
		blk := &info.blocks[bi]
		if len(blk.phis) > 0 {
			e := blk.pred[prev]
			if len(blk.phis) == 1 {
				ph := blk.phis[0]
				fr.regs[ph.dst] = fr.get(&ph.args[e])
			} else {
				var tmp [16]Value
				vals := tmp[:0]
				for _, ph := range blk.phis {
					vals = append(vals, fr.get(&ph.args[e]))
				}
				for i, ph := range blk.phis {
					fr.regs[ph.dst] = vals[i]
				}
			}
		}
		next := -1
		for _, c := range blk.code {
			fr.cur = c
			m.steps++
			switch x := c.ins.(type) {
			case *ssa.Jump:
				next = blk.succ[0]
			case *ssa.If:
				if m.cond(fr.get(&c.a)) {
					next = blk.succ[0]
				} else {
					next = blk.succ[1]
				}
			case *ssa.Return:
				switch len(c.args) {
				case 0:
					return Value{}
				case 1:
					return fr.get(&c.args[0])
				}
				vs := make([]Value, len(c.args))
				for i := range c.args {
					vs[i] = fr.get(&c.args[i])
				}
				return Value{K: KTuple, P: vs}
			case *ssa.Panic:
				v := fr.get(&c.a)
				tp := &targetPanic{v: v, msg: "panic: " + m.describe(v)}
				tp.stack = fr.g.stackTrace()
				panic(tp)
			case *ssa.RunDefers:
				m.runDefers(fr)
				fr.g.top = fr
				if fr.panicking != nil {
					panic(fr.panicking)
				}
			default:
				m.instr(fr, c, x)
			}
		}
		if m.steps > m.maxSteps {
			panic(pathAbort{abSteps, "instruction budget exceeded in " + fr.pos()})
		}
		if next < 0 {
			panic("fell off block in " + info.name)
		}
		prev, bi = bi, next
	}
}

func (m *Machine) describe(v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathAbort); ok {
				panic(r)
			}
			s = "?"
		}
	}()
	v = m.iface(v)
	i, ok := v.P.(*Iface)
	if !ok {
		return "nil"
	}
	if i.v.K == KString {
		if cs, ok := i.v.P.(string); ok {
			return cs
		}
		return "<symbolic string>"
	}
	if i.t == m.L.errorStringT {
		if a, ok := i.v.P.(*Value); ok {
			if s, ok := a.P.(*Agg).f[0].P.(string); ok {
				return s
			}
		}
	}
	return i.t.String()
}
