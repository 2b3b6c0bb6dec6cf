package main

// Models of runtime-level and library functions, and the sym API.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(m *Machine, fi *fnInfo, args []Value) Value

var intrinsics map[string]intrinsicFn

// substTable maps library functions to Go models in the harness overlay.
var substTable = map[string]string{
	"github.com/golang/protobuf/proto.Marshal":   "ProtoMarshal",
	"github.com/golang/protobuf/proto.Unmarshal": "ProtoUnmarshal",

	"time.Since":             "TimeSince",
	"time.Until":             "TimeUntil",
	"sort.Slice":             "SortSlice",
	"sort.SliceStable":       "SortSliceStable",
	"sort.SliceIsSorted":     "SortSliceIsSorted",
	"errors.As":              "ErrorsAs",
	"strconv.AppendFloat":    "AppendFloat",
	"os.IsNotExist":          "IsNotExist",
	"os.IsExist":             "IsExist",
	"(*sync.Cond).Wait":      "CondWait",
	"(*sync.Cond).Signal":    "CondSignal",
	"(*sync.Cond).Broadcast": "CondBroadcast",
}

type hashState struct {
	str Value
}

func addr(v Value) *Value {
	a, ok := v.P.(*Value)
	if !ok {
		panic(unsupported{fmt.Sprintf("pointer %T in a modelled library call", v.P)})
	}
	return a
}

func (m *Machine) addrOf(v Value) *Value {
	if v.P == nil {
		m.throw("invalid memory address or nil pointer dereference")
	}
	return addr(v)
}

func (m *Machine) constString(v Value) string {
	v = m.forceStr(v)
	s, ok := v.P.(string)
	if !ok {
		panic(unsupported{"a constant string was expected"})
	}
	return s
}

func (m *Machine) mutex(v Value) *mutexState {
	a := m.addrOf(v)
	s := m.mutexes[a]
	if s == nil {
		s = &mutexState{id: m.newID()}
		m.mutexes[a] = s
	}
	return s
}

func (m *Machine) lockOp(s *mutexState, k opKind) {
	if m.initing {
		return
	}
	m.visible(&pend{kind: k, mu: s})
}

func (m *Machine) unlock(s *mutexState) {
	if m.initing {
		return
	}
	if m.opts.explore {
		m.visible(&pend{kind: opPoint, obj: s, write: true})
	}
	if s.writer == nil {
		m.fatal("sync: unlock of unlocked mutex")
	}
	s.writer = nil
	if m.race != nil {
		s.vc.join(m.cur.vc)
		m.cur.vc.inc(m.cur.id)
	}
}

func (m *Machine) runlock(s *mutexState) {
	if m.initing {
		return
	}
	if m.opts.explore {
		m.visible(&pend{kind: opPoint, obj: s, write: true})
	}
	if s.readers == 0 {
		m.fatal("sync: RUnlock of unlocked RWMutex")
	}
	s.readers--
	if m.race != nil {
		s.rvc.join(m.cur.vc)
		m.cur.vc.inc(m.cur.id)
	}
}

// fatal is an unrecoverable runtime error (throw in the runtime).
func (m *Machine) fatal(msg string) {
	m.path.violation("panic", "fatal error: "+msg, m.path.model)
	panic(pathAbort{abStop, ""})
}

func (m *Machine) syncMap(v Value) *Map {
	a := m.addrOf(v)
	s := m.syncMaps[a]
	if s == nil {
		s = &Map{E: m.epoch, idx: map[string]int{}}
		m.syncMaps[a] = s
	}
	return s
}

var anyType = types.NewInterfaceType(nil, nil)
var syncMapT = types.NewMap(anyType, anyType)

// withoutRace runs f with the race detector off (used for internally synchronised library objects).
func (m *Machine) withoutRace(f func()) {
	r := m.race
	m.race = nil
	f()
	m.race = r
}

// acqrel orders the current goroutine with earlier operations on an internally synchronised object.
func (m *Machine) acqrel(o any) {
	if m.race == nil || m.initing {
		return
	}
	a := m.race.get(o)
	if a.sync == nil {
		a.sync = vclock{}
	}
	m.cur.vc.join(a.sync)
	a.sync.join(m.cur.vc)
	m.cur.vc.inc(m.cur.id)
}

func (m *Machine) syncMapOp(mv Value, write bool, f func(mp *Map, mval Value)) {
	mp := m.syncMap(mv)
	m.point(mp, write)
	m.acqrel(mp)
	m.withoutRace(func() { f(mp, Value{K: KMap, P: mp}) })
}

func structField(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name)
}

func (m *Machine) timerChanOf(t *Timer) *Chan {
	if t.ch == nil {
		t.ch = m.newChan(1)
	}
	return t.ch
}

func (m *Machine) atomicPoint(v Value, write bool) *Value {
	a := m.addrOf(v)
	m.point(a, write)
	m.acqrel(a)
	return a
}

func errResult(m *Machine, msg string) Value { return m.errValue(msg) }

func symArgName(m *Machine, v Value) string { return m.path.uniq(m.constString(v)) }

func (m *Machine) symString(name string, n int, alphabet string) Value {
	p := m.path
	b := make([]*Term, n)
	for i := range b {
		b[i] = p.NewVar(fmt.Sprintf("%s.%d", name, i), 8)
	}
	p.inputs = append(p.inputs, input{Name: name, Kind: "string", Vars: append([]*Term(nil), b...)})
	if alphabet != "" {
		for _, t := range b {
			c := m.ts.ff
			for i := 0; i < len(alphabet); i++ {
				c = m.ts.Or(c, m.ts.Eq(t, m.ts.Const(uint64(alphabet[i]), 8)))
			}
			p.Assume(c)
		}
	}
	return m.termsToStr(b)
}

func (m *Machine) symInt(name string, w uint8, kind string) *Term {
	t := m.path.NewVar(name, w)
	m.path.inputs = append(m.path.inputs, input{Name: name, Kind: kind, Vars: []*Term{t}})
	return t
}

func init() {
	intrinsics = map[string]intrinsicFn{}
	for k, f := range baseIntrinsics() {
		intrinsics[k] = f
	}
	for k, f := range fmtIntrinsics() {
		intrinsics[k] = f
	}
	for k, f := range fsIntrinsics() {
		intrinsics[k] = f
	}
	for k, f := range stdIntrinsics() {
		intrinsics[k] = f
	}
	for k, f := range tomlIntrinsics() {
		intrinsics[k] = f
	}
	for k, f := range netIntrinsics() {
		intrinsics[k] = f
	}
	for k, f := range lazyBufIntrinsics() {
		intrinsics[k] = f
	}
}

func nop(m *Machine, fi *fnInfo, a []Value) Value { return m.zeroResults(fi) }

func (m *Machine) zeroResults(fi *fnInfo) Value {
	res := fi.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return zeroOf(res.At(0).Type())
	}
	return zeroOf(res)
}

func baseIntrinsics() map[string]intrinsicFn {
	S := zzPkg + "/sym."
	t := map[string]intrinsicFn{
		// ---- sym API ----
		S + "Int64": func(m *Machine, fi *fnInfo, a []Value) Value { return mkTerm(m.symInt(symArgName(m, a[0]), 64, "int")) },
		S + "Int":   func(m *Machine, fi *fnInfo, a []Value) Value { return mkTerm(m.symInt(symArgName(m, a[0]), 64, "int")) },
		S + "Int32": func(m *Machine, fi *fnInfo, a []Value) Value { return mkTerm(m.symInt(symArgName(m, a[0]), 32, "int")) },
		S + "Byte":  func(m *Machine, fi *fnInfo, a []Value) Value { return mkTerm(m.symInt(symArgName(m, a[0]), 8, "int")) },
		S + "Bool": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.symInt(symArgName(m, a[0]), 1, "int")
			return mkTerm(m.ts.Eq(t, m.ts.Const(1, 1)))
		},
		S + "Range": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.symInt(symArgName(m, a[0]), 64, "int")
			m.path.Assume(m.ts.And(m.ts.Cmp(BSle, m.intTerm(a[1]), t), m.ts.Cmp(BSle, t, m.intTerm(a[2]))))
			return mkTerm(t)
		},
		S + "Choice": func(m *Machine, fi *fnInfo, a []Value) Value {
			name := symArgName(m, a[0])
			v := m.path.Choice(int(m.concSigned(a[1])), name)
			m.path.inputs = append(m.path.inputs, input{Name: name, Kind: "choice", Val: uint64(v)})
			return mkInt(uint64(v), 64)
		},
		S + "String": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.symString(symArgName(m, a[0]), int(m.concSigned(a[1])), "")
		},
		S + "StringOf": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.symString(symArgName(m, a[0]), int(m.concSigned(a[1])), m.constString(a[2]))
		},
		S + "Assume": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.path.Assume(m.boolTerm(a[0]))
			return Value{}
		},
		S + "Assert": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.path.Assert(m.boolTerm(a[0]), m.constString(a[1]))
			return Value{}
		},
		S + "Reach": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.path.reached[m.constString(a[0])] = true
			return Value{}
		},
		S + "Observe": func(m *Machine, fi *fnInfo, a []Value) Value {
			var vs []Value
			for _, c := range m.cells(a[1]) {
				vs = append(vs, m.snapshot(c))
			}
			m.path.observes = append(m.path.observes, obs{m.constString(a[0]), vs})
			return Value{}
		},
		S + "And": func(m *Machine, fi *fnInfo, a []Value) Value {
			r := m.ts.tt
			for _, c := range m.cells(a[0]) {
				r = m.ts.And(r, m.boolTerm(m.load(&c, types.Typ[types.Bool])))
			}
			return mkTerm(r)
		},
		S + "Or": func(m *Machine, fi *fnInfo, a []Value) Value {
			r := m.ts.ff
			for _, c := range m.cells(a[0]) {
				r = m.ts.Or(r, m.boolTerm(m.load(&c, types.Typ[types.Bool])))
			}
			return mkTerm(r)
		},
		S + "Implies": func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkTerm(m.ts.Or(m.ts.Not(m.boolTerm(a[0])), m.boolTerm(a[1])))
		},
		S + "IteInt": func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkTerm(m.ts.Ite(m.boolTerm(a[0]), m.intTerm(a[1]), m.intTerm(a[2])))
		},
		S + "Conc": func(m *Machine, fi *fnInfo, a []Value) Value { return mkInt(m.concInt(a[0]), 64) },
		S + "Case": func(m *Machine, fi *fnInfo, a []Value) Value { return mkBool(m.cond(a[0])) },
		S + "ConcString": func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkStr(m.concStr(a[0]))
		},
		S + "Tier":     func(m *Machine, fi *fnInfo, a []Value) Value { return mkInt(uint64(m.w.run.tier), 64) },
		S + "Symbolic": func(m *Machine, fi *fnInfo, a []Value) Value { return mkBool(true) },
		S + "Quiesce": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.visible(&pend{kind: opQuiesce})
			if m.race != nil { // the harness synchronises with everybody at quiescence
				m.cur.vc.join(m.race.exited)
				for _, g := range m.gs {
					m.cur.vc.join(g.vc)
				}
				m.cur.vc.inc(m.cur.id)
			}
			return Value{}
		},
		S + "Yield":      func(m *Machine, fi *fnInfo, a []Value) Value { m.point(nil, false); return Value{} },
		S + "TempDir":    func(m *Machine, fi *fnInfo, a []Value) Value { return mkStr("/zz-tmp") },
		S + "SchedPoint": func(m *Machine, fi *fnInfo, a []Value) Value { m.point(nil, false); return Value{} },
		S + "Stop":       func(m *Machine, fi *fnInfo, a []Value) Value { panic(pathAbort{abStop, ""}) },

		// ---- runtime, sync ----
		"runtime.Gosched":                           func(m *Machine, fi *fnInfo, a []Value) Value { m.point(nil, false); return Value{} },
		"runtime.KeepAlive":                         nop,
		"runtime.GC":                                nop,
		"runtime.SetFinalizer":                      nop,
		"runtime.GOMAXPROCS":                        func(m *Machine, fi *fnInfo, a []Value) Value { return mkInt(4, 64) },
		"runtime.NumCPU":                            func(m *Machine, fi *fnInfo, a []Value) Value { return mkInt(4, 64) },
		"internal/race.Acquire":                     nop,
		"internal/race.Release":                     nop,
		"internal/race.ReleaseMerge":                nop,
		"internal/race.Enable":                      nop,
		"internal/race.Disable":                     nop,
		"internal/race.Read":                        nop,
		"internal/race.Write":                       nop,
		"internal/race.ReadRange":                   nop,
		"internal/race.WriteRange":                  nop,
		"internal/abi.NoEscape":                     func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] },
		"internal/abi.Escape":                       func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] },
		"internal/godebug.New":                      nop,
		"(*internal/godebug.Setting).Value":         func(m *Machine, fi *fnInfo, a []Value) Value { return mkStr("") },
		"(*internal/godebug.Setting).IncNonDefault": nop,

		"(*sync.Mutex).Lock":   func(m *Machine, fi *fnInfo, a []Value) Value { m.lockOp(m.mutex(a[0]), opLock); return Value{} },
		"(*sync.Mutex).Unlock": func(m *Machine, fi *fnInfo, a []Value) Value { m.unlock(m.mutex(a[0])); return Value{} },
		"(*sync.Mutex).TryLock": func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.mutex(a[0])
			m.point(s, true)
			if s.writer == nil && s.readers == 0 {
				s.writer = m.cur
				m.cur.vc.join(s.vc)
				return mkBool(true)
			}
			return mkBool(false)
		},
		"(*sync.RWMutex).Lock":    func(m *Machine, fi *fnInfo, a []Value) Value { m.lockOp(m.mutex(a[0]), opLock); return Value{} },
		"(*sync.RWMutex).Unlock":  func(m *Machine, fi *fnInfo, a []Value) Value { m.unlock(m.mutex(a[0])); return Value{} },
		"(*sync.RWMutex).RLock":   func(m *Machine, fi *fnInfo, a []Value) Value { m.lockOp(m.mutex(a[0]), opRLock); return Value{} },
		"(*sync.RWMutex).RUnlock": func(m *Machine, fi *fnInfo, a []Value) Value { m.runlock(m.mutex(a[0])); return Value{} },
		"(*sync.WaitGroup).Add":   func(m *Machine, fi *fnInfo, a []Value) Value { m.wgAdd(a[0], m.concSigned(a[1])); return Value{} },
		"(*sync.WaitGroup).Done":  func(m *Machine, fi *fnInfo, a []Value) Value { m.wgAdd(a[0], -1); return Value{} },
		"(*sync.WaitGroup).Wait": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.visible(&pend{kind: opWait, wg: m.wg(a[0])})
			return Value{}
		},
		"(*sync.Map).Load": func(m *Machine, fi *fnInfo, a []Value) (r Value) {
			m.syncMapOp(a[0], false, func(mp *Map, mv Value) {
				v, ok := m.mapGet(mv, a[1], syncMapT)
				r = mkTuple(v, mkBool(ok))
			})
			return
		},
		"(*sync.Map).Store": func(m *Machine, fi *fnInfo, a []Value) (r Value) {
			m.syncMapOp(a[0], true, func(mp *Map, mv Value) { m.mapSet(mv, a[1], a[2], syncMapT) })
			return
		},
		"(*sync.Map).LoadOrStore": func(m *Machine, fi *fnInfo, a []Value) (r Value) {
			m.syncMapOp(a[0], true, func(mp *Map, mv Value) {
				v, ok := m.mapGet(mv, a[1], syncMapT)
				if !ok {
					m.mapSet(mv, a[1], a[2], syncMapT)
					v = a[2]
				}
				r = mkTuple(v, mkBool(ok))
			})
			return
		},
		"(*sync.Map).LoadAndDelete": func(m *Machine, fi *fnInfo, a []Value) (r Value) {
			m.syncMapOp(a[0], true, func(mp *Map, mv Value) {
				v, ok := m.mapGet(mv, a[1], syncMapT)
				m.mapDelete(mv, a[1], syncMapT)
				r = mkTuple(v, mkBool(ok))
			})
			return
		},
		"(*sync.Map).Swap": func(m *Machine, fi *fnInfo, a []Value) (r Value) {
			m.syncMapOp(a[0], true, func(mp *Map, mv Value) {
				v, ok := m.mapGet(mv, a[1], syncMapT)
				m.mapSet(mv, a[1], a[2], syncMapT)
				r = mkTuple(v, mkBool(ok))
			})
			return
		},
		"(*sync.Map).CompareAndSwap": func(m *Machine, fi *fnInfo, a []Value) (r Value) {
			m.syncMapOp(a[0], true, func(mp *Map, mv Value) {
				v, ok := m.mapGet(mv, a[1], syncMapT)
				r = mkBool(false)
				if ok && m.path.Branch(m.equal(v, a[2], anyType)) {
					m.mapSet(mv, a[1], a[3], syncMapT)
					r = mkBool(true)
				}
			})
			return
		},
		"(*sync.Map).Delete": func(m *Machine, fi *fnInfo, a []Value) (r Value) {
			m.syncMapOp(a[0], true, func(mp *Map, mv Value) { m.mapDelete(mv, a[1], syncMapT) })
			return
		},
		"(*sync.Map).Clear": func(m *Machine, fi *fnInfo, a []Value) (r Value) {
			m.syncMapOp(a[0], true, func(mp *Map, mv Value) {
				m.mapTouch(mp)
				mp.ents, mp.idx, mp.n, mp.nsym = nil, map[string]int{}, 0, 0
			})
			return
		},
		"(*sync.Map).Range": func(m *Machine, fi *fnInfo, a []Value) Value {
			mp := m.syncMap(a[0])
			m.point(mp, false)
			m.acqrel(mp)
			var left []int
			for i := range mp.ents {
				if mp.ents[i].live {
					left = append(left, i)
				}
			}
			for len(left) > 0 {
				j := 0
				if m.opts.mapOrder && len(left) > 1 {
					j = m.randChoice(len(left))
				}
				i := left[j]
				left = append(append([]int(nil), left[:j]...), left[j+1:]...)
				if i >= len(mp.ents) || !mp.ents[i].live {
					continue
				}
				e := mp.ents[i]
				if !m.cond(m.callValue(a[1], []Value{e.k, e.v})) {
					break
				}
				m.point(mp, false)
			}
			return Value{}
		},
		"(*sync.Pool).Get": func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.addrOf(a[0])
			st := fi.fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
			f := m.agg(s, st).f[structField(st, "New")]
			if f.P == nil {
				return nilIface
			}
			return m.callValue(f, nil)
		},
		"(*sync.Pool).Put": nop,

		"(*sync/atomic.Value).Load": func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.atomicPoint(a[0], false)
			if v, ok := m.atomicVals[s]; ok {
				return v
			}
			return nilIface
		},
		"(*sync/atomic.Value).Store": func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.atomicPoint(a[0], true)
			if a[1].P == nil {
				m.throw2("sync/atomic: store of nil value into Value")
			}
			m.atomicVals[s] = a[1]
			return Value{}
		},

		// ---- time ----
		"time.Now": func(m *Machine, fi *fnInfo, a []Value) Value { return m.timeNow() },
		"time.Sleep": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.newTimer(m.concSigned(a[0]))
			t.g = m.cur
			m.visible(&pend{kind: opSleep, timer: t})
			return Value{}
		},
		"time.After": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.newTimer(m.concSigned(a[0]))
			t.ch = m.newChan(1)
			return Value{K: KChan, P: t.ch}
		},
		"time.NewTimer": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.newTimer(m.concSigned(a[0]))
			t.ch = m.newChan(1)
			st := fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			s := &Value{}
			*s = zeroOf(st)
			s.P.(*Agg).f[0] = Value{K: KChan, P: t.ch}
			m.gotimers[s] = t
			return Value{K: KPtr, P: s}
		},
		"time.AfterFunc": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.newTimer(m.concSigned(a[0]))
			f := a[1]
			t.fn = func() {
				c, ok := f.P.(*Closure)
				if !ok {
					panic(unsupported{"AfterFunc of a nil function"})
				}
				m.spawn(c.fn, nil, c.env)
			}
			st := fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			s := &Value{}
			*s = zeroOf(st)
			m.gotimers[s] = t
			return Value{K: KPtr, P: s}
		},
		"(*time.Timer).Stop": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.gotimers[m.addrOf(a[0])]
			if t == nil {
				panic(unsupported{"stop of an unknown timer"})
			}
			m.point("timer", true)
			was := t.active
			t.active = false
			if t.ch != nil && len(t.ch.buf) > 0 { // Go 1.23: Stop discards a pending tick
				t.ch.buf = nil
				was = true
			}
			return mkBool(was)
		},
		"(*time.Timer).Reset": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.gotimers[m.addrOf(a[0])]
			if t == nil {
				panic(unsupported{"reset of an unknown timer"})
			}
			m.point("timer", true)
			was := t.active
			if t.ch != nil && len(t.ch.buf) > 0 {
				t.ch.buf = nil
				was = true
			}
			t.deadline = m.now + m.concSigned(a[1])
			if !t.active {
				t.active = true
				found := false
				for _, x := range m.timers {
					if x == t {
						found = true
					}
				}
				if !found {
					m.timers = append(m.timers, t)
				}
			}
			return mkBool(was)
		},

		// ---- math ----
		"math.Float64bits":     func(m *Machine, fi *fnInfo, a []Value) Value { return floatBits(m, a[0]) },
		"math.Float64frombits": func(m *Machine, fi *fnInfo, a []Value) Value { return Value{K: KFloat, W: 64, N: a[0].N, P: a[0].P} },
		"math.Float32bits":     func(m *Machine, fi *fnInfo, a []Value) Value { return floatBits(m, a[0]) },
		"math.Float32frombits": func(m *Machine, fi *fnInfo, a []Value) Value { return Value{K: KFloat, W: 32, N: a[0].N, P: a[0].P} },
		"math.Floor":           math1(math.Floor), "math.Ceil": math1(math.Ceil), "math.Sqrt": math1(math.Sqrt), "math.Trunc": math1(math.Trunc),
		"math.archFloor": math1(math.Floor), "math.archCeil": math1(math.Ceil), "math.archSqrt": math1(math.Sqrt), "math.archTrunc": math1(math.Trunc),
		"math.Log": math1(math.Log), "math.Exp": math1(math.Exp), "math.Abs": math1(math.Abs), "math.Log2": math1(math.Log2),
		"math/bits.TrailingZeros64": bits1(bits.TrailingZeros64), "math/bits.LeadingZeros64": bits1(bits.LeadingZeros64), "math/bits.Len64": bits1(bits.Len64),
		"math/bits.Len32": bits1(bits.Len64), "math/bits.Len": bits1(bits.Len64), "math/bits.OnesCount64": bits1(bits.OnesCount64),

		// ---- bytealg ----
		"internal/bytealg.IndexByte":       func(m *Machine, fi *fnInfo, a []Value) Value { return m.indexByte(m.cellTerms(a[0]), a[1]) },
		"internal/bytealg.IndexByteString": func(m *Machine, fi *fnInfo, a []Value) Value { return m.indexByte(m.strTerms(a[0]), a[1]) },
		"internal/bytealg.LastIndexByte":   func(m *Machine, fi *fnInfo, a []Value) Value { return m.lastIndexByte(m.cellTerms(a[0]), a[1]) },
		"internal/bytealg.LastIndexByteString": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.lastIndexByte(m.strTerms(a[0]), a[1])
		},
		"internal/bytealg.Count":       func(m *Machine, fi *fnInfo, a []Value) Value { return m.countByte(m.cellTerms(a[0]), a[1]) },
		"internal/bytealg.CountString": func(m *Machine, fi *fnInfo, a []Value) Value { return m.countByte(m.strTerms(a[0]), a[1]) },
		"internal/bytealg.Equal": func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkTerm(m.strEq(m.bytesToStr(a[0]), m.bytesToStr(a[1])))
		},
		"bytes.Equal": func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkTerm(m.strEq(m.bytesToStr(a[0]), m.bytesToStr(a[1])))
		},
		"internal/bytealg.Compare": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.compare3(m.bytesToStr(a[0]), m.bytesToStr(a[1]))
		},
		"internal/bytealg.CompareString": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.compare3(a[0], a[1])
		},
		"strings.Compare": func(m *Machine, fi *fnInfo, a []Value) Value { return m.compare3(a[0], a[1]) },
		"bytes.Compare": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.compare3(m.bytesToStr(a[0]), m.bytesToStr(a[1]))
		},
		"internal/bytealg.Index": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.indexSub(m.cellTerms(a[0]), m.cellTerms(a[1]))
		},
		"internal/bytealg.IndexString": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.indexSub(m.strTerms(a[0]), m.strTerms(a[1]))
		},
		"strings.Index": func(m *Machine, fi *fnInfo, a []Value) Value { return m.indexSub(m.strTerms(a[0]), m.strTerms(a[1])) },
		"bytes.Index":   func(m *Machine, fi *fnInfo, a []Value) Value { return m.indexSub(m.cellTerms(a[0]), m.cellTerms(a[1])) },
		"internal/bytealg.MakeNoZero": func(m *Machine, fi *fnInfo, a []Value) Value {
			n := int(m.concSigned(a[0]))
			f := make([]Value, n)
			for i := range f {
				f[i] = Value{K: KInt, W: 8}
			}
			return Value{K: KSlice, P: &SliceV{f: f}}
		},
		"internal/stringslite.Clone": func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] },
		"strings.Clone":              func(m *Machine, fi *fnInfo, a []Value) Value { return a[0] },
		"strings.ToLower": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.caseMap(fi, a[0], 'A', 'Z', 32, strings.ToLower)
		},
		"strings.ToUpper": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.caseMap(fi, a[0], 'a', 'z', 256-32, strings.ToUpper)
		},
		"strings.EqualFold": func(m *Machine, fi *fnInfo, a []Value) Value {
			x := m.forceStr(a[0])
			y := m.forceStr(a[1])
			xs, ok1 := x.P.(string)
			ys, ok2 := y.P.(string)
			if ok1 && ok2 {
				return mkBool(strings.EqualFold(xs, ys))
			}
			if m.allASCII(x) && m.allASCII(y) {
				return mkTerm(m.strEq(m.asciiMap(x, 'A', 'Z', 32), m.asciiMap(y, 'A', 'Z', 32)))
			}
			return mkBool(strings.EqualFold(m.concStr(x), m.concStr(y)))
		},

		// ---- strconv ----
		"strconv.Itoa": func(m *Machine, fi *fnInfo, a []Value) Value { return m.formatInt(a[0]) },
		"strconv.FormatInt": func(m *Machine, fi *fnInfo, a []Value) Value {
			if a[0].P == nil && a[1].P == nil {
				return mkStr(strconv.FormatInt(int64(a[0].N), int(a[1].N)))
			}
			if m.concInt(a[1]) != 10 {
				return mkStr(strconv.FormatInt(m.concSigned(a[0]), int(a[1].N)))
			}
			return m.formatInt(a[0])
		},
		"strconv.FormatUint": func(m *Machine, fi *fnInfo, a []Value) Value {
			if a[0].P != nil && m.concInt(a[1]) == 10 && m.path.Branch(m.ts.Cmp(BSle, m.ts.Const(0, 64), m.intTerm(a[0]))) {
				return m.formatInt(a[0])
			}
			return mkStr(strconv.FormatUint(m.concInt(a[0]), int(m.concInt(a[1]))))
		},
		"strconv.AppendInt": func(m *Machine, fi *fnInfo, a []Value) Value {
			var s Value
			if m.concInt(a[2]) == 10 {
				s = m.formatInt(a[1])
			} else {
				s = mkStr(strconv.FormatInt(m.concSigned(a[1]), int(a[2].N)))
			}
			return m.appendBytes(a[0], m.strCells(s))
		},
		"strconv.ParseInt": func(m *Machine, fi *fnInfo, a []Value) Value {
			s := a[0]
			if a[1].P == nil && a[2].P == nil && (a[1].N == 10) && (a[2].N == 64 || a[2].N == 0) {
				if r, ok := m.parseInt("ParseInt", s); ok {
					return r
				}
			}
			return m.interp(fi, a)
		},
		"strconv.Atoi": func(m *Machine, fi *fnInfo, a []Value) Value {
			if r, ok := m.parseInt("Atoi", a[0]); ok {
				return r
			}
			return m.interp(fi, a)
		},
		"strconv.Quote": func(m *Machine, fi *fnInfo, a []Value) Value {
			return m.quote(a[0])
		},
		"strconv.FormatFloat": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.needConc(a[0], "FormatFloat")
			return mkStr(strconv.FormatFloat(math.Float64frombits(a[0].N), byte(m.concInt(a[1])), int(m.concSigned(a[2])), int(m.concSigned(a[3]))))
		},

		// ---- errors ----
		"errors.Is": func(m *Machine, fi *fnInfo, a []Value) Value { return mkBool(m.errorsIs(a[0], a[1], 0)) },

		// ---- hash/fnv (64 bit, 1a): packed injectively for up to seven bytes ----
		"hash/fnv.New64a": func(m *Machine, fi *fnInfo, a []Value) Value { return m.newHash() },
		"(*hash/fnv.sum64a).Write": func(m *Machine, fi *fnInfo, a []Value) Value {
			h := m.hashOf(a[0])
			if l, ok := a[1].P.(*LazyBytes); ok && l.s.bytes == nil {
				h.str = m.concat(h.str, Value{K: KString, P: &LazyStr{parts: l.s.parts}})
				return mkTuple(m.lazyLen(l.s), nilIface)
			}
			h.str = m.concat(h.str, m.bytesToStr(a[1]))
			return mkTuple(mkInt(uint64(len(m.cells(a[1]))), 64), nilIface)
		},
		"(*hash/fnv.sum64a).Reset": func(m *Machine, fi *fnInfo, a []Value) Value { m.hashOf(a[0]).str = mkStr(""); return Value{} },
		"(*hash/fnv.sum64a).Sum64": func(m *Machine, fi *fnInfo, a []Value) Value { return m.hashSum(m.hashOf(a[0])) },

		// ---- identity, randomness, environment ----
		"github.com/satori/go.uuid.NewV4": func(m *Machine, fi *fnInfo, a []Value) Value {
			m.nuuid++
			v := zeroOf(fi.fn.Signature.Results().At(0).Type())
			f := v.P.(*Agg).f
			for i := range f {
				f[i] = Value{K: KInt, W: 8}
			}
			f[14] = mkInt(uint64(m.nuuid>>8), 8)
			f[15] = mkInt(uint64(m.nuuid&255), 8)
			f[6] = mkInt(0x40, 8)
			f[8] = mkInt(0x80, 8)
			if fi.fn.Signature.Results().Len() == 2 {
				return mkTuple(v, nilIface)
			}
			return v
		},
		"(github.com/satori/go.uuid.UUID).String": func(m *Machine, fi *fnInfo, a []Value) Value {
			f := a[0].P.(*Agg).f
			var b []byte
			for i := range f {
				b = append(b, byte(f[i].N))
			}
			return mkStr(fmt.Sprintf("%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:16]))
		},
		"math/rand.NewSource": func(m *Machine, fi *fnInfo, a []Value) Value { return nilIface },
		"math/rand.New": func(m *Machine, fi *fnInfo, a []Value) Value {
			s := &Value{}
			*s = zeroOf(fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
			return Value{K: KPtr, P: s}
		},
		"math/rand.Seed": nop,
		"net.Interfaces": func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkTuple(Value{K: KSlice}, m.errValue("no interfaces in the model"))
		},
		"os/signal.Notify":      nop,
		"os/signal.Stop":        nop,
		"os.Exit":               func(m *Machine, fi *fnInfo, a []Value) Value { panic(pathAbort{abStop, ""}) },
		"unique.runtime_blocks": nop,
	}
	// randomness: every outcome is explored
	for _, pre := range []string{"(*math/rand.Rand).", "math/rand."} {
		off := 0
		if pre[0] == '(' {
			off = 1
		}
		n := func(w uint8) intrinsicFn {
			return func(m *Machine, fi *fnInfo, a []Value) Value {
				k := m.concSigned(a[off])
				if k <= 0 {
					m.throw2("invalid argument to Intn")
				}
				return mkInt(uint64(m.randChoice(int(k))), w)
			}
		}
		t[pre+"Intn"], t[pre+"Int63n"], t[pre+"Int31n"] = n(64), n(64), n(32)
		full := func(w, bits uint8) intrinsicFn {
			return func(m *Machine, fi *fnInfo, a []Value) Value {
				m.nrand++
				if m.opts.maxDraws > 0 && m.nrand > m.opts.maxDraws {
					panic(pathAbort{abStop, ""})
				}
				if m.opts.prng > 0 {
					return mkInt(m.pseudo()>>(64-bits), w)
				}
				v := m.path.NewVar(fmt.Sprintf("rand!%d", m.nrand), bits)
				if bits < w {
					v = m.ts.Zext(v, w)
				}
				m.path.nondet = true
				return mkTerm(v)
			}
		}
		t[pre+"Int"], t[pre+"Int63"], t[pre+"Int31"] = full(64, 63), full(64, 63), full(32, 31)
		t[pre+"Uint32"], t[pre+"Uint64"] = full(32, 32), full(64, 64)
		t[pre+"Float64"] = func(m *Machine, fi *fnInfo, a []Value) Value {
			return Value{K: KFloat, W: 64, N: math.Float64bits(float64(m.randChoice(4)) / 4)}
		}
		t[pre+"Perm"] = func(m *Machine, fi *fnInfo, a []Value) Value {
			k := int(m.concSigned(a[off]))
			f := make([]Value, 0, k)
			var left []int
			for i := 0; i < k; i++ {
				left = append(left, i)
			}
			for len(left) > 0 {
				j := m.randChoice(len(left))
				f = append(f, mkInt(uint64(left[j]), 64))
				left = append(append([]int(nil), left[:j]...), left[j+1:]...)
			}
			return Value{K: KSlice, P: &SliceV{f: f}}
		}
		t[pre+"Shuffle"] = func(m *Machine, fi *fnInfo, a []Value) Value {
			k := int(m.concSigned(a[off]))
			for i := k - 1; i > 0; i-- {
				j := m.randChoice(i + 1)
				m.callValue(a[off+1], []Value{mkInt(uint64(i), 64), mkInt(uint64(j), 64)})
			}
			return Value{}
		}
	}
	atomics(t)
	return t
}

func (m *Machine) randChoice(n int) int {
	if m.opts.prng > 0 && n > 0 {
		return int(m.pseudo() >> 33 % uint64(n))
	}
	m.path.nondet = true
	return m.path.Choice(n, "")
}

// pseudo is the next number of one of the given number of sequences, all of which are explored: always
// the largest, six smallest and a largest in turn, and pseudo-random ones.
func (m *Machine) pseudo() uint64 {
	m.path.nondet = true
	if !m.prngOn {
		m.prngOn = true
		m.prngK = uint64(m.path.Choice(m.opts.prng, ""))
		m.prng = (m.prngK + 1) * 0x9e3779b97f4a7c15
	}
	m.prng ^= m.prng << 13
	m.prng ^= m.prng >> 7
	m.prng ^= m.prng << 17
	switch m.prngK {
	case 1:
		return ^uint64(0)
	case 2:
		m.nrand++
		if m.nrand%7 != 0 {
			return 0
		}
		return ^uint64(0)
	}
	return m.prng
}

func atomics(t map[string]intrinsicFn) {
	for _, T := range []struct {
		name string
		w    uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		w := T.w
		zero := func(v Value) Value {
			if v.K == KNone {
				return Value{K: KInt, W: w}
			}
			return v
		}
		ld := func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.atomicPoint(a[0], false)
			v := zero(*s)
			v.E = 0
			return v
		}
		st := func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.atomicPoint(a[0], true)
			m.store(s, a[1])
			return Value{}
		}
		add := func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.atomicPoint(a[0], true)
			old := zero(*s)
			n := mkTerm(m.ts.Bin(OAdd, m.intTerm(old), m.intTerm(a[1])))
			m.store(s, n)
			return n
		}
		swap := func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.atomicPoint(a[0], true)
			old := zero(*s)
			old.E = 0
			m.store(s, a[1])
			return old
		}
		cas := func(m *Machine, fi *fnInfo, a []Value) Value {
			s := m.atomicPoint(a[0], true)
			old := zero(*s)
			if m.path.Branch(m.ts.Eq(m.intTerm(old), m.intTerm(a[1]))) {
				m.store(s, a[2])
				return mkBool(true)
			}
			return mkBool(false)
		}
		for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			t[p+"Load"+T.name], t[p+"Store"+T.name], t[p+"Add"+T.name], t[p+"Swap"+T.name], t[p+"CompareAndSwap"+T.name] = ld, st, add, swap, cas
		}
	}
	ptr := func(v Value) Value {
		if v.K == KNone {
			return Value{K: KPtr}
		}
		v.E = 0
		return v
	}
	t["sync/atomic.LoadPointer"] = func(m *Machine, fi *fnInfo, a []Value) Value { return ptr(*m.atomicPoint(a[0], false)) }
	t["sync/atomic.StorePointer"] = func(m *Machine, fi *fnInfo, a []Value) Value {
		m.store(m.atomicPoint(a[0], true), a[1])
		return Value{}
	}
	t["sync/atomic.SwapPointer"] = func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.atomicPoint(a[0], true)
		old := ptr(*s)
		m.store(s, a[1])
		return old
	}
	t["sync/atomic.CompareAndSwapPointer"] = func(m *Machine, fi *fnInfo, a []Value) Value {
		s := m.atomicPoint(a[0], true)
		if m.ptrEq(ptr(*s), a[1]) {
			m.store(s, a[2])
			return mkBool(true)
		}
		return mkBool(false)
	}
}

func floatBits(m *Machine, v Value) Value {
	if v.P != nil {
		return mkTerm(v.P.(*Term))
	}
	return mkInt(v.N, v.W)
}

func math1(f func(float64) float64) intrinsicFn {
	return func(m *Machine, fi *fnInfo, a []Value) Value {
		m.needConc(a[0], "math function")
		return Value{K: KFloat, W: 64, N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
	}
}

func bits1(f func(uint64) int) intrinsicFn {
	return func(m *Machine, fi *fnInfo, a []Value) Value {
		return mkInt(uint64(f(m.concInt(a[0]))), 64)
	}
}

func (m *Machine) wg(v Value) *wgState {
	a := m.addrOf(v)
	s := m.wgs[a]
	if s == nil {
		s = &wgState{id: m.newID()}
		m.wgs[a] = s
	}
	return s
}

func (m *Machine) wgAdd(v Value, d int64) {
	s := m.wg(v)
	m.point(s, true)
	s.n += d
	if s.n < 0 {
		m.throw2("sync: negative WaitGroup counter")
	}
	if m.race != nil {
		s.vc.join(m.cur.vc)
		m.cur.vc.inc(m.cur.id)
	}
}

// interp runs the source of a function that has an intrinsic fast path.
func (m *Machine) interp(fi *fnInfo, args []Value) Value {
	k := "src!" + fi.name
	f, ok := m.misc[k].(*fnInfo)
	if !ok {
		f = &fnInfo{fn: fi.fn, recover: -1, name: fi.name}
		m.misc[k] = f
	}
	return m.callInfo(f, args, nil)
}

// snapshot copies a harness-observed value deeply enough to be rendered at the end of the path.
func (m *Machine) snapshot(v Value) Value {
	v = m.iface(v)
	if v.K == KIface && v.P != nil {
		i := v.P.(*Iface)
		return Value{K: KIface, P: &Iface{i.t, m.snapshot(i.v)}}
	}
	if v.K == KSlice && v.P != nil {
		f := append([]Value(nil), m.cells(v)...)
		for i := range f {
			f[i] = m.snapshot(f[i])
		}
		return Value{K: KSlice, P: &SliceV{f: f}}
	}
	if v.K == KString {
		return m.forceStr(v)
	}
	return copyVal(v)
}

func (m *Machine) cellTerms(v Value) []*Term {
	f := m.cells(v)
	r := make([]*Term, len(f))
	for i := range f {
		c := f[i]
		if c.P != nil {
			r[i] = c.P.(*Term)
		} else {
			r[i] = m.ts.small[byte(c.N)]
		}
	}
	return r
}

func (m *Machine) indexByte(b []*Term, c Value) Value {
	ct := m.intTerm(c)
	for i, t := range b {
		if m.path.Branch(m.ts.Eq(t, ct)) {
			return mkInt(uint64(i), 64)
		}
	}
	return mkInt(^uint64(0), 64)
}

func (m *Machine) lastIndexByte(b []*Term, c Value) Value {
	ct := m.intTerm(c)
	for i := len(b) - 1; i >= 0; i-- {
		if m.path.Branch(m.ts.Eq(b[i], ct)) {
			return mkInt(uint64(i), 64)
		}
	}
	return mkInt(^uint64(0), 64)
}

func (m *Machine) countByte(b []*Term, c Value) Value {
	ct := m.intTerm(c)
	r := m.ts.Const(0, 64)
	for _, t := range b {
		r = m.ts.Bin(OAdd, r, m.ts.Ite(m.ts.Eq(t, ct), m.ts.Const(1, 64), m.ts.Const(0, 64)))
	}
	return mkTerm(r)
}

func (m *Machine) compare3(a, b Value) Value {
	lt, eq := m.strLess(a, b, false), m.strEq(a, b)
	return mkTerm(m.ts.Ite(lt, m.ts.Const(^uint64(0), 64), m.ts.Ite(eq, m.ts.Const(0, 64), m.ts.Const(1, 64))))
}

func (m *Machine) indexSub(b, sub []*Term) Value {
	for i := 0; i+len(sub) <= len(b); i++ {
		c := m.ts.tt
		for j := range sub {
			c = m.ts.And(c, m.ts.Eq(b[i+j], sub[j]))
		}
		if m.path.Branch(c) {
			return mkInt(uint64(i), 64)
		}
	}
	return mkInt(^uint64(0), 64)
}

func (m *Machine) allASCII(s Value) bool {
	c := m.ts.tt
	for _, t := range m.strTerms(s) {
		c = m.ts.And(c, m.ts.Cmp(BUlt, t, m.ts.Const(0x80, 8)))
	}
	return m.path.Branch(c)
}

func (m *Machine) asciiMap(s Value, lo, hi byte, add uint64) Value {
	b := m.strTerms(s)
	r := make([]*Term, len(b))
	for i, t := range b {
		in := m.ts.And(m.ts.Cmp(BUle, m.ts.Const(uint64(lo), 8), t), m.ts.Cmp(BUle, t, m.ts.Const(uint64(hi), 8)))
		r[i] = m.ts.Ite(in, m.ts.Bin(OAdd, t, m.ts.Const(add, 8)), t)
	}
	return m.termsToStr(r)
}

func (m *Machine) caseMap(fi *fnInfo, s Value, lo, hi byte, add uint64, real func(string) string) Value {
	s = m.forceStr(s)
	if c, ok := s.P.(string); ok {
		return mkStr(real(c))
	}
	if m.allASCII(s) {
		return m.asciiMap(s, lo, hi, add)
	}
	return m.interp(fi, []Value{s})
}

func (m *Machine) formatInt(v Value) Value {
	if v.P == nil {
		return mkStr(strconv.FormatInt(sx(v.N, v.W), 10))
	}
	t := v.P.(*Term)
	if t.w < 64 {
		t = m.ts.Sext(t, 64)
	}
	return Value{K: KString, P: &LazyStr{parts: []Value{{K: KInt, W: 64, P: t}}}}
}

// parsedInt recognises text produced by formatInt, or parses concrete text.
func (m *Machine) parsedInt(s Value) (Value, bool) {
	if l, ok := s.P.(*LazyStr); ok && l.forced == nil && len(l.parts) == 1 {
		return l.parts[0], true
	}
	if l, ok := s.P.(*LazyStr); ok && l.forced == nil {
		return Value{}, false
	}
	s = m.forceStr(s)
	if c, ok := s.P.(string); ok {
		if v, err := strconv.ParseInt(c, 10, 64); err == nil {
			return mkInt(uint64(v), 64), true
		}
		return Value{}, false
	}
	if t, ok := m.parseDigits(m.strTerms(s)); ok {
		return mkTerm(t), true
	}
	return Value{}, false
}

func (m *Machine) appendBytes(a Value, add []Value) Value {
	f := m.cells(a)
	if len(add) == 0 {
		return a
	}
	n := len(f) + len(add)
	if n <= cap(f) {
		g := f[:n]
		for i := range add {
			m.store(&g[len(f)+i], add[i])
		}
		return Value{K: KSlice, P: &SliceV{f: g}}
	}
	g := make([]Value, n, growCap(cap(f), n, 1))
	copy(g, f)
	copy(g[len(f):], add)
	return Value{K: KSlice, P: &SliceV{f: g}}
}

func (m *Machine) errorsIs(err, target Value, depth int) bool {
	err, target = m.iface(err), m.iface(target)
	if err.P == nil || target.P == nil {
		return err.P == nil && target.P == nil
	}
	if depth > 20 {
		panic(unsupported{"deep error chain"})
	}
	for {
		e := err.P.(*Iface)
		tg := target.P.(*Iface)
		if e.t == tg.t && types.Comparable(tg.t) && m.path.Branch(m.equal(err, target, anyType)) {
			return true
		}
		if f := m.L.methodByName(e.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if m.cond(m.call(f, []Value{e.v, target}, nil)) {
				return true
			}
		}
		f := m.L.methodByName(e.t, "Unwrap")
		if f == nil || f.Signature.Results().Len() != 1 {
			return false
		}
		r := m.call(f, []Value{e.v}, nil)
		if r.K == KSlice {
			for _, c := range m.cells(r) {
				if m.errorsIs(c, target, depth+1) {
					return true
				}
			}
			return false
		}
		r = m.iface(r)
		if r.P == nil {
			return false
		}
		err = r
	}
}

func (m *Machine) newHash() Value {
	p := m.L.pkgs["hash/fnv"]
	t := m.L.canonical(types.NewPointer(p.Type("sum64a").Type()))
	s := &Value{K: KInt, W: 64}
	m.hashes[s] = &hashState{str: mkStr("")}
	return Value{K: KIface, P: &Iface{t, Value{K: KPtr, P: s}}}
}

func (m *Machine) hashOf(v Value) *hashState {
	h := m.hashes[m.addrOf(v)]
	if h == nil {
		panic(unsupported{"hash state created outside the model"})
	}
	return h
}

// hashSum: strings of up to seven bytes hash injectively to length|bytes; longer concrete strings use the real function;
// longer symbolic or lazily formatted strings get an opaque value that is equal to another hash exactly when the strings
// are equal (see hashEq). Genuine collisions are only seen between longer concrete strings.
func (m *Machine) hashSum(h *hashState) Value {
	s := h.str
	if l, ok := s.P.(*LazyStr); ok && l.forced != nil {
		s = *l.forced
	}
	if _, ok := s.P.(*LazyStr); ok {
		return m.opaqueHash(s)
	}
	b := m.strTerms(s)
	if len(b) <= 7 {
		r := m.ts.Const(uint64(len(b))<<56, 64)
		for i, t := range b {
			r = m.ts.Bin(OOr, r, m.ts.Bin(OShl, m.ts.Zext(t, 64), m.ts.Const(uint64(8*i), 64)))
		}
		if r.isConst() {
			m.hashConst[r.k] = s
		} else {
			m.hashStr[r] = s
		}
		return mkTerm(r)
	}
	if c, ok := s.P.(string); ok {
		f := fnv.New64a()
		f.Write([]byte(c))
		m.hashConst[f.Sum64()] = s
		return mkInt(f.Sum64(), 64)
	}
	return m.opaqueHash(s)
}

func (m *Machine) opaqueHash(s Value) Value {
	for t, o := range m.hashStr {
		if o.P == s.P {
			return mkTerm(t)
		}
	}
	m.path.nfresh++
	t := m.path.NewVar(fmt.Sprintf("hash!%d", m.path.nfresh), 64)
	m.hashStr[t] = s
	m.hashOpaque = true
	return mkTerm(t)
}

// hashEq decides the equality of two hash values through the strings they came from when one of them is opaque.
func (m *Machine) hashEq(a, b Value) (*Term, bool) {
	var s [2]Value
	opaque := false
	for i, v := range []Value{a, b} {
		ok := false
		if v.P == nil {
			s[i], ok = m.hashConst[v.N]
		} else {
			t := v.P.(*Term)
			s[i], ok = m.hashStr[t]
			opaque = opaque || ok && t.op == OVar
		}
		if !ok {
			return nil, false
		}
	}
	if !opaque {
		return nil, false
	}
	// with a common end the hashes are equal exactly if those of what is before it are
	x, y := m.strTerms(s[0]), m.strTerms(s[1])
	if n := len(x); n == len(y) {
		for n > 0 && x[n-1] == y[n-1] {
			n--
		}
		p, q := m.termsToStr(x[:n]), m.termsToStr(y[:n])
		if c, ok := p.P.(string); ok {
			if d, ok := q.P.(string); ok {
				return m.ts.Bool(fnv64a(c) == fnv64a(d)), true
			}
		}
	}
	return m.strEq(s[0], s[1]), true
}

func fnv64a(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

var _ = ssa.NaiveForm
