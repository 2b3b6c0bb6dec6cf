package main

// Library operations that work by reflection or inside the runtime and that ordinary code uses: sort.Slice, errors.As,
// condition variables, tickers. Most of it is Go in harness/pkg/models; what is here is what Go cannot express there.

import "go/types"

func (m *Machine) timeNow() Value {
	p := m.L.pkgs["time"]
	if p == nil {
		panic(unsupported{"package time is not loaded"})
	}
	v := zeroOf(p.Type("Time").Type())
	f := v.P.(*Agg).f
	now := m.now + 1500000000*1e9
	f[0] = mkInt(uint64(now%1e9), 64)
	f[1] = mkInt(uint64(now/1e9+62135596800), 64)
	return v
}

// anySlice takes a slice out of an interface value.
func (m *Machine) anySlice(v Value) ([]Value, types.Type) {
	v = m.iface(v)
	i, ok := v.P.(*Iface)
	if !ok || i == nil {
		m.throw2("reflect: call of Swapper on zero Value")
	}
	st, ok := i.t.Underlying().(*types.Slice)
	if !ok {
		m.throw2("reflect: call of Swapper on a value that is not a slice")
	}
	if i.v.P == nil {
		return nil, st.Elem()
	}
	return m.cells(i.v), st.Elem()
}

func stdIntrinsics() map[string]intrinsicFn {
	M := zzPkg + "/models."
	return map[string]intrinsicFn{
		M + "sliceLen": func(m *Machine, fi *fnInfo, a []Value) Value {
			f, _ := m.anySlice(a[0])
			return mkInt(uint64(len(f)), 64)
		},
		M + "sliceSwap": func(m *Machine, fi *fnInfo, a []Value) Value {
			f, et := m.anySlice(a[0])
			i, j := Value{K: KPtr, P: &f[m.concSigned(a[1])]}, Value{K: KPtr, P: &f[m.concSigned(a[2])]}
			x, y := m.loadPtr(i, et), m.loadPtr(j, et)
			m.storePtr(i, y)
			m.storePtr(j, x)
			return Value{}
		},
		M + "assignAs": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.iface(a[1])
			i, ok := t.P.(*Iface)
			if !ok || i == nil {
				m.throw2("errors: target cannot be nil")
			}
			pt, ok := i.t.Underlying().(*types.Pointer)
			if !ok || i.v.P == nil {
				m.throw2("errors: target must be a non-nil pointer")
			}
			e := m.iface(a[0])
			ei, ok := e.P.(*Iface)
			if !ok || ei == nil {
				return mkBool(false)
			}
			if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
				if !types.Implements(ei.t, it) {
					return mkBool(false)
				}
				m.storePtr(i.v, e)
				return mkBool(true)
			}
			if !types.Identical(ei.t, pt.Elem()) {
				return mkBool(false)
			}
			m.storePtr(i.v, ei.v)
			return mkBool(true)
		},
		// where a log message comes from is not modelled
		"runtime.Caller": func(m *Machine, fi *fnInfo, a []Value) Value {
			return mkTuple(mkInt(1, 64), mkStr("/src/vertex/pkg/caller.go"), mkInt(1, 64), mkBool(true))
		},
		"internal/strconv.float64bits":     func(m *Machine, fi *fnInfo, a []Value) Value { return floatBits(m, a[0]) },
		"internal/strconv.float64frombits": func(m *Machine, fi *fnInfo, a []Value) Value { return Value{K: KFloat, W: 64, N: a[0].N, P: a[0].P} },
		"internal/strconv.float32bits":     func(m *Machine, fi *fnInfo, a []Value) Value { return floatBits(m, a[0]) },
		"internal/strconv.float32frombits": func(m *Machine, fi *fnInfo, a []Value) Value { return Value{K: KFloat, W: 32, N: a[0].N, P: a[0].P} },
		"go.uber.org/zap.takeStacktrace":   func(m *Machine, fi *fnInfo, a []Value) Value { return mkStr("") },
		"time.runtimeNano":                 func(m *Machine, fi *fnInfo, a []Value) Value { return mkInt(uint64(m.now), 64) },
		"time.NewTicker": func(m *Machine, fi *fnInfo, a []Value) Value {
			d := m.concSigned(a[0])
			if d <= 0 {
				m.throw2("non-positive interval for NewTicker")
			}
			t := m.newTimer(d)
			t.ch = m.newChan(1)
			t.period = d
			st := fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			s := &Value{}
			*s = zeroOf(st)
			s.P.(*Agg).f[0] = Value{K: KChan, P: t.ch}
			m.gotimers[s] = t
			return Value{K: KPtr, P: s}
		},
		"(*time.Ticker).Stop": func(m *Machine, fi *fnInfo, a []Value) Value {
			t := m.gotimers[m.addrOf(a[0])]
			if t == nil {
				panic(unsupported{"stop of an unknown ticker"})
			}
			m.point("timer", true)
			t.active, t.period = false, 0
			t.ch.buf = nil
			return Value{}
		},
	}
}
