package main

// Workers: each owns a term table, a solver process and an initialised heap; they share the work queue of a harness.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type harnessRun struct {
	h    *Harness
	fn   *ssa.Function
	tier int
	ex   *Explorer
}

type Worker struct {
	id     int
	ex     *Explorer
	solver *Solver
	m      *Machine
	run    *harnessRun
	funcs  map[string]bool
	L      *Loaded
	base   Solver // statistics accumulated before the current harness
}

func newPath(w *Worker, it workItem) *Path {
	return &Path{w: w, ts: w.m.ts, prefix: it.prefix, model: it.model, lits: map[*Term]bool{}, varSet: map[*Term]bool{},
		names: map[string]int{}, reached: map[string]bool{}, digits: map[*Term]digitRec{}, concVal: map[*Term]uint64{}, rng: map[*Term]bnd{}, bmemo: map[*Term]bnd{}}
}

func NewWorker(id int, L *Loaded) *Worker {
	w := &Worker{id: id, L: L, funcs: map[string]bool{}, run: &harnessRun{}}
	m := &Machine{w: w, L: L, prog: L.prog, globals: map[*ssa.Global]*Value{}, fns: map[*ssa.Function]*fnInfo{},
		std: map[*Value]string{}, canon: map[types.Type]types.Type{}, methods: map[methodKey]*ssa.Function{}, implMemo: map[implKey]bool{}, epoch: 1}
	m.ts = NewTerms()
	m.misc = map[string]any{}
	w.m = m
	m.resetPath()
	w.ex = NewExplorer(1 << 60)
	problems := m.initAll()
	if id == 0 && os.Getenv("GOSYM_DEBUG") != "" {
		for _, p := range problems {
			fmt.Fprintln(os.Stderr, "init:", p)
		}
	}
	return w
}

func (m *Machine) resetPath() {
	m.mutexes = map[*Value]*mutexState{}
	m.bufs = map[*Value]*Value{}
	m.wgs = map[*Value]*wgState{}
	m.syncMaps = map[*Value]*Map{}
	m.hashes = map[*Value]*hashState{}
	m.hashStr, m.hashOpaque = map[*Term]Value{}, false
	if m.hashConst == nil {
		m.hashConst = map[uint64]Value{}
	}
	m.gotimers = map[*Value]*Timer{}
	m.atomicVals = map[*Value]Value{}
	m.files = map[*Value]*openFile{}
	m.net = newNet()
	m.fs = map[string]*fileData{}
	m.dirs = map[string]bool{}
	m.nuuid = 0
	m.nrand = 0
	m.prngOn = false
	m.steps = 0
}

func (w *Worker) noteFunc(name string) { w.funcs[name] = true }

func (w *Worker) begin(r *harnessRun) {
	w.run = r
	w.ex = r.ex
	m := w.m
	m.opts = r.h.opts(r.tier)
	m.maxSteps = m.opts.maxSteps
	w.funcs = map[string]bool{}
	for _, fi := range m.fns {
		fi.counted = false
	}
	w.freshTerms()
	w.base = Solver{}
}

func (w *Worker) freshTerms() {
	w.m.ts = NewTerms()
	w.m.misc = map[string]any{}
	to := 3000 // then the other solvers are asked
	if s := os.Getenv("GOSYM_TIMEOUT_MS"); s != "" {
		to, _ = strconv.Atoi(s)
	}
	if w.solver != nil {
		w.accumulate()
		w.solver.Close()
	}
	w.solver = NewSolver(solverBin, to, uint32(w.id))
}

func (w *Worker) accumulate() {
	b, s := &w.base, w.solver
	b.Queries += s.Queries
	b.NSat += s.NSat
	b.NUnsat += s.NUnsat
	b.NUnknown += s.NUnknown
	b.Time += s.Time
	if s.MaxQuery > b.MaxQuery {
		b.MaxQuery = s.MaxQuery
	}
	s.Queries, s.NSat, s.NUnsat, s.NUnknown, s.Time, s.MaxQuery = 0, 0, 0, 0, 0, 0
}

var solverBin = "z3-new"

// loop explores until the queue is drained.
func (w *Worker) loop() {
	for {
		it, ok := w.ex.pop()
		if !ok {
			return
		}
		w.one(it)
		w.ex.done()
		if len(w.m.ts.tab) > 3000000 {
			w.freshTerms()
		}
	}
}

func (w *Worker) one(it workItem) {
	m := w.m
	m.epoch++
	m.resetPath()
	p := newPath(w, it)
	m.path = p
	p.ts.ver++
	if m.opts.race {
		m.wantRace = true
	} else {
		m.wantRace = false
	}
	err := m.runMain(func() { m.call(w.run.fn, nil, nil) })
	e := w.ex
	kind := "done"
	msg := ""
	switch r := err.(type) {
	case nil:
	case *targetPanic:
		if r.exit {
			break
		}
		m.reportPanic(r)
		kind = "stop"
	case pathAbort:
		switch r.kind {
		case abInfeasible:
			kind = "infeasible"
		case abStop:
			kind = "stop"
		case abBudget:
			kind = "budget"
		default:
			kind, msg = "inconclusive", r.msg
		}
	case unsupported:
		kind, msg = "inconclusive", r.msg
	default:
		kind, msg = "inconclusive", fmt.Sprintf("internal: %v", r)
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "internal error: %v\n%s\n", r, m.lastStack)
		}
	}
	if kind == "inconclusive" {
		if m.inconclPos != "" {
			msg += " at " + m.inconclPos
		}
		e.noteInconclusive(msg)
	}
	var sm *sample
	if kind == "done" && len(p.inconcl) == 0 && e.wantSample() {
		sm = p.sample()
	}
	m.rollback()
	e.mu.Lock()
	switch kind {
	case "done", "stop":
		e.Paths++
	case "infeasible":
		e.Infeasible++
	case "budget":
		e.Incomplete = true
		e.Pending++
	default:
		e.Aborted++
	}
	e.Steps += m.steps
	e.Asserts += p.asserts
	if len(p.dec) > e.MaxDepth {
		e.MaxDepth = len(p.dec)
	}
	if kind == "done" || kind == "stop" {
		for k := range p.reached {
			e.Reached[k]++
		}
	}
	if sm != nil {
		e.addSample(*sm)
	}
	e.mu.Unlock()
}

func (e *Explorer) wantSample() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.sampleSeen++
	return e.sampleSeen%e.sampleEvery == 0
}

const maxSamples = 48

// addSample keeps an evenly thinned set (called with the lock held).
func (e *Explorer) addSample(s sample) {
	e.Samples = append(e.Samples, s)
	if len(e.Samples) >= 2*maxSamples {
		k := e.Samples[:0:0]
		for i := 0; i < len(e.Samples); i += 2 {
			k = append(k, e.Samples[i])
		}
		e.Samples = k
		e.sampleEvery *= 2
	}
}

func (p *Path) sample() *sample {
	in, order := p.assignment(p.model)
	s := &sample{Inputs: in, Order: order, Nondet: p.nondet || len(p.schedSeq) > 0}
	for _, o := range p.observes {
		var vs []string
		for _, v := range o.vals {
			vs = append(vs, p.render(v))
		}
		s.Obs = append(s.Obs, o.tag+"="+strings.Join(vs, ","))
	}
	return s
}

// render evaluates an observed value under the path's model; sym.Observe renders native values identically.
func (p *Path) render(v Value) string {
	m := p.w.m
	switch v.K {
	case KNone:
		return "nil"
	case KIface:
		v = m.iface(v)
		if v.P == nil {
			return "nil"
		}
		i := v.P.(*Iface)
		if i.v.K == KInt {
			w, signed := intWidth(i.t.Underlying().(*types.Basic))
			n := i.v.N
			if i.v.P != nil {
				n = p.eval(i.v.P.(*Term))
			}
			if signed {
				return strconv.FormatInt(sx(n, w), 10)
			}
			return strconv.FormatUint(n, 10)
		}
		if i.v.K == KPtr || i.v.K == KAgg {
			if i.v.K == KPtr && i.v.P == nil {
				return "nil"
			}
			return "?"
		}
		return p.render(i.v)
	case KInt:
		n := v.N
		if v.P != nil {
			n = p.eval(v.P.(*Term))
		}
		return strconv.FormatInt(sx(n, v.W), 10)
	case KBool:
		n := v.N
		if v.P != nil {
			n = p.eval(v.P.(*Term))
		}
		return strconv.FormatBool(n != 0)
	case KString:
		b := m.strTerms(v)
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(p.eval(t))
		}
		return strconv.Quote(string(bs))
	case KSlice:
		var out []string
		for _, c := range m.cells(v) {
			if c.K == KInt && c.W == 8 {
				n := c.N
				if c.P != nil {
					n = p.eval(c.P.(*Term))
				}
				out = append(out, strconv.FormatUint(n, 10))
				continue
			}
			out = append(out, p.render(c))
		}
		return "[" + strings.Join(out, " ") + "]"
	}
	return "?"
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = debug.Stack
