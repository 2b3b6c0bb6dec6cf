package main

// Path exploration: deterministic re-execution along decision vectors, shared work queue.

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type decKind uint8

const (
	dBranch decKind = iota
	dConc
	dChoice
	dSched
	dAssume
	dAssert
)

type decision struct {
	kind   decKind
	b      bool
	forced bool
	val    uint64
}

type workItem struct {
	prefix []decision
	model  Model
}

// bucket identifies the first input choices of the item.
func (it *workItem) bucket() uint64 {
	h, n := uint64(14695981039346656037), 0
	for i := range it.prefix {
		if d := &it.prefix[i]; d.kind == dChoice {
			h = (h ^ d.val + 1) * 1099511628211
			if n++; n == 5 {
				break
			}
		}
	}
	return h
}

// input describes one harness input created on a path.
type input struct {
	Name string
	Kind string // int64, byte, bool, string, choice
	Vars []*Term
	Val  uint64 // choice
}

// Path is the state of one symbolic execution.
type Path struct {
	w        *Worker
	ts       *Terms
	prefix   []decision
	pos      int
	dec      []decision
	pc       []*Term
	lits     map[*Term]bool
	model    Model
	vars     []*Term
	varSet   map[*Term]bool
	inputs   []input
	names    map[string]int
	steps    int64
	observes []obs
	reached  map[string]bool
	digits   map[*Term]digitRec
	concVal  map[*Term]uint64
	nfresh   int
	nchoice  int
	rng      map[*Term]bnd
	bmemo    map[*Term]bnd
	inconcl  []string
	asserts  int64
	trace    []string // schedule trace
	schedSeq []string // named schedule events, for replay
	nondet   bool     // the path drew random values or map orders the native run cannot be forced to follow
}

type digitRec struct {
	terms []*Term
	neg   bool
	v     *Term
}

type obs struct {
	tag  string
	vals []Value
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abUnknown
	abSteps
	abStop   // path complete early (violation found / harness stop)
	abBudget // exploration budget ended
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func (p *Path) setModel(m Model) {
	p.model = m
	p.ts.ver++
}

func (p *Path) eval(t *Term) uint64 { return p.ts.Eval(t, p.model) }

func (p *Path) inPrefix() bool { return p.pos < len(p.prefix) }

func (p *Path) next(k decKind) decision {
	d := p.prefix[p.pos]
	if d.kind != k {
		panic(pathAbort{abUnsupported, fmt.Sprintf("non-deterministic re-execution: expected decision kind %d, found %d at %d", k, d.kind, p.pos)})
	}
	p.pos++
	p.dec = append(p.dec, d)
	if p.pos == len(p.prefix) {
		p.ts.ver++
	}
	return d
}

func (p *Path) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	p.pc = append(p.pc, t)
	p.lit(t, true)
}

func (p *Path) lit(t *Term, v bool) {
	if v && t.op == BAnd {
		p.lit(t.a, true)
		p.lit(t.b, true)
	}
	if !v && t.op == BOr {
		p.lit(t.a, false)
		p.lit(t.b, false)
	}
	p.lits[t] = v
	p.lits[p.ts.Not(t)] = !v
	p.narrow(t, v)
}

func (p *Path) push(d decision, m Model) {
	pre := make([]decision, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = d
	if profForks {
		p.w.ex.noteFork(p.w.m.forkSite())
	}
	p.w.ex.push(workItem{pre, m})
}

func (p *Path) query(extra *Term) (Sat, Model) {
	return p.w.solver.Check(p.pc, extra, p.vars)
}

// Branch decides a symbolic condition, forking when both sides are feasible.
func (p *Path) Branch(c *Term) bool {
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	if v := p.tri(c); v >= 0 {
		return v == 1
	}
	ts := p.ts
	if p.inPrefix() {
		d := p.next(dBranch)
		t := c
		if !d.b {
			t = ts.Not(c)
		}
		if d.forced {
			p.lit(t, true)
		} else {
			p.addPC(t)
		}
		return d.b
	}
	p.w.ex.checkBudget()
	side := p.eval(c) != 0
	t, other := c, ts.Not(c)
	if !side {
		t, other = other, c
	}
	r, m := p.query(other)
	switch r {
	case Unsat:
		p.dec = append(p.dec, decision{kind: dBranch, b: side, forced: true})
		p.lit(t, true)
	case IsSat:
		p.push(decision{kind: dBranch, b: !side}, m)
		p.dec = append(p.dec, decision{kind: dBranch, b: side})
		p.addPC(t)
	default:
		p.w.ex.noteInconclusive("solver unknown on a branch: " + other.Pretty(4))
		p.dec = append(p.dec, decision{kind: dBranch, b: side})
		p.addPC(t)
	}
	return side
}

// Assume restricts the path.
func (p *Path) Assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathAbort{abInfeasible, ""})
	}
	if v := p.tri(c); v >= 0 {
		if v == 0 {
			panic(pathAbort{abInfeasible, ""})
		}
		return
	}
	if p.inPrefix() {
		p.addPC(c)
		return
	}
	if p.eval(c) == 0 {
		r, m := p.query(c)
		switch r {
		case Unsat:
			panic(pathAbort{abInfeasible, ""})
		case IsSat:
			p.setModel(m)
		default:
			panic(pathAbort{abUnknown, "solver unknown on an assumption"})
		}
	}
	p.addPC(c)
}

// Concretize forks over every feasible value of t.
func (p *Path) Concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if v, ok := p.concVal[t]; ok {
		return v
	}
	if b := p.bounds(t); b.lo == b.hi {
		p.concVal[t] = b.lo
		return b.lo
	}
	ts := p.ts
	for {
		if p.inPrefix() {
			d := p.next(dConc)
			eq := ts.Eq(t, ts.Const(d.val, t.w))
			if d.b {
				p.concVal[t] = d.val
				if !d.forced {
					p.addPC(eq)
				} else {
					p.lit(eq, true)
				}
				return d.val
			}
			p.addPC(ts.Not(eq))
			continue
		}
		p.w.ex.checkBudget()
		v := p.eval(t)
		eq := ts.Eq(t, ts.Const(v, t.w))
		p.concVal[t] = v
		r, m := p.query(ts.Not(eq))
		forced := false
		switch r {
		case Unsat:
			forced = true
		case IsSat:
			p.push(decision{kind: dConc, val: v, b: false}, m)
		default:
			p.w.ex.noteInconclusive("solver unknown while enumerating a concretised value")
		}
		p.dec = append(p.dec, decision{kind: dConc, val: v, b: true, forced: forced})
		if forced {
			p.lit(eq, true)
		} else {
			p.addPC(eq)
		}
		return v
	}
}

// Choice forks over 0..n-1.
func (p *Path) Choice(n int, name string) int { return p.choice(n, dChoice, name) }

// choice makes a symbolic variable ranging over 0..n-1 (a fresh one, so every value is feasible) and explores the values.
func (p *Path) choice(n int, k decKind, name string) int {
	if n <= 1 {
		return 0
	}
	if name == "" {
		p.nchoice++
		name = fmt.Sprintf("sched!%d", p.nchoice)
	}
	v := p.NewVar(name, 8)
	if p.inPrefix() {
		d := p.next(k)
		p.addPC(p.ts.Eq(v, p.ts.Const(d.val, 8)))
		return int(d.val)
	}
	p.w.ex.checkBudget()
	for i := n - 1; i >= 1; i-- {
		m := make(Model, len(p.model)+1)
		for x, y := range p.model {
			m[x] = y
		}
		m[name] = uint64(i)
		p.push(decision{kind: k, val: uint64(i)}, m)
	}
	if p.model[name] != 0 {
		m := make(Model, len(p.model))
		for x, y := range p.model {
			if x != name {
				m[x] = y
			}
		}
		p.setModel(m)
	}
	p.dec = append(p.dec, decision{kind: k, val: 0})
	p.addPC(p.ts.Eq(v, p.ts.Const(0, 8)))
	return 0
}

// NewVar registers a path variable.
func (p *Path) NewVar(name string, w uint8) *Term {
	t := p.ts.Var(name, w)
	if !p.varSet[t] {
		p.varSet[t] = true
		p.vars = append(p.vars, t)
	}
	return t
}

func (p *Path) uniq(name string) string {
	n := p.names[name]
	p.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// Assert checks c on every input that reaches this point.
func (p *Path) Assert(c *Term, msg string) {
	if !p.inPrefix() {
		p.asserts++
	}
	if p.tri(c) == 1 {
		return
	}
	if p.inPrefix() { // already decided on the parent path
		if d := p.next(dAssert); d.forced {
			p.lit(c, true)
		} else {
			p.addPC(c)
		}
		return
	}
	if c.isFalse() || p.eval(c) == 0 {
		p.violation("assert", msg, p.model)
		if c.isFalse() {
			panic(pathAbort{abStop, ""})
		}
		// go on with the inputs that satisfy it, if any
		r, m := p.query(c)
		if r != IsSat {
			panic(pathAbort{abStop, ""})
		}
		p.setModel(m)
		p.dec = append(p.dec, decision{kind: dAssert})
		p.addPC(c)
		return
	}
	r, m := p.query(p.ts.Not(c))
	switch r {
	case Unsat:
		p.dec = append(p.dec, decision{kind: dAssert, forced: true})
		p.lit(c, true)
		return
	case IsSat:
		p.violation("assert", msg, m)
	default:
		p.w.ex.noteInconclusive("solver unknown on an assertion: " + msg)
	}
	p.dec = append(p.dec, decision{kind: dAssert})
	p.addPC(c)
}

// Violation is a candidate counterexample (before native replay).
type Violation struct {
	Kind   string            `json:"kind"`
	Msg    string            `json:"message"`
	Stack  []string          `json:"stack,omitempty"`
	Inputs map[string]any    `json:"inputs"`
	Obs    []string          `json:"observed,omitempty"`
	Sched  []string          `json:"schedule,omitempty"`
	Names  map[string]string `json:"-"`
	Order  []string          `json:"input_order"`
	Nondet bool              `json:"nondet"`
	Late   bool              `json:"late,omitempty"` // found after so much virtual time that a real run is still waiting
}

func (p *Path) assignment(m Model) (map[string]any, []string) {
	old := p.model
	p.setModel(m)
	defer p.setModel(old)
	out := map[string]any{}
	var order []string
	for _, in := range p.inputs {
		order = append(order, in.Name)
		switch in.Kind {
		case "choice":
			out[in.Name] = in.Val
		case "string":
			b := make([]int, len(in.Vars))
			for i, v := range in.Vars {
				b[i] = int(p.eval(v))
			}
			out[in.Name] = b
		default:
			out[in.Name] = fmt.Sprintf("%d", p.eval(in.Vars[0]))
		}
	}
	return out, order
}

func (p *Path) violation(kind, msg string, m Model) {
	in, order := p.assignment(m)
	v := &Violation{Kind: kind, Msg: msg, Inputs: in, Order: order, Sched: append([]string(nil), p.schedSeq...), Nondet: p.nondet, Late: p.w.m.now > 60e9}
	if p.w.m.cur != nil {
		v.Stack = p.w.m.cur.stackTrace()
	}
	p.w.ex.addViolation(v)
}

// Explorer drives the workers for one harness.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	active   int
	stopped  bool
	deadline time.Time
	maxPaths int64

	Paths, Infeasible, Aborted int64
	Steps                      int64
	Inconclusive               map[string]int
	Violations                 []*Violation
	vioSites                   map[string]int
	Reached                    map[string]int
	Samples                    []sample
	sampleEvery, sampleSeen    int64
	Asserts                    int64
	Incomplete                 bool
	Pending                    int
	Funcs                      map[string]bool
	MaxDepth                   int
	stopOnViolation            bool
	forks                      map[string]int
	started                    time.Time
	npop                       int64
	served                     map[uint64]int
	isKnown                    func(*Violation) bool
	rng                        uint64
}

type sample struct {
	Inputs map[string]any `json:"inputs"`
	Order  []string       `json:"order"`
	Obs    []string       `json:"obs"`
	Nondet bool           `json:"nondet"`
}

func NewExplorer(timeout time.Duration) *Explorer {
	e := &Explorer{deadline: time.Now().Add(timeout), started: time.Now(), rng: seedEnv(), Inconclusive: map[string]int{}, vioSites: map[string]int{},
		Reached: map[string]int{}, Funcs: map[string]bool{}, sampleEvery: 1, served: map[uint64]int{}}
	e.cond = sync.NewCond(&e.mu)
	e.queue = []workItem{{nil, Model{}}}
	return e
}

func (e *Explorer) push(it workItem) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop() (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped || (len(e.queue) == 0 && e.active == 0) {
			e.cond.Broadcast()
			return workItem{}, false
		}
		if time.Now().After(e.deadline) {
			e.Incomplete = true
			e.Pending = len(e.queue)
			e.stopped = true
			e.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(e.queue); n > 0 {
			// depth first; a long exploration also samples the frontier so that a part of the time reaches every region
			if e.npop++; e.npop%2 == 0 && time.Since(e.started) > 4*time.Second {
				// prefer the combination of input choices that was served least
				best, least := -1, 0
				for k := 0; k < 16; k++ {
					e.rng = e.rng*6364136223846793005 + 1442695040888963407
					i := int((e.rng >> 33) % uint64(n))
					if c := e.served[e.queue[i].bucket()]; best < 0 || c < least {
						best, least = i, c
					}
				}
				e.queue[best], e.queue[n-1] = e.queue[n-1], e.queue[best]
			}
			it := e.queue[n-1]
			e.served[it.bucket()]++
			e.queue[n-1] = workItem{}
			e.queue = e.queue[:n-1]
			e.active++
			return it, true
		}
		e.cond.Wait()
	}
}

var profForks = os.Getenv("GOSYM_PROF") != ""

func (e *Explorer) noteFork(s string) {
	e.mu.Lock()
	if e.forks == nil {
		e.forks = map[string]int{}
	}
	e.forks[s]++
	e.mu.Unlock()
}

func (m *Machine) forkSite() string {
	if m.cur == nil || m.cur.top == nil {
		return "?"
	}
	s := m.cur.top.pos()
	for fr := m.cur.top; fr != nil; fr = fr.caller {
		if fr.info.inRepo {
			if fr != m.cur.top {
				s += " from " + fr.pos()
			}
			break
		}
	}
	return s
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) checkBudget() {
	if time.Now().After(e.deadline) {
		panic(pathAbort{abBudget, "time budget"})
	}
}

func (e *Explorer) noteInconclusive(msg string) {
	e.mu.Lock()
	if len(msg) > 300 {
		msg = msg[:300]
	}
	e.Inconclusive[msg]++
	e.mu.Unlock()
}

func (e *Explorer) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	site := v.Kind + "|" + v.Msg
	if v.Kind == "panic" && len(v.Stack) > 0 {
		site += "|" + v.Stack[0]
	}
	e.vioSites[site]++
	if len(e.Violations) == 0 && (e.isKnown == nil || !e.isKnown(v)) {
		// enough to report: look only a little longer
		if d := time.Now().Add(10 * time.Second); d.Before(e.deadline) {
			e.deadline = d
		}
	}
	if e.vioSites[site] <= 12 {
		e.Violations = append(e.Violations, v)
	}
	if e.stopOnViolation && len(e.Violations) >= 40 {
		e.stopped = true
		e.cond.Broadcast()
	}
}

func (e *Explorer) summary() string {
	var inc []string
	for k, n := range e.Inconclusive {
		inc = append(inc, fmt.Sprintf("%dx %s", n, k))
	}
	sort.Strings(inc)
	return fmt.Sprintf("paths=%d infeasible=%d aborted=%d steps=%d asserts=%d violations=%d incomplete=%v inconclusive=[%s]",
		e.Paths, e.Infeasible, e.Aborted, e.Steps, e.Asserts, len(e.Violations), e.Incomplete, strings.Join(inc, "; "))
}

func seedEnv() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return n*2654435761 + 12345
}
