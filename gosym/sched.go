package main

// Goroutines, channels, locks, timers and the (deterministic or exploring) scheduler.

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	bufVC  []vclock
	vc     vclock
}

type mutexState struct {
	id      int
	writer  *G
	readers int
	vc, rvc vclock
}

type wgState struct {
	id int
	n  int64
	vc vclock
}

type Timer struct {
	id       int
	deadline int64
	ch       *Chan
	fn       func()
	slot     *Value
	active   bool
	g        *G    // sleeping goroutine
	period   int64 // of a ticker
}

type opKind uint8

const (
	opStart opKind = iota
	opSend
	opRecv
	opSelect
	opLock
	opRLock
	opWait
	opPoint // always enabled visible operation on obj
	opSleep
	opQuiesce
	opBlockForever
	opCond // waits for ready on obj
)

type selCase struct {
	send bool
	ch   *Chan
	v    Value
}

type pend struct {
	kind   opKind
	cases  []selCase
	hasDef bool
	mu     *mutexState
	wg     *wgState
	obj    any
	write  bool
	timer  *Timer
	ready  func() bool
	// results
	done bool
	sel  int
	rv   Value
	rok  bool
	pan  string
}

type G struct {
	id         int
	name       string
	top        *frame
	deferOwner *frame
	pend       *pend
	wake       chan struct{}
	gone       chan struct{}
	exited     bool
	vc         vclock
	nspawn     int
	panicked   bool
}

type Sched struct {
	gs       []*G
	timers   []*Timer
	now      int64
	nextID   int
	killed   bool
	doneCh   chan any // result of the path: nil or pathAbort / host panic
	sleep    []trans
	preempts int
	delays   int
	demoted  map[*G]int
	lastRun  *G
	live     int
	spawned  int
	fires    int
	race     *raceState
	npoints  int
}

type trans struct {
	g, partner *G
	ci, pi     int // case indexes
	def        bool
	timer      *Timer
}

func (t trans) same(o trans) bool {
	return t.g == o.g && t.partner == o.partner && t.ci == o.ci && t.pi == o.pi && t.def == o.def && t.timer == o.timer
}

type killedG struct{}

func (m *Machine) newID() int { m.nextID++; return m.nextID }

func (m *Machine) newChan(n int) *Chan { return &Chan{id: m.newID(), cap: n} }

// runMain executes fn as the main goroutine of a path on the calling host goroutine.
func (m *Machine) runMain(fn func()) (err any) {
	m.Sched = Sched{nextID: 1000000}
	g := &G{id: 0, name: "main", wake: make(chan struct{}, 1)}
	if m.initing {
		m.nextID = 0
	} else if m.wantRace {
		m.race = &raceState{cells: map[any]*accInfo{}, seen: map[string]bool{}}
		g.vc = vclock{0: 1}
	}
	m.inconclPos = ""
	m.gs = []*G{g}
	m.cur = g
	m.lastRun = g
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = r
				m.notePos(r)
			}
		}()
		fn()
	}()
	if _, ok := err.(killedG); ok {
		err = <-m.doneChan()
	}
	// unwind every other goroutine
	m.killed = true
	for _, o := range m.gs[1:] {
		if !o.exited {
			o.wake <- struct{}{}
		}
		<-o.gone
	}
	m.cur = nil
	return err
}

// notePos remembers where a path became inconclusive.
func (m *Machine) notePos(r any) {
	switch r.(type) {
	case *targetPanic, killedG:
		return
	case pathAbort, unsupported:
	default:
		m.lastStack = string(debug.Stack())
	}
	if m.cur != nil && m.cur.top != nil && m.inconclPos == "" {
		m.inconclPos = m.cur.top.pos()
		for fr := m.cur.top; fr != nil; fr = fr.caller {
			if fr.info.inRepo {
				if fr != m.cur.top {
					m.inconclPos += " from " + fr.pos()
				}
				break
			}
		}
	}
}

func (m *Machine) doneChan() chan any {
	if m.doneCh == nil {
		m.doneCh = make(chan any, 1)
	}
	return m.doneCh
}

// spawn creates a goroutine.
func (m *Machine) spawn(fn *ssa.Function, args, env []Value) {
	if m.initing {
		// goroutines started by package initialisers are not modelled
		return
	}
	par := m.cur
	par.nspawn++
	live := m.gs
	if len(live) > 64 {
		live = nil
		for i, o := range m.gs {
			if !o.exited || i == 0 {
				live = append(live, o)
			} else if m.race != nil {
				m.race.exited.join(o.vc)
			}
		}
		if len(live) > 200 {
			panic(unsupported{"more than 200 goroutines"})
		}
		m.gs = live
	}
	m.spawned++
	g := &G{id: m.spawned, name: fmt.Sprintf("%s.%d", par.name, par.nspawn), wake: make(chan struct{}, 1), gone: make(chan struct{})}
	g.pend = &pend{kind: opStart}
	if m.race != nil {
		g.vc = par.vc.copy()
		g.vc.inc(g.id)
		par.vc.inc(par.id)
	}
	m.gs = append(m.gs, g)
	go func() {
		defer close(g.gone)
		<-g.wake
		if m.killed {
			g.exited = true
			return
		}
		var res any
		func() {
			defer func() {
				if r := recover(); r != nil {
					res = r
					m.notePos(r)
				}
			}()
			m.call(fn, args, env)
		}()
		g.exited = true
		switch r := res.(type) {
		case killedG:
			return
		case nil:
		case *targetPanic:
			if r.exit {
				break
			}
			m.reportPanic(r)
			m.finish(pathAbort{abStop, ""})
			return
		default:
			m.finish(res)
			return
		}
		// schedule somebody else
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killedG); !ok {
						m.finish(r)
					}
				}
			}()
			m.pickNext(nil)
		}()
	}()
}

// finish ends the path from a non-main goroutine: main is woken and unwinds with the result.
func (m *Machine) finish(res any) {
	m.doneChan() <- res
	m.killed = true
	main := m.gs[0]
	main.wake <- struct{}{}
}

// visible performs a visible operation of the current goroutine.
func (m *Machine) visible(p *pend) {
	g := m.cur
	if m.initing {
		panic(unsupported{"blocking operation during initialisation"})
	}
	g.pend = p
	m.pickNext(g)
}

// pickNext chooses and fires transitions until some goroutine can run; if that is self it returns.
func (m *Machine) pickNext(self *G) {
	for {
		var ts []trans
		if !m.opts.explore && self != nil && !self.exited {
			ts = m.enabledOf(self)
			if len(ts) > 1 && self.pend.kind == opSelect {
				// deterministic mode still lets Go's select choose among ready cases
				ts = dedupSel(ts)
				i := 0
				if len(ts) > 1 {
					i = m.path.choice(len(ts), dSched, "")
				}
				ts = ts[i : i+1]
			}
		}
		if len(ts) == 0 {
			ts = m.enabled()
		}
		if len(ts) == 0 {
			if m.fireTimer() {
				continue
			}
			// quiescence waiters
			var q *G
			for _, o := range m.gs {
				if !o.exited && o.pend != nil && o.pend.kind == opQuiesce {
					q = o
					break
				}
			}
			if q != nil {
				q.pend.done = true
				m.resume(self, q)
				return
			}
			m.deadlock()
		}
		var t trans
		if m.opts.explore {
			t = m.chooseTrans(ts)
		} else {
			t = ts[0]
		}
		g := m.fire(t)
		if g == nil {
			continue
		}
		m.resume(self, g)
		return
	}
}

func dedupSel(ts []trans) []trans {
	seen := map[int]bool{}
	var out []trans
	for _, t := range ts {
		if !seen[t.ci] {
			seen[t.ci] = true
			out = append(out, t)
		}
	}
	return out
}

func (m *Machine) resume(self, g *G) {
	m.lastRun = g
	m.cur = g
	if g == self {
		m.finishPend(g)
		return
	}
	g.wake <- struct{}{}
	if self == nil || self.exited {
		return
	}
	<-self.wake
	if m.killed {
		panic(killedG{})
	}
	m.cur = self
	m.finishPend(self)
}

func (m *Machine) finishPend(g *G) {
	p := g.pend
	if p != nil && p.pan != "" {
		p.done = true
		m.throw2(p.pan)
	}
}

func (m *Machine) throw2(msg string) {
	tp := &targetPanic{msg: "panic: " + msg, rt: true}
	tp.v = m.errValue(msg)
	tp.stack = m.cur.stackTrace()
	panic(tp)
}

func (m *Machine) deadlock() {
	var b []string
	for _, o := range m.gs {
		if !o.exited {
			s := o.name + " blocked"
			if o.top != nil {
				s += " at " + o.top.pos()
			}
			b = append(b, s)
		}
	}
	m.path.violation("deadlock", "the caller blocks forever: "+strings.Join(b, "; "), m.path.model)
	panic(pathAbort{abStop, ""})
}

// enabled lists every enabled transition (timers excluded in deterministic mode).
func (m *Machine) enabled() []trans {
	var out []trans
	// in deterministic mode prefer the longest-waiting goroutine: ids ascending from the last run
	gs := m.gs
	for _, g := range gs {
		if g.exited || g.pend == nil {
			continue
		}
		out = append(out, m.enabledOf(g)...)
	}
	if m.opts.explore {
		// a timer of five seconds or more expires only when nothing else can happen
		if t := m.nextTimer(); t != nil && m.fires < m.opts.timerMax && (len(out) == 0 || t.deadline-m.now < 5e9) {
			out = append(out, trans{timer: t})
		}
	}
	return out
}

func (m *Machine) enabledOf(g *G) []trans {
	p := g.pend
	if p == nil || p.done {
		if p != nil && p.done {
			return []trans{{g: g, ci: -1}}
		}
		return nil
	}
	switch p.kind {
	case opStart, opPoint:
		return []trans{{g: g}}
	case opCond:
		if p.ready() {
			return []trans{{g: g}}
		}
	case opLock:
		if p.mu.writer == nil && p.mu.readers == 0 {
			return []trans{{g: g}}
		}
	case opRLock:
		if p.mu.writer == nil {
			return []trans{{g: g}}
		}
	case opWait:
		if p.wg.n == 0 {
			return []trans{{g: g}}
		}
	case opSend, opRecv, opSelect:
		var out []trans
		firm := false
		for ci, c := range p.cases {
			if c.ch == nil {
				continue
			}
			if c.send {
				if c.ch.closed || len(c.ch.buf) < c.ch.cap {
					out = append(out, trans{g: g, ci: ci})
					firm = true
					continue
				}
				if c.ch.cap > 0 {
					continue
				}
				for _, o := range m.gs {
					if o == g || o.exited || o.pend == nil || o.pend.done {
						continue
					}
					if p.hasDef && o.pend.hasDef {
						continue
					}
					for oi, oc := range o.pend.cases {
						if !oc.send && oc.ch == c.ch {
							out = append(out, trans{g: g, ci: ci, partner: o, pi: oi})
						}
					}
				}
			} else {
				if len(c.ch.buf) > 0 || c.ch.closed {
					out = append(out, trans{g: g, ci: ci})
					firm = true
					continue
				}
				if m.opts.explore && !p.hasDef {
					continue // listed from the sender's side
				}
				for _, o := range m.gs {
					if o == g || o.exited || o.pend == nil || o.pend.done {
						continue
					}
					for oi, oc := range o.pend.cases {
						if oc.send && oc.ch == c.ch && c.ch.cap == 0 {
							out = append(out, trans{g: g, ci: ci, partner: o, pi: oi})
						}
					}
				}
			}
		}
		if p.hasDef {
			if m.opts.explore {
				if !firm {
					out = append(out, trans{g: g, def: true})
				}
			} else if len(out) == 0 {
				out = append(out, trans{g: g, def: true})
			}
		}
		return out
	}
	return nil
}

// fire performs t and returns the goroutine to run (nil for timers).
func (m *Machine) fire(t trans) *G {
	if t.timer != nil {
		m.fireOne(t.timer)
		return nil
	}
	g := t.g
	p := g.pend
	if t.ci == -1 && p.done {
		return g
	}
	p.done = true
	switch p.kind {
	case opStart, opPoint, opCond:
	case opLock:
		p.mu.writer = g
		if m.race != nil {
			g.vc.join(p.mu.vc)
			g.vc.join(p.mu.rvc)
		}
	case opRLock:
		p.mu.readers++
		if m.race != nil {
			g.vc.join(p.mu.vc)
		}
	case opWait:
		if m.race != nil {
			g.vc.join(p.wg.vc)
		}
	case opSend, opRecv, opSelect:
		if t.def {
			p.sel = -1
			return g
		}
		p.sel = t.ci
		c := p.cases[t.ci]
		switch {
		case t.partner != nil:
			o := t.partner
			oc := o.pend.cases[t.pi]
			o.pend.done = true
			o.pend.sel = t.pi
			if c.send {
				o.pend.rv, o.pend.rok = c.v, true
			} else {
				p.rv, p.rok = oc.v, true
			}
			if m.race != nil {
				g.vc.join(o.vc)
				o.vc = g.vc.copy()
				g.vc.inc(g.id)
				o.vc.inc(o.id)
			}
		case c.send:
			if c.ch.closed {
				p.pan = "send on closed channel"
				break
			}
			m.chanTouch(c.ch)
			c.ch.buf = append(append([]Value(nil), c.ch.buf...), c.v)
			if m.race != nil {
				c.ch.bufVC = append(append([]vclock(nil), c.ch.bufVC...), g.vc.copy())
				g.vc.join(c.ch.vc)
				g.vc.inc(g.id)
			}
		default:
			if len(c.ch.buf) > 0 {
				m.chanTouch(c.ch)
				p.rv, p.rok = c.ch.buf[0], true
				c.ch.buf = append([]Value(nil), c.ch.buf[1:]...)
				if m.race != nil && len(c.ch.bufVC) > 0 {
					g.vc.join(c.ch.bufVC[0])
					c.ch.bufVC = append([]vclock(nil), c.ch.bufVC[1:]...)
					c.ch.vc.join(g.vc)
					g.vc.inc(g.id)
				}
			} else {
				p.rv, p.rok = Value{}, false
				if m.race != nil {
					g.vc.join(c.ch.vc)
				}
			}
		}
	}
	return g
}

// ---------- exploration of schedules: sleep sets ----------

func (t trans) gset() []*G {
	if t.timer != nil {
		return []*G{t.timer.g}
	}
	return []*G{t.g, t.partner}
}

// objs lists the shared objects a transition touches and whether it only reads them.
func (t trans) objs() (os []any, ro bool) {
	if t.timer != nil {
		if t.timer.ch != nil {
			return []any{t.timer.ch, "timer"}, false
		}
		return []any{"timer"}, false
	}
	p := t.g.pend
	switch p.kind {
	case opSend, opRecv, opSelect:
		for _, c := range p.cases {
			if c.ch != nil {
				os = append(os, c.ch)
			}
		}
		return os, false
	case opLock:
		return []any{p.mu}, false
	case opRLock:
		return []any{p.mu}, true
	case opWait:
		return []any{p.wg}, false
	case opCond:
		return []any{p.obj}, false
	case opPoint:
		if p.obj == nil {
			return nil, true
		}
		return []any{p.obj}, !p.write
	}
	return nil, true
}

func dependent(a, b trans) bool {
	for _, x := range a.gset() {
		for _, y := range b.gset() {
			if x != nil && x == y {
				return true
			}
		}
	}
	ao, ar := a.objs()
	bo, br := b.objs()
	if ar && br {
		return false
	}
	for _, x := range ao {
		for _, y := range bo {
			if x == y {
				return true
			}
		}
	}
	return false
}

func (m *Machine) chooseTrans(ts []trans) trans {
	// local steps (goroutine resumptions without a visible operation left) commute with everything: run them first
	for _, t := range ts {
		if t.timer == nil && t.ci == -1 {
			return t
		}
	}
	// goroutine starts are invisible as well
	for _, t := range ts {
		if t.timer == nil && t.g.pend.kind == opStart {
			return t
		}
	}
	cand := ts[:0:0]
	for _, t := range ts {
		asleep := false
		for _, s := range m.sleep {
			if s.same(t) {
				asleep = true
				break
			}
		}
		if !asleep {
			cand = append(cand, t)
		}
	}
	if len(cand) == 0 {
		panic(pathAbort{abInfeasible, "sleep set"})
	}
	if m.opts.demote >= 0 || m.opts.delay >= 0 {
		return m.chooseDelayed(ts)
	}
	// preemption bound: continuing the last goroutine is free
	if m.opts.preempt >= 0 && m.preempts >= m.opts.preempt {
		var same []trans
		for _, t := range cand {
			if t.g == m.lastRun && t.timer == nil {
				same = append(same, t)
			}
		}
		if len(same) > 0 {
			cand = same
		}
	} else if m.opts.preempt >= 0 {
		sort.SliceStable(cand, func(i, j int) bool { return cand[i].g == m.lastRun && cand[j].g != m.lastRun })
	}
	i := 0
	if len(cand) > 1 {
		i = m.path.choice(len(cand), dSched, "")
	}
	t := cand[i]
	if m.opts.preempt >= 0 && t.g != m.lastRun {
		for _, c := range ts {
			if c.g == m.lastRun && c.timer == nil {
				m.preempts++
				break
			}
		}
	}
	if m.opts.preempt < 0 {
		var ns []trans
		for _, s := range append(append([]trans(nil), m.sleep...), cand[:i]...) {
			if !dependent(s, t) {
				ns = append(ns, s)
			}
		}
		m.sleep = ns
	}
	m.noteSched(t)
	return t
}

// chooseDelayed bounds the deviations from a round-robin scheduler that runs the last goroutine on: choosing the i-th
// goroutine in that order costs i delays, an expiring timer one. With a bound on demotions, passed over goroutines run
// only when no other one can from then on (priority change points).
func (m *Machine) chooseDelayed(ts []trans) trans {
	last := 0
	for i, g := range m.gs {
		if g == m.lastRun {
			last = i
		}
	}
	dist := func(t trans) int {
		if t.timer != nil {
			return 1 << 20
		}
		for i, g := range m.gs {
			if g == t.g {
				if n, ok := m.demoted[g]; ok {
					return 1<<17 + n
				}
				return (i - last + len(m.gs)) % len(m.gs)
			}
		}
		return 1 << 19
	}
	ts = append([]trans(nil), ts...)
	sort.SliceStable(ts, func(i, j int) bool { return dist(ts[i]) < dist(ts[j]) })
	var cand []trans
	var cost []int
	rank, prev := -1, -1
	limit := m.opts.delay
	if m.opts.demote >= 0 {
		limit = m.opts.demote
	}
	for _, t := range ts {
		d := dist(t)
		if d != prev {
			rank++
			prev = d
		}
		c := rank
		if t.timer != nil && c > 1 {
			c = 1
		}
		if m.delays+c <= limit {
			cand = append(cand, t)
			cost = append(cost, c)
		}
	}
	i := 0
	if len(cand) > 1 {
		i = m.path.choice(len(cand), dSched, "")
	}
	m.delays += cost[i]
	if m.opts.demote >= 0 && cand[i].timer == nil && cost[i] > 0 {
		at := dist(cand[i])
		for _, t := range ts {
			if t.timer == nil && dist(t) < at {
				if m.demoted == nil {
					m.demoted = map[*G]int{}
				}
				if _, ok := m.demoted[t.g]; !ok {
					m.demoted[t.g] = len(m.demoted)
				}
			}
		}
	}
	m.noteSched(cand[i])
	return cand[i]
}

func (m *Machine) noteSched(t trans) {
	var s string
	if t.timer != nil {
		s = fmt.Sprintf("timer%d", t.timer.id-1000000)
	} else {
		s = t.g.name
		if t.g.top != nil {
			s += "@" + t.g.top.pos()
		}
		if t.def {
			s += " default"
		}
		if t.partner != nil {
			s += " with " + t.partner.name
		}
	}
	m.path.schedSeq = append(m.path.schedSeq, s)
}

// ---------- timers ----------

func (m *Machine) listened(t *Timer) bool {
	if t.g != nil || t.fn != nil {
		return true
	}
	for _, g := range m.gs {
		if g.exited || g.pend == nil || g.pend.done {
			continue
		}
		for _, c := range g.pend.cases {
			if c.ch == t.ch && !c.send {
				return true
			}
		}
	}
	return false
}

func (m *Machine) nextTimer() *Timer {
	var best *Timer
	for _, t := range m.timers {
		if !t.active || !m.listened(t) {
			continue
		}
		if best == nil || t.deadline < best.deadline {
			best = t
		}
	}
	return best
}

func (m *Machine) fireOne(t *Timer) {
	m.fires++
	t.active = false
	if t.deadline > m.now {
		m.now = t.deadline
	}
	switch {
	case t.g != nil:
		t.g.pend.done = true
	case t.fn != nil:
		t.fn()
	default:
		if len(t.ch.buf) < t.ch.cap {
			t.ch.buf = append(append([]Value(nil), t.ch.buf...), m.timeNow())
			if m.race != nil {
				t.ch.bufVC = append(t.ch.bufVC, vclock{})
			}
		}
	}
	if t.period > 0 {
		t.active = true
		t.deadline = m.now + t.period
	}
	// drop dead timers
	k := m.timers[:0:0]
	for _, x := range m.timers {
		if x.active {
			k = append(k, x)
		}
	}
	m.timers = k
}

func (m *Machine) fireTimer() bool {
	t := m.nextTimer()
	if t == nil {
		return false
	}
	if m.fires >= m.opts.timerMax {
		panic(pathAbort{abUnsupported, fmt.Sprintf("more than %d timer expirations on one path", m.opts.timerMax)})
	}
	m.fireOne(t)
	return true
}

func (m *Machine) newTimer(d int64) *Timer {
	if d < 0 {
		d = 0
	}
	t := &Timer{id: m.newID(), deadline: m.now + d, active: true}
	m.timers = append(m.timers, t)
	return t
}

// ---------- channel operations ----------

func (m *Machine) chanTouch(c *Chan) {
	if c.id < 1000000 { // created during initialisation
		old := *c
		m.undo = append(m.undo, undoRec{fn: func() { *c = old }})
	}
}

func chanOf(v Value) *Chan {
	if v.P == nil {
		return nil
	}
	return v.P.(*Chan)
}

func (m *Machine) chanSend(ch, v Value) {
	p := &pend{kind: opSend, cases: []selCase{{true, chanOf(ch), copyVal(v)}}}
	m.visible(p)
}

func (m *Machine) chanRecv(ch Value, t types.Type) (Value, bool) {
	p := &pend{kind: opRecv, cases: []selCase{{ch: chanOf(ch)}}}
	m.visible(p)
	if p.rv.K == KNone {
		return zeroOf(t), p.rok
	}
	return p.rv, p.rok
}

func (m *Machine) chanClose(v Value) {
	c := chanOf(v)
	if c == nil {
		m.throw2("close of nil channel")
	}
	m.point(c, true)
	if c.closed {
		m.throw2("close of closed channel")
	}
	m.chanTouch(c)
	c.closed = true
	if m.race != nil {
		c.vc.join(m.cur.vc)
		m.cur.vc.inc(m.cur.id)
	}
}

// point is a scheduling point before an always-enabled visible operation.
func (m *Machine) point(obj any, write bool) {
	if m.opts.explore && !m.initing {
		m.visible(&pend{kind: opPoint, obj: obj, write: write})
	}
}

func (m *Machine) doSelect(fr *frame, c *cins, x *ssa.Select) Value {
	p := &pend{kind: opSelect, hasDef: !x.Blocking}
	for i, s := range x.States {
		sc := selCase{send: s.Dir == types.SendOnly, ch: chanOf(fr.get(&c.args[2*i]))}
		if sc.send {
			sc.v = copyVal(fr.get(&c.args[2*i+1]))
		}
		p.cases = append(p.cases, sc)
	}
	m.visible(p)
	out := []Value{mkInt(uint64(int64(p.sel)), 64), mkBool(p.rok)}
	for i, s := range x.States {
		if s.Dir == types.SendOnly {
			continue
		}
		et := elemType(s.Chan.Type())
		if i == p.sel && p.rv.K != KNone {
			out = append(out, p.rv)
		} else {
			out = append(out, zeroOf(et))
		}
	}
	return Value{K: KTuple, P: out}
}

func (m *Machine) reportPanic(tp *targetPanic) {
	p := m.path
	in, order := p.assignment(p.model)
	p.w.ex.addViolation(&Violation{Kind: "panic", Msg: tp.msg, Stack: tp.stack, Inputs: in, Order: order, Sched: append([]string(nil), p.schedSeq...), Nondet: p.nondet})
}

// ---------- vector clocks ----------

type vclock map[int]int

func (v vclock) copy() vclock {
	n := make(vclock, len(v))
	for k, x := range v {
		n[k] = x
	}
	return n
}
func (v *vclock) inc(i int) {
	if *v == nil {
		*v = vclock{}
	}
	(*v)[i]++
}
func (v *vclock) join(o vclock) {
	if len(o) == 0 {
		return
	}
	if *v == nil {
		*v = vclock{}
	}
	for k, x := range o {
		if (*v)[k] < x {
			(*v)[k] = x
		}
	}
}

type accInfo struct {
	sync   vclock
	wg, wc int
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

type raceState struct {
	cells  map[any]*accInfo
	seen   map[string]bool
	exited vclock
}

func (r *raceState) get(k any) *accInfo {
	a := r.cells[k]
	if a == nil {
		a = &accInfo{wg: -1, reads: map[int]int{}, rpos: map[int]string{}}
		r.cells[k] = a
	}
	return a
}

func (r *raceState) access(m *Machine, s *Value, write bool) { r.check(m, s, write, "variable") }
func (r *raceState) obj(m *Machine, o *Map, write bool)      { r.check(m, o, write, "map") }

func (r *raceState) check(m *Machine, k any, write bool, what string) {
	if m.initing || m.cur == nil || m.spawned == 0 {
		return
	}
	g := m.cur
	if g.vc == nil {
		g.vc = vclock{g.id: 1}
	}
	a := r.get(k)
	if a.wg >= 0 && a.wg != g.id && g.vc[a.wg] < a.wc {
		r.report(m, what, a.wpos)
	}
	if write {
		for rg, c := range a.reads {
			if rg != g.id && g.vc[rg] < c {
				r.report(m, what, a.rpos[rg])
			}
		}
		a.wg, a.wc = g.id, g.vc[g.id]
		if g.top != nil {
			a.wpos = g.top.pos()
		}
		clear(a.reads)
		clear(a.rpos)
	} else {
		a.reads[g.id] = g.vc[g.id]
		if g.top != nil {
			a.rpos[g.id] = g.top.pos()
		}
	}
}

func (r *raceState) report(m *Machine, what, other string) {
	here := ""
	if m.cur.top != nil {
		here = m.cur.top.pos()
	}
	if !strings.Contains(here, "pkg/") || strings.Contains(here, "zzverif") || strings.Contains(other, "zzverif") {
		return
	}
	pair := []string{here, other}
	sort.Strings(pair)
	msg := "data race on a " + what + ": " + pair[0] + " and " + pair[1]
	if r.seen[msg] {
		return
	}
	r.seen[msg] = true
	m.path.violation("race", msg, m.path.model)
}
