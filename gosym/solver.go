package main

// One persistent z3 process per worker, driven incrementally through SMT-LIB push/pop.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	IsSat
	Unknown
)

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	gen   uint32
	stack []*Term // asserted, one level each
	// statistics
	Queries, NSat, NUnsat, NUnknown int64
	Time                            time.Duration
	MaxQuery                        time.Duration
	timeoutMS                       int
	bin                             string
	lines                           chan string
	fallbacks, Rescued              int64
	log                             io.Writer
}

var solverGen uint32

func NewSolver(bin string, timeoutMS int, gen uint32) *Solver {
	s := &Solver{timeoutMS: timeoutMS, bin: bin, gen: gen}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", s.bin, err))
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.gen += 64 // workers use disjoint residues; each restart invalidates the definitions
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMS))
	s.lines = make(chan string, 16)
	go func(r *bufio.Reader, ch chan string) {
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				close(ch)
				return
			}
			ch <- strings.TrimRight(l, "\r\n")
		}
	}(s.out, s.lines)
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	io.WriteString(s.in, t)
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.in.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
	for range s.lines {
	}
	s.cmd = nil
}

// Restart drops every definition (used when the worker's term table is reset or the solver died).
func (s *Solver) Restart() { s.Close(); s.start() }

func (s *Solver) line() (string, bool) {
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-time.After(time.Duration(s.timeoutMS)*time.Millisecond*2 + 5*time.Second):
		return "", false
	}
}

// Check decides pc ∧ extra. On sat it returns values for vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Sat, Model) {
	t0 := time.Now()
	s.Queries++
	var sb strings.Builder
	// synchronise the assertion stack with pc
	common := 0
	for common < len(s.stack) && common < len(pc) && s.stack[common] == pc[common] {
		common++
	}
	if n := len(s.stack) - common; n > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", n)
		s.stack = s.stack[:common]
	}
	for _, t := range pc[common:] {
		t.emit(&sb, s.gen)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", t.ref())
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		extra.emit(&sb, s.gen)
	}
	for _, v := range vars {
		v.emit(&sb, s.gen)
	}
	sb.WriteString("(push 1)\n")
	if extra != nil {
		fmt.Fprintf(&sb, "(assert %s)\n", extra.ref())
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	res := Unknown
	var m Model
	l, ok := s.line()
	bad := !ok
	switch {
	case !ok:
	case l == "sat":
		res = IsSat
		m = Model{}
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			depth := 0
			var acc strings.Builder
			for {
				l, ok := s.line()
				if !ok || strings.HasPrefix(l, "(error") {
					bad = true
					break
				}
				acc.WriteString(l)
				acc.WriteByte(' ')
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			if !bad {
				parseValues(acc.String(), vars, m)
			}
		}
	case l == "unsat":
		res = Unsat
	case l == "unknown":
		res = Unknown
	default: // (error ... or anything else
		bad = true
	}
	if bad {
		res = Unknown
		s.Restart()
	} else {
		s.send("(pop 1)\n")
	}
	if res == Unknown && s.fallbacks < maxFallbacks {
		s.fallbacks++
		res, m = s.portfolio(pc, extra, vars)
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQuery {
		s.MaxQuery = d
	}
	switch res {
	case IsSat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnknown++
	}
	return res, m
}

const maxFallbacks = 60 // per worker and harness

// portfolio decides a query the incremental solver gave up on: each installed solver gets it whole, the first answer counts.
func (s *Solver) portfolio(pc []*Term, extra *Term, vars []*Term) (Sat, Model) {
	s.gen += 64
	var sb strings.Builder
	all := append([]*Term(nil), pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range append(append([]*Term(nil), all...), vars...) {
		t.emit(&sb, s.gen)
	}
	for _, t := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
	}
	logic := "QF_BV"
	if strings.Contains(sb.String(), "(fp.") {
		logic = "ALL"
	}
	text := "(set-option :produce-models true)\n(set-logic " + logic + ")\n" + sb.String()
	if d := os.Getenv("GOSYM_HARD"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/hard-%d.smt2", d, s.gen), []byte(text), 0644)
	}
	s.Restart() // the definitions printed above are not in the running solver
	const limit = "20"
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmds := [][]string{{"z3", "-in", "-T:" + limit}, {"z3-new", "-in", "-T:" + limit, "smt.random_seed=7"},
		{"cvc5", "--lang=smt2", "--tlimit=" + limit + "000", "-"}, {"cvc5", "--lang=smt2", "--solve-bv-as-int=sum", "--tlimit=" + limit + "000", "-"}, {"cvc5", "--lang=smt2", "--bitblast=eager", "--tlimit=" + limit + "000", "-"}}
	type ans struct {
		r   Sat
		out string
	}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func() {
			x := exec.CommandContext(ctx, c[0], c[1:]...)
			x.Stdin = strings.NewReader(text)
			out, _ := x.Output()
			l, rest, _ := strings.Cut(string(out), "\n")
			switch strings.TrimSpace(l) {
			case "sat":
				if len(vars) == 0 || (strings.Contains(rest, "((") && !strings.Contains(rest, "(error")) {
					ch <- ans{IsSat, rest}
					return
				}
			case "unsat":
				ch <- ans{Unsat, ""}
				return
			}
			ch <- ans{Unknown, ""}
		}()
	}
	for range cmds {
		a := <-ch
		if a.r == Unknown {
			continue
		}
		s.Rescued++
		m := Model{}
		if a.r == IsSat && len(vars) > 0 {
			parseValues(a.out, vars, m)
		}
		return a.r, m
	}
	return Unknown, nil
}

// parseValues reads "((t1 #x00) (t2 #b1) (t3 true) ...)".
func parseValues(s string, vars []*Term, m Model) {
	byRef := make(map[string]*Term, len(vars))
	for _, v := range vars {
		byRef[v.ref()] = v
	}
	f := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(f); i++ {
		v, ok := byRef[f[i]]
		if !ok {
			continue
		}
		x := f[i+1]
		var val uint64
		switch {
		case strings.HasPrefix(x, "#x"):
			val, _ = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			val, _ = strconv.ParseUint(x[2:], 2, 64)
		case x == "true":
			val = 1
		}
		m[v.name] = val
		i++
	}
}
