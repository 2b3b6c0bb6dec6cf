package main

// gosym: solver-based checking of Go code by symbolic execution of its SSA form.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type known struct {
	prop, harness, match, what string
}

// loadKnown reads the known findings: "known: property=C11 harness=C11.binary match=\"text\" what failed".
func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(l, "known: ")
		for {
			rest = strings.TrimLeft(rest, " ")
			i := strings.IndexByte(rest, '=')
			sp := strings.IndexByte(rest, ' ')
			if i < 0 || (sp >= 0 && sp < i) {
				break
			}
			key := rest[:i]
			if key != "property" && key != "harness" && key != "match" {
				break
			}
			val := rest[i+1:]
			if strings.HasPrefix(val, `"`) {
				q, err := strconv.QuotedPrefix(val)
				if err != nil {
					break
				}
				rest = val[len(q):]
				val, _ = strconv.Unquote(q)
			} else {
				j := strings.IndexByte(val, ' ')
				if j < 0 {
					j = len(val)
				}
				rest = val[j:]
				val = val[:j]
			}
			switch key {
			case "property":
				k.prop = val
			case "harness":
				k.harness = val
			case "match":
				k.match = val
			}
		}
		k.what = strings.TrimSpace(rest)
		if k.prop != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

func (k known) matches(prop string, h *Harness, v *Violation) bool {
	if k.prop != prop || (k.harness != "" && k.harness != h.ID) {
		return false
	}
	all := v.Kind + "|" + v.Msg + "|" + strings.Join(v.Stack, "|")
	return strings.Contains(all, k.match)
}

type harnessReport struct {
	Harness      string         `json:"harness"`
	Bounds       []string       `json:"bounds,omitempty"`
	Paths        int64          `json:"paths"`
	Infeasible   int64          `json:"infeasible_paths"`
	Aborted      int64          `json:"aborted_paths"`
	Steps        int64          `json:"ssa_instructions"`
	Asserts      int64          `json:"assertions_evaluated"`
	MaxDecisions int            `json:"max_decisions_on_a_path"`
	Queries      int64          `json:"solver_queries"`
	QSat         int64          `json:"sat"`
	QUnsat       int64          `json:"unsat"`
	QUnknown     int64          `json:"unknown"`
	SolverS      float64        `json:"solver_s"`
	MaxQueryS    float64        `json:"max_query_s"`
	Complete     bool           `json:"explored_completely"`
	PendingPaths int            `json:"pending_paths,omitempty"`
	Inconclusive map[string]int `json:"inconclusive,omitempty"`
	Reached      map[string]int `json:"reached"`
	Missing      []string       `json:"reach_tags_missing,omitempty"`
	Replayed     int            `json:"paths_replayed_natively"`
	Agree        int            `json:"native_agreements"`
	Disagree     []string       `json:"native_disagreements,omitempty"`
	Violations   []string       `json:"violations,omitempty"`
	Unreproduced []string       `json:"candidates_not_reproduced,omitempty"`
	Known        []string       `json:"known_findings,omitempty"`
	WallS        float64        `json:"wall_s"`
}

type confirmed struct {
	h   *Harness
	v   *Violation
	res nativeRes
	cfg string
}

type checker struct {
	verif, work string
	prop        string
	tier        int
	seed        int64
	hs          []*Harness
	ov          map[string]string
	binMu       sync.Mutex
	bins        map[string]string
	binErr      map[string]error
	verbose     bool
	noreplay    bool
	first       bool
}

func (c *checker) bin(race, jitter bool) (string, error) {
	c.binMu.Lock()
	defer c.binMu.Unlock()
	k := fmt.Sprint(race, jitter)
	if b, ok := c.bins[k]; ok {
		return b, c.binErr[k]
	}
	b, err := buildNative(c.work, c.hs, c.ov, race, jitter)
	c.bins[k], c.binErr[k] = b, err
	return b, err
}

func (c *checker) logf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
}

// parallelNative spreads requests over processes.
func parallelNative(bin string, reqs []nativeReq, limit time.Duration, procs int) []nativeRes {
	out := make([]nativeRes, len(reqs))
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		var idx []int
		var part []nativeReq
		for i := k; i < len(reqs); i += procs {
			idx = append(idx, i)
			part = append(part, reqs[i])
		}
		if len(part) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, r := range runNative(bin, part, limit) {
				out[idx[j]] = r
			}
		}()
	}
	wg.Wait()
	return out
}

// confirm replays a candidate on the real code.
func (c *checker) confirm(h *Harness, v *Violation) (nativeRes, string, bool) {
	req := nativeReq{Harness: h.ID, Inputs: v.Inputs, Tier: c.tier, Repeat: 1, Timeout: 6000, Fresh: h.Fresh}
	okRes := func(r nativeRes) bool {
		if r.Status == "hang" {
			return v.Kind == "deadlock" || v.Late || len(v.Sched) == 0
		}
		return r.failed()
	}
	if v.Kind == "race" {
		b, err := c.bin(true, true)
		if err != nil {
			c.logf("race build: %v", err)
			return nativeRes{}, "", false
		}
		for round := 0; round < 3; round++ {
			var reqs []nativeReq
			for i := 0; i < 8; i++ {
				r := req
				r.Repeat, r.Jitter, r.Seed, r.Timeout = 20, 1+i%3, c.seed+int64(i+8*round), 20000
				reqs = append(reqs, r)
			}
			for _, r := range parallelNative(b, reqs, 60*time.Second, 8) {
				if r.failed() && r.Status != "hang" {
					return r, "race+jitter", true
				}
			}
		}
		return nativeRes{}, "", false
	}
	b, err := c.bin(false, false)
	if err != nil {
		c.logf("replay build: %v", err)
		return nativeRes{}, "", false
	}
	if v.Nondet {
		req.Repeat = 300
	}
	r := runNative(b, []nativeReq{req}, 60*time.Second)[0]
	if okRes(r) {
		return r, "plain", true
	}
	if len(v.Sched) == 0 {
		return r, "plain", false
	}
	jb, err := c.bin(false, true)
	if err != nil {
		c.logf("instrumented build: %v", err)
		return nativeRes{}, "", false
	}
	last := r
	for round := 0; round < 2; round++ {
		var reqs []nativeReq
		for i := 0; i < 16; i++ {
			r := req
			r.Repeat, r.Jitter, r.Seed, r.Timeout = h.Stress/8+1, 1+i%3, c.seed+int64(i+16*round), 15000
			reqs = append(reqs, r)
		}
		for _, r := range parallelNative(jb, reqs, 40*time.Second, 16) {
			if okRes(r) {
				return r, "jitter", true
			}
			last = r
		}
	}
	return last, "jitter", false
}

func (v *Violation) site() string {
	s := v.Kind + "|" + v.Msg
	if v.Kind == "panic" && len(v.Stack) > 0 {
		s += "|" + v.Stack[0]
	}
	return s
}

func main() {
	debug.SetGCPercent(400)
	prop := flag.String("property", "", "property id")
	only := flag.String("harness", "", "run only this harness (debugging; no evidence is written)")
	verif := flag.String("verif", "/verif", "")
	nw := flag.Int("workers", 0, "")
	quickS := flag.Int("budget", 0, "override the per-harness budget in seconds (debugging)")
	noreplay := flag.Bool("noreplay", false, "skip native replay (debugging)")
	verbose := flag.Bool("v", false, "")
	slv := flag.String("solver", "z3-new", "")
	list := flag.Bool("list", false, "list harnesses")
	first := flag.Bool("first", false, "stop at the first harness with a confirmed violation (measuring; no evidence is written)")
	replay := flag.String("replay", "", "run the violation in this file on the compiled code")
	flag.Parse()
	var rv struct {
		Property, Harness string
		Violation         *Violation
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			err = d.Decode(&rv)
		}
		if err != nil || rv.Violation == nil {
			fmt.Fprintln(os.Stderr, "replay:", *replay, err)
			os.Exit(2)
		}
		*prop, *only = rv.Property, rv.Harness
	}
	solverBin = *slv
	t0 := time.Now()
	tier := 0
	tierName := os.Getenv("VERIF_TIER")
	if tierName == "thorough" {
		tier = 1
	} else {
		tierName = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	all, err := findHarnesses(*verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
	if *list {
		for _, h := range all {
			fmt.Println(h.ID, h.Func, h.Quick, h.Thorough, h.Only)
		}
		return
	}
	c := &checker{verif: *verif, prop: *prop, tier: tier, seed: seed, bins: map[string]string{}, binErr: map[string]error{}, verbose: *verbose, noreplay: *noreplay, first: *first}
	for _, h := range all {
		if *only != "" && h.ID != *only && h.Func != *only {
			continue
		}
		if *prop != "" && h.Prop != *prop {
			continue
		}
		if h.Only == "thorough" && tier == 0 || h.Only == "quick" && tier == 1 {
			continue
		}
		c.hs = append(c.hs, h)
	}
	if len(c.hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop, *only)
		os.Exit(2)
	}
	if c.prop == "" {
		c.prop = c.hs[0].Prop
	}
	if c.work, err = os.MkdirTemp("", "gosym"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if rv.Violation != nil {
		c.ov = overlayFiles(c.verif, map[string]bool{c.hs[0].Dir: true})
		res, cfg, ok := c.confirm(c.hs[0], rv.Violation)
		fmt.Printf("%s on the compiled code (%s): %s %s\n", rv.Harness, cfg, res.Status, res.Msg)
		os.RemoveAll(c.work)
		if ok {
			os.Exit(1)
		}
		os.Exit(0)
	}
	code := c.run(t0, tierName, *nw, *quickS, *only != "" || *first)
	os.RemoveAll(c.work)
	os.Exit(code)
}

func (c *checker) run(t0 time.Time, tierName string, nw, budget int, debugRun bool) int {
	dirs := map[string]bool{}
	for _, h := range c.hs {
		dirs[h.Dir] = true
	}
	c.ov = overlayFiles(c.verif, dirs)
	if !c.noreplay {
		go c.bin(false, false)
	}
	L, err := Load(c.ov)
	if err != nil {
		// the tree does not compile with the harness: that is not a verdict about the property
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	tLoad := time.Since(t0)
	ws := make([]*Worker, nw)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ws[i] = NewWorker(i, L)
		}()
	}
	wg.Wait()
	if c.verbose {
		c.logf("loaded in %.1fs, initialised in %.1fs", tLoad.Seconds(), (time.Since(t0) - tLoad).Seconds())
	}
	kn := loadKnown(c.verif)
	const limit = 500 * time.Second
	funcs := map[string]bool{}
	var reports []*harnessReport
	var conf []confirmed
	knownHit := map[string]bool{}
	var knownLines []string
	var samples []any
	for _, h := range c.hs {
		if c.first && len(conf) > 0 {
			break
		}
		rep := &harnessReport{Harness: h.ID, Bounds: h.Bounds}
		reports = append(reports, rep)
		th := time.Now()
		pk := L.pkgs[h.PkgPath]
		if pk == nil || pk.Func(h.Func) == nil {
			fmt.Fprintf(os.Stderr, "harness %s: function %s.%s not found\n", h.ID, h.PkgPath, h.Func)
			return 2
		}
		b := h.budget(c.tier)
		if budget > 0 {
			b = time.Duration(budget) * time.Second
		}
		// the whole check stays well within 900 s, also on a tree where every harness runs out of its budget
		if left := limit - time.Since(t0); c.tier == 0 && b > left/2 {
			b = left / 2
		}
		if len(conf) > 0 && b > 5*time.Second {
			b = 5 * time.Second
		}
		ex := NewExplorer(b)
		ex.isKnown = func(v *Violation) bool {
			for _, k := range kn {
				if k.matches(c.prop, h, v) {
					return true
				}
			}
			return false
		}
		ex.stopOnViolation = true
		run := &harnessRun{h: h, fn: pk.Func(h.Func), tier: c.tier, ex: ex}
		for i := range ws {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ws[i].begin(run)
				ws[i].loop()
				ws[i].accumulate()
				ws[i].solver.Close()
				ws[i].solver = nil
			}()
		}
		wg.Wait()
		for _, w := range ws {
			for f := range w.funcs {
				funcs[f] = true
			}
			rep.Queries += w.base.Queries
			rep.QSat += w.base.NSat
			rep.QUnsat += w.base.NUnsat
			rep.QUnknown += w.base.NUnknown
			rep.SolverS += w.base.Time.Seconds()
			if s := w.base.MaxQuery.Seconds(); s > rep.MaxQueryS {
				rep.MaxQueryS = s
			}
		}
		rep.Paths, rep.Infeasible, rep.Aborted, rep.Steps, rep.Asserts = ex.Paths, ex.Infeasible, ex.Aborted, ex.Steps, ex.Asserts
		rep.Inconclusive, rep.Reached, rep.MaxDecisions, rep.PendingPaths = ex.Inconclusive, ex.Reached, ex.MaxDepth, ex.Pending
		rep.Complete = !ex.Incomplete && ex.Aborted == 0 && len(ex.Inconclusive) == 0 && !ex.stopped
		for _, t := range h.Reach {
			if ex.Reached[t] == 0 {
				rep.Missing = append(rep.Missing, t)
			}
		}
		// candidates, one site at a time
		done := map[string]bool{}
		tries := map[string]int{}
		sort.SliceStable(ex.Violations, func(i, j int) bool { return len(ex.Violations[i].Sched) < len(ex.Violations[j].Sched) })
		treplay := time.Now()
		for _, v := range ex.Violations {
			site := v.site()
			if done[site] {
				continue
			}
			isKnown := false
			for _, k := range kn {
				if k.matches(c.prop, h, v) {
					isKnown = true
					done[site] = true
					rep.Known = append(rep.Known, k.what)
					if !knownHit[k.what] {
						knownHit[k.what] = true
						knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.prop, k.what))
					}
					break
				}
			}
			if isKnown {
				continue
			}
			if c.noreplay {
				done[site] = true
				rep.Unreproduced = append(rep.Unreproduced, site)
				js, _ := json.Marshal(v)
				c.logf("candidate %s: %s", h.ID, js)
				continue
			}
			maxTries := 6
			if len(v.Sched) > 0 {
				maxTries = 3
			}
			if tries[site] >= maxTries || time.Since(treplay) > 150*time.Second {
				continue
			}
			tries[site]++
			res, cfg, ok := c.confirm(h, v)
			if ok {
				done[site] = true
				conf = append(conf, confirmed{h, v, res, cfg})
				rep.Violations = append(rep.Violations, site)
			} else {
				js, _ := json.Marshal(v)
				rs, _ := json.Marshal(res)
				rep.Unreproduced = append(rep.Unreproduced, clip(site, 300))
				c.logf("candidate not reproduced: %s %s -> %s", h.ID, clip(string(js), 3000), clip(string(rs), 1500))
			}
		}
		// conformance: passing paths, replayed natively
		if !c.noreplay && !h.NoSample && len(ex.Samples) > 0 {
			bin, err := c.bin(false, false)
			if err != nil {
				fmt.Fprintln(os.Stderr, "replay build:", err)
				return 2
			}
			sm := ex.Samples
			if len(sm) > maxSamples {
				sm = sm[:maxSamples]
			}
			var reqs []nativeReq
			for _, s := range sm {
				reqs = append(reqs, nativeReq{Harness: h.ID, Inputs: s.Inputs, Tier: c.tier, Repeat: 1, Timeout: 10000, Fresh: h.Fresh})
			}
			for i, r := range parallelNative(bin, reqs, 120*time.Second, 8) {
				rep.Replayed++
				switch {
				case r.Status == "pass" && (sm[i].Nondet || equalStrings(r.Obs, sm[i].Obs)):
					rep.Agree++
				case r.failed() && r.Status != "hang" && !sm[i].Nondet && !h.Explore:
					// the real code fails where the encoding passes: confirm, then believe the code
					r2 := runNative(bin, reqs[i:i+1], 60*time.Second)[0]
					if r2.Status == r.Status {
						v := &Violation{Kind: r.Status, Msg: clip(r.Msg, 400), Inputs: sm[i].Inputs, Order: sm[i].Order}
						isKnown := false
						for _, k := range kn {
							if k.matches(c.prop, h, v) {
								isKnown = true
								if !knownHit[k.what] {
									knownHit[k.what] = true
									knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.prop, k.what))
								}
							}
						}
						if !isKnown && !done[v.site()] {
							done[v.site()] = true
							conf = append(conf, confirmed{h, v, r2, "plain"})
							rep.Violations = append(rep.Violations, v.site())
						}
						break
					}
					fallthrough
				default:
					if len(rep.Disagree) < 5 {
						rep.Disagree = append(rep.Disagree, fmt.Sprintf("inputs=%v symbolic=%v native=%s %s %v", sm[i].Inputs, sm[i].Obs, r.Status, clip(r.Msg, 300), r.Obs))
					}
				}
			}
		}
		for i, s := range ex.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": h.ID, "inputs": s.Inputs, "observed": s.Obs})
			}
		}
		rep.WallS = time.Since(th).Seconds()
		if profForks {
			type kv struct {
				k string
				n int
			}
			var l []kv
			for k, n := range ex.forks {
				l = append(l, kv{k, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
			for i, x := range l {
				if i < 25 {
					c.logf("  forks %7d %s", x.n, x.k)
				}
			}
		}
		c.logf("%s: %s queries=%d (sat %d unsat %d unknown %d) solver=%.1fs reached=%v missing=%v native=%d/%d disagree=%d wall=%.1fs", h.ID, ex.summary(), rep.Queries, rep.QSat, rep.QUnsat,
			rep.QUnknown, rep.SolverS, ex.Reached, rep.Missing, rep.Agree, rep.Replayed, len(rep.Disagree), rep.WallS)
		for _, d := range rep.Disagree {
			c.logf("  disagreement: %s", clip(d, 2000))
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	var paths []string
	for i, cf := range conf {
		p := filepath.Join(c.verif, "evidence", fmt.Sprintf("%s-replay-%d.json", c.prop, i))
		if debugRun {
			p = filepath.Join(os.TempDir(), fmt.Sprintf("%s-replay-%d.json", c.prop, i))
		}
		os.MkdirAll(filepath.Dir(p), 0755)
		b, _ := json.MarshalIndent(map[string]any{"property": c.prop, "harness": cf.h.ID, "function": cf.h.PkgPath + "." + cf.h.Func, "violation": cf.v, "native": cf.res, "native_config": cf.cfg,
			"how_to_replay": "cd /verif && bin/gosym -replay " + p}, "", " ")
		os.WriteFile(p, b, 0644)
		paths = append(paths, p)
	}
	if !debugRun {
		c.writeEvidence(t0, tierName, reports, funcs, samples, len(conf), L)
	}
	for _, l := range knownLines {
		fmt.Println(l)
	}
	for i, cf := range conf {
		fmt.Printf("%s: %s: %s (native: %s %s)\n", cf.h.ID, cf.v.Kind, cf.v.Msg, cf.res.Status, strings.ReplaceAll(clip(cf.res.Msg, 400), "\n", " / "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, paths[i])
	}
	if len(conf) > 0 {
		return 1
	}
	return 0
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *checker) writeEvidence(t0 time.Time, tierName string, reps []*harnessReport, funcs map[string]bool, samples []any, nvio int, L *Loaded) {
	var paths, steps, agree, q, qs, qu, qk, asserts int64
	var st float64
	exh := true
	var repo, lib []string
	for _, f := range sortedKeys(funcs) {
		if strings.Contains(f, "zzverif") {
			continue
		}
		if strings.Contains(f, repoModule) {
			repo = append(repo, strings.ReplaceAll(f, repoModule+"/", ""))
		} else {
			lib = append(lib, f)
		}
	}
	for _, r := range reps {
		paths += r.Paths
		steps += r.Steps
		agree += int64(r.Agree)
		q += r.Queries
		qs += r.QSat
		qu += r.QUnsat
		qk += r.QUnknown
		st += r.SolverS
		asserts += r.Asserts
		if !r.Complete {
			exh = false
		}
	}
	cov := map[string]any{
		"states": paths, "transitions": steps, "traces_validated_against_impl": agree, "samples": samples,
		"rule":                 "states counts completed symbolic paths (each stands for every input satisfying its path condition); transitions counts SSA instructions executed symbolically",
		"functions_encoded":    repo,
		"library_functions":    lib,
		"assertions_evaluated": asserts,
		"solver":               solverBin, "solver_queries": q, "solver_sat": qs, "solver_unsat": qu, "solver_unknown": qk, "solver_s": st,
		"harnesses": reps, "exhaustive": exh,
	}
	ev := map[string]any{"property": c.prop, "tier": tierName, "seed": c.seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nvio,
		"assumptions": []string{
			"go/ssa (golang.org/x/tools) translates the source faithfully; the interpreter in /verif/gosym follows Go semantics (checked by replaying sampled paths natively)",
			"library models: fmt, strconv, strings/bytes scanning, sync, sync/atomic, time, os.File, proto.Marshal/Unmarshal for VertexLog (see DESIGN.md)",
			"the claim holds within the bounds listed per harness; whatever lies outside is not claimed",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0644)
}
