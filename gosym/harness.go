package main

// Harness discovery: annotated functions in /verif/harness.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Harness struct {
	ID       string
	Prop     string
	PkgPath  string
	PkgName  string
	Func     string
	Quick    time.Duration
	Thorough time.Duration
	Explore  bool
	Race     bool
	MapOrder bool
	Preempt  [2]int
	Delay    [2]int
	Demote   [2]int
	Timers   int
	Draws    [2]int
	Prng     [2]int
	Sockbuf  int
	Steps    int64
	Only     string
	Bounds   []string
	Reach    []string
	Stress   int
	NoSample bool
	Fresh    bool
	Dir      string
}

func (h *Harness) opts(tier int) harnessOpts {
	return harnessOpts{mapOrder: h.MapOrder, explore: h.Explore, race: h.Race, preempt: h.Preempt[tier], delay: h.Delay[tier], demote: h.Demote[tier], timerMax: h.Timers, maxDraws: h.Draws[tier], prng: h.Prng[tier], sockbuf: h.Sockbuf, maxSteps: h.Steps}
}

func (h *Harness) budget(tier int) time.Duration {
	if tier == 1 {
		return h.Thorough
	}
	return h.Quick
}

func findHarnesses(verif string) ([]*Harness, error) {
	var out []*Harness
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		parts := strings.SplitN(rel, string(filepath.Separator), 2)
		base := ""
		switch parts[0] {
		case "pkg":
			base = zzPkg
		case "client":
			base = zzCmd
		default:
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			var h *Harness
			for _, c := range fd.Doc.List {
				t := strings.TrimPrefix(c.Text, "//")
				switch {
				case strings.HasPrefix(t, "verif:harness "):
					h = &Harness{PkgPath: base + "/" + filepath.ToSlash(filepath.Dir(parts[1])), PkgName: f.Name.Name, Func: fd.Name.Name,
						Quick: 40 * time.Second, Thorough: 600 * time.Second, Preempt: [2]int{-1, -1}, Delay: [2]int{-1, -1}, Demote: [2]int{-1, -1}, Timers: 40, Steps: 6000000, Stress: 400, Dir: filepath.Dir(p)}
					for _, w := range strings.Fields(t)[1:] {
						k, v := w, ""
						if i := strings.IndexByte(w, '='); i >= 0 {
							k, v = w[:i], w[i+1:]
						}
						n, _ := strconv.Atoi(v)
						switch k {
						case "id":
							h.ID = v
							h.Prop = v
							if i := strings.IndexByte(v, '.'); i >= 0 {
								h.Prop = v[:i]
							}
						case "quick":
							h.Quick = time.Duration(n) * time.Second
						case "thorough":
							h.Thorough = time.Duration(n) * time.Second
						case "explore":
							h.Explore = true
						case "race":
							h.Race = true
						case "maporder":
							h.MapOrder = true
						case "fresh":
							h.Fresh = true
						case "nosample":
							h.NoSample = true
						case "preempt":
							h.Preempt[0], h.Preempt[1] = n, n
							if i := strings.IndexByte(v, ','); i >= 0 {
								h.Preempt[0], _ = strconv.Atoi(v[:i])
								h.Preempt[1], _ = strconv.Atoi(v[i+1:])
							}
						case "delay":
							h.Delay[0], h.Delay[1] = n, n
							if i := strings.IndexByte(v, ','); i >= 0 {
								h.Delay[0], _ = strconv.Atoi(v[:i])
								h.Delay[1], _ = strconv.Atoi(v[i+1:])
							}
						case "demote":
							h.Demote[0], h.Demote[1] = n, n
							if i := strings.IndexByte(v, ','); i >= 0 {
								h.Demote[0], _ = strconv.Atoi(v[:i])
								h.Demote[1], _ = strconv.Atoi(v[i+1:])
							}
						case "draws":
							h.Draws[0], h.Draws[1] = n, n
							if i := strings.IndexByte(v, ','); i >= 0 {
								h.Draws[0], _ = strconv.Atoi(v[:i])
								h.Draws[1], _ = strconv.Atoi(v[i+1:])
							}
						case "prng":
							h.Prng[0], h.Prng[1] = n, n
							if i := strings.IndexByte(v, ','); i >= 0 {
								h.Prng[0], _ = strconv.Atoi(v[:i])
								h.Prng[1], _ = strconv.Atoi(v[i+1:])
							}
						case "timers":
							h.Timers = n
						case "sockbuf":
							h.Sockbuf = n
						case "steps":
							h.Steps = int64(n)
						case "only":
							h.Only = v
						case "stress":
							h.Stress = n
						default:
							return fmt.Errorf("%s: unknown harness option %q", p, w)
						}
					}
				case strings.HasPrefix(t, "verif:bounds ") && h != nil:
					h.Bounds = append(h.Bounds, strings.TrimPrefix(t, "verif:bounds "))
				case strings.HasPrefix(t, "verif:reach ") && h != nil:
					h.Reach = append(h.Reach, strings.Fields(t)[1:]...)
				}
			}
			if h == nil {
				continue
			}
			if h.Demote[0] >= 0 && h.Delay[0] >= 0 {
				// the same harness under both ways of bounding schedules
				d := *h
				d.ID += ".demote"
				d.Bounds = append(append([]string{}, h.Bounds...), fmt.Sprintf("(second exploration) schedules with at most %d (quick) / %d (thorough) demotions: a demoted goroutine runs only when no other can", h.Demote[0], h.Demote[1]))
				h.Demote = [2]int{-1, -1}
				out = append(out, &d)
			}
			out = append(out, h)
		}
		return nil
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out, err
}
