package main

// Loading /repo's current source (plus the harness overlay) and building SSA.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const repoModule = "github.com/lxdlam/vertex"

// repoDir is /repo, except while developing against a scratch copy.
var repoDir = envOr("VERIF_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

const zzPkg = repoModule + "/pkg/zzverif"
const zzCmd = repoModule + "/cmd/client/zzverif"

type Loaded struct {
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	order        []*ssa.Package // dependency order
	subst        map[string]*ssa.Function
	errorStringT types.Type
	wrapErrorT   types.Type
	wrapErrorsT  types.Type
	fmtErrT      types.Type
	sizes        types.Sizes
	mu           sync.Mutex
	canonMap     typeutil.Map
	allow        map[*ssa.Package]bool
	storedGlobs  map[*ssa.Package][]*ssa.Global
	NFiles       int
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOSUMDB", "GO111MODULE", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0", "GO111MODULE=on", "GOWORK=off")
}

// overlayFiles maps virtual paths under /repo to harness files under /verif/harness; only sym, its helpers and the given
// harness directories are taken.
func overlayFiles(verif string, dirs map[string]bool) map[string]string {
	out := map[string]string{}
	root := filepath.Join(verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		parts := strings.SplitN(rel, string(filepath.Separator), 2)
		d := filepath.Dir(rel)
		if !dirs[filepath.Dir(p)] && d != "pkg/sym" && d != "pkg/models" && d != "pkg/zzyield" && !strings.HasPrefix(d, "pkg/lib") {
			return nil
		}
		switch parts[0] {
		case "pkg":
			out[filepath.Join(repoDir, "pkg/zzverif", parts[1])] = p
		case "client":
			out[filepath.Join(repoDir, "cmd/client/zzverif", parts[1])] = p
		}
		return nil
	})
	return out
}

func writeOverlayJSON(files map[string]string, gen map[string]string, path string) error {
	m := map[string]map[string]string{"Replace": {}}
	for k, v := range files {
		m["Replace"][k] = v
	}
	for k, v := range gen {
		m["Replace"][k] = v
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return os.WriteFile(path, b, 0644)
}

func Load(files map[string]string) (*Loaded, error) {
	ov := map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	dirs := map[string]bool{}
	for k := range ov {
		dirs["./"+strings.TrimPrefix(filepath.Dir(k), repoDir+"/")] = true
	}
	var pats []string
	for d := range dirs {
		pats = append(pats, d)
	}
	sort.Strings(pats)
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Env:     goEnv(),
		Overlay: ov,
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, fmt.Sprintf("%s: %v", p.PkgPath, e))
		}
	})
	if len(errs) > 0 {
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	L := &Loaded{prog: prog, pkgs: map[string]*ssa.Package{}, subst: map[string]*ssa.Function{}, allow: map[*ssa.Package]bool{}, storedGlobs: map[*ssa.Package][]*ssa.Global{}}
	L.canonMap.SetHasher(typeutil.MakeHasher())
	L.sizes = types.SizesFor("gc", "amd64")
	for _, p := range prog.AllPackages() {
		L.pkgs[p.Pkg.Path()] = p
		L.allow[p] = allowedPkg(p.Pkg.Path())
	}
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		if sp := L.pkgs[p.PkgPath]; sp != nil {
			L.order = append(L.order, sp)
		}
	}
	for _, p := range ps {
		visit(p)
	}
	for _, p := range L.order {
		L.storedGlobs[p] = globalsStored(p)
	}
	named := func(pkg, name string, ptr bool) types.Type {
		p := L.pkgs[pkg]
		if p == nil {
			return nil
		}
		t := p.Type(name)
		if t == nil {
			return nil
		}
		if ptr {
			return L.canonical(types.NewPointer(t.Type()))
		}
		return L.canonical(t.Type())
	}
	L.errorStringT = named("errors", "errorString", true)
	L.fmtErrT = named("fmt", "fmtError", true)
	L.wrapErrorT = named("fmt", "wrapError", true)
	L.wrapErrorsT = named("fmt", "wrapErrors", true)
	if mp := L.pkgs[zzPkg+"/models"]; mp != nil {
		for target, name := range substTable {
			f := mp.Func(name)
			if f == nil {
				return nil, fmt.Errorf("models.%s missing", name)
			}
			L.subst[target] = f
		}
	}
	return L, nil
}

func globalsStored(p *ssa.Package) []*ssa.Global {
	set := map[*ssa.Global]bool{}
	var fns []*ssa.Function
	if f := p.Func("init"); f != nil {
		fns = append(fns, f)
	}
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init#") {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					a := s.Addr
					for {
						switch x := a.(type) {
						case *ssa.FieldAddr:
							a = x.X
							continue
						case *ssa.IndexAddr:
							a = x.X
							continue
						}
						break
					}
					if g, ok := a.(*ssa.Global); ok && g.Pkg == p {
						set[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Global
	for g := range set {
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// packages whose bodies are interpreted.
var allowStd = map[string]bool{
	"errors": true, "io": true, "bufio": true, "bytes": true, "strings": true, "strconv": true, "internal/strconv": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true, "sort": true, "slices": true,
	"maps": true, "cmp": true, "iter": true, "hash": true, "hash/fnv": true, "encoding/binary": true, "sync": true, "sync/atomic": true,
	"time": true, "container/list": true, "container/heap": true, "container/ring": true, "internal/stringslite": true,
	"internal/bytealg": true, "internal/byteorder": true, "internal/itoa": true, "context": true, "text/scanner": true, "hash/maphash": true,
	"internal/sync": true, "io/fs": true, "path": true, "hash/crc32": true, "internal/fmtsort": true, "math/rand": true, "encoding/hex": true,
	"github.com/pelletier/go-toml": true, "go.uber.org/zap": true, "go.uber.org/zap/zapcore": true, "go.uber.org/zap/buffer": true, "go.uber.org/zap/internal/bufferpool": true, "go.uber.org/zap/internal/exit": true, "go.uber.org/zap/internal/color": true, "go.uber.org/multierr": true, "go.uber.org/atomic": true, "regexp": true, "regexp/syntax": true, "io/ioutil": true,
	"path/filepath": true, "internal/filepathlite": true, "unsafe": true, "internal/oserror": true, "crypto/subtle": false,
}

func allowedPkg(path string) bool {
	if strings.HasPrefix(path, repoModule) {
		return true
	}
	return allowStd[path]
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	return nil
}

func (L *Loaded) denied(fn *ssa.Function) bool {
	p := pkgOf(fn)
	if p == nil {
		return false // wrappers, bounds
	}
	return !L.allow[p]
}

func (L *Loaded) canonical(t types.Type) types.Type {
	L.mu.Lock()
	defer L.mu.Unlock()
	if c := L.canonMap.At(t); c != nil {
		return c.(types.Type)
	}
	L.canonMap.Set(t, t)
	return t
}

func (L *Loaded) method(t types.Type, meth *types.Func) *ssa.Function {
	L.mu.Lock()
	defer L.mu.Unlock()
	sel := L.prog.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	return L.prog.MethodValue(sel)
}

// methodByName finds a method of t by (exported) name.
func (L *Loaded) methodByName(t types.Type, name string) *ssa.Function {
	L.mu.Lock()
	defer L.mu.Unlock()
	sel := L.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return L.prog.MethodValue(sel)
}

// Poison marks a global whose initialiser was not executed.
type Poison struct{ name string }

// initAll runs package initialisers, tolerating the ones that cannot be interpreted.
func (m *Machine) initAll() (problems []string) {
	L := m.L
	m.initing = true
	m.poison = map[*ssa.Global]string{}
	for _, p := range L.order {
		if !L.allow[p] {
			for _, g := range L.storedGlobs[p] {
				m.poison[g] = g.String()
			}
		}
	}
	m.maxSteps = 1 << 60
	m.path = newPath(m.w, workItem{nil, Model{}})
	done := map[*ssa.Package]bool{}
	for _, p := range L.order {
		if done[p] || !L.allow[p] {
			continue
		}
		done[p] = true
		f := p.Func("init")
		if f == nil {
			continue
		}
		err := m.runMain(func() { m.call(f, nil, nil) })
		if err != nil {
			msg := ""
			switch e := err.(type) {
			case unsupported:
				msg = e.msg
			case *targetPanic:
				msg = e.msg
			case pathAbort:
				msg = e.msg
			default:
				msg = fmt.Sprint(err)
			}
			problems = append(problems, p.Pkg.Path()+": "+msg)
			for _, g := range L.storedGlobs[p] {
				if v, ok := m.globals[g]; !ok || v.K == KNone {
					m.poison[g] = g.String()
				}
			}
		}
	}
	// variables of packages that are not interpreted
	if p := L.pkgs["net"]; p != nil {
		if g := p.Var("ErrClosed"); g != nil {
			*m.global(g) = m.errValue("use of closed network connection")
			delete(m.poison, g)
		}
	}
	if p := L.pkgs["time"]; p != nil {
		for _, n := range [][2]string{{"UTC", "utcLoc"}, {"Local", "localLoc"}} {
			if g, u := p.Var(n[0]), p.Var(n[1]); g != nil && u != nil {
				*m.global(g) = Value{K: KPtr, P: m.global(u)}
				delete(m.poison, g)
			}
		}
	}
	if p, o := L.pkgs["os"], L.pkgs["internal/oserror"]; p != nil && o != nil {
		for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
			if g := p.Var(n); g != nil {
				s := &Value{}
				*s = zeroOf(p.Type("File").Type())
				m.std[s] = n
				*m.global(g) = Value{K: KPtr, P: s}
				delete(m.poison, g)
			}
		}
		for _, n := range []string{"ErrClosed", "ErrExist", "ErrNotExist", "ErrInvalid", "ErrPermission"} {
			if g, h := p.Var(n), o.Var(n); g != nil && h != nil {
				*m.global(g) = *m.global(h)
				delete(m.poison, g)
			}
		}
	}
	m.initing = false
	m.fns = map[*ssa.Function]*fnInfo{}
	m.undo = nil
	return
}
