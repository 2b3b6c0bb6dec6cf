package main

// Native replay: the harness and the real code compiled by the go tool, fed with a solver-produced assignment.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type nativeReq struct {
	Harness string         `json:"harness"`
	Inputs  map[string]any `json:"inputs"`
	Tier    int            `json:"tier"`
	Repeat  int            `json:"repeat"`
	Jitter  int            `json:"jitter"`
	Seed    int64          `json:"seed"`
	Timeout int            `json:"timeout_ms"`
	Fresh   bool           `json:"-"` // every run in a process of its own
}

type nativeRes struct {
	Status string   `json:"status"` // pass, assert, panic, hang, assume
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Runs   int      `json:"runs"`
	Fails  []string `json:"fails"`
	Reach  []string `json:"reach"`
}

func (r nativeRes) failed() bool {
	return r.Status == "assert" || r.Status == "panic" || r.Status == "hang"
}

type native struct {
	work string
	bins map[string]string
	hs   []*Harness
	ov   map[string]string
	err  error
}

// buildNative compiles the replay binary for the given harnesses against /repo's current tree.
func buildNative(work string, hs []*Harness, ov map[string]string, race, jitter bool) (string, error) {
	name := "replay"
	if race {
		name += "-race"
	}
	if jitter {
		name += "-jit"
	}
	gen := filepath.Join(work, name+"_main.go")
	var sb strings.Builder
	pk := map[string]string{}
	for _, h := range hs {
		pk[h.PkgPath] = h.PkgName
	}
	var paths []string
	for p := range pk {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	sb.WriteString("package main\n\nimport (\n\t\"" + zzPkg + "/sym\"\n")
	alias := map[string]string{}
	for i, p := range paths {
		alias[p] = fmt.Sprintf("h%d", i)
		fmt.Fprintf(&sb, "\t%s %q\n", alias[p], p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h.ID, alias[h.PkgPath], h.Func)
	}
	sb.WriteString("\t})\n}\n")
	if err := os.WriteFile(gen, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	extra := map[string]string{filepath.Join(repoDir, "cmd/client/zzverif/replay/main.go"): gen}
	if jitter {
		inst, err := instrument(work, name)
		if err != nil {
			return "", err
		}
		for k, v := range inst {
			extra[k] = v
		}
	}
	oj := filepath.Join(work, name+"_overlay.json")
	if err := writeOverlayJSON(ov, extra, oj); err != nil {
		return "", err
	}
	bin := filepath.Join(work, name)
	args := []string{"build", "-overlay", oj, "-o", bin}
	env := goEnv()
	if race {
		args = append(args, "-race")
		for i := range env {
			if strings.HasPrefix(env[i], "CGO_ENABLED=") {
				env[i] = "CGO_ENABLED=1"
			}
		}
	}
	args = append(args, "./cmd/client/zzverif/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, out)
	}
	return bin, nil
}

func runNative(bin string, reqs []nativeReq, limit time.Duration) []nativeRes {
	fresh := false
	for _, r := range reqs {
		fresh = fresh || r.Fresh
	}
	if !fresh {
		return runBatch(bin, reqs, limit)
	}
	t0 := time.Now()
	out := make([]nativeRes, len(reqs))
	for i, r := range reqs {
		n := r.Repeat
		if n < 1 {
			n = 1
		}
		r.Repeat = 1
		for k := 0; k < n && (k == 0 || time.Since(t0) < limit); k++ {
			q := r
			if q.Jitter > 0 {
				q.Jitter, q.Seed = 1+(r.Jitter+k)%3, r.Seed*1000+int64(k)
			}
			out[i] = runBatch(bin, []nativeReq{q}, limit)[0]
			out[i].Runs = k + 1
			if out[i].Status != "pass" {
				break
			}
		}
	}
	return out
}

func runBatch(bin string, reqs []nativeReq, limit time.Duration) []nativeRes {
	out := make([]nativeRes, len(reqs))
	i := 0
	for i < len(reqs) {
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, bin)
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, r := range reqs[i:] {
			enc.Encode(r)
		}
		cmd.Stdin = &in
		tmp, _ := os.MkdirTemp("", "gosym-replay")
		cmd.Env = append(os.Environ(), "ZZ_TMP="+tmp, "GORACE=halt_on_error=0 exitcode=0")
		cmd.Dir = tmp
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		so, err := cmd.StdoutPipe()
		if err != nil {
			cancel()
			return out
		}
		if err := cmd.Start(); err != nil {
			cancel()
			return out
		}
		sc := bufio.NewScanner(so)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		n := 0
		for sc.Scan() {
			l := sc.Text()
			if !strings.HasPrefix(l, "@@RESULT ") {
				continue
			}
			var r nativeRes
			if json.Unmarshal([]byte(l[9:]), &r) == nil && i+n < len(reqs) {
				out[i+n] = r
				n++
			}
		}
		werr := cmd.Wait()
		timedOut := ctx.Err() != nil
		cancel()
		os.RemoveAll(tmp)
		se := stderr.String()
		if strings.Contains(se, "WARNING: DATA RACE") {
			for k := i; k < i+n; k++ {
				if out[k].Status == "pass" {
					out[k].Status, out[k].Msg = "panic", "data race: "+clip(raceFrames(se), 1500)
				}
			}
		}
		if n > 0 && out[i+n-1].Status == "hang" {
			i += n
			continue // the process ends itself after reporting a hang
		}
		if i+n < len(reqs) {
			// the process died on request i+n
			r := &out[i+n]
			switch {
			case timedOut:
				r.Status, r.Msg = "hang", "no answer within the time limit"
			case strings.Contains(se, "all goroutines are asleep"):
				r.Status, r.Msg = "hang", "fatal error: all goroutines are asleep - deadlock!"
			case strings.Contains(se, "panic: ") || strings.Contains(se, "fatal error: "):
				r.Status, r.Msg = "panic", clip(se, 1500)
			default:
				r.Status, r.Msg = "error", clip(fmt.Sprintf("%v %s", werr, se), 800)
			}
			n++
		}
		i += n
	}
	return out
}

func raceFrames(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "vertex/") || strings.Contains(l, "DATA RACE") || strings.Contains(l, " at 0x") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 14 {
			break
		}
	}
	return strings.Join(keep, " | ")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
