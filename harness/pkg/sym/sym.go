// Package sym is the interface between harnesses and the checker. Under the checker every function here is replaced by
// its symbolic meaning; the bodies below are the native ones, used to replay a solver-produced assignment on the real code.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lxdlam/vertex/pkg/zzverif/zzyield"
)

type request struct {
	Harness string                     `json:"harness"`
	Inputs  map[string]json.RawMessage `json:"inputs"`
	Tier    int                        `json:"tier"`
	Repeat  int                        `json:"repeat"`
	Jitter  int                        `json:"jitter"`
	Seed    int64                      `json:"seed"`
	Timeout int                        `json:"timeout_ms"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Runs   int      `json:"runs"`
	Fails  []string `json:"fails"`
	Reach  []string `json:"reach"`
}

type stop struct{}
type assumeFailed struct{}

var (
	mu    sync.Mutex
	req   request
	names map[string]int
	fails []string
	obs   []string
	reach []string
	tmp   string
)

func uniq(name string) string {
	mu.Lock()
	defer mu.Unlock()
	n := names[name]
	names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func number(name string) uint64 {
	raw, ok := req.Inputs[uniq(name)]
	if !ok {
		return 0
	}
	s := strings.Trim(string(raw), `"`)
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic("bad input " + name + " " + s)
	}
	return n
}

// Int64 is any 64-bit integer.
func Int64(name string) int64 { return int64(number(name)) }

// Int is any int.
func Int(name string) int { return int(number(name)) }

// Int32 is any 32-bit integer.
func Int32(name string) int32 { return int32(number(name)) }

// Byte is any byte.
func Byte(name string) byte { return byte(number(name)) }

// Bool is any bool.
func Bool(name string) bool { return number(name) != 0 }

// Range is any int in [lo, hi].
func Range(name string, lo, hi int) int {
	v := int(number(name))
	if v < lo {
		v = lo
	}
	if v > hi {
		v = hi
	}
	return v
}

// Choice is one of 0..n-1, explored case by case.
func Choice(name string, n int) int {
	v := int(number(name))
	if v >= n {
		v = 0
	}
	return v
}

// String is any string of n bytes.
func String(name string, n int) string {
	raw, ok := req.Inputs[uniq(name)]
	b := make([]byte, n)
	if ok {
		var l []int
		if err := json.Unmarshal(raw, &l); err != nil {
			panic(err)
		}
		for i := range b {
			if i < len(l) {
				b[i] = byte(l[i])
			}
		}
	}
	return string(b)
}

// StringOf is any string of n bytes over an alphabet.
func StringOf(name string, n int, alphabet string) string { return String(name, n) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		fails = append(fails, msg)
		mu.Unlock()
	}
}

// Reach marks a point that some input must reach (guards against vacuity).
func Reach(tag string) {
	mu.Lock()
	reach = append(reach, tag)
	mu.Unlock()
}

// Observe records values compared between the symbolic and the native execution.
func Observe(tag string, vals ...interface{}) {
	var l []string
	for _, v := range vals {
		l = append(l, render(v))
	}
	mu.Lock()
	obs = append(obs, tag+"="+strings.Join(l, ","))
	mu.Unlock()
}

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case int32:
		return strconv.FormatInt(int64(x), 10)
	case byte:
		return strconv.Itoa(int(x))
	case uint64:
		return strconv.FormatUint(x, 10)
	case string:
		return strconv.Quote(x)
	case []byte:
		var l []string
		for _, b := range x {
			l = append(l, strconv.Itoa(int(b)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case []string:
		var l []string
		for _, b := range x {
			l = append(l, strconv.Quote(b))
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	return "?"
}

// And, Or, Implies, IteInt and EqInt build conditions without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or is the disjunction.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Implies is a => b.
func Implies(a, b bool) bool { return !a || b }

// IteInt is c ? a : b.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Conc enumerates the feasible values of v.
func Conc(v int) int { return v }

// Case splits on c.
func Case(c bool) bool { return c }

// HasByte tells whether s contains c, without a case split.
func HasByte(s string, c byte) bool { return strings.IndexByte(s, c) >= 0 }

// ConcString enumerates the feasible values of s.
func ConcString(s string) string { return s }

// Tier is 0 for the quick and 1 for the thorough configuration.
func Tier() int { return req.Tier }

// Symbolic tells whether the harness runs under the checker.
func Symbolic() bool { return false }

var gostate = regexp.MustCompile(`(?m)^goroutine \d+ \[([^\]]*)\]`)

// Quiesce waits until every other goroutine is blocked with no timer it listens to left to fire.
func Quiesce() {
	stable := 0
	last := ""
	for i := 0; i < 4000; i++ {
		time.Sleep(3 * time.Millisecond)
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		busy := false
		states := gostate.FindAllStringSubmatch(string(buf), -1)
		for k, s := range states {
			if k == 0 {
				continue
			}
			st := s[1]
			if strings.HasPrefix(st, "running") || strings.HasPrefix(st, "runnable") || strings.HasPrefix(st, "sleep") || strings.HasPrefix(st, "syscall") {
				busy = true
			}
		}
		cur := gostateDump(string(buf))
		if !busy && cur == last {
			stable++
			if stable >= 7 {
				return
			}
		} else {
			stable = 0
		}
		last = cur
	}
}

var minutes = regexp.MustCompile(`, \d+ minutes`)

func gostateDump(s string) string { return minutes.ReplaceAllString(s, "") }

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// SchedPoint is a scheduling point.
func SchedPoint() { runtime.Gosched() }

// FreePort is a TCP port nobody listens on.
func FreePort() int {
	l, err := net.Listen("tcp", "0.0.0.0:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Bulk is a number of bytes that no connection takes before its peer reads: model under symbolic execution (which bounds
// connections by the harness option sockbuf), native on the real network.
func Bulk(model, native int) int { return native }

// TempDir is an empty scratch directory.
func TempDir() string {
	mu.Lock()
	defer mu.Unlock()
	if tmp == "" {
		d, err := ioutil.TempDir(os.Getenv("ZZ_TMP"), "run")
		if err != nil {
			panic(err)
		}
		tmp = d
	}
	return tmp
}

// Stop ends the path.
func Stop() { panic(stop{}) }

func runOnce(f func()) (status, msg string) {
	done := make(chan [2]string, 1)
	names = map[string]int{}
	fails, obs, reach = nil, nil, nil
	tmp = ""
	go func() {
		r := [2]string{"error", "harness goroutine exited"}
		defer func() { done <- r }()
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case stop:
					r = [2]string{"pass", ""}
				case assumeFailed:
					r = [2]string{"assume", ""}
				default:
					r = [2]string{"panic", fmt.Sprintf("%v\n%s", x, debug.Stack())}
				}
			}
		}()
		f()
		r = [2]string{"pass", ""}
	}()
	to := req.Timeout
	if to <= 0 {
		to = 4000
	}
	select {
	case r := <-done:
		status, msg = r[0], r[1]
	case <-time.After(time.Duration(to) * time.Millisecond):
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		return "hang", "the harness did not finish within " + strconv.Itoa(to) + " ms\n" + string(buf)
	}
	if status == "pass" {
		mu.Lock()
		if len(fails) > 0 {
			status, msg = "assert", fails[0]
		}
		mu.Unlock()
	}
	return
}

// Main replays requests read from standard input.
func Main(hs map[string]func()) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		var r request
		if e := json.Unmarshal(line, &r); e != nil {
			fmt.Fprintln(os.Stderr, "bad request:", e)
			os.Exit(3)
		}
		req = r
		f := hs[req.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "unknown harness", req.Harness)
			os.Exit(3)
		}
		n := req.Repeat
		if n < 1 {
			n = 1
		}
		var res result
		for i := 0; i < n; i++ {
			if req.Jitter > 0 {
				zzyield.Set(1+(i+req.Jitter)%3, req.Seed*1000003+int64(i))
			} else {
				zzyield.Set(0, 0)
			}
			res.Status, res.Msg = runOnce(f)
			zzyield.Set(0, 0)
			res.Runs = i + 1
			if res.Status != "pass" {
				break
			}
		}
		mu.Lock()
		res.Fails, res.Obs, res.Reach = append([]string(nil), fails...), append([]string(nil), obs...), append([]string(nil), reach...)
		d := tmp
		mu.Unlock()
		if d != "" {
			os.RemoveAll(d)
		}
		b, _ := json.Marshal(res)
		fmt.Fprintf(out, "\n@@RESULT %s\n", b)
		out.Flush()
		if res.Status == "hang" {
			os.Exit(0)
		}
	}
}
