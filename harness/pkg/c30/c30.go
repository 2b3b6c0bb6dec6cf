// Package c30 checks the program's log: what is written to it, and what the callers get back.
package c30

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

const (
	debug = iota
	info
	warn
	fail
	fatal
)

var names = []string{"debug", "info", "warn", "error", "fatal"}

// threshold is the level from which messages are kept.
func threshold(level string, dbg bool) int {
	if dbg {
		return debug
	}
	switch level {
	case "WARN":
		return warn
	case "ERROR":
		return fail
	case "FATAL":
		return fatal
	}
	return info
}

// say logs a message in one of the eight ways and returns its level and what the line must say.
func say(way int, text string, num int) (int, string) {
	switch way {
	case 0:
		common.Debug(text)
		return debug, text
	case 1:
		common.Debugf("d %s %d|", text, num)
		return debug, fmt.Sprintf("d %s %d|", text, num)
	case 2:
		common.Info(text)
		return info, text
	case 3:
		common.Infof("i %s %d|", text, num)
		return info, fmt.Sprintf("i %s %d|", text, num)
	case 4:
		common.Warn(text)
		return warn, text
	case 5:
		common.Warnf("w %s %d|", text, num)
		return warn, fmt.Sprintf("w %s %d|", text, num)
	case 6:
		err := common.Error(text)
		sym.Assert(err != nil && err.Error() == text, "Error does not return an error with the given message")
		return fail, text
	}
	want := fmt.Sprintf("e %s %d|", text, num)
	err := common.Errorf("e %s %d|", text, num)
	sym.Assert(err != nil && err.Error() == want, "Errorf does not return an error with the formatted message")
	return fail, want
}

// valid is s with every byte that is no part of a valid UTF-8 sequence replaced, as JSON needs.
func valid(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	}
	return int(c-'A') + 10
}

// unescape decodes a JSON string body up to its closing quote and returns what follows the quote.
func unescape(s string) (string, string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			return b.String(), s[i+1:], true
		}
		if c != '\\' {
			if c < 0x20 {
				return "", "", false
			}
			b.WriteByte(c)
			continue
		}
		i++
		if i >= len(s) {
			return "", "", false
		}
		switch s[i] {
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case '"', '\\', '/':
			b.WriteByte(s[i])
		case 'u':
			if i+4 >= len(s) {
				return "", "", false
			}
			r := rune(hexVal(s[i+1])<<12 | hexVal(s[i+2])<<8 | hexVal(s[i+3])<<4 | hexVal(s[i+4]))
			b.WriteRune(r)
			i += 4
		default:
			return "", "", false
		}
	}
	return "", "", false
}

type entry struct {
	level int
	text  string
}

// match checks that log starts with a line for e and returns the rest.
func match(log string, e entry, dbg bool) string {
	if dbg {
		// time, level, caller and message, separated by tabs; the message as it is
		f := strings.SplitN(log, "\t", 4)
		sym.Assert(len(f) == 4, "a message is missing in the log")
		sym.Assert(f[1] == strings.ToUpper(names[e.level]), "a message is logged at another level")
		sym.Assert(strings.HasPrefix(f[3], e.text+"\n"), "a logged message does not say what was given")
		return f[3][len(e.text)+1:]
	}
	sym.Assert(strings.HasPrefix(log, "{\"level\":\""), "a message is missing in the log")
	sym.Assert(strings.HasPrefix(log, "{\"level\":\""+names[e.level]+"\""), "a message is logged at another level")
	i := strings.Index(log, "\"msg\":\"")
	sym.Assert(i >= 0, "a log line has no message")
	got, rest, ok := unescape(log[i+len("\"msg\":\""):])
	sym.Assert(ok, "a log line is no JSON object")
	sym.Assert(got == valid(e.text), "a logged message does not say what was given")
	sym.Assert(strings.HasPrefix(rest, "}\n"), "a log line does not end where its message ends")
	return rest[2:]
}

func read(p string) string {
	b, err := os.ReadFile(p)
	sym.Assert(err == nil, "the log file cannot be read")
	return string(b)
}

// Messages of every kind and level.
//
//verif:harness id=C30.messages quick=60 thorough=200 fresh
//verif:bounds one to 2 (quick) / 3 (thorough) messages logged with any of the eight functions, each with a text of at most one arbitrary byte; level WARN, INFO, ERROR, FATAL, DEBUG or another word; debug mode or not; the file is new or already has text
func Messages() {
	p := sym.TempDir() + "/vertex.log"
	old := ""
	if sym.Bool("old file") {
		old = "earlier\n"
		sym.Assert(os.WriteFile(p, []byte(old), 0644) == nil, "setup")
	}
	dbg := sym.Bool("debug")
	level := []string{"WARN", "INFO", "ERROR", "FATAL", "DEBUG", "warn"}[sym.Choice("level", 6)]
	n := 1 + sym.Choice("messages", 2+sym.Tier())
	size := sym.Choice("len", 2)
	ways, texts, nums := make([]int, n), make([]string, n), make([]int, n)
	for i := range ways {
		ways[i] = sym.Choice("way", 8)
		texts[i] = sym.String("text", size)
		nums[i] = []int{7, -120}[i%2]
	}
	common.InitLog(common.Config{LogPath: p, LogLevel: level}, dbg)
	var want []entry
	for i := range ways {
		l, t := say(ways[i], texts[i], nums[i])
		if l >= threshold(level, dbg) {
			want = append(want, entry{l, t})
		}
		log := read(p)
		sym.Assert(strings.HasPrefix(log, old), "an earlier log is lost")
		log = log[len(old):]
		for _, e := range want {
			log = match(log, e, dbg)
		}
		sym.Assert(log == "", "the log has more than the messages of its level")
	}
	common.ShutdownLog()
	sym.Observe("kept", len(want))
}

// The text is anything.
//
//verif:harness id=C30.text quick=60 thorough=200 fresh
//verif:bounds one message, plain or formatted, with a text of at most 2 (quick) / 3 (thorough) arbitrary bytes and any number of -11..101, debug mode or not
func Text() {
	p := sym.TempDir() + "/vertex.log"
	dbg := sym.Bool("debug")
	text := sym.String("text", sym.Choice("len", 3+sym.Tier()))
	common.InitLog(common.Config{LogPath: p, LogLevel: "INFO"}, dbg)
	l, t := say(4+sym.Choice("way", 2), text, sym.Range("num", -11, 101))
	sym.Assert(match(read(p), entry{l, t}, dbg) == "", "the log has more than the messages of its level")
}

// The level is any text.
//
//verif:harness id=C30.level quick=40 thorough=120 fresh
//verif:bounds the configured level is any text of at most 5 bytes, one message at each level, not in debug mode
func Level() {
	p := sym.TempDir() + "/vertex.log"
	level := sym.String("level", sym.Choice("len", 6))
	common.InitLog(common.Config{LogPath: p, LogLevel: level}, false)
	th := threshold(level, false)
	var want []entry
	for way := 0; way < 8; way++ {
		l, t := say(way, "m", way)
		if l >= th {
			want = append(want, entry{l, t})
		}
	}
	log := read(p)
	for _, e := range want {
		log = match(log, e, false)
	}
	sym.Assert(log == "", "the log has more than the messages of its level")
	sym.Observe("kept", len(want))
}

// Without arguments, and before the log is set up.
//
//verif:harness id=C30.plain quick=30 thorough=60 fresh
//verif:bounds the formatting functions called without arguments, and all functions called before InitLog (texts of at most 3 arbitrary bytes without a percent sign)
func Plain() {
	text := sym.String("text", sym.Choice("len", 4))
	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] != '%')
	}
	for way := 0; way < 8; way++ {
		say(way, text, 7) // nothing to write to yet: no crash, and errors are still returned
	}
	p := sym.TempDir() + "/vertex.log"
	dbg := sym.Bool("debug")
	common.InitLog(common.Config{LogPath: p, LogLevel: "INFO"}, dbg)
	sym.Assert(read(p) == "", "something is logged before anything is said")
	var want []entry
	if dbg {
		common.Debugf(text)
		want = append(want, entry{debug, text})
	}
	common.Infof(text)
	want = append(want, entry{info, text})
	common.Warnf(text)
	want = append(want, entry{warn, text})
	err := common.Errorf(text)
	sym.Assert(err != nil && err.Error() == text, "Errorf does not return an error with the formatted message")
	want = append(want, entry{fail, text})
	log := read(p)
	for _, e := range want {
		log = match(log, e, dbg)
	}
	sym.Assert(log == "", "the log has more than the messages of its level")
}

// panics runs f and returns what it panics with.
func panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// Panic logs, then panics with the message.
//
//verif:harness id=C30.panic quick=30 thorough=60 fresh
//verif:bounds Panic and Panicf with a text of at most 2 arbitrary bytes, at any level
func Panic() {
	text := sym.String("text", sym.Choice("len", 3))
	num := -31
	p := sym.TempDir() + "/vertex.log"
	level := []string{"WARN", "INFO", "ERROR", "FATAL"}[sym.Choice("level", 4)]
	common.InitLog(common.Config{LogPath: p, LogLevel: level}, false)
	want := text
	var r interface{}
	if sym.Bool("formatted") {
		want = fmt.Sprintf("p %s %d|", text, num)
		r = panics(func() { common.Panicf("p %s %d|", text, num) })
	} else {
		r = panics(func() { common.Panic(text) })
	}
	s, ok := r.(string)
	sym.Assert(ok, "Panic does not panic")
	sym.Assert(s == want, "Panic panics with another message")
	log := read(p)
	if level == "FATAL" {
		sym.Assert(log == "", "the log has more than the messages of its level")
		return
	}
	i := strings.Index(log, "\"msg\":\"")
	sym.Assert(strings.HasPrefix(log, "{\"level\":\"panic\"") && i > 0, "a panic is not logged")
	got, _, ok := unescape(log[i+len("\"msg\":\""):])
	sym.Assert(ok && got == valid(want), "a logged message does not say what was given")
}

// Fatal does not return.
//
//verif:harness id=C30.fatal quick=20 thorough=40 fresh nosample
//verif:bounds Fatal and Fatalf with a text of at most 2 arbitrary bytes, at any level, debug mode or not
func Fatal() {
	text := sym.String("text", sym.Choice("len", 3))
	p := sym.TempDir() + "/vertex.log"
	level := []string{"WARN", "INFO", "ERROR", "FATAL"}[sym.Choice("level", 4)]
	common.InitLog(common.Config{LogPath: p, LogLevel: level}, sym.Bool("debug"))
	if sym.Bool("formatted") {
		common.Fatalf("f %s", text)
	} else {
		common.Fatal(text)
	}
	sym.Assert(false, "Fatal returns")
}

// Messages logged at the same time.
//
//verif:harness id=C30.together quick=40 thorough=200 explore race delay=2,3 demote=2,3 fresh
//verif:bounds two goroutines, each logging two messages of different levels, while the log is flushed every 30 seconds; every schedule with at most 2 (quick) / 3 (thorough) delays; data races are violations
func Together() {
	p := sym.TempDir() + "/vertex.log"
	way := sym.Choice("way", 3)
	common.InitLog(common.Config{LogPath: p, LogLevel: "INFO"}, false)
	var wg sync.WaitGroup
	got := make([][]entry, 2)
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2; k++ {
				l, t := say(2+2*((way+k)%3)+i%2, []string{"a", "b"}[i], k)
				got[i] = append(got[i], entry{l, t})
			}
		}()
	}
	wg.Wait()
	common.ShutdownLog()
	log := read(p)
	at := []int{0, 0}
	for k := 0; k < 4; k++ {
		i := strings.Index(log, "\"msg\":\"")
		sym.Assert(i >= 0, "a message is missing in the log")
		text, rest, ok := unescape(log[i+len("\"msg\":\""):])
		sym.Assert(ok, "a log line is no JSON object")
		who := 0
		if at[0] >= 2 || got[0][at[0]].text != text {
			who = 1
		}
		sym.Assert(at[who] < 2 && got[who][at[who]].text == text, "a goroutine's messages are not logged once each, in order")
		sym.Assert(strings.HasPrefix(log, "{\"level\":\""+names[got[who][at[who]].level]+"\""), "a message is logged at another level")
		at[who]++
		sym.Assert(strings.HasPrefix(rest, "}\n"), "a log line does not end where its message ends")
		log = rest[2:]
	}
	sym.Assert(log == "", "the log has more than the messages of its level")
}

// Many messages and long ones.
//
//verif:harness id=C30.many quick=60 thorough=200 fresh steps=200000000
//verif:bounds 130 messages logged with all functions in turn, none or one in nine with 300 bytes more, or 40 of which three have 5000 bytes more, or 17 of which one has 70000 bytes more, two with an arbitrary byte; level INFO or ERROR, debug mode or not
func Many() {
	p := sym.TempDir() + "/vertex.log"
	dbg := sym.Bool("debug")
	level := []string{"INFO", "ERROR"}[sym.Choice("level", 2)]
	n, step, size := 130, 200, 0
	switch sym.Choice("sizes", 4) {
	case 1:
		step, size = 9, 300
	case 2:
		n, step, size = 40, 13, 5000
	case 3:
		n, step, size = 17, 40, 70000
	}
	long := make([]byte, size)
	for i := range long {
		long[i] = byte('a' + i%26)
	}
	x, y := sym.String("x", 1), sym.String("y", 1)
	common.InitLog(common.Config{LogPath: p, LogLevel: level}, dbg)
	var want []entry
	for i := 0; i < n; i++ {
		t := "m"
		if i == 4 {
			t = x
		} else if i == n-1 {
			t = y
		}
		if i%step == 6 {
			t += string(long)
		}
		l, text := say(i%8, t, i)
		if l >= threshold(level, dbg) {
			want = append(want, entry{l, text})
		}
	}
	log := read(p)
	for _, e := range want {
		log = match(log, e, dbg)
	}
	sym.Assert(log == "", "the log has more than the messages of its level")
	common.ShutdownLog()
}
