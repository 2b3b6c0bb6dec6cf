// Package c28 checks that records written after a restart on a torn database file are recovered.
package c28

import (
	"io/ioutil"
	"strings"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// write is an append of a text to a key.
type write struct{ key, text string }

// history is a file and the writes that a server started on it must know.
type history struct {
	file   string
	writes []write
}

// reply is what reading a key must answer.
func (h *history) reply(key string) string {
	v, n, found := "", 0, false
	for _, w := range h.writes {
		if w.key == key {
			v += w.text
			n += len(w.text)
			found = true
		}
	}
	if !found {
		return "$-1\r\n"
	}
	return "$" + lib.Itoa(n) + "\r\n" + v + "\r\n"
}

func (h *history) check(c *lib.Client, probes []string) {
	for _, k := range probes {
		sym.Assert(c.Ask("get", k) == h.reply(k), "a record is lost or invented")
	}
}

// run starts a server on the file, checks what it holds, writes and stops it.
func (h *history) run(probes []string, writes ...write) {
	s := lib.StartServer(common.Config{DatabaseFile: h.file})
	c := lib.Dial(s.Port)
	h.check(c, probes)
	for _, w := range writes {
		h.writes = append(h.writes, w)
		sym.Assert(c.Ask("append", w.key, w.text)[0] == ':', "a wrong reply")
	}
	h.check(c, probes)
	s.Stop()
}

// tear makes the file end in the first cut bytes of a record.
func (h *history) tear(cut int, w write) {
	b, err := ioutil.ReadFile(h.file)
	if err != nil {
		b = nil
	}
	rec := lib.Packed(lib.Record("append", w.key, w.text))
	if cut > len(rec) {
		sym.Stop()
	}
	if cut == len(rec) {
		h.writes = append(h.writes, w)
		sym.Reach("whole")
	}
	sym.Assert(ioutil.WriteFile(h.file, append(append([]byte(nil), b...), rec[:cut]...), 0755) == nil, "cannot write the file")
}

const maxRecord = 220

// one is a text of 0..1 arbitrary bytes.
func one(name string) string { return sym.String(name, sym.Choice(name+".len", 2)) }

// complete adds complete records.
func (h *history) complete(key string, n int) {
	all := ""
	for i := 0; i < n; i++ {
		w := write{key, sym.String("b"+lib.Itoa(i), 1)}
		h.writes = append(h.writes, w)
		all += lib.Packed(lib.Record("append", w.key, w.text))
	}
	sym.Assert(ioutil.WriteFile(h.file, []byte(all), 0755) == nil, "cannot write the file")
}

func start() *history { return &history{file: sym.TempDir() + "/db"} }

// One crash.
//
//verif:harness id=C28.torn quick=90 thorough=300 fresh
//verif:bounds 0..2 complete records, then a record cut at any byte; a restart, 0..2 writes, and another restart; keys of 1 arbitrary byte each, values of 1 arbitrary byte (0..1 in the torn record); one schedule
//verif:reach whole
func Torn() {
	h := start()
	key, torn, later := sym.String("key", 1), sym.String("key.torn", 1), sym.String("key.later", 1)
	h.complete(key, sym.Choice("before", 3))
	h.tear(sym.Choice("cut", maxRecord), write{torn, one("torn")})
	writes := []write{{later, sym.String("x", 1)}, {key, sym.String("y", 1)}}
	probes := []string{key, torn, later}
	h.run(probes, writes[:sym.Choice("after", 3)]...)
	h.run(probes)
}

// Two crashes.
//
//verif:harness id=C28.twice quick=90 thorough=900 fresh
//verif:bounds a complete record, a record cut at any byte, a restart and 0..1 writes, another record cut at any byte (quick: at one of 16 bytes), a restart and 1 write, and another restart; values of 1 arbitrary byte; one schedule
//verif:reach whole
func Twice() {
	h := start()
	h.complete("k", 1)
	h.tear(sym.Choice("cut", maxRecord), write{"k", sym.String("torn", 1)})
	writes := []write{{"k", sym.String("x", 1)}, {"k", sym.String("y", 1)}}
	n := sym.Choice("between", 2)
	k := []string{"k"}
	h.run(k, writes[:n]...)
	second := 0
	if sym.Tier() == 0 {
		second = []int{0, 1, 2, 3, 4, 5, 6, 7, 20, 41, 42, 43, 70, 100, 120, 130}[sym.Choice("second", 16)]
	} else {
		second = sym.Choice("second", maxRecord)
	}
	h.tear(second, write{"k", sym.String("torn2", 1)})
	h.run(k, writes[n:n+1]...)
	h.run(k)
}

// A long torn record.
//
//verif:harness id=C28.long quick=60 thorough=200 fresh
//verif:bounds a record of a value of 5000 bytes cut at 14 places around the sizes of the reader's and the writer's buffers, with one complete record before; a restart, one write of 1 byte or 5000, and another restart
func Long() {
	h := start()
	h.complete("k", 1)
	cut := []int{3, 4, 5, 100, 4080, 4085, 4090, 4091, 4092, 4096, 4100, 5000, 5200, 8192}[sym.Choice("cut", 14)]
	h.tear(cut, write{"k", strings.Repeat("t", 5000) + sym.String("torn", 1)})
	h.run([]string{"k"}, write{"k", []string{sym.String("x", 1), strings.Repeat("u", 5000)}[sym.Choice("write", 2)]})
	h.run([]string{"k"})
}

// One crash, many schedules.
//
//verif:harness id=C28.schedules quick=60 thorough=600 explore delay=1,2 demote=1,2 fresh
//verif:bounds a complete record, then one cut after 2, 4 or 30 bytes; a restart, one write, and another restart; schedules with at most 1 (quick) / 2 (thorough) delays or demotions
func Schedules() {
	h := start()
	h.complete("k", 1)
	h.tear([]int{2, 4, 30}[sym.Choice("cut", 3)], write{"k", "t"})
	h.run([]string{"k"}, write{"k", sym.String("x", 1)})
	h.run([]string{"k"})
}

// Many records.
//
//verif:harness id=C28.many quick=60 thorough=300 fresh steps=200000000
//verif:bounds 40, 130 or 300 complete records to 5 keys, then one cut after 0, 2, 4, 30 bytes or whole; a restart, 20 writes, and another restart; three values arbitrary
func Many() {
	h := start()
	n := []int{40, 130, 300}[sym.Choice("records", 3)]
	all := ""
	for i := 0; i < n; i++ {
		t := "t"
		if i == 0 || i == n-1 {
			t = sym.String("t"+lib.Itoa(i), 1)
		}
		w := write{"k" + lib.Itoa(i%5), t}
		h.writes = append(h.writes, w)
		all += lib.Packed(lib.Record("append", w.key, w.text))
	}
	sym.Assert(ioutil.WriteFile(h.file, []byte(all), 0755) == nil, "cannot write the file")
	w := write{"k1", sym.String("torn", 1)}
	cut := []int{0, 2, 4, 30, len(lib.Packed(lib.Record("append", w.key, w.text)))}[sym.Choice("cut", 5)]
	h.tear(cut, w)
	probes := []string{"k0", "k1", "k2", "k3", "k4"}
	var later []write
	for i := 0; i < 20; i++ {
		later = append(later, write{"k" + lib.Itoa(i%3), "w"})
	}
	h.run(probes, later...)
	h.run(probes)
}
