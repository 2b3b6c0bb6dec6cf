// Package c12 checks that the framing of the log loses nothing and survives a cut at any byte.
package c12

import (
	"bytes"
	"encoding/binary"
	"strings"

	"github.com/golang/protobuf/proto"

	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// text is arbitrary ASCII text of length 0..max.
func text(name string, max int) string {
	s := sym.String(name, sym.Choice(name+".len", max+1))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// argument is any byte string of the length.
func argument(name string, n int) []byte { return []byte(sym.String(name, n)) }

func pack(v *log.VertexLog) []byte {
	b, err := log.PackLog(v)
	sym.Assert(err == nil, "packing a record failed")
	sym.Assert(len(b) > 4, "an empty packed record")
	sym.Assert(uint64(binary.LittleEndian.Uint32(b)) == uint64(len(b)-4), "the length in front of a record is wrong")
	return b
}

// check parses a stream that starts with the records and may be cut after them.
func check(stream string, pieces []string, vs []*log.VertexLog, whole bool) {
	got, err := log.ParseLog(&lib.Chunks{Parts: pieces})
	sym.Assert(len(got) == len(vs), "the number of records differs")
	for i := range vs {
		sym.Assert(lib.SameRecord(got[i], vs[i]), "a record differs")
	}
	if whole {
		sym.Assert(err == nil, "a complete log is reported as broken")
	}
}

// One record with arbitrary fields.
//
//verif:harness id=C12.record quick=40 thorough=200
//verif:bounds one record, every field: id, host, name of 0..1 arbitrary ASCII bytes, 64-bit time, 32-bit index, 0..2 arguments and a raw request of 0..2 arbitrary bytes each
//verif:reach empty full
func Record() {
	v := &log.VertexLog{Id: text("id", 1), Time: sym.Int64("time"), Host: text("host", 1), Name: text("name", 1), Index: sym.Int32("index")}
	n := sym.Choice("args", 3)
	for i := 0; i < n; i++ {
		v.Arguments = append(v.Arguments, argument("a"+lib.Itoa(i), sym.Choice("a"+lib.Itoa(i)+".len", 3)))
	}
	v.RawRequest = argument("raw", sym.Choice("raw.len", 3))
	if sym.Case(sym.And(len(v.Id) == 0, v.Time == 0, len(v.Host) == 0, len(v.Name) == 0, v.Index == 0, n == 0, len(v.RawRequest) == 0)) {
		sym.Reach("empty")
		b, err := log.PackLog(v)
		sym.Assert(err == log.ErrEmptyLog && len(b) == 0, "an empty record is packed")
		return
	}
	sym.Reach("full")
	b := string(pack(v))
	check(b, []string{b}, []*log.VertexLog{v}, true)
}

// record is a record with some arguments, long enough for every length encoding in use.
func record(tag string, shape int) *log.VertexLog {
	v := &log.VertexLog{Id: "i" + tag, Time: 7, Host: "h", Name: sym.StringOf(tag+".name", 1, "gs"), Index: 1}
	switch shape {
	case 0:
		v.Arguments = append(v.Arguments, argument(tag+".a", 2))
	case 1:
		v.Arguments = append(v.Arguments, argument(tag+".a", 1), argument(tag+".b", 0), argument(tag+".c", 1))
		v.RawRequest = argument(tag+".raw", 1)
	case 2:
		// a length of more than one byte
		v.Arguments = append(v.Arguments, []byte(strings.Repeat("x", 300)+sym.String(tag+".a", 2)))
	case 3:
		v.RawRequest = argument(tag+".raw", 1)
	}
	return v
}

// Several records cut at any byte.
//
//verif:harness id=C12.cut quick=90 thorough=400
//verif:bounds 1..2 (quick) / 1..3 (thorough) records of 3 (quick) / 4 (thorough) shapes (a two-byte argument; three arguments of 0..1 bytes and a raw request; an argument of 302 bytes; no argument), argument bytes arbitrary; the stream cut after any number of bytes
//verif:reach whole torn
func Cut() {
	n := 1 + sym.Choice("records", 2+sym.Tier())
	var vs []*log.VertexLog
	var ends []int
	stream := ""
	for i := 0; i < n; i++ {
		shape := sym.Choice("shape"+lib.Itoa(i), 3+sym.Tier())
		if shape == 2 && i > 0 {
			shape = 0
		}
		v := record("r"+lib.Itoa(i), shape)
		vs = append(vs, v)
		stream += string(pack(v))
		ends = append(ends, len(stream))
	}
	cut := sym.Choice("cut", len(stream)+1)
	k := 0
	for k < n && ends[k] <= cut {
		k++
	}
	if cut == len(stream) {
		sym.Reach("whole")
	} else {
		sym.Reach("torn")
	}
	check(stream, []string{stream[:cut]}, vs[:k], cut == len(stream) || k > 0 && ends[k-1] == cut || cut == 0)
}

// Records larger than any buffer on the way.
//
//verif:harness id=C12.big quick=60 thorough=300
//verif:bounds two records, one with an argument of 4060..4100, 65530, 70000 (thorough also 200000) bytes of which 4 are arbitrary, the other small, in both orders, delivered at once or in pieces of 1000 or 4096 bytes, cut at the end of either record or 0..2 bytes before it
func Big() {
	n := []int{4060, 4070, 4080, 4096, 65530, 70000, 200000}[sym.Choice("n", 6+sym.Tier())]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	x := sym.String("x", 4)
	for i, p := range []int{0, n / 2, 4050, n - 1} {
		b[p] = x[i]
	}
	vs := []*log.VertexLog{{Id: "i", Name: "SET", Arguments: [][]byte{b}, Index: 3}, record("r", 0)}
	if sym.Choice("order", 2) == 1 {
		vs[0], vs[1] = vs[1], vs[0]
	}
	one := string(pack(vs[0]))
	s := one + string(pack(vs[1]))
	records := 1 + sym.Choice("end", 2)
	end := len(one)
	if records == 2 {
		end = len(s)
	}
	cut := sym.Choice("cut", 3)
	if cut > 0 {
		records--
	}
	s = s[:end-cut]
	p := []int{len(s), 1000, 4096}[sym.Choice("piece", 3)]
	var parts []string
	for rest := s; rest != ""; {
		if p > len(rest) {
			p = len(rest)
		}
		parts = append(parts, rest[:p])
		rest = rest[p:]
	}
	check(s, parts, vs[:records], cut == 0)
}

// A stream that arrives in pieces.
//
//verif:harness id=C12.split quick=40 thorough=200
//verif:bounds two records of 2 shapes delivered in three pieces split anywhere
func Split() {
	a, b := record("a", sym.Choice("shapeA", 2)), record("b", 0)
	s := string(pack(a)) + string(pack(b))
	i := sym.Choice("first", len(s)+1)
	j := i + sym.Choice("second", len(s)-i+1)
	check(s, []string{s[:i], s[i:j], s[j:]}, []*log.VertexLog{a, b}, true)
}

// Arbitrary bytes.
//
//verif:harness id=C12.garbage quick=60 thorough=300
//verif:bounds any stream of 0..9 (quick) / 0..11 (thorough) bytes, and any three bytes after a complete record; complete frames are decoded, an undecodable or incomplete one is never returned
//verif:reach valid invalid torn after
func Garbage() {
	var stream string
	var want []*log.VertexLog
	if sym.Choice("after", 2) == 1 {
		sym.Reach("after")
		v := record("r", 0)
		want = append(want, v)
		stream = string(pack(v)) + sym.String("tail", 3)
		check(stream, []string{stream}, want, false)
		return
	}
	stream = sym.String("s", sym.Choice("len", 10+2*sym.Tier()))
	for p := 0; ; {
		if p+4 > len(stream) {
			break
		}
		l := uint64(stream[p]) | uint64(stream[p+1])<<8 | uint64(stream[p+2])<<16 | uint64(stream[p+3])<<24
		rest := len(stream) - p - 4
		if !sym.Case(l <= uint64(rest)) {
			sym.Reach("torn")
			break
		}
		n := sym.Conc(int(l))
		v := &log.VertexLog{}
		if proto.Unmarshal([]byte(stream[p+4:p+4+n]), v) == nil {
			sym.Reach("valid")
			want = append(want, v)
		} else {
			sym.Reach("invalid")
		}
		p += 4 + n
	}
	check(stream, []string{stream}, want, false)
}

// Records of requests.
//
//verif:harness id=C12.request quick=40 thorough=200
//verif:bounds records made from a request of a command name and 0..2 arguments of 0..2 arbitrary bytes (bulk strings or integers), packed and parsed: name, index, arguments and raw request survive
func Request() {
	name := []string{"SET", "incr"}[sym.Choice("name", 2)]
	objs := lib.Objs(name)
	n := sym.Choice("args", 3)
	for i := 0; i < n; i++ {
		t := "a" + lib.Itoa(i)
		if sym.Choice(t+".kind", 2) == 0 {
			objs = append(objs, protocol.NewBulkRedisString(sym.String(t, sym.Choice(t+".len", 3))))
		} else {
			objs = append(objs, protocol.NewRedisInteger([]int64{0, -3, 1 << 40}[sym.Choice(t+".int", 3)]))
		}
	}
	index := sym.Int32("index")
	v := log.NewLog(name, int(index), objs)
	got, err := log.ParseLog(bytes.NewReader(pack(v)))
	sym.Assert(err == nil && len(got) == 1, "the record of a request is not read back")
	g := got[0]
	sym.Assert(lib.SameRecord(g, v), "the record of a request differs")
	sym.Assert(sym.And(g.Name == name, g.Index == index, len(g.Arguments) == n), "the record does not hold the request")
	raw := "*" + lib.Itoa(n+1) + "\r\n" + objs[0].String()
	for i := 0; i < n; i++ {
		sym.Assert(string(g.Arguments[i]) == objs[i+1].String(), "an argument of the record is not the request's")
		raw += objs[i+1].String()
	}
	sym.Assert(string(g.RawRequest) == raw, "the raw request of the record is not the request")
}

// Many records.
//
//verif:harness id=C12.many quick=60 thorough=300 steps=200000000
//verif:bounds 65, 130, 257 or 300 (thorough also 1100) records of five sizes up to 200 bytes, one in 30 with arbitrary bytes and index, at once or in pieces of 64, 1000 or 4096 bytes, cut at the end or 1 byte before it
func Many() {
	n := []int{65, 130, 257, 300, 1100}[sym.Choice("records", 4+sym.Tier())]
	var vs []*log.VertexLog
	var all []byte
	for i := 0; i < n; i++ {
		v := &log.VertexLog{Id: "i" + lib.Itoa(i), Time: int64(i) << 20, Name: "SET", Index: int32(i % 16)}
		v.Arguments = [][]byte{[]byte(strings.Repeat("k", i%5*40)), []byte("v")}
		if i%30 == 7 {
			v.Arguments[1] = argument("a"+lib.Itoa(i), 1)
		}
		vs = append(vs, v)
		all = append(all, pack(v)...)
	}
	s := string(all)
	whole := sym.Choice("cut", 2) == 0
	if !whole {
		s = s[:len(s)-1]
		vs = vs[:n-1]
	}
	p := []int{len(s), 64, 1000, 4096}[sym.Choice("piece", 4)]
	var parts []string
	for rest := s; rest != ""; {
		if p > len(rest) {
			p = len(rest)
		}
		parts = append(parts, rest[:p])
		rest = rest[p:]
	}
	check(s, parts, vs, whole)
}
