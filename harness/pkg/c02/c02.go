// Package c02 checks that the RESP reader is total on arbitrary bytes.
package c02

import (
	"strings"

	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// compare reads up to three values and compares each with the reference.
func compare(b string, rd protocol.RESPReader) {
	pos := 0
	for k := 0; k < 3; k++ {
		ref, st, next := lib.ParseRef(b, pos)
		o, err := rd.ReadObject()
		sym.Assert((o == nil) != (err == nil), "reading yields either a value or an error")
		switch st {
		case lib.Good:
			sym.Reach("value")
			sym.Assert(err == nil, "a complete well-formed value is accepted")
			if err != nil {
				return
			}
			sym.Assert(lib.Same(o, ref), "the value read is the one on the wire")
		case lib.Bad:
			sym.Reach("rejected")
			sym.Assert(err != nil, "a malformed value is rejected")
			return
		case lib.Short:
			sym.Reach("short")
			sym.Assert(err != nil, "a stream that ends before the value is complete is an error")
			return
		default:
			if err != nil {
				return
			}
			if ref == nil {
				return // bare line feeds in a line, or a bulk string without its terminator inside an array: not specified
			}
			sym.Assert(lib.Same(o, ref), "an accepted bulk string has exactly the announced bytes")
		}
		if k == 0 && next < len(b) {
			sym.Reach("more")
		}
		pos = next
	}
}

// Arbitrary bytes.
//
//verif:harness id=C02.any quick=50 thorough=600
//verif:bounds every byte string of length 0..6 (quick) / 0..8 (thorough), read as up to three consecutive values
//verif:reach value rejected short more
func Any() {
	m := 6
	if sym.Tier() == 1 {
		m = 8
	}
	b := sym.String("b", sym.Choice("n", m+1))
	compare(b, protocol.NewRESPReader(strings.NewReader(b)))
}

// Length headers of bulk strings and arrays followed by arbitrary content.
//
//verif:harness id=C02.length quick=50 thorough=600
//verif:bounds "$" or "*", up to 4 (quick) / 6 (thorough) arbitrary header bytes, CRLF, then 0..5 arbitrary bytes
//verif:reach value rejected short
func Length() {
	h := sym.String("h", sym.Choice("nh", 5+2*sym.Tier()))
	tl := sym.Choice("nt", 6)
	t := sym.String("t", tl)
	kind := "$"
	if sym.Choice("kind", 2) == 1 {
		kind = "*"
	}
	b := kind + h + "\r\n" + t
	compare(b, protocol.NewRESPReader(strings.NewReader(b)))
}

// Long length headers around the limits of 64-bit integers, with nothing behind.
//
//verif:harness id=C02.biglen quick=40 thorough=200
//verif:bounds "$" or "*", optional minus, 15..17 leading digits around 2^63 and 2^64, then 1..4 arbitrary decimal digits, CRLF, then two bytes
func BigLen() {
	lead := []string{"922337203685477", "9223372036854775", "1844674407370955", "18446744073709551", "10000000000000000", "99999999999999999"}
	l := lead[sym.Choice("lead", len(lead))]
	n := 1 + sym.Choice("nd", 4)
	d := sym.String("d", n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
	}
	sign := ""
	if sym.Choice("neg", 2) == 1 {
		sign = "-"
	}
	kind := "$"
	if sym.Choice("kind", 2) == 1 {
		kind = "*"
	}
	b := kind + sign + l + d + "\r\n\r\n"
	o, err := protocol.Parse(strings.NewReader(b))
	sym.Assert(o == nil, "no value from a length that cannot be met")
	sym.Assert(err != nil, "a length that cannot be met is an error")
}

// Arrays within arrays.
//
//verif:harness id=C02.nested quick=50 thorough=300
//verif:bounds arrays of one element nested 2, 60, 127 or 128 levels deep around 4 (quick) / 5 (thorough) arbitrary bytes; 129, 130 and 3000 levels, complete or not, are rejected; a second value of two array levels is read behind the first
//verif:reach value rejected short deep
func Nested() {
	d := []int{2, 60, 127, 128, 129, 130, 3000}[sym.Choice("d", 7)]
	leaf := sym.String("leaf", 4+sym.Tier())
	b := strings.Repeat("*1\r\n", d) + leaf
	if d < 128 {
		compare(b, protocol.NewRESPReader(strings.NewReader(b)))
		return
	}
	if d == 128 {
		// one more level is too deep
		sym.Assume(leaf[0] != '*')
		compare(b, protocol.NewRESPReader(strings.NewReader(b)))
		return
	}
	sym.Reach("deep")
	o, err := protocol.Parse(strings.NewReader(b))
	sym.Assert(o == nil && err != nil, "arrays nested too deeply are rejected")
	sym.Assert(len(err.Error()) < 100000, "the error of a short request is huge")
}

// Levels are counted anew for every value and every element.
//
//verif:harness id=C02.levels quick=40 thorough=200
//verif:bounds an array of 1..3 elements nested 1, 100 or 127 levels deep each around one arbitrary digit, then a second such value
func Levels() {
	one := func(n string) string {
		d := []int{1, 100, 127}[sym.Choice(n+".d", 3)]
		c := sym.String(n, 1)
		sym.Assume(sym.And(c[0] >= '0', c[0] <= '9'))
		return strings.Repeat("*1\r\n", d) + ":" + c + "\r\n"
	}
	k := 1 + sym.Choice("k", 3)
	b := "*" + lib.Itoa(k) + "\r\n"
	for i := 0; i < k; i++ {
		b += one("e" + lib.Itoa(i))
	}
	b += one("next")
	pos := 0
	rd := protocol.NewRESPReader(strings.NewReader(b))
	for i := 0; i < 2; i++ {
		ref, st, next := lib.ParseRef(b, pos)
		sym.Assert(st == lib.Good, "the stream is well-formed")
		o, err := rd.ReadObject()
		sym.Assert(err == nil && o != nil, "a complete well-formed value is accepted")
		if err != nil {
			return
		}
		sym.Assert(lib.Same(o, ref), "the value read is the one on the wire")
		pos = next
	}
	_, err := rd.ReadObject()
	sym.Assert(err != nil, "a stream that ends is an error")
}

// Values arriving in arbitrary pieces.
//
//verif:harness id=C02.split quick=50 thorough=300
//verif:bounds every byte string of length 5 (quick) / 6 (thorough) delivered in three pieces cut anywhere
func Split() {
	n := 5 + sym.Tier()
	b := sym.String("b", n)
	i := sym.Choice("i", n+1)
	j := i + sym.Choice("j", n-i+1)
	compare(b, protocol.NewRESPReader(&lib.Chunks{Parts: []string{b[:i], b[i:j], b[j:]}}))
}

// Broken values far inside arrays and streams.
//
//verif:harness id=C02.many quick=50 thorough=300 steps=200000000
//verif:bounds an array of 9, 65, 130 or 300 elements, or as many values one after the other, of which the first, one in the middle or the last is 3 arbitrary bytes and a line end instead, or cut off there
//verif:reach value rejected short
func Many() {
	n := []int{9, 65, 130, 300}[sym.Choice("n", 4)]
	at := []int{0, 7, n / 2, n - 1}[sym.Choice("at", 4)]
	cut := sym.Choice("cut", 2) == 1
	b := ""
	leaf := sym.String("leaf", 3)
	for i := 0; i < n; i++ {
		if i == at {
			b += leaf
			if cut {
				break
			}
			b += "\r\n"
			continue
		}
		b += []string{"$3\r\na\r\n\r\n", ":12\r\n", "+ok\r\n", "*2\r\n:1\r\n$-1\r\n"}[i%4]
	}
	if sym.Choice("array", 2) == 1 {
		b = "*" + lib.Itoa(n) + "\r\n" + b
		compare(b, protocol.NewRESPReader(strings.NewReader(b)))
		return
	}
	pos := 0
	rd := protocol.NewRESPReader(strings.NewReader(b))
	for i := 0; i < at; i++ {
		ref, st, next := lib.ParseRef(b, pos)
		o, err := rd.ReadObject()
		sym.Assert(st == lib.Good && err == nil, "a complete well-formed value is accepted")
		if err != nil {
			return
		}
		sym.Assert(lib.Same(o, ref), "the value read is the one on the wire")
		pos = next
	}
	compare(b[pos:], rd)
}

// Long lines.
//
//verif:harness id=C02.lines quick=50 thorough=300 steps=200000000
//verif:bounds a line of any of the five types with 30, 62, 130, 4093 or 9000 filler bytes ('0' for numbers and lengths, two fillers otherwise) before or around 3 arbitrary bytes, ended by CRLF, then a second value
//verif:reach value rejected
func Lines() {
	kind := sym.Choice("kind", 5)
	n := []int{30, 62, 130, 4093, 9000}[sym.Choice("n", 5)]
	fill := "0"
	if kind < 2 {
		fill = []string{"x", "\r"}[sym.Choice("fill", 2)]
	}
	x := sym.String("x", 3)
	b := "+-:$*"[kind:kind+1] + strings.Repeat(fill, n)
	if sym.Choice("within", 2) == 1 {
		b = b[:n/2] + x + b[n/2:]
	} else {
		b += x
	}
	b += "\r\n:7\r\n"
	compare(b, protocol.NewRESPReader(strings.NewReader(b)))
}
