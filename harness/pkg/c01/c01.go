// Package c01 checks that RESP values survive encode and decode.
package c01

import (
	"errors"

	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// build makes an arbitrary value of the given depth and returns it with its reference.
func build(name string, depth, maxStr, maxArr int, small bool) (protocol.RedisObject, *lib.Ref) {
	kinds := 6
	if depth > 0 {
		kinds = 8
	}
	switch sym.Choice(name+".kind", kinds) {
	case 0:
		s := line(name, maxStr)
		return protocol.NewSimpleRedisString(s), &lib.Ref{Kind: '+', Str: s}
	case 1:
		s := line(name, maxStr)
		return protocol.NewRedisError(s), &lib.Ref{Kind: '-', Str: s}
	case 2:
		s := line(name, maxStr)
		return protocol.NewRedisErrorFromGoError(errors.New(s)), &lib.Ref{Kind: '-', Str: s}
	case 3:
		n := sym.Int64(name + ".int")
		if small {
			sym.Assume(sym.And(n >= -10, n <= 100))
		}
		return protocol.NewRedisInteger(n), &lib.Ref{Kind: ':', Int: n}
	case 4:
		s := sym.String(name+".bulk", sym.Choice(name+".len", maxStr+1))
		return protocol.NewBulkRedisString(s), &lib.Ref{Kind: '$', Str: s}
	case 5:
		if sym.Bool(name + ".null") {
			return protocol.NewNullBulkRedisString(), &lib.Ref{Kind: '$', Null: true}
		}
		return protocol.NewNullRedisArray(), &lib.Ref{Kind: '*', Null: true}
	case 6:
		return protocol.NewRedisArray(nil), &lib.Ref{Kind: '*'}
	}
	n := 1 + sym.Choice(name+".n", maxArr)
	var os []protocol.RedisObject
	r := &lib.Ref{Kind: '*'}
	for i := 0; i < n; i++ {
		ms := maxStr
		if ms > 2 {
			ms = 2
		}
		o, e := build(name+"."+string([]byte{byte('a' + i)}), depth-1, ms, maxArr, small)
		os = append(os, o)
		r.Arr = append(r.Arr, e)
	}
	return protocol.NewRedisArray(os), r
}

// line is any text a simple string may hold: no CR and no LF.
func line(name string, max int) string {
	s := sym.String(name+".line", sym.Choice(name+".len", max+1))
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] != '\r', s[i] != '\n'))
	}
	return s
}

func check(o protocol.RedisObject, r *lib.Ref) {
	enc := o.String()
	sym.Assert(string(o.Byte()) == enc, "the string and byte forms are the same bytes")
	sym.Assert(lib.Same(o, r), "the value built is the value asked for")
	// a second value follows on the wire
	tail := ":7\r\n"
	rd := protocol.NewRESPReader(&lib.Chunks{Parts: []string{enc + tail}})
	d, err := rd.ReadObject()
	sym.Assert(err == nil, "an encoded value is read back")
	if err != nil {
		return
	}
	sym.Assert(lib.Same(d, r), "the value read back has the same type and content")
	sym.Assert(d.String() == enc, "the value read back serialises identically")
	sym.Assert(string(d.Byte()) == enc, "the value read back has the same bytes")
	t, err := rd.ReadObject()
	sym.Assert(err == nil, "exactly the value's bytes were consumed")
	if err == nil {
		sym.Assert(t.String() == tail, "the next pipelined value is intact")
	}
	_, err = rd.ReadObject()
	sym.Assert(err != nil, "nothing is left afterwards")
	sym.Observe("enc", enc)
}

// Scalars.
//
//verif:harness id=C01.scalar quick=40 thorough=200
//verif:bounds every scalar kind; any int64; strings of arbitrary bytes (no CR/LF in simple strings and errors) of every length up to 4 (quick) / 8 (thorough)
func Scalar() {
	o, r := build("v", 0, 4+4*sym.Tier(), 0, false)
	check(o, r)
}

// Long bulk strings (two- and three-digit length headers).
//
//verif:harness id=C01.long quick=40 thorough=200
//verif:bounds bulk strings of 9, 10, 99, 100 and 130 bytes of which any 3 chosen positions are arbitrary
func Long() {
	n := []int{9, 10, 99, 100, 130}[sym.Choice("n", 5)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	x := sym.String("x", 3)
	at := []int{0, n / 2, n - 1}
	for i, p := range at {
		b[p] = x[i]
	}
	s := string(b)
	check(protocol.NewBulkRedisString(s), &lib.Ref{Kind: '$', Str: s})
}

// Values larger than any buffer on the way.
//
//verif:harness id=C01.big quick=60 thorough=300 steps=60000000
//verif:bounds a bulk string of 4000, 4085..4100, 8192, 9000 (thorough also 20000) or 70000 bytes of which 4 positions are arbitrary (the first, the last, the middle and one next to byte 4096 of the stream), alone or in an array with another one of 600 bytes, delivered at once or in pieces of 1000, 4096 or 1460 bytes, and a second value behind it
func Big() {
	n := []int{4000, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4095, 4096, 4097, 4100, 8192, 9000, 70000, 20000}[sym.Choice("n", 15+sym.Tier())]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	x := sym.String("x", 4)
	at := []int{0, n / 2, n - 1, n * 3 / 4}
	if n > 4087 {
		at[3] = 4087
	}
	for i, p := range at {
		b[p] = x[i]
	}
	s := string(b)
	var o protocol.RedisObject = protocol.NewBulkRedisString(s)
	r := &lib.Ref{Kind: '$', Str: s}
	if sym.Choice("array", 2) == 1 {
		c := make([]byte, 600)
		for i := range c {
			c[i] = byte('A' + i%23)
		}
		c[599] = sym.String("y", 1)[0]
		o2, r2 := protocol.NewBulkRedisString(string(c)), &lib.Ref{Kind: '$', Str: string(c)}
		o, r = protocol.NewRedisArray([]protocol.RedisObject{o, o2}), &lib.Ref{Kind: '*', Arr: []*lib.Ref{r, r2}}
	}
	enc := o.String() + o.String() + ":7\r\n"
	var parts []string
	if p := []int{len(enc), 1000, 4096, 1460}[sym.Choice("piece", 4)]; p > 0 {
		for rest := enc; rest != ""; {
			if p > len(rest) {
				p = len(rest)
			}
			parts = append(parts, rest[:p])
			rest = rest[p:]
		}
	}
	rd := protocol.NewRESPReader(&lib.Chunks{Parts: parts})
	for i := 0; i < 2; i++ {
		d, err := rd.ReadObject()
		sym.Assert(err == nil, "an encoded value is read back")
		if err != nil {
			return
		}
		sym.Assert(lib.Same(d, r), "the value read back has the same type and content")
		sym.Assert(d.String() == o.String(), "the value read back serialises identically")
	}
	t, err := rd.ReadObject()
	sym.Assert(err == nil && t.String() == ":7\r\n", "the next pipelined value is intact")
}

// Values that arrive in pieces.
//
//verif:harness id=C01.pieces quick=60 thorough=300
//verif:bounds two values, each a simple string, a bulk string of 3 arbitrary bytes, the integer 42 or an array of two of these, one after the other on a stream that arrives in three pieces cut anywhere
func Pieces() {
	var os []protocol.RedisObject
	var rs []*lib.Ref
	enc := ""
	for i := 0; i < 2; i++ {
		n := "v" + lib.Itoa(i)
		var o protocol.RedisObject
		var r *lib.Ref
		str := sym.String(n+".s", 3)
		bulk, rbulk := protocol.NewBulkRedisString(str), &lib.Ref{Kind: '$', Str: str}
		num := int64(42)
		switch sym.Choice(n+".kind", 4) {
		case 0:
			t := line(n, 2)
			o, r = protocol.NewSimpleRedisString(t), &lib.Ref{Kind: '+', Str: t}
		case 1:
			o, r = bulk, rbulk
		case 2:
			o, r = protocol.NewRedisInteger(num), &lib.Ref{Kind: ':', Int: num}
		case 3:
			o = protocol.NewRedisArray([]protocol.RedisObject{bulk, protocol.NewRedisInteger(num)})
			r = &lib.Ref{Kind: '*', Arr: []*lib.Ref{rbulk, {Kind: ':', Int: num}}}
		}
		enc += o.String()
		os, rs = append(os, o), append(rs, r)
	}
	i := sym.Choice("first", len(enc)+1)
	j := i + sym.Choice("second", len(enc)-i+1)
	rd := protocol.NewRESPReader(&lib.Chunks{Parts: []string{enc[:i], enc[i:j], enc[j:]}})
	for k := range os {
		d, err := rd.ReadObject()
		sym.Assert(err == nil, "an encoded value is read back")
		if err != nil {
			return
		}
		sym.Assert(lib.Same(d, rs[k]), "the value read back has the same type and content")
	}
	_, err := rd.ReadObject()
	sym.Assert(err != nil, "nothing is left afterwards")
}

// Arrays.
//
//verif:harness id=C01.array quick=60 thorough=900
//verif:bounds arrays of 0..2 elements nested to depth 2, integers in [-10, 100] (quick: strings up to 1 byte, inner arrays of 0..1 elements; thorough: up to 2)
func Array() {
	n := sym.Choice("n", 3)
	var os []protocol.RedisObject
	r := &lib.Ref{Kind: '*'}
	for i := 0; i < n; i++ {
		d := 0
		if i == 0 || sym.Tier() == 1 {
			d = 1
		}
		o, e := build(string([]byte{byte('a' + i)}), d, 1+sym.Tier(), 1+sym.Tier(), true)
		os = append(os, o)
		r.Arr = append(r.Arr, e)
	}
	check(protocol.NewRedisArray(os), r)
}

// Deep nesting and wide arrays.
//
//verif:harness id=C01.deep quick=40 thorough=200
//verif:bounds a scalar nested 1..12, 126 or 127 levels deep, or as the last of 8..11 elements
func Deep() {
	o, r := build("v", 0, 1, 0, false)
	if sym.Choice("wide", 2) == 1 {
		n := 8 + sym.Choice("n", 4)
		var os []protocol.RedisObject
		ra := &lib.Ref{Kind: '*'}
		for i := 0; i < n-1; i++ {
			os = append(os, protocol.NewRedisInteger(int64(i)))
			ra.Arr = append(ra.Arr, &lib.Ref{Kind: ':', Int: int64(i)})
		}
		os = append(os, o)
		ra.Arr = append(ra.Arr, r)
		check(protocol.NewRedisArray(os), ra)
		return
	}
	d := 1 + sym.Choice("d", 14)
	if d > 12 {
		d += 113
	}
	for i := 0; i < d; i++ {
		o = protocol.NewRedisArray([]protocol.RedisObject{o})
		r = &lib.Ref{Kind: '*', Arr: []*lib.Ref{r}}
	}
	check(o, r)
}

// Arrays of many elements and long streams.
//
//verif:harness id=C01.many quick=60 thorough=300 steps=200000000
//verif:bounds arrays of 17, 65, 129, 257, 1024 or 1025 elements of every kind in turn, four of them holding an arbitrary 64-bit integer or byte; alone, as an element of another array, or their elements one after the other on one stream delivered in pieces of 7, 64 or 4096 bytes
func Many() {
	n := []int{17, 65, 129, 257, 1024, 1025}[sym.Choice("n", 6)]
	way := sym.Choice("way", 3)
	var os []protocol.RedisObject
	r := &lib.Ref{Kind: '*'}
	x := sym.String("x", 3)
	for i := 0; i < n; i++ {
		t := lib.Itoa(i)
		if i == n-1 || i == n/2/7*7 || i == 8 {
			t = x[i%3 : i%3+1]
			sym.Assume(sym.And(t != "\r", t != "\n"))
		}
		var o protocol.RedisObject
		var e *lib.Ref
		switch i % 7 {
		case 0:
			o, e = protocol.NewBulkRedisString(t), &lib.Ref{Kind: '$', Str: t}
		case 1:
			o, e = protocol.NewSimpleRedisString(t), &lib.Ref{Kind: '+', Str: t}
		case 2:
			o, e = protocol.NewRedisInteger(int64(i*i-300)), &lib.Ref{Kind: ':', Int: int64(i*i - 300)}
		case 3:
			o, e = protocol.NewRedisError("e"+t), &lib.Ref{Kind: '-', Str: "e" + t}
		case 4:
			o, e = protocol.NewNullBulkRedisString(), &lib.Ref{Kind: '$', Null: true}
		case 5:
			o, e = protocol.NewNullRedisArray(), &lib.Ref{Kind: '*', Null: true}
		case 6:
			o = protocol.NewRedisArray([]protocol.RedisObject{protocol.NewBulkRedisString(t)})
			e = &lib.Ref{Kind: '*', Arr: []*lib.Ref{{Kind: '$', Str: t}}}
		}
		os = append(os, o)
		r.Arr = append(r.Arr, e)
	}
	switch way {
	case 0:
		check(protocol.NewRedisArray(os), r)
	case 1:
		o := protocol.NewRedisArray(os)
		one := protocol.NewRedisInteger(1)
		check(protocol.NewRedisArray([]protocol.RedisObject{one, o, o, one}), &lib.Ref{Kind: '*', Arr: []*lib.Ref{{Kind: ':', Int: 1}, r, r, {Kind: ':', Int: 1}}})
	case 2:
		enc := ""
		for _, o := range os {
			enc += o.String()
		}
		p := []int{7, 64, 4096}[sym.Choice("piece", 3)]
		var parts []string
		for rest := enc; rest != ""; {
			if p > len(rest) {
				p = len(rest)
			}
			parts = append(parts, rest[:p])
			rest = rest[p:]
		}
		rd := protocol.NewRESPReader(&lib.Chunks{Parts: parts})
		for i := range os {
			d, err := rd.ReadObject()
			sym.Assert(err == nil, "an encoded value is read back")
			if err != nil {
				return
			}
			sym.Assert(lib.Same(d, r.Arr[i]), "the value read back has the same type and content")
		}
		_, err := rd.ReadObject()
		sym.Assert(err != nil, "nothing is left afterwards")
	}
}
