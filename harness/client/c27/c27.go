// Package c27 checks the text side of the client: typed lines and shown replies.
package c27

import (
	"errors"
	"strconv"

	"github.com/lxdlam/vertex/cmd/client/internal"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

func encode(words []string) string {
	r := "*" + strconv.Itoa(len(words)) + "\r\n"
	for _, w := range words {
		r += "$" + strconv.Itoa(len(w)) + "\r\n" + w + "\r\n"
	}
	return r
}

func compare(line string, words []string) {
	out, err := internal.FormatInput(line)
	sym.Assert(err == nil, "a typed line was refused")
	sym.Assert(out == encode(words), "the request is not the array of the words typed")
}

func word(quoted bool) string {
	lo := 1
	if quoted {
		lo = 0
	}
	w := sym.String("word", lo+sym.Choice("len", 3+sym.Tier()))
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.And(w[i] != '"', sym.Or(quoted, w[i] != ' ')))
	}
	return w
}

// Words and quoted words.
//
//verif:harness id=C27.words quick=60 thorough=300
//verif:bounds 0 to 3 words of arbitrary bytes other than the quote (and the space unless quoted), length up to 3 (quick) / 4 (thorough), each typed plainly or in quotes; one or two spaces between words, optionally spaces around the line
//verif:reach empty quoted
func Words() {
	n := sym.Choice("words", 4)
	line := []string{"", " "}[sym.Choice("lead", 2)]
	var words []string
	for i := 0; i < n; i++ {
		if i > 0 {
			line += " "
			if i == 1 && sym.Choice("gap", 2) == 1 {
				line += " "
			}
		}
		q := sym.Choice("quoted", 2) == 1
		w := word(q)
		if q {
			sym.Reach("quoted")
			if w == "" {
				sym.Reach("empty")
			}
			line += "\"" + w + "\""
		} else {
			line += w
		}
		words = append(words, w)
	}
	line += []string{"", " "}[sym.Choice("trail", 2)]
	compare(line, words)
}

// A word of which a part is quoted.
//
//verif:harness id=C27.part quick=30 thorough=100
//verif:bounds one word of three pieces, the middle one quoted, or two adjacent quoted pieces, of up to 3 (quick) / 4 (thorough) bytes each, and a plain word after it
func Part() {
	a, b, c := "", word(true), ""
	if sym.Choice("before", 2) == 1 {
		a = word(false)
	}
	line := a + "\"" + b + "\""
	switch sym.Choice("after", 3) {
	case 1:
		c = word(false)
		line += c
	case 2:
		c = word(true)
		line += "\"" + c + "\""
	}
	compare(line+" x", []string{a + b + c, "x"})
}

// Every line of bytes.
//
//verif:harness id=C27.line quick=60 thorough=300
//verif:bounds every line of up to 6 (quick) / 8 (thorough) arbitrary bytes
//verif:reach unclosed sent
func Line() {
	line := sym.String("line", sym.Choice("len", 7+2*sym.Tier()))
	var words []string
	cur := ""
	in, have := false, false
	for i := 0; i < len(line); i++ {
		switch {
		case line[i] == '"':
			in = !in
			have = true
		case line[i] == ' ' && !in:
			if have {
				words = append(words, cur)
			}
			cur, have = "", false
		default:
			cur += line[i : i+1]
			have = true
		}
	}
	if in {
		sym.Reach("unclosed")
		out, err := internal.FormatInput(line)
		sym.Assert(err != nil && out == "", "a line with an unclosed quote was sent")
		return
	}
	if have {
		words = append(words, cur)
	}
	sym.Reach("sent")
	compare(line, words)
}

// What was typed arrives at the server's reader.
//
//verif:harness id=C27.long quick=20 thorough=60
//verif:bounds a line of one word of 0, 1, 9, 10, 99, 100, 4095, 4096, 4097 or 9000 equal bytes (one arbitrary byte), plain or quoted, followed by a short word
func Long() {
	n := []int{1, 9, 10, 99, 100, 4095, 4096, 4097, 9000}[sym.Choice("len", 9)]
	b := sym.String("byte", 1)
	sym.Assume(sym.And(b[0] != '"', b[0] != ' '))
	s := ""
	for i := 0; i < n; i++ {
		s += "x"
	}
	s = s[:n-1] + b
	if sym.Choice("quoted", 2) == 1 {
		compare("\""+s+"\" y", []string{s, "y"})
	} else {
		compare(s+" y", []string{s, "y"})
	}
}

func value(name string, depth int) (protocol.RedisObject, string) {
	k := 7
	if depth > 0 {
		k = 8
	}
	n := 4
	if depth == 0 {
		n = 3
	}
	switch sym.Choice(name+".kind", k) {
	case 0:
		s := sym.String(name+".simple", sym.Choice(name+".len", n))
		return protocol.NewSimpleRedisString(s), "\"" + s + "\""
	case 1:
		s := sym.String(name+".bulk", sym.Choice(name+".len", n))
		return protocol.NewBulkRedisString(s), "\"" + s + "\""
	case 2:
		s := sym.String(name+".err", sym.Choice(name+".len", n))
		if sym.Choice(name+".go", 2) == 1 {
			return protocol.NewRedisErrorFromGoError(errors.New(s)), "Server error: " + s
		}
		return protocol.NewRedisError(s), "Server error: " + s
	case 3:
		i := sym.Int64(name + ".int")
		if name != "v" {
			sym.Assume(sym.And(i >= -10, i <= 100))
		}
		return protocol.NewRedisInteger(i), "(integer) " + strconv.FormatInt(i, 10)
	case 4:
		return protocol.NewNullBulkRedisString(), "(nil)"
	case 5:
		return protocol.NewNullRedisArray(), "(empty list or set)"
	case 6:
		return protocol.NewRedisArray(nil), "(empty list or set)"
	}
	var os []protocol.RedisObject
	text := ""
	for i, c := 0, 1+sym.Choice(name+".n", 2); i < c; i++ {
		o, t := value(name+strconv.Itoa(i), depth-1)
		os = append(os, o)
		if i > 0 {
			text += "\n"
		}
		text += strconv.Itoa(i+1) + ") " + t
	}
	return protocol.NewRedisArray(os), text
}

// Shown replies.
//
//verif:harness id=C27.show quick=60 thorough=300
//verif:bounds every reply value: strings and errors of up to 3 arbitrary bytes (2 inside arrays), any 64-bit integer (-10 to 100 inside arrays), nulls, arrays of up to 2 elements, nested once (quick) / twice (thorough)
func Show() {
	o, text := value("v", 1+sym.Tier())
	// errors carry no line breaks; see C03
	sym.Assert(internal.FormatOutput(o) == text, "the reply is not shown as it is")
}

// Longer arrays are numbered from 1.
//
//verif:harness id=C27.numbers quick=20 thorough=60
//verif:bounds arrays of up to 12 elements, alternately a one-byte string and an integer from -9 to 99
func Numbers() {
	n := sym.Choice("n", 13)
	var os []protocol.RedisObject
	text := ""
	if n == 0 {
		text = "(empty list or set)"
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			text += "\n"
		}
		text += strconv.Itoa(i+1) + ") "
		if i%2 == 0 {
			s := sym.String("s", 1)
			os = append(os, protocol.NewBulkRedisString(s))
			text += "\"" + s + "\""
		} else {
			os = append(os, protocol.NewRedisInteger(int64(7*i-9)))
			text += "(integer) " + strconv.Itoa(7*i-9)
		}
	}
	sym.Assert(internal.FormatOutput(protocol.NewRedisArray(os)) == text, "an array is not shown as it is")
}

// Many words and large replies.
//
//verif:harness id=C27.many quick=40 thorough=200
//verif:bounds a line of 9, 10, 11, 64, 65, 100, 129, 300 or 1001 words, every third in quotes and with spaces in it, one in the middle and the last with an arbitrary byte; a reply array of as many elements (bulk strings, integers, nulls, and arrays of 2) shown
func Many() {
	n := []int{9, 10, 11, 64, 65, 100, 129, 300, 1001}[sym.Choice("n", 9)]
	line := ""
	var words []string
	var os []protocol.RedisObject
	text := ""
	for i := 0; i < n; i++ {
		w := "w" + strconv.Itoa(i)
		if i == n/2 || i == n-1 {
			w = sym.String(w, 1)
			sym.Assume(sym.And(w != "\"", w != " "))
		}
		if i > 0 {
			line += " "
			text += "\n"
		}
		text += strconv.Itoa(i+1) + ") "
		switch i % 4 {
		case 0:
			os = append(os, protocol.NewBulkRedisString(w))
			text += "\"" + w + "\""
		case 1:
			os = append(os, protocol.NewRedisInteger(int64(i)))
			text += "(integer) " + strconv.Itoa(i)
		case 2:
			os = append(os, protocol.NewNullBulkRedisString())
			text += "(nil)"
		case 3:
			os = append(os, protocol.NewRedisArray([]protocol.RedisObject{protocol.NewBulkRedisString(w), protocol.NewRedisInteger(-1)}))
			text += "1) \"" + w + "\"\n2) (integer) -1"
		}
		if i%3 == 1 {
			w += "  x "
			line += "\"" + w + "\""
		} else {
			line += w
		}
		words = append(words, w)
	}
	compare(line, words)
	sym.Assert(internal.FormatOutput(protocol.NewRedisArray(os)) == text, "an array is not shown as it is")
}
