// Package c16 checks that a string object's redundant views always describe the same value.
package c16

import (
	"strconv"

	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/lib"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// views checks that every view of s is that of text.
func views(s *container.StringContainer, text string) {
	sym.Assert(s.String() == text, "wrong text")
	sym.Assert(string(s.Byte()) == text, "the bytes are not the text")
	sym.Assert(s.Len() == len(text), "the length is not that of the text")
	sym.Assert(s.Key() == text, "the key is not the text")
	sym.Assert(s.Hash() == container.NewString(text).Hash(), "the hash is not that of the text")
	sym.Assert(s.Type() == container.StringType, "not a string")
	n, isInt := lib.RefInt(text)
	sym.Assert(s.IsInt() == isInt, "the integer view does not match the text")
	v, err := s.Int()
	o, err2 := s.AsIntObject()
	if isInt {
		sym.Assert(err == nil && v == n, "the integer is not that of the text")
		sym.Assert(err2 == nil && o.Data() == n, "the integer object is not that of the text")
	} else {
		sym.Assert(err == container.ErrNotAInt && err2 == container.ErrNotAInt, "text that is no integer has an integer view")
	}
	sym.Assert(s.AsSimpleStringObject().Data() == text, "the simple string is not the text")
	b := s.AsBulkStringObject()
	if text == "" {
		sym.Assert(b.String() == protocol.NullBulkStringLiteral, "an empty string is a null bulk string")
	} else {
		sym.Assert(b.Data() == text, "the bulk string is not the text")
	}
	sym.Assert(s.Equals(container.NewString(text)) && container.NewString(text).Equals(s), "not equal to a string of the same text")
}

// Arbitrary text.
//
//verif:harness id=C16.text quick=40 thorough=200
//verif:bounds arbitrary bytes, length 0 to 5 (quick) / 6 (thorough)
//verif:reach number text
func Text() {
	t := sym.String("text", sym.Choice("len", 6+sym.Tier()))
	if _, ok := lib.RefInt(t); ok {
		sym.Reach("number")
	} else {
		sym.Reach("text")
	}
	views(container.NewString(t), t)
}

// Integers at the edge of 64 bits.
//
//verif:harness id=C16.edge quick=40 thorough=200
//verif:bounds 18 to 20 digit decimal texts whose last three digits and sign are arbitrary around the largest and smallest 64-bit integers
//verif:reach fits overflows
func Edge() {
	d := sym.String("digits", 3)
	for i := 0; i < 3; i++ {
		sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
	}
	t := []string{"", "-", "+"}[sym.Choice("sign", 3)] + []string{"9223372036854775", "922337203685477", "09223372036854775", "92233720368547758"}[sym.Choice("stem", 4)] + d
	s := container.NewString(t)
	if _, ok := lib.RefInt(t); ok {
		sym.Reach("fits")
	} else {
		sym.Reach("overflows")
	}
	n, ok := lib.RefInt(t)
	v, err := s.Int()
	sym.Assert(s.IsInt() == ok && (err == nil) == ok && (!ok || v == n), "the integer view does not match the text")
	sym.Assert(s.String() == t && s.Len() == len(t), "wrong text")
}

// Increments and decrements.
//
//verif:harness id=C16.count quick=60 thorough=400
//verif:bounds any 64-bit integer, then 2 (quick) / 3 (thorough) increases or decreases by any 64-bit amounts; the views after each, comparison after the last
//verif:reach overflow done
func Count() {
	n := sym.Int64("init")
	s := container.NewString(lib.Dec(n))
	for i := 0; i < 2+sym.Tier(); i++ {
		by := sym.Int64("by")
		f := s.Increase
		if sym.Choice("down", 2) == 1 {
			f = s.Decrease
			sum := n - by
			if (by < 0 && sum < n) || (by > 0 && sum > n) {
				_, err := f(by)
				sym.Assert(err != nil, "an overflow was accepted")
				sym.Reach("overflow")
				quickViews(s, n, i == sym.Tier()+1)
				continue
			}
			n = sum
		} else {
			sum := n + by
			if (by > 0 && sum < n) || (by < 0 && sum > n) {
				_, err := f(by)
				sym.Assert(err != nil, "an overflow was accepted")
				sym.Reach("overflow")
				quickViews(s, n, i == sym.Tier()+1)
				continue
			}
			n = sum
		}
		got, err := f(by)
		sym.Assert(err == nil && got == n, "wrong result")
		sym.Reach("done")
		quickViews(s, n, i == sym.Tier()+1)
	}
}

// quickViews checks the views of a counter whose text is the decimal form of n.
func quickViews(s *container.StringContainer, n int64, last bool) {
	t := strconv.FormatInt(n, 10)
	sym.Assert(s.String() == t, "wrong text after counting")
	sym.Assert(string(s.Byte()) == t, "the bytes are not the text after counting")
	sym.Assert(s.Len() == len(t), "the length is not that of the text after counting")
	v, err := s.Int()
	sym.Assert(err == nil && v == n, "the integer is not that of the text after counting")
	o, err := s.AsIntObject()
	sym.Assert(err == nil && o.Data() == n, "the integer object is not that of the text after counting")
	if !last {
		return // comparing decides the number of digits, which multiplies the paths
	}
	sym.Assert(s.Equals(container.NewString(t)), "not equal to a string of the same text after counting")
}

// Small counters, with the hash, and text such as 007 that is replaced by the decimal form.
//
//verif:harness id=C16.small quick=60 thorough=300
//verif:bounds text of 0 to 3 arbitrary bytes, then 1 to 2 increases or decreases by -120 to 120; all views after each
//verif:reach number text
func Small() {
	t := sym.String("text", sym.Choice("len", 4))
	s := container.NewString(t)
	other := container.NewString(t)
	n, ok := lib.RefInt(t)
	if !ok {
		sym.Reach("text")
		f := s.Increase
		if sym.Choice("down", 2) == 1 {
			f = s.Decrease
		}
		_, err := f(sym.Int64("by"))
		sym.Assert(err == container.ErrNotAInt, "text that is no integer was counted")
		views(s, t)
		return
	}
	sym.Reach("number")
	for i, k := 0, 1+sym.Choice("more", 1+sym.Tier()); i < k; i++ {
		by := sym.Int64("by")
		sym.Assume(sym.And(by >= -120, by <= 120))
		f := s.Increase
		if sym.Choice("down", 2) == 1 {
			f = s.Decrease
			n -= by
		} else {
			n += by
		}
		got, err := f(by)
		sym.Assert(err == nil && got == n, "wrong result")
		want := lib.Dec(n)
		sym.Assert(s.String() == want && string(s.Byte()) == want && s.Len() == len(want), "the text is not the number")
		sym.Assert(s.Hash() == container.NewString(want).Hash(), "the hash is not that of the text")
		v, err := s.Int()
		sym.Assert(err == nil && v == n, "the integer view is not the number")
	}
	sym.Assert(other.String() == t, "counting changed another object")
}

// Append and ranges build new objects.
//
//verif:harness id=C16.build quick=60 thorough=300
//verif:bounds two texts of 0 to 3 arbitrary bytes, appended (optionally to itself), then a range with any two 64-bit ends of the result; operands and result keep all their views, also after the result or an operand is counted
//verif:reach range invalid counted
func Build() {
	ta := sym.String("a", sym.Choice("na", 4))
	tb := sym.String("b", sym.Choice("nb", 3+sym.Tier()))
	a, b := container.NewString(ta), container.NewString(tb)
	if sym.Choice("self", 2) == 1 {
		b, tb = a, ta
	}
	c := a.Append(b)
	tc := ta + tb
	sym.Assert(c != a && c != b, "append returned an operand")
	views(c, tc)
	i, j := sym.Int("start"), sym.Int("end")
	lo, hi := lib.Slice(int64(i), int64(j), len(tc))
	r, err := c.GetRange(i, j)
	if lo < 0 {
		sym.Reach("invalid")
		sym.Assert(err == container.ErrRangeInvalid && r == nil, "an invalid range was accepted")
	} else {
		sym.Reach("range")
		sym.Assert(err == nil && r != nil && r != c, "a range was refused")
		lo, hi = sym.Conc(lo), sym.Conc(hi)
		sym.Assert(r.String() == tc[lo:hi+1], "wrong range")
		if r.IsInt() {
			sym.Reach("counted")
			_, err = r.Increase(1)
			sym.Assert(err == nil, "counting failed")
		}
	}
	sym.Assert(c.String() == tc && c.Len() == len(tc) && string(c.Byte()) == tc, "a range changed its operand")
	if c.IsInt() {
		_, err = c.Decrease(1)
		sym.Assert(err == nil, "counting failed")
	}
	sym.Assert(a.String() == ta && string(a.Byte()) == ta && a.Len() == len(ta), "append changed its operand")
	sym.Assert(b.String() == tb && string(b.Byte()) == tb && b.Len() == len(tb), "append changed its operand")
}

// Equality is equality of bytes.
//
//verif:harness id=C16.equal quick=40 thorough=200
//verif:bounds two texts of 0 to 4 (quick) / 0 to 5 (thorough) arbitrary bytes each
//verif:reach equal different
func Equal() {
	m := 5 + sym.Tier()
	ta := sym.String("a", sym.Choice("na", m))
	tb := sym.String("b", sym.Choice("nb", m))
	a, b := container.NewString(ta), container.NewString(tb)
	if ta == tb {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
	sym.Assert(a.Equals(b) == (ta == tb) && b.Equals(a) == (ta == tb), "equality is not equality of bytes")
	sym.Assert((a.CompareTo(b) == 0) == (ta == tb), "the order does not agree with equality")
	sym.Assert(a.Equals(a), "not equal to itself")
}

// Texts whose hashes collide are still different.
//
//verif:harness id=C16.collide quick=40 thorough=60
//verif:bounds three known pairs of different texts with the same 64-bit FNV-1a hash, each in both orders, followed by the same 0, 1, 2, 7, 30, 100 or 1100 arbitrary bytes, or followed by two texts of 1 to 2 arbitrary bytes
func Collide() {
	p := [][2]string{{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}, {"7mohtcOFVz", "c1E51sSEyx"}, {"6a5x-VbtXk", "f_2k7GG-4v"}}[sym.Choice("pair", 3)]
	x, y := p[0], p[1]
	if sym.Choice("swap", 2) == 1 {
		x, y = y, x
	}
	if sym.Choice("same", 2) == 1 {
		t := sym.String("tail", []int{0, 1, 2, 7, 30, 100, 1100}[sym.Choice("tail length", 7)])
		x, y = x+t, y+t
	} else {
		x += sym.String("x", 1+sym.Choice("nx", 2))
		y += sym.String("y", 1+sym.Choice("ny", 2))
	}
	a, b := container.NewString(x), container.NewString(y)
	sym.Assert(!a.Equals(b) && !b.Equals(a), "different texts with the same hash are equal")
	sym.Assert(a.Equals(container.NewString(x)), "not equal to a string of the same text")
	sym.Assert(a.CompareTo(b) != 0, "different texts compare equal")
}

// Long texts.
//
//verif:harness id=C16.long quick=60 thorough=300 steps=200000000
//verif:bounds texts of 19..21, 31..33, 63..65, 127..129, 255..257, 1024 or 70000 bytes that are letters with an arbitrary first, middle and last byte, or digits (many of them zeros) behind an optional sign and ahead of an arbitrary last digit or a colon; all views; appended to a short text and back, and two ranges of the result
//verif:reach number text
func LongText() {
	sizes := []int{19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 70000}
	n := sizes[sym.Choice("n", len(sizes))]
	p := make([]byte, n)
	digits := sym.Choice("digits", 2) == 1
	for i := range p {
		switch {
		case !digits:
			p[i] = byte('a' + i%26)
		case i < n-15:
			p[i] = '0'
		default:
			p[i] = byte('0' + i%10)
		}
	}
	if digits {
		p[0] = "0-+"[sym.Choice("sign", 3)]
		c := sym.String("c", 1)
		sym.Assume(sym.And(c[0] >= '0', c[0] <= ':'))
		p[n-1] = c[0]
	} else {
		p[0], p[n/2], p[n-1] = sym.String("a", 1)[0], sym.String("b", 1)[0], sym.String("c", 1)[0]
	}
	t := string(p)
	if _, ok := lib.RefInt(t); ok {
		sym.Reach("number")
	} else {
		sym.Reach("text")
	}
	s := container.NewString(t)
	views(s, t)
	short := container.NewString("12")
	x, y := s.Append(short), short.Append(s)
	views(x, t+"12")
	views(y, "12"+t)
	r, err := x.GetRange(n/2, -2)
	sym.Assert(err == nil, "a range was refused")
	views(r, t[n/2:]+"1")
	r, err = y.GetRange(1, n)
	sym.Assert(err == nil, "a range was refused")
	views(r, "2"+t[:n-1])
	views(s, t)
	views(short, "12")
}
