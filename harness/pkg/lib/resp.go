// Package lib holds reference models and helpers shared by the harnesses.
package lib

import (
	"io"
	"strconv"

	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// Ref is a reference RESP value.
type Ref struct {
	Kind byte // '+', '-', ':', '$', '*'
	Null bool
	Str  string
	Int  int64
	Arr  []*Ref
}

// Verdict of the reference parser.
const (
	Bad    = 0 // must be rejected
	Good   = 1 // must be accepted with this value
	Either = 2 // not specified (bare line feeds inside a line)
	Short  = 3 // the stream ends before the value is complete: must be rejected
)

// ParseRef parses one value at b[pos:] by the RESP grammar, returning the position after it.
func ParseRef(b string, pos int) (*Ref, int, int) {
	// the line
	end := -1
	for i := pos; i+1 < len(b); i++ {
		if b[i] == '\r' && b[i+1] == '\n' {
			end = i
			break
		}
	}
	if end < 0 {
		return nil, Short, len(b)
	}
	if end == pos {
		return nil, Bad, end
	}
	line := b[pos+1 : end]
	kind := b[pos]
	next := end + 2
	switch kind {
	case '+', '-':
		for i := 0; i < len(line); i++ {
			if line[i] == '\n' {
				return nil, Either, next
			}
		}
		return &Ref{Kind: kind, Str: line}, Good, next
	case ':':
		v, ok := RefInt(line)
		if !ok {
			return nil, Bad, next
		}
		return &Ref{Kind: ':', Int: v}, Good, next
	case '$':
		v, ok := RefInt(line)
		if !ok || v < -1 {
			return nil, Bad, next
		}
		if v == -1 {
			return &Ref{Kind: '$', Null: true}, Good, next
		}
		if v > int64(len(b)) || next+int(v)+2 > len(b) {
			return nil, Short, len(b)
		}
		n := sym.Conc(int(v))
		r := &Ref{Kind: '$', Str: b[next : next+n]}
		if b[next+n] != '\r' || b[next+n+1] != '\n' {
			return r, Either, next + n + 2
		}
		return r, Good, next + n + 2
	case '*':
		v, ok := RefInt(line)
		if !ok || v < -1 {
			return nil, Bad, next
		}
		if v == -1 {
			return &Ref{Kind: '*', Null: true}, Good, next
		}
		r := &Ref{Kind: '*'}
		for i := int64(0); i < v; i++ {
			e, st, p := ParseRef(b, next)
			if st != Good {
				return nil, st, p
			}
			r.Arr = append(r.Arr, e)
			next = p
		}
		return r, Good, next
	}
	return nil, Bad, next
}

// RefInt reads a decimal 64-bit integer with an optional sign.
func RefInt(s string) (int64, bool) {
	if len(s) == 0 {
		return 0, false
	}
	neg := false
	i := 0
	if s[0] == '-' || s[0] == '+' {
		neg = s[0] == '-'
		i = 1
	}
	if i == len(s) {
		return 0, false
	}
	var v uint64
	for ; i < len(s); i++ {
		c := s[i]
		if c < '0' || c > '9' {
			return 0, false
		}
		if v > (1<<63)/10 {
			return 0, false
		}
		v = v*10 + uint64(c-'0')
		if v > 1<<63 {
			return 0, false
		}
	}
	if neg {
		return -int64(v), true
	}
	if v > 1<<63-1 {
		return 0, false
	}
	return int64(v), true
}

// Same compares a parsed object with a reference value.
func Same(o protocol.RedisObject, r *Ref) bool {
	if o == nil {
		return false
	}
	if o.Type() != string([]byte{r.Kind}) {
		return false
	}
	switch r.Kind {
	case '+':
		s, ok := o.(protocol.RedisString)
		return ok && s.Data() == r.Str
	case '-':
		s, ok := o.(protocol.RedisError)
		return ok && s.Message() == r.Str
	case ':':
		s, ok := o.(protocol.RedisInteger)
		return ok && s.Data() == r.Int
	case '$':
		s, ok := o.(protocol.RedisString)
		if !ok {
			return false
		}
		if r.Null {
			return o.String() == "$-1\r\n"
		}
		return s.Data() == r.Str && o.String() != "$-1\r\n"
	case '*':
		a, ok := o.(protocol.RedisArray)
		if !ok {
			return false
		}
		if r.Null {
			return o.String() == "*-1\r\n"
		}
		d := a.Data()
		if len(d) != len(r.Arr) || o.String() == "*-1\r\n" {
			return false
		}
		for i := range d {
			if !Same(d[i], r.Arr[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// Chunks is a reader that hands out a string in pieces.
type Chunks struct {
	Parts []string
	pos   int
	Reads int
}

func (c *Chunks) Read(p []byte) (int, error) {
	c.Reads++
	for c.pos < len(c.Parts) && len(c.Parts[c.pos]) == 0 {
		c.pos++
	}
	if c.pos >= len(c.Parts) {
		return 0, io.EOF
	}
	n := copy(p, c.Parts[c.pos])
	c.Parts[c.pos] = c.Parts[c.pos][n:]
	return n, nil
}

// WellFormed tells whether s is exactly one RESP value.
func WellFormed(s string) bool {
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		n := len(s)
		if n < 3 {
			return false
		}
		return sym.And(s[n-2] == '\r', s[n-1] == '\n', !sym.HasByte(s[1:n-2], '\r'), !sym.HasByte(s[1:n-2], '\n'))
	}
	_, st, p := ParseRef(s, 0)
	return st == Good && p == len(s)
}

// WellFormedReply tells whether an object serialises to exactly one RESP value.
func WellFormedReply(o protocol.RedisObject) bool {
	switch o.Type() {
	case ":":
		i, ok := o.(protocol.RedisInteger)
		return ok && o.String() == ":"+strconv.FormatInt(i.Data(), 10)+"\r\n"
	case "-":
		e, ok := o.(protocol.RedisError)
		if !ok {
			return false
		}
		t := e.Message()
		return sym.And(o.String() == "-"+t+"\r\n", !sym.HasByte(t, '\r'), !sym.HasByte(t, '\n'))
	}
	return WellFormed(o.String())
}
