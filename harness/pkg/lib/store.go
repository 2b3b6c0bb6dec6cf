package lib

import (
	"strconv"

	"github.com/lxdlam/vertex/pkg/command"
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

// Store is the reference semantics of all commands: four keyspaces, each an association list.
type Store struct {
	Strs   []KV
	Lists  []Named
	Hashes []NamedHash
	Sets   []Named
}

// KV is a key with its value.
type KV struct{ K, V string }

// Named is a list or a set of byte strings under a key.
type Named struct {
	K string
	E []string
}

// NamedHash is a hash under a key.
type NamedHash struct {
	K string
	E []KV
}

// Kinds of expected replies.
const (
	XRef     = iota // exactly this value
	XErr            // an error
	XErrFree        // an error or any value (not specified)
	XBag            // an array of exactly these elements in some order (null or empty when there are none)
	XPairs          // an array of exactly these pairs in some order (null or empty when there are none)
	XSome           // an array of N distinct elements of the list (null or empty when N is 0)
	XOne            // a bulk string that is one element of the list
)

// Exp is an expected reply.
type Exp struct {
	Kind  int
	Ref   *Ref
	Elems []string
	Pairs []KV
	N     int
	Key   string
	Pop   bool
}

// Bulk, Int, Null, OK, NullArr and Err build expectations.
func Bulk(s string) Exp   { return Exp{Ref: &Ref{Kind: '$', Str: s}} }
func Int(n int64) Exp     { return Exp{Ref: &Ref{Kind: ':', Int: n}} }
func Null() Exp           { return Exp{Ref: &Ref{Kind: '$', Null: true}} }
func NullArr() Exp        { return Exp{Ref: &Ref{Kind: '*', Null: true}} }
func OK() Exp             { return Exp{Ref: &Ref{Kind: '+', Str: "OK"}} }
func Err() Exp            { return Exp{Kind: XErr} }
func bag(e []string) Exp  { return Exp{Kind: XBag, Elems: append([]string(nil), e...)} }
func Nil() *Ref           { return &Ref{Kind: '$', Null: true} }
func bulk(s string) *Ref  { return &Ref{Kind: '$', Str: s} }
func arr(es []*Ref) Exp   { return Exp{Ref: &Ref{Kind: '*', Arr: es}} }
func B2I(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (s *Store) str(k string) int {
	for i := range s.Strs {
		if s.Strs[i].K == k {
			return i
		}
	}
	return -1
}

func (s *Store) setStr(k, v string) {
	if i := s.str(k); i >= 0 {
		s.Strs[i].V = v
		return
	}
	s.Strs = append(s.Strs, KV{k, v})
}

func find(l []Named, k string) int {
	for i := range l {
		if l[i].K == k {
			return i
		}
	}
	return -1
}

func (s *Store) hash(k string) int {
	for i := range s.Hashes {
		if s.Hashes[i].K == k {
			return i
		}
	}
	return -1
}

func kvFind(l []KV, k string) int {
	for i := range l {
		if l[i].K == k {
			return i
		}
	}
	return -1
}

func elem(l []string, v string) int {
	for i := range l {
		if l[i] == v {
			return i
		}
	}
	return -1
}

// Index resolves an index against a size: -1 when outside.
func Index(i int64, n int) int {
	if n == 0 {
		return -1
	}
	p := i
	if sym.Case(i < 0) {
		if i < -int64(n) {
			return -1
		}
		p = i + int64(n)
	}
	if p >= int64(n) {
		return -1
	}
	return sym.Conc(int(p))
}

// Slice resolves a range: (-1, -1) when invalid.
func Slice(a, b int64, n int) (int, int) {
	l := Index(a, n)
	if l < 0 {
		return -1, -1
	}
	r := b
	if sym.Case(b < 0) {
		if b < -int64(n) {
			return -1, -1
		}
		r = b + int64(n)
	}
	if r >= int64(n) {
		r = int64(n - 1)
	}
	if r < int64(l) {
		return -1, -1
	}
	return l, sym.Conc(int(r))
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

// IsWrite tells whether the command may change data.
func IsWrite(name string) bool {
	switch name {
	case "set", "mset", "append", "incr", "incrby", "decr", "decrby", "lpush", "rpush", "lpop", "rpop", "lset", "linsert", "lrem", "ltrim",
		"hset", "hdel", "sadd", "srem", "spop":
		return true
	}
	return false
}

const (
	maxInt = int64(1<<63 - 1)
	minInt = -maxInt - 1
)

// Names are all commands.
var Names = []string{"set", "get", "mset", "mget", "exists", "strlen", "append", "incr", "incrby", "decr", "decrby", "getrange",
	"lpop", "rpop", "lindex", "linsert", "llen", "lpush", "rpush", "lrange", "ltrim", "lrem", "lset",
	"hset", "hget", "hexists", "hdel", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen",
	"sadd", "srem", "sismember", "smembers", "srandmember", "spop", "sdiff", "sinter", "sunion", "scard"}

// Do applies one command to the reference store and tells the expected reply. Name is in lower case.
func (s *Store) Do(name string, a ...string) Exp {
	n := len(a)
	switch name {
	case "set", "append", "getrange", "get", "strlen", "mset", "mget", "exists", "incr", "decr", "incrby", "decrby":
		return s.doStr(name, a)
	case "lpop", "rpop", "llen", "lpush", "rpush", "lrange", "ltrim", "lindex", "lset", "lrem", "linsert":
		return s.doList(name, a)
	case "hset", "hget", "hexists", "hdel", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen":
		return s.doHash(name, a)
	case "sadd", "srem", "sismember", "smembers", "srandmember", "spop", "sdiff", "sinter", "sunion", "scard":
		return s.doSet(name, a)
	}
	_ = n
	return Err()
}

func (s *Store) doStr(name string, a []string) Exp {
	n := len(a)
	switch name {
	case "set":
		if n != 2 {
			return Err()
		}
		s.setStr(a[0], a[1])
		return OK()
	case "get":
		if n != 1 {
			return Err()
		}
		if i := s.str(a[0]); i >= 0 {
			return Bulk(s.Strs[i].V)
		}
		return Null()
	case "mset":
		if n == 0 || n%2 != 0 {
			return Err()
		}
		for i := 0; i < n; i += 2 {
			s.setStr(a[i], a[i+1])
		}
		return OK()
	case "mget":
		if n == 0 {
			return Err()
		}
		var es []*Ref
		for _, k := range a {
			if i := s.str(k); i >= 0 {
				es = append(es, bulk(s.Strs[i].V))
			} else {
				es = append(es, Nil())
			}
		}
		return arr(es)
	case "exists":
		if n == 0 {
			return Err()
		}
		c := int64(0)
		for _, k := range a {
			if s.str(k) >= 0 {
				c++
			}
		}
		return Int(c)
	case "strlen":
		if n != 1 {
			return Err()
		}
		if i := s.str(a[0]); i >= 0 {
			return Int(int64(len(s.Strs[i].V)))
		}
		return Int(0)
	case "append":
		if n != 2 {
			return Err()
		}
		v := a[1]
		if i := s.str(a[0]); i >= 0 {
			v = s.Strs[i].V + v
		}
		s.setStr(a[0], v)
		return Int(int64(len(v)))
	case "getrange":
		if n != 3 {
			return Err()
		}
		l, e1 := strconv.ParseInt(a[1], 10, 64)
		if e1 != nil {
			return Err()
		}
		r, e2 := strconv.ParseInt(a[2], 10, 64)
		if e2 != nil {
			return Err()
		}
		i := s.str(a[0])
		if i < 0 {
			return Bulk("")
		}
		v := s.Strs[i].V
		x, y := Slice(l, r, len(v))
		if x < 0 {
			return Bulk("")
		}
		return Bulk(v[x : y+1])
	}
	// counters: INCR and DECR look at their first argument only
	by := int64(1)
	if name == "incr" || name == "decr" {
		if n == 0 {
			return Err()
		}
	} else {
		if n == 0 || n > 2 {
			return Err()
		}
		if n == 2 {
			v, err := strconv.ParseInt(a[1], 10, 64)
			if err != nil {
				return Err()
			}
			by = v
		}
	}
	i := s.str(a[0])
	if i < 0 {
		return Err()
	}
	old, err := strconv.ParseInt(s.Strs[i].V, 10, 64)
	if err != nil {
		return Err()
	}
	var v int64
	if name == "incr" || name == "incrby" {
		v = old + by
		if sym.Case(sym.Or(sym.And(by > 0, old > maxInt-by), sym.And(by < 0, old < minInt-by))) {
			sym.Reach("overflow")
			return Err()
		}
	} else {
		v = old - by
		if sym.Case(sym.Or(sym.And(by < 0, old > maxInt+by), sym.And(by > 0, old < minInt+by))) {
			sym.Reach("overflow")
			return Err()
		}
	}
	s.Strs[i].V = strconv.FormatInt(v, 10)
	return Int(v)
}

func (s *Store) doList(name string, a []string) Exp {
	n := len(a)
	want := 1
	switch name {
	case "lpush", "rpush":
		if n < 2 {
			return Err()
		}
		want = n
	case "lrange", "ltrim", "lset", "lrem":
		want = 3
	case "lindex":
		want = 2
	case "linsert":
		want = 4
	}
	if n != want {
		return Err()
	}
	var x, y int64
	var err error
	switch name {
	case "lrange", "ltrim":
		if x, err = strconv.ParseInt(a[1], 10, 64); err != nil {
			return Err()
		}
		if y, err = strconv.ParseInt(a[2], 10, 64); err != nil {
			return Err()
		}
	case "lindex", "lset", "lrem":
		if x, err = strconv.ParseInt(a[1], 10, 64); err != nil {
			return Err()
		}
	case "linsert":
		w := lower(a[1])
		if w == "after" {
			x = 1
		} else if w != "before" {
			return Err()
		}
	}
	k := a[0]
	i := find(s.Lists, k)
	if i < 0 {
		switch name {
		case "lpop", "rpop", "lindex":
			return Null()
		case "llen", "lrem", "linsert":
			return Int(0)
		case "lrange":
			return NullArr()
		case "ltrim":
			return OK()
		case "lset":
			return Err()
		}
		if k == "" {
			return Err() // the empty name is refused for lists
		}
		i = len(s.Lists)
		s.Lists = append(s.Lists, Named{K: k})
	}
	p := &s.Lists[i]
	l := len(p.E)
	switch name {
	case "lpush":
		for _, v := range a[1:] {
			p.E = append([]string{v}, p.E...)
		}
		return Int(int64(len(p.E)))
	case "rpush":
		p.E = append(append([]string(nil), p.E...), a[1:]...)
		return Int(int64(len(p.E)))
	case "lpop":
		if l == 0 {
			return Null()
		}
		v := p.E[0]
		p.E = p.E[1:]
		return Bulk(v)
	case "rpop":
		if l == 0 {
			return Null()
		}
		v := p.E[l-1]
		p.E = p.E[:l-1]
		return Bulk(v)
	case "llen":
		return Int(int64(l))
	case "lindex":
		if j := Index(x, l); j >= 0 {
			return Bulk(p.E[j])
		}
		return Null()
	case "lset":
		j := Index(x, l)
		if j < 0 {
			return Err()
		}
		p.E = append([]string(nil), p.E...)
		p.E[j] = a[2]
		return OK()
	case "lrange":
		b, e := Slice(x, y, l)
		if b < 0 {
			return NullArr()
		}
		var es []*Ref
		for _, v := range p.E[b : e+1] {
			es = append(es, bulk(v))
		}
		return arr(es)
	case "ltrim":
		b, e := Slice(x, y, l)
		if b >= 0 {
			p.E = append([]string(nil), p.E[b:e+1]...)
		}
		return OK()
	case "lrem":
		keep := make([]bool, l)
		removed := int64(0)
		if sym.Case(x >= 0) {
			for j := 0; j < l; j++ {
				keep[j] = true
				if p.E[j] == a[2] && (x == 0 || removed < x) {
					keep[j] = false
					removed++
				}
			}
		} else {
			for j := l - 1; j >= 0; j-- {
				keep[j] = true
				if p.E[j] == a[2] && -removed > x {
					keep[j] = false
					removed++
				}
			}
		}
		var e []string
		for j := 0; j < l; j++ {
			if keep[j] {
				e = append(e, p.E[j])
			}
		}
		p.E = e
		return Int(removed)
	}
	// linsert
	j := elem(p.E, a[2])
	if j < 0 {
		return Int(-1)
	}
	j += int(x)
	e := append([]string(nil), p.E[:j]...)
	e = append(e, a[3])
	p.E = append(e, p.E[j:]...)
	return Int(int64(len(p.E)))
}

func (s *Store) doHash(name string, a []string) Exp {
	n := len(a)
	switch name {
	case "hset":
		if n%2 != 1 || n < 3 {
			return Err()
		}
	case "hmget", "hdel":
		if n < 2 {
			return Err()
		}
	case "hget", "hexists", "hstrlen":
		if n != 2 {
			return Err()
		}
	default:
		if n != 1 {
			return Err()
		}
	}
	k := a[0]
	i := s.hash(k)
	if name == "hset" {
		if k == "" {
			return Err()
		}
		if i < 0 {
			i = len(s.Hashes)
			s.Hashes = append(s.Hashes, NamedHash{K: k})
		}
		p := &s.Hashes[i]
		added := int64(0)
		for j := 1; j < n; j += 2 {
			if q := kvFind(p.E, a[j]); q >= 0 {
				p.E[q].V = a[j+1]
			} else {
				p.E = append(p.E, KV{a[j], a[j+1]})
				added++
			}
		}
		return Int(added)
	}
	var e []KV
	if i >= 0 {
		e = s.Hashes[i].E
	}
	switch name {
	case "hget", "hexists", "hstrlen":
		if a[1] == "" {
			if i >= 0 {
				return Err() // reading the empty field is refused
			}
			if name == "hget" {
				return Null()
			}
			return Int(0)
		}
		j := kvFind(e, a[1])
		if name == "hexists" {
			return Int(B2I(j >= 0))
		}
		if name == "hget" {
			if j >= 0 {
				return Bulk(e[j].V)
			}
			return Null()
		}
		if j >= 0 {
			return Int(int64(len(e[j].V)))
		}
		return Int(0)
	case "hmget":
		var es []*Ref
		for _, f := range a[1:] {
			if j := kvFind(e, f); j >= 0 {
				es = append(es, bulk(e[j].V))
			} else {
				es = append(es, Nil())
			}
		}
		return arr(es)
	case "hdel":
		removed := int64(0)
		for _, f := range a[1:] {
			if j := kvFind(s.hashE(i), f); j >= 0 {
				p := &s.Hashes[i]
				p.E = append(append([]KV(nil), p.E[:j]...), p.E[j+1:]...)
				removed++
			}
		}
		return Int(removed)
	case "hlen":
		return Int(int64(len(e)))
	case "hkeys":
		var l []string
		for _, x := range e {
			l = append(l, x.K)
		}
		return bag(l)
	case "hvals":
		var l []string
		for _, x := range e {
			l = append(l, x.V)
		}
		return bag(l)
	}
	return Exp{Kind: XPairs, Pairs: append([]KV(nil), e...)}
}

func (s *Store) hashE(i int) []KV {
	if i < 0 {
		return nil
	}
	return s.Hashes[i].E
}

func (s *Store) set(k string) []string {
	if i := find(s.Sets, k); i >= 0 {
		return s.Sets[i].E
	}
	return nil
}

func (s *Store) doSet(name string, a []string) Exp {
	n := len(a)
	count := int64(1)
	countSet := false
	switch name {
	case "sadd", "srem":
		if n < 2 {
			return Err()
		}
	case "sismember":
		if n != 2 {
			return Err()
		}
	case "smembers", "scard":
		if n != 1 {
			return Err()
		}
	case "sdiff", "sinter", "sunion":
		if n == 0 {
			return Err()
		}
	case "spop", "srandmember":
		if n == 0 || n > 2 {
			return Err()
		}
		if n == 2 {
			c, err := strconv.ParseInt(a[1], 10, 64)
			if err != nil {
				return Err()
			}
			count, countSet = c, true
		}
	}
	k := a[0]
	i := find(s.Sets, k)
	e := s.set(k)
	switch name {
	case "sadd", "srem":
		if k == "" {
			return Err()
		}
		if i < 0 {
			i = len(s.Sets)
			s.Sets = append(s.Sets, Named{K: k})
		}
		p := &s.Sets[i]
		c := int64(0)
		for _, v := range a[1:] {
			j := elem(p.E, v)
			if name == "sadd" && j < 0 {
				p.E = append(append([]string(nil), p.E...), v)
				c++
			}
			if name == "srem" && j >= 0 {
				p.E = append(append([]string(nil), p.E[:j]...), p.E[j+1:]...)
				c++
			}
		}
		return Int(c)
	case "sismember":
		if a[1] == "" {
			if i >= 0 {
				return Err() // asking for the empty member is refused
			}
			return Int(0)
		}
		return Int(B2I(elem(e, a[1]) >= 0))
	case "smembers":
		return bag(e)
	case "scard":
		return Int(int64(len(e)))
	case "spop", "srandmember":
		// a negative count means its absolute value
		w := len(e)
		if sym.Case(sym.And(count > -int64(len(e)), count < int64(len(e)))) {
			w = sym.Conc(int(count))
			if w < 0 {
				w = -w
			}
		}
		x := Exp{Kind: XSome, Elems: append([]string(nil), e...), N: w, Key: k, Pop: name == "spop"}
		if !countSet {
			if len(e) == 0 {
				return Null()
			}
			x.Kind = XOne
		}
		return x
	}
	res := append([]string(nil), e...)
	for _, o := range a[1:] {
		oe := s.set(o)
		var nx []string
		if name == "sunion" {
			nx = append(nx, res...)
			for _, v := range oe {
				if elem(nx, v) < 0 {
					nx = append(nx, v)
				}
			}
		} else {
			for _, v := range res {
				if (elem(oe, v) >= 0) == (name == "sinter") {
					nx = append(nx, v)
				}
			}
		}
		res = nx
	}
	return bag(res)
}

// texts returns the elements of an array of bulk strings.
func texts(o protocol.RedisObject) ([]string, bool) {
	arr, ok := o.(protocol.RedisArray)
	if !ok || o.Type() != "*" {
		return nil, false
	}
	var l []string
	for _, e := range arr.Data() {
		if e == nil || e.Type() != "$" {
			return nil, false
		}
		s, ok := e.(protocol.RedisString)
		if !ok || e.String() == "$-1\r\n" {
			return nil, false
		}
		l = append(l, s.Data())
	}
	return l, true
}

// Check asserts that the reply is an expected one; after a random pop it tells the reference store what was removed.
func (s *Store) Check(x Exp, o protocol.RedisObject, failed bool, cmd string) {
	if x.Kind == XErrFree {
		return
	}
	if x.Kind == XErr {
		sym.Assert(failed, cmd+": must be answered with an error")
		return
	}
	sym.Assert(!failed, cmd+": must not be answered with an error")
	if failed {
		return
	}
	sym.Assert(o != nil, cmd+": a reply")
	if o == nil {
		return
	}
	switch x.Kind {
	case XRef:
		sym.Assert(Same(o, x.Ref), cmd+": reply differs from the reference")
	case XBag:
		l, ok := texts(o)
		sym.Assert(ok, cmd+": an array of bulk strings")
		sym.Assert(len(l) == len(x.Elems), cmd+": number of elements")
		rest := append([]string(nil), x.Elems...)
		for _, v := range l {
			j := elem(rest, v)
			sym.Assert(j >= 0, cmd+": an element that does not belong there (or twice)")
			if j < 0 {
				return
			}
			rest = append(rest[:j:j], rest[j+1:]...)
		}
	case XPairs:
		l, ok := texts(o)
		sym.Assert(ok, cmd+": an array of bulk strings")
		sym.Assert(len(l) == 2*len(x.Pairs), cmd+": number of elements")
		rest := append([]KV(nil), x.Pairs...)
		for i := 0; i+1 < len(l); i += 2 {
			j := kvFind(rest, l[i])
			sym.Assert(j >= 0, cmd+": a field that does not belong there (or twice)")
			if j < 0 {
				return
			}
			sym.Assert(rest[j].V == l[i+1], cmd+": a value that is not the field's")
			rest = append(rest[:j:j], rest[j+1:]...)
		}
	case XSome, XOne:
		var l []string
		if x.Kind == XOne {
			str, ok := o.(protocol.RedisString)
			sym.Assert(ok && o.Type() == "$" && o.String() != "$-1\r\n", cmd+": a bulk string")
			if !ok {
				return
			}
			l = []string{str.Data()}
		} else {
			var ok bool
			l, ok = texts(o)
			sym.Assert(ok, cmd+": an array of bulk strings")
		}
		sym.Assert(len(l) == x.N, cmd+": number of elements")
		rest := append([]string(nil), x.Elems...)
		for _, v := range l {
			j := elem(rest, v)
			sym.Assert(j >= 0, cmd+": returned something that is not a (distinct) member")
			if j < 0 {
				return
			}
			rest = append(rest[:j:j], rest[j+1:]...)
		}
		if x.Pop {
			if i := find(s.Sets, x.Key); i >= 0 {
				s.Sets[i].E = rest
			}
		}
	}
}

// Exec builds and executes one command on a database.
func Exec(d db.DB, name string, args ...string) (protocol.RedisObject, error) {
	var objs []protocol.RedisObject
	for _, a := range args {
		objs = append(objs, protocol.NewBulkRedisString(a))
	}
	return ExecObjs(d, name, objs)
}

// ExecObjs is Exec with given argument objects.
func ExecObjs(d db.DB, name string, objs []protocol.RedisObject) (protocol.RedisObject, error) {
	c, err := command.NewCommand(name, 1, objs)
	if err != nil {
		return nil, err
	}
	sym.Assert(c != nil, "neither a command nor an error")
	d.ExecuteCommand(c)
	o, err := c.Result()
	if err != nil {
		return nil, err
	}
	return o, nil
}

// Both executes a command on the database and on the reference store and compares the replies.
func Both(d db.DB, s *Store, name string, args ...string) {
	o, err := Exec(d, name, args...)
	s.Check(s.Do(name, args...), o, err != nil, name)
}

// Audit compares everything that can be read under the given keys with the reference store.
func Audit(d db.DB, s *Store, keys ...string) {
	for _, k := range keys {
		Both(d, s, "get", k)
		Both(d, s, "lrange", k, "0", "-1")
		Both(d, s, "llen", k)
		Both(d, s, "hgetall", k)
		Both(d, s, "hlen", k)
		Both(d, s, "smembers", k)
		Both(d, s, "scard", k)
	}
}

// Dec is the decimal form of n.
func Dec(n int64) string { return strconv.FormatInt(n, 10) }

// Itoa is the decimal form of a small number.
func Itoa(n int) string { return strconv.Itoa(n) }
