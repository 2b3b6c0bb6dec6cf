// Package c21 checks data maps.
package c21

import (
	"sync"

	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

func newMap(kind int) types.DataMap {
	switch kind {
	case 0:
		return types.NewSimpleDataMap()
	case 1:
		return types.NewLockedDataMap()
	}
	return types.NewSyncDataMap()
}

type entry struct {
	k string
	v int
}

type model struct{ l []entry }

func (m *model) find(k string) int {
	for i := range m.l {
		if m.l[i].k == k {
			return i
		}
	}
	return -1
}

func (m *model) set(k string, v int) {
	if i := m.find(k); i >= 0 {
		m.l[i].v = v
		return
	}
	m.l = append(m.l, entry{k, v})
}

func (m *model) remove(k string) {
	if i := m.find(k); i >= 0 {
		m.l = append(m.l[:i:i], m.l[i+1:]...)
	}
}

func agree(d types.DataMap, m *model, k string) {
	v, ok := d.Get(k)
	i := m.find(k)
	sym.Assert(ok == (i >= 0), "Get reports the wrong presence")
	sym.Assert(d.Has(k) == (i >= 0), "Has is wrong")
	if i >= 0 && ok {
		n, isInt := v.(int)
		sym.Assert(isInt && n == m.l[i].v, "Get does not give the latest value")
	} else {
		sym.Assert(v == nil, "a missing key has a value")
	}
}

// Sequential histories on all kinds.
//
//verif:harness id=C21.history quick=50 thorough=400
//verif:bounds all three kinds, every history of 4 (quick) / 5 (thorough) sets and removes of keys of 0..2 arbitrary bytes with any int values; the answers and the length compared after every step
func History() {
	d := newMap(sym.Choice("kind", 3))
	m := &model{}
	for i := 0; i < 4+sym.Tier(); i++ {
		k := sym.String("k", sym.Choice("len", 3))
		if sym.Choice("op", 2) == 0 {
			v := sym.Int("v")
			d.Set(k, v)
			m.set(k, v)
		} else {
			d.Remove(k)
			m.remove(k)
		}
		agree(d, m, k)
		sym.Assert(d.Len() == len(m.l), "the length is wrong")
	}
	for _, e := range m.l {
		agree(d, m, e.k)
	}
}

type node struct{ items []int }

// value makes a value of some kind and a test for being exactly that value.
func value(name string, kind int) (interface{}, func(interface{}) bool) {
	n := sym.Int(name)
	switch kind {
	case 0:
		return nil, func(x interface{}) bool { return x == nil }
	case 1:
		return n, func(x interface{}) bool { y, ok := x.(int); return ok && y == n }
	case 2:
		t := sym.String(name+".s", 2)
		return t, func(x interface{}) bool { y, ok := x.(string); return ok && y == t }
	case 3:
		b := []byte(sym.String(name+".b", 2))
		return b, func(x interface{}) bool { y, ok := x.([]byte); return ok && len(y) == 2 && &y[0] == &b[0] }
	case 4:
		m := map[string]int{"x": n}
		return m, func(x interface{}) bool { y, ok := x.(map[string]int); return ok && len(y) == 1 && y["x"] == n }
	case 5:
		p := &node{}
		return p, func(x interface{}) bool { y, ok := x.(*node); return ok && y == p }
	case 6:
		f := func() int { return n }
		return f, func(x interface{}) bool { y, ok := x.(func() int); return ok && y() == n }
	}
	return node{items: []int{n}}, func(x interface{}) bool {
		y, ok := x.(node)
		return ok && len(y.items) == 1 && y.items[0] == n
	}
}

// Values of every kind, among them those Go cannot compare.
//
//verif:harness id=C21.values quick=40 thorough=200
//verif:bounds all three kinds of map; a key of 0..1 arbitrary bytes set twice, or the same value set twice, each value being nil, any int, a 2-byte string, a byte slice, a map, a pointer, a function or a struct holding a slice; then another key set and the first removed
func Values() {
	d := newMap(sym.Choice("kind", 3))
	k := sym.String("k", sym.Choice("len", 2))
	v, isV := value("v", sym.Choice("v.kind", 8))
	w, isW := v, isV
	if sym.Choice("same", 2) == 0 {
		w, isW = value("w", sym.Choice("w.kind", 8))
	}
	get := func(k string, is func(interface{}) bool, n int) {
		x, ok := d.Get(k)
		sym.Assert(ok && d.Has(k), "a key that was set is missing")
		sym.Assert(is(x), "Get does not give the value that was set")
		sym.Assert(d.Len() == n, "the length is wrong")
	}
	d.Set(k, v)
	get(k, isV, 1)
	d.Set(k, w)
	get(k, isW, 1)
	o := k + "2"
	d.Set(o, v)
	get(o, isV, 2)
	get(k, isW, 2)
	d.Remove(k)
	_, ok := d.Get(k)
	sym.Assert(!ok && !d.Has(k), "a removed key is still there")
	get(o, isV, 1)
}

type op struct {
	remove bool
	k      string
	v      int
}

func (o op) run(d types.DataMap) {
	if o.remove {
		d.Remove(o.k)
	} else {
		d.Set(o.k, o.v)
	}
}

func (o op) model(m *model) {
	if o.remove {
		m.remove(o.k)
	} else {
		m.set(o.k, o.v)
	}
}

func merge(a, b []op, cur []op, out *[][]op) {
	if len(a) == 0 && len(b) == 0 {
		*out = append(*out, append([]op(nil), cur...))
		return
	}
	if len(a) > 0 {
		merge(a[1:], b, append(cur[:len(cur):len(cur)], a[0]), out)
	}
	if len(b) > 0 {
		merge(a, b[1:], append(cur[:len(cur):len(cur)], b[0]), out)
	}
}

// Two goroutines with two operations each on the two concurrent kinds.
//
//verif:harness id=C21.concurrent quick=60 thorough=400 explore race
//verif:bounds the two concurrent kinds with a key present or not; two goroutines with 1..2 operations each (set or remove of one of two keys), every interleaving; the final contents and length equal those of some sequential order
func Concurrent() {
	d := newMap(1 + sym.Choice("kind", 2))
	base := &model{}
	if sym.Choice("present", 2) == 1 {
		d.Set("a", 100)
		base.set("a", 100)
	}
	keys := []string{"a", "b"}
	var ops [2][]op
	for g := range ops {
		n := 2
		if g == 1 {
			n = 1 + sym.Choice("n", 2)
		}
		for i := 0; i < n; i++ {
			o := op{k: keys[sym.Choice("key", 2)], v: g*10 + i}
			o.remove = sym.Choice("op", 2) == 1
			ops[g] = append(ops[g], o)
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		for _, o := range ops[1] {
			o.run(d)
		}
		wg.Done()
	}()
	for _, o := range ops[0] {
		o.run(d)
	}
	wg.Wait()
	var orders [][]op
	merge(ops[0], ops[1], nil, &orders)
	va, oka := d.Get("a")
	vb, okb := d.Get("b")
	present := 0
	if oka {
		present++
	}
	if okb {
		present++
	}
	sym.Assert(d.Len() == present, "the length is not the number of present keys")
	sym.Assert(d.Has("a") == oka && d.Has("b") == okb, "Has and Get disagree")
	for _, o := range orders {
		m := &model{l: append([]entry(nil), base.l...)}
		for _, x := range o {
			x.model(m)
		}
		ia, ib := m.find("a"), m.find("b")
		if (ia >= 0) == oka && (ib >= 0) == okb && (ia < 0 || va == interface{}(m.l[ia].v)) && (ib < 0 || vb == interface{}(m.l[ib].v)) {
			return
		}
	}
	sym.Assert(false, "no sequential order explains the final contents")
}

// Readers running along with a writer.
//
//verif:harness id=C21.readers quick=40 thorough=200 explore race
//verif:bounds the two concurrent kinds; one writer (set, set, remove on one key) and one reader reading twice: the reader sees only written values, never goes back, and the length stays 0 or 1, every interleaving
func Readers() {
	d := newMap(1 + sym.Choice("kind", 2))
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		d.Set("a", 1)
		d.Set("a", 2)
		d.Remove("a")
		wg.Done()
	}()
	last := 0
	for i := 0; i < 2; i++ {
		v, ok := d.Get("a")
		cur := 0
		if ok {
			cur = v.(int)
			sym.Assert(cur == 1 || cur == 2, "a value nobody wrote")
			sym.Assert(cur >= last, "an overwritten value came back")
		}
		if ok {
			last = cur
		}
		n := d.Len()
		sym.Assert(n == 0 || n == 1, "the length is out of range")
	}
	wg.Wait()
	sym.Assert(d.Len() == 0 && !d.Has("a"), "the key was not removed")
}

// Many entries.
//
//verif:harness id=C21.many quick=40 thorough=200
//verif:bounds all three kinds, 9, 33, 130 or 300 (thorough also 1100) keys and one arbitrary key of 1 byte, every third removed, every fifth set again; all keys and the length compared
func Many() {
	d := newMap(sym.Choice("kind", 3))
	n := []int{9, 33, 130, 300, 1100}[sym.Choice("n", 4+sym.Tier())]
	key := func(i int) string {
		return string([]byte{byte('0' + i/1000), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
	}
	m := &model{}
	set := func(k string, v int) {
		d.Set(k, v)
		m.set(k, v)
	}
	one := sym.String("key", 1)
	set(one, sym.Int("value"))
	for i := 0; i < n; i++ {
		set(key(i), i)
	}
	sym.Assert(d.Len() == n+1, "the length is wrong")
	for i := 0; i < n; i += 3 {
		d.Remove(key(i))
		m.remove(key(i))
	}
	sym.Assert(d.Len() == len(m.l), "the length is wrong")
	for i := 0; i < n; i += 5 {
		set(key(i), -i)
	}
	set(key(n/2), sym.Int("other"))
	d.Remove("none")
	sym.Assert(d.Len() == len(m.l), "the length is wrong")
	for i := 0; i < n; i++ {
		agree(d, m, key(i))
	}
	agree(d, m, one)
	agree(d, m, "none")
}
