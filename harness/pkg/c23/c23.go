// Package c23 checks the sorted set container against a plain list of (score, member) pairs.
package c23

import (
	"math"

	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

type entry struct {
	score  float64
	member string
}

type model []entry

func less(s float64, m string, e entry) bool {
	return s < e.score || (s == e.score && m < e.member)
}

func (m model) find(member string) int {
	for i := range m {
		if m[i].member == member {
			return i
		}
	}
	return -1
}

func (m model) without(i int) model {
	return append(append(model{}, m[:i]...), m[i+1:]...)
}

func (m model) with(s float64, member string) model {
	i := 0
	for i < len(m) && !less(s, member, m[i]) {
		i++
	}
	r := append(model{}, m[:i]...)
	r = append(r, entry{s, member})
	return append(r, m[i:]...)
}

func (m model) add(s float64, member string) model {
	if m.find(member) >= 0 {
		return m
	}
	return m.with(s, member)
}

func score(name string) float64 {
	f := math.Float64frombits(uint64(sym.Int64(name)))
	sym.Assume(f == f)
	return f
}

// plain is a score with a zero sign bit: from 0 to infinity.
func plain(name string) float64 {
	b := sym.Int64(name)
	sym.Assume(b >= 0 && b <= 0x7ff0000000000000)
	return math.Float64frombits(uint64(b))
}

// check compares every read with the model.
func check(ss container.SortedSetContainer, m model, names []string) {
	sym.Assert(ss.Len() == len(m), "wrong length")
	for _, n := range names {
		i := m.find(n)
		k, err := ss.Rank(container.NewString(n))
		s, err2 := ss.Score(container.NewString(n))
		if i < 0 {
			sym.Assert(k == -1 && err == container.ErrEntryNotFound, "a missing member has a rank")
			sym.Assert(err2 == container.ErrEntryNotFound, "a missing member has a score")
			continue
		}
		sym.Assert(err == nil && err2 == nil, "a present member is reported missing")
		sym.Assert(k == i, "wrong rank")
		sym.Assert(s == m[i].score, "wrong score")
	}
}

// drain pops everything; from which end is chosen each time (ends: 0 min, 1 max, 2 any).
func drain(ss container.SortedSetContainer, m model, ends int) {
	for len(m) > 0 {
		end := ends
		if ends == 2 {
			end = sym.Choice("end", 2)
		}
		i := 0
		pop := ss.PopMin
		if end == 1 {
			i = len(m) - 1
			pop = ss.PopMax
		}
		e, err := pop()
		sym.Assert(err == nil && e != nil, "no member to pop")
		sym.Assert(e.String() == m[i].member, "members are popped in the wrong order")
		m = m.without(i)
		sym.Assert(ss.Len() == len(m), "wrong length after a pop")
	}
	_, err := ss.PopMin()
	sym.Assert(err == container.ErrSortedSetEmpty, "popped from an empty set")
	_, err = ss.PopMax()
	sym.Assert(err == container.ErrSortedSetEmpty, "popped from an empty set")
}

func add(ss container.SortedSetContainer, s float64, member string) {
	err := ss.Add([]float64{s}, []*container.StringContainer{container.NewString(member)})
	sym.Assert(err == nil, "an add failed")
}

func del(ss container.SortedSetContainer, member string) {
	ss.Del([]*container.StringContainer{container.NewString(member)})
}

var pool = []string{"b", "a", "ab", "c", ""}

// Arbitrary scores: order, ranks and pops.
//
//verif:harness id=C23.order quick=60 thorough=300 draws=5,7
//verif:bounds 3 (quick) / 4 (thorough) members added in any of their given orders with arbitrary non-NaN float64 scores; all skip-list level assignments with at most 2 (quick) / 3 (thorough) raises in total; then drained from either end
//verif:reach tie
func Order() {
	ss := container.NewSortedSetContainer("z")
	var m model
	n := 3
	if sym.Tier() == 1 {
		n = 4
	}
	var sc []float64
	for i := 0; i < n; i++ {
		sc = append(sc, score("score"))
	}
	if sym.Choice("together", 2) == 1 {
		var es []*container.StringContainer
		for _, p := range pool[:n] {
			es = append(es, container.NewString(p))
		}
		sym.Assert(ss.Add(sc, es) == nil, "an add failed")
	} else {
		for i := range sc {
			add(ss, sc[i], pool[i])
		}
	}
	for i := range sc {
		m = m.add(sc[i], pool[i])
	}
	if m[0].score == m[1].score {
		sym.Reach("tie")
	}
	check(ss, m, pool[:n+1])
	drain(ss, m, sym.Choice("ends", 3))
}

// Deleting a member keeps the rest intact.
//
//verif:harness id=C23.delete quick=60 thorough=300 draws=5,8
//verif:bounds three members with arbitrary scores from 0 to +Inf, up to one (quick) / two (thorough) deletions of any of them (or of a missing one), then a fourth member with such a score, then drained; all level assignments with at most 5 (quick) / 8 (thorough) random draws
//verif:reach missing
func Delete() {
	ss := container.NewSortedSetContainer("z")
	var m model
	var sc []float64
	for i := 0; i < 4; i++ {
		sc = append(sc, plain("score"))
	}
	for i := 0; i < 3; i++ {
		add(ss, sc[i], pool[i])
		m = m.add(sc[i], pool[i])
	}
	for k := 1 + sym.Choice("deletions", 1+sym.Tier()); k > 0; k-- {
		d := pool[sym.Choice("which", 4)]
		del(ss, d)
		if i := m.find(d); i >= 0 {
			m = m.without(i)
		} else {
			sym.Reach("missing")
		}
		check(ss, m, pool[:4])
	}
	p := pool[2+sym.Choice("new", 2)]
	add(ss, sc[3], p)
	m = m.add(sc[3], p)
	check(ss, m, pool[:4])
	drain(ss, m, sym.Choice("ends", 2))
}

// Raising and lowering a score moves the member.
//
//verif:harness id=C23.increase quick=60 thorough=300 draws=6,8
//verif:bounds two (quick) / three (thorough) members with arbitrary non-NaN scores, one increase of any of them (or of a missing one) by an arbitrary amount whose result is a number; all level assignments with at most 2 (quick) / 4 (thorough) raises in total
func Increase() {
	ss := container.NewSortedSetContainer("z")
	var m model
	for i := 0; i < 2+sym.Tier(); i++ {
		s := score("score")
		add(ss, s, pool[i])
		m = m.add(s, pool[i])
	}
	d := pool[sym.Choice("which", 4)]
	by := score("by")
	i := m.find(d)
	if i < 0 {
		_, err := ss.IncreaseBy(container.NewString(d), by)
		sym.Assert(err == container.ErrEntryNotFound, "increased a missing member")
	} else {
		want := m[i].score + by
		sym.Assume(want == want)
		got, err := ss.IncreaseBy(container.NewString(d), by)
		sym.Assert(err == nil && got == want, "wrong increased score")
		m = m.without(i).with(want, d)
	}
	check(ss, m, pool[:4])
	drain(ss, m, sym.Choice("ends", 2))
}

// Arbitrary members with equal or adjacent scores.
//
//verif:harness id=C23.members quick=60 thorough=300 draws=5,7
//verif:bounds three members of arbitrary bytes, length 0 to 2, the third of length 1 (quick) / all 0 to 3 (thorough), possibly equal, each with score 0 or 1 or -0; all level assignments with at most 2 (quick) / 4 (thorough) raises in total
//verif:reach duplicate
func Members() {
	ss := container.NewSortedSetContainer("z")
	var m model
	var names []string
	scores := []float64{0, 1, math.Copysign(0, -1)}
	for i := 0; i < 3; i++ {
		l := 1
		if i < 2 || sym.Tier() > 0 {
			l = sym.Choice("len", 3+sym.Tier())
		}
		p := sym.String("member", l)
		s := scores[sym.Choice("score", 3)]
		add(ss, s, p)
		if m.find(p) >= 0 {
			sym.Reach("duplicate")
		}
		m = m.add(s, p)
		names = append(names, p)
	}
	check(ss, m, names)
	drain(ss, m, sym.Choice("ends", 2))
}

// Histories of mixed operations over few members and scores.
//
//verif:harness id=C23.history quick=90 thorough=600 draws=5,7
//verif:bounds 4 (quick) / 5 (thorough) operations over three members, two adds (of the first two) and then any of add, delete, pop-min, pop-max, and arbitrary scores from 0 to +Inf; all level assignments with at most 5 (quick) / 7 (thorough) random draws in total
func History() {
	ss := container.NewSortedSetContainer("z")
	var m model
	n := 4 + sym.Tier()
	for i := 0; i < n; i++ {
		op := 0
		if i >= 2 {
			op = sym.Choice("op", 4)
		}
		switch op {
		case 0:
			k := 3
			if i < 2 {
				k = 2
			}
			p := pool[sym.Choice("member", k)]
			s := plain("score")
			add(ss, s, p)
			m = m.add(s, p)
		case 1:
			p := pool[sym.Choice("member", 3)]
			del(ss, p)
			if j := m.find(p); j >= 0 {
				m = m.without(j)
			}
		case 2:
			e, err := ss.PopMin()
			if len(m) == 0 {
				sym.Assert(err == container.ErrSortedSetEmpty, "popped from an empty set")
			} else {
				sym.Assert(err == nil && e.String() == m[0].member, "the wrong member was popped")
				m = m.without(0)
			}
		case 3:
			e, err := ss.PopMax()
			if len(m) == 0 {
				sym.Assert(err == container.ErrSortedSetEmpty, "popped from an empty set")
			} else {
				sym.Assert(err == nil && e.String() == m[len(m)-1].member, "the wrong member was popped")
				m = m.without(len(m) - 1)
			}
		}
	}
	check(ss, m, pool[:3])
	drain(ss, m, sym.Choice("ends", 2))
}

// Adding with mismatched slices changes nothing.
//
//verif:harness id=C23.mismatch quick=10 thorough=20 draws=4
//verif:bounds one member present; an add of 0 to 2 scores with 0 to 2 members, numbers differing
func Mismatch() {
	ss := container.NewSortedSetContainer("z")
	sym.Assert(ss.Key() == "z", "wrong key")
	m := model{}.add(1, "a")
	add(ss, 1, "a")
	a, b := sym.Choice("scores", 3), sym.Choice("members", 3)
	sym.Assume(a != b)
	var sc []float64
	var es []*container.StringContainer
	for i := 0; i < a; i++ {
		sc = append(sc, 2)
	}
	for i := 0; i < b; i++ {
		es = append(es, container.NewString(pool[3+i%2]))
	}
	sym.Assert(ss.Add(sc, es) == container.ErrSortedSetLengthNotMatch, "an add with missing scores or members was accepted")
	check(ss, m, pool)
	drain(ss, m, 0)
}

// Many members.
//
//verif:harness id=C23.many quick=60 thorough=300 prng=6,16
//verif:bounds 9, 17, 40, 100 or 200 members with scores in one of three orders, some tied, one with an arbitrary score from 0 to +Inf (of 9 members) or one of five scores; every third deleted and one moved; lengths, all ranks and scores, then half popped from each end; 6 (quick) / 16 (thorough) sequences of random draws: always the largest, six smallest and a largest in turn, and pseudo-random ones
func Many() {
	ss := container.NewSortedSetContainer("z")
	var m model
	var names []string
	n := []int{9, 17, 40, 100, 200}[sym.Choice("n", 5)]
	order := sym.Choice("order", 3)
	at := func(i int) float64 {
		switch order {
		case 0:
			return float64(i / 2)
		case 1:
			return float64((n - i) / 2)
		}
		return float64(i*37%n) - 3
	}
	for i := 0; i < n; i++ {
		p := string([]byte{byte('a' + i*7%26), byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		s := at(i)
		if i == n/2 {
			if n == 9 {
				s = plain("score")
			} else {
				s = []float64{-5, 0, at(3) + 0.5, at(n - 2), math.Inf(1)}[sym.Choice("which score", 5)]
			}
		}
		add(ss, s, p)
		m = m.add(s, p)
		names = append(names, p)
	}
	add(ss, -1, names[1])
	check(ss, m, names)
	for i := 0; i < n; i += 3 {
		del(ss, names[i])
		m = m.without(m.find(names[i]))
	}
	d := names[n/2]
	if i := m.find(d); i >= 0 {
		want := m[i].score + 2.5
		got, err := ss.IncreaseBy(container.NewString(d), 2.5)
		sym.Assert(err == nil && got == want, "wrong increased score")
		m = m.without(i).with(want, d)
	}
	check(ss, m, names)
	for k := len(m) / 2; k > 0; k-- {
		e, err := ss.PopMax()
		sym.Assert(err == nil && e.String() == m[len(m)-1].member, "the wrong member was popped")
		m = m.without(len(m) - 1)
	}
	check(ss, m, names)
	add(ss, 4, names[0])
	m = m.add(4, names[0])
	drain(ss, m, 0)
}
