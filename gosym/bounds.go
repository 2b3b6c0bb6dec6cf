package main

// Unsigned interval analysis over the path condition: decides comparisons without a solver query when intervals suffice.

import mbits "math/bits"

type bnd struct{ lo, hi uint64 }

func (p *Path) bounds(t *Term) bnd {
	if t.op == OConst {
		return bnd{t.k, t.k}
	}
	if b, ok := p.bmemo[t]; ok {
		return b
	}
	b := p.bounds1(t)
	if r, ok := p.rng[t]; ok {
		if r.lo > b.lo {
			b.lo = r.lo
		}
		if r.hi < b.hi {
			b.hi = r.hi
		}
		if b.lo > b.hi { // contradictory path condition; stay sound by giving up
			b = bnd{0, mask(t.w)}
		}
	}
	p.bmemo[t] = b
	return b
}

func (p *Path) bounds1(t *Term) bnd {
	mx := mask(t.w)
	full := bnd{0, mx}
	switch t.op {
	case OAdd:
		a, b := p.bounds(t.a), p.bounds(t.b)
		lo, c1 := mbits.Add64(a.lo, b.lo, 0)
		hi, c2 := mbits.Add64(a.hi, b.hi, 0)
		if t.w == 64 {
			if c1 == c2 {
				return bnd{lo, hi}
			}
			return full
		}
		if hi <= mx {
			return bnd{lo, hi}
		}
		if lo > mx && hi <= 2*mx+1 {
			return bnd{lo - mx - 1, hi - mx - 1}
		}
	case OSub:
		a, b := p.bounds(t.a), p.bounds(t.b)
		if a.lo >= b.hi {
			return bnd{a.lo - b.hi, a.hi - b.lo}
		}
	case OMul:
		a, b := p.bounds(t.a), p.bounds(t.b)
		h, l := mbits.Mul64(a.hi, b.hi)
		if h == 0 && l <= mx {
			return bnd{a.lo * b.lo, l}
		}
	case ONeg:
		if a := p.bounds(t.a); a.lo > 0 {
			return bnd{(-a.hi) & mx, (-a.lo) & mx}
		}
	case OUDiv:
		if t.b.isConst() && t.b.k != 0 {
			a := p.bounds(t.a)
			return bnd{a.lo / t.b.k, a.hi / t.b.k}
		}
	case OURem:
		if t.b.isConst() && t.b.k != 0 {
			a := p.bounds(t.a)
			if a.hi < t.b.k {
				return a
			}
			return bnd{0, t.b.k - 1}
		}
	case OAnd:
		a, b := p.bounds(t.a), p.bounds(t.b)
		return bnd{0, min(a.hi, b.hi)}
	case OOr:
		a, b := p.bounds(t.a), p.bounds(t.b)
		n := mbits.Len64(a.hi | b.hi)
		hi := mx
		if n < 64 {
			hi = min(mx, 1<<n-1)
		}
		return bnd{max(a.lo, b.lo), hi}
	case OXor:
		a, b := p.bounds(t.a), p.bounds(t.b)
		n := mbits.Len64(a.hi | b.hi)
		if n < 64 {
			return bnd{0, min(mx, 1<<n-1)}
		}
	case OLshr:
		if t.b.isConst() && t.b.k < 64 {
			a := p.bounds(t.a)
			return bnd{a.lo >> t.b.k, a.hi >> t.b.k}
		}
	case OShl:
		if t.b.isConst() && t.b.k < 64 {
			a := p.bounds(t.a)
			if a.hi <= mx>>t.b.k {
				return bnd{a.lo << t.b.k, a.hi << t.b.k}
			}
		}
	case OZext:
		return p.bounds(t.a)
	case OSext:
		a := p.bounds(t.a)
		s := uint64(1) << (t.a.w - 1)
		if a.hi < s {
			return a
		}
		if a.lo >= s {
			return bnd{uint64(sx(a.lo, t.a.w)) & mx, uint64(sx(a.hi, t.a.w)) & mx}
		}
	case OExtract:
		a := p.bounds(t.a)
		if t.k == 0 && a.hi <= mx {
			return a
		}
		if t.k > 0 && a.hi>>t.k <= mx {
			return bnd{a.lo >> t.k, a.hi >> t.k}
		}
	case OConcat:
		a, b := p.bounds(t.a), p.bounds(t.b)
		return bnd{a.lo<<t.b.w | b.lo, a.hi<<t.b.w | b.hi}
	case OIte:
		switch p.tri(t.a) {
		case 1:
			return p.bounds(t.b)
		case 0:
			return p.bounds(t.c)
		}
		a, b := p.bounds(t.b), p.bounds(t.c)
		return bnd{min(a.lo, b.lo), max(a.hi, b.hi)}
	}
	return full
}

// signed interval; ok is false when it straddles the sign change.
func signedB(b bnd, w uint8) (lo, hi int64) {
	s := uint64(1) << (w - 1)
	if b.hi < s || b.lo >= s {
		return sx(b.lo, w), sx(b.hi, w)
	}
	return sx(s, w), int64(s - 1)
}

// tri evaluates a condition over the intervals: 1 true, 0 false, -1 unknown.
func (p *Path) tri(c *Term) int {
	if v, ok := p.lits[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch c.op {
	case BTrue:
		return 1
	case BFalse:
		return 0
	case BNot:
		if v := p.tri(c.a); v >= 0 {
			return 1 - v
		}
	case BAnd:
		a := p.tri(c.a)
		if a == 0 {
			return 0
		}
		b := p.tri(c.b)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case BOr:
		a := p.tri(c.a)
		if a == 1 {
			return 1
		}
		b := p.tri(c.b)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	case BEq:
		if c.a.w == 0 {
			a, b := p.tri(c.a), p.tri(c.b)
			if a >= 0 && b >= 0 {
				if a == b {
					return 1
				}
				return 0
			}
			return -1
		}
		a, b := p.bounds(c.a), p.bounds(c.b)
		if a.hi < b.lo || b.hi < a.lo {
			return 0
		}
		if a.lo == a.hi && a == b {
			return 1
		}
	case BUlt, BUle:
		if c.op == BUlt && p.sumNoWrap(c.a, c.b) {
			return 0
		}
		if c.op == BUle && p.sumNoWrap(c.b, c.a) {
			return 1
		}
		a, b := p.bounds(c.a), p.bounds(c.b)
		if a.hi < b.lo || (c.op == BUle && a.hi == b.lo) {
			return 1
		}
		if a.lo > b.hi || (c.op == BUlt && a.lo == b.hi) {
			return 0
		}
	case BSlt, BSle:
		al, ah := signedB(p.bounds(c.a), c.a.w)
		bl, bh := signedB(p.bounds(c.b), c.b.w)
		if ah < bl || (c.op == BSle && ah == bl) {
			return 1
		}
		if al > bh || (c.op == BSlt && al == bh) {
			return 0
		}
	}
	return -1
}

// narrow records interval facts implied by a literal.
func (p *Path) narrow(t *Term, v bool) {
	switch t.op {
	case BNot:
		p.narrow(t.a, !v)
	case BEq:
		if t.a.w == 0 {
			return
		}
		x, k := t.a, t.b
		if x.isConst() {
			x, k = k, x
		}
		if !k.isConst() || x.isConst() {
			return
		}
		if v {
			p.meet(x, k.k, k.k)
			return
		}
		b := p.bounds(x)
		if b.lo == k.k && b.lo < b.hi {
			p.meet(x, b.lo+1, b.hi)
		} else if b.hi == k.k && b.lo < b.hi {
			p.meet(x, b.lo, b.hi-1)
		}
	case BUlt, BUle:
		a, b := t.a, t.b
		strict := t.op == BUlt
		if !v { // a >= b or a > b
			a, b = b, a
			strict = !strict
		}
		ba, bb := p.bounds(a), p.bounds(b)
		d := uint64(0)
		if strict {
			d = 1
		}
		if !a.isConst() && bb.hi >= d {
			p.meet(a, 0, bb.hi-d)
		}
		if !b.isConst() && ba.lo+d >= ba.lo {
			p.meet(b, ba.lo+d, mask(b.w))
		}
	case BSlt, BSle:
		a, b := t.a, t.b
		strict := t.op == BSlt
		if !v {
			a, b = b, a
			strict = !strict
		}
		w := a.w
		smax := int64(mask(w) >> 1)
		al, _ := signedB(p.bounds(a), w)
		_, bh := signedB(p.bounds(b), w)
		d := int64(0)
		if strict {
			d = 1
		}
		// b >= al + d
		if !b.isConst() && al >= -d && al+d <= smax {
			p.meet(b, uint64(al+d), uint64(smax))
		}
		// a <= bh - d
		if !a.isConst() {
			if bh-d < 0 {
				if bh > -1<<63+1 {
					p.meet(a, uint64(1)<<(w-1), uint64(bh-d)&mask(w))
				}
			} else if bb := p.bounds(a); bb.hi <= uint64(smax) {
				p.meet(a, 0, uint64(bh-d))
			}
		}
	}
}

func (p *Path) meet(t *Term, lo, hi uint64) {
	b := p.bounds(t)
	if lo <= b.lo && hi >= b.hi {
		return
	}
	if lo < b.lo {
		lo = b.lo
	}
	if hi > b.hi {
		hi = b.hi
	}
	if lo > hi {
		return
	}
	p.rng[t] = bnd{lo, hi}
	clear(p.bmemo)
	// push facts through injective wrappers
	switch t.op {
	case OZext:
		if hi <= mask(t.a.w) {
			p.meet(t.a, lo, hi)
		}
	case OAdd:
		if t.b.isConst() {
			l, h := (lo-t.b.k)&mask(t.w), (hi-t.b.k)&mask(t.w)
			if l <= h {
				p.meet(t.a, l, h)
			}
		}
	case OSub:
		if t.b.isConst() {
			l, h := (lo+t.b.k)&mask(t.w), (hi+t.b.k)&mask(t.w)
			if l <= h {
				p.meet(t.a, l, h)
			}
		}
	}
}

// sumNoWrap: s is x+y without wrapping and t is one of the summands, so s >= t.
func (p *Path) sumNoWrap(s, t *Term) bool {
	if s.op != OAdd || (s.a != t && s.b != t) {
		return false
	}
	a, b := p.bounds(s.a), p.bounds(s.b)
	hi, c := mbits.Add64(a.hi, b.hi, 0)
	return c == 0 && hi <= mask(s.w)
}
