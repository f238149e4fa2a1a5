package main

import (
	"fmt"
	"math/bits"
)

const domMax = 11 // widths up to this are tracked as explicit domains

type Dom struct {
	b []uint64
	n int
}

func fullDom(w int) *Dom {
	n := 1 << uint(w)
	d := &Dom{b: make([]uint64, (n+63)/64), n: n}
	for i := 0; i < n; i++ {
		d.b[i/64] |= 1 << uint(i%64)
	}
	return d
}
func (d *Dom) has(i int) bool { return d.b[i/64]>>(uint(i)%64)&1 == 1 }
func (d *Dom) clone() *Dom {
	return &Dom{append([]uint64(nil), d.b...), d.n}
}
func (d *Dom) recount() {
	d.n = 0
	for _, x := range d.b {
		d.n += bits.OnesCount64(x)
	}
}
func (d *Dom) single() int {
	for i, x := range d.b {
		if x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}
func (d *Dom) eq(o *Dom) bool {
	if d.n != o.n {
		return false
	}
	for i := range d.b {
		if d.b[i] != o.b[i] {
			return false
		}
	}
	return true
}
func (d *Dom) or(o *Dom) *Dom {
	r := d.clone()
	for i := range r.b {
		r.b[i] |= o.b[i]
	}
	r.recount()
	return r
}

func domTerm(v *Term, d *Dom) *Term {
	total := 1 << uint(v.w)
	if d.n == total {
		return TTrue
	}
	if d.n == 0 {
		return TFalse
	}
	if d.n <= 16 {
		var o []*Term
		for i := 0; i < total; i++ {
			if d.has(i) {
				o = append(o, Eq(v, ConstU(uint64(i), v.w)))
			}
		}
		return Or(o...)
	}
	if total-d.n <= 16 {
		var o []*Term
		for i := 0; i < total; i++ {
			if !d.has(i) {
				o = append(o, Not(Eq(v, ConstU(uint64(i), v.w))))
			}
		}
		return And(o...)
	}
	key := string(append(fmt.Appendf(nil, "%d:", v.id), fmt.Sprint(d.b)...))
	if t := domTerms[key]; t != nil {
		return t
	}
	vals := make([]*bigInt, total)
	for i := range vals {
		vals[i] = bigZero
		if d.has(i) {
			vals[i] = bigOne
		}
	}
	t := Eq(Lookup(vals, 1, v), ConstU(1, 1))
	domTerms[key] = t
	return t
}

var domTerms = map[string]*Term{}

type PC struct {
	conj []*Term
	dom  map[*Term]*Dom
	list []*Term

	knownMap map[*Term]*Term
}

func newPC() *PC { return &PC{} }

// domOf recognises conditions on small terms: the set of values that satisfy c
func smallCond(c *Term) (v *Term, test func(int) bool) {
	neg := false
	if c.op == ONot {
		neg = true
		c = c.args[0]
	}
	if c.op == OEq && c.args[0].op == OTable && c.args[0].w == 1 && c.args[1].isConst() && c.args[0].args[0].w <= domMax {
		t := c.args[0].tab.vals
		k := c.args[1].val.Sign()
		return c.args[0].args[0], func(i int) bool { return (i < len(t) && t[i].Sign() == k || i >= len(t) && k == 0) != neg }
	}
	if (c.op == OEq || c.op == OUlt) && c.args[1].isConst() && c.args[0].w <= domMax && c.args[0].w > 1 {
		k := int(c.args[1].val.Int64())
		v = c.args[0]
		if c.op == OEq {
			return v, func(i int) bool { return (i == k) != neg }
		}
		return v, func(i int) bool { return (i < k) != neg }
	}
	if c.op == OOr && len(c.args) <= 64 {
		// several sets of values of the same term
		var tests []func(int) bool
		for _, x := range c.args {
			if x.op == OOr {
				return nil, nil
			}
			u, t := smallCond(x)
			if u == nil || v != nil && u != v {
				return nil, nil
			}
			v = u
			tests = append(tests, t)
		}
		return v, func(i int) bool {
			for _, t := range tests {
				if t(i) {
					return !neg
				}
			}
			return neg
		}
	}
	return nil, nil
}

// boundOf: c is v < k (up) or v >= k
func boundOf(c *Term) (v *Term, k *bigInt, up bool) {
	up = true
	if c.op == ONot {
		c, up = c.args[0], false
	}
	if c.op == OUlt && c.args[1].isConst() && c.args[0].w > domMax {
		return c.args[0], c.args[1].val, up
	}
	return nil, nil, false
}

// with returns the path condition extended by c (nil if contradictory)
func (p *PC) with(c *Term) *PC {
	if c == TTrue {
		return p
	}
	if c == TFalse {
		return nil
	}
	r := &PC{conj: p.conj[:len(p.conj):len(p.conj)], dom: p.dom}
	copied := false
	var add func(c *Term) bool
	add = func(c *Term) bool {
		switch c.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, x := range c.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if v, test := smallCond(c); v != nil {
			d := r.dom[v]
			if d == nil {
				d = fullDom(v.w)
			} else {
				d = d.clone()
			}
			if c.op == OEq && c.args[0] == v {
				k := int(c.args[1].val.Int64())
				if !d.has(k) {
					return false
				}
				for i := range d.b {
					d.b[i] = 0
				}
				d.b[k/64] |= 1 << uint(k%64)
				d.n = 1
			} else if c.op == ONot && c.args[0].op == OEq && c.args[0].args[0] == v {
				k := int(c.args[0].args[1].val.Int64())
				if d.has(k) {
					d.b[k/64] &^= 1 << uint(k%64)
					d.n--
				}
			} else {
				for i := 0; i < 1<<uint(v.w); i++ {
					if d.has(i) && !test(i) {
						d.b[i/64] &^= 1 << uint(i%64)
						d.n--
					}
				}
			}
			if d.n == 0 {
				return false
			}
			if !copied {
				m := make(map[*Term]*Dom, len(r.dom)+1)
				for k, x := range r.dom {
					m[k] = x
				}
				r.dom = m
				copied = true
			}
			r.dom[v] = d
			return true
		}
		nc := Not(c)
		for _, x := range r.conj {
			if x == c {
				return true
			}
			if x == nc {
				return false
			}
		}
		if v, k, up := boundOf(c); v != nil {
			// bounds of the same term: keep the strongest of each side
			weaker := false
			for _, x := range r.conj {
				if v2, k2, up2 := boundOf(x); v2 == v {
					if up == up2 {
						if up && k2.Cmp(k) <= 0 || !up && k2.Cmp(k) >= 0 {
							return true
						}
						weaker = true
					} else if up && k.Cmp(k2) <= 0 || !up && k2.Cmp(k) <= 0 {
						return false
					}
				}
			}
			if weaker {
				nl := make([]*Term, 0, len(r.conj)+1)
				for _, x := range r.conj {
					if v2, _, up2 := boundOf(x); v2 != v || up2 != up {
						nl = append(nl, x)
					}
				}
				r.conj = nl
			}
		}
		if c.op == OOr && c.size < 400 {
			m := map[*Term]*Term{}
			for _, x := range r.conj {
				m[x], m[Not(x)] = TTrue, TFalse
			}
			if d := skeleton(c, m, 4); d != c {
				return add(d)
			}
		}
		// what c says about the disjunctions that hold
		m := map[*Term]*Term{c: TTrue, Not(c): TFalse}
		var again []*Term
		for i, x := range r.conj {
			if x.op != OOr || x.size > 400 {
				continue
			}
			if d := skeleton(x, m, 4); d != x {
				if again == nil {
					r.conj = append([]*Term(nil), r.conj...)
				}
				r.conj[i] = TTrue
				again = append(again, d)
			}
		}
		if again != nil {
			n := r.conj[:0]
			for _, x := range r.conj {
				if x != TTrue {
					n = append(n, x)
				}
			}
			r.conj = n
		}
		r.conj = append(r.conj, c)
		for _, d := range again {
			if !add(d) {
				return false
			}
		}
		return true
	}
	if !add(c) {
		return nil
	}
	return r
}

// decide: 1 implied, -1 contradicted, 0 unknown (syntactic only)
func (p *PC) decide(c *Term) int {
	if c.op == OAnd || c.op == OOr {
		return p.decideIn(c, map[*Term]int{})
	}
	return p.decideIn(c, nil)
}

func (p *PC) decideIn(c *Term, memo map[*Term]int) int {
	if memo != nil && (c.op == OAnd || c.op == OOr) {
		if r, ok := memo[c]; ok {
			return r
		}
		r := p.decide1(c, memo)
		memo[c] = r
		return r
	}
	return p.decide1(c, memo)
}

func (p *PC) decide1(c *Term, memo map[*Term]int) int {
	switch c.op {
	case OTrue:
		return 1
	case OFalse:
		return -1
	}
	if v, test := smallCond(c); v != nil {
		d := p.dom[v]
		if d == nil {
			return 0
		}
		y, n := false, false
		for i := 0; i < 1<<uint(v.w); i++ {
			if d.has(i) {
				if test(i) {
					y = true
				} else {
					n = true
				}
				if y && n {
					return 0
				}
			}
		}
		if y {
			return 1
		}
		return -1
	}
	nc := Not(c)
	for _, x := range p.conj {
		if x == c {
			return 1
		}
		if x == nc {
			return -1
		}
	}
	if b := c; b.op == OUlt || b.op == ONot && b.args[0].op == OUlt {
		res := 1
		if b.op == ONot {
			b, res = b.args[0], -1
		}
		if k := b.args[1]; k.isConst() {
			for _, x := range p.conj {
				if x.op == OUlt && x.args[0] == b.args[0] && x.args[1].isConst() && x.args[1].val.Cmp(k.val) <= 0 {
					return res
				}
				if x.op == ONot && x.args[0].op == OUlt && x.args[0].args[0] == b.args[0] && x.args[0].args[1].isConst() && x.args[0].args[1].val.Cmp(k.val) >= 0 {
					return -res
				}
			}
		}
	}
	if b := c; b.op == OEq || b.op == ONot && b.args[0].op == OEq {
		// high bits of a bounded number are 0
		res := 1
		if b.op == ONot {
			b, res = b.args[0], -1
		}
		if e, z := b.args[0], b.args[1]; e.op == OExtract && z.isConst() && z.val.Sign() == 0 {
			for _, x := range p.conj {
				if v, k, up := boundOf(x); v == e.args[0] && up && new(bigInt).Sub(k, bigOne).BitLen() <= e.lo {
					return res
				}
			}
		}
	}
	if c.op == OAnd {
		all := true
		for _, x := range c.args {
			switch p.decideIn(x, memo) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	}
	if c.op == OOr {
		all := true
		for _, x := range c.args {
			switch p.decideIn(x, memo) {
			case 1:
				return 1
			case 0:
				all = false
			}
		}
		if all {
			return -1
		}
	}
	return 0
}

// isSmall: both outcomes of a small condition are possible as far as the
// domains tell, and no solver call is worth it
func (p *PC) isSmall(c *Term) bool {
	v, _ := smallCond(c)
	if v == nil {
		v, _, _ = boundOf(c)
	}
	if v == nil {
		return false
	}
	plain := func(v *Term) bool {
		if v.op == OExtract {
			v = v.args[0]
		}
		return v.op == OVar || v.op == OApp
	}
	if whole(v) {
		for _, x := range v.args {
			if !plain(x) {
				return false
			}
		}
		return true
	}
	return plain(v)
}

func (p *PC) terms() []*Term {
	if p.list == nil {
		l := append([]*Term(nil), p.conj...)
		for v, d := range p.dom {
			if t := domTerm(v, d); t != TTrue {
				l = append(l, t)
			}
		}
		if l == nil {
			l = []*Term{}
		}
		p.list = l
	}
	return p.list
}

func (p *PC) term() *Term { return And(p.terms()...) }

// mergePC joins path conditions. guards[i] distinguishes state i within the
// merged condition; tv/tvals describe guards of the form tv == const.
func mergePC(ps []*PC) (m *PC, guards []*Term, tv *Term, tvals []int) {
	n := len(ps)
	count := map[*Term]int{}
	for _, p := range ps {
		for _, c := range p.conj {
			count[c]++
		}
	}
	m = &PC{}
	for _, c := range ps[0].conj {
		if count[c] == n {
			m.conj = append(m.conj, c)
		}
	}
	rest := make([][]*Term, n)
	norest := true
	for i, p := range ps {
		for _, c := range p.conj {
			if count[c] != n {
				rest[i] = append(rest[i], c)
				norest = false
			}
		}
	}
	vars := map[*Term]bool{}
	for _, p := range ps {
		for v := range p.dom {
			vars[v] = true
		}
	}
	m.dom = map[*Term]*Dom{}
	var diff []*Term
	for v := range vars {
		var u *Dom
		same := true
		full := false
		for i, p := range ps {
			d := p.dom[v]
			if d == nil {
				full = true
				same = same && i == 0 || (i > 0 && ps[i-1].dom[v] == nil && same)
				continue
			}
			if u == nil {
				u = d
			} else if u != d && !u.eq(d) {
				same = false
				u = u.or(d)
			}
		}
		if full {
			same = false
		} else if u.n < 1<<uint(v.w) {
			m.dom[v] = u
		}
		if !same {
			diff = append(diff, v)
		}
	}
	guards = make([]*Term, n)
	if norest && len(diff) == 1 {
		v := diff[0]
		single := true
		for i, p := range ps {
			d := p.dom[v]
			if d == nil {
				guards[i] = TTrue
				single = false
				continue
			}
			guards[i] = domTerm(v, d)
			if d.n != 1 {
				single = false
			}
		}
		if single {
			tv = v
			for _, p := range ps {
				tvals = append(tvals, p.dom[v].single())
			}
		}
		return
	}
	if norest && len(diff) == 0 {
		for i := range guards {
			guards[i] = TTrue
		}
		return
	}
	sortTerms(diff)
	for i, p := range ps {
		cs := append([]*Term(nil), rest[i]...)
		for _, v := range diff {
			if d := p.dom[v]; d != nil {
				cs = append(cs, domTerm(v, d))
			}
		}
		guards[i] = And(cs...)
	}
	o := Or(guards...)
	if q := m.with(o); q != nil {
		m = q
	}
	return
}
