package main

// Replacement of subterms by constants that the path condition gives them.

func remake(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return App(t.name, a...)
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OEq:
		return Eq(a[0], a[1])
	case OUlt:
		return Ult(a[0], a[1])
	case OSlt:
		return Slt(a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OAdd:
		return AddN(a...)
	case OSub:
		return Sub(a[0], a[1])
	case OMul:
		return Mul(a[0], a[1])
	case OUdiv:
		return Udiv(a[0], a[1])
	case OUrem:
		return Urem(a[0], a[1])
	case OSdiv:
		return Sdiv(a[0], a[1])
	case OSrem:
		return Srem(a[0], a[1])
	case OBAnd:
		return BAnd(a[0], a[1])
	case OBOr:
		return BOr(a[0], a[1])
	case OBXor:
		return BXor(a[0], a[1])
	case OBNot:
		return BNot(a[0])
	case OShl:
		return Shl(a[0], a[1])
	case OLshr:
		return Lshr(a[0], a[1])
	case OAshr:
		return Ashr(a[0], a[1])
	case OConcat:
		return Concat(a...)
	case OExtract:
		return Extract(t.hi, t.lo, a[0])
	case OSext:
		return Sext(a[0], t.w)
	case OHexLo:
		return HexLo(a[0])
	case OHexUp:
		return HexUp(a[0])
	case OHexVal:
		return HexVal(a[0])
	case OHexOk:
		return HexOk(a[0])
	case OTable:
		return Lookup(t.tab.vals, t.w, a[0])
	}
	return t
}

func replaceTerms(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r := m[t]; r != nil {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		a := make([]*Term, len(t.args))
		same := true
		for i, x := range t.args {
			a[i] = f(x)
			same = same && a[i] == x
		}
		r := t
		if !same {
			r = remake(t, a)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// facts: the terms that the path condition fixes
func (p *PC) facts() map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, c := range p.conj {
		if isEqConst(c) {
			m[c.args[0]] = c.args[1]
		}
	}
	for v, d := range p.dom {
		if d.n == 1 {
			m[v] = ConstU(uint64(d.single()), v.w)
		}
	}
	return m
}

// known: facts and the conditions that hold
func (p *PC) known() map[*Term]*Term {
	if p.knownMap != nil {
		return p.knownMap
	}
	m := p.facts()
	for _, x := range p.conj {
		if m[x] == nil && x.op != OTrue {
			m[x] = TTrue
			if x.op == ONot {
				m[x.args[0]] = TFalse
			}
		}
	}
	p.knownMap = m
	return m
}

// entails: c holds under p by rewriting alone
func (p *PC) entails(c *Term) bool {
	if p.decide(c) == 1 {
		return true
	}
	return replaceTerms(c, p.known()) == TTrue
}

// skeleton replaces conditions in the boolean structure of t
func skeleton(t *Term, m map[*Term]*Term, depth int) *Term {
	if r := m[t]; r != nil {
		return r
	}
	if depth == 0 {
		return t
	}
	switch t.op {
	case ONot:
		return Not(skeleton(t.args[0], m, depth-1))
	case OAnd, OOr:
		a := make([]*Term, len(t.args))
		same := true
		for i, x := range t.args {
			a[i] = skeleton(x, m, depth-1)
			same = same && a[i] == x
		}
		if same {
			return t
		}
		if t.op == OAnd {
			return And(a...)
		}
		return Or(a...)
	}
	return t
}
