package main

// Steps: a number that depends on which of nested bounds another number keeps,
//   (ite (x < l1) c1 (ite (x < l2) c2 ... cn))
// such as the length of a number's digits. Arithmetic with constants keeps the
// form, and a comparison with a constant becomes one of the bounds.

import "math/big"

type chain struct {
	conds []*Term // innermost first
	vals  []*Term // one more than conds
}

var chains = map[*Term]*chain{}

// newChain: vals[0] if conds[0] holds, else vals[1] if conds[1] holds, ...;
// conds[i] implies conds[i+1]
func newChain(conds, vals []*Term) *Term {
	// the innermost case first; equal neighbours are one case
	var cs, vs []*Term
	for i, v := range vals {
		if len(vs) > 0 && vs[len(vs)-1] == v {
			cs = cs[:len(cs)-1]
		} else {
			vs = append(vs, v)
		}
		if i < len(conds) {
			cs = append(cs, conds[i])
		}
	}
	if len(cs) == 0 {
		return vs[0]
	}
	if len(cs) == 1 {
		return Ite(cs[0], vs[0], vs[1])
	}
	t := vs[0]
	for i, c := range cs {
		if c.op == ONot {
			t = intern(&Term{op: OIte, w: t.w, args: []*Term{c.args[0], vs[i+1], t}})
		} else {
			t = intern(&Term{op: OIte, w: t.w, args: []*Term{c, t, vs[i+1]}})
		}
	}
	chains[t] = &chain{cs, vs}
	return t
}

func chainMap(t *Term, f func(*Term) *Term) *Term {
	ch := chains[t]
	if ch == nil {
		return nil
	}
	vs := make([]*Term, len(ch.vals))
	for i, v := range ch.vals {
		vs[i] = f(v)
		if !vs[i].isConst() {
			return nil
		}
	}
	return newChain(ch.conds, vs)
}

func chainCond(t *Term, f func(v *big.Int) bool) *Term {
	ch := chains[t]
	if ch == nil {
		return nil
	}
	// the bounds are nested: x is in case i iff conds[i] and not conds[i-1]
	var or []*Term
	for i := 0; i < len(ch.vals); {
		if !f(ch.vals[i].val) {
			i++
			continue
		}
		j := i
		for j+1 < len(ch.vals) && f(ch.vals[j+1].val) {
			j++
		}
		c := TTrue
		if i > 0 {
			c = Not(ch.conds[i-1])
		}
		if j < len(ch.conds) {
			c = And(c, ch.conds[j])
		}
		or = append(or, c)
		i = j + 1
	}
	return Or(or...)
}
