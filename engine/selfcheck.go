package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

// selfcheck compares the rewriting constructors with the plain operations:
// random terms are built twice, once by interning the operation as it is and
// once by the constructors, and z3 has to find the two equal for all values of
// the variables. Path conditions (domains, bounds, what they imply) are
// compared with the plain conjunction in the same way.

type twin struct{ raw, simp *Term }

type genTerms struct {
	r    *rand.Rand
	pool map[int][]twin
	pfx  string
}

var genWidths = []int{1, 4, 5, 8, 11, 16, 33, 72}

func (g *genTerms) put(raw, simp *Term) {
	if raw.w != simp.w {
		panic(fmt.Sprintf("widths differ: %v %v", raw, simp))
	}
	g.pool[raw.w] = append(g.pool[raw.w], twin{raw, simp})
}

func (g *genTerms) pick(w int) twin {
	p := g.pool[w]
	if len(p) == 0 || g.r.Intn(6) == 0 {
		c := g.constant(w)
		return twin{c, c}
	}
	if g.r.Intn(3) == 0 {
		return p[g.r.Intn(len(p))]
	}
	// prefer recent ones
	n := len(p)
	k := 8
	if k > n {
		k = n
	}
	return p[n-1-g.r.Intn(k)]
}

func (g *genTerms) constant(w int) *Term {
	if w == 0 {
		return Bool(g.r.Intn(2) == 0)
	}
	switch g.r.Intn(5) {
	case 0:
		return Const(bigZero, w)
	case 1:
		return Const(bigOne, w)
	case 2:
		return Const(maxOf(w), w)
	case 3:
		return Const(pow2(g.r.Intn(w)), w)
	}
	return Const(new(big.Int).Rand(g.r, pow2(w)), w)
}

func (g *genTerms) width() int { return genWidths[g.r.Intn(len(genWidths))] }

func rawT(op Op, w int, args ...*Term) *Term { return intern(&Term{op: op, w: w, args: args}) }

func (g *genTerms) step() {
	r := g.r
	w := g.width()
	a, b := g.pick(w), g.pick(w)
	if r.Intn(8) == 0 {
		b = a
	}
	c := g.pick(0)
	bin := func(op Op, f func(a, b *Term) *Term) { g.put(rawT(op, w, a.raw, b.raw), f(a.simp, b.simp)) }
	cmp := func(op Op, f func(a, b *Term) *Term) { g.put(rawT(op, 0, a.raw, b.raw), f(a.simp, b.simp)) }
	switch r.Intn(34) {
	case 0, 1:
		bin(OAdd, Add)
	case 2, 3:
		bin(OSub, Sub)
	case 4:
		if w <= 11 || w <= 33 && b.raw.isConst() {
			bin(OMul, Mul)
		}
	case 5, 6:
		if w <= 33 {
			k := Const(new(big.Int).Add(bigOne, new(big.Int).Rand(r, maxOf(w))), w)
			if r.Intn(2) == 0 {
				k = Const(pow2(r.Intn(w)), w)
			}
			b = twin{k, k}
			switch {
			case w > 11 && r.Intn(2) == 0:
				bin(OUdiv, Udiv)
			case w > 11:
				bin(OUrem, Urem)
			case r.Intn(4) == 0:
				bin(OUdiv, Udiv)
			case r.Intn(3) == 0:
				bin(OUrem, Urem)
			case r.Intn(2) == 0:
				bin(OSdiv, Sdiv)
			default:
				bin(OSrem, Srem)
			}
		}
	case 7:
		bin(OBAnd, BAnd)
	case 8:
		bin(OBOr, BOr)
	case 9:
		bin(OBXor, BXor)
	case 10:
		g.put(rawT(OBNot, w, a.raw), BNot(a.simp))
	case 11:
		k := ConstU(uint64(r.Intn(w+2)), 16)
		if w < 16 {
			k = Const(big.NewInt(int64(r.Intn(w+2))), w)
		} else {
			k = Const(k.val, w)
		}
		b = twin{k, k}
		switch r.Intn(3) {
		case 0:
			bin(OShl, Shl)
		case 1:
			bin(OLshr, Lshr)
		default:
			bin(OAshr, Ashr)
		}
	case 12:
		if w <= 16 {
			switch r.Intn(3) {
			case 0:
				bin(OShl, Shl)
			case 1:
				bin(OLshr, Lshr)
			default:
				bin(OAshr, Ashr)
			}
		}
	case 13, 14:
		// concatenation to a known width
		for _, x := range [][]int{{4, 4}, {4, 1}, {8, 8}, {1, 4}, {11, 5}, {5, 11}, {16, 1, 16}, {1, 1, 1, 1}, {4, 1, 1, 5}, {8, 8, 8, 8, 8, 16, 16}, {33, 33, 5, 1}} {
			if r.Intn(8) == 0 {
				var raw, simp []*Term
				t := 0
				for _, k := range x {
					v := g.pick(k)
					raw = append(raw, v.raw)
					simp = append(simp, v.simp)
					t += k
				}
				g.put(rawT(OConcat, t, raw...), Concat(simp...))
			}
		}
	case 15, 16, 17:
		var ok []int
		for _, k := range genWidths {
			if k < w {
				ok = append(ok, k)
			}
		}
		if len(ok) > 0 {
			k := ok[r.Intn(len(ok))]
			lo := r.Intn(w - k + 1)
			if r.Intn(2) == 0 {
				lo = lo / 4 * 4
			}
			g.put(intern(&Term{op: OExtract, w: k, hi: lo + k - 1, lo: lo, args: []*Term{a.raw}}), Extract(lo+k-1, lo, a.simp))
		}
	case 18:
		for _, k := range genWidths {
			if k > w && r.Intn(3) == 0 {
				if r.Intn(2) == 0 {
					g.put(rawT(OConcat, k, Const(bigZero, k-w), a.raw), Zext(a.simp, k))
				} else {
					g.put(rawT(OSext, k, a.raw), Sext(a.simp, k))
				}
				break
			}
		}
	case 19, 20, 21:
		g.put(rawT(OIte, w, c.raw, a.raw, b.raw), Ite(c.simp, a.simp, b.simp))
	case 22, 23:
		if r.Intn(2) == 0 {
			k := g.constant(w)
			b = twin{k, k}
		}
		cmp(OEq, Eq)
	case 24, 25:
		if r.Intn(2) == 0 {
			k := g.constant(w)
			b = twin{k, k}
		}
		cmp(OUlt, Ult)
	case 26:
		if r.Intn(2) == 0 {
			k := g.constant(w)
			b = twin{k, k}
		}
		cmp(OSlt, Slt)
	case 27, 28:
		d, e := g.pick(0), g.pick(0)
		g.put(rawT(OAnd, 0, c.raw, d.raw, e.raw), And(c.simp, d.simp, e.simp))
	case 29, 30:
		d, e := g.pick(0), g.pick(0)
		g.put(rawT(OOr, 0, c.raw, d.raw, e.raw), Or(c.simp, d.simp, e.simp))
	case 31:
		g.put(rawT(ONot, 0, c.raw), Not(c.simp))
	case 32:
		n := g.pick(4)
		h := g.pick(8)
		switch r.Intn(4) {
		case 0:
			g.put(rawT(OHexLo, 8, n.raw), HexLo(n.simp))
		case 1:
			g.put(rawT(OHexUp, 8, n.raw), HexUp(n.simp))
		case 2:
			g.put(rawT(OHexVal, 4, h.raw), HexVal(h.simp))
		case 3:
			g.put(rawT(OHexOk, 0, h.raw), HexOk(h.simp))
		}
	case 33:
		switch r.Intn(3) {
		case 0, 1:
			// a table
			iw := []int{1, 4, 5, 8}[r.Intn(4)]
			ow := []int{1, 4, 8, 16}[r.Intn(4)]
			i := g.pick(iw)
			n := 1 + r.Intn(1<<uint(iw))
			vals := make([]*big.Int, n)
			for k := range vals {
				vals[k] = new(big.Int).Rand(r, pow2(1+r.Intn(ow)))
			}
			raw := Const(bigZero, ow)
			for k := n - 1; k >= 0; k-- {
				raw = rawT(OIte, ow, rawEq(i.raw, ConstU(uint64(k), iw)), Const(vals[k], ow), raw)
			}
			g.put(raw, Lookup(vals, ow, i.simp))
		case 2:
			// a chain of thresholds
			x := g.pick(w)
			if w < 8 || x.raw.isConst() {
				return
			}
			var conds, vals []*Term
			v := g.width()
			raw := g.constant(v)
			n := 2 + r.Intn(4)
			k := new(big.Int).Set(maxOf(w))
			vals = append(vals, raw)
			for j := 0; j < n; j++ {
				k = new(big.Int).Rsh(k, uint(1+r.Intn(2)))
				l := Const(k, w)
				if k.Sign() == 0 {
					break
				}
				t := g.constant(v)
				vals = append([]*Term{t}, vals...)
				conds = append([]*Term{Ult(x.simp, l)}, conds...)
				raw = rawT(OIte, v, rawUltT(x.raw, l), t, raw)
			}
			for _, c := range conds {
				if c.isLit() {
					return
				}
			}
			g.put(raw, newChain(conds, vals))
		}
	}
}

func newGen(r *rand.Rand, pfx string) *genTerms {
	g := &genTerms{r: r, pool: map[int][]twin{}}
	for _, w := range genWidths {
		n := 2
		if w == 8 || w == 4 {
			n = 3
		}
		for i := 0; i < n; i++ {
			v := Var(fmt.Sprintf("%sv%d_%d", pfx, w, i), w)
			g.put(v, v)
		}
	}
	lb, ub := big.NewInt(3), big.NewInt(200)
	v := VarR(pfx+"vr", 8, lb, ub)
	g.put(v, v)
	v = VarR(pfx+"vs", 33, bigOne, big.NewInt(1<<20))
	g.put(v, v)
	for i := 0; i < 2; i++ {
		v := Var(fmt.Sprintf("%sb%d", pfx, i), 0)
		g.put(v, v)
	}
	return g
}

func neq(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	return rawT(ONot, 0, rawEq2(a, b))
}

// rawEq2 is the plain equality, also of two booleans
func rawEq2(a, b *Term) *Term { return rawT(OEq, 0, a, b) }

func selfcheckMain(seed int64, rounds int) int {
	bad, same, asked, unknown, pcs := 0, 0, 0, 0, 0
	for k := 0; k < rounds; k++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(k)))
		g := newGen(r, fmt.Sprintf("r%d", k))
		s := NewSession()
		ask := func(what string, ts []*Term, show ...*Term) {
			for _, t := range ts {
				if t == TFalse {
					same++
					return
				}
			}
			asked++
			switch s.Check(ts) {
			case Sat:
				bad++
				fmt.Printf("WRONG seed %d round %d %s\n", seed, k, what)
				for _, t := range show {
					fmt.Println("    ", t)
				}
			case Unknown:
				unknown++
			}
		}
		checked := map[int]int{}
		for i := 0; i < 150; i++ {
			g.step()
			for _, w := range append([]int{0}, genWidths...) {
				p := g.pool[w]
				if checked[w] == 0 {
					checked[w] = len(p) - 1
					if w > 0 {
						checked[w] = len(p)
					}
				}
				for ; checked[w] < len(p); checked[w]++ {
					t := p[checked[w]]
					if t.raw.size > 300 {
						continue
					}
					ask("term", []*Term{neq(t.raw, t.simp)}, t.raw, t.simp)
					if w > 0 && t.simp.UB().Cmp(maxOf(w)) < 0 {
						ask("upper bound", []*Term{rawUltT(Const(t.simp.UB(), w), t.simp)}, t.simp)
					}
					if w > 0 && t.simp.LB().Sign() > 0 {
						ask("lower bound", []*Term{rawUltT(t.simp, Const(t.simp.LB(), w))}, t.simp)
					}
				}
			}
		}
		// path conditions
		for j := 0; j < 12; j++ {
			p := newPC()
			var raw []*Term
			for n := 2 + r.Intn(6); n > 0 && p != nil; n-- {
				c := g.pick(0)
				if c.raw.size > 200 || c.simp.isLit() {
					continue
				}
				if r.Intn(2) == 0 {
					c = twin{rawT(ONot, 0, c.raw), Not(c.simp)}
				}
				raw = append(raw, c.raw)
				p = p.with(c.simp)
			}
			pcs++
			if p == nil {
				ask("contradiction", raw, raw...)
				continue
			}
			all := TTrue
			for _, c := range raw {
				all = rawT(OAnd, 0, all, c)
			}
			pt := rawT(OAnd, 0, append([]*Term{TTrue, TTrue}, p.terms()...)...)
			ask("path condition", []*Term{neq(all, pt)}, all, pt)
			for n := 0; n < 12; n++ {
				c := g.pick(0)
				if c.raw.size > 200 {
					continue
				}
				switch p.decide(c.simp) {
				case 1:
					ask("implied", append([]*Term{rawT(ONot, 0, c.raw)}, raw...), append([]*Term{c.simp}, raw...)...)
				case -1:
					ask("contradicted", append([]*Term{c.raw}, raw...), append([]*Term{c.simp}, raw...)...)
				}
			}
			// the union of two path conditions
			q := newPC()
			var raw2 []*Term
			for n := 2 + r.Intn(6); n > 0 && q != nil; n-- {
				c := g.pick(0)
				if c.raw.size > 200 || c.simp.isLit() {
					continue
				}
				raw2 = append(raw2, c.raw)
				q = q.with(c.simp)
			}
			if q == nil {
				continue
			}
			m, gs, _, _ := mergePC([]*PC{p, q})
			rp := rawT(OAnd, 0, append([]*Term{TTrue, TTrue}, raw...)...)
			rq := rawT(OAnd, 0, append([]*Term{TTrue, TTrue}, raw2...)...)
			mt := rawT(OAnd, 0, append([]*Term{TTrue, TTrue}, m.terms()...)...)
			if Or(gs...) == TFalse {
				continue // neither part is satisfiable
			}
			ask("union", []*Term{neq(mt, rawT(OOr, 0, rp, rq))}, rp, rq, mt)
			ask("guard", []*Term{mt, neq(gs[0], rp)}, rp, rq, mt, gs[0])
			ask("guard", []*Term{mt, neq(gs[1], rq)}, rp, rq, mt, gs[1])
		}
		s.Close()
	}
	fmt.Printf("selfcheck seed %d: %d rounds, %d identical, %d queries, %d path conditions, %d not answered, %d wrong\n", seed, rounds, same, asked, pcs, unknown, bad)
	if bad > 0 {
		return 1
	}
	return 0
}
