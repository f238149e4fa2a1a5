package main

import (
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"
)

func decodeRune(b []byte) (rune, int) { return utf8.DecodeRune(b) }

type runeDec struct {
	w *World
	r *Term
	n int
}

// decodeRuneSym: decodes one rune whose first byte is not ASCII
func decodeRuneSym(ex *Exec, w *World, b []*Term) []runeDec {
	in := func(t *Term, lo, hi uint64) *Term {
		return And(Not(Ult(t, ConstU(lo, 8))), Ult(t, ConstU(hi+1, 8)))
	}
	six := func(t *Term) *Term { return Extract(5, 0, t) }
	var out []runeDec
	cur := w
	try := func(c *Term, r *Term, n int) {
		if cur == nil || c == TFalse {
			return
		}
		t, f := ex.split(cur, c)
		if t != nil {
			out = append(out, runeDec{t, r, n})
		}
		cur = f
	}
	if len(b) >= 2 {
		try(And(in(b[0], 0xC2, 0xDF), in(b[1], 0x80, 0xBF)), Zext(Concat(Extract(4, 0, b[0]), six(b[1])), 32), 2)
	}
	if len(b) >= 3 {
		second := Or(And(Eq(b[0], ConstU(0xE0, 8)), in(b[1], 0xA0, 0xBF)), And(Eq(b[0], ConstU(0xED, 8)), in(b[1], 0x80, 0x9F)),
			And(in(b[0], 0xE1, 0xEF), Not(Eq(b[0], ConstU(0xED, 8))), in(b[1], 0x80, 0xBF)))
		try(And(second, in(b[2], 0x80, 0xBF)), Zext(Concat(Extract(3, 0, b[0]), six(b[1]), six(b[2])), 32), 3)
	}
	if len(b) >= 4 {
		second := Or(And(Eq(b[0], ConstU(0xF0, 8)), in(b[1], 0x90, 0xBF)), And(Eq(b[0], ConstU(0xF4, 8)), in(b[1], 0x80, 0x8F)), And(in(b[0], 0xF1, 0xF3), in(b[1], 0x80, 0xBF)))
		try(And(second, in(b[2], 0x80, 0xBF), in(b[3], 0x80, 0xBF)), Zext(Concat(Extract(2, 0, b[0]), six(b[1]), six(b[2]), six(b[3])), 32), 4)
	}
	if cur != nil {
		out = append(out, runeDec{cur, ConstI(0xFFFD, 32), 1})
	}
	return out
}

var unkN int

// unknownBool stands for a comparison the encoder cannot express; both values
// are explored and any counterexample through it must replay.
func unknownBool(why string) *Term {
	unkN++
	return Eq(Var(fmt.Sprintf("?unk%d:%s", unkN, why), 1), ConstU(1, 1))
}

func strEq(a, b Str) *Term {
	ca, oka := a.isConst()
	cb, okb := b.isConst()
	if oka && okb {
		return Bool(ca == cb)
	}
	na, nb := a.clen(), b.clen()
	if na >= 0 && nb >= 0 {
		if na != nb {
			return TFalse
		}
		x, y := a.bytes(), b.bytes()
		cs := make([]*Term, 0, na)
		for i := range x {
			e := Eq(x[i], y[i])
			if e == TFalse {
				return TFalse
			}
			cs = append(cs, e)
		}
		return And(cs...)
	}
	if a.hasNum() || b.hasNum() {
		if r := numEq(a, b); r != nil {
			return r
		}
	}
	// single atoms
	if len(a.segs) == 1 && a.segs[0].atom != nil {
		if r := atomEq(a.segs[0].atom, b); r != nil {
			return r
		}
	}
	if len(b.segs) == 1 && b.segs[0].atom != nil {
		if r := atomEq(b.segs[0].atom, a); r != nil {
			return r
		}
	}
	if oka {
		if r := constEq(b, ca); r != nil {
			return r
		}
	}
	if okb {
		if r := constEq(a, cb); r != nil {
			return r
		}
	}
	// aligned comparison
	var cs []*Term
	type cur struct {
		s   Str
		seg int
		off int
	}
	p, q := &cur{s: a}, &cur{s: b}
	norm := func(c *cur) {
		for c.seg < len(c.s.segs) {
			g := c.s.segs[c.seg]
			n := len(g.lit)
			if g.b != nil {
				n = len(g.b)
			}
			if g.atom != nil || c.off < n {
				return
			}
			c.seg++
			c.off = 0
		}
	}
	byteAt := func(c *cur) *Term {
		g := c.s.segs[c.seg]
		if g.b != nil {
			return g.b[c.off]
		}
		return ConstU(uint64(g.lit[c.off]), 8)
	}
	rest := func(c *cur) Str {
		var o Str
		for i := c.seg; i < len(c.s.segs); i++ {
			g := c.s.segs[i]
			if i == c.seg && c.off > 0 {
				if g.b != nil {
					g = Seg{b: g.b[c.off:]}
				} else {
					g = Seg{lit: g.lit[c.off:]}
				}
			}
			o.segs = append(o.segs, g)
		}
		return o
	}
	for {
		norm(p)
		norm(q)
		ep, eq := p.seg >= len(p.s.segs), q.seg >= len(q.s.segs)
		if ep || eq {
			if ep && eq {
				return And(cs...)
			}
			o := q
			if eq {
				o = p
			}
			// the rest must be empty
			for i := o.seg; i < len(o.s.segs); i++ {
				g := o.s.segs[i]
				if g.atom == nil {
					return TFalse
				}
				if g.atom.kind == "word" {
					cs = append(cs, atomEq(g.atom, Str{}))
				} else if len(g.atom.data) > 0 {
					return TFalse
				}
			}
			return And(cs...)
		}
		ga, gb := p.s.segs[p.seg], q.s.segs[q.seg]
		switch {
		case ga.atom == nil && gb.atom == nil:
			e := Eq(byteAt(p), byteAt(q))
			if e == TFalse {
				return TFalse
			}
			cs = append(cs, e)
			p.off++
			q.off++
		case ga.atom != nil && gb.atom != nil:
			e := atomEq(ga.atom, Str{[]Seg{gb}})
			if e == nil {
				return And(append(cs, unknownBool("string"))...)
			}
			if e != TTrue && ga.atom.kind == "word" {
				// words of different length could still be followed by
				// compensating text: only exact when followed by a separator
				// that no word contains
				if !sepFollows(p.s, p.seg, ga.atom.tab) || !sepFollows(q.s, q.seg, gb.atom.tab) {
					if !(p.seg == len(p.s.segs)-1 && q.seg == len(q.s.segs)-1) {
						return And(append(cs, unknownBool("string"))...)
					}
				}
			}
			if e == TFalse {
				return TFalse
			}
			cs = append(cs, e)
			p.seg++
			p.off = 0
			q.seg++
			q.off = 0
		default:
			// word against text
			if ga.atom == nil {
				p, q = q, p
				ga, gb = gb, ga
			}
			if ga.atom.kind == "word" {
				if sep, ok := nextSep(p.s, p.seg, ga.atom.tab); ok {
					r := rest(q)
					// text up to the separator
					if gb.b == nil {
						t := gb.lit[q.off:]
						k := -1
						for i := 0; i < len(t); i++ {
							if t[i] == sep {
								k = i
								break
							}
						}
						if k >= 0 {
							e := atomEq(ga.atom, constStr(t[:k]))
							if e == TFalse {
								return TFalse
							}
							cs = append(cs, e)
							p.seg++
							p.off = 0
							q.off += k
							continue
						}
						if c, ok := r.isConst(); ok {
							_ = c
							return TFalse // no separator left
						}
					}
				} else if p.seg == len(p.s.segs)-1 {
					e := atomEq(ga.atom, rest(q))
					if e != nil {
						return And(append(cs, e)...)
					}
				}
			}
			return And(append(cs, unknownBool("string"))...)
		}
	}
}

// constEq: text with words of a list against a constant; a word may end
// wherever a word of the list does
func constEq(s Str, c string) *Term {
	for _, g := range s.segs {
		if g.atom != nil && g.atom.kind != "word" {
			return nil
		}
	}
	type at struct{ seg, pos int }
	memo := map[at]*Term{}
	var m func(i, p int) *Term
	m = func(i, p int) *Term {
		if i == len(s.segs) {
			return Bool(p == len(c))
		}
		if r := memo[at{i, p}]; r != nil {
			return r
		}
		g := s.segs[i]
		var r *Term
		switch {
		case g.atom != nil:
			var o []*Term
			for k := p; k <= len(c); k++ {
				if rest := m(i+1, k); rest != TFalse {
					w := c[p:k]
					o = append(o, And(boolTable(g.atom, func(x string) bool { return x == w }), rest))
				}
			}
			r = Or(o...)
		case g.b != nil:
			r = TFalse
			if p+len(g.b) <= len(c) {
				var cs []*Term
				for k, b := range g.b {
					cs = append(cs, Eq(b, ConstU(uint64(c[p+k]), 8)))
				}
				r = And(append(cs, m(i+1, p+len(g.b)))...)
			}
		default:
			r = TFalse
			if strings.HasPrefix(c[p:], g.lit) {
				r = m(i+1, p+len(g.lit))
			}
		}
		memo[at{i, p}] = r
		return r
	}
	return m(0, 0)
}

// nextSep: the character after the atom, if it is constant and in no word
func nextSep(s Str, seg int, tab *WordTab) (byte, bool) {
	if seg+1 >= len(s.segs) {
		return 0, false
	}
	g := s.segs[seg+1]
	if g.atom != nil || g.b != nil || g.lit == "" {
		return 0, false
	}
	c := g.lit[0]
	if tab.hasByte(c) {
		return 0, false
	}
	return c, true
}

func sepFollows(s Str, seg int, tab *WordTab) bool {
	if seg == len(s.segs)-1 {
		return true
	}
	_, ok := nextSep(s, seg, tab)
	return ok
}

func (t *WordTab) hasByte(c byte) bool {
	for _, w := range t.words {
		for i := 0; i < len(w); i++ {
			if w[i] == c {
				return true
			}
		}
	}
	return false
}

// boolTable is f(i) for the word number i
func boolTable(a *Atom, f func(string) bool) *Term {
	var yes []int
	for i, w := range a.tab.words {
		if f(w) {
			yes = append(yes, i)
		}
	}
	if len(yes) == 0 {
		return TFalse
	}
	if len(yes) == len(a.tab.words) {
		return TTrue
	}
	if len(yes) <= 8 {
		var o []*Term
		for _, i := range yes {
			o = append(o, eqWhole(a.idx, i))
		}
		return Or(o...)
	}
	vals := make([]*big.Int, len(a.tab.words))
	for i := range vals {
		vals[i] = bigZero
	}
	for _, i := range yes {
		vals[i] = bigOne
	}
	return Eq(Lookup(vals, 1, a.idx), ConstU(1, 1))
}

func atomEq(a *Atom, b Str) *Term {
	if c, ok := b.isConst(); ok {
		switch a.kind {
		case "word":
			return boolTable(a, func(w string) bool { return w == c })
		case "b58":
			d, ok := b58Decode(c)
			if !ok || len(d) != len(a.data) {
				return TFalse
			}
			var cs []*Term
			for i := range d {
				cs = append(cs, Eq(a.data[i], ConstU(uint64(d[i]), 8)))
			}
			return And(cs...)
		}
	}
	if len(b.segs) == 1 && b.segs[0].atom != nil {
		o := b.segs[0].atom
		if a.kind == "word" && o.kind == "word" {
			if a.tab == o.tab && a.tab.uniq {
				w := max(a.idx.w, o.idx.w)
				return Eq(fit(a.idx, w), fit(o.idx, w))
			}
			var or []*Term
			for s, is := range a.tab.index {
				js := o.tab.index[s]
				if len(js) == 0 {
					continue
				}
				var x, y []*Term
				for _, i := range is {
					x = append(x, Eq(a.idx, ConstU(uint64(i), a.idx.w)))
				}
				for _, j := range js {
					y = append(y, Eq(o.idx, ConstU(uint64(j), o.idx.w)))
				}
				or = append(or, And(Or(x...), Or(y...)))
			}
			return Or(or...)
		}
		if a.kind == "b58" && o.kind == "b58" {
			if len(a.data) != len(o.data) {
				return TFalse
			}
			var cs []*Term
			for i := range a.data {
				cs = append(cs, Eq(a.data[i], o.data[i]))
			}
			return And(cs...)
		}
		return unknownBool("atoms")
	}
	if n := b.clen(); n >= 0 && a.kind == "word" {
		bs := b.bytes()
		var or []*Term
		for i, w := range a.tab.words {
			if len(w) != n {
				continue
			}
			cs := []*Term{Eq(a.idx, ConstU(uint64(i), a.idx.w))}
			for k := 0; k < n; k++ {
				cs = append(cs, Eq(bs[k], ConstU(uint64(w[k]), 8)))
			}
			or = append(or, And(cs...))
		}
		return Or(or...)
	}
	if n := b.clen(); n >= 0 && a.kind == "b58" {
		if d, ok := b58Known(b.bytes()); ok {
			return atomEq(a, Str{[]Seg{{atom: &Atom{kind: "b58", data: d}}}})
		}
		return unknownBool("b58")
	}
	return nil
}

func strLess(a, b Str) *Term {
	ca, oka := a.isConst()
	cb, okb := b.isConst()
	if oka && okb {
		return Bool(ca < cb)
	}
	if len(a.segs) == 1 && a.segs[0].atom != nil && a.segs[0].atom.kind == "word" && okb {
		return boolTable(a.segs[0].atom, func(w string) bool { return w < cb })
	}
	if len(b.segs) == 1 && b.segs[0].atom != nil && b.segs[0].atom.kind == "word" && oka {
		return boolTable(b.segs[0].atom, func(w string) bool { return ca < w })
	}
	if a.hasAtom() || b.hasAtom() {
		return unknownBool("order")
	}
	x, y := a.bytes(), b.bytes()
	r := Bool(len(x) < len(y))
	for i := min(len(x), len(y)) - 1; i >= 0; i-- {
		r = Or(Ult(x[i], y[i]), And(Eq(x[i], y[i]), r))
	}
	return r
}

func (ex *Exec) strLen(w *World, s Str) *Term {
	n := 0
	var sum *Term
	if s.hasNum() {
		// one number of unknown length: the rest is added inside
		k := 0
		var at *Atom
		for _, g := range s.segs {
			switch {
			case g.atom != nil && g.atom.kind == "num" && at == nil:
				at = g.atom
			case g.atom != nil:
				k = -1 << 30
			default:
				k += len(g.b) + len(g.lit)
			}
		}
		if k >= 0 {
			return numLen(at, k)
		}
	}
	for _, g := range s.segs {
		switch {
		case g.atom != nil:
			var t *Term
			if g.atom.kind == "word" {
				t = Lookup(g.atom.tab.lens, 64, g.atom.idx)
			} else if g.atom.kind == "num" {
				t = numLen(g.atom, 0)
			} else {
				t = b58Len(g.atom.data)
			}
			if sum == nil {
				sum = t
			} else {
				sum = Add(sum, t)
			}
		case g.b != nil:
			n += len(g.b)
		default:
			n += len(g.lit)
		}
	}
	c := ConstU(uint64(n), 64)
	if sum == nil {
		return c
	}
	return Add(sum, c)
}

// ---- base58

const b58Alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func b58Decode(s string) ([]byte, bool) {
	if s == "" {
		return nil, false
	}
	v := new(big.Int)
	z := 0
	lead := true
	for _, c := range []byte(s) {
		k := -1
		for i := 0; i < 58; i++ {
			if b58Alpha[i] == c {
				k = i
			}
		}
		if k < 0 {
			return nil, false
		}
		if lead && k == 0 {
			z++
		} else {
			lead = false
		}
		v.Mul(v, big.NewInt(58))
		v.Add(v, big.NewInt(int64(k)))
	}
	return append(make([]byte, z), v.Bytes()...), true
}

func b58Encode(b []byte) string {
	z := 0
	for z < len(b) && b[z] == 0 {
		z++
	}
	v := new(big.Int).SetBytes(b)
	var out []byte
	m := new(big.Int)
	for v.Sign() > 0 {
		v.DivMod(v, big.NewInt(58), m)
		out = append(out, b58Alpha[m.Int64()])
	}
	for i := 0; i < z; i++ {
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func b58Str(b []*Term) Str {
	if c, ok := allConst(b); ok {
		return constStr(b58Encode(c))
	}
	return Str{[]Seg{{atom: &Atom{kind: "b58", data: b}}}}
}

// number of leading zero bytes
func b58Zeros(b []*Term) *Term {
	r := ConstU(uint64(len(b)), 64)
	for i := len(b) - 1; i >= 0; i-- {
		r = Ite(Eq(b[i], ConstU(0, 8)), r, ConstU(uint64(i), 64))
	}
	return r
}

func b58Pow(k int) *big.Int { return new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(k)), nil) }

func b58Digits(b []*Term) *Term {
	v := bytesTerm(b)
	ub, lb := v.UB(), v.LB()
	hi := 0
	for b58Pow(hi).Cmp(ub) <= 0 {
		hi++
	}
	lo := 0
	for b58Pow(lo).Cmp(lb) <= 0 {
		lo++
	}
	r := ConstU(uint64(hi), 64)
	for k := hi - 1; k >= lo; k-- {
		r = Ite(Ult(v, Const(b58Pow(k), v.w)), ConstU(uint64(k), 64), r)
	}
	return r
}

func b58Len(b []*Term) *Term { return Add(b58Zeros(b), b58Digits(b)) }

type strW struct {
	s Str
	w *World
}

// characters produced from encoded data, so that decoding them again is exact
var b58Made = map[string][]*Term{}

func termsKey(b []*Term) string {
	k := make([]byte, 0, len(b)*4)
	for _, t := range b {
		k = append(k, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	return string(k)
}

func b58Known(b []*Term) ([]*Term, bool) {
	d, ok := b58Made[termsKey(b)]
	return d, ok
}

func alphaTerm(d *Term) *Term {
	vals := make([]*big.Int, 58)
	for i := range vals {
		vals[i] = big.NewInt(int64(b58Alpha[i]))
	}
	return Lookup(vals, 8, d)
}

func (ex *Exec) materializeB58(w *World, s Str) []strW {
	out := []strW{{Str{}, w}}
	for _, g := range s.segs {
		var next []strW
		for _, c := range out {
			if g.atom == nil || g.atom.kind != "b58" {
				next = append(next, strW{c.s.concat(Str{[]Seg{g}}), c.w})
				continue
			}
			data := g.atom.data
			for _, z := range ex.concretize(c.w, b58Zeros(data), 100) {
				for _, dg := range ex.concretize(z.w, b58Digits(data), 200) {
					nz, nd := int(z.v.Int64()), int(dg.v.Int64())
					ww := dg.w
					var chars []*Term
					for i := 0; i < nz; i++ {
						chars = append(chars, ConstU('1', 8))
					}
					v := bytesTerm(data)
					for i := 0; i < nd; i++ {
						var d *Term
						if i == 0 {
							p := b58Pow(nd - 1)
							d = ConstU(57, 6)
							for q := 56; q >= 1; q-- {
								lim := new(big.Int).Mul(p, big.NewInt(int64(q+1)))
								if lim.BitLen() > v.w {
									d = ConstU(uint64(q), 6)
									continue
								}
								d = Ite(Ult(v, Const(lim, v.w)), ConstU(uint64(q), 6), d)
							}
						} else {
							name := fmt.Sprintf("b58d_%d_%d_%d", len(data), nd, i)
							declUF(name, []int{v.w}, 6, big.NewInt(57), nil)
							d = App(name, v)
							ex.note("base58 digits after the first are uninterpreted when a program inspects them")
						}
						chars = append(chars, alphaTerm(d))
					}
					b58Made[termsKey(chars)] = data
					next = append(next, strW{c.s.concat(bytesStr(chars)), ww})
				}
			}
		}
		out = next
	}
	return out
}

func (ex *Exec) materialize(w *World, s Str) []strW { return ex.materializeB58(w, s) }
