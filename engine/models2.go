package main

// Models of strings, bytes, strconv, reflect, sync and the curve package.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type modelA func(ex *Exec, w *World, a []Value) []Outcome

func wrapA(f modelA) modelFn {
	return func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome { return f(ex, w, a) }
}

func modelF(name string, f modelA) {
	model(name, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome { return f(ex, w, a) })
}

func strSlice(ex *Exec, w *World, parts []Str) SliceV {
	vs := make([]Value, len(parts))
	for i, p := range parts {
		vs[i] = p
	}
	return ex.mkSlice(w, types.Typ[types.String], vs)
}

type partsW struct {
	parts []Str
	cur   Str
	w     *World
	open  bool // Fields: inside a field
	skip  int  // Fields: bytes that belong to a space already seen
}

// atomFree: no word / encoding of the atom contains a byte satisfying f
func atomFree(a *Atom, f func(byte) bool) bool {
	if a.kind == "b58" {
		for i := 0; i < len(b58Alpha); i++ {
			if f(b58Alpha[i]) {
				return false
			}
		}
		return true
	}
	for _, w := range a.tab.words {
		for i := 0; i < len(w); i++ {
			if f(w[i]) {
				return false
			}
		}
	}
	return true
}

// splitByte is strings.Split with a one-byte separator, over ropes
func (ex *Exec) splitByte(w *World, s Str, sep byte) []partsW {
	st := []partsW{{w: w}}
	for _, g := range s.segs {
		switch {
		case g.atom != nil:
			if !atomFree(g.atom, func(b byte) bool { return b == sep }) {
				unsupported("separator inside an opaque string")
			}
			for i := range st {
				st[i].cur = st[i].cur.concat(Str{[]Seg{g}})
			}
		case g.b != nil:
			for _, b := range g.b {
				var nx []partsW
				for _, p := range st {
					t, f := ex.split(p.w, Eq(b, ConstU(uint64(sep), 8)))
					if t != nil {
						nx = append(nx, partsW{parts: append(p.parts[:len(p.parts):len(p.parts)], p.cur), w: t})
					}
					if f != nil {
						nx = append(nx, partsW{parts: p.parts, cur: p.cur.concat(Str{[]Seg{{b: []*Term{b}}}}), w: f})
					}
				}
				st = nx
				if len(st) > 4096 {
					unsupported("too many ways to split a symbolic string")
				}
			}
		default:
			ps := strings.Split(g.lit, string(sep))
			for i := range st {
				for k, x := range ps {
					if k > 0 {
						st[i].parts = append(st[i].parts[:len(st[i].parts):len(st[i].parts)], st[i].cur)
						st[i].cur = Str{}
					}
					st[i].cur = st[i].cur.concat(constStr(x))
				}
			}
		}
	}
	for i := range st {
		st[i].parts = append(st[i].parts[:len(st[i].parts):len(st[i].parts)], st[i].cur)
	}
	return st
}

func isSpaceByte(b *Term) *Term {
	return Or(Eq(b, ConstU(' ', 8)), And(Ule(ConstU(9, 8), b), Ule(b, ConstU(13, 8))))
}

// wordsTrimmed: no word begins/ends with or contains white space, nor is empty
func atomNoSpace(a *Atom) bool {
	if a.kind == "b58" {
		return len(a.data) > 0
	}
	for _, w := range a.tab.words {
		if f := strings.Fields(w); len(f) != 1 || f[0] != w {
			return false
		}
	}
	return true
}

func (ex *Exec) fields(w *World, s Str) []partsW {
	st := []partsW{{w: w}}
	add := func(p *partsW, x Str) {
		p.cur = p.cur.concat(x)
		p.open = true
	}
	end := func(p *partsW) {
		if p.open {
			p.parts = append(p.parts[:len(p.parts):len(p.parts)], p.cur)
		}
		p.cur, p.open = Str{}, false
	}
	for _, g := range s.segs {
		switch {
		case g.atom != nil:
			if !atomNoSpace(g.atom) {
				unsupported("space inside an opaque string")
			}
			for i := range st {
				add(&st[i], Str{[]Seg{g}})
			}
		case g.b != nil:
			for j, b := range g.b {
				var nx []partsW
				for _, p := range st {
					if p.skip > 0 {
						p.skip--
						nx = append(nx, p)
						continue
					}
					if b.UB().Cmp(big.NewInt(128)) >= 0 && !ex.implied(p.w, Ult(b, ConstU(128, 8))) {
						for _, x := range wideSpaces {
							if j+len(x) > len(g.b) {
								continue
							}
							m := TTrue
							for i := 0; i < len(x); i++ {
								m = And(m, Eq(g.b[j+i], ConstU(uint64(x[i]), 8)))
							}
							t, f := ex.split(p.w, m)
							if t != nil {
								q := p
								q.w = t
								end(&q)
								q.skip = len(x) - 1
								nx = append(nx, q)
							}
							p.w = f
							if f == nil {
								break
							}
						}
						if p.w == nil {
							continue
						}
					}
					t, f := ex.split(p.w, isSpaceByte(b))
					if t != nil {
						q := p
						q.w = t
						end(&q)
						nx = append(nx, q)
					}
					if f != nil {
						q := p
						q.w = f
						add(&q, Str{[]Seg{{b: []*Term{b}}}})
						nx = append(nx, q)
					}
				}
				st = nx
				if len(st) > 4096 {
					unsupported("too many ways to split a symbolic string")
				}
			}
		default:
			for i := range st {
				for _, r := range g.lit {
					if unicode.IsSpace(r) {
						end(&st[i])
					} else {
						add(&st[i], constStr(string(r)))
					}
				}
			}
		}
	}
	for i := range st {
		end(&st[i])
	}
	return st
}

// trimSpace over ropes
// (wide: the other characters than ASCII that are cut)
func (ex *Exec) trimSide(w *World, s Str, left bool, isCut func(r rune) bool, cutByte func(*Term) *Term, wide []string) []strW {
	out := []strW{}
	work := []strW{{s, w}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if len(c.s.segs) == 0 {
			out = append(out, c)
			continue
		}
		k := 0
		if !left {
			k = len(c.s.segs) - 1
		}
		g := c.s.segs[k]
		drop := func() Str {
			if left {
				return Str{c.s.segs[1:]}
			}
			return Str{c.s.segs[:k:k]}
		}
		with := func(ng Seg) Str {
			n := append([]Seg(nil), c.s.segs...)
			n[k] = ng
			return Str{n}
		}
		switch {
		case g.atom != nil:
			if g.atom.kind == "b58" {
				if len(g.atom.data) == 0 {
					work = append(work, strW{drop(), c.w})
					continue
				}
				for i := 0; i < len(b58Alpha); i++ {
					if isCut(rune(b58Alpha[i])) {
						unsupported("trim of an encoding")
					}
				}
			} else {
				for _, wd := range g.atom.tab.words {
					var r rune
					if left {
						r, _ = utf8.DecodeRuneInString(wd)
					} else {
						r, _ = utf8.DecodeLastRuneInString(wd)
					}
					if wd == "" || isCut(r) {
						unsupported("trim of a word")
					}
				}
			}
			out = append(out, c)
		case g.b != nil:
			b := g.b[0]
			if !left {
				b = g.b[len(g.b)-1]
			}
			t, f := ex.split(c.w, cutByte(b))
			if t != nil {
				if len(g.b) == 1 {
					work = append(work, strW{drop(), t})
				} else if left {
					work = append(work, strW{with(Seg{b: g.b[1:]}), t})
				} else {
					work = append(work, strW{with(Seg{b: g.b[: len(g.b)-1 : len(g.b)-1]}), t})
				}
			}
			if f != nil && len(wide) > 0 && b.UB().Cmp(big.NewInt(128)) >= 0 && !ex.implied(f, Ult(b, ConstU(128, 8))) {
				e, more := edgeBytes(c.s, left, 3)
				for _, x := range wide {
					n := len(x)
					if n > len(e) {
						if more {
							unsupported("trim of non-ASCII symbolic text")
						}
						continue
					}
					m := TTrue
					for i := 0; i < n; i++ {
						j := i
						if !left {
							j = n - 1 - i
						}
						m = And(m, Eq(e[i], ConstU(uint64(x[j]), 8)))
					}
					t, f = ex.split(f, m)
					if t != nil {
						work = append(work, strW{dropEdge(c.s, left, n), t})
					}
					if f == nil {
						break
					}
				}
			}
			if f != nil {
				out = append(out, strW{c.s, f})
			}
		default:
			if r, n := utf8.DecodeRuneInString(g.lit); len(wide) > 0 && left && r == utf8.RuneError && n == 1 {
				unsupported("trim of an incomplete character")
			}
			if r, n := utf8.DecodeLastRuneInString(g.lit); len(wide) > 0 && !left && r == utf8.RuneError && n == 1 {
				unsupported("trim of an incomplete character")
			}
			var l string
			if left {
				l = strings.TrimLeftFunc(g.lit, isCut)
			} else {
				l = strings.TrimRightFunc(g.lit, isCut)
			}
			if l == "" {
				work = append(work, strW{drop(), c.w})
			} else {
				out = append(out, strW{with(Seg{lit: l}), c.w})
			}
		}
	}
	return out
}

func (ex *Exec) trimBoth(w *World, s Str, isCut func(r rune) bool, cutByte func(*Term) *Term, wide []string) []strW {
	var out []strW
	for _, l := range ex.trimSide(w, s, true, isCut, cutByte, wide) {
		out = append(out, ex.trimSide(l.w, l.s, false, isCut, cutByte, wide)...)
	}
	return out
}

// wideSpaces: the white space outside ASCII
var wideSpaces = func() []string {
	var r []string
	for c := rune(128); c < 0x10000; c++ {
		if unicode.IsSpace(c) {
			r = append(r, string(c))
		}
	}
	return r
}()

// edgeBytes: up to n bytes from an end of the text, from the outside; more if
// the text goes on with something else
func edgeBytes(s Str, left bool, n int) (e []*Term, more bool) {
	for k := range s.segs {
		g := s.segs[k]
		if !left {
			g = s.segs[len(s.segs)-1-k]
		}
		if g.atom != nil {
			return e, true
		}
		l := len(g.lit)
		if g.b != nil {
			l = len(g.b)
		}
		for i := 0; i < l; i++ {
			if len(e) == n {
				return e, false
			}
			j := i
			if !left {
				j = l - 1 - i
			}
			if g.b != nil {
				e = append(e, g.b[j])
			} else {
				e = append(e, ConstU(uint64(g.lit[j]), 8))
			}
		}
	}
	return e, false
}

// dropEdge removes n bytes
func dropEdge(s Str, left bool, n int) Str {
	segs := append([]Seg(nil), s.segs...)
	for n > 0 {
		k := 0
		if !left {
			k = len(segs) - 1
		}
		g := segs[k]
		l := len(g.lit)
		if g.b != nil {
			l = len(g.b)
		}
		if l <= n {
			n -= l
			if left {
				segs = segs[1:]
			} else {
				segs = segs[:k]
			}
			continue
		}
		a, b := 0, l-n
		if left {
			a, b = n, l
		}
		if g.b != nil {
			segs[k] = Seg{b: g.b[a:b:b]}
		} else {
			segs[k] = Seg{lit: g.lit[a:b]}
		}
		n = 0
	}
	return Str{segs}
}

func foldByte(t *Term) *Term {
	up := And(Ule(ConstU('A', 8), t), Ule(t, ConstU('Z', 8)))
	return Ite(up, Add(t, ConstU(32, 8)), t)
}

// lower/upper of a byte, via table so that it folds on hex digits
func caseByte(t *Term, upper bool) *Term {
	vals := make([]*big.Int, 256)
	for i := range vals {
		c := byte(i)
		if upper && c >= 'a' && c <= 'z' {
			c -= 32
		}
		if !upper && c >= 'A' && c <= 'Z' {
			c += 32
		}
		vals[i] = big.NewInt(int64(c))
	}
	return Lookup(vals, 8, t)
}

func asciiOnly(b []*Term) *Term {
	r := TTrue
	for _, t := range b {
		if t.UB().Cmp(big.NewInt(128)) >= 0 {
			r = And(r, Ult(t, ConstU(128, 8)))
		}
	}
	return r
}

func initStrings() {
	S := func(v Value) Str { return v.(Str) }
	modelF("strings.Split", func(ex *Exec, w *World, a []Value) []Outcome {
		s, sep := S(a[0]), S(a[1])
		cs, ok1 := s.isConst()
		cp, ok2 := sep.isConst()
		if ok1 && ok2 {
			var ps []Str
			for _, p := range strings.Split(cs, cp) {
				ps = append(ps, constStr(p))
			}
			return ret1(w, strSlice(ex, w, ps))
		}
		if ok2 && len(cp) == 1 {
			var out []Outcome
			for _, p := range ex.splitByte(w, s, cp[0]) {
				out = append(out, Outcome{w: p.w, kind: oRet, ret: strSlice(ex, p.w, p.parts)})
			}
			return out
		}
		return fall(w)
	})
	modelF("strings.SplitN", func(ex *Exec, w *World, a []Value) []Outcome {
		s, sep := S(a[0]), S(a[1])
		cp, ok2 := sep.isConst()
		n, ok3 := intConst(a[2])
		if ok2 && ok3 && len(cp) == 1 {
			if n == 0 {
				return ret1(w, SliceV{})
			}
			var out []Outcome
			for _, p := range ex.splitByte(w, s, cp[0]) {
				ps := p.parts
				if n > 0 && len(ps) > int(n) {
					r := ps[n-1]
					for _, x := range ps[n:] {
						r = r.concat(constStr(cp)).concat(x)
					}
					ps = append(ps[:n-1:n-1], r)
				}
				out = append(out, Outcome{w: p.w, kind: oRet, ret: strSlice(ex, p.w, ps)})
			}
			return out
		}
		return fall(w)
	})
	modelF("strings.Fields", func(ex *Exec, w *World, a []Value) []Outcome {
		if c, ok := S(a[0]).isConst(); ok {
			var ps []Str
			for _, p := range strings.Fields(c) {
				ps = append(ps, constStr(p))
			}
			return ret1(w, strSlice(ex, w, ps))
		}
		var out []Outcome
		for _, p := range ex.fields(w, S(a[0])) {
			out = append(out, Outcome{w: p.w, kind: oRet, ret: strSlice(ex, p.w, p.parts)})
		}
		return out
	})
	modelF("strings.Join", func(ex *Exec, w *World, a []Value) []Outcome {
		var r Str
		for i, e := range ex.sliceElems(w, a[0].(SliceV)) {
			if i > 0 {
				r = r.concat(S(a[1]))
			}
			r = r.concat(S(e))
		}
		return ret1(w, r)
	})
	modelF("strings.Repeat", func(ex *Exec, w *World, a []Value) []Outcome {
		var out []Outcome
		for _, c := range ex.concretize(w, a[1].(*Term), 400) {
			n := Const(c.v, 64).signed()
			if n.Sign() < 0 {
				out = append(out, Outcome{w: c.w, kind: oPanic, msg: "strings: negative Repeat count"})
				continue
			}
			if n.Cmp(big.NewInt(1<<16)) > 0 {
				unsupported("Repeat count")
			}
			var r Str
			for i := 0; i < int(n.Int64()); i++ {
				r = r.concat(S(a[0]))
			}
			out = append(out, Outcome{w: c.w, kind: oRet, ret: r})
		}
		return out
	})
	for _, up := range []bool{false, true} {
		up := up
		n := "strings.ToLower"
		nat := strings.ToLower
		if up {
			n, nat = "strings.ToUpper", strings.ToUpper
		}
		modelF(n, func(ex *Exec, w *World, a []Value) []Outcome {
			var r Str
			asc := TTrue
			for _, g := range S(a[0]).segs {
				switch {
				case g.atom != nil && g.atom.kind == "word":
					ws := make([]string, len(g.atom.tab.words))
					for i, x := range g.atom.tab.words {
						ws[i] = nat(x)
					}
					r = r.concat(Str{[]Seg{{atom: &Atom{kind: "word", tab: mkWordTab(ws), idx: g.atom.idx}}}})
				case g.atom != nil:
					unsupported("case of an opaque string")
				case g.b != nil:
					asc = And(asc, asciiOnly(g.b))
					nb := make([]*Term, len(g.b))
					for i, b := range g.b {
						nb[i] = caseByte(b, up)
					}
					r = r.concat(bytesStr(nb))
				default:
					r = r.concat(constStr(nat(g.lit)))
				}
			}
			t, f := ex.split(w, asc)
			var out []Outcome
			if t != nil {
				out = append(out, Outcome{w: t, kind: oRet, ret: r})
			}
			if f != nil {
				out = append(out, Outcome{w: f, kind: oUnsup, msg: "case mapping of non-ASCII symbolic text"})
			}
			return out
		})
	}
	modelF("strings.EqualFold", func(ex *Exec, w *World, a []Value) []Outcome {
		s, t := S(a[0]), S(a[1])
		cs, ok1 := s.isConst()
		ct, ok2 := t.isConst()
		if ok1 && ok2 {
			return ret1(w, Bool(strings.EqualFold(cs, ct)))
		}
		if s.hasAtom() || t.hasAtom() {
			if ok1 || ok2 {
				// one constant: compare every word
				at, c := t, cs
				if ok2 {
					at, c = s, ct
				}
				if len(at.segs) == 1 && at.segs[0].atom.kind == "word" {
					return ret1(w, boolTable(at.segs[0].atom, func(x string) bool { return strings.EqualFold(x, c) }))
				}
			}
			if len(s.segs) == 1 && len(t.segs) == 1 && s.segs[0].atom != nil && t.segs[0].atom != nil {
				return ret1(w, unknownBool("EqualFold"))
			}
			unsupported("EqualFold of opaque strings")
		}
		x, y := s.bytes(), t.bytes()
		simple := func(c string) bool {
			for i := 0; i < len(c); i++ {
				if c[i] >= 128 || strings.IndexByte("kKsS", c[i]) >= 0 {
					return false
				}
			}
			return true
		}
		eq := func() *Term {
			if len(x) != len(y) {
				return TFalse
			}
			r := TTrue
			for i := range x {
				r = And(r, Eq(caseByte(x[i], false), caseByte(y[i], false)))
			}
			return r
		}
		if ok1 && simple(cs) || ok2 && simple(ct) {
			return ret1(w, eq())
		}
		asc, non := ex.split(w, And(asciiOnly(x), asciiOnly(y)))
		var out []Outcome
		if asc != nil {
			out = append(out, Outcome{w: asc, kind: oRet, ret: eq()})
		}
		if non != nil {
			out = append(out, Outcome{w: non, kind: oUnsup, msg: "EqualFold of non-ASCII symbolic text"})
		}
		return out
	})
	modelF("strings.TrimSpace", func(ex *Exec, w *World, a []Value) []Outcome {
		return strOuts(ex.trimBoth(w, S(a[0]), unicode.IsSpace, isSpaceByte, wideSpaces))
	})
	cutset := func(v Value) (func(r rune) bool, func(*Term) *Term) {
		c, ok := S(v).isConst()
		if !ok {
			unsupported("symbolic cutset")
		}
		for i := 0; i < len(c); i++ {
			if c[i] >= 128 {
				unsupported("non-ASCII cutset")
			}
		}
		return func(r rune) bool { return strings.ContainsRune(c, r) }, func(t *Term) *Term {
			r := TFalse
			for i := 0; i < len(c); i++ {
				r = Or(r, Eq(t, ConstU(uint64(c[i]), 8)))
			}
			return r
		}
	}
	modelF("strings.Trim", func(ex *Exec, w *World, a []Value) []Outcome {
		f, g := cutset(a[1])
		return strOuts(ex.trimBoth(w, S(a[0]), f, g, nil))
	})
	modelF("strings.TrimLeft", func(ex *Exec, w *World, a []Value) []Outcome {
		f, g := cutset(a[1])
		return strOuts(ex.trimSide(w, S(a[0]), true, f, g, nil))
	})
	modelF("strings.TrimRight", func(ex *Exec, w *World, a []Value) []Outcome {
		f, g := cutset(a[1])
		return strOuts(ex.trimSide(w, S(a[0]), false, f, g, nil))
	})
	// counting / containing a constant text on ropes
	countByte := func(ex *Exec, w *World, s Str, c byte) *Term {
		n := ConstU(0, 64)
		for _, g := range s.segs {
			switch {
			case g.atom != nil:
				if !atomFree(g.atom, func(b byte) bool { return b == c }) {
					if g.atom.kind != "word" {
						unsupported("count in an encoding")
					}
					vs := make([]*big.Int, len(g.atom.tab.words))
					for i, x := range g.atom.tab.words {
						vs[i] = big.NewInt(int64(strings.Count(x, string(c))))
					}
					n = Add(n, Lookup(vs, 64, g.atom.idx))
				}
			case g.b != nil:
				for _, b := range g.b {
					n = Add(n, Ite(Eq(b, ConstU(uint64(c), 8)), ConstU(1, 64), ConstU(0, 64)))
				}
			default:
				n = Add(n, ConstU(uint64(strings.Count(g.lit, string(c))), 64))
			}
		}
		return n
	}
	modelF("strings.Count", func(ex *Exec, w *World, a []Value) []Outcome {
		c, ok := S(a[1]).isConst()
		s, ok2 := S(a[0]).isConst()
		if ok && ok2 {
			return ret1(w, ConstU(uint64(strings.Count(s, c)), 64))
		}
		if ok && len(c) == 1 {
			return ret1(w, countByte(ex, w, S(a[0]), c[0]))
		}
		return fall(w)
	})
	modelF("strings.Contains", func(ex *Exec, w *World, a []Value) []Outcome {
		c, ok := S(a[1]).isConst()
		s, ok2 := S(a[0]).isConst()
		if ok && ok2 {
			return ret1(w, Bool(strings.Contains(s, c)))
		}
		if ok && len(c) == 1 {
			return ret1(w, Not(Eq(countByte(ex, w, S(a[0]), c[0]), ConstU(0, 64))))
		}
		if ok && S(a[0]).hasAtom() {
			// a text made of separators only
			for _, g := range S(a[0]).segs {
				if g.b != nil || g.atom != nil && !atomFree(g.atom, func(b byte) bool { return strings.IndexByte(c, b) >= 0 }) {
					unsupported("Contains on an opaque string")
				}
			}
			for _, g := range S(a[0]).segs {
				if g.atom == nil && strings.Contains(g.lit, c) {
					return ret1(w, TTrue)
				}
			}
			return ret1(w, TFalse)
		}
		return fall(w)
	})
	affix := func(pre bool) modelA {
		return func(ex *Exec, w *World, a []Value) []Outcome {
			s, p := S(a[0]), S(a[1])
			n := p.clen()
			if n < 0 {
				unsupported("opaque affix")
			}
			if n == 0 {
				return ret1(w, TTrue)
			}
			if !s.hasAtom() {
				if s.clen() < n {
					return ret1(w, TFalse)
				}
				b := s.bytes()
				if pre {
					b = b[:n]
				} else {
					b = b[len(b)-n:]
				}
				return ret1(w, strEq(bytesStr(b), p))
			}
			// the constant side of a rope
			k := 0
			if !pre {
				k = len(s.segs) - 1
			}
			g := s.segs[k]
			if g.atom == nil {
				q := Str{[]Seg{g}}
				if m := q.clen(); m >= n {
					if pre {
						return ret1(w, strEq(q.slice(0, n), p))
					}
					return ret1(w, strEq(q.slice(m-n, m), p))
				}
			} else if c, ok := p.isConst(); ok && g.atom.kind == "word" {
				all := true
				for _, x := range g.atom.tab.words {
					if len(x) < n {
						all = false
					}
				}
				if all {
					return ret1(w, boolTable(g.atom, func(x string) bool {
						if pre {
							return strings.HasPrefix(x, c)
						}
						return strings.HasSuffix(x, c)
					}))
				}
				if pre && atomFree(g.atom, func(b byte) bool { return b == c[0] }) {
					return ret1(w, TFalse)
				}
				if !pre && atomFree(g.atom, func(b byte) bool { return b == c[n-1] }) {
					return ret1(w, TFalse)
				}
			} else if ok {
				if pre && atomFree(g.atom, func(b byte) bool { return b == c[0] }) || !pre && atomFree(g.atom, func(b byte) bool { return b == c[n-1] }) {
					return ret1(w, TFalse)
				}
				var out []Outcome
				for _, m := range ex.materialize(w, s) {
					if m.s.hasAtom() {
						unsupported("affix of an opaque string")
					}
					b := m.s.bytes()
					r := TFalse
					if len(b) >= n {
						if pre {
							b = b[:n]
						} else {
							b = b[len(b)-n:]
						}
						r = strEq(bytesStr(b), p)
					}
					out = append(out, Outcome{w: m.w, kind: oRet, ret: r})
				}
				return out
			}
			unsupported("affix of an opaque string")
			return nil
		}
	}
	modelF("strings.HasPrefix", affix(true))
	modelF("strings.HasSuffix", affix(false))
	modelF("strings.Clone", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, a[0]) })
	modelF("strings.Compare", func(ex *Exec, w *World, a []Value) []Outcome {
		s, t := S(a[0]), S(a[1])
		return ret1(w, Ite(strEq(s, t), ConstU(0, 64), Ite(strLess(s, t), ConstI(-1, 64), ConstI(1, 64))))
	})
	// functions interpreted unless constant
	nat2 := map[string]func(a, b string) int{"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexAny": strings.IndexAny}
	for n, f := range nat2 {
		f := f
		modelF(n, func(ex *Exec, w *World, a []Value) []Outcome {
			s, ok1 := S(a[0]).isConst()
			p, ok2 := S(a[1]).isConst()
			if ok1 && ok2 {
				return ret1(w, ConstI(int64(f(s, p)), 64))
			}
			if S(a[0]).hasAtom() || S(a[1]).hasAtom() {
				unsupported("index in an opaque string")
			}
			return fall(w)
		})
	}
	rep := func(ex *Exec, w *World, a []Value, n int64) []Outcome {
		s, ok1 := S(a[0]).isConst()
		p, ok2 := S(a[1]).isConst()
		q, ok3 := S(a[2]).isConst()
		if ok1 && ok2 && ok3 {
			return ret1(w, constStr(strings.Replace(s, p, q, int(n))))
		}
		if ok2 && ok3 && n < 0 && p != "" {
			// single bytes, or texts that cannot cross a segment
			one := len(p) == 1
			var r Str
			for _, g := range S(a[0]).segs {
				switch {
				case g.atom != nil:
					if !atomFree(g.atom, func(b byte) bool { return strings.IndexByte(p, b) >= 0 }) {
						unsupported("Replace in an opaque string")
					}
					r = r.concat(Str{[]Seg{g}})
				case g.b != nil:
					if !one || len(q) != 1 {
						unsupported("Replace in symbolic text")
					}
					nb := make([]*Term, len(g.b))
					for i, b := range g.b {
						nb[i] = Ite(Eq(b, ConstU(uint64(p[0]), 8)), ConstU(uint64(q[0]), 8), b)
					}
					r = r.concat(bytesStr(nb))
				default:
					r = r.concat(constStr(strings.ReplaceAll(g.lit, p, q)))
				}
			}
			return ret1(w, r)
		}
		if S(a[0]).hasAtom() {
			unsupported("Replace in an opaque string")
		}
		return fall(w)
	}
	modelF("strings.Replace", func(ex *Exec, w *World, a []Value) []Outcome {
		n, ok := intConst(a[3])
		if !ok {
			unsupported("Replace count")
		}
		return rep(ex, w, a, n)
	})
	modelF("strings.ReplaceAll", func(ex *Exec, w *World, a []Value) []Outcome { return rep(ex, w, a, -1) })

	// builders
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		isBuf := t[2] == 'b'
		get := func(ex *Exec, w *World, v Value) BuilderV {
			b, ok := ex.load(w, v.(Ptr)).(BuilderV)
			if !ok {
				unsupported("builder")
			}
			return b
		}
		app := func(ex *Exec, w *World, v Value, s Str) {
			ex.store(w, v.(Ptr), BuilderV{get(ex, w, v).s.concat(s)})
		}
		modelF(t+"WriteString", func(ex *Exec, w *World, a []Value) []Outcome {
			app(ex, w, a[0], S(a[1]))
			return ret1(w, TupleV{ex.strLen(w, S(a[1])), IfaceV{}})
		})
		modelF(t+"Write", func(ex *Exec, w *World, a []Value) []Outcome {
			s := ex.sliceStr(w, a[1].(SliceV))
			app(ex, w, a[0], s)
			return ret1(w, TupleV{ex.strLen(w, s), IfaceV{}})
		})
		modelF(t+"WriteByte", func(ex *Exec, w *World, a []Value) []Outcome {
			app(ex, w, a[0], bytesStr([]*Term{a[1].(*Term)}))
			return ret1(w, IfaceV{})
		})
		modelF(t+"WriteRune", func(ex *Exec, w *World, a []Value) []Outcome {
			r := a[1].(*Term)
			if r.isConst() {
				s := string(rune(r.signed().Int64()))
				app(ex, w, a[0], constStr(s))
				return ret1(w, TupleV{ConstU(uint64(len(s)), 64), IfaceV{}})
			}
			if r.UB().Cmp(big.NewInt(128)) >= 0 {
				unsupported("symbolic rune")
			}
			app(ex, w, a[0], bytesStr([]*Term{Extract(7, 0, r)}))
			return ret1(w, TupleV{ConstU(1, 64), IfaceV{}})
		})
		modelF(t+"String", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, get(ex, w, a[0]).s) })
		modelF(t+"Len", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, ex.strLen(w, get(ex, w, a[0]).s)) })
		modelF(t+"Grow", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, TupleV{}) })
		modelF(t+"Reset", func(ex *Exec, w *World, a []Value) []Outcome {
			ex.store(w, a[0].(Ptr), BuilderV{})
			return ret1(w, TupleV{})
		})
		if isBuf {
			modelF(t+"Bytes", func(ex *Exec, w *World, a []Value) []Outcome {
				s := get(ex, w, a[0]).s
				if s.hasAtom() {
					return ret1(w, SliceV{rope: &s})
				}
				ex.note("bytes.Buffer.Bytes taken as a copy")
				return ret1(w, ex.mkBytes(w, s.bytes()))
			})
		}
	}
	modelF("bytes.NewBufferString", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, Ptr{obj: w.alloc(deref(ex.ptrTo("bytes", "Buffer")), BuilderV{S(a[0])})})
	})
	modelF("bytes.NewBuffer", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, Ptr{obj: w.alloc(deref(ex.ptrTo("bytes", "Buffer")), BuilderV{ex.sliceStr(w, a[0].(SliceV))})})
	})

	// bytes
	beq := func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, strEq(ex.sliceStr(w, a[0].(SliceV)), ex.sliceStr(w, a[1].(SliceV))))
	}
	modelF("bytes.Equal", beq)
	modelF("internal/bytealg.Equal", beq)
	modelF("bytes.Compare", func(ex *Exec, w *World, a []Value) []Outcome {
		s, t := ex.sliceStr(w, a[0].(SliceV)), ex.sliceStr(w, a[1].(SliceV))
		return ret1(w, Ite(strEq(s, t), ConstU(0, 64), Ite(strLess(s, t), ConstI(-1, 64), ConstI(1, 64))))
	})
	modelTable["internal/bytealg.Compare"] = modelTable["bytes.Compare"]
	modelF("internal/bytealg.CompareString", func(ex *Exec, w *World, a []Value) []Outcome {
		return modelTable["strings.Compare"](ex, w, nil, a)
	})
	idx := func(ex *Exec, w *World, b []*Term, c *Term) []Outcome {
		// fork on the position: later string operations need it concrete
		var out []Outcome
		cur := w
		for i, t := range b {
			y, n := ex.split(cur, Eq(t, c))
			if y != nil {
				out = append(out, Outcome{w: y, kind: oRet, ret: ConstU(uint64(i), 64)})
			}
			cur = n
			if cur == nil {
				return out
			}
		}
		return append(out, Outcome{w: cur, kind: oRet, ret: ConstI(-1, 64)})
	}
	modelF("internal/bytealg.IndexByteString", func(ex *Exec, w *World, a []Value) []Outcome { return idx(ex, w, S(a[0]).bytes(), a[1].(*Term)) })
	modelF("internal/bytealg.IndexByte", func(ex *Exec, w *World, a []Value) []Outcome {
		return idx(ex, w, ex.sliceBytes(w, a[0].(SliceV)), a[1].(*Term))
	})
	modelF("strings.IndexByte", func(ex *Exec, w *World, a []Value) []Outcome {
		if S(a[0]).hasAtom() {
			unsupported("index in an opaque string")
		}
		return idx(ex, w, S(a[0]).bytes(), a[1].(*Term))
	})
	cnt := func(b []*Term, c *Term) Value {
		n := ConstU(0, 64)
		for _, t := range b {
			n = Add(n, Ite(Eq(t, c), ConstU(1, 64), ConstU(0, 64)))
		}
		return n
	}
	modelF("internal/bytealg.CountString", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, cnt(S(a[0]).bytes(), a[1].(*Term))) })
	modelF("internal/bytealg.Count", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, cnt(ex.sliceBytes(w, a[0].(SliceV)), a[1].(*Term)))
	})
	modelF("internal/bytealg.IndexString", func(ex *Exec, w *World, a []Value) []Outcome {
		b, p := S(a[0]).bytes(), S(a[1]).bytes()
		var out []Outcome
		cur := w
		for i := 0; i+len(p) <= len(b); i++ {
			y, n := ex.split(cur, strEq(bytesStr(b[i:i+len(p)]), bytesStr(p)))
			if y != nil {
				out = append(out, Outcome{w: y, kind: oRet, ret: ConstU(uint64(i), 64)})
			}
			cur = n
			if cur == nil {
				return out
			}
		}
		return append(out, Outcome{w: cur, kind: oRet, ret: ConstI(-1, 64)})
	})
	modelF("internal/bytealg.MakeNoZero", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, ex.mkBytes(w, constBytes(make([]byte, mustInt(a[0])))))
	})
	modelF("internal/stringslite.Clone", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, a[0]) })

	// strconv
	fi := func(signed bool) modelA {
		return func(ex *Exec, w *World, a []Value) []Outcome {
			b := bigFromInt(a[0].(*Term), signed)
			return strOuts(ex.bigText(w, b, int(mustInt(a[1])), false, true))
		}
	}
	modelF("strconv.FormatInt", fi(true))
	modelF("strconv.FormatUint", fi(false))
	modelF("strconv.Itoa", func(ex *Exec, w *World, a []Value) []Outcome {
		return strOuts(ex.bigText(w, bigFromInt(a[0].(*Term), true), 10, false, false))
	})
	modelF("strconv.Quote", func(ex *Exec, w *World, a []Value) []Outcome {
		if c, ok := S(a[0]).isConst(); ok {
			return ret1(w, constStr(strconv.Quote(c)))
		}
		unsupported("Quote of symbolic text")
		return nil
	})
	numErr := func(ex *Exec, w *World) IfaceV { return ex.errConst(w, "strconv: parsing") }
	parse := func(ex *Exec, w *World, s Str, base, bits int64, signed bool) []Outcome {
		if bits == 0 {
			bits = 64
		}
		if base == 0 {
			if _, ok := s.isConst(); !ok {
				unsupported("ParseInt base 0 of symbolic text")
			}
		}
		if c, ok := s.isConst(); ok {
			var v *big.Int
			var err error
			if signed {
				var x int64
				x, err = strconv.ParseInt(c, int(base), int(bits))
				v = big.NewInt(x)
			} else {
				var x uint64
				x, err = strconv.ParseUint(c, int(base), int(bits))
				v = new(big.Int).SetUint64(x)
			}
			e := IfaceV{}
			if err != nil {
				e = numErr(ex, w)
			}
			return ret1(w, TupleV{Const(v, 64), e})
		}
		if s.hasAtom() {
			unsupported("number parsed from an opaque string")
		}
		var out []Outcome
		if !signed {
			b := s.bytes()
			if len(b) > 0 {
				sg, rest := ex.split(w, Or(Eq(b[0], ConstU('-', 8)), Eq(b[0], ConstU('+', 8))))
				if sg != nil {
					out = append(out, Outcome{w: sg, kind: oRet, ret: TupleV{ConstU(0, 64), numErr(ex, sg)}})
				}
				if rest == nil {
					return out
				}
				w = rest
			}
		}
		for _, p := range ex.parseBig(w, s, int(base)) {
			if !p.ok {
				out = append(out, Outcome{w: p.w, kind: oRet, ret: TupleV{ConstU(0, 64), numErr(ex, p.w)}})
				continue
			}
			mag := p.val.mag
			lim := pow2(int(bits))
			if signed {
				lim = pow2(int(bits) - 1)
			}
			wd := max(mag.w, 72)
			m := fit(mag, wd)
			inr := Ult(m, Const(lim, wd))
			if signed {
				inr = Or(inr, And(p.val.neg, Eq(m, Const(lim, wd))))
			}
			t, f := ex.split(p.w, inr)
			if t != nil {
				v := Extract(63, 0, m)
				out = append(out, Outcome{w: t, kind: oRet, ret: TupleV{Ite(p.val.neg, Neg(v), v), IfaceV{}}})
			}
			if f != nil {
				hi := new(big.Int).Sub(lim, bigOne)
				r := Const(hi, 64)
				if signed {
					r = Ite(p.val.neg, Const(new(big.Int).Neg(lim), 64), r)
				}
				out = append(out, Outcome{w: f, kind: oRet, ret: TupleV{r, numErr(ex, f)}})
			}
		}
		return out
	}
	modelF("strconv.ParseInt", func(ex *Exec, w *World, a []Value) []Outcome {
		return parse(ex, w, S(a[0]), mustInt(a[1]), mustInt(a[2]), true)
	})
	modelF("strconv.ParseUint", func(ex *Exec, w *World, a []Value) []Outcome {
		return parse(ex, w, S(a[0]), mustInt(a[1]), mustInt(a[2]), false)
	})
	modelF("strconv.Atoi", func(ex *Exec, w *World, a []Value) []Outcome { return parse(ex, w, S(a[0]), 10, 64, true) })
}

func (ex *Exec) deepEq(w *World, a, b Value, t types.Type, d int) *Term {
	if d > 20 {
		unsupported("DeepEqual depth")
	}
	switch x := a.(type) {
	case Ptr:
		y := b.(Ptr)
		e := ptrEq(x, y)
		if e == TTrue {
			return TTrue
		}
		if x.isNil() || y.isNil() {
			return e
		}
		return Or(e, ex.deepEq(w, ex.load(w, x), ex.load(w, y), deref(t), d+1))
	case IfaceV:
		y := b.(IfaceV)
		if x.typ == nil || y.typ == nil {
			return Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return TFalse
		}
		return ex.deepEq(w, x.val, y.val, x.typ, d+1)
	case StructV:
		y := b.(StructV)
		r := TTrue
		st, _ := t.Underlying().(*types.Struct)
		for i := range x {
			var ft types.Type = types.Typ[types.Int]
			if st != nil {
				ft = st.Field(i).Type()
			}
			r = And(r, ex.deepEq(w, x[i], y[i], ft, d+1))
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		r := TTrue
		for i := range x {
			r = And(r, ex.deepEq(w, x[i], y[i], t.Underlying().(*types.Array).Elem(), d+1))
		}
		return r
	case SliceV:
		y := b.(SliceV)
		if x.isNil() != y.isNil() {
			return TFalse
		}
		if x.rope != nil || y.rope != nil {
			return strEq(ex.sliceStr(w, x), ex.sliceStr(w, y))
		}
		if x.len != y.len {
			return TFalse
		}
		p, q := ex.sliceElems(w, x), ex.sliceElems(w, y)
		r := TTrue
		for i := range p {
			r = And(r, ex.deepEq(w, p[i], q[i], t.Underlying().(*types.Slice).Elem(), d+1))
		}
		return r
	case BigV:
		y := b.(BigV)
		m, n := same(x.mag, y.mag)
		return And(Eq(x.neg, y.neg), Eq(m, n))
	case FuncV:
		y := b.(FuncV)
		return Bool(x.isNil() && y.isNil())
	case MapV:
		unsupported("DeepEqual of maps")
	}
	return ex.eqVal(w, a, b)
}

func initMisc() {
	initRace()
	initRepeat()
	modelF("reflect.DeepEqual", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, ex.deepEq(w, a[0], a[1], nil, 0))
	})
	modelF("crypto/subtle.ConstantTimeCompare", func(ex *Exec, w *World, a []Value) []Outcome {
		e := strEq(ex.sliceStr(w, a[0].(SliceV)), ex.sliceStr(w, a[1].(SliceV)))
		return ret1(w, Ite(e, ConstU(1, 64), ConstU(0, 64)))
	})
	nop := func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, TupleV{}) }
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved", "crypto/internal/fips140only.Enforced", "runtime.GC", "crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring.Unreachable"} {
		modelF(n, nop)
	}
	for _, n := range []string{"(*sync.Mutex)", "(*sync.RWMutex)", "(*internal/sync.Mutex)"} {
		modelF(n+".Lock", acquiring(nop))
		modelF(n+".Unlock", releasing(nop))
	}
	modelF("(*sync.RWMutex).RLock", acquiring(nop))
	modelF("(*sync.RWMutex).RUnlock", releasing(nop))
	modelF("crypto/internal/rand.IsDefaultReader", func(ex *Exec, w *World, a []Value) []Outcome {
		iv := a[0].(IfaceV)
		if iv.typ == nil {
			return ret1(w, TFalse)
		}
		return ret1(w, Bool(strings.Contains(iv.typ.String(), "crypto/internal/")))
	})
	modelF("crypto/internal/randutil.MaybeReadByte", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, TupleV{}) })
	// atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		modelF("sync/atomic.Load"+t, acquiring(func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, ex.load(w, a[0].(Ptr))) }))
		modelF("sync/atomic.Store"+t, releasing(func(ex *Exec, w *World, a []Value) []Outcome {
			ex.store(w, a[0].(Ptr), a[1])
			return ret1(w, TupleV{})
		}))
		modelF("sync/atomic.Add"+t, syncing(func(ex *Exec, w *World, a []Value) []Outcome {
			v := Add(ex.load(w, a[0].(Ptr)).(*Term), a[1].(*Term))
			ex.store(w, a[0].(Ptr), v)
			return ret1(w, v)
		}))
		modelF("sync/atomic.Swap"+t, syncing(func(ex *Exec, w *World, a []Value) []Outcome {
			v := ex.load(w, a[0].(Ptr))
			ex.store(w, a[0].(Ptr), a[1])
			return ret1(w, v)
		}))
		modelF("sync/atomic.CompareAndSwap"+t, syncing(func(ex *Exec, w *World, a []Value) []Outcome {
			e := ex.eqVal(w, ex.load(w, a[0].(Ptr)), a[1])
			y, n := ex.split(w, e)
			var out []Outcome
			if y != nil {
				ex.store(y, a[0].(Ptr), a[2])
				out = append(out, Outcome{w: y, kind: oRet, ret: TTrue})
			}
			if n != nil {
				out = append(out, Outcome{w: n, kind: oRet, ret: TFalse})
			}
			return out
		}))
	}
	// non-deterministic library functions: any value
	fresh := func(wd int, what string) modelA {
		return func(ex *Exec, w *World, a []Value) []Outcome {
			ex.note(what + " taken as an arbitrary value")
			return ret1(w, Var(fmt.Sprintf("nd_%s#%d", what, w.next("nd_"+what)), wd))
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		for n, wd := range map[string]int{"Int": 64, "Int63": 64, "Int31": 32, "Uint32": 32, "Uint64": 64} {
			modelF(p+n, fresh(wd, "math/rand"))
		}
		for _, n := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N"} {
			n := n
			modelF(p+n, func(ex *Exec, w *World, a []Value) []Outcome {
				lim := a[len(a)-1].(*Term)
				v := Var(fmt.Sprintf("nd_mathrand#%d", w.next("nd_mathrand")), lim.w)
				w.assume(Ult(v, lim))
				ex.note("math/rand taken as an arbitrary value")
				return ret1(w, v)
			})
		}
		modelF(p+"Seed", nop)
		modelF(p+"Read", func(ex *Exec, w *World, a []Value) []Outcome {
			s := a[len(a)-1].(SliceV)
			k := w.next("nd_mathrand_read")
			b := make([]*Term, s.len)
			for i := range b {
				b[i] = Var(fmt.Sprintf("nd_mathrand_read#%d_%d", k, i), 8)
			}
			ex.writeBytes(w, s, b)
			ex.note("math/rand taken as an arbitrary value")
			return ret1(w, TupleV{ConstU(uint64(s.len), 64), IfaceV{}})
		})
	}
	modelF("math/rand.NewSource", func(ex *Exec, w *World, a []Value) []Outcome {
		t := ex.ptrTo("math/rand", "rngSource")
		return ret1(w, IfaceV{typ: t, val: Ptr{obj: w.alloc(deref(t), Opaque{"rand source"})}})
	})
	modelF("math/rand.New", func(ex *Exec, w *World, a []Value) []Outcome {
		t := ex.ptrTo("math/rand", "Rand")
		return ret1(w, Ptr{obj: w.alloc(deref(t), Opaque{"rand"})})
	})
	modelF("time.Now", func(ex *Exec, w *World, a []Value) []Outcome {
		t := ex.prog.ImportedPackage("time").Type("Time").Type()
		z := zero(t)
		return ret1(w, z)
	})
	modelF("(time.Time).UnixNano", fresh(64, "time"))
	modelF("(time.Time).Unix", fresh(64, "time"))
	modelF("time.Sleep", nop)
	modelF("math/bits.Len", func(ex *Exec, w *World, a []Value) []Outcome { return fall(w) })
}

// ------------------------------------------------------------- the curve

type curveInfo struct {
	std bool
	sfx string
	nb  int
}

// the field names of ecdsa.Curve
func (ex *Exec) curveOf(w *World, v Value) curveInfo {
	st, ok := ex.load(w, v.(Ptr)).(StructV)
	if !ok {
		unsupported("curve")
	}
	t := deref(ex.ptrTo("github.com/aureleoules/ecdsa", "Curve")).Underlying().(*types.Struct)
	vals := map[string]*big.Int{}
	for i := 0; i < t.NumFields(); i++ {
		n := t.Field(i).Name()
		switch n {
		case "A", "B", "P", "N":
			b := ex.bigGet(w, st[i])
			k := b.konst()
			if k == nil {
				unsupported("symbolic curve parameter")
			}
			vals[n] = k
		}
	}
	ci := curveInfo{nb: vals["N"].BitLen()}
	ci.std = vals["A"].Sign() == 0 && vals["B"].Cmp(big.NewInt(7)) == 0 && vals["P"].Cmp(curveP) == 0
	if !ci.std {
		ci.sfx = fmt.Sprintf("!%x.%x.%x", vals["A"], vals["B"], vals["P"])
	}
	return ci
}

func (ex *Exec) pointXY(w *World, v Value) (x, y Ptr) {
	st := v.(StructV)
	return st[0].(Ptr), st[1].(Ptr)
}

// scalarOf: the multiple of G with these coordinates, when the terms show it
func scalarOf(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		if k := knownScalar[x.val.Text(16)+","+y.val.Text(16)]; k != nil {
			return Const(k, 256)
		}
		return nil
	}
	if x.op == OIte {
		c := x.args[0]
		a := scalarOf(x.args[1], under(y, c, true))
		if a == nil {
			return nil
		}
		b := scalarOf(x.args[2], under(y, c, false))
		if b == nil {
			return nil
		}
		return Ite(c, a, b)
	}
	if y.op == OIte {
		c := y.args[0]
		a := scalarOf(under(x, c, true), y.args[1])
		if a == nil {
			return nil
		}
		b := scalarOf(under(x, c, false), y.args[2])
		if b == nil {
			return nil
		}
		return Ite(c, a, b)
	}
	if x.op == OApp && x.name == "gx" && y.op == OApp && y.name == "gy" {
		s, t := x.args[0], y.args[0]
		if s == t {
			return s
		}
		// gx(s) = gx(n-s)
		if t == Sub(Const(curveN, 256), s) || s == Sub(Const(curveN, 256), t) {
			return t
		}
		// the same scalar under a condition
		if s.op == OIte || t.op == OIte {
			var c *Term
			if s.op == OIte {
				c = s.args[0]
			} else {
				c = t.args[0]
			}
			a := scalarOf(App("gx", under(s, c, true)), App("gy", under(t, c, true)))
			b := scalarOf(App("gx", under(s, c, false)), App("gy", under(t, c, false)))
			if a != nil && b != nil {
				return Ite(c, a, b)
			}
		}
	}
	return nil
}

func under(t, c *Term, v bool) *Term {
	if t.op == OIte {
		if t.args[0] == c {
			if v {
				return t.args[1]
			}
			return t.args[2]
		}
		if t.args[0] == Not(c) {
			if v {
				return t.args[2]
			}
			return t.args[1]
		}
	}
	if t.op == OApp && (t.name == "gx" || t.name == "gy") {
		return App(t.name, under(t.args[0], c, v))
	}
	return t
}

func w256(t *Term) *Term { return fit(t, 256) }

func (ex *Exec) modP(b BigV) *Term { return w256(bigMod(b, constBig(curveP)).mag) }

// pointScalar: scalar of a point known to be on the curve in this state, or nil
func (ex *Exec) pointScalar(w *World, x, y BigV, ci curveInfo) *Term {
	if !ci.std {
		return nil
	}
	xm, ym := ex.modP(x), ex.modP(y)
	if s := scalarOf(xm, ym); s != nil {
		return s
	}
	on := App("oncurve", xm, ym)
	if ex.impliedHard(w, on) {
		return App("dlog", xm, ym)
	}
	return nil
}

func (ex *Exec) mkPoint(w *World, x, y Ptr) Value { return StructV{x, y} }

func (ex *Exec) pointPtr(w *World, p Value) Ptr {
	return Ptr{obj: w.alloc(deref(ex.ptrTo("github.com/aureleoules/ecdsa", "Point")), p)}
}

func (ex *Exec) basePoint(w *World, s *Term) Value {
	gx, gy := App("gx", s), App("gy", s)
	return ex.mkPoint(w, ex.newBig(w, mkBig(TFalse, gx)), ex.newBig(w, mkBig(TFalse, gy)))
}

func inGroup(s *Term) *Term {
	return And(Not(Eq(s, Const(bigZero, 256))), Ult(s, Const(curveN, 256)))
}

func (ex *Exec) onCurveTerm(w *World, x, y BigV, ci curveInfo) *Term {
	xm, ym := ex.modP(x), ex.modP(y)
	if ci.std {
		if s := scalarOf(xm, ym); s != nil {
			if g := inGroup(s); g == TTrue || ex.implied(w, g) {
				return TTrue
			}
		}
		return App("oncurve", xm, ym)
	}
	n := "oncurve" + ci.sfx
	declUF(n, []int{256, 256}, 0, nil, nil)
	return App(n, xm, ym)
}

// yRoot: the square root that Curve.GetY computes, and whether there is one
func (ex *Exec) yRoot(w *World, x BigV) (*Term, *Term) {
	xm := ex.modP(x)
	if xm.isConst() {
		r := new(big.Int).Exp(xm.val, big.NewInt(3), nil)
		r.Add(r, big.NewInt(7))
		e := new(big.Int).Add(curveP, bigOne)
		e.Rsh(e, 2)
		r.Exp(r, e, curveP)
		return Const(r, 256), Bool(ecOn(xm.val, r))
	}
	var lift func(xm *Term) (*Term, *Term)
	lift = func(xm *Term) (*Term, *Term) {
		if xm.op == OApp && xm.name == "gx" {
			s := xm.args[0]
			if ex.implied(w, inGroup(s)) {
				gy := App("gy", s)
				return Ite(App("qroot", xm), gy, Sub(Const(curveP, 256), gy)), TTrue
			}
		}
		return App("rootx", xm), App("liftx", xm)
	}
	return lift(xm)
}

func initCurve() {
	C := "(*github.com/aureleoules/ecdsa.Curve)."
	add2 := func(double bool) modelFn {
		return func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			ci := ex.curveOf(w, a[0])
			px, py := ex.pointXY(w, a[1])
			qx, qy := ex.pointXY(w, a[2])
			x1, y1, x2, y2 := ex.bigGet(w, px), ex.bigGet(w, py), ex.bigGet(w, qx), ex.bigGet(w, qy)
			s1, s2 := ex.pointScalar(w, x1, y1, ci), ex.pointScalar(w, x2, y2, ci)
			if s1 != nil && s2 != nil {
				X1, X2 := ex.modP(x1), ex.modP(x2)
				Y1 := ex.modP(y1)
				good := TFalse
				if double {
					good = And(Eq(X1, X2), Eq(Y1, ex.modP(y2)), inGroup(s1))
				} else {
					good = And(Not(Eq(X1, X2)), inGroup(s1), inGroup(s2))
				}
				if ex.impliedHard(w, good) {
					sum := w256(bigMod(bigAdd(mkBig(TFalse, s1), mkBig(TFalse, s2)), constBig(curveN)).mag)
					w.assume(Not(Eq(sum, Const(bigZero, 256))))
					return ret1(w, TupleV{ex.pointPtr(w, ex.basePoint(w, sum)), TTrue})
				}
			}
			// anything: a function of the coordinates
			n := "padd"
			if double {
				n = "pdbl"
			}
			n += ci.sfx
			args := []*Term{ex.modP(x1), ex.modP(y1), ex.modP(x2), ex.modP(y2)}
			in := []int{256, 256, 256, 256}
			pm1 := new(big.Int).Sub(curveP, bigOne)
			declUF(n+"_x", in, 256, pm1, nil)
			declUF(n+"_y", in, 256, pm1, nil)
			declUF(n+"_on", in, 0, nil, nil)
			ex.note("sum of points not shown to be on the curve: uninterpreted")
			pt := ex.mkPoint(w, ex.newBig(w, mkBig(TFalse, App(n+"_x", args...))), ex.newBig(w, mkBig(TFalse, App(n+"_y", args...))))
			return ret1(w, TupleV{ex.pointPtr(w, pt), App(n+"_on", args...)})
		}
	}
	model(C+"PointAddition", add2(false))
	model(C+"PointDoubling", add2(true))
	modelF(C+"IsOnCurve", func(ex *Exec, w *World, a []Value) []Outcome {
		ci := ex.curveOf(w, a[0])
		px, py := ex.pointXY(w, a[1])
		if px.isNil() && py.isNil() {
			return ret1(w, TFalse)
		}
		return ret1(w, ex.onCurveTerm(w, ex.bigGet(w, px), ex.bigGet(w, py), ci))
	})
	modelF(C+"GetY", func(ex *Exec, w *World, a []Value) []Outcome {
		ci := ex.curveOf(w, a[0])
		x := ex.bigGet(w, a[1])
		st := ex.load(w, a[0].(Ptr)).(StructV)
		// the real function multiplies A by x in place
		t := deref(ex.ptrTo("github.com/aureleoules/ecdsa", "Curve")).Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "A" {
				A := ex.bigGet(w, st[i])
				if k := A.konst(); k == nil || k.Sign() != 0 {
					ex.store(w, st[i].(Ptr), bigMul(A, x))
				} else { // 0 stays 0, but it is written
					w.touch(st[i].(Ptr).obj, nil, true)
				}
			}
		}
		if !ci.std {
			xm := ex.modP(x)
			n := "rootx" + ci.sfx
			declUF(n, []int{256}, 256, nil, nil)
			declUF("liftx"+ci.sfx, []int{256}, 0, nil, nil)
			return ret1(w, TupleV{ex.newBig(w, mkBig(TFalse, App(n, xm))), App("liftx"+ci.sfx, xm)})
		}
		y, on := ex.yRoot(w, x)
		return ret1(w, TupleV{ex.newBig(w, mkBig(TFalse, y)), on})
	})
	modelF(C+"ScalarMult", func(ex *Exec, w *World, a []Value) []Outcome {
		ci := ex.curveOf(w, a[0])
		n := ex.bigGet(w, a[1])
		px, py := ex.pointXY(w, a[2])
		if px.isNil() || py.isNil() {
			unsupported("multiple of the point at infinity")
		}
		s := ex.pointScalar(w, ex.bigGet(w, px), ex.bigGet(w, py), ci)
		if !ci.std || ci.nb != 256 || s == nil {
			// not a multiple of G on secp256k1: uninterpreted
			nm := "smul" + ci.sfx + fmt.Sprint(ci.nb)
			args := []*Term{fit(n.mag, 512), ex.modP(ex.bigGet(w, px)), ex.modP(ex.bigGet(w, py))}
			if n.mag.w > 512 {
				unsupported("scalar")
			}
			in := []int{512, 256, 256}
			declUF(nm+"_x", in, 256, nil, nil)
			declUF(nm+"_y", in, 256, nil, nil)
			declUF(nm+"_on", in, 0, nil, nil)
			ex.note("multiple of a point not shown to be on secp256k1: uninterpreted")
			pt := ex.mkPoint(w, ex.newBig(w, mkBig(TFalse, App(nm+"_x", args...))), ex.newBig(w, mkBig(TFalse, App(nm+"_y", args...))))
			return ret1(w, TupleV{ex.pointPtr(w, pt), App(nm+"_on", args...)})
		}
		// only the low 256 bits of n (two's complement) are used
		m := fit(n.mag, max(n.mag.w, 256))
		m = Extract(255, 0, m)
		if n.neg != TFalse {
			m = Ite(n.neg, Neg(m), m)
		}
		N := Const(curveN, 256)
		var out []Outcome
		cur := w
		// the ladder meets opposite points exactly for n-1 and n
		bad, rest := ex.split(cur, Or(Eq(m, N), Eq(m, Const(new(big.Int).Sub(curveN, bigOne), 256))))
		if bad != nil {
			bad.sink++
			out = append(out, Outcome{w: bad, kind: oExit, msg: "log.Fatal (Not supported) in the ladder"})
		}
		if rest == nil {
			return out
		}
		z, rest := ex.split(rest, Eq(m, Const(bigZero, 256)))
		if z != nil {
			out = append(out, Outcome{w: z, kind: oRet, ret: TupleV{ex.pointPtr(z, ex.mkPoint(z, Ptr{}, Ptr{})), TFalse}})
		}
		if rest == nil {
			return out
		}
		one, rest := ex.split(rest, Eq(m, Const(bigOne, 256)))
		if one != nil {
			// the operand's own coordinates
			out = append(out, Outcome{w: one, kind: oRet, ret: TupleV{ex.pointPtr(one, ex.mkPoint(one, px, py)), TTrue}})
		}
		if rest == nil {
			return out
		}
		var k *Term
		if s.isConst() && s.val.Cmp(bigOne) == 0 {
			k = w256(bigMod(mkBig(TFalse, m), constBig(curveN)).mag)
			if ex.implied(rest, Ult(m, N)) {
				k = m
			}
		} else {
			k = w256(bigMod(bigMul(mkBig(TFalse, m), mkBig(TFalse, s)), constBig(curveN)).mag)
			rest.assume(Not(Eq(k, Const(bigZero, 256))))
		}
		out = append(out, Outcome{w: rest, kind: oRet, ret: TupleV{ex.pointPtr(rest, ex.basePoint(rest, k)), TTrue}})
		return out
	})
}
