package main

// Digits of a symbolic number without leading zeros: the length depends on
// the number. Such a string stays whole ("num" atom) while a program only
// measures, extends or returns it; anything else splits on its length.

import (
	"go/token"
	"go/types"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

func (s Str) hasNum() bool {
	for _, g := range s.segs {
		if g.atom != nil && g.atom.kind == "num" {
			return true
		}
	}
	return false
}

func unitOf(base int) int { return map[int]int{2: 1, 4: 2, 8: 3, 16: 4}[base] }

// numCount: the number of digits of v
func numCount(base int, v *bigInt) int { return len(v.Text(base)) }

func numMax(a *Atom) int { return numCount(a.base, a.idx.UB()) }

// numFits: at most k digits
func numFits(a *Atom, k int) *Term {
	if a.base != 10 {
		return fitsIn(a.idx, k*unitOf(a.base))
	}
	lim := new(bigInt).Exp(big.NewInt(10), big.NewInt(int64(k)), nil)
	if lim.Cmp(a.idx.UB()) > 0 {
		return TTrue
	}
	return ultWhole(a.idx, Const(lim, a.idx.w))
}

func fitsIn(mag *Term, bits int) *Term {
	if bits >= mag.w {
		return TTrue
	}
	return ultWhole(mag, Const(pow2(bits), mag.w))
}

func numLen(a *Atom, plus int) *Term {
	mx := numMax(a)
	if a.idx.w <= domMax && plus+mx < 256 {
		vals := make([]*bigInt, 1<<uint(a.idx.w))
		for i := range vals {
			vals[i] = big.NewInt(int64(numCount(a.base, big.NewInt(int64(i))) + plus))
		}
		return fit(Lookup(vals, 8, a.idx), 64)
	}
	var conds []*Term
	vals := []*Term{ConstU(uint64(1+plus), 64)}
	for k := 2; k <= mx; k++ {
		c := numFits(a, k-1)
		if c == TTrue {
			break
		}
		v := ConstU(uint64(k+plus), 64)
		if c == TFalse {
			conds, vals = nil, []*Term{v}
			continue
		}
		conds, vals = append(conds, c), append(vals, v)
	}
	return newChain(conds, vals)
}

// digitsOf: exactly n digits
func digitsOf(mag *Term, base int, up bool, n int) Str {
	u := unitOf(base)
	b := make([]*Term, n)
	for i := 0; i < n; i++ {
		d := fit(LshrC(fit(mag, max(mag.w, u*(i+1))), u*i), u)
		switch {
		case base == 2:
			b[n-1-i] = BitChr(d)
		case up:
			b[n-1-i] = HexUp(fit(d, 4))
		default:
			b[n-1-i] = HexLo(fit(d, 4))
		}
	}
	return bytesStr(b)
}

// normNum replaces the numbers whose length the path condition fixes
func normNum(w *World, s Str) Str {
	var out Str
	for _, g := range s.segs {
		if g.atom == nil || g.atom.kind != "num" {
			out = out.concat(Str{[]Seg{g}})
			continue
		}
		a := g.atom
		n := 0
		if a.idx.isConst() {
			t := a.idx.val.Text(a.base)
			if a.up {
				t = upperASCII(t)
			}
			out = out.concat(constStr(t))
			continue
		} else if a.base != 10 {
			u := unitOf(a.base)
			for k := numMax(a); k >= 1; k-- {
				if d := w.pc.decide(fitsIn(a.idx, k*u)); d != 1 {
					break
				}
				if k == 1 || w.pc.decide(fitsIn(a.idx, (k-1)*u)) == -1 {
					n = k
					break
				}
			}
		}
		if n > 0 {
			out = out.concat(digitsOf(a.idx, a.base, a.up, n))
		} else {
			out = out.concat(Str{[]Seg{g}})
		}
	}
	return out
}

// splitNum: all lengths of the first number of unknown length
func (ex *Exec) splitNum(w *World, s Str) []strW {
	s = normNum(w, s)
	for i, g := range s.segs {
		if g.atom == nil || g.atom.kind != "num" {
			continue
		}
		a := g.atom
		if a.base == 10 {
			unsupported("decimal digits of a large symbolic number")
		}
		u := unitOf(a.base)
		var out []strW
		cur := w
		mx := numMax(a)
		for n := mx; n >= 1 && cur != nil; n-- {
			put := func(w *World, n int) {
				var o Str
				o.segs = append(o.segs, s.segs[:i]...)
				o = o.concat(digitsOf(a.idx, a.base, a.up, n))
				o = o.concat(Str{append([]Seg(nil), s.segs[i+1:]...)})
				out = append(out, ex.splitNum(w, o)...)
			}
			if n == 1 {
				put(cur, 1)
				break
			}
			f, t := ex.split(cur, fitsIn(a.idx, (n-1)*u))
			if t != nil {
				put(t, n)
			}
			cur = f
		}
		return out
	}
	return []strW{{s, w}}
}

// resolveNums: does the instruction need to know the characters of an
// operand? Then s is replaced by one state per length.
func (r *runCtx) resolveNums(s *FState, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Extract:
		return false
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return false
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, ok := r.val(s, x.X).(Str)
			b, ok2 := r.val(s, x.Y).(Str)
			if ok && ok2 && (a.hasNum() || b.hasNum()) && numEq(a, b) != nil {
				return false
			}
		}
	case *ssa.Store, *ssa.MakeInterface, *ssa.TypeAssert:
		return false
	case *ssa.MapUpdate:
		if r.numKey(s, x.Map, x.Key) {
			return false
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && r.numKey(s, x.X, x.Index) {
			return false
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" {
				return false
			}
			if b.Name() == "delete" && r.numKey(s, x.Call.Args[0], x.Call.Args[1]) {
				return false
			}
		}
		if fn := x.Call.StaticCallee(); fn != nil && len(fn.Blocks) > 0 && modelTable[fnName(fn)] == nil && (fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" || intrinsics[fn.Name()] == nil) {
			return false
		}
	}
	var ops [12]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		k, ok := r.fi.reg[*o]
		if !ok {
			continue
		}
		st, ok := s.regs[k].(Str)
		if !ok || !st.hasNum() {
			continue
		}
		vs := r.ex.splitNum(s.w, st)
		if len(vs) == 1 {
			s.w = vs[0].w
			s.regs[k] = vs[0].s
			continue
		}
		for _, v := range vs {
			n := &FState{w: v.w, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip, iters: s.iters, defers: s.defers}
			n.regs[k] = v.s
			r.work = append(r.work, n)
		}
		return true
	}
	return false
}

func fixedDigits(f fmtSpec, sign string) int {
	if f.sharp || f.minus {
		return 0
	}
	if f.prec >= 0 {
		if f.wid > f.prec+len(sign) {
			return 0
		}
		return f.prec
	}
	if f.zero && f.wid > len(sign) {
		return f.wid - len(sign)
	}
	return 0
}

var traceFn = os.Getenv("SYM_TRACE")

// numKey: can the key be compared with those of the map as it is?
func (r *runCtx) numKey(s *FState, m, k ssa.Value) bool {
	mv, ok := r.val(s, m).(MapV)
	if !ok {
		return false
	}
	key, ok := r.val(s, k).(Str)
	if !ok || mv.obj == 0 {
		return true
	}
	for _, e := range s.w.get(mv.obj).val.(MapC).ents {
		o, ok := e.k.(Str)
		if ok && (key.hasNum() || o.hasNum()) && numEq(key, o) == nil {
			return false
		}
	}
	return true
}

func (g Seg) text() int {
	if g.b != nil {
		return len(g.b)
	}
	return len(g.lit)
}

func (g Seg) at(i int) *Term {
	if g.b != nil {
		return g.b[i]
	}
	return ConstU(uint64(g.lit[i]), 8)
}

// numItems: the characters and numbers of a string, one after the other
type numItem struct {
	ch  *Term
	num *Atom
}

func numItems(s Str) ([]numItem, bool) {
	var r []numItem
	for _, g := range s.segs {
		if g.atom != nil {
			if g.atom.kind != "num" {
				return nil, false
			}
			r = append(r, numItem{num: g.atom})
			continue
		}
		for i, n := 0, g.text(); i < n; i++ {
			r = append(r, numItem{ch: g.at(i)})
		}
	}
	return r, true
}

func isDigit(c byte, base int) bool {
	switch {
	case c >= '0' && c <= '9':
		return int(c-'0') < base
	case c >= 'a' && c <= 'f', c >= 'A' && c <= 'F':
		return base == 16
	}
	return false
}

// numEq: are two strings with numbers of unknown length the same? nil when
// that cannot be said without their characters.
func numEq(a, b Str) *Term {
	x, ok := numItems(a)
	y, ok2 := numItems(b)
	if !ok || !ok2 {
		return nil
	}
	var cs []*Term
	eq := func(p, q *Term) bool {
		e := Eq(p, q)
		cs = append(cs, e)
		return e != TFalse
	}
	for len(x) > 0 && len(y) > 0 && x[0].ch != nil && y[0].ch != nil {
		if !eq(x[0].ch, y[0].ch) {
			return TFalse
		}
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && x[len(x)-1].ch != nil && y[len(y)-1].ch != nil {
		if !eq(x[len(x)-1].ch, y[len(y)-1].ch) {
			return TFalse
		}
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	if len(x) == 0 || len(y) == 0 {
		if len(x)+len(y) > 0 {
			return TFalse
		}
		return And(cs...)
	}
	for len(x) > 0 && len(y) > 0 {
		if x[0].num == nil {
			x, y = y, x
		}
		n := x[0].num
		if n == nil {
			if !eq(x[0].ch, y[0].ch) {
				return TFalse
			}
			x, y = x[1:], y[1:]
			continue
		}
		// the digits end where the string does or at another character
		end := func(r []numItem) bool {
			return len(r) == 0 || r[0].ch != nil && r[0].ch.isConst() && !isDigit(byte(r[0].ch.val.Uint64()), n.base)
		}
		if !end(x[1:]) {
			return nil
		}
		if m := y[0].num; m != nil {
			if m.base != n.base || m.up != n.up || !end(y[1:]) {
				return nil
			}
			w := max(n.idx.w, m.idx.w)
			if !eq(fit(n.idx, w), fit(m.idx, w)) {
				return TFalse
			}
			x, y = x[1:], y[1:]
			continue
		}
		txt := ""
		for len(y) > 0 && y[0].ch != nil {
			if !y[0].ch.isConst() {
				return nil
			}
			c := byte(y[0].ch.val.Uint64())
			if !isDigit(c, n.base) {
				break
			}
			txt += string(rune(c))
			y = y[1:]
		}
		if len(y) > 0 && y[0].num != nil {
			return nil
		}
		v, ok := new(bigInt).SetString(txt, n.base)
		if !ok {
			return TFalse
		}
		t := v.Text(n.base)
		if n.up {
			t = upperASCII(t)
		}
		if t != txt || v.BitLen() > n.idx.w {
			return TFalse
		}
		if !eq(n.idx, Const(v, n.idx.w)) {
			return TFalse
		}
		x = x[1:]
	}
	if len(x)+len(y) > 0 {
		return TFalse
	}
	return And(cs...)
}
