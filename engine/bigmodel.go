package main

// Models of math/big: arbitrary-precision integers as sign and magnitude
// bit-vectors wide enough for every operation (no wrap-around).

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(ex *Exec, w *World, fn *ssa.Function, args []Value) []Outcome

var modelTable = map[string]modelFn{}

func model(name string, f modelFn) { modelTable[name] = f }

func (ex *Exec) bigGet(w *World, v Value) BigV {
	p, ok := v.(Ptr)
	if !ok {
		unsupported("big.Int operand %T", v)
	}
	if p.isNil() {
		panic(goPanic{"nil pointer dereference"})
	}
	b, ok := ex.load(w, p).(BigV)
	if !ok {
		unsupported("not a big.Int")
	}
	return b
}

func trim(t *Term) *Term {
	n := t.UB().BitLen()
	if n < 8 {
		n = 8
	}
	if n < t.w {
		return Extract(n-1, 0, t)
	}
	return t
}

func mkBig(neg, mag *Term) BigV {
	mag = trim(mag)
	if neg != TFalse {
		neg = And(neg, Not(Eq(mag, Const(bigZero, mag.w))))
	}
	return BigV{neg, mag}
}

func (ex *Exec) bigSet(w *World, v Value, b BigV) []Outcome {
	p := v.(Ptr)
	if p.isNil() {
		panic(goPanic{"nil pointer dereference"})
	}
	ex.store(w, p, b)
	return ret1(w, v)
}

func (ex *Exec) newBig(w *World, b BigV) Ptr {
	t := ex.bigType()
	return Ptr{obj: w.alloc(t, b)}
}

func (ex *Exec) bigType() types.Type {
	return ex.prog.ImportedPackage("math/big").Type("Int").Type()
}

func constBig(x *big.Int) BigV {
	m := new(big.Int).Abs(x)
	n := m.BitLen()
	if n < 8 {
		n = 8
	}
	return BigV{Bool(x.Sign() < 0), Const(m, n)}
}

func (b BigV) konst() *big.Int {
	if b.mag.isConst() && b.neg.isLit() {
		if b.neg == TTrue {
			return new(big.Int).Neg(b.mag.val)
		}
		return b.mag.val
	}
	return nil
}

func same(a, b *Term) (*Term, *Term) {
	w := max(a.w, b.w)
	return fit(a, w), fit(b, w)
}

func bigAdd(a, b BigV) BigV {
	w := max(a.mag.w, b.mag.w) + 1
	if a.neg == TFalse && b.neg == TFalse {
		return mkBig(TFalse, Add(fit(a.mag, w), fit(b.mag, w)))
	}
	x, y := fit(a.mag, w), fit(b.mag, w)
	sameSign := Eq(a.neg, b.neg)
	lt := Ult(x, y)
	sum := Add(x, y)
	d1, d2 := Sub(x, y), Sub(y, x)
	mag := Ite(sameSign, sum, Ite(lt, d2, d1))
	neg := Ite(sameSign, a.neg, Ite(lt, b.neg, a.neg))
	if sameSign == TFalse {
		// difference: bounded by the larger operand
		r := mkBig(neg, mag)
		m := a.mag.UB()
		if b.mag.UB().Cmp(m) > 0 {
			m = b.mag.UB()
		}
		if n := max(8, m.BitLen()); n < r.mag.w {
			r.mag = Extract(n-1, 0, r.mag)
		}
		return r
	}
	return mkBig(neg, mag)
}

func bigNeg(a BigV) BigV { return mkBig(Not(a.neg), a.mag) }

// difference where the sign is known from the path
func (ex *Exec) bigSub(w *World, a, b BigV) BigV {
	if a.neg == TFalse && b.neg == TFalse {
		x, y := same(a.mag, b.mag)
		le := Not(Ult(x, y))
		if le == TTrue || ex.implied(w, le) {
			r := Sub(x, y)
			if a.mag.isConst() {
				setUB(r, a.mag.val)
			}
			return mkBig(TFalse, r)
		}
		if ex.implied(w, Not(le)) {
			return mkBig(TTrue, Sub(y, x))
		}
		lt := Ult(x, y)
		return mkBig(lt, Ite(lt, Sub(y, x), Sub(x, y)))
	}
	return bigAdd(a, bigNeg(b))
}

func bigMul(a, b BigV) BigV {
	w := a.mag.w + b.mag.w
	return mkBig(Not(Eq(a.neg, b.neg)), Mul(fit(a.mag, w), fit(b.mag, w)))
}

func cmpMag(a, b *Term) (lt, eq *Term) {
	x, y := same(a, b)
	return Ult(x, y), Eq(x, y)
}

func bigCmp(a, b BigV) *Term {
	lt, eq := cmpMag(a.mag, b.mag)
	m1, z, p1 := ConstI(-1, 64), ConstI(0, 64), ConstI(1, 64)
	pos := Ite(lt, m1, Ite(eq, z, p1))
	if a.neg == TFalse && b.neg == TFalse {
		return pos
	}
	neg := Ite(lt, p1, Ite(eq, z, m1))
	return Ite(a.neg, Ite(b.neg, neg, m1), Ite(b.neg, p1, pos))
}

// bigMod: Euclidean modulus
func bigMod(a, b BigV) BigV {
	x, y := same(a.mag, b.mag)
	r := Urem(x, y)
	if a.neg == TFalse {
		return mkBig(TFalse, r)
	}
	z := Eq(r, Const(bigZero, r.w))
	d := Sub(y, r)
	if y.isConst() {
		return mkBig(TFalse, setUB2(Ite(And(a.neg, Not(z)), d, r), new(big.Int).Sub(y.val, bigOne)))
	}
	return mkBig(TFalse, Ite(And(a.neg, Not(z)), d, r))
}

func setUB2(t *Term, ub *big.Int) *Term {
	if t.op == OApp || t.op == OVar || t.op == OConst {
		return t
	}
	return setUB(t, ub)
}

type lenW struct {
	n int
	w *World
}

// forkLen splits on the number of units (of bits each) needed for mag
func (ex *Exec) forkLen(w *World, mag *Term, unit int) []lenW {
	var out []lenW
	mx := (mag.UB().BitLen() + unit - 1) / unit
	cur := w
	for n := 0; n <= mx && cur != nil; n++ {
		if n == mx {
			out = append(out, lenW{n, cur})
			break
		}
		// fits in n units
		lim := pow2(n * unit)
		c := Ult(mag, Const(lim, mag.w))
		if n == 0 {
			c = Eq(mag, Const(bigZero, mag.w))
		}
		t, f := ex.split(cur, c)
		if t != nil {
			out = append(out, lenW{n, t})
		}
		cur = f
	}
	// longest first: the others are padded versions of it
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func nibble(t *Term, i int) *Term { return Extract(4*i+3, 4*i, fit(t, max(t.w, 4*i+4))) }

// bigDigits: digits without leading zeros, one per length
func (ex *Exec) bigDigits(w *World, mag *Term, base int, upper bool, lazy bool) []strW {
	if mag.isConst() {
		s := mag.val.Text(base)
		if upper {
			s = upperASCII(s)
		}
		return []strW{{constStr(s), w}}
	}
	unit := 0
	switch base {
	case 16:
		unit = 4
	case 2:
		unit = 1
	case 8:
		unit = 3
	case 4:
		unit = 2
	case 32:
		unit = 5
	default:
		if u := mag.UB(); lazy && base == 10 && (!u.IsInt64() || u.Int64() > 4095) {
			ex.anyNum = true
			return []strW{{Str{[]Seg{{atom: &Atom{kind: "num", idx: mag, base: 10}}}}, w}}
		}
		return ex.smallDecimal(w, mag, base)
	}
	if lazy && (mag.UB().BitLen()+unit-1)/unit > 2 && base != 32 {
		at := &Atom{kind: "num", idx: mag, base: base, up: upper}
		ex.anyNum = true
		return []strW{{normNum(w, Str{[]Seg{{atom: at}}}), w}}
	}
	var out []strW
	for _, l := range ex.forkLen(w, mag, unit) {
		n := max(l.n, 1)
		b := make([]*Term, n)
		for i := 0; i < n; i++ {
			d := fit(LshrC(fit(mag, max(mag.w, unit*(i+1))), unit*i), unit)
			var c *Term
			switch {
			case l.n == 0:
				c = ConstU('0', 8)
			case base == 2:
				c = BitChr(d)
			case upper:
				c = HexUp(fit(d, 4))
			case base == 32:
				c = Lookup(charTable("0123456789abcdefghijklmnopqrstuv"), 8, d)
			default:
				c = HexLo(fit(d, 4))
			}
			b[n-1-i] = c
		}
		out = append(out, strW{bytesStr(b), l.w})
	}
	return out
}

func charTable(s string) []*big.Int {
	r := make([]*big.Int, len(s))
	for i := range r {
		r[i] = big.NewInt(int64(s[i]))
	}
	return r
}

func upperASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func (ex *Exec) smallDecimal(w *World, mag *Term, base int) []strW {
	u := mag.UB()
	if !u.IsInt64() || u.Int64() > 4095 {
		unsupported("decimal digits of a large symbolic number")
	}
	n := int(u.Int64()) + 1
	byLen := map[int]bool{}
	strs := make([]string, n)
	for i := range strs {
		strs[i] = big.NewInt(int64(i)).Text(base)
		byLen[len(strs[i])] = true
	}
	mag = trim(mag)
	lens := make([]*big.Int, n)
	for i := range lens {
		lens[i] = big.NewInt(int64(len(strs[i])))
	}
	var out []strW
	for _, c := range ex.concretize(w, Lookup(lens, 8, mag), 20) {
		l := int(c.v.Int64())
		b := make([]*Term, l)
		for k := range b {
			col := make([]*big.Int, n)
			for i := range col {
				col[i] = bigZero
				if len(strs[i]) == l {
					col[i] = big.NewInt(int64(strs[i][k]))
				}
			}
			b[k] = Lookup(col, 8, mag)
		}
		out = append(out, strW{bytesStr(b), c.w})
	}
	return out
}

// withSign prefixes '-' for negative numbers
func (ex *Exec) bigText(w *World, b BigV, base int, upper bool, lazy bool) []strW {
	var out []strW
	pw, nw := w, (*World)(nil)
	if b.neg != TFalse {
		nw, pw = ex.split(w, b.neg)
	}
	if pw != nil {
		out = append(out, ex.bigDigits(pw, b.mag, base, upper, lazy)...)
	}
	if nw != nil {
		for _, s := range ex.bigDigits(nw, b.mag, base, upper, false) {
			out = append(out, strW{constStr("-").concat(s.s), s.w})
		}
	}
	return out
}

func strOuts(ss []strW) []Outcome {
	var out []Outcome
	for _, s := range ss {
		out = append(out, Outcome{w: s.w, kind: oRet, ret: s.s})
	}
	return out
}

type numParse struct {
	w   *World
	ok  bool
	val BigV
}

// parseInt: the syntax accepted by (*big.Int).SetString
func (ex *Exec) parseBig(w *World, s Str, base int) []numParse {
	if c, ok := s.isConst(); ok {
		v, ok := new(big.Int).SetString(c, base)
		if !ok {
			return []numParse{{w: w}}
		}
		return []numParse{{w, true, constBig(v)}}
	}
	if s.hasAtom() {
		unsupported("number parsed from an opaque string")
	}
	if base < 2 || base > 36 {
		unsupported("SetString base %d on symbolic text", base)
	}
	b := s.bytes()
	if len(b) == 0 {
		return []numParse{{w: w}}
	}
	var out []numParse
	body := func(w *World, d []*Term, neg *Term) {
		if len(d) == 0 {
			out = append(out, numParse{w: w})
			return
		}
		ok := TTrue
		vals := make([]*Term, len(d))
		for i, c := range d {
			o, v := digitOf(c, base)
			ok = And(ok, o)
			vals[i] = v
		}
		t, f := ex.split(w, ok)
		if f != nil {
			out = append(out, numParse{w: f})
		}
		if t == nil {
			return
		}
		var mag *Term
		switch base {
		case 16, 2, 4, 8, 32:
			k := map[int]int{2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[base]
			parts := make([]*Term, len(vals))
			for i, v := range vals {
				parts[i] = fit(v, k)
			}
			mag = Concat(parts...)
			if mag.w < 8 {
				mag = fit(mag, 8)
			}
		default:
			wd := new(big.Int).Exp(big.NewInt(int64(base)), big.NewInt(int64(len(d))), nil).BitLen() + 1
			if wd < 8 {
				wd = 8
			}
			mag = Const(bigZero, wd)
			for _, v := range vals {
				mag = Add(Mul(mag, ConstU(uint64(base), wd)), fit(v, wd))
			}
		}
		out = append(out, numParse{t, true, mkBig(neg, mag)})
	}
	minus, plus := Eq(b[0], ConstU('-', 8)), Eq(b[0], ConstU('+', 8))
	mw, rest := ex.split(w, minus)
	if mw != nil {
		body(mw, b[1:], TTrue)
	}
	if rest != nil {
		pw, r2 := ex.split(rest, plus)
		if pw != nil {
			body(pw, b[1:], TFalse)
		}
		if r2 != nil {
			body(r2, b, TFalse)
		}
	}
	return out
}

func intConst(v Value) (int64, bool) {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		return 0, false
	}
	s := t.signed()
	if !s.IsInt64() {
		return 0, false
	}
	return s.Int64(), true
}

func mustInt(v Value) int64 {
	n, ok := intConst(v)
	if !ok {
		unsupported("symbolic integer argument")
	}
	return n
}

func init() {
	M := func(name string, f func(ex *Exec, w *World, a []Value) []Outcome) {
		model("(*math/big.Int)."+name, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome { return f(ex, w, a) })
	}
	model("math/big.NewInt", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		return ret1(w, ex.newBig(w, bigFromInt(a[0].(*Term), true)))
	})
	M("Set", func(ex *Exec, w *World, a []Value) []Outcome { return ex.bigSet(w, a[0], ex.bigGet(w, a[1])) })
	M("SetInt64", func(ex *Exec, w *World, a []Value) []Outcome {
		return ex.bigSet(w, a[0], bigFromInt(a[1].(*Term), true))
	})
	M("SetUint64", func(ex *Exec, w *World, a []Value) []Outcome {
		return ex.bigSet(w, a[0], bigFromInt(a[1].(*Term), false))
	})
	M("SetBytes", func(ex *Exec, w *World, a []Value) []Outcome {
		b := ex.sliceBytes(w, a[1].(SliceV))
		if len(b) == 0 {
			return ex.bigSet(w, a[0], BigV{TFalse, ConstU(0, 8)})
		}
		return ex.bigSet(w, a[0], mkBig(TFalse, bytesTerm(b)))
	})
	M("Add", func(ex *Exec, w *World, a []Value) []Outcome {
		return ex.bigSet(w, a[0], bigAdd(ex.bigGet(w, a[1]), ex.bigGet(w, a[2])))
	})
	M("Sub", func(ex *Exec, w *World, a []Value) []Outcome {
		return ex.bigSet(w, a[0], ex.bigSub(w, ex.bigGet(w, a[1]), ex.bigGet(w, a[2])))
	})
	M("Mul", func(ex *Exec, w *World, a []Value) []Outcome {
		return ex.bigSet(w, a[0], bigMul(ex.bigGet(w, a[1]), ex.bigGet(w, a[2])))
	})
	M("Neg", func(ex *Exec, w *World, a []Value) []Outcome { return ex.bigSet(w, a[0], bigNeg(ex.bigGet(w, a[1]))) })
	M("Abs", func(ex *Exec, w *World, a []Value) []Outcome {
		return ex.bigSet(w, a[0], BigV{TFalse, ex.bigGet(w, a[1]).mag})
	})
	M("Cmp", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, bigCmp(ex.bigGet(w, a[0]), ex.bigGet(w, a[1])))
	})
	M("CmpAbs", func(ex *Exec, w *World, a []Value) []Outcome {
		x, y := ex.bigGet(w, a[0]), ex.bigGet(w, a[1])
		return ret1(w, bigCmp(BigV{TFalse, x.mag}, BigV{TFalse, y.mag}))
	})
	M("Sign", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		return ret1(w, Ite(Eq(x.mag, Const(bigZero, x.mag.w)), ConstI(0, 64), Ite(x.neg, ConstI(-1, 64), ConstI(1, 64))))
	})
	M("IsInt64", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		m := fit(x.mag, max(x.mag.w, 65))
		return ret1(w, Or(Ult(m, Const(pow2(63), m.w)), And(x.neg, Eq(m, Const(pow2(63), m.w)))))
	})
	M("IsUint64", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		m := fit(x.mag, max(x.mag.w, 65))
		return ret1(w, And(Not(x.neg), Ult(m, Const(pow2(64), m.w))))
	})
	M("Int64", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		m := fit(x.mag, 64)
		return ret1(w, Ite(x.neg, Neg(m), m))
	})
	M("Uint64", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		return ret1(w, fit(x.mag, 64))
	})
	M("BitLen", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		if x.mag.isConst() {
			return ret1(w, ConstU(uint64(x.mag.val.BitLen()), 64))
		}
		r := ConstU(uint64(x.mag.w), 64)
		for n := x.mag.w - 1; n >= 0; n-- {
			c := Eq(x.mag, Const(bigZero, x.mag.w))
			if n > 0 {
				c = Ult(x.mag, Const(pow2(n), x.mag.w))
			}
			r = Ite(c, ConstU(uint64(n), 64), r)
		}
		return ret1(w, r)
	})
	M("TrailingZeroBits", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		r := ConstU(0, 64)
		for n := x.mag.w - 1; n >= 0; n-- {
			r = Ite(Eq(Extract(n, n, x.mag), ConstU(1, 1)), ConstU(uint64(n), 64), r)
		}
		return ret1(w, r)
	})
	M("Bit", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		var out []Outcome
		for _, c := range ex.concretize(w, a[1].(*Term), 600) {
			i := int(c.v.Int64())
			if c.v.BitLen() > 62 {
				return []Outcome{{w: c.w, kind: oPanic, msg: "negative bit index"}}
			}
			m := x.mag
			if i >= m.w {
				out = append(out, Outcome{w: c.w, kind: oRet, ret: Ite(x.neg, ConstU(1, 64), ConstU(0, 64))})
				continue
			}
			v := Zext(Extract(i, i, m), 64)
			if x.neg != TFalse {
				t := Neg(m)
				v = Ite(x.neg, Zext(Extract(i, i, t), 64), v)
			}
			out = append(out, Outcome{w: c.w, kind: oRet, ret: v})
		}
		return out
	})
	M("SetBit", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[1])
		if x.neg != TFalse {
			unsupported("SetBit on a negative number")
		}
		i := int(mustInt(a[2]))
		wd := max(x.mag.w, i+1)
		m := fit(x.mag, wd)
		bit := a[3].(*Term)
		one := Const(pow2(i), wd)
		set := Eq(Extract(0, 0, bit), ConstU(1, 1))
		return ex.bigSet(w, a[0], mkBig(TFalse, Ite(set, BOr(m, one), BAnd(m, BNot(one)))))
	})
	M("Bytes", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		var out []Outcome
		for _, l := range ex.forkLen(w, x.mag, 8) {
			if l.n == 0 {
				out = append(out, Outcome{w: l.w, kind: oRet, ret: ex.mkBytes(l.w, nil)})
				continue
			}
			out = append(out, Outcome{w: l.w, kind: oRet, ret: ex.mkBytes(l.w, termBytes(fit(x.mag, 8*l.n)))})
		}
		return out
	})
	M("FillBytes", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[0])
		sl := a[1].(SliceV)
		n := sl.len
		var out []Outcome
		if x.mag.UB().BitLen() > 8*n {
			c := Eq(x.mag, Const(bigZero, x.mag.w))
			if n > 0 {
				c = Ult(x.mag, Const(pow2(8*n), x.mag.w))
			}
			t, f := ex.split(w, c)
			if f != nil {
				out = append(out, Outcome{w: f, kind: oPanic, msg: "math/big: buffer too small to fit value"})
			}
			if t == nil {
				return out
			}
			w = t
		}
		if n > 0 {
			o := w.writable(sl.obj)
			for i, b := range termBytes(fit(x.mag, 8*n)) {
				o.val = storePath(o.val, append(append([]PElem(nil), sl.path...), PElem{k: sl.off + i}), b, i > 0 && len(sl.path) == 0)
			}
		}
		return append(out, Outcome{w: w, kind: oRet, ret: sl})
	})
	M("SetString", func(ex *Exec, w *World, a []Value) []Outcome {
		base := int(mustInt(a[2]))
		var out []Outcome
		for _, p := range ex.parseBig(w, a[1].(Str), base) {
			if !p.ok {
				out = append(out, Outcome{w: p.w, kind: oRet, ret: TupleV{Ptr{}, TFalse}})
				continue
			}
			ex.bigSet(p.w, a[0], p.val)
			out = append(out, Outcome{w: p.w, kind: oRet, ret: TupleV{a[0], TTrue}})
		}
		return out
	})
	M("Text", func(ex *Exec, w *World, a []Value) []Outcome {
		if a[0].(Ptr).isNil() {
			return ret1(w, constStr("<nil>"))
		}
		return strOuts(ex.bigText(w, ex.bigGet(w, a[0]), int(mustInt(a[1])), false, true))
	})
	M("String", func(ex *Exec, w *World, a []Value) []Outcome {
		if a[0].(Ptr).isNil() {
			return ret1(w, constStr("<nil>"))
		}
		return strOuts(ex.bigText(w, ex.bigGet(w, a[0]), 10, false, false))
	})
	M("Append", func(ex *Exec, w *World, a []Value) []Outcome {
		var out []Outcome
		pre := ex.sliceStr(w, a[1].(SliceV))
		for _, s := range ex.bigText(w, ex.bigGet(w, a[0]), int(mustInt(a[2])), false, false) {
			out = append(out, Outcome{w: s.w, kind: oRet, ret: ex.mkBytes(s.w, pre.concat(s.s).bytes())})
		}
		return out
	})
	divs := func(f func(ex *Exec, w *World, a []Value, x, y BigV) Value) func(ex *Exec, w *World, a []Value) []Outcome {
		return func(ex *Exec, w *World, a []Value) []Outcome {
			k := 1
			x, y := ex.bigGet(w, a[k]), ex.bigGet(w, a[k+1])
			t, z := ex.split(w, Not(Eq(y.mag, Const(bigZero, y.mag.w))))
			var out []Outcome
			if z != nil {
				out = append(out, Outcome{w: z, kind: oPanic, msg: "division by zero"})
			}
			if t != nil {
				out = append(out, Outcome{w: t, kind: oRet, ret: f(ex, t, a, x, y)})
			}
			return out
		}
	}
	quo := func(x, y BigV) BigV {
		p, q := same(x.mag, y.mag)
		return mkBig(Not(Eq(x.neg, y.neg)), Udiv(p, q))
	}
	rem := func(x, y BigV) BigV {
		p, q := same(x.mag, y.mag)
		return mkBig(x.neg, Urem(p, q))
	}
	divE := func(x, y BigV) BigV {
		if x.neg != TFalse {
			if k := x.konst(); k != nil {
				if j := y.konst(); j != nil {
					return constBig(new(big.Int).Div(k, j))
				}
			}
			unsupported("Euclidean division of a negative symbolic number")
		}
		return quo(x, y)
	}
	M("Mod", divs(func(ex *Exec, w *World, a []Value, x, y BigV) Value { ex.bigSet(w, a[0], bigMod(x, y)); return a[0] }))
	M("Rem", divs(func(ex *Exec, w *World, a []Value, x, y BigV) Value { ex.bigSet(w, a[0], rem(x, y)); return a[0] }))
	M("Quo", divs(func(ex *Exec, w *World, a []Value, x, y BigV) Value { ex.bigSet(w, a[0], quo(x, y)); return a[0] }))
	M("Div", divs(func(ex *Exec, w *World, a []Value, x, y BigV) Value { ex.bigSet(w, a[0], divE(x, y)); return a[0] }))
	M("DivMod", divs(func(ex *Exec, w *World, a []Value, x, y BigV) Value {
		q, m := divE(x, y), bigMod(x, y)
		ex.bigSet(w, a[0], q)
		ex.bigSet(w, a[3], m)
		return TupleV{a[0], a[3]}
	}))
	M("QuoRem", divs(func(ex *Exec, w *World, a []Value, x, y BigV) Value {
		q, m := quo(x, y), rem(x, y)
		ex.bigSet(w, a[0], q)
		ex.bigSet(w, a[3], m)
		return TupleV{a[0], a[3]}
	}))
	M("Exp", func(ex *Exec, w *World, a []Value) []Outcome {
		x, y := ex.bigGet(w, a[1]), ex.bigGet(w, a[2])
		var m *BigV
		if p := a[3].(Ptr); !p.isNil() {
			v := ex.bigGet(w, p)
			if k := v.konst(); k == nil {
				unsupported("Exp with a symbolic modulus")
			} else if k.Sign() != 0 {
				m = &v
			}
		}
		yk := y.konst()
		if yk == nil {
			unsupported("Exp with a symbolic exponent")
		}
		if xk := x.konst(); xk != nil {
			var mk *big.Int
			if m != nil {
				mk = m.konst()
			}
			r := new(big.Int).Exp(xk, yk, mk)
			if r == nil {
				unsupported("Exp")
			}
			return ex.bigSet(w, a[0], constBig(r))
		}
		if yk.Sign() >= 0 && yk.Cmp(big.NewInt(8)) <= 0 {
			r := constBig(bigOne)
			for i := int64(0); i < yk.Int64(); i++ {
				r = bigMul(r, x)
				if m != nil {
					r = bigMod(r, *m)
				}
			}
			return ex.bigSet(w, a[0], r)
		}
		if m == nil || x.neg != TFalse {
			unsupported("Exp")
		}
		name := fmt.Sprintf("modexp_%s_%s_%d", yk.Text(36), m.konst().Text(36), x.mag.w)
		declUF(name, []int{x.mag.w}, m.mag.w, new(big.Int).Sub(m.mag.val, bigOne), nil)
		return ex.bigSet(w, a[0], mkBig(TFalse, App(name, x.mag)))
	})
	M("ModInverse", func(ex *Exec, w *World, a []Value) []Outcome {
		x, n := ex.bigGet(w, a[1]), ex.bigGet(w, a[2])
		nk := n.konst()
		if nk == nil {
			unsupported("ModInverse with a symbolic modulus")
		}
		if xk := x.konst(); xk != nil {
			r := new(big.Int).ModInverse(xk, nk)
			if r == nil {
				return ret1(w, Ptr{})
			}
			return ex.bigSet(w, a[0], constBig(r))
		}
		r := bigMod(x, n)
		nm := fmt.Sprintf("inv_%s", nk.Text(36))
		wd := n.mag.w
		declUF(nm, []int{wd}, wd, new(big.Int).Sub(nk, bigOne), nil)
		z := Eq(r.mag, Const(bigZero, r.mag.w))
		t, f := ex.split(w, Not(z))
		var out []Outcome
		if f != nil {
			out = append(out, Outcome{w: f, kind: oRet, ret: Ptr{}})
		}
		if t != nil {
			out = append(out, ex.bigSet(t, a[0], mkBig(TFalse, App(nm, fit(r.mag, wd))))...)
		}
		return out
	})
	M("Lsh", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[1])
		n := int(mustInt(a[2]))
		if n > 1<<14 {
			unsupported("huge shift")
		}
		return ex.bigSet(w, a[0], mkBig(x.neg, ShlC(fit(x.mag, x.mag.w+n), n)))
	})
	M("Rsh", func(ex *Exec, w *World, a []Value) []Outcome {
		x := ex.bigGet(w, a[1])
		if x.neg != TFalse {
			unsupported("Rsh of a negative number")
		}
		var out []Outcome
		for _, c := range ex.concretize(w, a[2].(*Term), 300) {
			n := int(c.v.Int64())
			ex.bigSet(c.w, a[0], mkBig(TFalse, LshrC(x.mag, n)))
			out = append(out, Outcome{w: c.w, kind: oRet, ret: a[0]})
		}
		return out
	})
	bitop := func(f func(a, b *Term) *Term) func(ex *Exec, w *World, a []Value) []Outcome {
		return func(ex *Exec, w *World, a []Value) []Outcome {
			x, y := ex.bigGet(w, a[1]), ex.bigGet(w, a[2])
			if x.neg != TFalse || y.neg != TFalse {
				unsupported("bit operation on negative numbers")
			}
			p, q := same(x.mag, y.mag)
			return ex.bigSet(w, a[0], mkBig(TFalse, f(p, q)))
		}
	}
	M("And", bitop(BAnd))
	M("Or", bitop(BOr))
	M("Xor", bitop(BXor))
	M("ModSqrt", func(ex *Exec, w *World, a []Value) []Outcome {
		x, p := ex.bigGet(w, a[1]), ex.bigGet(w, a[2])
		xk, pk := x.konst(), p.konst()
		if xk == nil || pk == nil {
			unsupported("ModSqrt of a symbolic number")
		}
		r := new(big.Int).ModSqrt(xk, pk)
		if r == nil {
			return ret1(w, Ptr{})
		}
		return ex.bigSet(w, a[0], constBig(r))
	})
}

func bigFromInt(t *Term, signed bool) BigV {
	if t.isConst() {
		v := t.val
		if signed {
			v = t.signed()
		}
		return constBig(v)
	}
	if !signed || t.UB().BitLen() < t.w {
		return mkBig(TFalse, t)
	}
	neg := Slt(t, ConstU(0, t.w))
	return mkBig(neg, Ite(neg, Neg(t), t))
}
