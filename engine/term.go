package main

// Hash-consed terms over Bool and fixed-width bit-vectors, with the
// simplifications that keep the encodings of the code small.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OConst
	OVar
	OApp
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	OHexLo  // 4 -> 8: lower-case hexadecimal digit
	OHexUp  // 4 -> 8
	OHexVal // 8 -> 4: value of a hexadecimal digit (0 for other characters)
	OHexOk  // 8 -> Bool
	OTable  // constant table lookup
)

type Table struct {
	id   int
	w    int // width of the entries
	iw   int // width of the index
	vals []*big.Int
	key  string
	inj  map[string][]int // value -> indices
}

type Term struct {
	op     Op
	w      int // 0: Bool
	args   []*Term
	val    *big.Int
	name   string
	hi, lo int
	tab    *Table
	id     int
	ub     *big.Int
	size   int
}

type tkey struct {
	op      Op
	w       int
	a, b, c int
	hi, lo  int
	s       string
}

var terms = map[tkey]*Term{}
var termCount int
var allTerms []*Term

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func pow2(n int) *big.Int  { return new(big.Int).Lsh(bigOne, uint(n)) }
func maxOf(w int) *big.Int { return new(big.Int).Sub(pow2(w), bigOne) }

func intern(t *Term) *Term {
	k := tkey{op: t.op, w: t.w, hi: t.hi, lo: t.lo, s: t.name}
	if t.val != nil {
		k.s = t.val.Text(36)
	}
	if t.tab != nil {
		k.hi = t.tab.id
	}
	switch len(t.args) {
	case 0:
	case 1:
		k.a = t.args[0].id
	case 2:
		k.a, k.b = t.args[0].id, t.args[1].id
	case 3:
		k.a, k.b, k.c = t.args[0].id, t.args[1].id, t.args[2].id
	default:
		var sb strings.Builder
		sb.WriteString(k.s)
		for _, a := range t.args {
			sb.WriteByte(',')
			sb.WriteString(strconv.FormatInt(int64(a.id), 36))
		}
		k.s = sb.String()
		k.c = -len(t.args)
	}
	if x, ok := terms[k]; ok {
		return x
	}
	termCount++
	t.id = termCount
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	terms[k] = t
	return t
}

var TTrue = intern(&Term{op: OTrue})
var TFalse = intern(&Term{op: OFalse})

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func Const(v *big.Int, w int) *Term {
	if w <= 0 {
		panic("const width")
	}
	x := v
	if v.Sign() < 0 || v.BitLen() > w {
		x = new(big.Int).And(v, maxOf(w)) // two's complement semantics of And
	}
	return intern(&Term{op: OConst, w: w, val: x})
}
func ConstU(v uint64, w int) *Term { return Const(new(big.Int).SetUint64(v), w) }
func ConstI(v int64, w int) *Term  { return Const(big.NewInt(v), w) }

func Var(name string, w int) *Term { return intern(&Term{op: OVar, w: w, name: name}) }

// VarR is a variable with a declared range (asserted wherever it occurs)
func VarR(name string, w int, lb, ub *big.Int) *Term {
	t := Var(name, w)
	if _, ok := varLB[t]; !ok {
		varLB[t] = lb
		t.ub = ub
	}
	return t
}

var varLB = map[*Term]*big.Int{}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isBool() bool  { return t.w == 0 }
func (t *Term) isLit() bool   { return t.op == OConst || t.op == OTrue || t.op == OFalse }

func (t *Term) signed() *big.Int {
	if t.val.Bit(t.w-1) == 1 {
		return new(big.Int).Sub(t.val, pow2(t.w))
	}
	return t.val
}

// upper bound on the unsigned value
func (t *Term) UB() *big.Int {
	if t.ub != nil {
		return t.ub
	}
	m := maxOf(t.w)
	r := m
	switch t.op {
	case OConst:
		r = t.val
	case OApp:
		if f := ufs[t.name]; f != nil && f.ub != nil {
			r = f.ub
		}
	case OIte:
		r = t.args[1].UB()
		if b := t.args[2].UB(); b.Cmp(r) > 0 {
			r = b
		}
	case OUrem:
		r = t.args[0].UB()
		if t.args[1].isConst() && t.args[1].val.Sign() > 0 {
			if b := new(big.Int).Sub(t.args[1].val, bigOne); b.Cmp(r) < 0 {
				r = b
			}
		}
	case OUdiv:
		r = t.args[0].UB()
		if t.args[1].isConst() && t.args[1].val.Sign() > 0 {
			r = new(big.Int).Div(r, t.args[1].val)
		} else {
			r = m
		}
	case OConcat:
		r = new(big.Int)
		for _, a := range t.args {
			r.Lsh(r, uint(a.w))
			r.Or(r, a.UB())
		}
	case OExtract:
		if t.lo == 0 {
			r = t.args[0].UB()
		} else {
			r = new(big.Int).Rsh(t.args[0].UB(), uint(t.lo))
		}
	case OAdd:
		s := new(big.Int)
		for _, a := range t.args {
			s.Add(s, a.UB())
		}
		r = s
	case OMul:
		s := new(big.Int).Mul(t.args[0].UB(), t.args[1].UB())
		r = s
	case OBAnd:
		r = t.args[0].UB()
		if b := t.args[1].UB(); b.Cmp(r) < 0 {
			r = b
		}
	case OBOr, OBXor:
		n := t.args[0].UB().BitLen()
		if k := t.args[1].UB().BitLen(); k > n {
			n = k
		}
		r = maxOf(n + 0)
		if n == 0 {
			r = bigZero
		}
	case OLshr:
		r = t.args[0].UB()
	case OSub:
		// const - x with x <= const
		if t.args[0].isConst() && t.args[1].UB().Cmp(t.args[0].val) <= 0 {
			r = t.args[0].val
		}
	case OHexLo:
		r = big.NewInt('f')
	case OHexUp:
		r = big.NewInt('F')
	case OTable:
		r = new(big.Int)
		for _, v := range t.tab.vals {
			if v.Cmp(r) > 0 {
				r = v
			}
		}
	}
	if r.Cmp(m) > 0 {
		r = m
	}
	t.ub = r
	return r
}

// lower bound on the unsigned value (cheap)
func (t *Term) LB() *big.Int {
	switch t.op {
	case OVar:
		if l := varLB[t]; l != nil {
			return l
		}
	case OConst:
		return t.val
	case OIte:
		a, b := t.args[1].LB(), t.args[2].LB()
		if a.Cmp(b) < 0 {
			return a
		}
		return b
	case OApp:
		if f := ufs[t.name]; f != nil && f.lb != nil {
			return f.lb
		}
	case OConcat:
		r := new(big.Int)
		for _, a := range t.args {
			r.Lsh(r, uint(a.w))
			if a.isConst() {
				r.Or(r, a.val)
			}
		}
		return r
	case OHexLo, OHexUp:
		return big.NewInt('0')
	case OTable:
		var r *big.Int
		for _, v := range t.tab.vals {
			if r == nil || v.Cmp(r) < 0 {
				r = v
			}
		}
		if len(t.tab.vals) < 1<<uint(min(t.tab.iw, 30)) {
			return bigZero
		}
		return r
	}
	return bigZero
}

// ---- Booleans

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return a.args[0]
	}
	return intern(&Term{op: ONot, args: []*Term{a}})
}

// isEqConst: Eq(v, const) with v not constant
func isEqConst(t *Term) bool { return t.op == OEq && t.args[1].isConst() }

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var eqs map[*Term]*Term
	hasNot := false
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == OTrue || seen[x] {
			return true
		}
		if x.op == OFalse {
			return false
		}
		if x.op == OAnd {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		if isEqConst(x) {
			if eqs == nil {
				eqs = map[*Term]*Term{}
			}
			if o, ok := eqs[x.args[0]]; ok && o != x.args[1] {
				return false
			}
			eqs[x.args[0]] = x.args[1]
		}
		if x.op == ONot {
			hasNot = true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return TFalse
		}
	}
	// consequences of v == c
	if eqs != nil && hasNot {
		o2 := out[:0:0]
		for _, x := range out {
			if x.op == ONot && isEqConst(x.args[0]) {
				if c, ok := eqs[x.args[0].args[0]]; ok {
					if c == x.args[0].args[1] {
						return TFalse
					}
					continue
				}
			}
			o2 = append(o2, x)
		}
		out = o2
	}
	// x < c1 && x < c2 ; !(x < c1) && !(x < c2) ; both directions
	var ul, lo map[*Term]*Term
	nb := 0
	for _, x := range out {
		y := x
		if y.op == ONot {
			y = y.args[0]
		}
		if y.op == OUlt && y.args[1].isConst() {
			nb++
		}
	}
	if nb > 1 {
		ul, lo = map[*Term]*Term{}, map[*Term]*Term{}
		o2 := out[:0:0]
		for _, x := range out {
			if x.op == OUlt && x.args[1].isConst() {
				if p := ul[x.args[0]]; p == nil || p.args[1].val.Cmp(x.args[1].val) > 0 {
					ul[x.args[0]] = x
				}
			} else if x.op == ONot && x.args[0].op == OUlt && x.args[0].args[1].isConst() {
				y := x.args[0]
				if p := lo[y.args[0]]; p == nil || p.args[0].args[1].val.Cmp(y.args[1].val) < 0 {
					lo[y.args[0]] = x
				}
			}
		}
		for _, x := range out {
			if x.op == OUlt && x.args[1].isConst() {
				if ul[x.args[0]] != x {
					continue
				}
				if p := lo[x.args[0]]; p != nil && p.args[0].args[1].val.Cmp(x.args[1].val) >= 0 {
					return TFalse
				}
			} else if x.op == ONot && x.args[0].op == OUlt && x.args[0].args[1].isConst() {
				if lo[x.args[0].args[0]] != x {
					continue
				}
			}
			o2 = append(o2, x)
		}
		out = o2
	}
	// a && (!a || b) -> a && b   (cheap, small conjunctions only)
	if len(out) <= 64 {
		changed := false
		for i, x := range out {
			if x.op != OOr || len(x.args) > 8 {
				continue
			}
			var keep []*Term
			sat := false
			for _, d := range x.args {
				if seen[d] {
					sat = true
					break
				}
				if seen[Not(d)] {
					continue
				}
				keep = append(keep, d)
			}
			if sat {
				out[i] = TTrue
				changed = true
			} else if len(keep) < len(x.args) {
				out[i] = Or(keep...)
				changed = true
			}
		}
		if changed {
			return And(out...)
		}
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{op: OAnd, args: out})
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == OFalse || seen[x] {
			return true
		}
		if x.op == OTrue {
			return false
		}
		if x.op == OOr {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return TTrue
		}
	}
	// a || (!a && b) -> a || b ; absorption a || (a && b) -> a
	changed := false
	for i, x := range out {
		if x.op != OAnd {
			continue
		}
		var keep []*Term
		absorbed := false
		for _, c := range x.args {
			if seen[c] {
				absorbed = true
				break
			}
			if seen[Not(c)] {
				continue
			}
			keep = append(keep, c)
		}
		if absorbed {
			out[i] = TFalse
			changed = true
		} else if len(keep) < len(x.args) {
			out[i] = And(keep...)
			changed = true
		}
	}
	// x < c1 || x < c2
	ul := map[*Term]int{}
	gl := map[*Term]int{}
	for i, x := range out {
		if x.op == OUlt && x.args[1].isConst() {
			if j, ok := ul[x.args[0]]; ok {
				changed = true
				if out[j].args[1].val.Cmp(x.args[1].val) < 0 {
					out[j] = x
				}
				out[i] = TFalse
			} else {
				ul[x.args[0]] = i
			}
		} else if x.op == ONot && x.args[0].op == OUlt && x.args[0].args[1].isConst() {
			v := x.args[0].args[0]
			if j, ok := gl[v]; ok {
				changed = true
				if out[j].args[0].args[1].val.Cmp(x.args[0].args[1].val) > 0 {
					out[j] = x
				}
				out[i] = TFalse
			} else {
				gl[v] = i
			}
		}
	}
	for v, i := range ul {
		if j, ok := gl[v]; ok && out[i].op == OUlt && out[j].op == ONot {
			// x < c1 || x >= c2 with c2 <= c1
			if out[j].args[0].args[1].val.Cmp(out[i].args[1].val) <= 0 {
				return TTrue
			}
		}
	}
	if changed {
		return Or(out...)
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	// v == c for every c of the domain
	if len(out) >= 2 && isEqConst(out[0]) {
		v := out[0].args[0]
		if v.w <= 16 && len(out) >= 1<<uint(v.w) {
			n := 0
			for _, x := range out {
				if isEqConst(x) && x.args[0] == v {
					n++
				}
			}
			if n == 1<<uint(v.w) {
				return TTrue
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{op: OOr, args: out})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if c.op == OTrue || a == b {
		return a
	}
	if c.op == OFalse {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		switch {
		case a.op == OTrue:
			return Or(c, b)
		case a.op == OFalse:
			return And(Not(c), b)
		case b.op == OTrue:
			return Or(Not(c), a)
		case b.op == OFalse:
			return And(c, a)
		}
		if a == c {
			return Or(c, b)
		}
		if b == c {
			return And(c, a)
		}
		return And(Or(Not(c), a), Or(c, b))
	}
	// ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	// point coordinates: keep them recognisable
	if a.op == OApp && b.op == OApp && a.name == b.name && (a.name == "gx" || a.name == "gy") {
		return App(a.name, Ite(c, a.args[0], b.args[0]))
	}
	if a.op == OHexLo && b.op == OHexLo {
		return HexLo(Ite(c, a.args[0], b.args[0]))
	}
	// digit characters: ite(c, '0', HexLo(x)) -> HexLo(ite(c,0,x))
	if a.op == OHexLo && b.isConst() {
		if v, ok := hexLoVal(b); ok {
			return HexLo(Ite(c, a.args[0], ConstU(uint64(v), 4)))
		}
	}
	if b.op == OHexLo && a.isConst() {
		if v, ok := hexLoVal(a); ok {
			return HexLo(Ite(c, ConstU(uint64(v), 4), b.args[0]))
		}
	}
	// common leading/trailing constant parts of concats
	if (a.op == OConcat || a.isConst()) && (b.op == OConcat || b.isConst()) && !(a.isConst() && b.isConst() && a.w == 1) {
		// common prefix
		if r := iteConcat(c, a, b); r != nil {
			return r
		}
	}
	// v == k ? k : v
	if isEqConst(c) {
		if c.args[0] == b && c.args[1] == a {
			return b
		}
	}
	return intern(&Term{op: OIte, w: a.w, args: []*Term{c, a, b}})
}

func iteConcat(c, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		// shared leading bits
		x := new(big.Int).Xor(a.val, b.val)
		n := x.BitLen()
		if n < a.w && n > 0 {
			t := 0
			for x.Bit(t) == 0 {
				t++
			}
			parts := []*Term{Extract(a.w-1, n, a)}
			parts = append(parts, intern(&Term{op: OIte, w: n - t, args: []*Term{c, Extract(n-1, t, a), Extract(n-1, t, b)}}))
			if t > 0 {
				parts = append(parts, Extract(t-1, 0, a))
			}
			return Concat(parts...)
		}
		return nil
	}
	// split at the boundaries of both
	cuts := map[int]bool{}
	collect := func(t *Term) {
		if t.op == OConcat {
			p := t.w
			for _, x := range t.args {
				p -= x.w
				cuts[p] = true
			}
		}
	}
	collect(a)
	collect(b)
	delete(cuts, 0)
	if len(cuts) == 0 {
		return nil
	}
	var ps []int
	for k := range cuts {
		ps = append(ps, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ps)))
	ps = append(ps, 0)
	hi := a.w - 1
	var parts []*Term
	for _, p := range ps {
		parts = append(parts, Ite(c, Extract(hi, p, a), Extract(hi, p, b)))
		hi = p - 1
	}
	return Concat(parts...)
}

func hexLoVal(c *Term) (int, bool) {
	v := c.val.Int64()
	switch {
	case v >= '0' && v <= '9':
		return int(v - '0'), true
	case v >= 'a' && v <= 'f':
		return int(v - 'a' + 10), true
	}
	return 0, false
}

// ---- Equality and comparisons

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		switch {
		case a.op == OTrue:
			return b
		case a.op == OFalse:
			return Not(b)
		case b.op == OTrue:
			return a
		case b.op == OFalse:
			return Not(a)
		}
		if a == Not(b) {
			return TFalse
		}
		return And(Or(Not(a), b), Or(a, Not(b)))
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val.Cmp(b.val) == 0)
	}
	if b.isConst() && a.op == OIte {
		if r := chainCond(a, func(v *big.Int) bool { return v.Cmp(b.val) == 0 }); r != nil {
			return r
		}
	}
	if b.isConst() {
		if b.val.Cmp(a.UB()) > 0 || b.val.Cmp(a.LB()) < 0 {
			return TFalse
		}
		switch a.op {
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() || (x.op == OIte && y.op == OIte && a.size < 2000) {
				return Ite(a.args[0], Eq(x, b), Eq(y, b))
			}
		case OHexLo, OHexUp:
			for v := 0; v < 16; v++ {
				if hexDigit(v, a.op == OHexUp) == byte(b.val.Int64()) {
					return Eq(a.args[0], ConstU(uint64(v), 4))
				}
			}
			return TFalse
		case OAdd:
			if n := len(a.args); n == 2 && a.args[1].isConst() {
				return Eq(a.args[0], Sub(b, a.args[1]))
			}
		case OSub:
			if a.args[0].isConst() {
				return Eq(a.args[1], Sub(a.args[0], b))
			}
		case OTable:
			idx := a.tab.inj[b.val.Text(36)]
			if len(idx) <= 4 && len(a.tab.vals) == 1<<uint(min(a.tab.iw, 30)) || (len(idx) <= 4 && b.val.Sign() != 0) {
				var o []*Term
				for _, i := range idx {
					o = append(o, Eq(a.args[0], ConstU(uint64(i), a.args[0].w)))
				}
				return Or(o...)
			}
			if a.args[0].w <= domMax && a.w > 1 {
				return tableCond(a, func(v *big.Int) bool { return v.Cmp(b.val) == 0 })
			}
		case OBNot:
			return Eq(a.args[0], BNot(b))
		case OSext:
			in := a.args[0]
			lowc := Extract(in.w-1, 0, b)
			if Sext(lowc, a.w) != b {
				return TFalse
			}
			return Eq(in, lowc)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		if !(a.op == OConcat && (b.isConst() || b.op == OConcat)) && !(b.op == OConcat && a.isConst()) {
			// concat against an opaque term: only split off constant zero prefixes
			t, o := a, b
			if b.op == OConcat {
				t, o = b, a
			}
			if o.op != OIte && o.op != OVar && o.op != OApp {
				goto generic
			}
			_ = t
			goto generic
		}
		cuts := map[int]bool{}
		for _, t := range []*Term{a, b} {
			if t.op == OConcat {
				p := t.w
				for _, x := range t.args {
					p -= x.w
					cuts[p] = true
				}
			}
		}
		var ps []int
		for k := range cuts {
			ps = append(ps, k)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(ps)))
		hi := a.w - 1
		var cs []*Term
		for _, p := range ps {
			e := Eq(Extract(hi, p, a), Extract(hi, p, b))
			if e == TFalse {
				return TFalse
			}
			cs = append(cs, e)
			hi = p - 1
		}
		return And(cs...)
	}
generic:
	if a.op == b.op {
		switch a.op {
		case OHexLo, OHexUp, OBNot:
			return Eq(a.args[0], b.args[0])
		case OTable:
			if a.tab == b.tab && len(a.tab.inj) == len(a.tab.vals) && len(a.tab.vals) == 1<<uint(min(a.tab.iw, 30)) {
				return Eq(a.args[0], b.args[0])
			}
		case OApp:
			if a.name == "gx" && b.name == "gx" {
				s, t := a.args[0], b.args[0]
				return Or(Eq(s, t), Eq(s, Sub(Const(curveN, 256), t)))
			}
		case OSub:
			if a.args[0] == b.args[0] {
				return Eq(a.args[1], b.args[1])
			}
			if a.args[1] == b.args[1] {
				return Eq(a.args[0], b.args[0])
			}
		}
	}
	// x = c-y is y = c-x: one form
	for i := 0; i < 2; i++ {
		if b.op == OSub && b.args[0].isConst() && !a.isConst() && a.op != OSub && a.id > b.args[1].id {
			a, b = b.args[1], Sub(b.args[0], a)
			break
		}
		if !b.isConst() {
			a, b = b, a
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return intern(&Term{op: OEq, args: []*Term{a, b}})
}

func Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ult width %d %d", a.w, b.w))
	}
	if a == b {
		return TFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val.Cmp(b.val) < 0)
	}
	if b.isConst() && a.op == OIte {
		if r := chainCond(a, func(v *big.Int) bool { return v.Cmp(b.val) < 0 }); r != nil {
			return r
		}
	}
	if a.isConst() && b.op == OIte {
		if r := chainCond(b, func(v *big.Int) bool { return a.val.Cmp(v) < 0 }); r != nil {
			return r
		}
	}
	if a.UB().Cmp(b.LB()) < 0 {
		return TTrue
	}
	if b.UB().Cmp(a.LB()) <= 0 {
		return TFalse
	}
	if b.isConst() && b.val.Cmp(bigOne) == 0 {
		return Eq(a, Const(bigZero, a.w))
	}
	if a.isConst() && a.val.Sign() == 0 {
		return Not(Eq(b, a))
	}
	if a.isConst() {
		// c < x  <=>  !(x < c+1)
		return Not(Ult(b, Const(new(big.Int).Add(a.val, bigOne), a.w)))
	}
	if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return Ite(a.args[0], Ult(a.args[1], b), Ult(a.args[2], b))
	}
	// strip common zero prefix
	za, zb := leadZero(a), leadZero(b)
	z := min(za, zb)
	if z > 0 && z < a.w {
		return Ult(Extract(a.w-1-z, 0, a), Extract(b.w-1-z, 0, b))
	}
	// concat with constant low bits against constants aligned on them
	if a.op == OConcat && b.isConst() {
		// x:lo < c  with c = ch:0..0 -> x < ch
		n := len(a.args)
		k := a.args[n-1].w
		ok := true
		for i := 0; i < k; i++ {
			if b.val.Bit(i) == 1 {
				ok = false
				break
			}
		}
		if ok && k < a.w {
			return Ult(Extract(a.w-1, k, a), Extract(b.w-1, k, b))
		}
	}
	if a.op == OTable && b.isConst() && a.args[0].w <= domMax {
		return tableCond(a, func(v *big.Int) bool { return v.Cmp(b.val) < 0 })
	}
	return intern(&Term{op: OUlt, args: []*Term{a, b}})
}
func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }

func leadZero(t *Term) int {
	switch t.op {
	case OConst:
		return t.w - t.val.BitLen()
	case OConcat:
		if t.args[0].isConst() {
			n := t.args[0].w - t.args[0].val.BitLen()
			return n
		}
	}
	return t.w - t.UB().BitLen()
}

func Slt(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(a.signed().Cmp(b.signed()) < 0)
	}
	if b.isConst() && a.op == OIte {
		if r := chainCond(a, func(v *big.Int) bool { return Const(v, a.w).signed().Cmp(b.signed()) < 0 }); r != nil {
			return r
		}
	}
	if a.isConst() && b.op == OIte {
		if r := chainCond(b, func(v *big.Int) bool { return a.signed().Cmp(Const(v, b.w).signed()) < 0 }); r != nil {
			return r
		}
	}
	half := pow2(a.w - 1)
	na, nb := a.UB().Cmp(half) < 0, b.UB().Cmp(half) < 0
	if na && nb {
		return Ult(a, b)
	}
	if na && b.isConst() { // b negative
		return TFalse
	}
	if nb && a.isConst() {
		return TTrue
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) && b.isConst() {
		return Ite(a.args[0], Slt(a.args[1], b), Slt(a.args[2], b))
	}
	if b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) && a.isConst() {
		return Ite(b.args[0], Slt(a, b.args[1]), Slt(a, b.args[2]))
	}
	if b.isConst() && b.val.Sign() == 0 {
		return Eq(Extract(a.w-1, a.w-1, a), ConstU(1, 1))
	}
	return intern(&Term{op: OSlt, args: []*Term{a, b}})
}
func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

// ---- structure

func Concat(xs ...*Term) *Term {
	var out []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == OConcat {
			for _, y := range x.args {
				add(y)
			}
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.isConst() && x.isConst() {
				v := new(big.Int).Lsh(p.val, uint(x.w))
				v.Or(v, x.val)
				out[n-1] = Const(v, p.w+x.w)
				return
			}
			pb, ph, pl := extParts(p)
			xb, xh, xl := extParts(x)
			if pb == xb && pl == xh+1 && pb.op != OConst {
				out[n-1] = Extract(ph, xl, pb)
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		add(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	// ites over the same condition: merge if the branches recombine
	if len(out) >= 2 {
		if r := concatIte(out); r != nil {
			return r
		}
	}
	w := 0
	for _, x := range out {
		w += x.w
	}
	return intern(&Term{op: OConcat, w: w, args: out})
}

// concatIte recombines adjacent ite(c, x_i, y_i) with the same c when the
// branches are pieces of the same terms.
func concatIte(out []*Term) *Term {
	changed := false
	var res []*Term
	for _, x := range out {
		if n := len(res); n > 0 {
			p := res[n-1]
			if p.op == OIte && x.op == OIte && p.args[0] == x.args[0] {
				a, ok1 := glue(p.args[1], x.args[1])
				b, ok2 := glue(p.args[2], x.args[2])
				if ok1 && ok2 {
					res[n-1] = intern(&Term{op: OIte, w: a.w, args: []*Term{p.args[0], a, b}})
					changed = true
					continue
				}
			}
		}
		res = append(res, x)
	}
	if !changed {
		return nil
	}
	if len(res) == 1 {
		return res[0]
	}
	w := 0
	for _, x := range res {
		w += x.w
	}
	return intern(&Term{op: OConcat, w: w, args: res})
}

func glue(a, b *Term) (*Term, bool) {
	if a.isConst() && b.isConst() {
		v := new(big.Int).Lsh(a.val, uint(b.w))
		v.Or(v, b.val)
		return Const(v, a.w+b.w), true
	}
	pb, ph, pl := extParts(a)
	xb, xh, xl := extParts(b)
	if pb == xb && pl == xh+1 && pb.op != OConst {
		return Extract(ph, xl, pb), true
	}
	return nil, false
}

func extParts(t *Term) (*Term, int, int) {
	if t.op == OExtract {
		return t.args[0], t.hi, t.lo
	}
	return t, t.w - 1, 0
}

func Extract(hi, lo int, t *Term) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	if hi < lo || hi >= t.w || lo < 0 {
		panic(fmt.Sprintf("extract %d %d of width %d", hi, lo, t.w))
	}
	w := hi - lo + 1
	if t.w > 1 && t.op == OIte {
		if r := chainMap(t, func(v *Term) *Term { return Extract(hi, lo, v) }); r != nil {
			return r
		}
	}
	switch t.op {
	case OConst:
		return Const(new(big.Int).Rsh(t.val, uint(lo)), w)
	case OExtract:
		return Extract(hi+t.lo, lo+t.lo, t.args[0])
	case OConcat:
		var parts []*Term
		p := t.w
		for _, x := range t.args {
			top := p - 1
			p -= x.w
			if top < lo || p > hi {
				continue
			}
			h, l := min(hi, top)-p, max(lo, p)-p
			parts = append(parts, Extract(h, l, x))
		}
		return Concat(parts...)
	case OIte:
		if t.args[1].op == OConst || t.args[2].op == OConst || t.args[1].op == OConcat || t.args[2].op == OConcat {
			return Ite(t.args[0], Extract(hi, lo, t.args[1]), Extract(hi, lo, t.args[2]))
		}
	case OBNot:
		return BNot(Extract(hi, lo, t.args[0]))
	case OBAnd:
		return BAnd(Extract(hi, lo, t.args[0]), Extract(hi, lo, t.args[1]))
	case OBOr:
		return BOr(Extract(hi, lo, t.args[0]), Extract(hi, lo, t.args[1]))
	case OBXor:
		return BXor(Extract(hi, lo, t.args[0]), Extract(hi, lo, t.args[1]))
	case OAdd:
		if lo == 0 {
			var as []*Term
			for _, a := range t.args {
				as = append(as, Extract(hi, 0, a))
			}
			return AddN(as...)
		}
	case OSub:
		if lo == 0 {
			return Sub(Extract(hi, 0, t.args[0]), Extract(hi, 0, t.args[1]))
		}
	case OSext:
		in := t.args[0]
		if hi < in.w {
			return Extract(hi, lo, in)
		}
		if lo == 0 {
			return Sext(in, w)
		}
	case OTable:
		nt := make([]*big.Int, len(t.tab.vals))
		for i, v := range t.tab.vals {
			x := new(big.Int).Rsh(v, uint(lo))
			nt[i] = x.And(x, maxOf(w))
		}
		return Lookup(nt, w, t.args[0])
	}
	if ub := t.UB(); ub.BitLen() <= lo {
		return Const(bigZero, w)
	} else if lo == 0 && ub.BitLen() <= hi && w > ub.BitLen() && t.op != OVar {
		return Concat(Const(bigZero, w-ub.BitLen()), Extract(ub.BitLen()-1, 0, t))
	}
	return intern(&Term{op: OExtract, w: w, hi: hi, lo: lo, args: []*Term{t}})
}

func Zext(t *Term, w int) *Term {
	if w > t.w && t.op == OIte {
		if r := chainMap(t, func(v *Term) *Term { return Zext(v, w) }); r != nil {
			return r
		}
	}
	if w == t.w {
		return t
	}
	if w < t.w {
		panic("zext")
	}
	return Concat(Const(bigZero, w-t.w), t)
}

func Sext(t *Term, w int) *Term {
	if w > t.w && t.op == OIte {
		if r := chainMap(t, func(v *Term) *Term { return Sext(v, w) }); r != nil {
			return r
		}
	}
	if w == t.w {
		return t
	}
	if t.isConst() {
		return Const(t.signed(), w)
	}
	if t.UB().Cmp(pow2(t.w-1)) < 0 {
		return Zext(t, w)
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return Ite(t.args[0], Sext(t.args[1], w), Sext(t.args[2], w))
	}
	return intern(&Term{op: OSext, w: w, args: []*Term{t}})
}

// fit resizes an unsigned value whose upper bound fits
func fit(t *Term, w int) *Term {
	if t.w < w {
		return Zext(t, w)
	}
	if t.w > w {
		return Extract(w-1, 0, t)
	}
	return t
}

// ---- arithmetic

func AddN(xs ...*Term) *Term {
	r := xs[0]
	for _, x := range xs[1:] {
		r = Add(r, x)
	}
	return r
}

func Add(a, b *Term) *Term {
	if a.w != b.w {
		panic("add width")
	}
	if a.isConst() && b.isConst() {
		return Const(new(big.Int).Add(a.val, b.val), a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val.Sign() == 0 {
		return a
	}
	if b.isConst() && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return Add(v, b) }); r != nil {
			return r
		}
	}
	if b.isConst() {
		if a.op == OAdd && a.args[len(a.args)-1].isConst() {
			return Add(a.args[0], Add(a.args[1], b))
		}
		if a.op == OSub && a.args[0].isConst() {
			return Sub(Add(a.args[0], b), a.args[1])
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], Add(a.args[1], b), Add(a.args[2], b))
		}
		// no carry into a constant zero high part
	} else {
		// x + c + y : constants last
		if a.op == OAdd && a.args[1].isConst() {
			return Add(Add(a.args[0], b), a.args[1])
		}
		if b.op == OAdd && b.args[1].isConst() {
			return Add(Add(a, b.args[0]), b.args[1])
		}
		// disjoint bits: x<<k + y -> concat
		if r := disjointOr(a, b); r != nil {
			return r
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return intern(&Term{op: OAdd, w: a.w, args: []*Term{a, b}})
}

// disjointOr: bits of a and b do not overlap (by their concat structure)
func disjointOr(a, b *Term) *Term {
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	cuts := map[int]bool{0: true}
	for _, t := range []*Term{a, b} {
		if t.op == OConcat {
			p := t.w
			for _, x := range t.args {
				p -= x.w
				cuts[p] = true
			}
		}
	}
	var ps []int
	for k := range cuts {
		ps = append(ps, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ps)))
	hi := a.w - 1
	var parts []*Term
	for _, p := range ps {
		x, y := Extract(hi, p, a), Extract(hi, p, b)
		switch {
		case x.isConst() && x.val.Sign() == 0:
			parts = append(parts, y)
		case y.isConst() && y.val.Sign() == 0:
			parts = append(parts, x)
		default:
			return nil
		}
		hi = p - 1
	}
	return Concat(parts...)
}

func Sub(a, b *Term) *Term {
	if a.w != b.w {
		panic("sub width")
	}
	if a == b {
		return Const(bigZero, a.w)
	}
	if a.isConst() && b.isConst() {
		return Const(new(big.Int).Sub(a.val, b.val), a.w)
	}
	if a.isConst() && b.op == OIte {
		if r := chainMap(b, func(v *Term) *Term { return Sub(a, v) }); r != nil {
			return r
		}
	}
	if b.isConst() {
		return Add(a, Const(new(big.Int).Neg(b.val), a.w))
	}
	if a.isConst() && b.op == OSub && b.args[0].isConst() {
		// c - (d - x) = x + (c-d)
		return Add(b.args[1], Const(new(big.Int).Sub(a.val, b.args[0].val), a.w))
	}
	if a.isConst() && b.op == OApp && b.name == "gy" && a.w == 256 && a.val.Cmp(curveP) == 0 {
		return App("gy", Sub(Const(curveN, 256), b.args[0]))
	}
	if b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return Ite(b.args[0], Sub(a, b.args[1]), Sub(a, b.args[2]))
	}
	if a.op == OAdd && !b.isConst() {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return intern(&Term{op: OSub, w: a.w, args: []*Term{a, b}})
}

func Neg(a *Term) *Term { return Sub(Const(bigZero, a.w), a) }

func Mul(a, b *Term) *Term {
	if b.isConst() && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return Mul(v, b) }); r != nil {
			return r
		}
	}
	if a.isConst() && b.isConst() {
		return Const(new(big.Int).Mul(a.val, b.val), a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val.Sign() == 0 {
			return b
		}
		if b.val.Cmp(bigOne) == 0 {
			return a
		}
		if k := int(b.val.TrailingZeroBits()); b.val.BitLen() == k+1 {
			return ShlC(a, k)
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func ShlC(a *Term, k int) *Term {
	if k > 0 && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return ShlC(v, k) }); r != nil {
			return r
		}
	}
	if k == 0 {
		return a
	}
	if k >= a.w {
		return Const(bigZero, a.w)
	}
	return Concat(Extract(a.w-1-k, 0, a), Const(bigZero, k))
}
func LshrC(a *Term, k int) *Term {
	if k > 0 && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return LshrC(v, k) }); r != nil {
			return r
		}
	}
	if k == 0 {
		return a
	}
	if k >= a.w {
		return Const(bigZero, a.w)
	}
	return Zext(Extract(a.w-1, k, a), a.w)
}
func AshrC(a *Term, k int) *Term {
	if k > 0 && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return AshrC(v, k) }); r != nil {
			return r
		}
	}
	if k == 0 {
		return a
	}
	if k >= a.w {
		k = a.w - 1
	}
	return Sext(Extract(a.w-1, k, a), a.w)
}

func Udiv(a, b *Term) *Term {
	if b.isConst() && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return Udiv(v, b) }); r != nil {
			return r
		}
	}
	if b.isConst() && b.val.Sign() > 0 {
		if a.isConst() {
			return Const(new(big.Int).Div(a.val, b.val), a.w)
		}
		if k := int(b.val.TrailingZeroBits()); b.val.BitLen() == k+1 {
			return LshrC(a, k)
		}
		if a.UB().Cmp(b.val) < 0 {
			return Const(bigZero, a.w)
		}
		// small quotient: chain of comparisons
		q := new(big.Int).Div(a.UB(), b.val)
		if q.IsInt64() && q.Int64() <= 4 {
			r := Const(bigZero, a.w)
			for i := int64(1); i <= q.Int64(); i++ {
				lim := new(big.Int).Mul(b.val, big.NewInt(i))
				r = Ite(Ult(a, Const(lim, a.w)), r, ConstI(i, a.w))
			}
			return r
		}
	}
	return intern(&Term{op: OUdiv, w: a.w, args: []*Term{a, b}})
}

func Urem(a, b *Term) *Term {
	if b.isConst() && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return Urem(v, b) }); r != nil {
			return r
		}
	}
	if b.isConst() && b.val.Sign() > 0 {
		if a.isConst() {
			return Const(new(big.Int).Mod(a.val, b.val), a.w)
		}
		if k := int(b.val.TrailingZeroBits()); b.val.BitLen() == k+1 {
			if k == 0 {
				return Const(bigZero, a.w)
			}
			if k >= a.w {
				return a
			}
			return Zext(Extract(k-1, 0, a), a.w)
		}
		if a.UB().Cmp(b.val) < 0 {
			return a
		}
		q := new(big.Int).Div(a.UB(), b.val)
		if q.IsInt64() && q.Int64() <= 4 {
			r := a
			for i := int64(1); i <= q.Int64(); i++ {
				lim := new(big.Int).Mul(b.val, big.NewInt(i))
				r = Ite(Ult(a, Const(lim, a.w)), r, Sub(a, Const(lim, a.w)))
			}
			// keep the bound
			return setUB(r, new(big.Int).Sub(b.val, bigOne))
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], Urem(a.args[1], b), Urem(a.args[2], b))
		}
	}
	return intern(&Term{op: OUrem, w: a.w, args: []*Term{a, b}})
}

func setUB(t *Term, ub *big.Int) *Term {
	if t.UB().Cmp(ub) > 0 {
		t.ub = ub
	}
	return t
}

func Sdiv(a, b *Term) *Term {
	if b.isConst() && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return Sdiv(v, b) }); r != nil {
			return r
		}
	}
	half := pow2(a.w - 1)
	if a.UB().Cmp(half) < 0 && b.UB().Cmp(half) < 0 {
		return Udiv(a, b)
	}
	if a.isConst() && b.isConst() && b.val.Sign() != 0 {
		return Const(new(big.Int).Quo(a.signed(), b.signed()), a.w)
	}
	return intern(&Term{op: OSdiv, w: a.w, args: []*Term{a, b}})
}
func Srem(a, b *Term) *Term {
	if b.isConst() && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return Srem(v, b) }); r != nil {
			return r
		}
	}
	half := pow2(a.w - 1)
	if a.UB().Cmp(half) < 0 && b.UB().Cmp(half) < 0 {
		return Urem(a, b)
	}
	if a.isConst() && b.isConst() && b.val.Sign() != 0 {
		return Const(new(big.Int).Rem(a.signed(), b.signed()), a.w)
	}
	return intern(&Term{op: OSrem, w: a.w, args: []*Term{a, b}})
}

func BNot(a *Term) *Term {
	if a.isConst() {
		return Const(new(big.Int).Xor(a.val, maxOf(a.w)), a.w)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return Ite(a.args[0], BNot(a.args[1]), BNot(a.args[2]))
	}
	return intern(&Term{op: OBNot, w: a.w, args: []*Term{a}})
}

// maskParts splits a by the runs of a constant mask
func runs(v *big.Int, w int, f func(hi, lo int, bit uint) *Term) *Term {
	var parts []*Term
	i := w - 1
	for i >= 0 {
		b := v.Bit(i)
		j := i
		for j >= 0 && v.Bit(j) == b {
			j--
		}
		parts = append(parts, f(i, j+1, b))
		i = j
	}
	return Concat(parts...)
}

func BAnd(a, b *Term) *Term {
	if b.isConst() && a.op == OIte {
		if r := chainMap(a, func(v *Term) *Term { return BAnd(v, b) }); r != nil {
			return r
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return Const(new(big.Int).And(a.val, b.val), a.w)
		}
		return runs(b.val, a.w, func(hi, lo int, bit uint) *Term {
			if bit == 1 {
				return Extract(hi, lo, a)
			}
			return Const(bigZero, hi-lo+1)
		})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OBAnd, w: a.w, args: []*Term{a, b}})
}
func BOr(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return Const(new(big.Int).Or(a.val, b.val), a.w)
		}
		return runs(b.val, a.w, func(hi, lo int, bit uint) *Term {
			if bit == 0 {
				return Extract(hi, lo, a)
			}
			return Const(maxOf(hi-lo+1), hi-lo+1)
		})
	}
	if r := disjointOr(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OBOr, w: a.w, args: []*Term{a, b}})
}
func BXor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return Const(bigZero, a.w)
	}
	if b.isConst() {
		if a.isConst() {
			return Const(new(big.Int).Xor(a.val, b.val), a.w)
		}
		if b.val.Sign() == 0 {
			return a
		}
		return runs(b.val, a.w, func(hi, lo int, bit uint) *Term {
			if bit == 0 {
				return Extract(hi, lo, a)
			}
			return BNot(Extract(hi, lo, a))
		})
	}
	if r := disjointOr(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OBXor, w: a.w, args: []*Term{a, b}})
}

// shifts: the count is a term of the same width, interpreted unsigned; counts >= w give 0 / sign
func Shl(a, k *Term) *Term {
	if k.isConst() {
		if !k.val.IsInt64() || k.val.Int64() >= int64(a.w) {
			return Const(bigZero, a.w)
		}
		return ShlC(a, int(k.val.Int64()))
	}
	return intern(&Term{op: OShl, w: a.w, args: []*Term{a, k}})
}
func Lshr(a, k *Term) *Term {
	if k.isConst() {
		if !k.val.IsInt64() || k.val.Int64() >= int64(a.w) {
			return Const(bigZero, a.w)
		}
		return LshrC(a, int(k.val.Int64()))
	}
	return intern(&Term{op: OLshr, w: a.w, args: []*Term{a, k}})
}
func Ashr(a, k *Term) *Term {
	if k.isConst() {
		if !k.val.IsInt64() || k.val.Int64() >= int64(a.w) {
			return AshrC(a, a.w)
		}
		return AshrC(a, int(k.val.Int64()))
	}
	return intern(&Term{op: OAshr, w: a.w, args: []*Term{a, k}})
}

// ---- characters

func hexDigit(v int, up bool) byte {
	if up {
		return "0123456789ABCDEF"[v]
	}
	return "0123456789abcdef"[v]
}

func HexLo(n *Term) *Term {
	if n.isConst() {
		return ConstU(uint64(hexDigit(int(n.val.Int64()), false)), 8)
	}
	return intern(&Term{op: OHexLo, w: 8, args: []*Term{n}})
}
func HexUp(n *Term) *Term {
	if n.isConst() {
		return ConstU(uint64(hexDigit(int(n.val.Int64()), true)), 8)
	}
	return intern(&Term{op: OHexUp, w: 8, args: []*Term{n}})
}

// BitChr is '0' or '1'
func BitChr(b *Term) *Term { return Concat(ConstU(0x18, 7), b) }

func hexCharVal(v int64) (int, bool) {
	switch {
	case v >= '0' && v <= '9':
		return int(v - '0'), true
	case v >= 'a' && v <= 'f':
		return int(v - 'a' + 10), true
	case v >= 'A' && v <= 'F':
		return int(v - 'A' + 10), true
	}
	return 0, false
}

func HexVal(c *Term) *Term {
	switch c.op {
	case OConst:
		v, _ := hexCharVal(c.val.Int64())
		return ConstU(uint64(v), 4)
	case OHexLo, OHexUp:
		return c.args[0]
	case OIte:
		return Ite(c.args[0], HexVal(c.args[1]), HexVal(c.args[2]))
	case OConcat:
		if len(c.args) == 2 && c.args[0].isConst() && c.args[0].w == 7 && c.args[0].val.Int64() == 0x18 {
			return Zext(c.args[1], 4)
		}
	}
	return intern(&Term{op: OHexVal, w: 4, args: []*Term{c}})
}
func HexOk(c *Term) *Term {
	switch c.op {
	case OConst:
		_, ok := hexCharVal(c.val.Int64())
		return Bool(ok)
	case OHexLo, OHexUp:
		return TTrue
	case OIte:
		return Ite(c.args[0], HexOk(c.args[1]), HexOk(c.args[2]))
	case OConcat:
		if len(c.args) == 2 && c.args[0].isConst() && c.args[0].w == 7 && c.args[0].val.Int64() == 0x18 {
			return TTrue
		}
	}
	return intern(&Term{op: OHexOk, args: []*Term{c}})
}

// digitOf returns (is a valid digit in base, its value as BV8)
func digitOf(c *Term, base int) (*Term, *Term) {
	switch {
	case base == 16:
		return HexOk(c), Zext(HexVal(c), 8)
	case base == 2 && c.op == OConcat && len(c.args) == 2 && c.args[0].isConst() && c.args[0].w == 7 && c.args[0].val.Int64() == 0x18:
		return TTrue, Zext(c.args[1], 8)
	case c.op == OIte:
		o1, v1 := digitOf(c.args[1], base)
		o2, v2 := digitOf(c.args[2], base)
		return Ite(c.args[0], o1, o2), Ite(c.args[0], v1, v2)
	}
	// generic: 0-9, a-z, A-Z below the base
	r := func(a, b byte) *Term {
		return And(Not(Ult(c, ConstU(uint64(a), 8))), Ult(c, ConstU(uint64(b)+1, 8)))
	}
	n := base
	if n > 10 {
		n = 10
	}
	ok := r('0', byte('0'+n-1))
	val := Sub(c, ConstU('0', 8))
	if base > 10 {
		lo := r('a', byte('a'+base-11))
		up := r('A', byte('A'+base-11))
		val = Ite(ok, val, Ite(lo, Sub(c, ConstU('a'-10, 8)), Sub(c, ConstU('A'-10, 8))))
		ok = Or(ok, lo, up)
	}
	if base == 2 {
		ok = Or(Eq(c, ConstU('0', 8)), Eq(c, ConstU('1', 8)))
		val = Zext(Extract(0, 0, c), 8)
	}
	return ok, val
}

// ---- tables

var tables = map[string]*Table{}

func mkTable(vals []*big.Int, w, iw int) *Table {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:%d:", w, iw)
	for _, v := range vals {
		sb.WriteString(v.Text(36))
		sb.WriteByte(',')
	}
	k := sb.String()
	if t := tables[k]; t != nil {
		return t
	}
	t := &Table{id: len(tables) + 1, w: w, iw: iw, vals: vals, key: k, inj: map[string][]int{}}
	for i, v := range vals {
		s := v.Text(36)
		t.inj[s] = append(t.inj[s], i)
	}
	tables[k] = t
	return t
}

// Lookup is vals[idx]; indices outside give 0 (callers check bounds).
func Lookup(vals []*big.Int, w int, idx *Term) *Term {
	if idx.isConst() {
		if idx.val.IsInt64() && idx.val.Int64() < int64(len(vals)) {
			return Const(vals[idx.val.Int64()], w)
		}
		return Const(bigZero, w)
	}
	// narrow the index
	iw := 1
	for 1<<uint(iw) < len(vals) {
		iw++
	}
	if idx.w > iw && idx.UB().BitLen() <= iw {
		idx = Extract(iw-1, 0, idx)
	}
	if n := idx.UB(); n.IsInt64() && n.Int64()+1 < int64(len(vals)) {
		vals = vals[:n.Int64()+1]
	}
	same, ident := true, true
	for i, v := range vals {
		if v.Cmp(vals[0]) != 0 {
			same = false
		}
		if !v.IsInt64() || v.Int64() != int64(i) {
			ident = false
		}
	}
	full := idx.UB().Cmp(big.NewInt(int64(len(vals)))) < 0
	if same && full {
		return Const(vals[0], w)
	}
	if ident && full {
		return fit(idx, w)
	}
	if w == 8 && full && len(vals) == 16 {
		lo, up := true, true
		for i, v := range vals {
			if v.Int64() != int64(hexDigit(i, false)) {
				lo = false
			}
			if v.Int64() != int64(hexDigit(i, true)) {
				up = false
			}
		}
		if lo {
			return HexLo(fit(idx, 4))
		}
		if up {
			return HexUp(fit(idx, 4))
		}
	}
	if idx.op == OIte && (idx.args[1].isConst() || idx.args[2].isConst()) && idx.size < 3000 {
		return Ite(idx.args[0], Lookup(vals, w, idx.args[1]), Lookup(vals, w, idx.args[2]))
	}
	if idx.op == OTable && idx.args[0].w <= domMax {
		nv := make([]*big.Int, len(idx.tab.vals))
		for i, v := range idx.tab.vals {
			nv[i] = bigZero
			if v.IsInt64() && v.Int64() < int64(len(vals)) {
				nv[i] = vals[v.Int64()]
			}
		}
		// outside the inner table the outer index is 0
		if a := idx.args[0]; vals[0].Sign() != 0 && a.UB().Cmp(big.NewInt(int64(len(nv)))) >= 0 {
			for len(nv) < 1<<uint(a.w) {
				nv = append(nv, vals[0])
			}
		}
		return Lookup(nv, w, idx.args[0])
	}
	if idx.op == OConcat && idx.args[0].isConst() && idx.args[0].val.Sign() != 0 && len(idx.args) == 2 {
		base := int(idx.args[0].val.Int64()) << uint(idx.args[1].w)
		nv := make([]*big.Int, 1<<uint(idx.args[1].w))
		for i := range nv {
			nv[i] = bigZero
			if base+i < len(vals) {
				nv[i] = vals[base+i]
			}
		}
		return Lookup(nv, w, idx.args[1])
	}
	t := mkTable(vals, w, idx.w)
	return intern(&Term{op: OTable, w: w, tab: t, args: []*Term{idx}})
}

// whole: a small number made of several parts; conditions on it are kept in
// one piece, so that they are tracked as a set of its values
func whole(t *Term) bool {
	if t.op != OConcat || t.w > domMax {
		return false
	}
	for _, x := range t.args {
		if x.isConst() {
			return false
		}
	}
	return true
}

func eqWhole(t *Term, k int) *Term {
	c := ConstU(uint64(k), t.w)
	if whole(t) {
		return intern(&Term{op: OEq, args: []*Term{t, c}})
	}
	return Eq(t, c)
}

func ultWhole(t, c *Term) *Term {
	if whole(t) && c.isConst() && c.val.Sign() > 0 {
		return intern(&Term{op: OUlt, args: []*Term{t, c}})
	}
	return Ult(t, c)
}

// tableCond: the set of indices whose entry satisfies test, as an interval
// where it is one
func tableCond(a *Term, test func(*big.Int) bool) *Term {
	idx := a.args[0]
	n := 1 << uint(idx.w)
	bits := make([]*big.Int, n)
	first, last, count := -1, -1, 0
	for i := range bits {
		v := bigZero
		if i < len(a.tab.vals) {
			v = a.tab.vals[i]
		}
		bits[i] = bigZero
		if test(v) {
			bits[i] = bigOne
			if first < 0 {
				first = i
			}
			last = i
			count++
		}
	}
	switch {
	case count == 0:
		return TFalse
	case count == n:
		return TTrue
	case last-first+1 == count:
		c := TTrue
		if last < n-1 {
			c = ultWhole(idx, ConstU(uint64(last+1), idx.w))
		}
		if first > 0 {
			c = And(c, Not(ultWhole(idx, ConstU(uint64(first), idx.w))))
		}
		return c
	}
	return Eq(Lookup(bits, 1, idx), ConstU(1, 1))
}

// ---- uninterpreted functions

type UF struct {
	name string
	in   []int
	out  int
	ub   *big.Int
	lb   *big.Int
	// concrete evaluation when every argument is constant (optional)
	eval func(args []*big.Int) *big.Int
}

var ufs = map[string]*UF{}

func declUF(name string, in []int, out int, ub *big.Int, eval func([]*big.Int) *big.Int) *UF {
	if f := ufs[name]; f != nil {
		return f
	}
	f := &UF{name: name, in: in, out: out, ub: ub, eval: eval}
	ufs[name] = f
	return f
}

func App(name string, args ...*Term) *Term {
	f := ufs[name]
	if f == nil {
		panic("undeclared uf " + name)
	}
	if name == "gx" && args[0].op == OSub && args[0].args[0].isConst() && args[0].args[0].val.Cmp(curveN) == 0 {
		// opposite points have the same abscissa
		if s := args[0].args[1]; s.UB().Cmp(curveN) < 0 { // (0 and n stand for no point)
			return App(name, s)
		}
	}
	all := true
	for i, a := range args {
		if a.w != f.in[i] {
			panic(fmt.Sprintf("uf %s arg %d width %d want %d", name, i, a.w, f.in[i]))
		}
		if !a.isConst() {
			all = false
		}
	}
	if all && f.eval != nil {
		vs := make([]*big.Int, len(args))
		for i, a := range args {
			vs[i] = a.val
		}
		if r := f.eval(vs); r != nil {
			if f.out == 0 {
				return Bool(r.Sign() != 0)
			}
			return Const(r, f.out)
		}
	}
	return intern(&Term{op: OApp, w: f.out, name: name, args: args})
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return fmt.Sprintf("%s:%d", t.val.Text(16), t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	names := map[Op]string{OApp: t.name, ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "<u", OSlt: "<s", OIte: "ite", OAdd: "+", OSub: "-", OMul: "*", OUdiv: "/u", OUrem: "%u", OConcat: "++", OExtract: fmt.Sprintf("[%d:%d]", t.hi, t.lo), OHexLo: "hexlo", OHexUp: "hexup", OHexVal: "hexval", OHexOk: "hexok", OTable: "table"}
	s := "(" + names[t.op]
	for i, a := range t.args {
		if i > 8 {
			s += " ..."
			break
		}
		s += " " + a.str(d-1)
	}
	return s + ")"
}

type bigInt = big.Int

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
