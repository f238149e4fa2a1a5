package main

// The harness vocabulary: symbolic inputs, assumptions, assertions, and the
// oracles that are defined by the same uninterpreted functions as the models.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
)

type InputRec struct {
	Name string `json:"name"`
	Bits int    `json:"bits"`
	Kind string `json:"kind"`
}

// AssertRec: one assertion site of a harness
type AssertRec struct {
	Site     string  `json:"site"`
	Msg      string  `json:"msg"`
	Trivial  int     `json:"trivial"` // discharged by the encoder's simplifier
	Unsat    int     `json:"unsat"`   // discharged by a solver
	Sat      int     `json:"sat"`     // counterexamples
	Unknown  int     `json:"unknown"` // no answer
	Reached  string  `json:"reached"` // "sat": reachable, with a model
	Time     float64 `json:"time"`
	MaxTime  float64 `json:"max_time"`
	Solver   string  `json:"solver,omitempty"`
	reachTry int
}

// Candidate: an assignment to be replayed on the real code
type Candidate struct {
	Kind  string            `json:"kind"` // assert, end, undecided, witness
	Msg   string            `json:"msg"`
	Site  string            `json:"site"`
	Vars  map[string]string `json:"vars"`
	Verdt string            `json:"verdict,omitempty"`
}

var intrinsics map[string]modelFn

func (ex *Exec) siteOf(w *World) string { return ex.curSite }

func (ex *Exec) input(name string, bits int, kind string) {
	if ex.inputs[name] == nil {
		ex.inputs[name] = &InputRec{name, bits, kind}
	}
}

func cstr(v Value) string {
	s, ok := v.(Str).isConst()
	if !ok {
		unsupported("name must be constant")
	}
	return s
}

func (ex *Exec) freshVar(w *World, name string, bits int, kind string) *Term {
	n := fmt.Sprintf("%s#%d", name, w.next("in:"+name))
	ex.input(n, bits, kind)
	return Var(n, bits)
}

func (ex *Exec) freshRange(w *World, name string, lo, hi *big.Int, kind string) *Term {
	n := fmt.Sprintf("%s#%d", name, w.next("in:"+name))
	bits := max(hi.BitLen(), 1)
	ex.input(n, bits, kind)
	return VarR(n, bits, lo, hi)
}

// modelOf: an assignment for the path condition (and extra conditions)
func (ex *Exec) modelOf(w *World, extra []*Term, budget time.Duration) (Result, map[string]*big.Int, time.Duration) {
	cs := append(append([]*Term(nil), w.pc.terms()...), extra...)
	return ex.solve(cs, budget)
}

func (ex *Exec) solve(cs []*Term, budget time.Duration) (Result, map[string]*big.Int, time.Duration) {
	var tot time.Duration
	type ans struct {
		r Result
		m map[string]*big.Int
		d time.Duration
		s string
	}
	for _, c := range cs {
		if c == TFalse {
			return Unsat, nil, 0
		}
	}
	step := []struct {
		s string
		d time.Duration
	}{{"z3-new", budget / 3}, {"cvc5", budget / 3}, {"z3", budget / 3}}
	for _, s := range step {
		r, m, d := oneShot(cs, s.d, s.s)
		tot += d
		ex.oneshots++
		ex.oneshotTime += d
		if r != Unknown {
			ex.lastSolver = s.s
			return r, m, tot
		}
	}
	return Unknown, nil, tot
}

func hexVars(m map[string]*big.Int) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		if strings.Contains(k, "#") {
			r[k] = v.Text(16)
		}
	}
	return r
}

func (ex *Exec) candidate(kind, site, msg string, m map[string]*big.Int) {
	n := 0
	for _, c := range ex.cands {
		if c.Kind == kind && c.Site == site && c.Msg == msg {
			n++
		}
	}
	if n >= 3 {
		return
	}
	c := &Candidate{Kind: kind, Site: site, Msg: msg, Vars: hexVars(m)}
	if ex.params["env"] > 0 {
		for n := range ex.notes {
			if strings.HasPrefix(n, envNote) {
				c.Vars["env:"+n[len(envNote):]] = "1"
			}
		}
	}
	ex.cands = append(ex.cands, c)
	if ex.candFile != "" && kind != "witness" {
		// for the checker, which replays it while the job goes on
		if f, err := os.OpenFile(ex.candFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			b, _ := json.Marshal(c)
			f.Write(append(b, '\n'))
			f.Close()
		}
	}
}

func (ex *Exec) assertRec(site, msg string) *AssertRec {
	for _, a := range ex.asserts {
		if a.Site == site && a.Msg == msg {
			return a
		}
	}
	a := &AssertRec{Site: site, Msg: msg}
	ex.asserts = append(ex.asserts, a)
	return a
}

func (ex *Exec) doAssert(w *World, c *Term, site, msg string) []Outcome {
	a := ex.assertRec(site, msg)
	if a.Reached != "sat" && a.reachTry < 4 {
		a.reachTry++
		r, m, _ := ex.modelOf(w, nil, 30*time.Second)
		if r == Sat {
			a.Reached = "sat"
			ex.candidate("witness", site, msg, m)
		} else if r == Unknown {
			a.Reached = "unknown"
		}
		ex.reachQ++
	}
	if c == TTrue {
		a.Trivial++
		return ret1(w, TupleV{})
	}
	t0 := time.Now()
	cs := append(append([]*Term(nil), w.pc.terms()...), Not(c))
	r := ex.checkFocus(w.pc.terms(), Not(c))
	if os.Getenv("SYM_DUMP") != "" {
		for _, x := range cs {
			fmt.Fprintln(os.Stderr, "  ", x.str(12))
		}
	}
	ex.lastSolver = "z3-new (incremental)"
	var m map[string]*big.Int
	if r != Unsat {
		var r2 Result
		r2, m, _ = ex.solve(cs, ex.queryBudget)
		r = r2
	}
	d := time.Since(t0).Seconds()
	a.Time += d
	if d > a.MaxTime {
		a.MaxTime = d
	}
	switch r {
	case Unsat:
		a.Unsat++
		a.Solver = ex.lastSolver
	case Sat:
		a.Sat++
		ex.candidate("assert", site, msg, m)
	default:
		a.Unknown++
		// the path itself as a test
		if rr, mm, _ := ex.modelOf(w, nil, 20*time.Second); rr == Sat {
			ex.candidate("undecided", site, msg, mm)
		}
	}
	if !w.assume(c) {
		return nil
	}
	if r == Sat && !ex.feasible(w, TTrue) {
		return nil
	}
	return ret1(w, TupleV{})
}

// finish handles the ends of the harness
func (ex *Exec) finish(outs []Outcome) {
	for _, o := range outs {
		switch o.kind {
		case oRet:
			ex.ends["return"]++
		case oPanic, oExit:
			k := "panic"
			if o.kind == oExit {
				k = "exit"
			}
			if o.w.quiet && o.kind == oExit && o.w.sink > 0 {
				if r, m, _ := ex.modelOf(o.w, nil, ex.queryBudget); r == Sat {
					ex.ends["written before the exit"]++
					ex.candidate("end", o.pos, "written to the standard streams before the process ended: "+o.msg, m)
					continue
				}
			}
			if o.w.mayEnd {
				ex.ends[k+" (allowed)"]++
				continue
			}
			msg := k + ": " + o.msg
			r, m, _ := ex.modelOf(o.w, nil, ex.queryBudget)
			switch r {
			case Sat:
				ex.ends[k]++
				ex.candidate("end", o.pos, msg, m)
			case Unsat:
				ex.ends[k+" (infeasible)"]++
			default:
				ex.ends[k+" (undecided)"]++
				ex.undecided[msg]++
			}
		default:
			k := "unsupported: " + o.msg
			if o.kind == oCut {
				k = "bound: " + o.msg
			}
			r, m, _ := ex.modelOf(o.w, nil, 30*time.Second)
			if r == Unsat {
				ex.ends["infeasible"]++
				continue
			}
			ex.ends[k]++
			ex.undecided[k]++
			if r == Sat {
				ex.candidate("undecided", o.pos, k, m)
			}
		}
	}
}

func keysOf(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// frozen copies of the heap for C21
type frozen struct {
	objs map[ObjID]*Obj
}

func (ex *Exec) snapshot(w *World) map[ObjID]*Obj {
	r := map[ObjID]*Obj{}
	for id, o := range baseHeap {
		r[id] = o
	}
	for id, o := range w.heap {
		r[id] = o
		o.owner = nil
	}
	return r
}

func initIntrinsics() {
	I := func(n string, f modelA) { modelFnI(n, f) }
	I("vfParam", func(ex *Exec, w *World, a []Value) []Outcome {
		v, ok := ex.params[cstr(a[0])]
		if !ok {
			unsupported("harness parameter %s missing", cstr(a[0]))
		}
		return ret1(w, ConstI(int64(v), 64))
	})
	I("vfSymbolic", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, TTrue) })
	I("vfBytes", func(ex *Exec, w *World, a []Value) []Outcome {
		n := mustInt(a[1])
		if n == 0 {
			return ret1(w, ex.mkBytes(w, nil))
		}
		v := ex.freshVar(w, cstr(a[0]), int(n)*8, "bytes")
		return ret1(w, ex.mkBytes(w, termBytes(v)))
	})
	I("vfScalar", func(ex *Exec, w *World, a []Value) []Outcome {
		v := ex.freshRange(w, cstr(a[0]), bigOne, new(big.Int).Sub(curveN, bigOne), "scalar")
		return ret1(w, ex.newBig(w, BigV{TFalse, v}))
	})
	I("vfBig", func(ex *Exec, w *World, a []Value) []Outcome {
		v := ex.freshVar(w, cstr(a[0]), int(mustInt(a[1])), "big")
		return ret1(w, ex.newBig(w, mkBig(TFalse, v)))
	})
	I("vfBool", func(ex *Exec, w *World, a []Value) []Outcome {
		v := ex.freshVar(w, cstr(a[0]), 1, "bool")
		return ret1(w, Eq(v, ConstU(1, 1)))
	})
	I("vfInt", func(ex *Exec, w *World, a []Value) []Outcome {
		lo, hi := mustInt(a[1]), mustInt(a[2])
		v := ex.freshRange(w, cstr(a[0]), big.NewInt(lo), big.NewInt(hi), "int")
		return ret1(w, fit(v, 64))
	})
	I("vfChoice", func(ex *Exec, w *World, a []Value) []Outcome {
		lo, hi := mustInt(a[1]), mustInt(a[2])
		v := ex.freshRange(w, cstr(a[0]), big.NewInt(lo), big.NewInt(hi), "int")
		if lo == hi {
			return ret1(w, ConstI(lo, 64))
		}
		var out []Outcome
		for i := lo; i <= hi; i++ {
			if n := w.with(Eq(v, ConstU(uint64(i), v.w))); n != nil {
				out = append(out, Outcome{w: n, kind: oRet, ret: ConstI(i, 64)})
			}
		}
		return out
	})
	I("vfAssume", func(ex *Exec, w *World, a []Value) []Outcome {
		c := a[0].(*Term)
		if c == TFalse || !ex.feasible(w, c) {
			ex.ends["assumed away"]++
			return nil
		}
		if !w.assume(c) {
			return nil
		}
		return ret1(w, TupleV{})
	})
	I("vfAssert", func(ex *Exec, w *World, a []Value) []Outcome {
		return ex.doAssert(w, a[0].(*Term), ex.curSite, cstr(a[1]))
	})
	I("vfMayEnd", func(ex *Exec, w *World, a []Value) []Outcome {
		w.mayEnd = a[0].(*Term) == TTrue
		return ret1(w, TupleV{})
	})
	I("vfSink", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, ConstU(uint64(w.sink), 64)) })
	I("vfBase", func(ex *Exec, w *World, a []Value) []Outcome {
		k := w256(ex.bigGet(w, a[0]).mag)
		return ret1(w, TupleV{ex.newBig(w, mkBig(TFalse, App("gx", k))), ex.newBig(w, mkBig(TFalse, App("gy", k)))})
	})
	std := curveInfo{std: true, nb: 256}
	I("vfOnCurve", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, ex.onCurveTerm(w, ex.bigGet(w, a[0]), ex.bigGet(w, a[1]), std))
	})
	I("vfIsX", func(ex *Exec, w *World, a []Value) []Outcome {
		_, on := ex.yRoot(w, ex.bigGet(w, a[0]))
		return ret1(w, on)
	})
	I("vfB58", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, b58Str(ex.sliceBytes(w, a[0].(SliceV))))
	})
	I("vfB58Char", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, isB58Char(a[0].(*Term))) })
	// vfHex: the digits of b, each in an arbitrary case chosen by the bits of cs
	I("vfHex", func(ex *Exec, w *World, a []Value) []Outcome {
		b := ex.sliceBytes(w, a[0].(SliceV))
		cs := ex.sliceBytes(w, a[1].(SliceV))
		out := make([]*Term, 2*len(b))
		for i := range out {
			nb := Extract(7, 4, b[i/2])
			if i%2 == 1 {
				nb = Extract(3, 0, b[i/2])
			}
			out[i] = HexLo(nb)
			if i/8 < len(cs) {
				bit := Extract(i%8, i%8, cs[i/8])
				out[i] = Ite(Eq(bit, ConstU(1, 1)), HexUp(nb), HexLo(nb))
			}
		}
		return ret1(w, bytesStr(out))
	})
	// vfHexIs: s is the hexadecimal digits of b, in any case
	I("vfHexIs", func(ex *Exec, w *World, a []Value) []Outcome {
		s := a[0].(Str)
		b := ex.sliceBytes(w, a[1].(SliceV))
		if s.hasAtom() {
			unsupported("vfHexIs of an opaque string")
		}
		if s.clen() != 2*len(b) {
			return ret1(w, TFalse)
		}
		c := s.bytes()
		r := TTrue
		for i := range b {
			r = And(r, HexOk(c[2*i]), HexOk(c[2*i+1]), Eq(HexVal(c[2*i]), Extract(7, 4, b[i])), Eq(HexVal(c[2*i+1]), Extract(3, 0, b[i])))
		}
		return ret1(w, r)
	})
	I("vfIsHex", func(ex *Exec, w *World, a []Value) []Outcome {
		r := TTrue
		for _, c := range a[0].(Str).bytes() {
			r = And(r, HexOk(c))
		}
		return ret1(w, r)
	})
	// vfHexNum: the value of a string of hexadecimal digits
	I("vfHexNum", func(ex *Exec, w *World, a []Value) []Outcome {
		c := a[0].(Str).bytes()
		vs := make([]*Term, len(c))
		for i := range c {
			vs[i] = HexVal(c[i])
		}
		m := Concat(vs...)
		if m.w < 8 {
			m = fit(m, 8)
		}
		return ret1(w, ex.newBig(w, mkBig(TFalse, m)))
	})
	// vfAnd / vfOr: without branching
	I("vfAnd", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, And(a[0].(*Term), a[1].(*Term))) })
	I("vfOr", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, Or(a[0].(*Term), a[1].(*Term))) })
	I("vfFreeze", func(ex *Exec, w *World, a []Value) []Outcome {
		// initialise the packages whose globals are compared
		for _, p := range ex.prog.AllPackages() {
			if p.Pkg.Path() == ex.repoPath || strings.HasPrefix(p.Pkg.Path(), ex.repoPath+"/") {
				for _, m := range p.Members {
					if g, ok := m.(interface{ Type() types.Type }); ok {
						_ = g
					}
				}
				ex.ensureInit(p)
			}
		}
		k := w.next("freeze")
		_ = k
		ex.frozenHeap = ex.snapshot(w)
		return ret1(w, TupleV{})
	})
	I("vfFrozenOK", func(ex *Exec, w *World, a []Value) []Outcome {
		r := TTrue
		foreign := map[ObjID]bool{}
		for g, id := range ex.globals {
			if p := g.Pkg.Pkg.Path(); p != ex.repoPath && !strings.HasPrefix(p, ex.repoPath+"/") {
				foreign[id] = true
			}
		}
		var ids []int
		for id := range w.heap {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		for _, i := range ids {
			id := ObjID(i)
			old := ex.frozenHeap[id]
			if old == nil || old == w.heap[id] || foreign[id] || isZeroVal(old.val) {
				continue
			}
			if _, ok := old.val.(MapC); ok {
				continue // a memo; what it does to results is checked on the results
			}
			r = And(r, ex.rawEq(old.val, w.heap[id].val))
		}
		return ret1(w, r)
	})
	I("vfQuiet", func(ex *Exec, w *World, a []Value) []Outcome {
		w.quiet = a[0].(*Term) == TTrue
		return ret1(w, TupleV{})
	})
	// vfWordIndex: the index of a word that is known to come from the list;
	// any other string goes through the loop of the harness
	I("vfWordIndex", func(ex *Exec, w *World, a []Value) []Outcome {
		els := ex.sliceElems(w, a[0].(SliceV))
		ws := make([]string, len(els))
		for i := range els {
			c, ok := els[i].(Str).isConst()
			if !ok {
				return fall(w)
			}
			ws[i] = c
		}
		find := func(c string) int64 {
			for i := range ws {
				if ws[i] == c {
					return int64(i)
				}
			}
			return -1
		}
		s := a[1].(Str)
		if c, ok := s.isConst(); ok {
			return ret1(w, ConstI(find(c), 64))
		}
		if len(s.segs) == 1 && s.segs[0].atom != nil && s.segs[0].atom.kind == "word" {
			at := s.segs[0].atom
			tab := make([]*big.Int, len(at.tab.words))
			same := len(ws) == len(at.tab.words)
			for i, c := range at.tab.words {
				k := find(c)
				if k < 0 {
					k = 0xFFFF
				}
				if k != int64(i) {
					same = false
				}
				tab[i] = big.NewInt(k)
			}
			if same {
				return ret1(w, fit(at.idx, 64))
			}
			t := Lookup(tab, 16, at.idx)
			return ret1(w, Ite(Eq(t, ConstU(0xFFFF, 16)), ConstI(-1, 64), fit(t, 64)))
		}
		return fall(w)
	})
	I("vfNote", func(ex *Exec, w *World, a []Value) []Outcome { return ret1(w, TupleV{}) })
	I("vfDebug", func(ex *Exec, w *World, a []Value) []Outcome {
		iv := a[0].(IfaceV)
		fmt.Fprintf(os.Stderr, "DEBUG %T %v\n", iv.val, iv.val)
		if p, ok := iv.val.(Ptr); ok && !p.isNil() {
			fmt.Fprintf(os.Stderr, "   -> %v\n", ex.load(w, p))
		}
		return ret1(w, TupleV{})
	})
}

// rawEq: same contents, pointers compared as references
func (ex *Exec) rawEq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return TFalse
		}
		if x == y {
			return TTrue
		}
		return Eq(x, y)
	case Str:
		y, ok := b.(Str)
		if !ok {
			return TFalse
		}
		return strEq(x, y)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return TFalse
		}
		return ptrEq(x, y)
	case BigV:
		y, ok := b.(BigV)
		if !ok {
			return TFalse
		}
		m, n := same(x.mag, y.mag)
		return And(Eq(x.neg, y.neg), Eq(m, n))
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x) != len(y) {
			return TFalse
		}
		r := TTrue
		for i := range x {
			r = And(r, ex.rawEq(x[i], y[i]))
		}
		return r
	case ArrayV:
		y, ok := b.(ArrayV)
		if !ok || len(x) != len(y) {
			return TFalse
		}
		var cs []*Term
		for i := range x {
			if p, ok := x[i].(Str); ok {
				q, ok := y[i].(Str)
				if ok {
					c1, k1 := p.isConst()
					c2, k2 := q.isConst()
					if k1 && k2 {
						if c1 != c2 {
							return TFalse
						}
						continue
					}
				}
			}
			cs = append(cs, ex.rawEq(x[i], y[i]))
		}
		return And(cs...)
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return TFalse
		}
		if x.rope != nil || y.rope != nil {
			if x.rope != nil && y.rope != nil {
				return strEq(*x.rope, *y.rope)
			}
			return TFalse
		}
		return Bool(x.obj == y.obj && x.off == y.off && x.len == y.len)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return TFalse
		}
		if x.typ == nil || y.typ == nil {
			return Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return TFalse
		}
		return ex.rawEq(x.val, y.val)
	case FuncV:
		y, ok := b.(FuncV)
		return Bool(ok && x.fn == y.fn && x.nat == y.nat)
	case MapV:
		y, ok := b.(MapV)
		return Bool(ok && x.obj == y.obj)
	}
	return unknownBool("contents")
}

func modelFnI(n string, f modelA) {
	if intrinsics == nil {
		intrinsics = map[string]modelFn{}
	}
	intrinsics[n] = wrapA(f)
}

// isZeroVal: nil, 0, "" and aggregates of them
func isZeroVal(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Term:
		return x == TFalse || x.isConst() && x.val.Sign() == 0
	case Str:
		c, ok := x.isConst()
		return ok && c == ""
	case Ptr:
		return x.isNil()
	case SliceV:
		return x.obj == 0 && x.rope == nil && x.len == 0
	case MapV:
		return x.obj == 0
	case IfaceV:
		return x.typ == nil
	case FuncV:
		return x.isNil()
	case StructV:
		for _, y := range x {
			if !isZeroVal(y) {
				return false
			}
		}
		return true
	case ArrayV:
		for _, y := range x {
			if !isZeroVal(y) {
				return false
			}
		}
		return true
	}
	return false
}
