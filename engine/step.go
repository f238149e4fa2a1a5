package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// require continues only where c holds; elsewhere the program panics.
func (r *runCtx) require(s *FState, c *Term, msg string, pos token.Pos) bool {
	if c == TTrue {
		return true
	}
	ex := r.ex
	if ex.feasible(s.w, Not(c)) {
		if pw := s.w.with(Not(c)); pw != nil {
			ps := &FState{w: pw, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip, defers: s.defers, iters: s.iters}
			r.doPanic(ps, nil, msg, posOf(r.fi.fn, pos))
		}
	}
	if c == TFalse || !ex.feasible(s.w, c) {
		return false
	}
	return s.w.assume(c)
}

// doPanic unwinds this frame: runs deferred calls, then reports the outcome.
func (r *runCtx) doPanic(s *FState, val Value, msg, pos string) {
	if len(s.defers) == 0 {
		r.out(Outcome{w: s.w, kind: oPanic, msg: msg, pos: pos, pval: val})
		return
	}
	if val == nil {
		val = IfaceV{typ: types.Typ[types.String], val: constStr(msg)}
	}
	s.w.pan = &PanicInfo{val: val, msg: msg, pos: pos}
	for _, x := range r.runDefers(s) {
		if x.w.pan != nil && x.w.pan.recovered {
			x.w.pan = nil
			if r.fi.fn.Recover != nil {
				x.blk = r.fi.fn.Recover
				x.ip = 0
				x.iters = nil
				r.work = append(r.work, x)
			} else {
				r.out(Outcome{w: x.w, kind: oRet, ret: zeroResults(r.fi.fn)})
			}
			continue
		}
		p := x.w.pan
		x.w.pan = nil
		if p == nil {
			p = &PanicInfo{val: val, msg: msg, pos: pos}
		}
		r.out(Outcome{w: x.w, kind: oPanic, msg: p.msg, pos: p.pos, pval: p.val})
	}
}

func zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return TupleV{}
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (r *runCtx) runDefers(s *FState) []*FState {
	if len(s.defers) == 0 {
		return []*FState{s}
	}
	d := s.defers[len(s.defers)-1]
	s.defers = s.defers[: len(s.defers)-1 : len(s.defers)-1]
	var outs []Outcome
	if d.call != nil && d.call.IsInvoke() {
		outs = r.ex.invoke(s.w, d.fn.(IfaceV), d.call.Method, d.args)
	} else if f, ok := d.fn.(FuncV); ok && f.bi != nil {
		outs = r.ex.builtinOut(s.w, f.bi, d.args, d.call)
	} else {
		outs = r.ex.callValue(s.w, d.fn, d.args)
	}
	var res []*FState
	for i, o := range outs {
		n := s
		if i < len(outs)-1 {
			c := *s
			c.regs = append([]Value(nil), s.regs...)
			n = &c
		}
		n.w = o.w
		switch o.kind {
		case oRet:
			res = append(res, r.runDefers(n)...)
		case oPanic:
			n.w.pan = &PanicInfo{val: o.pval, msg: o.msg, pos: o.pos}
			res = append(res, r.runDefers(n)...)
		default:
			r.out(o)
		}
	}
	return res
}

// exec runs s until it leaves the block, ends, or has to wait for the others
// of its group.
func (r *runCtx) exec(s *FState, grouped bool) {
	defer func() {
		if x := recover(); x != nil {
			where := ""
			if s.ip < len(s.blk.Instrs) {
				where = posOf(r.fi.fn, s.blk.Instrs[s.ip].Pos())
			}
			switch e := x.(type) {
			case unsup:
				r.out(Outcome{w: s.w, kind: oUnsup, msg: r.fi.fn.String() + ": " + e.msg, pos: where})
			case goPanic:
				r.doPanicSafe(s, e.msg, where)
			default:
				fmt.Println("internal error in", r.fi.fn, "block", s.blk.Index, "instr", s.ip, s.blk.Instrs[s.ip])
				panic(x)
			}
		}
	}()
	ex := r.ex
	for {
		ex.steps++
		if ex.steps&1023 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.stopped = "time limit"
		}
		if ex.stopped != "" || (ex.maxSteps > 0 && ex.steps > ex.maxSteps) {
			if ex.stopped == "" {
				ex.stopped = "step limit"
			}
			r.out(Outcome{w: s.w, kind: oCut, msg: ex.stopped})
			return
		}
		in := s.blk.Instrs[s.ip]
		if c, ok := in.(*ssa.Call); ok && !s.fresh {
			if _, b := c.Call.Value.(*ssa.Builtin); !b && r.sameGroup(s) {
				r.work = append(r.work, s)
				return
			}
		}
		s.fresh = false
		if ex.anyNum && r.resolveNums(s, in) {
			return
		}
		if raceOn {
			raceOff = r.trust
		}
		if !r.step(s, in) {
			return
		}
		s.ip++
	}
}

func (r *runCtx) doPanicSafe(s *FState, msg, where string) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(unsup); ok {
				r.out(Outcome{w: s.w, kind: oUnsup, msg: e.msg})
				return
			}
			panic(x)
		}
	}()
	r.doPanic(s, nil, msg, where)
}

// jump moves s to block b (evaluating phis) and schedules it
func (r *runCtx) jump(s *FState, b *ssa.BasicBlock) {
	from := s.blk
	k := -1
	for i, p := range b.Preds {
		if p == from {
			k = i
			break
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, r.val(s, p.Edges[k]))
	}
	for i, p := range phis {
		r.set(s, p, vals[i])
	}
	// loop counters
	cf, ct := r.fi.comps[from.Index], r.fi.comps[b.Index]
	n := 0
	for n < len(cf) && n < len(ct) && cf[n] == ct[n] {
		n++
	}
	it := append([]int(nil), s.iters[:n]...)
	if n > 0 && n == len(ct) && ct[n-1] == b.Index {
		it[n-1]++ // back edge
		if it[n-1] > r.ex.maxIter {
			r.out(Outcome{w: s.w, kind: oCut, msg: fmt.Sprintf("loop bound %d in %s", r.ex.maxIter, r.fi.fn)})
			return
		}
	}
	for i := n; i < len(ct); i++ {
		it = append(it, 0)
	}
	s.iters = it
	s.blk = b
	s.ip = len(phis)
	r.work = append(r.work, s)
}

func (r *runCtx) step(s *FState, in ssa.Instruction) bool {
	if traceFn != "" && strings.Contains(r.fi.fn.String(), traceFn) {
		fmt.Fprintf(os.Stderr, "%s b%d.%d %v iters %v\n", r.fi.fn, s.blk.Index, s.ip, in, s.iters)
	}
	ex := r.ex
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		r.set(s, x, Ptr{obj: s.w.alloc(t, zero(t))})
	case *ssa.UnOp:
		return r.unop(s, x)
	case *ssa.BinOp:
		return r.binop(s, x)
	case *ssa.Call:
		return r.doCall(s, x)
	case *ssa.ChangeInterface:
		r.set(s, x, r.val(s, x.X))
	case *ssa.ChangeType:
		r.set(s, x, r.val(s, x.X))
	case *ssa.Convert:
		return r.convert(s, x)
	case *ssa.MultiConvert:
		unsupported("multiconvert")
	case *ssa.Extract:
		r.set(s, x, r.val(s, x.Tuple).(TupleV)[x.Index])
	case *ssa.Field:
		v, ok := r.val(s, x.X).(StructV)
		if !ok {
			unsupported("field of %T", r.val(s, x.X))
		}
		r.set(s, x, v[x.Field])
	case *ssa.FieldAddr:
		p, ok := r.val(s, x.X).(Ptr)
		if !ok {
			unsupported("field address of %T", r.val(s, x.X))
		}
		if p.isNil() {
			panic(goPanic{"nil pointer dereference"})
		}
		np := append(append([]PElem(nil), p.path...), PElem{k: x.Field})
		r.set(s, x, Ptr{p.obj, np})
	case *ssa.Index:
		return r.index(s, x)
	case *ssa.IndexAddr:
		return r.indexAddr(s, x)
	case *ssa.Lookup:
		return r.lookup(s, x)
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.free = append(f.free, r.val(s, b))
		}
		r.set(s, x, f)
	case *ssa.MakeInterface:
		r.set(s, x, IfaceV{x.X.Type(), r.val(s, x.X)})
	case *ssa.MakeMap:
		r.set(s, x, MapV{s.w.alloc(x.Type(), MapC{})})
	case *ssa.MakeSlice:
		n, ok1 := r.concInt(s, x.Len)
		if !ok1 {
			return false
		}
		c, ok2 := r.concInt(s, x.Cap)
		if !ok2 {
			return false
		}
		if n < 0 || c < n {
			panic(goPanic{"makeslice: len out of range"})
		}
		if c > 1<<22 {
			unsupported("huge slice")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		arr := make(ArrayV, c)
		z := zero(el)
		for i := range arr {
			arr[i] = z
		}
		r.set(s, x, SliceV{obj: s.w.alloc(types.NewArray(el, int64(c)), arr), len: n, cap: c})
	case *ssa.MapUpdate:
		m := r.val(s, x.Map).(MapV)
		if m.obj == 0 {
			panic(goPanic{"assignment to entry in nil map"})
		}
		return r.mapCases(s, m, r.val(s, x.Key), func(s *FState, i int) {
			ex.mapPut(s.w, m, i, r.val(s, x.Key), r.val(s, x.Value))
		})
	case *ssa.Next:
		return r.next(s, x)
	case *ssa.Range:
		switch v := r.val(s, x.X).(type) {
		case Str:
			r.set(s, x, IterV{str: &v})
		case MapV:
			it := IterV{isM: true}
			if v.obj != 0 {
				it.keys = s.w.get(v.obj).val.(MapC).ents
				if len(it.keys) > 1 {
					ex.note("map iteration is explored in insertion order only")
				}
			}
			r.set(s, x, it)
		default:
			unsupported("range over %T", v)
		}
	case *ssa.Slice:
		return r.slice(s, x)
	case *ssa.SliceToArrayPointer:
		v := r.val(s, x.X).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(v.len) < n {
			panic(goPanic{"slice to array: length out of range"})
		}
		if v.isNil() {
			r.set(s, x, Ptr{})
			break
		}
		if v.off != 0 || v.rope != nil || int(n) != ex.arrayLen(s.w, v) {
			// copy-free view is not representable: allow reads through a copy
			els := ex.sliceElems(s.w, v)[:n]
			ex.note("slice-to-array conversion encoded as a copy")
			r.set(s, x, Ptr{obj: s.w.alloc(x.Type().Underlying().(*types.Pointer).Elem(), ArrayV(append([]Value(nil), els...)))})
			break
		}
		r.set(s, x, Ptr{v.obj, v.path})
	case *ssa.Store:
		p, ok := r.val(s, x.Addr).(Ptr)
		if !ok {
			unsupported("store through %T", r.val(s, x.Addr))
		}
		ex.store(s.w, p, r.val(s, x.Val))
	case *ssa.TypeAssert:
		return r.typeAssert(s, x)
	case *ssa.Defer:
		d := deferred{call: &x.Call}
		d.fn = r.val(s, x.Call.Value)
		for _, a := range x.Call.Args {
			d.args = append(d.args, r.val(s, a))
		}
		s.defers = append(s.defers[:len(s.defers):len(s.defers)], d)
	case *ssa.RunDefers:
		if len(s.defers) > 0 {
			ns := r.runDefers(s)
			for _, n := range ns {
				if n.w.pan != nil {
					p := n.w.pan
					n.w.pan = nil
					r.out(Outcome{w: n.w, kind: oPanic, msg: p.msg, pos: p.pos, pval: p.val})
					continue
				}
				n.ip++
				r.work = append(r.work, n)
			}
			return false
		}
	case *ssa.Panic:
		v := r.val(s, x.X)
		r.doPanic(s, v, "panic: "+ex.describe(s.w, v), posOf(r.fi.fn, x.Pos()))
		return false
	case *ssa.Return:
		var ret Value
		switch len(x.Results) {
		case 0:
			ret = TupleV{}
		case 1:
			ret = r.val(s, x.Results[0])
		default:
			t := make(TupleV, len(x.Results))
			for i, v := range x.Results {
				t[i] = r.val(s, v)
			}
			ret = t
		}
		r.out(Outcome{w: s.w, kind: oRet, ret: ret})
		return false
	case *ssa.Jump:
		r.jump(s, s.blk.Succs[0])
		return false
	case *ssa.If:
		c, ok := r.val(s, x.Cond).(*Term)
		if !ok {
			unsupported("condition %T", r.val(s, x.Cond))
		}
		if c.isLit() {
			if c == TTrue {
				r.jump(s, s.blk.Succs[0])
			} else {
				r.jump(s, s.blk.Succs[1])
			}
			return false
		}
		switch s.w.pc.decide(c) {
		case 1:
			r.jump(s, s.blk.Succs[0])
			return false
		case -1:
			r.jump(s, s.blk.Succs[1])
			return false
		}
		tw, fw := ex.split(s.w, c)
		if tw != nil && fw != nil {
			f := &FState{w: fw, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip, iters: s.iters, defers: s.defers}
			s.w = tw
			b := s.blk
			r.jump(s, b.Succs[0])
			r.jump(f, b.Succs[1])
		} else if tw != nil {
			s.w = tw
			r.jump(s, s.blk.Succs[0])
		} else if fw != nil {
			s.w = fw
			r.jump(s, s.blk.Succs[1])
		}
		return false
	default:
		unsupported("instruction %T", in)
	}
	return true
}

func (ex *Exec) describe(w *World, v Value) string {
	switch x := v.(type) {
	case IfaceV:
		if x.typ == nil {
			return "nil"
		}
		if s, ok := x.val.(Str); ok {
			c, _ := s.isConst()
			return c
		}
		if p, ok := x.val.(Ptr); ok && !p.isNil() {
			if st, ok := w.peek(p.obj).val.(StructV); ok && len(st) > 0 {
				if s, ok := st[0].(Str); ok {
					c, _ := s.isConst()
					return c
				}
			}
		}
		return x.typ.String()
	}
	return fmt.Sprintf("%T", v)
}

// concInt gives a concrete int for an operand, forking the state over its
// values when it is symbolic (then ok is false: the forks were scheduled).
func (r *runCtx) concInt(s *FState, v ssa.Value) (int, bool) {
	t, ok := r.val(s, v).(*Term)
	if !ok {
		unsupported("integer %T", r.val(s, v))
	}
	signed := isSigned(v.Type())
	if t.isConst() {
		n := t.val
		if signed {
			n = t.signed()
		}
		if !n.IsInt64() {
			return -1, true
		}
		return int(n.Int64()), true
	}
	rg, isReg := r.fi.reg[v]
	if !isReg {
		unsupported("symbolic non-register")
	}
	for _, c := range r.ex.concretize(s.w, t, 300) {
		n := &FState{w: c.w, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip, iters: s.iters, defers: s.defers}
		if n.w == s.w {
			n.w = s.w.fork()
		}
		n.regs[rg] = Const(c.v, t.w)
		r.work = append(r.work, n)
	}
	return 0, false
}

func (r *runCtx) unop(s *FState, x *ssa.UnOp) bool {
	v := r.val(s, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			unsupported("load through %T", v)
		}
		r.set(s, x, r.ex.load(s.w, p))
	case token.NOT:
		r.set(s, x, Not(v.(*Term)))
	case token.SUB:
		if f, ok := v.(FloatV); ok {
			r.set(s, x, -f)
			break
		}
		r.set(s, x, Neg(v.(*Term)))
	case token.XOR:
		r.set(s, x, BNot(v.(*Term)))
	default:
		unsupported("unary %s", x.Op)
	}
	return true
}

func (r *runCtx) binop(s *FState, x *ssa.BinOp) bool {
	a, b := r.val(s, x.X), r.val(s, x.Y)
	switch x.Op {
	case token.EQL:
		r.set(s, x, r.cmpEq(s, a, b))
		return true
	case token.NEQ:
		r.set(s, x, Not(r.cmpEq(s, a, b)))
		return true
	}
	if as, ok := a.(Str); ok {
		bs := b.(Str)
		switch x.Op {
		case token.ADD:
			r.set(s, x, as.concat(bs))
		case token.LSS:
			r.set(s, x, strLess(as, bs))
		case token.GTR:
			r.set(s, x, strLess(bs, as))
		case token.LEQ:
			r.set(s, x, Not(strLess(bs, as)))
		case token.GEQ:
			r.set(s, x, Not(strLess(as, bs)))
		default:
			unsupported("string %s", x.Op)
		}
		return true
	}
	if af, ok := a.(FloatV); ok {
		bf := b.(FloatV)
		switch x.Op {
		case token.ADD:
			r.set(s, x, af+bf)
		case token.SUB:
			r.set(s, x, af-bf)
		case token.MUL:
			r.set(s, x, af*bf)
		case token.QUO:
			r.set(s, x, af/bf)
		case token.LSS:
			r.set(s, x, Bool(af < bf))
		case token.GTR:
			r.set(s, x, Bool(af > bf))
		case token.LEQ:
			r.set(s, x, Bool(af <= bf))
		case token.GEQ:
			r.set(s, x, Bool(af >= bf))
		default:
			unsupported("float %s", x.Op)
		}
		return true
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("binary %s on %T, %T", x.Op, a, b)
	}
	signed := isSigned(x.X.Type())
	var t *Term
	switch x.Op {
	case token.ADD:
		t = Add(at, bt)
	case token.SUB:
		t = Sub(at, bt)
	case token.MUL:
		t = Mul(at, bt)
	case token.QUO, token.REM:
		if !r.require(s, Not(Eq(bt, ConstU(0, bt.w))), "integer divide by zero", x.Pos()) {
			return false
		}
		switch {
		case x.Op == token.QUO && signed:
			t = Sdiv(at, bt)
		case x.Op == token.QUO:
			t = Udiv(at, bt)
		case signed:
			t = Srem(at, bt)
		default:
			t = Urem(at, bt)
		}
	case token.AND:
		if at.isBool() {
			t = And(at, bt)
		} else {
			t = BAnd(at, bt)
		}
	case token.OR:
		if at.isBool() {
			t = Or(at, bt)
		} else {
			t = BOr(at, bt)
		}
	case token.XOR:
		t = BXor(at, bt)
	case token.AND_NOT:
		t = BAnd(at, BNot(bt))
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			if !r.require(s, Not(Slt(bt, ConstU(0, bt.w))), "negative shift amount", x.Pos()) {
				return false
			}
		}
		// bring the count to the width of the operand, saturating
		k := bt
		if bt.w > at.w {
			big := Not(Ult(bt, ConstU(uint64(at.w), bt.w)))
			k = Ite(big, ConstU(uint64(at.w), at.w), Extract(at.w-1, 0, bt))
		} else {
			k = Zext(bt, at.w)
		}
		switch {
		case x.Op == token.SHL:
			t = Shl(at, k)
		case signed:
			t = Ashr(at, k)
		default:
			t = Lshr(at, k)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		p, q := at, bt
		if x.Op == token.GTR || x.Op == token.LEQ {
			p, q = q, p
		}
		if signed {
			t = Slt(p, q)
		} else {
			t = Ult(p, q)
		}
		if x.Op == token.LEQ || x.Op == token.GEQ {
			t = Not(t)
		}
	default:
		unsupported("binary %s", x.Op)
	}
	r.set(s, x, t)
	return true
}

func (r *runCtx) cmpEq(s *FState, a, b Value) *Term {
	// comparing an interface with a concrete value
	ia, oka := a.(IfaceV)
	ib, okb := b.(IfaceV)
	if oka != okb {
		if oka {
			_ = ia
			unsupported("mixed interface comparison")
		}
		_ = ib
		unsupported("mixed interface comparison")
	}
	return r.ex.eqVal(s.w, a, b)
}

func (r *runCtx) index(s *FState, x *ssa.Index) bool {
	switch v := r.val(s, x.X).(type) {
	case ArrayV:
		i := r.val(s, x.Index).(*Term)
		return r.indexInto(s, x, v, i, isSigned(x.Index.Type()), x.Pos())
	case Str:
		return r.strIndex(s, x, v, r.val(s, x.Index).(*Term), isSigned(x.Index.Type()), x.Pos())
	default:
		unsupported("index of %T", v)
	}
	return true
}

func boundOK(i *Term, n int, signed bool) *Term {
	if i.isConst() {
		v := i.val
		if signed {
			v = i.signed()
		}
		return Bool(v.Sign() >= 0 && v.Cmp(big.NewInt(int64(n))) < 0)
	}
	// unsigned comparison covers negative values
	if i.w < 63 && big.NewInt(int64(n)).Cmp(maxOf(i.w)) > 0 {
		return TTrue
	}
	return Ult(i, ConstU(uint64(n), i.w))
}

func (r *runCtx) indexInto(s *FState, x ssa.Value, v []Value, i *Term, signed bool, pos token.Pos) bool {
	if !r.require(s, boundOK(i, len(v), signed), "index out of range", pos) {
		return false
	}
	if i.isConst() {
		r.set(s, x, v[i.val.Int64()])
		return true
	}
	r.set(s, x, selectVal(i, 0, v))
	return true
}

func (r *runCtx) strIndex(s *FState, x ssa.Value, v Str, i *Term, signed bool, pos token.Pos) bool {
	if v.hasAtom() {
		vs := r.ex.materialize(s.w, v)
		if len(vs) == 1 && !vs[0].s.hasAtom() {
			v = vs[0].s
			s.w = vs[0].w
		} else {
			unsupported("index of an opaque string")
		}
	}
	b := v.bytes()
	if !r.require(s, boundOK(i, len(b), signed), "index out of range", pos) {
		return false
	}
	if i.isConst() {
		r.set(s, x, b[i.val.Int64()])
		return true
	}
	vals := make([]Value, len(b))
	for k := range b {
		vals[k] = b[k]
	}
	r.set(s, x, selectVal(i, 0, vals))
	return true
}

func (r *runCtx) indexAddr(s *FState, x *ssa.IndexAddr) bool {
	i := r.val(s, x.Index).(*Term)
	signed := isSigned(x.Index.Type())
	switch v := r.val(s, x.X).(type) {
	case SliceV:
		if v.rope != nil {
			unsupported("index of opaque bytes")
		}
		if !r.require(s, boundOK(i, v.len, signed), "index out of range", x.Pos()) {
			return false
		}
		if !i.isConst() && !selectable(x.Type().Underlying().(*types.Pointer).Elem()) {
			return r.indexCases(s, i, v.len)
		}
		e := PElem{k: v.off, t: i}
		if i.isConst() {
			e = PElem{k: v.off + int(i.val.Int64())}
		}
		r.set(s, x, Ptr{v.obj, append(append([]PElem(nil), v.path...), e)})
	case Ptr:
		if v.isNil() {
			panic(goPanic{"nil pointer dereference"})
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if !r.require(s, boundOK(i, n, signed), "index out of range", x.Pos()) {
			return false
		}
		if !i.isConst() && !selectable(x.Type().Underlying().(*types.Pointer).Elem()) {
			return r.indexCases(s, i, n)
		}
		e := PElem{t: i}
		if i.isConst() {
			e = PElem{k: int(i.val.Int64())}
		}
		r.set(s, x, Ptr{v.obj, append(append([]PElem(nil), v.path...), e)})
	default:
		unsupported("index address of %T", v)
	}
	return true
}

// selectable: elements of the type can be selected by a symbolic index
func selectable(t types.Type) bool {
	if isNamed(t, "math/big", "Int") {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Array:
		return selectable(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !selectable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// indexCases repeats the instruction with each value that the index can have
func (r *runCtx) indexCases(s *FState, i *Term, n int) bool {
	x := s.blk.Instrs[s.ip].(*ssa.IndexAddr)
	if n > 512 {
		unsupported("symbolic index of %s", x.X.Type())
	}
	for k := 0; k < n; k++ {
		c := Eq(i, ConstU(uint64(k), i.w))
		if c == TFalse || !r.ex.feasible(s.w, c) {
			continue
		}
		w := s.w.with(c)
		if w == nil {
			continue
		}
		m := &FState{w: w, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip + 1, iters: s.iters, defers: s.defers}
		var p Ptr
		switch v := r.val(s, x.X).(type) {
		case SliceV:
			p = Ptr{v.obj, append(append([]PElem(nil), v.path...), PElem{k: v.off + k})}
		case Ptr:
			p = Ptr{v.obj, append(append([]PElem(nil), v.path...), PElem{k: k})}
		}
		r.set(m, x, p)
		r.ex.forks++
		r.work = append(r.work, m)
	}
	return false
}

func (ex *Exec) arrayLen(w *World, v SliceV) int {
	a, ok := loadPath(w.peek(v.obj).val, v.path).(ArrayV)
	if !ok {
		unsupported("slice of %T", w.peek(v.obj).val)
	}
	return len(a)
}

// sliceElems: the elements of a slice (not to be modified)
func (ex *Exec) sliceElems(w *World, v SliceV) []Value {
	if v.rope != nil {
		b := v.rope.bytes()
		r := make([]Value, len(b))
		for i := range b {
			r[i] = b[i]
		}
		return r
	}
	if v.obj == 0 {
		return nil
	}
	a, ok := loadPath(w.get(v.obj).val, v.path).(ArrayV)
	if !ok {
		unsupported("slice of %T", w.get(v.obj).val)
	}
	return a[v.off : v.off+v.len]
}

func (ex *Exec) sliceBytes(w *World, v SliceV) []*Term {
	if v.rope != nil {
		return v.rope.bytes()
	}
	els := ex.sliceElems(w, v)
	r := make([]*Term, len(els))
	for i, e := range els {
		r[i] = e.(*Term)
	}
	return r
}

func (ex *Exec) sliceStr(w *World, v SliceV) Str {
	if v.rope != nil {
		return *v.rope
	}
	return bytesStr(ex.sliceBytes(w, v))
}

func (ex *Exec) mkBytes(w *World, b []*Term) SliceV {
	arr := make(ArrayV, len(b))
	for i := range b {
		arr[i] = b[i]
	}
	return SliceV{obj: w.alloc(types.NewArray(types.Typ[types.Uint8], int64(len(b))), arr), len: len(b), cap: len(b)}
}

func (ex *Exec) mkSlice(w *World, el types.Type, vs []Value) SliceV {
	return SliceV{obj: w.alloc(types.NewArray(el, int64(len(vs))), ArrayV(vs)), len: len(vs), cap: len(vs)}
}

func (r *runCtx) slice(s *FState, x *ssa.Slice) bool {
	ex := r.ex
	base := r.val(s, x.X)
	lo, hi, mx := 0, -1, -1
	var ok bool
	// out of range in one state, before the bounds are enumerated
	top := -1
	switch v := base.(type) {
	case Str:
		top = v.clen()
	case SliceV:
		if v.rope == nil {
			top = v.cap
		}
	case Ptr:
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			top = int(a.Len())
		}
	}
	for _, e := range []ssa.Value{x.Low, x.High, x.Max} {
		if e == nil || top < 0 {
			continue
		}
		if t, ok := r.val(s, e).(*Term); ok && !t.isConst() {
			if !r.require(s, boundOK(t, top+1, isSigned(e.Type())), "slice bounds out of range", x.Pos()) {
				return false
			}
		}
	}
	if x.Low != nil {
		if lo, ok = r.concInt(s, x.Low); !ok {
			return false
		}
	}
	if x.High != nil {
		if hi, ok = r.concInt(s, x.High); !ok {
			return false
		}
		if hi < 0 {
			panic(goPanic{"slice bounds out of range"})
		}
	}
	if x.Max != nil {
		if mx, ok = r.concInt(s, x.Max); !ok {
			return false
		}
		if mx < 0 {
			panic(goPanic{"slice bounds out of range"})
		}
	}
	if lo < 0 {
		panic(goPanic{"slice bounds out of range"})
	}
	switch v := base.(type) {
	case Str:
		if v.hasAtom() {
			if lo == 0 && hi < 0 {
				r.set(s, x, v)
				return true
			}
			vs := ex.materialize(s.w, v)
			if len(vs) == 1 && !vs[0].s.hasAtom() {
				v = vs[0].s
				s.w = vs[0].w
			} else {
				// split the state over the shapes of the string
				rg, isReg := r.fi.reg[x.X]
				if !isReg {
					unsupported("slice of an opaque string")
				}
				for _, m := range vs {
					n := &FState{w: m.w, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip, iters: s.iters, defers: s.defers}
					n.regs[rg] = m.s
					r.work = append(r.work, n)
				}
				return false
			}
		}
		n := v.clen()
		if hi < 0 {
			hi = n
		}
		if lo > hi || hi > n {
			panic(goPanic{"slice bounds out of range"})
		}
		r.set(s, x, v.slice(lo, hi))
	case SliceV:
		if v.rope != nil {
			n := v.rope.clen()
			if n < 0 {
				if lo == 0 && hi < 0 {
					r.set(s, x, v)
					return true
				}
				unsupported("slice of opaque bytes")
			}
			v = ex.mkBytes(s.w, v.rope.bytes())
		}
		if hi < 0 {
			hi = v.len
		}
		c := v.cap
		if mx >= 0 {
			if mx > c {
				panic(goPanic{"slice bounds out of range"})
			}
			c = mx
		}
		if lo > hi || hi > c {
			panic(goPanic{"slice bounds out of range"})
		}
		r.set(s, x, SliceV{obj: v.obj, path: v.path, off: v.off + lo, len: hi - lo, cap: c - lo})
	case Ptr:
		if v.isNil() {
			panic(goPanic{"nil pointer dereference"})
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi < 0 {
			hi = n
		}
		c := n
		if mx >= 0 {
			c = mx
		}
		if lo > hi || hi > c || c > n {
			panic(goPanic{"slice bounds out of range"})
		}
		r.set(s, x, SliceV{obj: v.obj, path: v.path, off: lo, len: hi - lo, cap: c - lo})
	default:
		unsupported("slice of %T", v)
	}
	return true
}

func (r *runCtx) lookup(s *FState, x *ssa.Lookup) bool {
	ex := r.ex
	switch v := r.val(s, x.X).(type) {
	case Str:
		return r.strIndex(s, x, v, r.val(s, x.Index).(*Term), isSigned(x.Index.Type()), x.Pos())
	case MapV:
		k := r.val(s, x.Index)
		el := x.X.Type().Underlying().(*types.Map).Elem()
		put := func(s *FState, val Value, ok *Term) {
			if x.CommaOk {
				r.set(s, x, TupleV{val, ok})
			} else {
				r.set(s, x, val)
			}
		}
		if v.obj != 0 {
			if mc := s.w.get(v.obj).val.(MapC); mapForks(k, mc) {
				return r.mapCases(s, v, k, func(s *FState, i int) {
					if i < 0 {
						put(s, zero(el), TFalse)
					} else {
						put(s, mc.ents[i].v, TTrue)
					}
				})
			}
		}
		val, ok := ex.mapGet(s.w, v, k, el)
		if val == nil {
			// values of another shape than the zero value
			t, f := ex.split(s.w, ok)
			for _, w := range []*World{t, f} {
				if w != nil {
					n := &FState{w: w, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip, iters: s.iters, defers: s.defers}
					if v2, ok2 := ex.mapGet(w, v, k, el); v2 != nil {
						put(n, v2, ok2)
					} else {
						unsupported("lookup of a symbolic key")
					}
					n.ip++
					r.work = append(r.work, n)
				}
			}
			return false
		}
		put(s, val, ok)
	default:
		unsupported("lookup in %T", v)
	}
	return true
}

// mapForks: is one state per entry better than a selection among them?
func mapForks(k Value, mc MapC) bool {
	_, ck := constKey(k)
	if len(mc.ents) > 64 && ck && mapIndex(mc) != nil || len(mc.ents) > 200 {
		return false
	}
	for _, e := range mc.ents {
		_, c := constKey(e.k)
		if c && ck {
			continue
		}
		if !c {
			return true
		}
		if !mergeable(e.v, mc.ents[0].v) {
			return true
		}
	}
	return false
}

// mergeable: can mergeVal select among the two?
func mergeable(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.w == y.w
	case BigV:
		_, ok := b.(BigV)
		return ok
	case Str:
		y, ok := b.(Str)
		return ok && (x.clen() >= 0 && x.clen() == y.clen() || strEq(x, y) == TTrue)
	case StructV:
		y, ok := b.(StructV)
		return ok && len(x) == len(y) && allMergeable(x, y)
	case ArrayV:
		y, ok := b.(ArrayV)
		return ok && len(x) == len(y) && allMergeable(x, y)
	case Ptr:
		y, ok := b.(Ptr)
		return ok && ptrEq(x, y) == TTrue
	}
	return false
}

func allMergeable(x, y []Value) bool {
	for i := range x {
		if !mergeable(x[i], y[i]) {
			return false
		}
	}
	return true
}

func constKey(k Value) (string, bool) {
	switch x := k.(type) {
	case Ptr:
		o := "p" + strconv.Itoa(int(x.obj))
		for _, e := range x.path {
			if e.t != nil {
				return "", false
			}
			o += "." + strconv.Itoa(e.k)
		}
		return o, true
	case *Term:
		if x.isConst() {
			return "i" + x.val.Text(16), true
		}
		if x == TTrue || x == TFalse {
			return "b" + x.String(), true
		}
	case Str:
		if c, ok := x.isConst(); ok {
			return "s" + c, true
		}
	case IfaceV:
		if x.typ != nil {
			if c, ok := constKey(x.val); ok {
				return "I" + x.typ.String() + c, true
			}
		}
	case ArrayV:
		o := "a"
		for _, e := range x {
			c, ok := constKey(e)
			if !ok {
				return "", false
			}
			o += c + ";"
		}
		return o, true
	case StructV:
		return constKey(ArrayV(x))
	}
	return "", false
}

// mapFind: the entry with key k (-1: none) for each way the keys may compare
type mapW struct {
	i int
	w *World
}

func (ex *Exec) mapFind(w *World, m MapV, k Value) []mapW {
	mc := w.get(m.obj).val.(MapC)
	ck, ok := constKey(k)
	if len(mc.ents) > 200 && !ok {
		unsupported("large map with a symbolic key")
	}
	if len(mc.ents) > 64 && ok {
		if idx := mapIndex(mc); idx != nil {
			if j, ok := idx[ck]; ok {
				return []mapW{{j, w}}
			}
			return []mapW{{-1, w}}
		}
	}
	var out []mapW
	for i, e := range mc.ents {
		c, ok2 := constKey(e.k)
		if ok && ok2 {
			if c == ck {
				return append(out, mapW{i, w})
			}
			continue
		}
		t, f := ex.split(w, ex.eqVal(w, k, e.k))
		if t != nil {
			out = append(out, mapW{i, t})
		}
		if w = f; w == nil {
			return out
		}
	}
	return append(out, mapW{-1, w})
}

// mapCases runs f once per case; false: the states are queued
func (r *runCtx) mapCases(s *FState, m MapV, k Value, f func(s *FState, i int)) bool {
	cs := r.ex.mapFind(s.w, m, k)
	if len(cs) == 1 {
		s.w = cs[0].w
		f(s, cs[0].i)
		return true
	}
	for _, c := range cs {
		n := &FState{w: c.w, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip + 1, iters: s.iters, defers: s.defers}
		f(n, c.i)
		r.work = append(r.work, n)
	}
	return false
}

// mapPut replaces entry i or adds one
func (ex *Exec) mapPut(w *World, m MapV, i int, k, v Value) {
	if w.race != nil {
		w.touch(m.obj, nil, true)
	}
	o := w.peek(m.obj)
	mc := o.val.(MapC)
	if i >= 0 {
		ents := append([]MapEntry(nil), mc.ents...)
		ents[i].v = v
		w.heap[m.obj] = &Obj{typ: o.typ, val: MapC{ents}, owner: w.own}
		return
	}
	owned := o.owner == w.own && w.heap[m.obj] == o
	var ents []MapEntry
	if owned {
		ents = append(mc.ents, MapEntry{k, v})
	} else {
		ents = append(append(make([]MapEntry, 0, len(mc.ents)*2+8), mc.ents...), MapEntry{k, v})
	}
	w.heap[m.obj] = &Obj{typ: o.typ, val: MapC{ents}, owner: w.own}
	if len(ents) > 64 {
		if ck, ok := constKey(k); ok {
			extendIndex(mc, MapC{ents}, ck)
		}
	}
}

// index of the constant keys of large maps, shared along append chains
type mapIdx struct {
	m map[string]int
	n int
}

var mapIdxs = map[*MapEntry]*mapIdx{}

func mapIndex(mc MapC) map[string]int {
	key := &mc.ents[0]
	mi := mapIdxs[key]
	if mi == nil || mi.n != len(mc.ents) {
		mi = &mapIdx{m: map[string]int{}, n: len(mc.ents)}
		for i, e := range mc.ents {
			c, ok := constKey(e.k)
			if !ok { // not an index of every key
				mi.m = nil
				break
			}
			mi.m[c] = i
		}
		mapIdxs[key] = mi
	}
	return mi.m
}
func extendIndex(old, nw MapC, ck string) {
	key := &nw.ents[0]
	mi := mapIdxs[key]
	if mi == nil && len(old.ents) > 0 {
		mi = mapIdxs[&old.ents[0]]
	}
	if mi != nil && mi.m != nil && mi.n == len(nw.ents)-1 {
		mi.m[ck] = len(nw.ents) - 1
		mi.n = len(nw.ents)
		mapIdxs[key] = mi
	}
}

func (ex *Exec) mapGet(w *World, m MapV, k Value, el types.Type) (Value, *Term) {
	z := zero(el)
	if m.obj == 0 {
		return z, TFalse
	}
	mc := w.get(m.obj).val.(MapC)
	if ck, ok := constKey(k); ok {
		if len(mc.ents) > 64 {
			idx := mapIndex(mc)
			if idx == nil {
				unsupported("large map with symbolic keys")
			}
			if i, ok := idx[ck]; ok {
				return mc.ents[i].v, TTrue
			}
			return z, TFalse
		}
		for _, e := range mc.ents {
			if c, _ := constKey(e.k); c == ck {
				return e.v, TTrue
			}
		}
		return z, TFalse
	}
	// a word of a known table: tabulate
	if s, ok := k.(Str); ok && len(s.segs) == 1 && s.segs[0].atom != nil && s.segs[0].atom.kind == "word" {
		a := s.segs[0].atom
		if _, isT := z.(*Term); isT && z.(*Term).w > 0 && len(mc.ents) > 0 {
			idx := map[string]int{}
			for i, e := range mc.ents {
				c, _ := constKey(e.k)
				idx[c] = i
			}
			vals := make([]*big.Int, len(a.tab.words))
			oks := make([]*big.Int, len(a.tab.words))
			good := true
			for i, wd := range a.tab.words {
				vals[i], oks[i] = bigZero, bigZero
				if j, ok := idx["s"+wd]; ok {
					t := mc.ents[j].v.(*Term)
					if !t.isConst() {
						good = false
						break
					}
					vals[i], oks[i] = t.val, bigOne
				}
			}
			if good {
				return Lookup(vals, z.(*Term).w, a.idx), Eq(Lookup(oks, 1, a.idx), ConstU(1, 1))
			}
		}
	}
	if len(mc.ents) > 5000 {
		unsupported("symbolic key in a large map")
	}
	conds := make([]*Term, len(mc.ents))
	for i, e := range mc.ents {
		conds[i] = ex.eqVal(w, k, e.k)
	}
	found := Or(conds...)
	res := z
	if n := len(mc.ents); n > 0 && !mergeable(z, mc.ents[0].v) {
		switch w.pc.decide(found) {
		case 1:
			res = mc.ents[0].v
		case -1:
			return z, TFalse
		default:
			return nil, found
		}
	}
	for i := len(mc.ents) - 1; i >= 0; i-- {
		if conds[i] != TFalse {
			res = mergeVal(conds[i], mc.ents[i].v, res)
		}
	}
	return res, found
}

func (r *runCtx) next(s *FState, x *ssa.Next) bool {
	it := r.val(s, x.Iter).(IterV)
	rg := r.fi.reg[x.Iter]
	if it.isM {
		if it.pos >= len(it.keys) {
			tt := x.Type().(*types.Tuple)
			r.set(s, x, TupleV{TFalse, zero(tt.At(1).Type()), zero(tt.At(2).Type())})
			return true
		}
		e := it.keys[it.pos]
		it.pos++
		s.regs[rg] = it
		r.set(s, x, TupleV{TTrue, e.k, e.v})
		return true
	}
	str := *it.str
	if str.hasAtom() {
		unsupported("range over an opaque string")
	}
	n := str.clen()
	if it.pos >= n {
		r.set(s, x, TupleV{TFalse, ConstU(0, 64), ConstU(0, 32)})
		return true
	}
	b := str.bytes()
	pos := it.pos
	if c, ok := allConst(b[pos:min(pos+4, n)]); ok {
		rn, sz := decodeRune(c)
		it.pos += sz
		s.regs[rg] = it
		r.set(s, x, TupleV{TTrue, ConstU(uint64(pos), 64), ConstI(int64(rn), 32)})
		return true
	}
	ascii := Ult(b[pos], ConstU(0x80, 8))
	tw, fw := r.ex.split(s.w, ascii)
	if fw != nil {
		// a byte that is not ASCII: exact decoding of multi-byte sequences
		f := &FState{w: fw, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip, iters: s.iters, defers: s.defers}
		for _, d := range decodeRuneSym(r.ex, f.w, b[pos:min(pos+4, n)]) {
			g := &FState{w: d.w, regs: append([]Value(nil), f.regs...), blk: f.blk, ip: f.ip + 1, iters: f.iters, defers: f.defers}
			it2 := it
			it2.pos = pos + d.n
			g.regs[rg] = it2
			r.set(g, x, TupleV{TTrue, ConstU(uint64(pos), 64), d.r})
			r.work = append(r.work, g)
		}
	}
	if tw == nil {
		return false
	}
	s.w = tw
	it.pos++
	s.regs[rg] = it
	r.set(s, x, TupleV{TTrue, ConstU(uint64(pos), 64), Zext(b[pos], 32)})
	return true
}

func (r *runCtx) typeAssert(s *FState, x *ssa.TypeAssert) bool {
	v, ok := r.val(s, x.X).(IfaceV)
	if !ok {
		unsupported("type assertion on %T", r.val(s, x.X))
	}
	good := false
	var res Value
	if v.typ != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(v.typ, it)
			res = v
		} else {
			good = types.Identical(v.typ, x.AssertedType)
			res = v.val
		}
	}
	if x.CommaOk {
		if !good {
			res = zero(x.AssertedType)
		}
		r.set(s, x, TupleV{res, Bool(good)})
		return true
	}
	if !good {
		panic(goPanic{"interface conversion"})
	}
	r.set(s, x, res)
	return true
}

func (r *runCtx) convert(s *FState, x *ssa.Convert) bool {
	v := r.val(s, x.X)
	from, to := x.X.Type(), x.Type()
	switch {
	case isString(to) && isByteSlice(from):
		sl := v.(SliceV)
		r.set(s, x, r.ex.sliceStr(s.w, sl))
		return true
	case isByteSlice(to) && isString(from):
		st := v.(Str)
		if st.hasAtom() {
			vs := r.ex.materializeB58(s.w, st)
			if len(vs) == 1 {
				s.w = vs[0].w
				st = vs[0].s
			}
		}
		if st.hasAtom() {
			r.set(s, x, SliceV{rope: &st, len: -1, cap: -1})
			return true
		}
		r.set(s, x, r.ex.mkBytes(s.w, st.bytes()))
		return true
	case isString(to) && isString(from):
		r.set(s, x, v)
		return true
	case isString(to):
		if t, ok := v.(*Term); ok { // string(rune)
			if t.isConst() {
				r.set(s, x, constStr(string(rune(t.signed().Int64()))))
				return true
			}
			if t.UB().Cmp(big.NewInt(0x80)) < 0 {
				r.set(s, x, bytesStr([]*Term{Extract(7, 0, t)}))
				return true
			}
			unsupported("string of a symbolic rune")
		}
		if sl, ok := v.(SliceV); ok { // []rune
			var bs []*Term
			for _, e := range r.ex.sliceElems(s.w, sl) {
				t := e.(*Term)
				if t.isConst() {
					bs = append(bs, constBytes([]byte(string(rune(t.signed().Int64()))))...)
				} else if t.UB().Cmp(big.NewInt(0x80)) < 0 {
					bs = append(bs, Extract(7, 0, t))
				} else {
					unsupported("string of symbolic runes")
				}
			}
			r.set(s, x, bytesStr(bs))
			return true
		}
	case isString(from): // []rune(s)
		st := v.(Str)
		if c, ok := st.isConst(); ok {
			var els []Value
			for _, rn := range c {
				els = append(els, ConstI(int64(rn), 32))
			}
			r.set(s, x, r.ex.mkSlice(s.w, types.Typ[types.Int32], els))
			return true
		}
		if st.hasAtom() {
			unsupported("runes of an opaque string")
		}
		b := st.bytes()
		asc := TTrue
		for _, c := range b {
			asc = And(asc, Ult(c, ConstU(0x80, 8)))
		}
		tw, fw := r.ex.split(s.w, asc)
		if fw != nil {
			r.out(Outcome{w: fw, kind: oUnsup, msg: "runes of a non-ASCII symbolic string"})
		}
		if tw == nil {
			return false
		}
		s.w = tw
		els := make([]Value, len(b))
		for i := range b {
			els[i] = Zext(b[i], 32)
		}
		r.set(s, x, r.ex.mkSlice(s.w, types.Typ[types.Int32], els))
		return true
	}
	if t, ok := v.(*Term); ok {
		w := widthOf(to)
		if w > 0 {
			switch {
			case w <= t.w:
				r.set(s, x, Extract(w-1, 0, t))
			case isSigned(from):
				r.set(s, x, Sext(t, w))
			default:
				r.set(s, x, Zext(t, w))
			}
			return true
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			if t.isConst() {
				f := new(big.Float).SetInt(t.val)
				if isSigned(from) {
					f = new(big.Float).SetInt(t.signed())
				}
				g, _ := f.Float64()
				r.set(s, x, FloatV(g))
				return true
			}
			unsupported("symbolic float")
		}
	}
	if f, ok := v.(FloatV); ok {
		if w := widthOf(to); w > 0 {
			r.set(s, x, ConstI(int64(f), w))
			return true
		}
		r.set(s, x, f)
		return true
	}
	if p, ok := v.(Ptr); ok { // unsafe.Pointer conversions
		r.set(s, x, p)
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			unsupported("uintptr of a pointer")
		}
		return true
	}
	unsupported("conversion %s -> %s", from, to)
	return false
}

// ------------------------------------------------------------- calls

func (r *runCtx) doCall(s *FState, x *ssa.Call) bool {
	ex := r.ex
	cc := &x.Call
	var args []Value
	for _, a := range cc.Args {
		args = append(args, r.val(s, a))
	}
	var outs []Outcome
	if cc.IsInvoke() {
		iv, ok := r.val(s, cc.Value).(IfaceV)
		if !ok {
			unsupported("invoke on %T", r.val(s, cc.Value))
		}
		if iv.typ == nil {
			panic(goPanic{"nil pointer dereference"})
		}
		outs = ex.invoke(s.w, iv, cc.Method, args)
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		return r.builtin(s, x, b, args)
	} else if fn := cc.StaticCallee(); fn != nil {
		if isInitOf(fn) {
			// imported package initialiser: lazily
			r.set(s, x, TupleV{})
			return true
		}
		var free []Value
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			free = r.val(s, mc).(FuncV).free
		}
		if strings.HasPrefix(fn.Name(), "vf") {
			ex.curSite = posOf(r.fi.fn, x.Pos())
		}
		outs = ex.call(s.w, fn, args, free)
	} else {
		outs = ex.callValue(s.w, r.val(s, cc.Value), args)
	}
	var rets []Outcome
	for _, o := range outs {
		switch o.kind {
		case oRet:
			rets = append(rets, o)
		case oPanic:
			if o.pos == "" || o.pos[0] == '(' {
				o.pos = posOf(r.fi.fn, x.Pos())
			}
			p := &FState{w: o.w, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip, iters: s.iters, defers: s.defers}
			r.doPanic(p, o.pval, o.msg, o.pos)
		default:
			if o.pos == "" {
				o.pos = posOf(r.fi.fn, x.Pos())
			}
			r.out(o)
		}
	}
	if len(rets) == 1 {
		s.w = rets[0].w
		r.set(s, x, rets[0].ret)
		return true
	}
	for _, o := range rets {
		n := &FState{w: o.w, regs: append([]Value(nil), s.regs...), blk: s.blk, ip: s.ip + 1, iters: s.iters, defers: s.defers}
		r.set(n, x, o.ret)
		r.work = append(r.work, n)
	}
	return false
}

func isInitOf(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic == "package initializer"
}

func (ex *Exec) invoke(w *World, iv IfaceV, m *types.Func, args []Value) []Outcome {
	if h, ok := iv.val.(Ptr); ok && !h.isNil() {
		if hv, ok := w.peek(h.obj).val.(HashV); ok {
			w.get(h.obj)
			return ex.hashMethod(w, h, hv, m.Name(), args)
		}
	}
	fn := ex.prog.LookupMethod(iv.typ, m.Pkg(), m.Name())
	if fn == nil {
		return []Outcome{{w: w, kind: oUnsup, msg: "method " + m.FullName() + " of " + iv.typ.String()}}
	}
	return ex.call(w, fn, append([]Value{iv.val}, args...), nil)
}

func (ex *Exec) builtinOut(w *World, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) []Outcome {
	switch b.Name() {
	case "recover":
		return ret1(w, ex.recoverVal(w))
	case "print", "println":
		w.sink++
		return ret1(w, TupleV{})
	}
	unsupported("deferred builtin %s", b.Name())
	return nil
}

func (ex *Exec) recoverVal(w *World) Value {
	if w.pan != nil && !w.pan.recovered {
		p := *w.pan
		p.recovered = true
		w.pan = &p
		if p.val == nil {
			return IfaceV{typ: types.Typ[types.String], val: constStr(p.msg)}
		}
		return p.val
	}
	return IfaceV{}
}

func (r *runCtx) builtin(s *FState, x *ssa.Call, b *ssa.Builtin, args []Value) bool {
	ex := r.ex
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case Str:
			r.set(s, x, ex.strLen(s.w, v))
		case SliceV:
			if v.rope != nil {
				r.set(s, x, ex.strLen(s.w, *v.rope))
			} else if b.Name() == "len" {
				r.set(s, x, ConstU(uint64(v.len), 64))
			} else {
				r.set(s, x, ConstU(uint64(v.cap), 64))
			}
		case ArrayV:
			r.set(s, x, ConstU(uint64(len(v)), 64))
		case Ptr:
			n := x.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			r.set(s, x, ConstU(uint64(n), 64))
		case MapV:
			n := 0
			if v.obj != 0 {
				n = len(s.w.get(v.obj).val.(MapC).ents)
			}
			r.set(s, x, ConstU(uint64(n), 64))
		default:
			unsupported("len of %T", v)
		}
	case "append":
		a := args[0].(SliceV)
		var bs []Value
		switch v := args[1].(type) {
		case SliceV:
			if v.rope != nil && v.rope.hasAtom() || a.rope != nil && a.rope.hasAtom() {
				st := ex.sliceStr(s.w, a).concat(ex.sliceStr(s.w, v))
				r.set(s, x, SliceV{rope: &st, len: -1, cap: -1})
				return true
			}
			bs = ex.sliceElems(s.w, v)
		case Str:
			if v.hasAtom() || a.rope != nil && a.rope.hasAtom() {
				st := ex.sliceStr(s.w, a).concat(v)
				r.set(s, x, SliceV{rope: &st, len: -1, cap: -1})
				return true
			}
			for _, t := range v.bytes() {
				bs = append(bs, t)
			}
		}
		if a.rope != nil {
			a = ex.mkBytes(s.w, a.rope.bytes())
		}
		if len(bs) == 0 {
			r.set(s, x, a)
			return true
		}
		n := a.len + len(bs)
		if n <= a.cap {
			bs = append([]Value(nil), bs...)
			o := s.w.writable(a.obj)
			if len(a.path) == 0 {
				arr := o.val.(ArrayV)
				copy(arr[a.off+a.len:], bs)
			} else {
				for i, e := range bs {
					o.val = storePath(o.val, append(append([]PElem(nil), a.path...), PElem{k: a.off + a.len + i}), e, false)
				}
			}
			r.set(s, x, SliceV{obj: a.obj, path: a.path, off: a.off, len: n, cap: a.cap})
			return true
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		c := growCap(a.cap, n)
		arr := make(ArrayV, c)
		copy(arr, ex.sliceElems(s.w, a))
		copy(arr[a.len:], bs)
		if c > n {
			z := zero(el)
			for i := n; i < c; i++ {
				arr[i] = z
			}
		}
		r.set(s, x, SliceV{obj: s.w.alloc(types.NewArray(el, int64(c)), arr), len: n, cap: c})
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch v := args[1].(type) {
		case SliceV:
			src = ex.sliceElems(s.w, v)
		case Str:
			for _, t := range v.bytes() {
				src = append(src, t)
			}
		}
		n := min(d.len, len(src))
		if n > 0 {
			src = append([]Value(nil), src[:n]...)
			o := s.w.writable(d.obj)
			if len(d.path) == 0 {
				copy(o.val.(ArrayV)[d.off:], src)
			} else {
				for i, e := range src {
					o.val = storePath(o.val, append(append([]PElem(nil), d.path...), PElem{k: d.off + i}), e, false)
				}
			}
		}
		if n < 0 {
			unsupported("copy to opaque bytes")
		}
		r.set(s, x, ConstU(uint64(n), 64))
	case "delete":
		m := args[0].(MapV)
		if m.obj != 0 {
			return r.mapCases(s, m, args[1], func(s *FState, i int) {
				r.set(s, x, TupleV{})
				if i >= 0 {
					old := s.w.get(m.obj).val.(MapC).ents
					ents := append(append(make([]MapEntry, 0, len(old)), old[:i]...), old[i+1:]...)
					s.w.setObj(m.obj, MapC{ents})
				}
			})
		}
		r.set(s, x, TupleV{})
	case "clear":
		switch v := args[0].(type) {
		case MapV:
			if v.obj != 0 {
				s.w.setObj(v.obj, MapC{})
			}
		case SliceV:
			if v.len > 0 {
				o := s.w.writable(v.obj)
				z := zero(x.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := 0; i < v.len; i++ {
					o.val = storePath(o.val, append(append([]PElem(nil), v.path...), PElem{k: v.off + i}), z, false)
				}
			}
		}
		r.set(s, x, TupleV{})
	case "min", "max":
		v := args[0].(*Term)
		sg := isSigned(x.Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			lt := Ult(t, v)
			if sg {
				lt = Slt(t, v)
			}
			if b.Name() == "max" {
				lt = And(Not(lt), Not(Eq(t, v)))
			}
			v = Ite(lt, t, v)
		}
		r.set(s, x, v)
	case "print", "println":
		s.w.sink++
		r.set(s, x, TupleV{})
	case "recover":
		r.set(s, x, ex.recoverVal(s.w))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.isNil() {
			panic(goPanic{"nil pointer dereference"})
		}
		r.set(s, x, args[0])
	case "String": // unsafe.String
		n, ok := r.concInt(s, x.Call.Args[1])
		if !ok {
			return false
		}
		p := args[0].(Ptr)
		if n == 0 {
			r.set(s, x, Str{})
			return true
		}
		last := p.path[len(p.path)-1]
		if last.t != nil {
			unsupported("unsafe.String")
		}
		arr := loadPath(s.w.get(p.obj).val, p.path[:len(p.path)-1]).(ArrayV)
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = arr[last.k+i].(*Term)
		}
		r.set(s, x, bytesStr(bs))
	case "SliceData":
		v := args[0].(SliceV)
		if v.rope != nil {
			unsupported("SliceData of opaque bytes")
		}
		if v.isNil() {
			r.set(s, x, Ptr{})
		} else {
			r.set(s, x, Ptr{v.obj, append(append([]PElem(nil), v.path...), PElem{k: v.off})})
		}
	default:
		unsupported("builtin %s", b.Name())
	}
	return true
}

func growCap(old, n int) int {
	c := old
	if n > 2*c {
		return n
	}
	if c < 256 {
		return 2 * c
	}
	for c < n {
		c += (c + 3*256) / 4
	}
	return c
}
