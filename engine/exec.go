package main

// The symbolic executor: runs SSA functions over symbolic states, joining
// states where control flow joins.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type PanicInfo struct {
	val       Value
	msg       string
	pos       string
	recovered bool
}

// World is what survives a call: path condition, heap, ghost state.
type World struct {
	pc     *PC
	heap   map[ObjID]*Obj
	own    *int
	ctr    map[string]int
	sink   int
	mayEnd bool
	quiet  bool
	pan    *PanicInfo
	label  string
	race   *raceLog
}

func (w *World) fork() *World {
	h := make(map[ObjID]*Obj, len(w.heap)+8)
	for k, v := range w.heap {
		h[k] = v
	}
	w.own = new(int)
	n := *w
	n.heap = h
	n.own = new(int)
	return &n
}

func (w *World) with(c *Term) *World {
	p := w.pc.with(c)
	if p == nil {
		return nil
	}
	n := w.fork()
	n.pc = p
	return n
}

// assume restricts w itself; false if contradictory
func (w *World) assume(c *Term) bool {
	p := w.pc.with(c)
	if p == nil {
		return false
	}
	w.pc = p
	return true
}

func (w *World) next(name string) int {
	m := make(map[string]int, len(w.ctr)+1)
	for k, v := range w.ctr {
		m[k] = v
	}
	n := m[name]
	m[name] = n + 1
	w.ctr = m
	return n
}

// get: an object whose contents the program reads
func (w *World) get(id ObjID) *Obj {
	if w.race != nil {
		w.touch(id, nil, false)
	}
	return w.peek(id)
}

func (w *World) peek(id ObjID) *Obj {
	if o := w.heap[id]; o != nil {
		return o
	}
	if o := baseHeap[id]; o != nil {
		return o
	}
	panic(unsup{fmt.Sprintf("dangling object %d", id)})
}

func (w *World) alloc(t types.Type, v Value) ObjID {
	id := newObjID()
	w.heap[id] = &Obj{typ: t, val: v, owner: w.own}
	return id
}

// writable returns an object of this state that may be modified in place
func (w *World) writable(id ObjID) *Obj {
	if w.race != nil {
		w.touch(id, nil, true)
	}
	return w.wr(id)
}

func (w *World) wr(id ObjID) *Obj {
	o := w.peek(id)
	if o.owner == w.own && w.heap[id] == o {
		return o
	}
	n := &Obj{typ: o.typ, val: copyElems(o.val), owner: w.own, name: o.name}
	w.heap[id] = n
	return n
}

func (w *World) setObj(id ObjID, v Value) {
	if w.race != nil {
		w.touch(id, nil, true)
	}
	o := w.peek(id)
	w.heap[id] = &Obj{typ: o.typ, val: v, owner: nil, name: o.name}
}

const (
	oRet = iota
	oPanic
	oExit
	oUnsup
	oCut
)

type Outcome struct {
	w    *World
	kind int
	ret  Value
	msg  string
	pos  string
	pval Value
}

type goPanic struct{ msg string }

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type FState struct {
	w      *World
	regs   []Value
	blk    *ssa.BasicBlock
	ip     int
	iters  []int
	defers []deferred
	fresh  bool // just merged / scheduled at this point
}

func (s *FState) fork() *FState {
	n := *s
	n.w = s.w.fork()
	n.regs = append([]Value(nil), s.regs...)
	n.iters = append([]int(nil), s.iters...)
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return &n
}

type Exec struct {
	candFile string
	prog     *ssa.Program
	sess     *Session
	depth    int
	steps    int64
	maxSteps int64
	deadline time.Time
	harness  *ssa.Package
	fns      map[string]int // interpreted functions
	models   map[string]int // modelled functions
	notes    map[string]int // assumptions met on the way
	asserts  []*AssertRec
	inputs   map[string]*InputRec
	merges   int
	forks    int
	maxIter  int
	initing  map[*ssa.Package]int
	globals  map[*ssa.Global]ObjID
	baseW    *World
	trace    bool
	tier     string
	onAssert func(*World, *Term, string, string)
	choices  map[string]int
	stopped  string
	pairOK   bool
	repoPfx  string
	cutsSeen map[string]int

	params      map[string]int
	cands       []*Candidate
	ends        map[string]int
	undecided   map[string]int
	reachQ      int
	oneshots    int
	cached      int
	anyNum      bool
	lazyNum     bool
	oneshotTime time.Duration
	lastSolver  string
	queryBudget time.Duration
	curSite     string
	repoPath    string
	frozenHeap  map[ObjID]*Obj
}

func (ex *Exec) note(s string) { ex.notes[s]++ }

func ret1(w *World, v Value) []Outcome { return []Outcome{{w: w, kind: oRet, ret: v}} }

// feasible: may the condition hold with the path condition? (over-approximate)
func (ex *Exec) feasible(w *World, c *Term) bool {
	switch w.pc.decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	if w.pc.isSmall(c) {
		return true
	}
	return ex.checkFocus(w.pc.terms(), c) != Unsat
}

func (ex *Exec) check(cs []*Term) Result {
	if ex.sess == nil || ex.sess.dead {
		ex.sess = NewSession()
	}
	return ex.sess.Check(cs)
}

// implied: does the path condition force c?
func (ex *Exec) implied(w *World, c *Term) bool {
	switch w.pc.decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	return ex.checkFocus(w.pc.terms(), Not(c)) == Unsat
}

// impliedHard: like implied, with fresh solvers when the session gives up
func (ex *Exec) impliedHard(w *World, c *Term) bool {
	switch w.pc.decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	r := ex.checkFocus(w.pc.terms(), Not(c))
	if r == Unknown {
		r, _, _ = ex.solve(sliceFor(w.pc.terms(), Not(c)), 60*time.Second)
	}
	return r == Unsat
}

// split forks w on c; either result may be nil
func (ex *Exec) split(w *World, c *Term) (t, f *World) {
	if c == TTrue {
		return w, nil
	}
	if c == TFalse {
		return nil, w
	}
	ft := ex.feasible(w, c)
	if !ft {
		// the path is feasible as far as known: the other side holds
		n := w.fork()
		n.assume(Not(c))
		return nil, n
	}
	ff := ex.feasible(w, Not(c))
	if !ff {
		n := w.fork()
		n.assume(c)
		return n, nil
	}
	ex.forks++
	return w.with(c), w.with(Not(c))
}

type cval struct {
	v *big.Int
	w *World
}

// iteInside: t as constant operations on an ite tree of at most as many values
func iteInside(t *Term) (*Term, func(*Term) *Term) {
	in := t
	var path []*Term
	var at []int
	for in.op != OIte && in.op != OTable && in.op != OConst && len(in.args) > 0 && len(path) < 8 {
		k := -1
		for i, a := range in.args {
			if !a.isConst() {
				if k >= 0 || a.isBool() {
					return t, nil
				}
				k = i
			}
		}
		if k < 0 {
			return t, nil
		}
		path, at = append(path, in), append(at, k)
		in = in.args[k]
	}
	if in.op != OIte {
		return t, nil
	}
	return in, func(v *Term) *Term {
		for i := len(path) - 1; i >= 0; i-- {
			a := append([]*Term(nil), path[i].args...)
			a[at[i]] = v
			v = remake(path[i], a)
		}
		if !v.isConst() {
			unsupported("cannot enumerate the values of a term")
		}
		return v
	}
}

// concretize enumerates the values of t on w (unsigned)
func (ex *Exec) concretize(w *World, t *Term, limit int) []cval {
	if t.isConst() {
		return []cval{{t.val, w}}
	}
	if t.isBool() {
		panic("concretize bool")
	}
	// zero-extended small term with a domain
	small := t
	if t.op == OConcat && t.args[0].isConst() && t.args[0].val.Sign() == 0 && len(t.args) == 2 {
		small = t.args[1]
	}
	if d := w.pc.dom[small]; d != nil && d.n <= limit {
		var r []cval
		for i := 0; i < 1<<uint(small.w); i++ {
			if d.has(i) {
				if n := w.with(Eq(small, ConstU(uint64(i), small.w))); n != nil {
					r = append(r, cval{big.NewInt(int64(i)), n})
				}
			}
		}
		return r
	}
	// constant operations on an ite tree: the values of the tree
	if in, up := iteInside(t); in != t {
		var r []cval
		for _, c := range ex.concretize(w, in, limit) {
			r = append(r, cval{up(Const(c.v, in.w)).val, c.w})
		}
		return r
	}
	// leaves of an ite tree
	leaves := map[string]*big.Int{}
	seen := map[*Term]bool{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		switch x.op {
		case OConst:
			leaves[x.val.String()] = x.val
			return len(leaves) <= limit
		case OIte:
			return walk(x.args[1]) && walk(x.args[2])
		case OTable:
			for _, v := range x.tab.vals {
				leaves[v.String()] = v
			}
			return len(leaves) <= limit
		}
		return false
	}
	if walk(t) {
		var ks []*big.Int
		for _, v := range leaves {
			ks = append(ks, v)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Cmp(ks[j]) < 0 })
		var r []cval
		for _, v := range ks {
			c := Eq(t, Const(v, t.w))
			if ex.feasible(w, c) {
				if n := w.with(c); n != nil {
					r = append(r, cval{v, n})
				}
			}
		}
		return r
	}
	// enumerate models
	if os.Getenv("SYM_TRACE") == "conc" {
		x := t.String()
		fmt.Fprintln(os.Stderr, "enumerate", x[:min(len(x), 600)])
	}
	var r []cval
	cs := append([]*Term(nil), w.pc.terms()...)
	for {
		v, res := ex.sess.Value(cs, t)
		if res == Unsat {
			return r
		}
		if res != Sat || v == nil {
			unsupported("cannot enumerate the values of a term")
		}
		c := Eq(t, Const(v, t.w))
		if n := w.with(c); n != nil {
			r = append(r, cval{v, n})
		}
		cs = append(cs, Not(c))
		if len(r) > limit {
			unsupported("too many values for a concrete quantity")
		}
	}
}

// ------------------------------------------------------------- calling

func posOf(fn *ssa.Function, p token.Pos) string {
	if fn == nil || fn.Prog == nil {
		return "?"
	}
	q := fn.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) callValue(w *World, fv Value, args []Value) []Outcome {
	f, ok := fv.(FuncV)
	if !ok {
		unsupported("call of %T", fv)
	}
	if f.isNil() {
		return []Outcome{{w: w, kind: oPanic, msg: "nil function call"}}
	}
	if f.nat != "" {
		return ex.safeModel(w, f.nat, nil, args)
	}
	return ex.call(w, f.fn, args, f.free)
}

func (ex *Exec) safeModel(w *World, name string, fn *ssa.Function, args []Value) (out []Outcome) {
	m := modelTable[name]
	if m == nil {
		return []Outcome{{w: w, kind: oUnsup, msg: "no model " + name}}
	}
	ex.models[name]++
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				out = []Outcome{{w: w, kind: oUnsup, msg: name + ": " + x.msg}}
			case goPanic:
				out = []Outcome{{w: w, kind: oPanic, msg: x.msg, pos: name}}
			default:
				panic(r)
			}
		}
	}()
	return m(ex, w, fn, args)
}

func (ex *Exec) call(w *World, fn *ssa.Function, args []Value, free []Value) []Outcome {
	name := fnName(fn)
	if m := modelTable[name]; m != nil {
		out := ex.safeModel(w, name, fn, args)
		if len(out) == 1 && out[0].kind == oRet {
			if _, ok := out[0].ret.(fallThrough); ok {
				return ex.run(out[0].w, fn, args, free)
			}
		}
		return out
	}
	if strings.HasPrefix(fn.Name(), "vf") && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" {
		if m := intrinsics[fn.Name()]; m != nil {
			out := ex.safeIntrinsic(w, fn, m, args)
			if len(out) == 1 && out[0].kind == oRet {
				if _, ok := out[0].ret.(fallThrough); ok {
					return ex.run(out[0].w, fn, args, free)
				}
			}
			return out
		}
	}
	if n := redirect[name]; n != "" && ex.harness != nil {
		w.release(args[0])
		w.acquire(args[0])
		return ex.run(w, ex.harness.Func(n), args, nil)
	}
	if len(fn.Blocks) == 0 {
		return []Outcome{{w: w, kind: oUnsup, msg: "no body: " + name}}
	}
	return ex.run(w, fn, args, free)
}

// redirect: library functions that are replaced by functions of the harness
// (harness/sync.go)
var redirect = map[string]string{
	"(*sync.Pool).Get":          "vfPoolGet",
	"(*sync.Pool).Put":          "vfPoolPut",
	"(*sync.Map).Load":          "vfMapLoad",
	"(*sync.Map).Store":         "vfMapStore",
	"(*sync.Map).LoadOrStore":   "vfMapLoadOrStore",
	"(*sync.Map).LoadAndDelete": "vfMapLoadAndDelete",
	"(*sync.Map).Delete":        "vfMapDelete",
	"(*sync.Map).Swap":          "vfMapSwap",
	"(*sync.Map).Range":         "vfMapRange",
	"(*sync.Map).Clear":         "vfMapClear",
}

// fallThrough is returned by a model that declines: the body is interpreted
type fallThrough struct{}

func (ex *Exec) safeIntrinsic(w *World, fn *ssa.Function, m modelFn, args []Value) (out []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				out = []Outcome{{w: w, kind: oUnsup, msg: fn.Name() + ": " + x.msg}}
			case goPanic:
				out = []Outcome{{w: w, kind: oPanic, msg: x.msg, pos: fn.Name()}}
			default:
				panic(r)
			}
		}
	}()
	return m(ex, w, fn, args)
}

type runCtx struct {
	ex    *Exec
	fi    *FnInfo
	entry *World // heap at entry (for merging)
	base  ObjID
	work  []*FState
	outs  []Outcome
	trust bool
}

func (ex *Exec) run(w *World, fn *ssa.Function, args []Value, free []Value) []Outcome {
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 150 {
		return []Outcome{{w: w, kind: oCut, msg: "call depth"}}
	}
	ex.fns[fnName(fn)]++
	fi := infoOf(fn)
	ent := *w
	ent.heap = make(map[ObjID]*Obj, len(w.heap))
	for k, v := range w.heap {
		ent.heap[k] = v
	}
	w.own = new(int)
	r := &runCtx{ex: ex, fi: fi, entry: &ent, base: nextObj + 1}
	r.trust = raceOn && ex.trusted(fn)
	s := &FState{w: w, regs: make([]Value, fi.nreg), blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		s.regs[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		s.regs[fi.reg[p]] = free[i]
	}
	for range fi.comps[0] {
		s.iters = append(s.iters, 0)
	}
	r.work = []*FState{s}
	for len(r.work) > 0 {
		g := r.pick()
		if len(g) > 1 {
			g = r.mergeStates(g)
		}
		for _, s := range g {
			s.fresh = true
			r.exec(s, len(g) > 1)
		}
	}
	return r.mergeOuts()
}

// keyLess: schedule order (weak topological, iteration by iteration)
func (r *runCtx) cmp(a, b *FState) int {
	ca, cb := r.fi.comps[a.blk.Index], r.fi.comps[b.blk.Index]
	for i := 0; ; i++ {
		pa, pb := r.fi.pos[a.blk.Index], r.fi.pos[b.blk.Index]
		ina, inb := i < len(ca), i < len(cb)
		if ina {
			pa = r.fi.pos[ca[i]]
		}
		if inb {
			pb = r.fi.pos[cb[i]]
		}
		if pa != pb {
			return pa - pb
		}
		if ina && inb && ca[i] == cb[i] {
			if a.iters[i] != b.iters[i] {
				return a.iters[i] - b.iters[i]
			}
			continue
		}
		return a.ip - b.ip
	}
}

func (r *runCtx) pick() []*FState {
	best := r.work[0]
	for _, s := range r.work[1:] {
		if r.cmp(s, best) < 0 {
			best = s
		}
	}
	var g, rest []*FState
	for _, s := range r.work {
		if s == best || r.cmp(s, best) == 0 {
			g = append(g, s)
		} else {
			rest = append(rest, s)
		}
	}
	r.work = rest
	return g
}

func (r *runCtx) sameGroup(s *FState) bool {
	for _, x := range r.work {
		if x.blk == s.blk && len(x.iters) == len(s.iters) {
			eq := true
			for i := range x.iters {
				if x.iters[i] != s.iters[i] {
					eq = false
				}
			}
			if eq {
				return true
			}
		}
	}
	return false
}

func (r *runCtx) out(o Outcome) { r.outs = append(r.outs, o) }

func (r *runCtx) val(s *FState, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return r.ex.constVal(x)
	case *ssa.Global:
		return Ptr{obj: r.ex.global(x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{bi: x}
	}
	x := s.regs[r.fi.reg[v]]
	if x == nil {
		panic(unsup{fmt.Sprintf("undefined register %s in %s", v.Name(), r.fi.fn)})
	}
	return x
}

func (r *runCtx) set(s *FState, v ssa.Value, x Value) { s.regs[r.fi.reg[v]] = x }

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return constStr(constant.StringVal(c.Value))
		}
		if u.Info()&types.IsBoolean != 0 {
			return Bool(constant.BoolVal(c.Value))
		}
		if u.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return FloatV(f)
		}
		if u.Info()&types.IsInteger != 0 {
			v, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				unsupported("constant %s", c)
			}
			return Const(v, widthOf(t))
		}
	}
	return unsupported("constant of type %s", t)
}

func (ex *Exec) global(g *ssa.Global) ObjID {
	ex.ensureInit(g.Pkg)
	if id, ok := ex.globals[g]; ok {
		return id
	}
	id := newObjID()
	t := g.Type().Underlying().(*types.Pointer).Elem()
	baseHeap[id] = &Obj{typ: t, val: zero(t), name: g.String()}
	ex.globals[g] = id
	return id
}

// ensureInit runs a package's initialisers once, on the shared base heap.
func (ex *Exec) ensureInit(p *ssa.Package) {
	if p == nil || ex.initing[p] != 0 {
		return
	}
	ex.initing[p] = 1
	if skipInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	sd := ex.depth
	w := &World{pc: newPC(), heap: map[ObjID]*Obj{}, own: new(int)}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			ex.global(g)
		}
	}
	outs := ex.runInit(w, fn)
	ex.depth = sd
	for _, o := range outs {
		if o.kind == oRet || len(outs) == 1 {
			for id, ob := range o.w.heap {
				ob.owner = nil
				baseHeap[id] = ob
			}
		}
		if o.kind != oRet {
			ex.note("package initialiser of " + p.Pkg.Path() + " not fully encoded: " + o.msg)
		}
	}
}

func (ex *Exec) runInit(w *World, fn *ssa.Function) []Outcome {
	// initialisers of imported packages are run lazily, when one of their
	// globals is used
	return ex.run(w, fn, nil, nil)
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "time": true, "reflect": true, "internal/cpu": true, "internal/godebug": true, "crypto/internal/fips140/check": true, "sync": true, "net": true, "log": true, "internal/poll": true, "crypto/rand": true, "crypto/internal/fips140/drbg": true, "crypto/internal/sysrand": true, "internal/testlog": true}

// ------------------------------------------------------------- memory

func (ex *Exec) load(w *World, p Ptr) Value {
	if p.isNil() {
		panic(goPanic{"nil pointer dereference"})
	}
	if w.race != nil {
		w.touch(p.obj, p.path, false)
	}
	o := w.peek(p.obj)
	v := loadPath(o.val, p.path)
	switch v.(type) {
	case StructV, ArrayV:
		if o.owner == w.own {
			o.owner = nil
		}
	}
	return v
}

func loadPath(v Value, path []PElem) Value {
	for i, e := range path {
		var els []Value
		switch x := v.(type) {
		case StructV:
			els = x
		case ArrayV:
			els = x
		case Opaque:
			unsupported("load from opaque value (%s)", x.why)
		default:
			unsupported("load path in %T", v)
		}
		if e.t == nil {
			if e.k >= len(els) {
				unsupported("load beyond the object")
			}
			v = els[e.k]
			continue
		}
		vals := make([]Value, len(els))
		for k := range els {
			vals[k] = loadPath(els[k], path[i+1:])
		}
		return selectVal(e.t, e.k, vals)
	}
	return v
}

// selectVal is vals[base+idx]
func selectVal(idx *Term, base int, vals []Value) Value {
	vals = vals[base:]
	if u := idx.UB(); u.IsInt64() && u.Int64()+1 < int64(len(vals)) {
		vals = vals[:u.Int64()+1]
	}
	if len(vals) == 0 {
		unsupported("select from nothing")
	}
	switch vals[0].(type) {
	case *Term:
		ts := make([]*Term, len(vals))
		ac := true
		for i, v := range vals {
			ts[i] = v.(*Term)
			if !ts[i].isConst() {
				ac = false
			}
		}
		if ac && ts[0].w > 0 {
			bs := make([]*big.Int, len(ts))
			for i, t := range ts {
				bs[i] = t.val
			}
			return Lookup(bs, ts[0].w, idx)
		}
		r := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			r = Ite(Eq(idx, ConstU(uint64(i), idx.w)), ts[i], r)
		}
		return r
	case Str:
		cs := make([]string, len(vals))
		ac := true
		n := vals[0].(Str).clen()
		for i, v := range vals {
			s, ok := v.(Str).isConst()
			if !ok {
				ac = false
			}
			cs[i] = s
			if v.(Str).clen() != n {
				n = -1
			}
		}
		if ac {
			same := true
			for _, c := range cs {
				if c != cs[0] {
					same = false
				}
			}
			if same {
				return vals[0]
			}
			if len(cs) > 4 || n < 0 {
				tab := mkWordTab(cs)
				iw := 1
				for 1<<uint(iw) < len(cs) {
					iw++
				}
				ix := idx
				if ix.w > iw && ix.UB().BitLen() <= iw {
					ix = Extract(iw-1, 0, ix)
				}
				return Str{[]Seg{{atom: &Atom{kind: "word", tab: tab, idx: ix}}}}
			}
		}
		if n >= 0 {
			bs := make([][]*Term, len(vals))
			for i, v := range vals {
				bs[i] = v.(Str).bytes()
			}
			r := make([]*Term, n)
			for j := 0; j < n; j++ {
				col := make([]Value, len(vals))
				for i := range vals {
					col[i] = bs[i][j]
				}
				r[j] = selectVal(idx, 0, col).(*Term)
			}
			return bytesStr(r)
		}
		unsupported("select among strings of different lengths")
	case StructV:
		n := len(vals[0].(StructV))
		r := make(StructV, n)
		for j := 0; j < n; j++ {
			col := make([]Value, len(vals))
			for i := range vals {
				col[i] = vals[i].(StructV)[j]
			}
			r[j] = selectVal(idx, 0, col)
		}
		return r
	}
	if len(vals) == 1 {
		return vals[0]
	}
	return unsupported("select among %T", vals[0])
}

func storePath(v Value, path []PElem, nv Value, owned bool) Value {
	if len(path) == 0 {
		return nv
	}
	var els []Value
	st := false
	switch x := v.(type) {
	case StructV:
		els = x
		st = true
	case ArrayV:
		els = x
	default:
		unsupported("store path in %T", v)
	}
	if !owned {
		els = append([]Value(nil), els...)
	}
	e := path[0]
	if e.t == nil {
		if e.k >= len(els) {
			unsupported("store beyond the object")
		}
		els[e.k] = storePath(els[e.k], path[1:], nv, false)
	} else {
		for k := e.k; k < len(els); k++ {
			c := Eq(e.t, ConstU(uint64(k-e.k), e.t.w))
			if c == TFalse {
				continue
			}
			els[k] = mergeVal(c, storePath(els[k], path[1:], nv, false), els[k])
		}
	}
	if st {
		return StructV(els)
	}
	return ArrayV(els)
}

func (ex *Exec) store(w *World, p Ptr, v Value) {
	if p.isNil() {
		panic(goPanic{"nil pointer dereference"})
	}
	if w.race != nil {
		w.touch(p.obj, p.path, true)
	}
	if len(p.path) == 0 {
		o := w.peek(p.obj)
		// a struct value may still be referenced elsewhere: never owned
		w.heap[p.obj] = &Obj{typ: o.typ, val: v, name: o.name}
		return
	}
	o := w.wr(p.obj)
	o.val = storePath(o.val, p.path, v, true)
}

func mergeVal(c *Term, a, b Value) Value {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return Ite(c, x, y)
		}
	case Str:
		if y, ok := b.(Str); ok {
			if strEq(x, y) == TTrue {
				return x
			}
			n := x.clen()
			if n >= 0 && n == y.clen() {
				xb, yb := x.bytes(), y.bytes()
				r := make([]*Term, n)
				for i := range r {
					r[i] = Ite(c, xb[i], yb[i])
				}
				return bytesStr(r)
			}
		}
	case BigV:
		if y, ok := b.(BigV); ok {
			w := max(x.mag.w, y.mag.w)
			return BigV{Ite(c, x.neg, y.neg), Ite(c, fit(x.mag, w), fit(y.mag, w))}
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x) == len(y) {
			r := make(StructV, len(x))
			for i := range x {
				r[i] = mergeVal(c, x[i], y[i])
			}
			return r
		}
	case ArrayV:
		if y, ok := b.(ArrayV); ok && len(x) == len(y) {
			r := make(ArrayV, len(x))
			for i := range x {
				r[i] = mergeVal(c, x[i], y[i])
			}
			return r
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && ptrEq(x, y) == TTrue {
			return x
		}
	case FuncV, MapV:
	}
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	return unsupported("merge of %T", a)
}

func ptrEq(a, b Ptr) *Term {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return TFalse
	}
	r := TTrue
	for i := range a.path {
		x, y := a.path[i], b.path[i]
		if x.t == nil && y.t == nil {
			if x.k != y.k {
				return TFalse
			}
			continue
		}
		xt, yt := x.t, y.t
		if xt == nil {
			xt = ConstU(0, yt.w)
		}
		if yt == nil {
			yt = ConstU(0, xt.w)
		}
		r = And(r, Eq(Add(xt, ConstU(uint64(x.k), xt.w)), Add(yt, ConstU(uint64(y.k), yt.w))))
	}
	return r
}

func (ex *Exec) eqVal(w *World, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case Str:
		return strEq(x, b.(Str))
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return ptrEq(x, y)
		}
	case StructV:
		y := b.(StructV)
		r := TTrue
		for i := range x {
			r = And(r, ex.eqVal(w, x[i], y[i]))
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		r := TTrue
		for i := range x {
			r = And(r, ex.eqVal(w, x[i], y[i]))
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			unsupported("compare interface with %T", b)
		}
		if x.typ == nil || y.typ == nil {
			return Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return TFalse
		}
		if !types.Comparable(x.typ) {
			panic(goPanic{"comparing uncomparable type"})
		}
		return ex.eqVal(w, x.val, y.val)
	case SliceV:
		if y, ok := b.(SliceV); ok && (x.isNil() || y.isNil()) {
			return Bool(x.isNil() && y.isNil())
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			return Bool(x.obj == y.obj)
		}
	case FuncV:
		if y, ok := b.(FuncV); ok && (x.isNil() || y.isNil()) {
			return Bool(x.isNil() && y.isNil())
		}
	case FloatV:
		return Bool(x == b.(FloatV))
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (ex *Exec) debugf(f string, a ...interface{}) {
	if ex.trace {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
