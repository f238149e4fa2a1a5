package main

// Joining states: states of the same shape are turned into one whose scalars
// are selected by the path conditions.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type flat struct {
	sb     strings.Builder
	cols   []*Term
	canon  map[ObjID]int
	queue  []ObjID
	w      *World
	base   ObjID
	header bool
	bad    bool
}

func (f *flat) obj(id ObjID) {
	if id == 0 {
		f.sb.WriteString("@nil")
		return
	}
	if id < f.base {
		f.sb.WriteString("@" + strconv.Itoa(int(id)))
		return
	}
	if _, local := f.w.heap[id]; !local { // made by a package initialiser meanwhile
		f.sb.WriteString("@" + strconv.Itoa(int(id)))
		return
	}
	n, ok := f.canon[id]
	if !ok {
		n = len(f.canon)
		f.canon[id] = n
		f.queue = append(f.queue, id)
	}
	f.sb.WriteString("#" + strconv.Itoa(n))
}

func (f *flat) path(p []PElem) {
	for _, e := range p {
		if e.t == nil {
			f.sb.WriteString("." + strconv.Itoa(e.k))
		} else {
			f.sb.WriteString(".[" + strconv.Itoa(e.k) + ":" + strconv.Itoa(e.t.w) + "]")
			f.cols = append(f.cols, e.t)
		}
	}
}

func (f *flat) str(s Str) {
	f.sb.WriteByte('S')
	run := 0
	flush := func() {
		if run > 0 {
			f.sb.WriteString(strconv.Itoa(run))
			run = 0
		}
	}
	for _, g := range s.segs {
		switch {
		case g.atom != nil:
			flush()
			f.sb.WriteString("<" + g.atom.kind)
			if g.atom.kind == "word" {
				f.sb.WriteString(strconv.Itoa(g.atom.tab.id) + ":" + strconv.Itoa(g.atom.idx.w))
				f.cols = append(f.cols, g.atom.idx)
			} else if g.atom.kind == "num" {
				fmt.Fprintf(&f.sb, "%d:%v:%d", g.atom.base, g.atom.up, g.atom.idx.w)
				f.cols = append(f.cols, g.atom.idx)
			} else {
				f.sb.WriteString(strconv.Itoa(len(g.atom.data)))
				f.cols = append(f.cols, g.atom.data...)
			}
			f.sb.WriteByte('>')
		case g.b != nil:
			run += len(g.b)
			f.cols = append(f.cols, g.b...)
		default:
			run += len(g.lit)
			for i := 0; i < len(g.lit); i++ {
				f.cols = append(f.cols, ConstU(uint64(g.lit[i]), 8))
			}
		}
	}
	flush()
	f.sb.WriteByte(';')
}

func (f *flat) val(v Value) {
	switch x := v.(type) {
	case nil:
		f.sb.WriteByte('_')
	case *Term:
		if f.header && x.isConst() && x.w > 8 {
			f.sb.WriteString("c" + x.val.Text(16) + ":" + strconv.Itoa(x.w))
		} else {
			f.sb.WriteString("t" + strconv.Itoa(x.w))
		}
		f.sb.WriteByte(',')
		f.cols = append(f.cols, x)
	case Str:
		f.str(x)
	case Ptr:
		f.sb.WriteByte('P')
		f.obj(x.obj)
		f.path(x.path)
		f.sb.WriteByte(',')
	case SliceV:
		if x.rope != nil {
			f.sb.WriteByte('R')
			f.str(*x.rope)
			return
		}
		f.sb.WriteByte('L')
		f.obj(x.obj)
		f.path(x.path)
		fmt.Fprintf(&f.sb, "%d/%d/%d,", x.off, x.len, x.cap)
	case StructV:
		f.sb.WriteByte('{')
		for _, e := range x {
			f.val(e)
		}
		f.sb.WriteByte('}')
	case ArrayV:
		f.sb.WriteByte('[')
		for _, e := range x {
			f.val(e)
		}
		f.sb.WriteByte(']')
	case TupleV:
		f.sb.WriteByte('(')
		for _, e := range x {
			f.val(e)
		}
		f.sb.WriteByte(')')
	case IfaceV:
		if x.typ == nil {
			f.sb.WriteString("Inil,")
		} else {
			f.sb.WriteString("I" + x.typ.String())
			f.val(x.val)
		}
	case FuncV:
		fmt.Fprintf(&f.sb, "F%p%s", x.fn, x.nat)
		if x.bi != nil {
			f.sb.WriteString(x.bi.Name())
		}
		for _, e := range x.free {
			f.val(e)
		}
	case MapV:
		f.sb.WriteByte('M')
		f.obj(x.obj)
	case MapC:
		f.sb.WriteString("m" + strconv.Itoa(len(x.ents)))
		for _, e := range x.ents {
			f.val(e.k)
			f.val(e.v)
		}
	case BigV:
		f.sb.WriteByte('B')
		f.cols = append(f.cols, x.neg, x.mag)
	case BuilderV:
		f.sb.WriteByte('b')
		f.str(x.s)
	case HashV:
		f.sb.WriteString("H" + x.kind)
		f.str(x.data)
	case FloatV:
		fmt.Fprintf(&f.sb, "f%v,", float64(x))
	case IterV:
		f.sb.WriteString("i" + strconv.Itoa(x.pos))
		if x.str != nil {
			f.str(*x.str)
		}
		for _, e := range x.keys {
			f.val(e.k)
			f.val(e.v)
		}
	case Opaque:
		f.sb.WriteString("O" + x.why)
	case fallThrough:
		f.sb.WriteByte('T')
	default:
		f.bad = true
	}
}

// rebuild: the same traversal, with the scalars taken from cols
type rebuild struct {
	cols []*Term
	i    int
}

func (r *rebuild) next() *Term { t := r.cols[r.i]; r.i++; return t }

func (r *rebuild) path(p []PElem) []PElem {
	out := p
	for i, e := range p {
		if e.t != nil {
			t := r.next()
			if t != e.t {
				if &out[0] == &p[0] {
					out = append([]PElem(nil), p...)
				}
				out[i].t = t
			}
		}
	}
	return out
}

func (r *rebuild) str(s Str) Str {
	var out Str
	var run []*Term
	flush := func() {
		if len(run) > 0 {
			out = out.concat(bytesStr(run))
			run = nil
		}
	}
	for _, g := range s.segs {
		switch {
		case g.atom != nil:
			flush()
			a := *g.atom
			if a.kind == "word" || a.kind == "num" {
				a.idx = r.next()
			} else {
				d := make([]*Term, len(a.data))
				for i := range d {
					d[i] = r.next()
				}
				a.data = d
			}
			out.segs = append(out.segs, Seg{atom: &a})
		default:
			n := len(g.b)
			if g.b == nil {
				n = len(g.lit)
			}
			for i := 0; i < n; i++ {
				run = append(run, r.next())
			}
		}
	}
	flush()
	return out
}

func (r *rebuild) val(v Value) Value {
	switch x := v.(type) {
	case *Term:
		return r.next()
	case Str:
		return r.str(x)
	case Ptr:
		x.path = r.path(x.path)
		return x
	case SliceV:
		if x.rope != nil {
			s := r.str(*x.rope)
			x.rope = &s
			return x
		}
		x.path = r.path(x.path)
		return x
	case StructV:
		o := make(StructV, len(x))
		for i := range x {
			o[i] = r.val(x[i])
		}
		return o
	case ArrayV:
		o := make(ArrayV, len(x))
		for i := range x {
			o[i] = r.val(x[i])
		}
		return o
	case TupleV:
		o := make(TupleV, len(x))
		for i := range x {
			o[i] = r.val(x[i])
		}
		return o
	case IfaceV:
		if x.typ != nil {
			x.val = r.val(x.val)
		}
		return x
	case FuncV:
		if len(x.free) > 0 {
			o := make([]Value, len(x.free))
			for i := range x.free {
				o[i] = r.val(x.free[i])
			}
			x.free = o
		}
		return x
	case MapC:
		o := make([]MapEntry, len(x.ents))
		for i, e := range x.ents {
			o[i].k = r.val(e.k)
			o[i].v = r.val(e.v)
		}
		return MapC{o}
	case BigV:
		n := r.next()
		m := r.next()
		return BigV{n, m}
	case BuilderV:
		return BuilderV{r.str(x.s)}
	case HashV:
		return HashV{x.kind, r.str(x.data)}
	case IterV:
		if x.str != nil {
			s := r.str(*x.str)
			x.str = &s
		}
		if len(x.keys) > 0 {
			o := make([]MapEntry, len(x.keys))
			for i, e := range x.keys {
				o[i].k = r.val(e.k)
				o[i].v = r.val(e.v)
			}
			x.keys = o
		}
		return x
	}
	return v
}

type mstate struct {
	w    *World
	vals []Value
	f    *flat
	mod  []ObjID // modified old objects, sorted
	idx  int
}

func (r *runCtx) flatten(w *World, vals []Value, extra string, header bool) *mstate {
	f := &flat{canon: map[ObjID]int{}, w: w, base: r.base, header: header}
	m := &mstate{w: w, vals: vals, f: f}
	f.sb.WriteString(extra)
	fmt.Fprintf(&f.sb, "|%d|%v|%v|", w.sink, w.mayEnd, w.quiet)
	f.sb.WriteString(w.raceKey())
	if w.pan != nil {
		fmt.Fprintf(&f.sb, "pan%s%v", w.pan.msg, w.pan.recovered)
	}
	if len(w.ctr) > 0 {
		var ks []string
		for k, v := range w.ctr {
			ks = append(ks, k+"="+strconv.Itoa(v))
		}
		sort.Strings(ks)
		f.sb.WriteString(strings.Join(ks, ","))
	}
	for i, v := range vals {
		if st, ok := v.(Str); ok && st.hasNum() {
			vals[i] = normNum(w, st)
			v = vals[i]
		}
		f.val(v)
	}
	f.sb.WriteString("|mod")
	for id, o := range w.heap {
		if id < r.base && r.entry.heap[id] != o {
			m.mod = append(m.mod, id)
		}
	}
	sort.Slice(m.mod, func(i, j int) bool { return m.mod[i] < m.mod[j] })
	for _, id := range m.mod {
		f.sb.WriteString("!" + strconv.Itoa(int(id)))
		f.val(w.heap[id].val)
	}
	for i := 0; i < len(f.queue); i++ {
		f.sb.WriteString("|o")
		f.val(w.heap[f.queue[i]].val)
	}
	return m
}

// mergeGroup joins states of equal shape; vals of the result replace those of
// the first state.
func (r *runCtx) mergeGroup(ms []*mstate) *mstate {
	ex := r.ex
	pcs := make([]*PC, len(ms))
	for i, m := range ms {
		pcs[i] = m.w.pc
	}
	pc, guards, tv, tvals := mergePC(pcs)
	n := len(ms[0].f.cols)
	cols := make([]*Term, n)
	var diff []int
	for j := 0; j < n; j++ {
		c := ms[0].f.cols[j]
		same := true
		for _, m := range ms[1:] {
			if m.f.cols[j] != c {
				same = false
				break
			}
		}
		if same {
			cols[j] = c
		} else {
			diff = append(diff, j)
		}
	}
	fitAll := func(j int) []*Term {
		w := 0
		for _, m := range ms {
			w = max(w, m.f.cols[j].w)
		}
		ts := make([]*Term, len(ms))
		for i, m := range ms {
			ts[i] = m.f.cols[j]
			if ts[i].w < w {
				ts[i] = fit(ts[i], w)
			}
		}
		return ts
	}
	if tv != nil && len(ms) > 2 {
		mx := 0
		for _, k := range tvals {
			mx = max(mx, k)
		}
		var rest []int
		for _, j := range diff {
			ts := fitAll(j)
			ac := ts[0].w > 0
			for _, t := range ts {
				if !t.isConst() {
					ac = false
				}
			}
			if !ac {
				rest = append(rest, j)
				continue
			}
			// values that no state takes are excluded by the domain: any entry does
			vals := make([]*big.Int, 1<<uint(tv.w))
			ident := true
			for i, k := range tvals {
				vals[k] = ts[i].val
				if !ts[i].val.IsInt64() || ts[i].val.Int64() != int64(k) {
					ident = false
				}
			}
			if ident {
				cols[j] = fit(tv, ts[0].w)
				continue
			}
			for i := range vals {
				if vals[i] == nil {
					vals[i] = ts[0].val
				}
			}
			cols[j] = Lookup(vals, ts[0].w, tv)
		}
		diff = rest
	}
	if len(diff) > 0 {
		acc := make([]*Term, len(diff))
		tsAll := make([][]*Term, len(diff))
		for k, j := range diff {
			tsAll[k] = fitAll(j)
			acc[k] = tsAll[k][0]
		}
		if len(ms) <= 300 {
			// try to find one state's scalars that are right in all states
			done := false
			if len(ms) > 1 {
				done = r.subsume(ms, tsAll, acc)
			}
			if !done {
				for k := range diff {
					acc[k] = tsAll[k][0]
				}
				one := make([]*Term, len(diff))
				if len(ms) <= 12 {
					for k := range diff {
						one[k] = subsumeOne(ms, tsAll[k])
					}
				}
				for i := 1; i < len(ms); i++ {
					for k := range diff {
						acc[k] = Ite(guards[i], tsAll[k][i], acc[k])
					}
				}
				for k := range diff {
					if one[k] != nil {
						acc[k] = one[k]
					}
				}
			}
		} else {
			for i := 1; i < len(ms); i++ {
				for k := range diff {
					acc[k] = Ite(guards[i], tsAll[k][i], acc[k])
				}
			}
		}
		for k, j := range diff {
			cols[j] = acc[k]
		}
	}
	ex.merges++
	// rebuild
	w0 := ms[0].w
	nw := w0.fork()
	nw.pc = pc
	rb := &rebuild{cols: cols}
	vals := make([]Value, len(ms[0].vals))
	for i, v := range ms[0].vals {
		vals[i] = rb.val(v)
	}
	for _, id := range ms[0].mod {
		o := w0.heap[id]
		nw.heap[id] = &Obj{typ: o.typ, val: rb.val(o.val), name: o.name}
	}
	for _, id := range ms[0].f.queue {
		o := w0.heap[id]
		nw.heap[id] = &Obj{typ: o.typ, val: rb.val(o.val), name: o.name}
	}
	for id := range nw.heap {
		if id >= r.base {
			if _, ok := ms[0].f.canon[id]; !ok {
				delete(nw.heap, id)
			}
		}
	}
	return &mstate{w: nw, vals: vals}
}

// subsumeOne: a state's term that is right in all states, by rewriting alone
func subsumeOne(ms []*mstate, ts []*Term) *Term {
	if ts[0].isBool() {
		return nil
	}
	tried := map[*Term]bool{}
	cand := append([]*Term(nil), ts...)
	for i, m := range ms {
		if ts[i].size <= 3000 && !ts[i].isLit() {
			if t := replaceTerms(ts[i], m.w.pc.known()); t != ts[i] {
				cand = append(cand, t)
			}
		}
	}
	for i := len(cand) - 1; i >= 0; i-- {
		t := cand[i]
		if t.isLit() || tried[t] || t.size > 3000 {
			continue
		}
		tried[t] = true
		ok := true
		for j, m := range ms {
			if ts[j] != t && (ts[j].size > 3000 || !m.w.pc.entails(Eq(ts[j], t))) {
				ok = false
				break
			}
		}
		if ok {
			return t
		}
	}
	return nil
}

// subsume looks for a state whose scalars equal those of every other state
// under that state's path condition (padded numbers collapse this way).
func (r *runCtx) subsume(ms []*mstate, ts [][]*Term, acc []*Term) bool {
	ex := r.ex
	// candidates: the first and the last state with non-constant columns, by term size
	best := -1
	score := -1
	for i := range ms {
		sc := 0
		for k := range ts {
			if !ts[k][i].isLit() {
				sc++
			}
		}
		if sc > score {
			score, best = sc, i
		}
	}
	if score <= 0 {
		return false
	}
	for i, m := range ms {
		if i == best {
			continue
		}
		var eqs []*Term
		for k := range ts {
			if ts[k][i] == ts[k][best] {
				continue
			}
			if ts[k][best].isBool() {
				return false
			}
			e := Eq(ts[k][i], ts[k][best])
			if e == TFalse {
				return false
			}
			eqs = append(eqs, e)
		}
		if len(eqs) == 0 {
			continue
		}
		if !ex.implied(m.w, And(eqs...)) {
			return false
		}
	}
	for k := range ts {
		acc[k] = ts[k][best]
	}
	return true
}

func (r *runCtx) mergeStates(g []*FState) []*FState {
	b := g[0].blk
	var live []int
	if g[0].ip <= numPhis(b) {
		live = r.fi.live[b.Index]
	} else {
		live = r.fi.liveAt(b.Index, g[0].ip)
	}
	header := r.fi.heads[b.Index] && g[0].ip <= numPhis(b)
	buckets := map[string][]*mstate{}
	var order []string
	var out []*FState
	for gi, s := range g {
		vals := make([]Value, 0, len(live)+4)
		for _, l := range live {
			vals = append(vals, s.regs[l])
		}
		extra := fmt.Sprintf("d%d", len(s.defers))
		for _, d := range s.defers {
			extra += fmt.Sprintf("%p", d.call)
			vals = append(vals, d.fn)
			vals = append(vals, d.args...)
		}
		m := r.flatten(s.w, vals, extra, header)
		m.idx = gi
		if m.f.bad {
			out = append(out, s)
			continue
		}
		k := m.f.sb.String()
		if buckets[k] == nil {
			order = append(order, k)
		}
		buckets[k] = append(buckets[k], m)
	}
	if traceFn == "merge" && len(order)+len(out) > 1 {
		fmt.Printf("not merged at %s block %d ip %d: %d groups of %d (%d bad)\n", fnName(b.Parent()), b.Index, g[0].ip, len(order), len(g), len(out))
		for _, k := range order {
			fmt.Println("   ", k)
		}
	}
	for _, k := range order {
		ms := buckets[k]
		s := g[ms[0].idx]
		if len(ms) == 1 {
			out = append(out, s)
			continue
		}
		m := r.mergeGroup(ms)
		n := &FState{w: m.w, regs: make([]Value, len(s.regs)), blk: s.blk, ip: s.ip, iters: s.iters}
		for i, l := range live {
			n.regs[l] = m.vals[i]
		}
		p := len(live)
		for _, d := range s.defers {
			nd := deferred{call: d.call, fn: m.vals[p]}
			p++
			for range d.args {
				nd.args = append(nd.args, m.vals[p])
				p++
			}
			n.defers = append(n.defers, nd)
		}
		out = append(out, n)
	}
	return out
}

func numPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (r *runCtx) mergeOuts() []Outcome {
	if len(r.outs) <= 1 {
		return r.outs
	}
	buckets := map[string][]*mstate{}
	var order []string
	var res []Outcome
	for i, o := range r.outs {
		m := r.flatten(o.w, []Value{o.ret, o.pval}, fmt.Sprintf("k%d%s%s", o.kind, o.msg, o.pos), false)
		m.idx = i
		if m.f.bad {
			res = append(res, o)
			continue
		}
		k := m.f.sb.String()
		if buckets[k] == nil {
			order = append(order, k)
		}
		buckets[k] = append(buckets[k], m)
	}
	for _, k := range order {
		ms := buckets[k]
		o := r.outs[ms[0].idx]
		if len(ms) > 1 {
			m := r.mergeGroup(ms)
			o.w = m.w
			o.ret = m.vals[0]
			o.pval = m.vals[1]
		}
		res = append(res, o)
	}
	return res
}
