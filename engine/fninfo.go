package main

// Per-function data: register numbers, weak topological order, liveness.

import (
	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	fn       *ssa.Function
	reg      map[ssa.Value]int
	nreg     int
	pos      []int   // per block: position in the weak topological order
	comps    [][]int // per block: heads (block numbers) of the enclosing components, outermost first
	live     [][]int // per block: registers live at entry (before phis)
	liveI    map[[2]int][]int
	heads    map[int]bool
	liveMaps []map[int]bool
}

var fnInfos = map[*ssa.Function]*FnInfo{}

func infoOf(fn *ssa.Function) *FnInfo {
	if f := fnInfos[fn]; f != nil {
		return f
	}
	f := &FnInfo{fn: fn, reg: map[ssa.Value]int{}, liveI: map[[2]int][]int{}, heads: map[int]bool{}}
	add := func(v ssa.Value) {
		f.reg[v] = f.nreg
		f.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	f.wto()
	f.liveness()
	fnInfos[fn] = f
	return f
}

func (f *FnInfo) wto() {
	n := len(f.fn.Blocks)
	f.pos = make([]int, n)
	f.comps = make([][]int, n)
	// Bourdoncle's algorithm
	dfn := make([]int, n)
	num := 0
	var stack []int
	const inf = 1 << 30
	type elem struct {
		b    int
		comp []*elem // nil: a plain block
		isC  bool
	}
	var visit func(v int, part *[]*elem) int
	component := func(v int) *elem {
		e := &elem{b: v, isC: true}
		var p []*elem
		for _, s := range f.fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &p)
			}
		}
		e.comp = p
		return e
	}
	visit = func(v int, part *[]*elem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := dfn[v]
		loop := false
		for _, s := range f.fn.Blocks[v].Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s.Index, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]*elem{component(v)}, *part...)
			} else {
				*part = append([]*elem{{b: v}}, *part...)
			}
		}
		return head
	}
	var part []*elem
	if n > 0 {
		visit(0, &part)
	}
	if f.fn.Recover != nil && dfn[f.fn.Recover.Index] == 0 {
		var p2 []*elem
		visit(f.fn.Recover.Index, &p2)
		part = append(part, p2...)
	}
	p := 0
	var walk func(es []*elem, path []int)
	walk = func(es []*elem, path []int) {
		for _, e := range es {
			pp := path
			if e.isC {
				pp = append(append([]int(nil), path...), e.b)
				f.heads[e.b] = true
			}
			f.pos[e.b] = p
			p++
			f.comps[e.b] = pp
			if e.isC {
				walk(e.comp, pp)
			}
		}
	}
	walk(part, nil)
}

func (f *FnInfo) uses(in ssa.Instruction, mark func(int)) {
	var ops [12]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		if r, ok := f.reg[*o]; ok {
			mark(r)
		}
	}
}

func (f *FnInfo) liveness() {
	n := len(f.fn.Blocks)
	in := make([]map[int]bool, n)
	for i := range in {
		in[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.fn.Blocks[i]
			cur := map[int]bool{}
			f.liveOut(b, in, cur)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if v, ok := x.(ssa.Value); ok {
					if _, isPhi := x.(*ssa.Phi); !isPhi {
						delete(cur, f.reg[v])
					}
				}
				if _, isPhi := x.(*ssa.Phi); !isPhi {
					f.uses(x, func(r int) { cur[r] = true })
				}
			}
			// phis are evaluated on the edges: the phi registers themselves
			// count as live at block entry if used
			if len(cur) != len(in[i]) {
				in[i] = cur
				changed = true
			}
		}
	}
	f.live = make([][]int, n)
	for i := range in {
		f.live[i] = setList(in[i], f.nreg)
	}
	f.liveMaps = in
}

func setList(m map[int]bool, n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		if m[i] {
			r = append(r, i)
		}
	}
	return r
}

// registers live at the end of b: what the successors need, with phis
// replaced by their operands for this edge
func (f *FnInfo) liveOut(b *ssa.BasicBlock, in []map[int]bool, cur map[int]bool) {
	if r := f.fn.Recover; r != nil && r != b {
		for x := range in[r.Index] {
			cur[x] = true
		}
	}
	for _, s := range b.Succs {
		phis := map[int]bool{}
		for _, x := range s.Instrs {
			p, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			phis[f.reg[p]] = true
			for k, pr := range s.Preds {
				if pr == b {
					if r, ok := f.reg[p.Edges[k]]; ok {
						cur[r] = true
					}
				}
			}
		}
		for r := range in[s.Index] {
			if !phis[r] {
				cur[r] = true
			}
		}
	}
}

// liveAt: registers live before instruction ip of block b (after the phis)
func (f *FnInfo) liveAt(b, ip int) []int {
	if ip == 0 {
		return f.live[b]
	}
	k := [2]int{b, ip}
	if l, ok := f.liveI[k]; ok {
		return l
	}
	blk := f.fn.Blocks[b]
	cur := map[int]bool{}
	f.liveOut(blk, f.liveMaps, cur)
	for j := len(blk.Instrs) - 1; j >= ip; j-- {
		x := blk.Instrs[j]
		if v, ok := x.(ssa.Value); ok {
			delete(cur, f.reg[v])
		}
		if _, isPhi := x.(*ssa.Phi); !isPhi {
			f.uses(x, func(r int) { cur[r] = true })
		}
	}
	l := setList(cur, f.nreg)
	f.liveI[k] = l
	return l
}
