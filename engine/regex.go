package main

import (
	"math/big"
	"regexp/syntax"
)

// regexp.MatchString on symbolic bytes: the compiled program is run on all
// texts at once, with one condition per state of the automaton.

var otherRunes = map[*syntax.Inst]bool{}

func asciiSet(in *syntax.Inst) (set []bool, other bool) {
	set = make([]bool, 128)
	for r := rune(0); r < 128; r++ {
		set[r] = in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL && r != '\n' || (in.Op == syntax.InstRune || in.Op == syntax.InstRune1) && in.MatchRune(r)
	}
	if in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL {
		return set, true
	}
	o, ok := otherRunes[in]
	if !ok {
		for r := rune(128); r <= 0x10ffff && !o; r++ {
			o = in.MatchRune(r)
		}
		otherRunes[in] = o
	}
	return set, o
}

func inSet(b *Term, set []bool) *Term {
	c := TFalse
	for i := 0; i < len(set); {
		if !set[i] {
			i++
			continue
		}
		j := i
		for j+1 < len(set) && set[j+1] {
			j++
		}
		r := Ule(ConstU(uint64(i), 8), b)
		c = Or(c, And(r, Ule(b, ConstU(uint64(j), 8))))
		i = j + 1
	}
	return c
}

var regProgs = map[string]*syntax.Prog{}

func matchTerm(expr string, text []*Term) (*Term, bool) {
	p := regProgs[expr]
	if p == nil {
		re, err := syntax.Parse(expr, syntax.Perl)
		if err != nil {
			return nil, false
		}
		if p, err = syntax.Compile(re.Simplify()); err != nil {
			return nil, false
		}
		regProgs[expr] = p
	}
	wide := false
	for _, b := range text {
		if b.UB().Cmp(big.NewInt(128)) >= 0 {
			wide = true
		}
	}
	sets := make([][]bool, len(p.Inst))
	for i := range p.Inst {
		in := &p.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			var o bool
			sets[i], o = asciiSet(in)
			if o && wide {
				return nil, false
			}
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				return nil, false
			}
		}
	}
	nl := func(i int) *Term {
		if i < 0 || i >= len(text) {
			return TTrue
		}
		return Eq(text[i], ConstU('\n', 8))
	}
	matched := TFalse
	act := map[uint32]*Term{}
	for pos := 0; pos <= len(text); pos++ {
		next := map[uint32]*Term{}
		var add func(pc uint32, c *Term, seen map[uint32]bool)
		add = func(pc uint32, c *Term, seen map[uint32]bool) {
			if c == TFalse || seen[pc] {
				return
			}
			in := &p.Inst[pc]
			switch in.Op {
			case syntax.InstMatch:
				matched = Or(matched, c)
				return
			case syntax.InstFail:
				return
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if o := next[pc]; o != nil {
					c = Or(o, c)
				}
				next[pc] = c
				return
			}
			seen[pc] = true
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out, c, seen)
				add(in.Arg, c, seen)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out, c, seen)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(in.Arg)
				if e&syntax.EmptyBeginText != 0 && pos > 0 || e&syntax.EmptyEndText != 0 && pos < len(text) {
					break
				}
				if e&syntax.EmptyBeginLine != 0 {
					c = And(c, nl(pos-1))
				}
				if e&syntax.EmptyEndLine != 0 {
					c = And(c, nl(pos))
				}
				add(in.Out, c, seen)
			}
			delete(seen, pc)
		}
		for i := range p.Inst {
			if c := act[uint32(i)]; c != nil {
				add(p.Inst[i].Out, And(c, inSet(text[pos-1], sets[i])), map[uint32]bool{})
			}
		}
		add(uint32(p.Start), TTrue, map[uint32]bool{})
		act = next
	}
	return matched, true
}

func initRegexp() {
	modelF("(*regexp.Regexp).MatchString", func(ex *Exec, w *World, a []Value) []Outcome {
		st, ok := ex.load(w, a[0].(Ptr)).(StructV)
		if !ok {
			return fall(w)
		}
		expr, ok := st[0].(Str).isConst()
		s := a[1].(Str)
		if _, c := s.isConst(); !ok || c {
			return fall(w)
		}
		for _, g := range s.segs {
			if g.atom != nil {
				return fall(w)
			}
		}
		if m, ok := matchTerm(expr, s.bytes()); ok {
			return ret1(w, m)
		}
		return fall(w)
	})
}
