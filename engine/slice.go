package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Queries are sliced: only the constraints that share a variable or an
// uninterpreted function, directly or through others, with the condition in
// question matter to it, given that the path condition alone is satisfiable.
// (Unsat of a slice is Unsat of the whole in any case.)

var symIDs = map[string]int{}
var supports = map[*Term][]int{}

func symID(s string) int {
	k, ok := symIDs[s]
	if !ok {
		k = len(symIDs)
		symIDs[s] = k
	}
	return k
}

func support(t *Term) []int {
	if s, ok := supports[t]; ok {
		return s
	}
	m := map[int]bool{}
	for _, a := range t.args {
		for _, k := range support(a) {
			m[k] = true
		}
	}
	switch t.op {
	case OVar:
		m[symID("v:"+t.name)] = true
	case OApp:
		n := t.name
		if !strings.Contains(n, ":") { // curve and number functions are related by axioms
			n = "curve"
		}
		m[symID("f:"+n)] = true
	}
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	supports[t] = r
	return r
}

func sliceFor(cs []*Term, focus *Term) []*Term {
	in := map[int]bool{}
	for _, k := range support(focus) {
		in[k] = true
	}
	rest := cs
	out := []*Term{focus}
	for {
		var keep []*Term
		grown := false
		for _, c := range rest {
			s := support(c)
			hit := len(s) == 0
			for _, k := range s {
				if in[k] {
					hit = true
					break
				}
			}
			if hit {
				out = append(out, c)
				for _, k := range s {
					if !in[k] {
						in[k] = true
						grown = true
					}
				}
			} else {
				keep = append(keep, c)
			}
		}
		rest = keep
		if !grown {
			return out
		}
	}
}

var qcache = map[string]Result{}

// checkFocus decides cs && focus, cs being satisfiable
func (ex *Exec) checkFocus(cs []*Term, focus *Term) Result {
	sl := sliceFor(cs, focus)
	ids := make([]int, len(sl))
	for i, c := range sl {
		ids[i] = c.id
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(',')
	}
	k := b.String()
	if r, ok := qcache[k]; ok {
		ex.cached++
		return r
	}
	t0 := time.Now()
	r := ex.check(sl)
	if d := time.Since(t0); d > 300*time.Millisecond && traceFn == "slow" {
		fmt.Fprintf(os.Stderr, "slow %.1fs %v %d cs focus %s\n   at %s\n", d.Seconds(), r, len(sl), focus.str(4), ex.curSite)
	}
	if r != Unknown {
		qcache[k] = r
	}
	return r
}
