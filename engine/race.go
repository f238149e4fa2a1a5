package main

// Two calls at the same time: which accesses to shared memory are not ordered.
//
// The calls are executed one after the other, as one of the schedules of two
// goroutines. An access of the second that conflicts with a write of the first
// is a data race unless an unlock (or another release) of the first after that
// write is followed by a lock (or another acquire) of the same object in the
// second before the access.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type raceLog struct {
	mark   ObjID
	phase  int
	seq    int
	writes map[ObjID]map[string]int // object, part: when it was last written
	rel    map[string]int           // released by the first call: when
	acq    int                      // writes up to this one happen before the second call's accesses
	found  string
}

// raceOff: the instruction being executed belongs to the harness or to the
// implementation of a synchronisation primitive
var raceOff bool

// raceOn: some state has a log
var raceOn bool

func (l *raceLog) copy() *raceLog {
	n := *l
	n.writes = make(map[ObjID]map[string]int, len(l.writes)+1)
	for k, v := range l.writes {
		n.writes[k] = v
	}
	n.rel = make(map[string]int, len(l.rel)+1)
	for k, v := range l.rel {
		n.rel[k] = v
	}
	return &n
}

// part names the part of an object that a path leads to ("" is all of it)
func part(path []PElem) string {
	s := ""
	for _, e := range path {
		if e.t != nil {
			break
		}
		s += "." + strconv.Itoa(e.k)
	}
	return s
}

func overlap(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	return strings.HasPrefix(b, a) && (len(a) == len(b) || a == "" || b[len(a)] == '.')
}

func (w *World) touch(id ObjID, path []PElem, write bool) {
	l := w.race
	if l == nil || raceOff || l.phase == 0 {
		return
	}
	if id > l.mark {
		if _, base := baseHeap[id]; !base {
			return
		}
	}
	if l.phase == 1 {
		if !write {
			return
		}
		l = l.copy()
		l.seq++
		m := map[string]int{part(path): l.seq}
		for k, v := range l.writes[id] {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
		l.writes[id] = m
		w.race = l
		return
	}
	if l.found != "" {
		return
	}
	for k, v := range l.writes[id] {
		if v > l.acq && overlap(k, part(path)) {
			l = l.copy()
			l.found = fmt.Sprintf("%s %s", w.peek(id).name, types.TypeString(w.peek(id).typ, nil))
			w.race = l
			return
		}
	}
}

func syncKey(v Value) string {
	p, ok := v.(Ptr)
	if !ok {
		return ""
	}
	return strconv.Itoa(int(p.obj)) + part(p.path)
}

func (w *World) release(v Value) {
	if l := w.race; l != nil && l.phase == 1 {
		l = l.copy()
		l.rel[syncKey(v)] = l.seq
		w.race = l
	}
}

func (w *World) acquire(v Value) {
	if l := w.race; l != nil && l.phase == 2 && l.rel[syncKey(v)] > l.acq {
		l = l.copy()
		l.acq = l.rel[syncKey(v)]
		w.race = l
	}
}

// raceKey: states with different logs are not joined
func (w *World) raceKey() string {
	l := w.race
	if l == nil || (len(l.writes) == 0 && l.found == "") {
		return ""
	}
	var ks []string
	for id, m := range l.writes {
		for k, v := range m {
			ks = append(ks, fmt.Sprintf("%d%s=%d", id, k, v))
		}
	}
	for k, v := range l.rel {
		if v > 0 {
			ks = append(ks, fmt.Sprintf("r%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	return fmt.Sprintf("race%d,%d,%d,%s,%v", l.phase, l.seq, l.acq, l.found, ks)
}

// unwatched runs a model whose accesses are synchronised
func unwatched(m modelA) modelA {
	return func(ex *Exec, w *World, a []Value) []Outcome {
		off := raceOff
		raceOff = true
		defer func() { raceOff = off }()
		return m(ex, w, a)
	}
}

func acquiring(m modelA) modelA {
	return func(ex *Exec, w *World, a []Value) []Outcome {
		w.acquire(a[0])
		return unwatched(m)(ex, w, a)
	}
}

func releasing(m modelA) modelA {
	return func(ex *Exec, w *World, a []Value) []Outcome {
		w.release(a[0])
		return unwatched(m)(ex, w, a)
	}
}

func syncing(m modelA) modelA { return acquiring(releasing(m)) }

// trusted: packages whose own accesses are not watched
func (ex *Exec) trusted(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		return false
	}
	if p == ex.harness {
		return true
	}
	switch p.Pkg.Path() {
	case "sync", "sync/atomic", "internal/sync":
		return true
	}
	return false
}

func initRace() {
	// vfRace(f, g): f and g at the same time
	modelFnI("vfRace", func(ex *Exec, w *World, a []Value) []Outcome {
		raceOn = true
		w.race = &raceLog{mark: nextObj, phase: 1, writes: map[ObjID]map[string]int{}, rel: map[string]int{}}
		var outs []Outcome
		for _, o := range ex.callValue(w, a[0], nil) {
			if o.kind != oRet {
				outs = append(outs, o)
				continue
			}
			l := o.w.race.copy()
			l.phase = 2
			if len(l.writes) == 0 {
				ex.note("the first call wrote to nothing that existed before it: no later call can depend on it")
			}
			o.w.race = l
			for _, p := range ex.callValue(o.w, a[1], nil) {
				if p.kind == oRet {
					l := p.w.race.copy()
					l.phase = 0
					p.w.race = l
					if l.found != "" {
						ex.note("unordered access to " + l.found)
					}
				}
				outs = append(outs, p)
			}
		}
		return outs
	})
	modelFnI("vfRaceOK", func(ex *Exec, w *World, a []Value) []Outcome {
		return ret1(w, Bool(w.race == nil || w.race.found == ""))
	})
}
