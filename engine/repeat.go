package main

// Counting state: a call is executed twice; the integers that existed before
// and grew by the same constant both times are then what any number of
// further calls would make of them.

import (
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// grown: v2 after m more steps like those from v0 to v1 and to v2
func grown(v0, v1, v2 Value, m *Term, n *int) Value {
	switch c := v2.(type) {
	case *Term:
		a, ok := v0.(*Term)
		b, ok2 := v1.(*Term)
		if !ok || !ok2 || a == nil || b == nil || c == nil || a.w != b.w || b.w != c.w || c.w < 8 || !a.isConst() || !b.isConst() || !c.isConst() || b == c {
			return v2
		}
		d := Sub(c, b)
		if d != Sub(b, a) {
			return v2
		}
		*n++
		return Add(c, Mul(fit(m, c.w), d))
	case StructV:
		a, ok := v0.(StructV)
		b, ok2 := v1.(StructV)
		if !ok || !ok2 || len(a) != len(c) || len(b) != len(c) {
			return v2
		}
		r := make(StructV, len(c))
		for i := range c {
			r[i] = grown(a[i], b[i], c[i], m, n)
		}
		return r
	case ArrayV:
		a, ok := v0.(ArrayV)
		b, ok2 := v1.(ArrayV)
		if !ok || !ok2 || len(a) != len(c) || len(b) != len(c) || len(c) > 64 {
			return v2
		}
		r := make(ArrayV, len(c))
		for i := range c {
			r[i] = grown(a[i], b[i], c[i], m, n)
		}
		return r
	}
	return v2
}

// The environment: in jobs without the parameter env nothing is set. A job that
// reads it is repeated with every variable set to "1" and to "true".
const envNote = "reads the environment variable "

func envValue(n int) string {
	switch n {
	case 1:
		return "1"
	case 2:
		return "true"
	}
	return ""
}

func initEnv() {
	get := func(ex *Exec, a []Value) string {
		ex.note(envNote + cstr(a[0]))
		return envValue(ex.params["env"])
	}
	for _, n := range []string{"os.Getenv", "syscall.Getenv", "os.LookupEnv"} {
		n := n
		model(n, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			v := get(ex, a)
			if n == "os.Getenv" {
				return ret1(w, constStr(v))
			}
			return ret1(w, TupleV{constStr(v), Bool(v != "")})
		})
	}
}

func initRepeat() {
	initEnv()
	modelFnI("vfRepeat", func(ex *Exec, w *World, a []Value) []Outcome {
		name, max := cstr(a[0]), mustInt(a[1])
		s0 := ex.snapshot(w)
		var outs []Outcome
		for _, o := range ex.callValue(w, a[2], nil) {
			if o.kind != oRet {
				outs = append(outs, o)
				continue
			}
			s1 := ex.snapshot(o.w)
			for _, p := range ex.callValue(o.w, a[2], nil) {
				if p.kind == oRet {
					m := fit(ex.freshRange(p.w, name, big.NewInt(0), big.NewInt(max), "int"), 64)
					s2, n := ex.snapshot(p.w), 0
					for id, o0 := range s0 {
						o1, o2 := s1[id], s2[id]
						if o1 == nil || o2 == nil || o2 == o1 {
							continue
						}
						k := n
						if v := grown(o0.val, o1.val, o2.val, m, &n); n > k {
							p.w.setObj(id, v)
						}
					}
					if n == 0 {
						ex.note("repeating a call counts nothing")
					}
					p.ret = TupleV{}
				}
				outs = append(outs, p)
			}
		}
		return outs
	})
}
