package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// printer turns terms into SMT-LIB2 definitions, once per session.
type printer struct {
	done  map[int]bool
	out   *bytes.Buffer
	ufs   map[string]bool
	tabs  map[int]bool
	vars  map[*Term]bool
	scal  []*Term // scalars seen under gx / gy
	scalS map[*Term]bool
	muls  []*Term
	axN   int
	pts   map[string]int
}

func newPrinter() *printer {
	p := &printer{done: map[int]bool{}, out: &bytes.Buffer{}, ufs: map[string]bool{}, tabs: map[int]bool{}, vars: map[*Term]bool{}, scalS: map[*Term]bool{}, pts: map[string]int{}}
	p.out.WriteString(prelude)
	return p
}

const prelude = `(define-fun hexlo ((n (_ BitVec 4))) (_ BitVec 8) (ite (bvult n #xa) (bvadd (concat #x0 n) #x30) (bvadd (concat #x0 n) #x57)))
(define-fun hexup ((n (_ BitVec 4))) (_ BitVec 8) (ite (bvult n #xa) (bvadd (concat #x0 n) #x30) (bvadd (concat #x0 n) #x37)))
(define-fun hexok ((c (_ BitVec 8))) Bool (or (and (bvule #x30 c) (bvule c #x39)) (and (bvule #x61 c) (bvule c #x66)) (and (bvule #x41 c) (bvule c #x46))))
(define-fun hexval ((c (_ BitVec 8))) (_ BitVec 4) (ite (and (bvule #x30 c) (bvule c #x39)) ((_ extract 3 0) c) (ite (or (and (bvule #x61 c) (bvule c #x66)) (and (bvule #x41 c) (bvule c #x46))) (bvadd ((_ extract 3 0) c) #x9) #x0)))
`

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constLit(v *big.Int, w int) string {
	return fmt.Sprintf("(_ bv%s %d)", v.Text(10), w)
}

func varName(t *Term) string { return "|" + t.name + "|" }

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return constLit(t.val, t.w)
	case OVar:
		return varName(t)
	}
	return fmt.Sprintf("t%d", t.id)
}

// Known values of uninterpreted functions: where the encoder computed a digest
// of constant bytes, the function has that value.
type ufPoint struct{ arg, val *big.Int }

var ufPoints = map[string][]ufPoint{}

func addPoint(name string, arg, val *big.Int) {
	for _, p := range ufPoints[name] {
		if p.arg.Cmp(arg) == 0 {
			return
		}
	}
	ufPoints[name] = append(ufPoints[name], ufPoint{arg, val})
}

func (p *printer) flushPoints() {
	for n := range p.ufs {
		ps := ufPoints[n]
		for ; p.pts[n] < len(ps); p.pts[n]++ {
			q := ps[p.pts[n]]
			f := ufs[n]
			fmt.Fprintf(p.out, "(assert (= (|%s| %s) %s))\n", n, constLit(q.arg, f.in[0]), constLit(q.val, f.out))
		}
	}
}

// define emits the definitions needed for t.
func (p *printer) define(t *Term) {
	if p.done[t.id] || t.isLit() {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !a.isLit() && !p.done[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if p.done[x.id] {
			continue
		}
		p.done[x.id] = true
		p.emit(x)
	}
}

func (p *printer) emit(t *Term) {
	if t.op == OVar {
		p.vars[t] = true
		fmt.Fprintf(p.out, "(declare-const %s %s)\n", varName(t), sortName(t.w))
		if l := varLB[t]; l != nil {
			fmt.Fprintf(p.out, "(assert (bvule %s %s))\n(assert (bvule %s %s))\n", varName(t), constLit(t.ub, t.w), constLit(l, t.w), varName(t))
		}
		return
	}
	var body strings.Builder
	fn := ""
	switch t.op {
	case ONot:
		fn = "not"
	case OAnd:
		fn = "and"
	case OOr:
		fn = "or"
	case OEq:
		fn = "="
	case OUlt:
		fn = "bvult"
	case OSlt:
		fn = "bvslt"
	case OIte:
		fn = "ite"
	case OAdd:
		fn = "bvadd"
	case OSub:
		fn = "bvsub"
	case OMul:
		if t.w > 64 && !t.args[1].isConst() {
			fn = p.mulUF(t)
		} else {
			fn = "bvmul"
		}
	case OUdiv, OUrem:
		fn = "bvudiv"
		if t.op == OUrem {
			fn = "bvurem"
		}
		if t.w > 64 {
			fn = p.divUF(t)
		}
	case OSdiv:
		fn = "bvsdiv"
	case OSrem:
		fn = "bvsrem"
	case OBAnd:
		fn = "bvand"
	case OBOr:
		fn = "bvor"
	case OBXor:
		fn = "bvxor"
	case OBNot:
		fn = "bvnot"
	case OShl:
		fn = "bvshl"
	case OLshr:
		fn = "bvlshr"
	case OAshr:
		fn = "bvashr"
	case OConcat:
		fn = "concat"
	case OExtract:
		fn = fmt.Sprintf("(_ extract %d %d)", t.hi, t.lo)
	case OSext:
		fn = fmt.Sprintf("(_ sign_extend %d)", t.w-t.args[0].w)
	case OHexLo:
		fn = "hexlo"
	case OHexUp:
		fn = "hexup"
	case OHexVal:
		fn = "hexval"
	case OHexOk:
		fn = "hexok"
	case OTable:
		fn = fmt.Sprintf("tab%d", t.tab.id)
		if !p.tabs[t.tab.id] {
			p.tabs[t.tab.id] = true
			p.emitTable(t.tab)
		}
	case OApp:
		f := ufs[t.name]
		fn = "|" + t.name + "|"
		if !p.ufs[t.name] {
			p.ufs[t.name] = true
			var in []string
			for _, w := range f.in {
				in = append(in, sortName(w))
			}
			fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", fn, strings.Join(in, " "), sortName(f.out))
		}
	default:
		panic(fmt.Sprintf("emit op %d", t.op))
	}
	if fn == "concat" && len(t.args) > 2 {
		s := p.ref(t.args[0])
		for _, a := range t.args[1:] {
			s = "(concat " + s + " " + p.ref(a) + ")"
		}
		body.WriteString(s)
	} else {
		body.WriteString("(" + fn)
		for _, a := range t.args {
			body.WriteString(" " + p.ref(a))
		}
		body.WriteString(")")
	}
	fmt.Fprintf(p.out, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body.String())
	p.axioms(t)
}

// Products and remainders of wide symbolic values are abstracted by
// uninterpreted functions (with bounds): enough for congruence, and every
// counterexample is replayed.
func (p *printer) mulUF(t *Term) string {
	n := fmt.Sprintf("mul%d", t.w)
	if !p.ufs[n] {
		p.ufs[n] = true
		s := sortName(t.w)
		fmt.Fprintf(p.out, "(declare-fun %s (%s %s) %s)\n", n, s, s, s)
	}
	return n
}
func (p *printer) divUF(t *Term) string {
	n := fmt.Sprintf("udiv%d", t.w)
	if t.op == OUrem {
		n = fmt.Sprintf("urem%d", t.w)
	}
	if !p.ufs[n] {
		p.ufs[n] = true
		s := sortName(t.w)
		fmt.Fprintf(p.out, "(declare-fun %s (%s %s) %s)\n", n, s, s, s)
	}
	return n
}

func (p *printer) emitTable(t *Table) {
	// balanced decision tree on the index bits
	var sb strings.Builder
	var gen func(lo, hi, bit int)
	gen = func(lo, hi, bit int) {
		if lo >= len(t.vals) {
			sb.WriteString(constLit(bigZero, t.w))
			return
		}
		same := true
		for i := lo; i < hi && same; i++ {
			v := bigZero
			if i < len(t.vals) {
				v = t.vals[i]
			}
			if v.Cmp(t.vals[lo]) != 0 {
				same = false
			}
		}
		if same || bit < 0 {
			sb.WriteString(constLit(t.vals[lo], t.w))
			return
		}
		mid := lo + (hi-lo)/2
		fmt.Fprintf(&sb, "(ite (= ((_ extract %d %d) i) #b1) ", bit, bit)
		gen(mid, hi, bit-1)
		sb.WriteString(" ")
		gen(lo, mid, bit-1)
		sb.WriteString(")")
	}
	iw := t.iw
	k := 1
	for 1<<uint(k) < len(t.vals) {
		k++
	}
	if k > iw {
		k = iw
	}
	gen(0, 1<<uint(k), k-1)
	b := sb.String()
	if iw > k {
		b = fmt.Sprintf("(ite (= ((_ extract %d %d) i) %s) %s %s)", iw-1, k, constLit(bigZero, iw-k), b, constLit(bigZero, t.w))
	}
	fmt.Fprintf(p.out, "(define-fun tab%d ((i %s)) %s %s)\n", t.id, sortName(iw), sortName(t.w), b)
}

func (p *printer) assertT(t *Term) {
	if t == TTrue {
		return
	}
	p.define(t)
	fmt.Fprintf(p.out, "(assert %s)\n", p.ref(t))
	p.axN++
}

// axioms: facts about the uninterpreted functions, instantiated for the
// applications that occur in the queries.
func (p *printer) axioms(t *Term) {
	N := Const(curveN, 256)
	switch t.op {
	case OApp:
		if f := ufs[t.name]; f != nil && f.ub != nil && t.w > 0 && t.name != "gx" && t.name != "gy" && f.ub.Cmp(maxOf(t.w)) < 0 {
			p.assertRaw(rawUltT(t, Const(new(big.Int).Add(f.ub, bigOne), t.w)))
		}
		switch t.name {
		case "gx", "gy":
			s := t.args[0]
			if p.scalS[s] {
				return
			}
			p.scalS[s] = true
			gx, gy := App("gx", s), App("gy", s)
			p.define(gx)
			p.define(gy)
			if !s.isConst() {
				inr := And(Not(Eq(s, Const(bigZero, 256))), Ult(s, N))
				p.rawUlt(gx, curveP, inr)
				p.rawUlt(gy, curveP, inr)
				p.assertRaw(Implies(Eq(s, Const(bigOne, 256)), And(rawEq(gx, Const(curveGx, 256)), rawEq(gy, Const(curveGy, 256)))))
			}
			for _, o := range p.scal {
				p.pair(s, o)
			}
			p.scal = append(p.scal, s)
		case "oncurve":
			x, y := t.args[0], t.args[1]
			d := App("dlog", x, y)
			// oncurve(x,y) -> the point is d*G
			p.assertRaw(Implies(t, And(Not(Eq(d, Const(bigZero, 256))), rawEq(App("gx", d), Urem(x, Const(curveP, 256))), rawEq(App("gy", d), Urem(y, Const(curveP, 256))))))
		}
	case OMul:
		if t.w > 64 && !t.args[1].isConst() {
			a, b := t.args[0], t.args[1]
			z := Const(bigZero, t.w)
			o := Const(bigOne, t.w)
			p.assertRaw(Implies(Eq(a, z), rawEq(t, z)))
			p.assertRaw(Implies(Eq(b, z), rawEq(t, z)))
			p.assertRaw(Implies(Eq(a, o), rawEq(t, b)))
			p.assertRaw(Implies(Eq(b, o), rawEq(t, a)))
			if ub := t.UB(); ub.Cmp(maxOf(t.w)) < 0 {
				p.rawUlt(t, new(big.Int).Add(ub, bigOne), TTrue)
			}
			p.muls = append(p.muls, t)
		}
	case OUrem:
		if t.w > 64 {
			a, b := t.args[0], t.args[1]
			p.assertRaw(Implies(rawUltT(a, b), rawEq(t, a)))
			p.assertRaw(Or(Eq(b, Const(bigZero, t.w)), rawUltT(t, b)))
			// n is prime: a product of two factors in 1..n-1 is not 0 mod n
			if b.isConst() && b.val.Cmp(curveN) == 0 && a.op == OMul {
				z := Const(bigZero, a.w)
				p.assertRaw(Or(Eq(a.args[0], z), Eq(a.args[1], z), Not(rawUltT(a.args[0], b)), Not(rawUltT(a.args[1], b)), Not(rawEq(t, Const(bigZero, t.w)))))
			}
		}
	case OUdiv:
		if t.w > 64 {
			a, b := t.args[0], t.args[1]
			p.assertRaw(Implies(And(rawUltT(a, b)), rawEq(t, Const(bigZero, t.w))))
			p.assertRaw(Not(rawUltT(a, t)))
		}
	}
}

// raw versions: no simplification by the bounds that the axiom itself states
func rawEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val.Cmp(b.val) == 0)
	}
	if b.isConst() || a.id < b.id {
		return intern(&Term{op: OEq, args: []*Term{a, b}})
	}
	return intern(&Term{op: OEq, args: []*Term{b, a}})
}
func rawUltT(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return Bool(a.val.Cmp(b.val) < 0)
	}
	return intern(&Term{op: OUlt, args: []*Term{a, b}})
}
func (p *printer) rawUlt(a *Term, lim *big.Int, cond *Term) {
	l := rawUltT(a, Const(lim, a.w))
	if cond != TTrue {
		l = Or(Not(cond), And(l, Not(rawEq(a, Const(bigZero, a.w)))))
	}
	p.assertRaw(l)
}
func (p *printer) assertRaw(t *Term) { p.assertT(t) }

func (p *printer) pair(s, o *Term) {
	N := Const(curveN, 256)
	z := Const(bigZero, 256)
	rng := And(Not(Eq(s, z)), Ult(s, N), Not(Eq(o, z)), Ult(o, N))
	opp := Eq(s, Sub(N, o))
	gxs, gxo, gys, gyo := App("gx", s), App("gx", o), App("gy", s), App("gy", o)
	// opposite points
	p.assertRaw(Implies(And(rng, opp), And(rawEq(gxs, gxo), rawEq(gys, rawSub(Const(curveP, 256), gyo)))))
	// a point is determined by its coordinates
	p.assertRaw(Implies(And(rng, rawEq(gxs, gxo)), Or(Eq(s, o), opp)))
}
func rawSub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return Sub(a, b)
	}
	return intern(&Term{op: OSub, w: a.w, args: []*Term{a, b}})
}

// ---------------------------------------------------------------- sessions

type SolverStats struct {
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	Asserts int
	MaxTime time.Duration
}

type Session struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	p    *printer
	st   SolverStats
	dead bool
	log  *os.File
}

func z3Path() string {
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}

func NewSession() *Session {
	s := &Session{p: newPrinter()}
	s.cmd = exec.Command(z3Path(), "-in")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	if f := os.Getenv("SYM_SMTLOG"); f != "" {
		s.log, _ = os.Create(f)
	}
	s.write("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout 5000)\n")
	return s
}

func (s *Session) write(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *Session) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Session) flushDefs() {
	if s.p.out.Len() > 0 {
		s.write(s.p.out.String())
		s.p.out.Reset()
	}
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Check decides the conjunction of cs in the incremental session.
func (s *Session) Check(cs []*Term) Result {
	for _, c := range cs {
		if c == TFalse {
			return Unsat
		}
	}
	t0 := time.Now()
	for _, c := range cs {
		s.p.define(c)
	}
	s.p.flushPoints()
	s.flushDefs()
	var b strings.Builder
	b.WriteString("(push 1)\n")
	for _, c := range cs {
		if c != TTrue {
			b.WriteString("(assert " + s.p.ref(c) + ")\n")
		}
	}
	b.WriteString("(check-sat)\n(pop 1)\n")
	s.write(b.String())
	r := Unknown
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return Unknown
	}
	line = strings.TrimSpace(line)
	switch line {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
	default:
		fmt.Fprintln(os.Stderr, "solver says:", line)
		if strings.HasPrefix(line, "(error") {
			// swallow the answer that follows
			s.out.ReadString('\n')
		}
	}
	s.note(r, time.Since(t0))
	return r
}

// Value gives a value of t in some model of cs.
func (s *Session) Value(cs []*Term, t *Term) (*big.Int, Result) {
	for _, c := range cs {
		if c == TFalse {
			return nil, Unsat
		}
	}
	t0 := time.Now()
	for _, c := range cs {
		s.p.define(c)
	}
	s.p.define(t)
	s.p.flushPoints()
	s.flushDefs()
	var b strings.Builder
	b.WriteString("(push 1)\n")
	for _, c := range cs {
		if c != TTrue {
			b.WriteString("(assert " + s.p.ref(c) + ")\n")
		}
	}
	b.WriteString("(check-sat)\n")
	s.write(b.String())
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return nil, Unknown
	}
	r := Unknown
	switch strings.TrimSpace(line) {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	}
	var v *big.Int
	if r == Sat {
		s.write("(get-value (" + s.p.ref(t) + "))\n(echo \"done\")\n")
		var sb strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				s.dead = true
				return nil, Unknown
			}
			if strings.TrimSpace(l) == "done" {
				break
			}
			sb.WriteString(l)
		}
		o := sb.String()
		if i := strings.LastIndex(o, "#x"); i >= 0 {
			v, _ = new(big.Int).SetString(strings.TrimRight(strings.TrimSpace(o[i+2:]), ") \n"), 16)
		} else if i := strings.LastIndex(o, "#b"); i >= 0 {
			v, _ = new(big.Int).SetString(strings.TrimRight(strings.TrimSpace(o[i+2:]), ") \n"), 2)
		}
	}
	s.write("(pop 1)\n")
	s.note(r, time.Since(t0))
	return v, r
}

func (s *Session) note(r Result, d time.Duration) {
	s.st.Queries++
	s.st.Time += d
	if d > s.st.MaxTime {
		s.st.MaxTime = d
	}
	switch r {
	case Sat:
		s.st.Sat++
	case Unsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
}

// oneShot runs a full query in a fresh solver process and returns the model
// of the variables when satisfiable.
func oneShot(cs []*Term, timeout time.Duration, solver string) (Result, map[string]*big.Int, time.Duration) {
	p := newPrinter()
	for _, c := range cs {
		p.assertT(c)
	}
	p.flushPoints()
	var vars []*Term
	for v := range p.vars {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].name < vars[j].name })
	var b bytes.Buffer
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	b.Write(p.out.Bytes())
	b.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(varName(v) + " ")
		}
		b.WriteString("))\n")
	}
	if f := os.Getenv("SYM_ONESHOTLOG"); f != "" {
		os.WriteFile(f, b.Bytes(), 0o644)
	}
	var cmd *exec.Cmd
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	switch solver {
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--produce-models", "-")
	default:
		cmd = exec.CommandContext(ctx, solver, "-in")
	}
	cmd.Stdin = &b
	t0 := time.Now()
	o, _ := cmd.Output()
	d := time.Since(t0)
	s := string(o)
	nl := strings.IndexByte(s, '\n')
	if nl < 0 {
		return Unknown, nil, d
	}
	switch strings.TrimSpace(s[:nl]) {
	case "unsat":
		return Unsat, nil, d
	case "sat":
		return Sat, parseModel(s[nl+1:], vars), d
	}
	if strings.Contains(s, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", s[:min(len(s), 300)])
	}
	return Unknown, nil, d
}

func parseModel(s string, vars []*Term) map[string]*big.Int {
	m := map[string]*big.Int{}
	for _, v := range vars {
		key := varName(v)
		i := strings.Index(s, "("+key+" ")
		if i < 0 {
			// z3 prints simple symbols without bars
			i = strings.Index(s, "("+v.name+" ")
			key = v.name
		}
		if i < 0 {
			continue
		}
		rest := s[i+len(key)+2:]
		rest = strings.TrimSpace(rest)
		switch {
		case strings.HasPrefix(rest, "#x"):
			e := strings.IndexAny(rest, ") \n")
			x, _ := new(big.Int).SetString(rest[2:e], 16)
			m[v.name] = x
		case strings.HasPrefix(rest, "#b"):
			e := strings.IndexAny(rest, ") \n")
			x, _ := new(big.Int).SetString(rest[2:e], 2)
			m[v.name] = x
		case strings.HasPrefix(rest, "(_ bv"):
			e := strings.IndexAny(rest[5:], " ")
			x, _ := new(big.Int).SetString(rest[5:5+e], 10)
			m[v.name] = x
		case strings.HasPrefix(rest, "true"):
			m[v.name] = big.NewInt(1)
		case strings.HasPrefix(rest, "false"):
			m[v.name] = big.NewInt(0)
		}
	}
	return m
}
