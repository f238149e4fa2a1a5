package main

// The checks: run the jobs of a property, replay what the solver found on the
// real code, write the evidence, give the verdict.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type job struct {
	fn     string
	params string
	limit  int // seconds, 0: default
}

func (j job) String() string { return j.fn + "(" + j.params + ")" }

type assignment struct {
	Property string            `json:"property,omitempty"`
	Fn       string            `json:"fn"`
	Params   map[string]int    `json:"params"`
	Vars     map[string]string `json:"vars"`
	What     string            `json:"what,omitempty"`
	How      string            `json:"how,omitempty"`
}

type nativeResult struct {
	Status  string            `json:"status"`
	Msg     string            `json:"msg"`
	Vars    map[string]string `json:"vars"`
	Iters   int               `json:"iters"`
	Asserts int               `json:"asserts"`
}

type nativeStatus struct {
	End   bool              `json:"may_end"`
	Quiet bool              `json:"quiet"`
	Vars  map[string]string `json:"vars"`
}

type checker struct {
	prop    string
	tier    string
	seed    int64
	dir     string // scratch
	bin     string
	start   time.Time
	budget  time.Duration
	mu      sync.Mutex
	nrep    int
	iters   int
	seq     int
	results []*JobResult
	viol    []*assignment
	known   []string
	agreed  int
	vacuous int
	disag   []string
	samples []interface{}
	notes   []string
	skipped []string
	ctx     context.Context
	cancel  context.CancelFunc
	repSem  chan int
	find    []finding
}

type finding struct{ prop, fn, msg string }

// findings: the lines "finding: property=ID fn=HARNESS msg=TEXT" of the
// known-findings file
func loadFindings() []finding {
	var r []finding
	b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f finding
		l = strings.TrimPrefix(l, "finding: ")
		if i := strings.Index(l, " msg="); i >= 0 {
			f.msg = l[i+5:]
			l = l[:i]
		}
		for _, w := range strings.Fields(l) {
			if k, v, ok := strings.Cut(w, "="); ok {
				switch k {
				case "property":
					f.prop = v
				case "fn":
					f.fn = v
				}
			}
		}
		r = append(r, f)
	}
	return r
}

func (c *checker) log(f string, a ...interface{}) {
	fmt.Printf("[%6.1fs] %s\n", time.Since(c.start).Seconds(), fmt.Sprintf(f, a...))
}

func (c *checker) buildNative() error {
	if err := modCopy(); err != nil {
		return err
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": harnessFiles()})
	ovf := filepath.Join(c.dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return err
	}
	c.bin = filepath.Join(c.dir, "replay")
	args := []string{"build", "-overlay", ovf, "-o", c.bin}
	if c.prop == "C24" { // the replay is watched by the race detector
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./zzverif")...)
	cmd.Dir = repoDir()
	cmd.Env = goEnv()
	if c.prop == "C24" {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build: %v: %s", err, out)
	}
	return nil
}

// native runs an assignment on the real code, once or with a search around it.
// bad: what went wrong ("" if nothing).
func (c *checker) native(a *assignment, secs float64) (bad string, r nativeResult, vars map[string]string) {
	c.repSem <- 1
	defer func() { <-c.repSem }()
	c.mu.Lock()
	c.seq++
	n := c.seq
	c.mu.Unlock()
	dir := filepath.Join(c.dir, fmt.Sprintf("r%d", n))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	b, _ := json.Marshal(a)
	os.WriteFile(in, b, 0o644)
	args := []string{in, out}
	limit := 60 * time.Second
	if secs > 0 {
		args = append(args, fmt.Sprint(secs), fmt.Sprint(c.seed+int64(n)))
		limit += time.Duration(secs * float64(time.Second))
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin, args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	if c.prop == "C24" {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 log_path="+filepath.Join(dir, "race"))
	}
	err := cmd.Run()
	if fs, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(fs) > 0 {
		b, _ := os.ReadFile(fs[0])
		return raceText(string(b)), r, nil
	}
	if ob, e := os.ReadFile(out); e == nil && json.Unmarshal(ob, &r) == nil && r.Status != "" {
		c.mu.Lock()
		c.iters += r.Iters
		c.mu.Unlock()
		if r.Status == "assert" || r.Status == "panic" {
			return r.Status + ": " + r.Msg, r, r.Vars
		}
		return "", r, r.Vars
	}
	var st nativeStatus
	sb, _ := os.ReadFile(out + ".status")
	if json.Unmarshal(sb, &st) != nil {
		return "", r, nil // the runner did not start
	}
	var ee *exec.ExitError
	code := -1
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err == nil {
		code = 0
	}
	if code == 9 {
		return "", r, nil
	}
	if ctx.Err() != nil {
		if st.End {
			return "", r, st.Vars
		}
		return "no answer within " + limit.String(), r, st.Vars
	}
	if st.Quiet {
		if fi, e := os.Stat(out + ".sink"); e == nil && fi.Size() > 0 && code != 2 {
			return "the call wrote to the standard streams and ended the process", r, st.Vars
		}
	}
	if st.End {
		return "", r, st.Vars
	}
	return fmt.Sprintf("the call ended the process (exit code %d)", code), r, st.Vars
}

// raceText shortens a report of the race detector: the two accesses and the
// functions they are in
func raceText(s string) string {
	var r []string
	n := 0
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "Goroutine"):
			n = 0
		case strings.Contains(l, " at 0x"):
			i := strings.Index(l, " at 0x")
			r = append(r, l[:i])
			n = 1
		case n > 0 && strings.HasSuffix(t, ")") && strings.Contains(t, "btc."):
			r = append(r, "in "+t)
			n = 0
		}
	}
	return "data race: " + strings.Join(r, ", ")
}

// report confirms a failure in a fresh process and records it
func (c *checker) report(a *assignment, bad string, how string) bool {
	again, r, _ := c.native(a, 0)
	if again == "" {
		return false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.find {
		if f.prop == c.prop && f.fn == a.Fn && (r.Msg == f.msg || again == f.msg) {
			l := fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", c.prop, a.Fn, again)
			for _, k := range c.known {
				if k == l {
					return true
				}
			}
			c.known = append(c.known, l)
			return true
		}
	}
	v := *a
	v.Property, v.What, v.How = c.prop, again, how
	if r.Vars != nil {
		v.Vars = r.Vars
	}
	c.viol = append(c.viol, &v)
	c.cancel()
	return true
}

func (c *checker) judge(j job, r *JobResult) {
	search := 3.0
	if c.tier == "thorough" {
		search = 20
	}
	done := map[string]int{}
	hit := false
	for pass := 0; pass < 2; pass++ {
		for _, cd := range r.Cands {
			if c.ctx.Err() != nil {
				return
			}
			if (cd.Kind == "witness") != (pass == 1) {
				continue
			}
			a := &assignment{Fn: r.Fn, Params: r.Params, Vars: cd.Vars}
			if cd.Kind == "witness" {
				if done["w"] >= 6 {
					continue
				}
				done["w"]++
				bad, n, _ := c.native(a, 0)
				if bad != "" && c.report(a, bad, "witness of a path") {
					return
				}
				c.mu.Lock()
				if n.Status == "ok" {
					c.agreed++
					if len(c.samples) < 4 {
						c.samples = append(c.samples, map[string]interface{}{"harness": j.String(), "inputs": cd.Vars, "result": "the real code reached the same assertions and satisfied them"})
					}
				} else {
					c.vacuous++
				}
				c.mu.Unlock()
				continue
			}
			key := cd.Kind + cd.Site + cd.Msg
			if done[key] >= 3 || hit {
				continue
			}
			done[key]++
			bad, _, _ := c.native(a, 0)
			if bad != "" && c.report(a, bad, "solver counterexample: "+cd.Kind+" "+cd.Msg) {
				hit = true
				continue
			}
			bad, _, vars := c.native(a, search)
			if bad != "" && len(vars) > 0 {
				a.Vars = vars
				if c.report(a, bad, "concretised from the solver's counterexample: "+cd.Kind+" "+cd.Msg) {
					hit = true
					continue
				}
			}
			cd.Verdt = "not reproduced"
			c.mu.Lock()
			c.disag = append(c.disag, j.String()+": "+cd.Kind+" "+cd.Msg+" ("+cd.Site+")")
			c.mu.Unlock()
		}
	}
	// what the solver did not decide: try the real code on the way
	if r.Error != "" || r.Stopped != "" || len(r.Undecided) > 0 || unknowns(r) > 0 {
		if c.ctx.Err() != nil {
			return
		}
		a := &assignment{Fn: r.Fn, Params: r.Params, Vars: map[string]string{}}
		for i := 0; i < 2; i++ {
			bad, _, vars := c.native(a, search)
			if bad != "" {
				if vars != nil {
					a.Vars = vars
				}
				if c.report(a, bad, "concrete run of a harness that the solver left undecided") {
					return
				}
			}
		}
	}
}

func unknowns(r *JobResult) int {
	n := 0
	for _, a := range r.Asserts {
		n += a.Unknown
	}
	return n
}

func (c *checker) runJob(j job, limit int, query int) *JobResult {
	c.mu.Lock()
	c.seq++
	out := filepath.Join(c.dir, fmt.Sprintf("job%d.json", c.seq))
	c.mu.Unlock()
	if j.limit > 0 && c.tier == "quick" {
		limit = j.limit
	}
	if left := int((c.budget - time.Since(c.start)).Seconds()); left < limit {
		limit = left
	}
	r := &JobResult{Fn: j.fn, Params: parseParams(j.params)}
	if limit < 5 {
		r.Stopped = "not run: no time left"
		return r
	}
	ctx, cancel := context.WithTimeout(c.ctx, time.Duration(limit+40)*time.Second)
	defer cancel()
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self, "run", "-fn", j.fn, "-params", j.params, "-out", out, "-limit", strconv.Itoa(limit), "-query", strconv.Itoa(query))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Dir = c.dir
	stop, done := make(chan bool), make(chan bool)
	go func() {
		defer close(done)
		c.early(j, r, out+".cands", stop)
	}()
	o, err := cmd.CombinedOutput()
	close(stop)
	<-done
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	b, e := os.ReadFile(out)
	if e != nil || json.Unmarshal(b, r) != nil {
		if c.ctx.Err() != nil {
			r.Stopped = "stopped after a violation"
			return r
		}
		r.Error = fmt.Sprintf("no result: %v %s", err, tail(string(o), 300))
	}
	return r
}

// early replays the candidates of a running job
func (c *checker) early(j job, r *JobResult, file string, stop chan bool) {
	n := 0
	for {
		select {
		case <-stop:
			return
		case <-c.ctx.Done():
			return
		case <-time.After(time.Second):
		}
		b, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		ls := strings.Split(string(b), "\n")
		for ; n < len(ls)-1; n++ {
			var cd Candidate
			if json.Unmarshal([]byte(ls[n]), &cd) != nil {
				continue
			}
			a := &assignment{Fn: r.Fn, Params: r.Params, Vars: cd.Vars}
			if bad, _, _ := c.native(a, 0); bad != "" && c.report(a, bad, "solver counterexample: "+cd.Kind+" "+cd.Msg) && c.ctx.Err() != nil {
				return
			}
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func checkMain(args []string) int {
	c := &checker{start: time.Now(), tier: "quick", seed: 1}
	if os.Getenv("VERIF_TIER") == "thorough" {
		c.tier = "thorough"
	}
	for _, a := range args {
		switch a {
		case "quick", "thorough":
			c.tier = a
		default:
			c.prop = a
		}
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	}
	par := 8
	limit, query := 150, 60
	c.budget = 420 * time.Second
	if c.tier == "thorough" {
		limit, query = 1800, 900
		c.budget = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			c.budget = time.Duration(n) * time.Second
		}
	}
	c.find = loadFindings()
	c.repSem = make(chan int, 8)
	c.ctx, c.cancel = context.WithCancel(context.Background())
	os.MkdirAll(filepath.Join(verifDir(), "bin"), 0o755)
	var err error
	c.dir, err = os.MkdirTemp("", "vfcheck-"+c.prop+"-")
	if err != nil {
		c.dir, _ = os.MkdirTemp(filepath.Join(verifDir(), "bin"), "check-")
	}
	defer os.RemoveAll(c.dir)
	jobs := jobsOf(c.prop, c.tier)
	if len(jobs) == 0 {
		fmt.Println("no such property", c.prop)
		return 0
	}
	if err := c.buildNative(); err != nil {
		c.notes = append(c.notes, "the harness does not build against this tree, nothing was decided: "+err.Error())
		c.log("%s", c.notes[0])
		c.evidence(jobs)
		return 0
	}
	c.log("%s: %d jobs, tier %s", c.prop, len(jobs), c.tier)
	sem := make(chan int, par)
	var wg sync.WaitGroup
	run := func(jobs []job) {
		for _, j := range jobs {
			j := j
			sem <- 1
			if c.ctx.Err() != nil {
				<-sem
				break
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				r := c.runJob(j, limit, query)
				if c.ctx.Err() == nil {
					c.judge(j, r)
				}
				c.mu.Lock()
				c.results = append(c.results, r)
				c.mu.Unlock()
				state := "all assertions discharged"
				if r.Error != "" || r.Stopped != "" || len(r.Undecided) > 0 || unknowns(r) > 0 {
					state = "NOT DECIDED: " + strings.TrimSpace(r.Error+" "+r.Stopped+" "+strings.Join(keysOf(r.Undecided), "; "))
				}
				for _, cd := range r.Cands {
					if cd.Kind == "assert" || cd.Kind == "end" {
						state = "counterexample"
					}
				}
				c.log("%s %.1fs: %s", j, r.Wall, state)
			}()
		}
		wg.Wait()
	}
	run(jobs)
	// with the variables that the code reads set
	var more []job
	for _, r := range c.results {
		for n := range r.Notes {
			if strings.HasPrefix(n, envNote) {
				for _, j := range jobs {
					if j.fn == r.Fn && fmt.Sprint(parseParams(j.params)) == fmt.Sprint(r.Params) {
						for e := 1; e <= 2; e++ {
							k := j
							k.params = strings.TrimPrefix(fmt.Sprintf("%s,env=%d", j.params, e), ",")
							more = append(more, k)
						}
					}
				}
				break
			}
		}
	}
	if len(more) > 0 && c.ctx.Err() == nil {
		c.log("%d jobs again with the environment variables set", len(more))
		run(more)
		jobs = append(jobs, more...)
	}
	code := 0
	for _, k := range c.known {
		fmt.Println(k)
	}
	for i, v := range c.viol {
		d := filepath.Join(verifDir(), "replay")
		os.MkdirAll(d, 0o755)
		p := filepath.Join(d, fmt.Sprintf("%s-%d.json", c.prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s on %s %v with %v\n", v.What, v.Fn, v.Params, v.Vars)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
		code = 1
	}
	c.evidence(jobs)
	c.log("exit %d", code)
	return code
}

func (c *checker) evidence(jobs []job) {
	fns, models, notes := map[string]int{}, map[string]int{}, map[string]int{}
	var steps int64
	states, queries, unsat, sat, unk, triv, dis, asserts, reached := 0, 0, 0, 0, 0, 0, 0, 0, 0
	solve := 0.0
	var bounds, undec []string
	solvers := map[string]int{}
	sort.Slice(c.results, func(i, k int) bool {
		a, b := c.results[i], c.results[k]
		return a.Fn+fmt.Sprint(a.Params) < b.Fn+fmt.Sprint(b.Params)
	})
	var inputs = map[string]int{}
	for _, r := range c.results {
		for k, v := range r.Fns {
			fns[k] += v
		}
		for k, v := range r.Models {
			models[k] += v
		}
		for k, v := range r.Notes {
			notes[k] += v
		}
		for _, i := range r.Inputs {
			if i.Bits > inputs[i.Name] {
				inputs[i.Name] = i.Bits
			}
		}
		steps += r.Steps
		states += r.Forks + 1
		queries += r.Queries
		unsat += r.QUnsat
		sat += r.QSat
		unk += r.QUnknown
		solve += r.SolveTime
		for _, a := range r.Asserts {
			asserts += a.Trivial + a.Unsat + a.Sat + a.Unknown
			triv += a.Trivial
			dis += a.Unsat
			if a.Reached == "sat" {
				reached++
			}
			if a.Solver != "" {
				solvers[a.Solver]++
			}
		}
		h := fmt.Sprintf("%s%v", r.Fn, r.Params)
		bounds = append(bounds, h)
		if r.Error != "" || r.Stopped != "" || len(r.Undecided) > 0 || unknowns(r) > 0 {
			undec = append(undec, fmt.Sprintf("%s: %s %s %s unknown=%d", h, r.Error, r.Stopped, strings.Join(keysOf(r.Undecided), "; "), unknowns(r)))
		}
	}
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   steps,
		"traces_validated_against_impl": c.agreed,
		"samples":                       c.samples,
		"meaning":                       "states: symbolic states (joined paths, each standing for all inputs of its path condition); transitions: SSA instructions executed symbolically; traces: solver models of paths that were run on the real code and agreed",
		"functions_encoded":             fns,
		"library_models":                models,
		"harnesses_and_bounds":          bounds,
		"input_bits":                    inputs,
		"assertions":                    asserts,
		"assertions_by_simplifier":      triv,
		"assertions_by_solver":          dis,
		"assertion_sites_reachable":     reached,
		"queries":                       queries,
		"queries_unsat":                 unsat,
		"queries_sat":                   sat,
		"queries_unknown":               unk,
		"solver_time_s":                 solve,
		"solvers":                       solvers,
		"outside_the_bound":             append(undec, c.notes...),
		"candidates_not_reproduced":     c.disag,
		"witnesses_not_concretisable":   c.vacuous,
		"jobs_planned":                  len(jobs),
		"jobs_run":                      len(c.results),
		"known_findings":                c.known,
	}
	if c.samples == nil {
		cov["samples"] = []interface{}{}
	}
	var as []string
	for _, k := range keysOf(notes) {
		as = append(as, k)
	}
	as = append(as, baseAssumptions...)
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": cov, "assumptions": as, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir(), "evidence", c.prop+".json"), b, 0o644)
}

var baseAssumptions = []string{
	"SHA256, SHA512, RIPEMD160 and PBKDF2 are uninterpreted functions of their input bytes (the standard library computes them; what the code hashes, and what it does with the digest, is encoded)",
	"the group law of secp256k1 is that of scalars modulo n (points are k*G; ecdsa's ScalarMult, Add, IsOnCurve and GetY are modelled by it, checked by replays on the real library)",
	"Base58 is a bijection between byte strings and digit strings, with the numeral read as an integer where the code looks at it",
	"harness inputs are the bound: lengths and counts are the parameters listed in harnesses_and_bounds, the values of the bytes and numbers are symbolic",
}
